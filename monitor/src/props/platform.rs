//! P40: the same on every platform.

use crate::exec::{bad, Code, Fail, Observer};
use crate::gen;
use crate::model::*;
use crate::props::api;
use crate::props::args::{bad_addr, bad_spec, mutate};
use crate::props::sys::{small_net, tame, token};
use crate::rng::Rng;
use crate::{args, show_cmd, short, Ctx, Prop};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P40", systematic: SYSTEMATIC, plain_only: false, case: p40,
            rule: "A case is a command line that is run natively and by builds for other platforms (32 bits, big-endian, and both), which Miri interprets, and which must print the same and end alike; or a list of calls through the API hook that one of these builds answers and that is compared with exact integers as in P26 to P29. Distinct by command line or operands." },
    ]
}

const SYSTEMATIC: u64 = 60;

/// Numbers at which a word of the machine ends.
fn edge(r: &mut Rng) -> u128 {
    let k = *r.pick(&[8u32, 15, 16, 31, 32, 33, 63, 64, 65, 127]);
    (1u128 << k).wrapping_add(r.range(-3, 2) as i128 as u128)
}

/// Requests for halves, quarters and so on of a network with `h` host bits, so that little is left.
fn halves(h: u32, k: u32, r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = (1..=k.min(h.saturating_sub(1))).map(|j| {
        let size = 1u128 << (h - j);
        let most = if size > 2 { size - 2 } else { 1 };
        let less = if r.chance(1, 2) { 2 } else { size / 2 - 1 };
        (if size > 8 { most - r.upto(less) } else { most }).to_string()
    }).collect();
    if v.is_empty() { v.push("1".to_owned()); }
    let l = v.len();
    for a in 0..l { let b = r.usize(l); v.swap(a, b); }
    v
}

/// A command line that an interpreter gets through in a few seconds.
fn command(i: u64, r: &mut Rng) -> Vec<String> {
    // every row of an IPv6 display takes its time
    let f = if r.chance(2, 3) { V4 } else { V6 };
    let spec = |f: Fam, r: &mut Rng| { let m = gen::any_mask(f, r); gen::spell(f, gen::addr(f, r), m, r) };
    match i % 20 {
        0 => vec![spec(V4, r)],
        1 => vec![spec(f, r)],
        2 => { let n = gen::cidr(f, r); vec![n.text()] },
        3 | 4 | 5 => {
            // a few networks, of the largest sizes too, at edges
            let h = r.u32r(1, f.w());
            let base = (if r.chance(1, 2) { edge(r) } else { gen::addr(f, r) }) & f.all() & !f.ones(h);
            let cut = |r: &mut Rng| { let j = r.u32r(h.saturating_sub(4), h); r.u128() & f.ones(h) & !f.ones(j) };
            let (mut a, mut b) = (base | cut(r), base | f.ones(h) & !cut(r));
            if r.chance(1, 3) { a += 1; }
            if r.chance(1, 3) { b -= 1; }
            if a.max(b) - a.min(b) > 16 && (a & 1 == 1 && h > 24 || b & 1 == 0 && h > 24) { a = base; b = base | f.ones(h); }
            let (a, b) = if r.chance(1, 2) { (b & f.all(), a & f.all()) } else { (a & f.all(), b & f.all()) };
            args(&["-d".to_owned(), gen::spell_addr(f, a, r), gen::spell_addr(f, b, r)])
        },
        6 | 7 => { let mut v = args(&["-m"]); for _ in 0..r.u32r(1, 6) { v.push(if r.chance(2, 3) { small_net(f, 5, r).text() } else { gen::cidr(f, r).text() }); } v },
        8 => {
            // subnets on both sides of an edge
            let h = r.u32r(1, f.w() - 1);
            let a = if r.chance(1, 2) { edge(r) & f.all() } else { gen::addr(f, r) };
            let n = Net::p(f, a, f.w() - h);
            let mut v = args(&["-m"]);
            v.push(n.text());
            v.push(Net::p(f, n.base ^ (1 << h), f.w() - h).text());
            if r.chance(1, 2) { v.push(Net::p(f, n.base ^ (2u128 << h) & f.all(), f.w() - h).text()); }
            v
        },
        9 | 10 => {
            let f = if r.chance(7, 8) { V4 } else { V6 };
            let h = if f == V4 { *r.pick(&[2, 8, 16, 24, 30, 31, 32, 32]) } else { *r.pick(&[31, 32, 33, 34, 63, 64, 65, 66, 127, 128]) };
            let mut v = args(&["-s".to_owned(), gen::cidr_p(f, f.w() - h, r).text()]);
            let k = if f == V4 { r.u32r(1, 2) } else { 1 };
            v.extend(halves(h, k, r));
            v
        },
        11 => {
            // does not fit, by far or by one
            let h = if f == V4 { r.u32r(0, 32) } else { *r.pick(&[0, 31, 32, 33, 63, 64, 65, 128]) };
            let mut v = args(&["-s".to_owned(), gen::cidr_p(f, f.w() - h, r).text()]);
            for _ in 0..if f == V4 { r.u32r(1, 2) } else { 0 } { v.push(match r.below(3) { 0 => edge(r).to_string(), 1 => f.ones(h).to_string(), _ => f.ones(h).saturating_sub(2).to_string() }); }
            v.push(if h == 128 { "340282366920938463463374607431768211455".to_owned() } else { ((1u128 << h) - if h > 0 && r.chance(1, 2) { 1 } else { 0 }).to_string() });
            v
        },
        12 => {
            let n = Net::new(f, gen::addr(f, r), gen::any_mask(f, r));
            let h = if f == V4 { r.u32r(n.host_bits().saturating_sub(1), f.w()) } else { r.u32r(n.host_bits(), f.w()) };
            args(&["-r".to_owned(), gen::spell_net(&n, r), gen::spell_mask_arg(f, if h == 0 || h == f.w() || r.chance(1, 2) { f.pmask(f.w() - h) } else { gen::hosts_at(f, h, r) }, r)])
        },
        13 | 14 => args(&["-e".to_owned(), gen::spell_net(&small_net(f, 5, r), r)]),
        15 => {
            // across an edge
            let h = r.u32r(1, 5);
            let low = r.u32r(0, f.w() - h);
            let n = Net::new(f, gen::addr(f, r), f.all() & !(f.ones(h) << low));
            args(&["-e".to_owned(), n.text()])
        },
        16 => {
            // numbers too large for something
            let (good, n) = (if f == V4 { "198.51.100.77" } else { "2001:db8::77" }, edge(r));
            match r.below(7) {
                0 => vec![format!("{}/{}", good, n)],
                1 => vec![format!("{}/-{}", good, n)],
                2 => args(&["-r", &format!("{}/30", good), &n.to_string()]),
                3 => args(&["-d", &format!("1.2.{}.4", n), "1.2.3.4"]),
                4 => args(&["-d", &format!("1:2:{:x}::4", n), "::"]),
                5 => args(&["-s", &format!("{}/24", good), &n.to_string(), &edge(r).to_string(), "340282366920938463463374607431768211456"]),
                _ => vec![format!("{}/{}", good, n + f.w() as u128)],
            }
        },
        17 => match r.below(4) {
            0 => vec![bad_spec(r)],
            1 => { let mut v = [bad_addr(f, r), addr_text(f, gen::addr(f, r))]; let k = r.usize(2); v.swap(0, k); args(&["-d", &v[0], &v[1]]) },
            2 => { let s = spec(f, r); vec![mutate(&s, r)] },
            _ => args(&["-r".to_owned(), spec(f, r), bad_addr(f, r)]),
        },
        18 => match r.below(3) {
            0 => args(&["-e", &bad_spec(r), &small_net(V4, 2, r).text(), &bad_spec(r)]),
            1 => args(&[*r.pick(&["-m", "-e", "-d", "-s", "-r"]), &bad_spec(r), &token(r)]),
            _ => (0..r.u32r(1, 2)).map(|_| token(r)).collect(),
        },
        _ => args(&[["--help", "-q", "--color-test", "-m"][(i / 20 % 4) as usize]]),
    }
}

/// Whether a number is given that does not fit into some machine word: what is said about it may then depend on the machine.
fn vast(cmd: &[String]) -> bool {
    cmd.iter().any(|a| a.split(|c: char| !c.is_ascii_digit()).any(|n| n.trim_start_matches('0').len() >= 10))
}

fn p40(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    for (name, log) in &c.x.paths.unbuilt {
        if let Some(n) = name.strip_prefix("platform-") {
            return bad(format!("for {} the program does not even build: {}", n, short(log)));
        }
    }
    let all = c.x.paths.platforms.len();
    if all == 0 { return Err(Fail::Unsure("no other platform".to_owned())); }
    // each thread has its platform; whatever is to be confirmed is seen on all
    let which: Vec<usize> = if c.x.batch { vec![c.thread % all] } else { (0..all).collect() };
    if i % 6 == 0 {
        // arithmetic and conversions, as another machine does them
        // an index that means calls
        let (j, what) = (30_000_001 + 30 * i, if i < SYSTEMATIC { i / 6 % 4 } else { r.below(4) });
        for k in which {
            if !c.x.paths.platforms[k].api { c.count("calls are not available"); continue; }
            c.x.platform = Some(k);
            let mut r = r.clone();
            let (name, o) = match what {
                0 => ("arithmetic", api::p26(c, j, &mut r)),
                1 => ("bit moving", api::p27(c, j, &mut r)),
                2 => ("relations", api::p28(c, j, &mut r)),
                _ => ("conversions", api::p29(c, j, &mut r)),
            };
            c.x.platform = None;
            let n = c.x.paths.platforms[k].name.clone();
            match o {
                Ok(()) => c.count(format!("lists of calls answered by {}, {}", n, name)),
                Err(Fail::Bad(m)) => return bad(format!("on {}: {}", n, m)),
                Err(e) => return Err(e),
            }
        }
        return Ok(());
    }
    let cmd = command(i, r);
    if !tame(&cmd) || cmd.iter().any(|a| a.contains('\0')) { c.count("left out as too large"); return Ok(()); }
    let color = r.chance(1, 10);
    let here = c.x.run(&cmd, color)?;
    if !matches!(here.code, Code::Exit(0 | 1)) || here.out.len() > if cmd[0].starts_with('-') && !cmd[0].contains(|c: char| c == 's' || c == 'r') { 600 } else { 4000 } { c.count("left out as too large"); return Ok(()); }
    for k in which {
        let n = c.x.paths.platforms[k].name.clone();
        let o = match c.x.run_observed(&cmd, color, Observer::Platform(k))? { Some(o) => o, None => return Ok(()) };
        let e = o.err_text();
        // what the interpreter cannot do is no result
        let odd = ["error: unsupported operation", "error: Undefined Behavior", "resource exhaustion", "error: process didn't", "error: aborting", "error: post-monomorphization", "fatal error: ", "warning: "].iter().any(|m| e.contains(m));
        if odd || !matches!(o.code, Code::Exit(_)) { return Err(Fail::Unsure(format!("{} on {} ends with {:?}, {:?}", show_cmd(&cmd), n, o.code, short(&e)))); }
        c.note(format!("{} on {}", show_cmd(&cmd), n));
        if o.code != here.code || o.out != here.out {
            return bad(format!("{} on {} ends with {:?} and prints {:?} {:?}, but here with {:?} and {:?} {:?}", show_cmd(&cmd), n, o.code, short(&o.text()), short(&e), here.code, short(&here.text()), short(&here.err_text())));
        }
        if if vast(&cmd) { o.err.is_empty() != here.err.is_empty() } else { o.err != here.err } {
            return bad(format!("{} on {} says {:?}, but here {:?}", show_cmd(&cmd), n, short(&e), short(&here.err_text())));
        }
        c.count(format!("command lines on {}", n));
        c.add("bytes of output compared", o.out.len() as u64);
    }
    Ok(())
}
