//! P01 and P02: how arguments are read.

use crate::exec::{bad, Code, Fail};
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::show;
use crate::{args, show_cmd, short, Ctx, Prop};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P01", systematic: 33 + 129 + 256, plain_only: false, case: p01,
            rule: "A case is a command line of any mode in which every address and mask is respelled (leading zeros, IPv6 shortenings, prefix, mask, minus-wildcard, minus-host-bits; set host bits where they do not matter) and which must print the same bytes as the plain spelling. Every prefix of both families and every IPv6 zero-group pattern comes first. Distinct by command line." },
        Prop { id: "P02", systematic: 2006 + SHAPE_CASES, plain_only: false, case: p02,
            rule: "Every arrangement of groups and colons (up to ten groups, one doubled or tripled separator, up to three leading and trailing colons) and of octets and dots, every boundary value of every group and octet, and every length of a prefix to 300 comes early, in every place where an address or mask is read. A case is a command line with at least one argument that the documented grammar refuses (from a catalogue, or a mutated good one that an independent grammar classifies as malformed), at any place, in any mode; mutants that the grammar accepts must be accepted with the right meaning. Distinct by command line." },
    ]
}

// ----- the grammar -----

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict<T> { Good(T), Malformed, Open }
use Verdict::*;

/// An IPv4 address per the documentation. `Open` where the documentation says nothing.
fn g_v4(s: &str) -> Verdict<u128> {
    let parts: Vec<&str> = s.split('.').collect();
    if parts.len() != 4 { return Malformed; }
    let mut v = 0u128;
    let mut open = false;
    for p in parts {
        let d = p.strip_prefix('+').unwrap_or(p);
        if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return Malformed; }
        if d.len() != p.len() { open = true; } // a plus sign
        let t = d.trim_start_matches('0');
        if t.len() > 3 || (!t.is_empty() && t.parse::<u32>().unwrap() > 255) { return Malformed; }
        if d.len() > 3 { open = true; }
        v = v << 8 | t.parse::<u128>().unwrap_or(0);
    }
    if open { Open } else { Good(v) }
}

fn g_v6(s: &str) -> Verdict<u128> {
    if s.contains('.') {
        // embedded IPv4: not documented
        return if s.chars().all(|c| c.is_ascii_hexdigit() || c == ':' || c == '.') { Open } else { Malformed };
    }
    let mut open = false;
    let mut groups = |t: &str| -> Option<Vec<u128>> {
        if t.is_empty() { return Some(Vec::new()); }
        t.split(':').map(|p| {
            let d = p.strip_prefix('+').unwrap_or(p);
            if d.len() != p.len() { open = true; }
            if d.is_empty() || !d.bytes().all(|b| b.is_ascii_hexdigit()) { return None; }
            if d.bytes().any(|b| b.is_ascii_uppercase()) { open = true; }
            let t = d.trim_start_matches('0');
            if t.len() > 4 { return None; }
            if d.len() > 4 { open = true; }
            Some(u128::from_str_radix(if t.is_empty() { "0" } else { t }, 16).unwrap())
        }).collect()
    };
    if s.matches("::").count() > 1 || s.contains(":::") { return Malformed; }
    let g = match s.split_once("::") {
        Some((a, b)) => {
            let (a, b) = match (groups(a), groups(b)) { (Some(a), Some(b)) => (a, b), _ => return Malformed };
            if a.len() + b.len() > 7 { return Malformed; }
            let n = 8 - a.len() - b.len();
            a.into_iter().chain(std::iter::repeat(0).take(n)).chain(b).collect::<Vec<_>>()
        },
        None => match groups(s) { Some(g) => g, None => return Malformed },
    };
    if g.len() != 8 { return Malformed; }
    if open { Open } else { Good(g.into_iter().fold(0, |a, x| a << 16 | x)) }
}

pub fn g_addr(s: &str) -> Verdict<(Fam, u128)> {
    if s.contains(':') { match g_v6(s) { Good(v) => Good((V6, v)), Malformed => Malformed, Open => Open } }
    else { match g_v4(s) { Good(v) => Good((V4, v)), Malformed => Malformed, Open => Open } }
}

/// A mask in any notation; `host_prefix` says whether minus and number of host bits is one.
fn g_mask(f: Fam, s: &str, host_prefix: bool) -> Verdict<u128> {
    let (t, neg) = match s.strip_prefix('-') { Some(t) => (t, true), None => (s, false) };
    let d = t.strip_prefix('+').unwrap_or(t);
    if !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()) {
        let z = d.trim_start_matches('0');
        if z.len() > 3 { return Malformed; }
        let p: u32 = z.parse().unwrap_or(0);
        if p > f.w() { return Malformed; }
        if d.len() != t.len() || (d.len() > 1 && d.starts_with('0')) { return Open; }
        if neg && !host_prefix { return Open; }
        return Good(f.pmask(if neg { f.w() - p } else { p }));
    }
    match g_addr(t) {
        Good((g, v)) if g == f => Good(if neg { !v & f.all() } else { v }),
        Good(_) => Malformed,
        Malformed => Malformed,
        Open => Open,
    }
}

/// A network specification.
pub fn g_spec(s: &str) -> Verdict<(Fam, u128, u128)> {
    let (a, m) = match s.split_once('/') { Some(x) => x, None => return Malformed };
    if m.contains('/') { return Malformed; }
    let mut open = false;
    let (f, a) = match g_addr(a) {
        Good(x) => x,
        Malformed => return Malformed,
        Open => { open = true; (if a.contains(':') { V6 } else { V4 }, 0) },
    };
    match g_mask(f, m, true) {
        Malformed => Malformed,
        Good(m) if !open => Good((f, a, m)),
        _ => Open,
    }
}

/// The mask that a text means to resize.
pub fn model_mask(f: Fam, s: &str) -> Option<u128> {
    match g_mask(f, s, false) { Good(m) => Some(m), _ => None }
}

// ----- P01 -----

fn same(c: &mut Ctx, plain: &[String], other: &[String]) -> Result<(), Fail> {
    let a = c.run(plain)?;
    let b = c.run(other)?;
    if a.code != b.code || a.out != b.out {
        return bad(format!("{} gives {:?} {:?}, but {} gives {:?} {:?} {:?}", show_cmd(plain), a.code, short(&a.text()), show_cmd(other), b.code, short(&b.text()), short(&b.err_text())));
    }
    if a.code != Code::Exit(0) { return bad(format!("{} ends with {:?}: {:?}", show_cmd(plain), a.code, short(&a.err_text()))); }
    c.count("spellings compared");
    Ok(())
}

/// Now and then, IPv4 octets get (many) more leading zeros.
fn zeros(s: String, r: &mut Rng) -> String {
    if !s.contains('.') || !r.chance(1, 3) { return s; }
    s.split('/').map(|half| {
        if !half.contains('.') { return half.to_owned(); }
        let (sign, t) = match half.strip_prefix('-') { Some(t) => ("-", t), None => ("", half) };
        let k = r.usize(5);
        let t: Vec<String> = t.split('.').enumerate().map(|(j, p)| if k == j || k == 4 && r.chance(1, 2) { format!("{}{}", "0".repeat(r.usize(12)), p) } else { p.to_owned() }).collect();
        format!("{}{}", sign, t.join("."))
    }).collect::<Vec<_>>().join("/")
}

fn p01(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let sys = 33 + 129 + 256;
    let (f, a, mask, mode);
    if i < 33 { f = V4; a = gen::addr(f, r); mask = f.pmask(i as u32); mode = 0; }
    else if i < 33 + 129 { f = V6; a = gen::addr(f, r); mask = f.pmask(i as u32 - 33); mode = 0; }
    else if i < sys { f = V6; a = gen::pattern_addr(i as u32 - 162, r); mask = if r.chance(1, 2) { gen::pattern_addr(r.below(256) as u32, r) } else { f.pmask(gen::prefix(f, r)) }; mode = 0; }
    else { f = gen::fam(r); a = gen::addr(f, r); mask = gen::any_mask(f, r); mode = r.below(9); }
    let n = Net::new(f, a, mask);
    match mode {
        0 | 1 => {
            let plain = args(&[gen::plain(f, a, mask)]);
            // all notations of the mask
            let mut v = vec![
                format!("{}/{}", gen::spell_addr(f, a, r), gen::spell_addr(f, mask, r)),
                format!("{}/-{}", gen::spell_addr(f, a, r), gen::spell_addr(f, !mask & f.all(), r)),
            ];
            if let Some(p) = contig(f, mask) {
                v.push(format!("{}/{}", gen::spell_addr(f, a, r), p));
                v.push(format!("{}/-{}", gen::spell_addr(f, a, r), f.w() - p));
            }
            for s in v {
                let s = zeros(s, r);
                c.note(&s);
                same(c, &plain, &args(&[s]))?;
            }
            // it means the network it should mean
            let out = c.ok(&plain)?;
            if let Err(e) = show::check_facts(&out.lines().collect::<Vec<_>>(), &n, Some(a)) { return bad(format!("{}: {}", show_cmd(&plain), e)); }
            Ok(())
        },
        2 => {
            let nets: Vec<Net> = (0..r.u32r(1, 5)).map(|_| { let m = gen::any_mask(f, r); Net::new(f, gen::addr(f, r), m) }).collect();
            let (mut p, mut o) = (args(&["-m"]), args(&["-m"]));
            for n in &nets { p.push(n.text()); o.push(zeros(gen::spell_net(n, r), r)); }
            c.note(show_cmd(&o));
            same(c, &p, &o)
        },
        3 => {
            let b = gen::addr(f, r);
            let p = args(&["-d", &addr_text(f, a), &addr_text(f, b)]);
            let o = args(&["-d", &zeros(gen::spell_addr(f, a, r), r), &zeros(gen::spell_addr(f, b, r), r)]);
            c.note(show_cmd(&o));
            same(c, &p, &o)
        },
        4 => {
            let n = gen::cidr(f, r);
            let sh = r.u32r(1, 30);
            let k = r.below(1 << sh).to_string();
            let p = args(&["-s", &n.text(), "1", &k]);
            let o = args(&["-s", &zeros(gen::spell_net(&n, r), r), "1", &k]);
            c.note(show_cmd(&o));
            let x = c.run(&p)?;
            if x.code != Code::Exit(0) { return Ok(()); }
            same(c, &p, &o)
        },
        5 => {
            let h2 = r.u32r(n.host_bits().saturating_sub(3), f.w());
            let m2 = if h2 == 0 || h2 == f.w() || r.chance(1, 2) { f.pmask(f.w() - h2) } else { gen::hosts_at(f, h2, r) };
            let arg = match contig(f, m2) { Some(p) => p.to_string(), None => addr_text(f, m2) };
            let p = args(&["-r", &n.text(), &arg]);
            let mut v = vec![gen::spell_addr(f, m2, r), format!("-{}", gen::spell_addr(f, !m2 & f.all(), r))];
            if let Some(p) = contig(f, m2) { v.push(p.to_string()); }
            for s in v {
                let o = args(&["-r", &zeros(gen::spell_net(&n, r), r), &zeros(s, r)]);
                c.note(show_cmd(&o));
                same(c, &p, &o)?;
            }
            Ok(())
        },
        6 => {
            // several networks shown, of both families
            let (mut p, mut o) = (Vec::new(), Vec::new());
            for _ in 0..r.u32r(2, 7) {
                let f = gen::fam(r);
                let (a, m) = (gen::addr(f, r), gen::any_mask(f, r));
                p.push(gen::plain(f, a, m));
                o.push(zeros(gen::spell(f, a, m, r), r));
            }
            c.note(show_cmd(&o));
            same(c, &p, &o)
        },
        _ => {
            let (mut p, mut o) = (args(&["-e"]), args(&["-e"]));
            for k in 0..r.u32r(1, 3) {
                let h = r.u32r(0, 6);
                let m = if h == 0 || r.chance(1, 2) { f.pmask(f.w() - h) } else { gen::hosts_at(f, h, r) };
                let n = Net::new(f, if k == 0 { a } else { gen::addr(f, r) }, m);
                p.push(n.text());
                o.push(zeros(gen::spell_net(&n, r), r));
            }
            c.note(show_cmd(&o));
            same(c, &p, &o)
        },
    }
}

// ----- P02 -----

/// A malformed address.
pub fn bad_addr(f: Fam, r: &mut Rng) -> String {
    let a = gen::addr(f, r);
    match f {
        V4 => {
            let mut p: Vec<String> = f.bytes(a).iter().map(|b| b.to_string()).collect();
            let k = r.usize(4);
            match r.below(20) {
                0 => p[k] = "256".to_owned(),
                1 => p[k] = r.u32r(256, 999).to_string(),
                2 => p[k] = r.pick(&["1000", "65536", "65537", "4294967296", "4294967297", "18446744073709551616", "00256", "300", "512", "99999999999999999999999"]).to_string(),
                3 => { p.pop(); },
                4 => p.push(r.below(256).to_string()),
                5 => p[k] = String::new(),
                6 => p[k] = "-1".to_owned(),
                7 => p[k] = "0x1f".to_owned(),
                8 => p[k] = "a".to_owned(),
                9 => p[k] = format!("{} ", p[k]),
                10 => p[k] = format!(" {}", p[k]),
                11 => return format!("{}.", p.join(".")),
                12 => return format!(".{}", p.join(".")),
                13 => return p.join(","),
                14 => return p.join(".").replacen('.', "..", 1),
                15 => { p.truncate(r.usize(3)); },
                16 => p[k] = "1e1".to_owned(),
                17 => p[k] = "１".to_owned(),
                18 => return p.join(":"),
                _ => return format!("{}{}", p.join("."), r.pick(&["x", "\n", " ", "%eth0", "h", "e", "_", "\u{a0}"])),
            }
            p.join(".")
        },
        V6 => {
            let mut p: Vec<String> = groups(a).iter().map(|g| format!("{:x}", g)).collect();
            let k = r.usize(8);
            match r.below(26) {
                0 => p[k] = "10000".to_owned(),
                1 => p[k] = format!("{:x}", r.u32r(0x10000, 0xfffff)),
                2 => p[k] = r.pick(&["100000", "100000000", "fffff", "10000000000000000", "01ffff"]).to_string(),
                3 => { p.pop(); },
                4 => p.push("1".to_owned()),
                5 => p[k] = "g".to_owned(),
                6 => return "1::2::3".to_owned(),
                7 => return format!("{}::", p.join(":")),
                8 => return format!("::{}", p.join(":")),
                9 => { p[4] = format!("{}:", p[4]); return p.join(":"); },
                10 => return ":::".to_owned(),
                11 => return format!(":{}", p.join(":")),
                12 => return format!("{}:", p.join(":")),
                13 => return ":".to_owned(),
                14 => return r.pick(&[":1::", "::1:", "1:::2", ":::1", "1:::", "::1::", ":1::2", "1::2:", "1:2", "::::", "1:2:3:4:5:6:7:", ":1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7",
                    "::g", "::1%0", "::-1", "1::2::", "::1::2", "fe80::1%eth0", "[::1]", "::1 ", " ::1", "0x1::", "1:2:3:4:5:6:7:8::", "::1:2:3:4:5:6:7:8", "1:2:3:4::5:6:7:8", "1::2:3:4:5:6:7:8:9"]).to_string(),
                15 => p[k] = "-1".to_owned(),
                16 => p[k] = format!("{} ", p[k]),
                17 => { p.truncate(r.usize(7) + 1); if p.len() == 1 { p.push("1".to_owned()); } },
                18 => p[k] = "x".to_owned(),
                19 => p[k] = "12345".to_owned(),
                20 => return p.join(";"),
                21 => return format!("{}::{}", p[..k.max(1)].join(":"), p[k.max(1)..].join(":")),
                22 => { p[k] = format!("{}::{}", p[k], 1); p.truncate(7); let j = p.join(":"); return format!("::{}", j); },
                23 => p[k] = "1.2".to_owned(),
                24 => p[k] = "é".to_owned(),
                _ => return format!("{}{}", addr_text(f, a), r.pick(&["\n", " ", "x", "g", "%1", "]"])),
            }
            p.join(":")
        },
    }
}

fn bad_mask(f: Fam, r: &mut Rng) -> String {
    match r.below(9) {
        0 => (f.w() + 1).to_string(),
        1 => r.u32r(f.w() + 1, 400).to_string(),
        2 => format!("{}{}", if r.chance(1, 3) { "-" } else { "" }, r.pick(&["256", "4294967296", "4294967328", "18446744073709551616", "18446744073709551648", "340282366920938463463374607431768211456", "9999999999999999999999999999", "65560", "129", "1000"])),
        3 => r.pick(&["", "-", "--8", "-+", "x", "24x", "0x18", "2 4", " 24", "24 ", "1.2", "24/24", "/24", "-24-", "8-", "1e1", "24\n", "２４", ".", "2.4", "-x"]).to_string(),
        4 => addr_text(f.other(), gen::addr(f.other(), r)),
        5 => format!("-{}", addr_text(f.other(), gen::addr(f.other(), r))),
        6 => bad_addr(f, r),
        7 => format!("-{}", bad_addr(f, r)),
        _ => format!("-{}", f.w() + 1 + r.u32r(0, 99)),
    }
}

/// A malformed specification. The grammar has the last word.
pub fn bad_spec(r: &mut Rng) -> String {
    loop {
        let f = gen::fam(r);
        let a = gen::addr(f, r);
        let m = gen::any_mask(f, r);
        let good = gen::spell(f, a, m, r);
        if let (Some(t), true) = (r.text_literal(), r.chance(1, 4)) {
            // words that the source knows
            let s = match r.below(4) {
                0 => t,
                1 => format!("{}/{}", t, gen::spell_mask(f, m, r)),
                2 => format!("{}/{}", gen::spell_addr(f, a, r), t),
                _ => format!("{}{}", good, t),
            };
            if g_spec(&s) == Malformed { return s; }
            continue;
        }
        let s = match r.below(10) {
            0 | 1 | 2 => format!("{}/{}", bad_addr(f, r), gen::spell_mask(f, m, r)),
            3 | 4 | 5 => format!("{}/{}", gen::spell_addr(f, a, r), bad_mask(f, r)),
            6 => gen::spell_addr(f, a, r),
            7 => r.pick(&["", "/", "x", "-x", "1", "24", "/24", "1.2.3.4", "::", "::/", "::1", "hello/8", "1.2.3.4//24", "1.2.3.4/", "1.2.3.4/24/", "1.2.3.4 /24", "1.2.3.4/ 24", "localhost/8", "1.2.3.4-24", "1.2.3.4\\24",
                "0/0", "1/8", "10.1/16", "10/8", "-1.2.3.4/24", "1.2.3.4/24,5.6.7.8/24", "--", "?", "*/8"]).to_string(),
            _ => mutate(&good, r),
        };
        if g_spec(&s) == Malformed { return s; }
    }
}

/// Changes a few characters.
pub fn mutate(s: &str, r: &mut Rng) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.u32r(1, 3) {
        let k = r.usize(v.len() + 1);
        let ch = *r.pick(&['0', '1', '2', '5', '9', 'a', 'f', 'g', ':', ':', '.', '/', '-', ' ', 'x', '\n', '%', 'F', '+', 'é']);
        match r.below(5) {
            0 | 1 => v.insert(k, ch),
            2 => if k < v.len() { v.remove(k); },
            3 => if k < v.len() { v[k] = ch; },
            _ => if k + 1 < v.len() { v.swap(k, k + 1); },
        }
    }
    v.into_iter().collect()
}

fn refused(c: &mut Ctx, cmd: &[String], why: &str) -> Result<(), Fail> {
    c.note(show_cmd(cmd));
    let o = c.run(cmd)?;
    if o.code != Code::Exit(1) { return bad(format!("{} ({}) ends with {:?} and prints {:?}", show_cmd(cmd), why, o.code, short(&o.text()))); }
    if o.err.is_empty() { return bad(format!("{} ({}) fails without a message", show_cmd(cmd), why)); }
    if !o.out.is_empty() { return bad(format!("{} ({}) is refused, but prints {:?}", show_cmd(cmd), why, short(&o.text()))); }
    c.count(format!("refused: {}", why));
    Ok(())
}

/// Enumerates networks, of which some are bad.
fn listed(c: &mut Ctx, specs: &[(String, bool)], bads: usize) -> Result<(), Fail> {
    let mut cmd = args(&["-e"]);
    cmd.extend(specs.iter().map(|s| s.0.clone()));
    c.note(show_cmd(&cmd));
    let o = c.run(&cmd)?;
    if o.code != Code::Exit(1) { return bad(format!("{} ends with {:?}", show_cmd(&cmd), o.code)); }
    let mut want = String::new();
    for (s, ok) in specs {
        if !*ok { continue; }
        if let Good((f, a, m)) = g_spec(s) {
            let n = Net::new(f, a, m);
            for k in 0..1u128 << n.host_bits() { want.push_str(&addr_text(f, n.member(k))); want.push('\n'); }
        }
    }
    // texts are compared by meaning
    let norm = |t: &str| t.lines().map(|l| match parse_addr(if l.contains(':') { V6 } else { V4 }, l) {
        Some(v) => addr_text(if l.contains(':') { V6 } else { V4 }, v), None => format!("?{}", l) }).collect::<Vec<_>>().join("\n");
    if norm(&o.text()) != norm(&want) { return bad(format!("{} prints {:?}, expected {:?}", show_cmd(&cmd), short(&o.text()), short(&want))); }
    let errs = o.err_text().lines().filter(|l| !l.trim().is_empty()).count();
    if errs < bads { return bad(format!("{} reports {} problems, there are {}: {:?}", show_cmd(&cmd), errs, bads, short(&o.err_text()))); }
    c.count("refused: enumerate, bad network among others");
    Ok(())
}

// ----- every shape -----

/// The cases that the shapes are dealt to.
const SHAPE_CASES: u64 = 800;

/// Addresses of every shape, good and bad, and with boundary values at every place.
fn shapes() -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    let g6 = ["1", "20", "300", "4000", "a", "bc", "def", "fedc", "0", "ffff"];
    for n in 0..=10usize {
        let mut seps: Vec<(usize, usize)> = vec![(0, 1)];
        for k in 0..n.saturating_sub(1) { seps.push((k, 2)); seps.push((k, 3)); }
        for (at, count) in seps {
            let mut mid = String::new();
            for k in 0..n {
                mid.push_str(g6[k]);
                if k + 1 < n { mid.push_str(&":".repeat(if k == at { count } else { 1 })); }
            }
            for lead in 0..4 { for trail in 0..4 {
                if n == 0 && trail > 0 { continue; }
                v.push(format!("{}{}{}", ":".repeat(lead), mid, ":".repeat(trail)));
            } }
        }
    }
    // two shortenings
    for a in 0..7usize { for b in a + 1..7 { v.push((0..8).map(|k| format!("{}{}", g6[k], if k == 7 { "" } else if k == a || k == b { "::" } else { ":" })).collect()); } }
    for k in 0..8usize {
        for g in ["0", "00", "000", "0000", "00000", "9", "99", "999", "9999", "f", "ff", "fff", "ffff", "0ffff", "7fff", "8000", "10000", "10001", "1ffff", "fffff", "100000000", "1ffffffff", "10000000000000000", "g", "-1", "-0", "0x1", "1.", "", " ", "1 ", "1_0", "F", "%"] {
            let mut p: Vec<&str> = g6[..8].to_vec();
            p[k] = g;
            v.push(p.join(":"));
            if k < 6 { v.push(format!("{}::", p[..=k].join(":"))); v.push(format!("::{}", p[..=k].join(":"))); v.push(format!("1::{}", p[..=k].join(":"))); }
        }
    }
    let g4 = ["10", "200", "3", "40", "5", "60"];
    for n in 0..=6usize { for empty in 0..=n { for lead in 0..3 { for trail in 0..3 {
        if n == 0 && trail > 0 { continue; }
        v.push(format!("{}{}{}", ".".repeat(lead), (0..n).map(|k| if k == empty { "" } else { g4[k] }).collect::<Vec<_>>().join("."), ".".repeat(trail)));
    } } } }
    for k in 0..4usize {
        for o in ["0", "00", "000", "0000", "9", "09", "10", "010", "99", "099", "100", "127", "128", "199", "200", "249", "250", "254", "255", "0255", "256", "0256", "257", "260", "299", "300", "511", "512", "767", "999", "1000", "1024", "1280", "65535", "65536", "65537", "4294967295", "4294967296", "4294967297",
            "18446744073709551615", "18446744073709551616", "18446744073709551617", "340282366920938463463374607431768211456", "-0", "-1", "0x1", "1e0", "1,", "1_0", " 1", "1 ", "a", "f", "1h"] {
            let mut p: Vec<&str> = g4[..4].to_vec();
            p[k] = o;
            v.push(p.join("."));
        }
    }
    for s in ["::1.2.3.4", "::ffff:1.2.3.4", "1.2.3.4:", ":1.2.3.4", "1:2.3.4.5", "1.2.3.4::", "1:2:3:4:5:6:1.2.3.4", "1:2:3:4:5:6:7:1.2.3.4", "1.2.3.4:5:6:7:8:9:a:b"] { v.push(s.to_owned()); }
    v
}

/// Every shape, wherever an address or mask is read.
fn shape_commands() -> &'static [Vec<String>] {
    static ALL: std::sync::OnceLock<Vec<Vec<String>>> = std::sync::OnceLock::new();
    ALL.get_or_init(all_shape_commands)
}

fn all_shape_commands() -> Vec<Vec<String>> {
    let mut v = Vec::new();
    for s in shapes() {
        let six = s.contains(':');
        let (good, len) = if six { ("2001:db8::77", 128) } else { ("198.51.100.77", 32) };
        v.push(args(&[&format!("{}/{}", s, len / 2 + 1)]));
        v.push(args(&["-e", &format!("{}/{}", s, len)]));
        v.push(args(&["-m", &format!("{}/{}", s, len)]));
        v.push(args(&["-d", &s, &s]));
        v.push(args(&["-d", good, &s]));
        v.push(args(&[&format!("{}/{}", good, s)]));
        v.push(args(&[&format!("{}/-{}", good, s)]));
    }
    // every length
    for n in 0..=300 { for (good, len) in [("2001:db8::77", 128), ("198.51.100.77", 32)] {
        v.push(args(&[&format!("{}/{}", good, n)]));
        v.push(args(&[&format!("{}/-{}", good, n)]));
        v.push(args(&["-r", &format!("{}/{}", good, len), &n.to_string()]));
    } }
    for base in [1u128 << 16, 1 << 31, 1 << 32, 1 << 63, 1 << 64, u128::MAX - 200] { for d in 0..=129u128 { for good in ["2001:db8::77", "198.51.100.77"] {
        v.push(args(&[&format!("{}/{}", good, base + d)]));
        v.push(args(&[&format!("{}/-{}", good, base + d)]));
    } } }
    v
}

fn shape(c: &mut Ctx, cmd: &[String]) -> Result<(), Fail> {
    // what the command reads: networks, or addresses
    let verdict: Verdict<(Fam, u128, u128)> = match cmd[0].as_str() {
        "-d" => match (g_addr(&cmd[1]), g_addr(&cmd[2])) {
            (Good((f, a)), Good((g, b))) if f == g => Good((f, a, b)),
            (Malformed, _) | (_, Malformed) => Malformed,
            (Good((f, _)), Good((g, _))) if f != g => Malformed,
            _ => Open,
        },
        "-e" | "-m" => g_spec(&cmd[1]),
        "-r" => match (g_spec(&cmd[1]), &cmd[2]) {
            (Good((f, a, m)), k) => match g_mask(f, k, false) { Good(x) if x == m => Good((f, a, m)), Malformed => Malformed, _ => Open },
            _ => Open,
        },
        s if s.starts_with('-') => Open,
        s => g_spec(s),
    };
    let (f, a, b) = match verdict {
        Open => { c.count("shapes left open"); return Ok(()); },
        Malformed => {
            if cmd[0] == "-e" { return listed(c, &[(cmd[1].clone(), false)], 1); }
            return refused(c, cmd, "a shape that is none");
        },
        Good(x) => x,
    };
    c.note(show_cmd(cmd));
    c.count("shapes accepted");
    match cmd[0].as_str() {
        "-d" => {
            // from the one to the other: the first line starts at the lower, which is all there is to see here
            let out = c.ok(cmd)?;
            let first = out.lines().next().unwrap_or("").to_owned();
            let (lo, hi) = (a.min(b), a.max(b));
            match model_net(&first) {
                Some(n) if n.base == lo && n.f == f && (lo != hi || n.host_bits() == 0 && out.lines().count() == 1) => Ok(()),
                _ => bad(format!("{} starts with {:?}", show_cmd(cmd), first)),
            }
        },
        "-e" => {
            let out = c.ok(cmd)?;
            if g_addr(out.trim_end()) != Good((f, a & b)) { return bad(format!("{} prints {:?}", show_cmd(cmd), short(&out))); }
            Ok(())
        },
        "-r" => {
            let out = c.ok(cmd)?;
            let nets: Vec<Option<Net>> = out.lines().filter_map(|l| l.strip_prefix("Network:")).map(|l| model_net(l.split_whitespace().next().unwrap_or(""))).collect();
            if nets != [Some(Net::new(f, a, b)); 2] { return bad(format!("{} shows the networks {:?}", show_cmd(cmd), nets)); }
            Ok(())
        },
        "-m" => {
            let out = c.ok(cmd)?;
            match model_net(out.lines().next().unwrap_or("")) {
                Some(n) if n == Net::new(f, a, b) => Ok(()),
                _ => bad(format!("{} prints {:?}", show_cmd(cmd), short(&out))),
            }
        },
        _ => {
            let out = c.ok(cmd)?;
            if let Err(e) = show::check_facts(&out.lines().collect::<Vec<_>>(), &Net::new(f, a, b), Some(a)) { return bad(format!("{}: {}", show_cmd(cmd), e)); }
            Ok(())
        },
    }
}

/// A network as it is printed.
fn model_net(s: &str) -> Option<Net> {
    match g_spec(s.trim_start_matches(|c: char| !c.is_ascii_hexdigit() && c != ':').trim_end()) { Good((f, a, m)) => Some(Net::new(f, a, m)), _ => None }
}

/// A length: mostly less than `few`, at times long.
fn many(few: u64, r: &mut Rng) -> u64 { match r.below(40) { 0 => r.below(130), 1 | 2 => r.below(40), _ => r.below(few) } }

fn p02(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let good = |f: Fam, r: &mut Rng| -> String {
        let h = r.u32r(0, 6);
        let m = if h == 0 || r.chance(1, 2) { f.pmask(f.w() - h) } else { gen::hosts_at(f, h, r) };
        let n = Net::new(f, gen::addr(f, r), m);
        gen::spell_net(&n, r)
    };
    if i >= 2006 && i < 2006 + SHAPE_CASES {
        let all = shape_commands();
        for cmd in all.iter().skip((i - 2006) as usize).step_by(SHAPE_CASES as usize) { shape(c, cmd)?; }
        return Ok(());
    }
    if i >= 2000 && i < 2006 {
        // more arguments, or bad ones among them, than fit into 8 or 16 bits
        let mut cmd: Vec<(String, bool)> = match i {
            2002 => gen::crowd(100, true, 3, r),
            2003 => gen::crowd(300, true, 3, r),
            _ => gen::crowd(66_000, i == 2000 || i == 2004, 1, r),
        }.into_iter().map(|x| (x.2, true)).collect();
        let bad_one = |r: &mut Rng| r.pick(&["x", "1/1", "::", "1.1.1.1/33", "1.1.1.256/1", "::/129", "0/0", "", "1.1.1.1"]).to_string();
        let (bads, far) = match i { 2002 => (256, false), 2003 => (65_536, false), _ => (1, true) };
        for _ in 0..bads {
            let s = if i == 2005 { "::/0".to_owned() } else { bad_one(r) };
            if far { let k = 65_530 + r.usize(cmd.len() - 65_530); cmd.insert(k, (s, false)); } else { cmd.push((s, false)); }
        }
        c.count("very long lists");
        return match i {
            2002 | 2003 | 2004 => {
                if i != 2004 { let l = cmd.len(); for k in 0..l { let j = r.usize(l); cmd.swap(k, j); } }
                listed(c, &cmd, bads)
            },
            _ => {
                let mut cmd: Vec<String> = cmd.into_iter().map(|x| x.0).collect();
                if i != 2000 { cmd.insert(0, "-m".to_owned()); }
                refused(c, &cmd, match i { 2000 => "show, bad network", 2001 => "minimize, bad network", _ => "minimize, mixed families" })
            },
        };
    }
    match if i < 2000 { i % 10 } else { r.below(12) } {
        0 | 1 => {
            // show; a bad argument that looks like an option is dispatched elsewhere
            let f = gen::fam(r);
            let mut cmd: Vec<String> = (0..many(4, r)).map(|_| good(f, r)).collect();
            for _ in 0..r.u32r(1, 2) { let k = r.usize(cmd.len() + 1); cmd.insert(k, bad_spec(r)); }
            if matches!(cmd[0].as_str(), "-m" | "-d" | "-s" | "-r" | "-e") || cmd[0].starts_with("--") { return Ok(()); }
            refused(c, &cmd, "show, bad network")
        },
        2 => {
            let f = gen::fam(r);
            let mut cmd: Vec<String> = (0..many(5, r)).map(|_| good(f, r)).collect();
            let k = r.usize(cmd.len() + 1);
            cmd.insert(k, bad_spec(r));
            cmd.insert(0, r.pick(&["-m", "--minimize"]).to_string());
            refused(c, &cmd, "minimize, bad network")
        },
        3 => {
            // mixed families
            let f = gen::fam(r);
            let mut cmd: Vec<String> = (0..many(5, r).max(1)).map(|_| good(f, r)).collect();
            let k = r.usize(cmd.len() + 1);
            cmd.insert(k, good(f.other(), r));
            cmd.insert(0, "-m".to_owned());
            refused(c, &cmd, "minimize, mixed families")
        },
        4 | 5 => {
            let f = gen::fam(r);
            let mut cmd = args(&[*r.pick(&["-d", "--derange"])]);
            let k = r.usize(2);
            let mixed = r.chance(1, 4);
            for j in 0..2 {
                cmd.push(if j != k { gen::spell_addr(f, gen::addr(f, r), r) } else if mixed { gen::spell_addr(f.other(), gen::addr(f.other(), r), r) } else {
                    loop {
                        let s = match r.below(4) {
                            0 => format!("{}/24", addr_text(f, gen::addr(f, r))),
                            1 => mutate(&gen::spell_addr(f, gen::addr(f, r), r), r),
                            _ => bad_addr(f, r),
                        };
                        if g_addr(&s) == Malformed { break s; }
                    }
                });
            }
            refused(c, &cmd, if mixed { "derange, mixed families" } else { "derange, bad address" })
        },
        6 => {
            // resize
            let f = gen::fam(r);
            let cmd = if r.chance(1, 2) {
                args(&["-r", &bad_spec(r), &if r.chance(1, 2) { gen::prefix(f, r).to_string() } else { gen::spell_mask_arg(f, gen::any_mask(f, r), r) }])
            } else {
                let m = loop {
                    let m = if r.chance(1, 4) { mutate(&gen::spell_mask_arg(f, gen::any_mask(f, r), r), r) } else { bad_mask(f, r) };
                    if g_mask(f, &m, true) == Malformed { break m; }
                };
                args(&["--resize", &good(f, r), &m])
            };
            refused(c, &cmd, "resize")
        },
        7 => {
            // split
            let f = gen::fam(r);
            let mut counts: Vec<String> = (0..many(5, r).max(1)).map(|_| r.below(5).to_string()).collect();
            let spec = if r.chance(1, 2) { bad_spec(r) } else {
                let k = r.usize(counts.len());
                counts[k] = r.pick(&["", "x", "-1", "-5", "1.5", "1,5", "0x10", "1e3", " 1", "1 ", "ten", "1/2", "--1", "-99999999999999999999999999999999999999999", "10h", "1-"]).to_string();
                gen::cidr(f, r).text()
            };
            let mut cmd = args(&[r.pick(&["-s", "--split"]).to_string(), spec]);
            cmd.extend(counts);
            refused(c, &cmd, "split")
        },
        8 | 9 => {
            // enumerate: the good ones are still listed
            let mut specs: Vec<(String, bool)> = (0..many(4, r)).map(|_| { let f = gen::fam(r); (good(f, r), true) }).collect();
            let bads = r.u32r(1, 3);
            for _ in 0..bads { let k = r.usize(specs.len() + 1); specs.insert(k, (bad_spec(r), false)); }
            listed(c, &specs, bads as usize)
        },
        _ => {
            // a mutated specification, whatever it is
            let f = gen::fam(r);
            let m = gen::any_mask(f, r);
            let good = gen::spell(f, gen::addr(f, r), m, r);
            let s = mutate(&good, r);
            match g_spec(&s) {
                Open => { c.count("mutants left open"); Ok(()) },
                Malformed => { if s.starts_with('-') { return Ok(()); } refused(c, &[s], "show, mutated network") },
                Good((f, a, m)) => {
                    let cmd = vec![s];
                    c.note(show_cmd(&cmd));
                    let out = c.ok(&cmd)?;
                    c.count("mutants accepted");
                    if let Err(e) = show::check_facts(&out.lines().collect::<Vec<_>>(), &Net::new(f, a, m), Some(a)) { return bad(format!("{}: {}", show_cmd(&cmd), e)); }
                    Ok(())
                },
            }
        },
    }
}
