//! P13 to P15: split.

use crate::exec::{bad, Code, Fail};
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::show;
use crate::{args, show_cmd, short, Ctx, Prop};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P13", systematic: 701, plain_only: false, case: p13,
            rule: "A case splits a CIDR network into 1 to 30 requested sizes (rarely 1000, once more than 2^16); if the model says they fit, every printed slice is checked for place, alignment, sufficiency and minimality, order of requests and disjointness. Host counts cluster at powers of two minus 3 to plus 1. Distinct by command line; non-trivial if the requests fit." },
        Prop { id: "P14", systematic: 701, plain_only: false, case: p14,
            rule: "A case splits a CIDR network; if the requests fit, slices and unused networks must tile the network exactly. Many cases use up the network completely or but for the smallest network. Distinct by command line; non-trivial if the requests fit." },
        Prop { id: "P15", systematic: 701, plain_only: false, case: p15,
            rule: "A case splits a CIDR network and compares the verdict (fits or not) with the sum of the slice sizes; half of the cases are one slice above or exactly at the limit, also at the end of the address space and with counts beyond 2^128. Distinct by command line." },
    ]
}

/// A size of at most 2^128 as a 129-bit number.
type Wide = (u64, u128);
fn wide_add(a: Wide, h: u32) -> Wide {
    if h == 128 { return (a.0 + 1, a.1); }
    let (s, o) = a.1.overflowing_add(1u128 << h);
    (a.0 + o as u64, s)
}
fn wide_le(a: Wide, h: u32) -> bool { if h == 128 { a.0 == 0 || (a.0 == 1 && a.1 == 0) } else { a.0 == 0 && a.1 <= 1u128 << h } }

#[derive(Clone, Debug)]
enum Count { N(u128), Huge(String) }

impl Count {
    fn text(&self) -> String { match self { Count::N(n) => n.to_string(), Count::Huge(s) => s.clone() } }
    /// Possible numbers of host bits of the smallest sufficient slice (two answers are right for no hosts).
    fn host_bits(&self, f: Fam) -> Option<Vec<u32>> {
        match self {
            Count::Huge(_) => None,
            Count::N(0) => Some(vec![0, 1]),
            Count::N(n) => (2..=f.w()).find(|h| if *h == 128 { *n <= u128::MAX - 1 } else { *n <= (1u128 << h) - 2 }).map(|h| vec![h]),
        }
    }
}

struct Req { net: Net, counts: Vec<Count>, cmd: Vec<String> }

fn count_for(h: u32, r: &mut Rng) -> Count {
    // a number of hosts around what h host bits can take
    let top = if h >= 128 { u128::MAX - 1 } else { (1u128 << h).wrapping_sub(2) };
    if r.keen && r.chance(1, 4) {
        if let Some(n) = r.literal(top) { return Count::N(n); }
    }
    match r.below(12) {
        0 | 1 | 2 => Count::N(top),
        3 => Count::N(top.saturating_add(1)),
        4 => Count::N(top.saturating_add(2)),
        5 => Count::N(top.saturating_sub(1)),
        6 => Count::N(top / 2 + 1),
        7 => Count::N(top / 2),
        _ => Count::N(r.upto(if top > u128::MAX - 3 { 0 } else { top })),
    }
}

fn request(i: u64, r: &mut Rng) -> Req {
    let f = gen::fam(r);
    let (net, mut counts);
    if i < 700 {
        // one request at each size, in networks at both ends of the address space
        let f = if i % 4 < 3 { V6 } else { V4 };
        let h = (i / 5) as u32 % (f.w() + 1);
        let n = Net::p(f, if i % 2 == 0 { f.all() } else { 0 }, f.w() - h);
        let k = match i % 5 { 0 => h, 1 => h.saturating_sub(1), 2 => (h + 1).min(f.w()), 3 => 2, _ => h / 2 };
        let top = if k >= 128 { u128::MAX - 1 } else { (1u128 << k).saturating_sub(2) };
        net = n;
        counts = vec![Count::N(top.saturating_add(r.below(2) as u128).saturating_sub(r.below(2) as u128))];
    } else if i == 700 {
        // more requests than sixteen bits can number
        net = Net::p(f, gen::addr(f, r), f.w() - 20);
        counts = (0..65536 + r.u32r(10, 3000)).map(|_| Count::N(match r.below(40) { 0 => 7 + r.below(24) as u128, 1..=4 => 3 + r.below(4) as u128, _ => 1 + r.below(2) as u128 })).collect();
    } else {
        let h = match r.below(5) { 0 => f.w() - r.u32r(0, 3), 1 => r.u32r(0, 4), _ => r.u32r(0, f.w()) };
        net = gen::cidr_p(f, f.w() - h, r);
        counts = Vec::new();
        match r.below(8) {
            0 | 1 | 2 | 3 => {
                // cut the network into aligned pieces, then ask for (most of) them, perhaps for one more
                let mut pieces = vec![h];
                let lim = if r.chance(1, 400) { 700 } else if r.chance(1, 40) { 120 } else { 14 };
                for _ in 0..r.u32r(0, lim) {
                    let k = r.usize(pieces.len());
                    let p = if r.chance(1, 2) { *pieces.iter().max().unwrap() } else { pieces[k] };
                    let k = pieces.iter().position(|x| *x == p).unwrap();
                    if p <= 2 { continue; }
                    pieces[k] = p - 1;
                    pieces.push(p - 1);
                }
                for p in pieces {
                    if r.chance(1, 10) && counts.len() > 1 { continue; }
                    let top = if p >= 128 { u128::MAX - 1 } else { (1u128 << p).saturating_sub(2) };
                    let min = if p <= 2 { top.min(1) } else { (1u128 << (p - 1)) - 1 };
                    counts.push(Count::N(match r.below(4) { 0 => min, 1 => top, _ => min + r.upto(top - min) }));
                }
                match r.below(5) {
                    0 => counts.push(Count::N(r.below(3) as u128)),
                    1 => { let k = r.usize(counts.len()); if let Count::N(n) = counts[k] { counts[k] = Count::N(n.saturating_add(2)); } },
                    2 => counts.push(count_for(r.u32r(2, h.max(2)), r)),
                    _ => {},
                }
            },
            4 => counts.push(count_for(r.u32r(0, f.w()), r)),
            5 => {
                let k = r.u32r(0, h.min(10));
                for _ in 0..(if r.chance(1, 300) { r.u32r(100, 1000) } else { r.u32r(1, 30) }) { counts.push(count_for(h.saturating_sub(k).max(2), r)); }
            },
            6 => {
                for _ in 0..r.u32r(1, 12) { counts.push(count_for(r.u32r(0, h), r)); }
            },
            _ => {
                for _ in 0..r.u32r(0, 3) { counts.push(count_for(r.u32r(0, h), r)); }
                counts.push(Count::Huge(r.pick(&["340282366920938463463374607431768211455", "340282366920938463463374607431768211456",
                    "340282366920938463463374607431768211457", "680564733841876926926749214863536422912", "99999999999999999999999999999999999999999999999999",
                    "18446744073709551616", "4294967296", "4294967294", "4294967295", "18446744073709551614"]).to_string()));
                let last = counts.pop().unwrap();
                let t = last.text();
                counts.push(t.parse::<u128>().map(Count::N).unwrap_or(last));
            },
        }
        if counts.is_empty() { counts.push(Count::N(1)); }
        r.shuffle(&mut counts);
    }
    let mut cmd = args(&[r.pick(&["-s", "--split"]).to_string(), gen::spell_net(&net, r)]);
    cmd.extend(counts.iter().map(|c| if r.chance(1, 12) { format!("0{}", c.text()) } else { c.text() }));
    Req { net, counts, cmd }
}

/// Whether the requests fit; `None` if both answers can be defended.
fn fits(q: &Req) -> Option<bool> {
    let f = q.net.f;
    let h = q.net.host_bits();
    let mut v = Vec::new();
    for pick in [false, true] {
        let mut sum: Wide = (0, 0);
        let mut ok = true;
        for c in &q.counts {
            match c.host_bits(f) {
                None => { ok = false; break; },
                Some(o) => {
                    let b = if pick { *o.last().unwrap() } else { o[0] };
                    sum = wide_add(sum, b);
                    if b > h { ok = false; break; }
                },
            }
        }
        v.push(ok && wide_le(sum, h));
    }
    if v[0] == v[1] { Some(v[0]) } else { None }
}

struct Result_ { slices: Vec<Net>, unused: Vec<Net>, complaint: bool, unused_listed: bool, titles: Vec<String>, first: Option<Net>, code: Code, text: String }

fn perform(c: &mut Ctx, q: &Req) -> Result<Result_, Fail> {
    let f = q.net.f;
    if q.counts.len() > 60000 { c.x.cpu = 60; }
    let o = c.run(&q.cmd);
    c.x.cpu = crate::exec::CPU_LIMIT_S;
    let o = o?;
    if !matches!(o.code, Code::Exit(0 | 1)) { return bad(format!("{} ended with {:?}, stderr {:?}", show_cmd(&q.cmd), o.code, short(&o.err_text()))); }
    let text = o.text();
    let mut res = Result_ { slices: Vec::new(), unused: Vec::new(), complaint: false, unused_listed: false, titles: Vec::new(), first: None, code: o.code.clone(), text: text.clone() };
    let all = format!("{}\n{}", text, o.err_text()).to_lowercase();
    res.complaint = all.contains("not enough addresses") || all.contains("too small");
    for b in show::blocks(&text) {
        if b[0].starts_with("Unused network") {
            res.unused_listed = b.len() > 1;
            for l in &b[1..] {
                match parse_net(f, l) {
                    Some(n) => res.unused.push(n),
                    None => return bad(format!("{}: unused network {:?}", show_cmd(&q.cmd), l)),
                }
            }
        } else if b.len() > 1 && b[1].starts_with("Network:") {
            let v = show::row(f, b[1]).value;
            let n = match parse_net(f, &v) { Some(n) => n, None => return bad(format!("{}: network {:?}", show_cmd(&q.cmd), v)) };
            if res.first.is_none() { res.first = Some(n); } else { res.slices.push(n); res.titles.push(b[0].to_owned()); }
        }
    }
    Ok(res)
}

fn p13(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let q = request(i, r);
    let f = q.net.f;
    let fit = fits(&q);
    let res = perform(c, &q)?;
    if fit != Some(true) { c.count("requests that do not fit"); return Ok(()); }
    c.note(show_cmd(&q.cmd));
    if res.complaint || res.code != Code::Exit(0) { return bad(format!("{}: no slices, although the requests fit: {:?}", show_cmd(&q.cmd), short(&res.text))); }
    if res.first != Some(q.net) { return bad(format!("{} displays {:?} as the network to split", show_cmd(&q.cmd), res.first.map(|n| n.text()))); }
    if res.slices.len() != q.counts.len() { return bad(format!("{} prints {} slices", show_cmd(&q.cmd), res.slices.len())); }
    for (k, (n, count)) in res.slices.iter().zip(&q.counts).enumerate() {
        if !res.titles[k].contains(&count.text()) { return bad(format!("{}: slice {} is titled {:?}", show_cmd(&q.cmd), k + 1, res.titles[k])); }
        let want = count.host_bits(f).unwrap();
        if n.prefix().is_none() || !want.contains(&n.host_bits()) {
            return bad(format!("{}: slice {} for {} hosts is {}, expected {} host bits", show_cmd(&q.cmd), k + 1, count.text(), n.text(), want[0]));
        }
        if !q.net.superset(n) { return bad(format!("{}: slice {} is {}, outside of {}", show_cmd(&q.cmd), k + 1, n.text(), q.net.text())); }
        c.count("slices checked");
    }
    // (CIDR networks, as checked above: in order of their bases only neighbours can overlap without any neighbours overlapping)
    let mut sorted = res.slices.clone();
    sorted.sort_by_key(|n| (n.base, n.last()));
    for w in sorted.windows(2) {
        if w[0].meets(&w[1]) { return bad(format!("{}: slices {} and {} overlap", show_cmd(&q.cmd), w[0].text(), w[1].text())); }
    }
    Ok(())
}

fn p14(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let q = request(i, r);
    let res = perform(c, &q)?;
    if fits(&q) != Some(true) { c.count("requests that do not fit"); return Ok(()); }
    c.note(show_cmd(&q.cmd));
    let mut all = res.slices.clone();
    all.extend(&res.unused);
    c.add("slices and unused networks", all.len() as u64);
    if let Some(n) = all.iter().find(|n| n.prefix().is_none()) { return bad(format!("{} prints the lopsided network {}", show_cmd(&q.cmd), n.text())); }
    if let Err(e) = tiles(&all, q.net.base, q.net.last()) {
        return bad(format!("{}: {} (slices {:?}, unused {:?})", show_cmd(&q.cmd), e,
            res.slices.iter().map(|n| n.text()).collect::<Vec<_>>(), res.unused.iter().map(|n| n.text()).collect::<Vec<_>>()));
    }
    if res.unused.is_empty() { c.count("networks used up"); }
    Ok(())
}

fn p15(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let q = request(i, r);
    let res = perform(c, &q)?;
    c.note(show_cmd(&q.cmd));
    match fits(&q) {
        None => c.count("verdict open (requests of no hosts)"),
        Some(true) => {
            c.count("fits");
            if res.complaint || res.code != Code::Exit(0) { return bad(format!("{} fits, but: {:?} {:?}", show_cmd(&q.cmd), res.code, short(&res.text))); }
        },
        Some(false) => {
            c.count("does not fit");
            if !res.complaint { return bad(format!("{} does not fit, but there is no complaint: {:?} {:?}", show_cmd(&q.cmd), res.code, short(&res.text))); }
            if res.unused_listed { return bad(format!("{} does not fit, but lists unused networks: {:?}", show_cmd(&q.cmd), short(&res.text))); }
        },
    }
    Ok(())
}
