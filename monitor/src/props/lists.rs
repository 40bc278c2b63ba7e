//! P09 to P12 and P19 to P21: minimize, derange, enumerate.

use crate::exec::{bad, Code, Fail, Spawn};
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::{args, show_cmd, short, Ctx, Prop};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P09", systematic: 256 + 400, plain_only: false, case: p09,
            rule: "A case minimizes a list of networks (CIDR, lopsided or both) and decides equality of the unions: by intervals for CIDR, by evaluating membership of every point of the free bits or by recursive splitting for lopsided masks. All lists over the 8 subnets of a /29 with lengths 0 to 3 bits come first. Distinct by command line; non-trivial if at least two networks are given." },
        Prop { id: "P10", systematic: 256 + 400, plain_only: false, case: p10,
            rule: "A case minimizes a list, permutes and repeats it, and feeds the result back; CIDR results are compared with the unique smallest cover, all results are checked for containment, mergeable pairs, order and duplicates. Distinct by command line; non-trivial if at least two networks are given." },
        Prop { id: "P11", systematic: 2 * 17 * 17, plain_only: false, case: p11,
            rule: "A case deranges two addresses and checks that the networks tile the inclusive range exactly; all pairs of 17 boundary addresses of both families come first. Distinct by command line." },
        Prop { id: "P12", systematic: 2 * 17 * 17, plain_only: false, case: p12,
            rule: "A case deranges two addresses in both orders and compares with the shortest ordered list. Distinct by command line." },
        Prop { id: "P19", systematic: 2 * 13 * 4 + 24 + 3, plain_only: false, case: p19,
            rule: "A case enumerates a CIDR network of up to 2^12 (rarely 2^18) addresses and compares every line; all sizes up to 2^12 come first, then two of each size from 2^13 to 2^18 per family and three of 2^21. Distinct by command line." },
        Prop { id: "P20", systematic: 316, plain_only: false, case: p20,
            rule: "A case enumerates a network with interspersed mask of up to 2^12 (rarely 2^17) members and compares every line; sizes up to 2^10 come first, then one of each from 2^11 to 2^17 per family and one of 2^20 (IPv6) and 2^21 (IPv4); for small IPv4 universes the expected set is also found by testing every address of the enclosing range. Distinct by command line." },
        Prop { id: "P21", systematic: 40, plain_only: true, case: p21,
            rule: "A case either enumerates a huge network in a process with a 192 MiB address-space limit, reads up to some hundred thousand lines, compares them and requires that resident memory has not grown since the first MiB of output, or enumerates several networks at once and compares with each alone. Distinct by command line." },
    ]
}

fn parse_list(c: &mut Ctx, f: Fam, out: &str, cmd: &[String]) -> Result<Vec<Net>, Fail> {
    let mut v = Vec::new();
    for l in out.lines() {
        match parse_net(f, l) {
            Some(n) => v.push(n),
            None => return bad(format!("{} prints {:?}, which is no network", show_cmd(cmd), l)),
        }
    }
    if !out.is_empty() && !out.ends_with('\n') { return bad(format!("{}: the last line does not end", show_cmd(cmd))); }
    c.add("networks printed", v.len() as u64);
    Ok(v)
}

// ----- minimize -----

/// Networks, and the bit positions on which the lopsided ones depend if there are few.
struct List { f: Fam, nets: Vec<Net>, bits: Option<(u128, u128)>, cidr: bool }

fn make_list(i: u64, r: &mut Rng) -> List {
    let f = gen::fam(r);
    if i < 256 {
        // any subset of the eight /32 (or parts) of a block of eight addresses
        let base = gen::addr(f, r) & !7;
        let nets = (0..8).filter(|b| i >> b & 1 == 1).map(|b| Net::p(f, base + b, f.w())).collect();
        return List { f, nets, bits: None, cidr: true };
    }
    if i == 280 || i == 281 {
        // several hundred merges
        let f = if i == 280 { V4 } else { V6 };
        let p = f.w() - r.u32r(0, 9);
        let size = f.ones(f.w() - p) + 1;
        let start = gen::cidr_p(f, p - 10, r).base;
        let mut nets: Vec<Net> = (0..700).map(|k| Net::p(f, start.wrapping_add(size * k) & f.all(), p)).collect();
        r.shuffle(&mut nets);
        return List { f, nets, bits: None, cidr: true };
    }
    if (256..280).contains(&i) || (i >= 656 && i != 1000 && r.chance(1, 4000)) { return very_long_list(f, i, r); }
    if i >= 656 && i != 1000 && r.chance(1, 200) {
        for _ in 0..300 {
            let l = make_list(1000, r);
            if l.nets.len() < 30 && swallows(&l.nets) { return l; }
        }
    }
    // minimize takes cubic time, so long lists are rare
    let long = r.chance(1, 150);
    match r.below(11) {
        0 | 1 => {
            // leaves of a random binary tree, some left out, some repeated, some with their parents
            let p = r.u32r(0, f.w() - 1);
            let root = gen::cidr_p(f, p, r);
            let mut leaves = vec![root];
            for _ in 0..(if long { r.u32r(60, 140) } else { r.u32r(1, 24) }) {
                let k = r.usize(leaves.len());
                let n = leaves[k];
                let p = n.prefix().unwrap();
                if p == f.w() { continue; }
                leaves.swap_remove(k);
                for h in 0..2u128 { leaves.push(Net::p(f, n.base | h << (f.w() - p - 1), p + 1)); }
            }
            let drop = r.below(4);
            let mut nets: Vec<Net> = leaves.iter().filter(|_| !r.chance(drop, 12)).copied().collect();
            for _ in 0..r.below(4) {
                let n = *r.pick(&leaves);
                let p = n.prefix().unwrap();
                nets.push(Net::p(f, n.base, p.saturating_sub(r.u32r(0, 2))));
            }
            if nets.is_empty() { nets.push(root); }
            r.shuffle(&mut nets);
            List { f, nets, bits: None, cidr: true }
        },
        2 => {
            // consecutive networks of one size, perhaps across a boundary of the address
            let p = r.u32r(1, f.w());
            let size = if f.w() == p { 1 } else { f.ones(f.w() - p) + 1 };
            let start = gen::cidr_p(f, p, r).base;
            let mut nets: Vec<Net> = (0..(if long { r.range(60, 140) as u64 } else { r.below(20) })).map(|k| Net::p(f, start.wrapping_add(size.wrapping_mul(k as u128)) & f.all(), p)).collect();
            nets.push(Net::p(f, start, p));
            r.shuffle(&mut nets);
            List { f, nets, bits: None, cidr: true }
        },
        3 => {
            // a range, cut up in one way or another
            let a = gen::addr(f, r);
            let b = if r.chance(1, 2) { a ^ (r.u128() & f.ones(r.u32r(0, 12))) } else { gen::addr(f, r) };
            let mut nets = Vec::new();
            for n in range_nets(f, a.min(b), a.max(b)) {
                if nets.len() < 60 && r.chance(1, 3) && n.prefix().unwrap() < f.w() {
                    let p = n.prefix().unwrap() + 1;
                    nets.push(Net::p(f, n.base, p));
                    nets.push(Net::p(f, n.last(), p));
                } else { nets.push(n); }
            }
            nets.truncate(60);
            r.shuffle(&mut nets);
            List { f, nets, bits: None, cidr: true }
        },
        4 => {
            let n = if long { r.u32r(40, 80) } else { r.u32r(1, 12) };
            let a = gen::addr(f, r);
            let nets = (0..n).map(|_| {
                let base = if r.chance(2, 3) { a ^ (1u128 << r.below(f.w() as u64)) } else { gen::addr(f, r) };
                Net::p(f, base, gen::prefix(f, r))
            }).collect();
            List { f, nets, bits: None, cidr: true }
        },
        5 | 6 | 7 => {
            // few free bits: every network agrees outside of them, and its mask covers the rest
            let k = r.u32r(2, 9);
            let mut free = 0u128;
            let cluster = r.chance(1, 2);
            let s = r.u32r(0, f.w() - 1);
            let mut j = 0;
            while free.count_ones() < k {
                free |= 1u128 << (if cluster { (s + j * r.u32r(1, 3)) % f.w() } else { r.u32r(0, f.w() - 1) });
                j += 1;
                if j > 300 { free |= 1u128 << r.below(f.w() as u64); }
            }
            let base = gen::addr(f, r);
            let same = r.chance(1, 3);
            let one = f.all() & !(free & r.u128());
            let style = r.below(3);
            let nets: Vec<Net> = (0..(if long { r.u32r(30, 80) } else { r.u32r(1, 14) })).map(|_| {
                let wild = if same { !one } else { match style { 0 => r.u128(), 1 => r.u128() & r.u128(), _ => r.u128() | r.u128() } } & free;
                Net::new(f, base & !free | (r.u128() & free), f.all() & !wild)
            }).collect();
            List { f, nets, bits: Some((base & !free, free)), cidr: false }
        },
        8 => {
            // members of one lopsided network's subnets: halves that can be merged
            let m = gen::lopsided(f, r);
            let root = Net::new(f, gen::addr(f, r), m);
            let mut v = vec![root];
            for _ in 0..(if long { r.u32r(30, 70) } else { r.u32r(1, 10) }) {
                let k = r.usize(v.len());
                let n = v[k];
                if n.wild() == 0 { continue; }
                let hb: Vec<u32> = (0..f.w()).filter(|b| n.wild() >> b & 1 == 1).collect();
                let b = 1u128 << *if r.chance(1, 2) { hb.last().unwrap() } else { r.pick(&hb) };
                v.swap_remove(k);
                v.push(Net::new(f, n.base, n.mask | b));
                v.push(Net::new(f, n.base | b, n.mask | b));
            }
            if r.chance(1, 3) { v.remove(0); }
            if v.is_empty() { v.push(root); }
            if r.chance(1, 3) { v.push(root); }
            r.shuffle(&mut v);
            List { f, nets: v, bits: None, cidr: false }
        },
        _ => {
            let n = if long { r.u32r(10, 30) } else { r.u32r(1, 8) };
            let a = gen::addr(f, r);
            let nets = (0..n).map(|_| {
                let m = gen::any_mask(f, r);
                Net::new(f, if r.chance(1, 2) { a } else { gen::addr(f, r) }, m)
            }).collect();
            List { f, nets, bits: None, cidr: false }
        },
    }
}

/// Whether merging halves makes a network that contains another one, which was in none before.
fn swallows(nets: &[Net]) -> bool {
    let mut v: Vec<Net> = nets.iter().filter(|n| !nets.iter().any(|o| o != *n && o.superset(n))).copied().collect();
    v.sort_by_key(|n| (n.base, n.mask));
    v.dedup();
    'again: loop {
        for i in 0..v.len() {
            for j in i + 1..v.len() {
                let (a, b) = (v[i], v[j]);
                if a.mask == b.mask && a.base ^ b.base == a.mask & a.mask.wrapping_neg() {
                    let m = Net::new(a.f, a.base & b.base, a.mask & (a.mask - 1));
                    v.remove(j);
                    v.remove(i);
                    if v.iter().any(|o| *o != m && m.superset(o)) { return true; }
                    v.push(m);
                    continue 'again;
                }
            }
        }
        return false;
    }
}

/// Hundreds of networks, with few or very many merges.
fn very_long_list(f: Fam, i: u64, r: &mut Rng) -> List {
    match i % 4 {
        0 => {
            // consecutive networks of one size
            let p = r.u32r(12, f.w());
            let size = if f.w() == p { 1 } else { f.ones(f.w() - p) + 1 };
            let start = gen::cidr_p(f, p, r).base;
            let mut nets: Vec<Net> = (0..r.u32r(260, 420)).filter(|_| !r.chance(1, 200)).map(|k| Net::p(f, start.wrapping_add(size.wrapping_mul(k as u128)) & f.all(), p)).collect();
            r.shuffle(&mut nets);
            List { f, nets, bits: None, cidr: true }
        },
        1 => {
            // networks far apart from each other, some inside of larger ones
            let top = r.u32r(0, 8);
            let outer: Vec<Net> = (0..3).map(|_| gen::cidr_p(f, top, r)).collect();
            let p = r.u32r(top + 14, f.w());
            let mut nets: Vec<Net> = (0..r.u32r(260, 700)).map(|_| { let o = r.pick(&outer); Net::p(f, o.base | r.u128() & f.ones(f.w() - top), p) }).collect();
            for _ in 0..r.below(5) { let n = *r.pick(&nets); if p < f.w() { nets.push(n); } else { nets.push(Net::p(f, n.base ^ 1, p)); } }
            for k in 0..3 { if r.chance(1, 2) { nets.push(outer[k]); } }
            r.shuffle(&mut nets);
            List { f, nets, bits: None, cidr: true }
        },
        2 if i < 656 || r.chance(1, 2) => {
            // any short list among many networks that have nothing to do with it, all of them before or after it
            let mut tries = 0;
            let pick = i < 656 || r.chance(2, 3);
            let (mut nets, f) = loop {
                let l = make_list(1000, r);
                tries += 1;
                if l.nets.len() < 40 && l.nets.len() > 3 && (!l.cidr || r.chance(1, 3)) && (!pick || tries > 3000 || swallows(&l.nets)) { break (l.nets, l.f); }
            };
            let (lo, hi) = (nets.iter().map(|n| n.base).min().unwrap(), nets.iter().map(|n| n.last()).max().unwrap());
            let before = lo > 1000 && (i < 656 || r.chance(1, 2));
            for k in 0..r.u32r(120, 260) as u128 {
                let x = if before { lo.saturating_sub(1 + k * 3) } else { hi.saturating_add(1 + k * 3).min(f.all()) };
                nets.push(Net::p(f, x, f.w()));
            }
            r.shuffle(&mut nets);
            List { f, nets, bits: None, cidr: false }
        },
        2 => {
            // many masks over the same few bits
            let mut free = 0u128;
            let k = r.u32r(8, 12);
            while free.count_ones() < k { free |= 1u128 << r.below(f.w() as u64); }
            let pos: Vec<u128> = (0..f.w()).map(|b| 1u128 << b).filter(|b| free & b != 0).collect();
            let base = gen::addr(f, r);
            let nets: Vec<Net> = (0..r.u32r(150, 280)).map(|_| {
                let wild = if r.chance(1, 40) { *r.pick(&pos) | *r.pick(&pos) | *r.pick(&pos) | *r.pick(&pos) } else { *r.pick(&pos) | if r.chance(1, 2) { *r.pick(&pos) } else { 0 } };
                Net::new(f, base & !free | (r.u128() & free), f.all() & !wild)
            }).collect();
            List { f, nets, bits: Some((base & !free, free)), cidr: false }
        },
        _ => {
            // two halves of one network, with many lopsided networks sorted between them that are in neither
            let low = r.u32r(9, 12);
            let high = 1u128 << r.u32r(low + 1, f.w() - 1);
            let m = if r.chance(1, 2) { f.all() & !f.ones(low) } else { f.all() & !f.ones(low) & !(1u128 << r.u32r(low + 1, f.w() - 1)) };
            let a = gen::addr(f, r) & m & !high & !(1u128 << low);
            let m = m | high;
            let mut nets = vec![Net::new(f, a, m), Net::new(f, a | 1u128 << low, m)];
            for _ in 0..r.u32r(120, 250) { nets.push(Net::new(f, a | (r.u128() & f.ones(low)) | 1, f.all() & !high)); }
            r.shuffle(&mut nets);
            List { f, nets, bits: None, cidr: false }
        },
    }
}

fn min_cmd(l: &[Net], r: &mut Rng) -> Vec<String> {
    let mut cmd = args(&[*r.pick(&["-m", "--minimize"])]);
    for n in l { cmd.push(if r.chance(1, 2) { n.text() } else { gen::spell_net(n, r) }); }
    cmd
}

fn union_intervals(nets: &[Net]) -> Vec<(u128, u128)> {
    let mut iv: Vec<(u128, u128)> = nets.iter().map(|n| (n.base, n.last())).collect();
    iv.sort();
    let mut m: Vec<(u128, u128)> = Vec::new();
    for (lo, hi) in iv {
        match m.last_mut() {
            Some(l) if l.1 == u128::MAX || lo <= l.1 + 1 => l.1 = l.1.max(hi),
            _ => m.push((lo, hi)),
        }
    }
    m
}

fn p09(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let l = make_list(i, r);
    if l.nets.is_empty() { return Ok(()); }
    if l.nets.len() >= 700 { c.x.cpu = 60; } // cubic time
    let e = p09_list(c, l, r);
    c.x.cpu = crate::exec::CPU_LIMIT_S;
    e
}

fn p09_list(c: &mut Ctx, l: List, r: &mut Rng) -> Result<(), Fail> {
    let cmd = min_cmd(&l.nets, r);
    if l.nets.len() > 1 { c.note(show_cmd(&cmd)); }
    let out = c.ok(&cmd)?;
    let got = parse_list(c, l.f, &out, &cmd)?;
    let all_cidr = l.nets.iter().chain(&got).all(|n| n.prefix().is_some());
    if all_cidr {
        c.count("unions compared as intervals");
        if union_intervals(&l.nets) != union_intervals(&got) {
            return bad(format!("{} prints {:?}: the addresses differ from the given ones", show_cmd(&cmd), short(&out)));
        }
        return Ok(());
    }
    if let Some((base, free)) = l.bits {
        if got.iter().all(|n| n.mask & !free == !free & l.f.all()) {
            c.count("unions compared point by point");
            for k in 0..1u128 << free.count_ones() {
                let a = base | deposit(k, free);
                let (was, is) = (l.nets.iter().any(|n| n.has(a)), got.iter().any(|n| n.has(a)));
                if was != is {
                    return bad(format!("{} prints {:?}: {} is {} of the given ones", show_cmd(&cmd), short(&out), addr_text(l.f, a), if was { "lost, a member" } else { "added, no member" }));
                }
            }
            // a network that strays outside of the fixed bits
            for n in &got {
                if n.base & !free != base { return bad(format!("{} prints {}, which lies elsewhere", show_cmd(&cmd), n.text())); }
            }
            return Ok(());
        }
    }
    c.count("unions compared by splitting");
    let mut fuel = 200_000;
    for (a, b, what) in [(&l.nets, &got, "lost"), (&got, &l.nets, "added")] {
        for n in a.iter() {
            match covered(n, b, &mut fuel) {
                Some(true) => {},
                Some(false) => return bad(format!("{} prints {:?}: addresses of {} are {}", show_cmd(&cmd), short(&out), n.text(), what)),
                None => return Err(Fail::Unsure("covering check out of fuel".to_owned())),
            }
        }
    }
    Ok(())
}

fn p10(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let l = make_list(i, r);
    if l.nets.is_empty() { return Ok(()); }
    if l.nets.len() >= 700 { c.x.cpu = 60; } // cubic time
    let e = p10_list(c, l, r);
    c.x.cpu = crate::exec::CPU_LIMIT_S;
    e
}

fn p10_list(c: &mut Ctx, l: List, r: &mut Rng) -> Result<(), Fail> {
    let cmd = min_cmd(&l.nets, r);
    if l.nets.len() > 1 { c.note(show_cmd(&cmd)); }
    let out = c.ok(&cmd)?;
    let got = parse_list(c, l.f, &out, &cmd)?;
    if l.nets.iter().all(|n| n.prefix().is_some()) {
        let want = aggregate(l.f, &l.nets);
        c.count("compared with the smallest CIDR cover");
        if got != want {
            return bad(format!("{} prints {:?}, expected {:?}", show_cmd(&cmd), short(&out), want.iter().map(|n| n.text()).collect::<Vec<_>>()));
        }
    }
    let _ = l.cidr;
    for (j, a) in got.iter().enumerate() {
        for b in &got[j + 1..] {
            if (a.base, a.mask) >= (b.base, b.mask) { return bad(format!("{}: {} is printed before {}", show_cmd(&cmd), a.text(), b.text())); }
            if a.superset(b) || b.superset(a) { return bad(format!("{}: {} and {} contain one another", show_cmd(&cmd), a.text(), b.text())); }
            let low_net = a.mask & a.mask.wrapping_neg();
            if a.mask == b.mask && a.base ^ b.base == low_net { return bad(format!("{}: {} and {} are halves of one network", show_cmd(&cmd), a.text(), b.text())); }
            c.count("pairs of printed networks checked");
        }
    }
    // order and repetition of the arguments
    let mut again = l.nets.clone();
    for _ in 0..r.below(3) { let n = *r.pick(&l.nets); again.push(n); }
    if r.chance(1, 3) { again.reverse(); } else { r.shuffle(&mut again); }
    let cmd2 = min_cmd(&again, r);
    let out2 = c.ok(&cmd2)?;
    if out2 != out { return bad(format!("{} prints {:?}, but permuted as {} it prints {:?}", show_cmd(&cmd), short(&out), show_cmd(&cmd2), short(&out2))); }
    c.count("permutations compared");
    // feeding back
    let mut cmd3 = args(&["-m"]);
    cmd3.extend(out.lines().map(|s| s.to_owned()));
    let out3 = c.ok(&cmd3)?;
    if out3 != out { return bad(format!("{} prints {:?}, but minimizing that gives {:?}", show_cmd(&cmd), short(&out), short(&out3))); }
    c.count("results fed back");
    Ok(())
}

// ----- derange -----

fn ends(f: Fam) -> [u128; 17] {
    let all = f.all();
    let mid = 1u128 << (f.w() - 1);
    let low = 1u128 << (f.w() / 2);
    [0, 1, 2, 255, 256, 257, low - 1, low, low + 1, mid - 1, mid, mid + 1, all - 256, all - 255, all - 2, all - 1, all]
}

fn range_case(i: u64, r: &mut Rng) -> (Fam, u128, u128) {
    if i < 2 * 289 {
        let f = if i % 2 == 0 { V4 } else { V6 };
        let k = (i / 2) as usize;
        return (f, ends(f)[k / 17], ends(f)[k % 17]);
    }
    let f = gen::fam(r);
    let a = gen::addr(f, r);
    let b = match r.below(8) {
        0 => a,
        1 => a ^ (1u128 << r.below(f.w() as u64)),
        2 => a.wrapping_add(r.below(300) as u128) & f.all(),
        3 => a | f.ones(r.u32r(0, f.w())),
        4 => { let n = Net::p(f, a, gen::prefix(f, r)); return (f, n.base, n.last()); },
        5 => { let n = Net::p(f, a, gen::prefix(f, r)); return (f, n.base.wrapping_add(r.range(-1, 1) as i128 as u128) & f.all(), n.last().wrapping_add(r.range(-1, 1) as i128 as u128) & f.all()); },
        _ => gen::addr(f, r),
    };
    (f, a, b)
}

fn derange_cmd(f: Fam, a: u128, b: u128, r: &mut Rng) -> Vec<String> {
    args(&[r.pick(&["-d", "--derange"]).to_string(), gen::spell_addr(f, a, r), gen::spell_addr(f, b, r)])
}

fn p11(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let (f, a, b) = range_case(i, r);
    let cmd = derange_cmd(f, a, b, r);
    c.note(show_cmd(&cmd));
    let out = c.ok(&cmd)?;
    let got = parse_list(c, f, &out, &cmd)?;
    let (lo, hi) = (a.min(b), a.max(b));
    if lo == 0 { c.count("ranges from the first address"); }
    if hi == f.all() { c.count("ranges to the last address"); }
    if got.iter().any(|n| n.prefix().is_none()) { return bad(format!("{} prints a lopsided network: {:?}", show_cmd(&cmd), short(&out))); }
    tiles(&got, lo, hi).map_err(|e| Fail::Bad(format!("{} prints {:?}: {}", show_cmd(&cmd), short(&out), e)))
}

fn p12(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let (f, a, b) = range_case(i, r);
    let cmd = derange_cmd(f, a, b, r);
    c.note(show_cmd(&cmd));
    let out = c.ok(&cmd)?;
    let got = parse_list(c, f, &out, &cmd)?;
    let want = range_nets(f, a.min(b), a.max(b));
    if got != want {
        return bad(format!("{} prints {:?}, the shortest ordered list is {:?}", show_cmd(&cmd), short(&out), short(&want.iter().map(|n| n.text()).collect::<Vec<_>>().join(" "))));
    }
    if want.len() == 1 { c.count("ranges that are one network"); }
    let swapped = derange_cmd(f, b, a, r);
    let out2 = c.ok(&swapped)?;
    if out2 != out { return bad(format!("{} prints {:?}, but {} prints {:?}", show_cmd(&cmd), short(&out), show_cmd(&swapped), short(&out2))); }
    c.count("swapped ranges compared");
    Ok(())
}

// ----- enumerate -----

pub fn check_members(out: &str, n: &Net, first: usize, complete: bool) -> Result<usize, String> {
    let mut k = 0usize;
    let total = if n.host_bits() >= 100 { u128::MAX } else { 1u128 << n.host_bits() };
    for l in out.lines().skip(first) {
        if k as u128 >= total { return Err(format!("line {:?} after all {} members of {}", l, total, n.text())); }
        let want = n.member(k as u128);
        if parse_addr(n.f, l) != Some(want) { return Err(format!("line {} is {:?}, expected {}", k + 1, l, addr_text(n.f, want))); }
        k += 1;
    }
    if complete && k as u128 != total { return Err(format!("{} lines for {} members of {}", k, total, n.text())); }
    Ok(k)
}

fn enum_case(c: &mut Ctx, n: &Net, r: &mut Rng) -> Result<(), Fail> {
    let cmd = args(&[r.pick(&["-e", "--enumerate"]).to_string(), gen::spell_net(n, r)]);
    c.note(show_cmd(&cmd));
    let out = c.ok(&cmd)?;
    match check_members(&out, n, 0, true) {
        Ok(k) => { c.add("addresses compared", k as u64); if n.last() == n.f.all() { c.count("networks ending at the last address"); } },
        Err(e) => return bad(format!("{}: {}", show_cmd(&cmd), e)),
    }
    if !out.ends_with('\n') { return bad(format!("{}: the last line does not end", show_cmd(&cmd))); }
    Ok(())
}

/// Number of host bits: mostly small.
fn size(c: &Ctx, r: &mut Rng) -> u32 {
    match r.below(400) { 0 => r.u32r(13, if c.thorough { 17 } else { 16 }), 1..=60 => r.u32r(8, 12), 61..=160 => r.u32r(4, 9), _ => r.u32r(0, 5) }
}

fn p19(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let (f, h, a) = if i < 104 {
        let f = if i % 2 == 0 { V4 } else { V6 };
        let a = match i / 26 { 0 => 0, 1 => f.all(), 2 => 1u128 << (f.w() / 2), _ => gen::addr(f, r) };
        (f, (i / 2 % 13) as u32, a)
    } else if i < 128 {
        let k = i as u32 - 104;
        let f = if k % 2 == 0 { V4 } else { V6 };
        let h = 18 - k / 4;
        (f, h, if k % 4 < 2 { gen::addr(f, r) } else { f.ones(f.w() - r.u32r(0, 8)) })
    } else if i < 131 {
        c.x.cpu = 60;
        let f = if i == 129 { V6 } else { V4 };
        (f, 21, if f == V6 { 0x2001_0db8u128 << 96 } else { gen::addr(f, r) })
    } else {
        let f = gen::fam(r);
        (f, size(c, r), gen::addr(f, r))
    };
    let e = enum_case(c, &Net::p(f, a, f.w() - h), r);
    c.x.cpu = crate::exec::CPU_LIMIT_S;
    e
}

fn p20(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let f = if i >= 300 && i < 316 { if i % 2 == 0 { V4 } else { V6 } } else { gen::fam(r) };
    let h = if i < 300 { 1 + (i % 10) as u32 } else if i < 314 { 17 - (i as u32 - 300) / 2 } else if i < 316 { if f == V6 { 20 } else { 21 } } else { size(c, r).max(1) };
    let mask = if r.chance(1, 8) {
        // host bits right below the top, or around a byte or word seam
        let top = *r.pick(&gen::seams(f)[1..]);
        let lo = top.saturating_sub(h / 2 + r.u32r(0, 1)).min(f.w() - h);
        !(f.ones(h) << lo) & f.all()
    } else { gen::lopsided_hosts(f, h, r) };
    if contig(f, mask).is_some() { return Ok(()); }
    let n = Net::new(f, gen::addr(f, r), mask);
    if h >= 20 { c.x.cpu = 60; }
    let e = enum_case(c, &n, r);
    c.x.cpu = crate::exec::CPU_LIMIT_S;
    e?;
    if n.last() - n.base < 4096 {
        // the definition itself, without bit tricks
        let cmd = args(&["-e", &n.text()]);
        let out = c.ok(&cmd)?;
        let want: Vec<String> = (n.base..=n.last()).filter(|a| a & n.mask == n.base).map(|a| addr_text(f, a)).collect();
        let got: Vec<String> = out.lines().map(|l| parse_addr(f, l).map(|a| addr_text(f, a)).unwrap_or_default()).collect();
        if want != got { return bad(format!("{} prints {:?}, the members are {:?}", show_cmd(&cmd), short(&out), short(&want.join(" ")))); }
        c.count("member sets found by testing every address");
    }
    Ok(())
}

fn p21(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let f = if i < 8 { V6 } else { gen::fam(r) };
    if i % 3 != 0 || i == 0 {
        let n = match i {
            0 => Net::p(V6, 0, 0),
            1 => Net::p(V4, 0, 0),
            2 => Net::p(V6, 1u128 << 127, 1),
            4 => Net::p(V6, 0x2001_0db8 << 96, 64),
            5 => Net::new(V6, 0x2001_0db8 << 96, 0xffff_ffffu128 << 96 | 0xffff),
            7 => Net::new(V4, 7, 7),
            _ => {
                let h = r.u32r(27, f.w());
                let m = if r.chance(1, 2) || h == f.w() { f.pmask(f.w() - h) } else { gen::lopsided_hosts(f, h, r) };
                Net::new(f, gen::addr(f, r), m)
            },
        };
        let mut a = args(&["-e", &gen::spell_net(&n, r)]);
        // a second network that will not be reached
        if r.chance(1, 4) { a.push(gen::spell_net(&gen::cidr(n.f, r), r)); }
        c.note(show_cmd(&a));
        // more than 2^24 lines of the first two (more than a u24, a float or a cache of that size can count), by the faster build
        let release = if i < 2 || i == 7 || c.thorough && i % 160 == 80 { c.x.paths.release.clone() } else { None };
        let bytes = match (&release, i) {
            (Some(_), 0) => 156 << 20,
            (Some(_), 1) => 230 << 20,
            (Some(_), 7) => 64 << 20,
            (Some(_), _) => 240 << 20,
            (None, _) if i < 8 || i % 40 == 0 => 12 << 20,
            _ => *r.pick(&[1usize, 5000, 200_000, 1_500_000, 3_500_000]),
        };
        if release.is_some() { c.count("enumerations by the release build"); }
        let path = release.unwrap_or_else(|| c.x.paths.plain.clone());
        let mut s = Spawn::new(&path, &a);
        s.address_space = 192 << 20;
        s.stop_after = bytes;
        s.cpu = if bytes > 13 << 20 { 200 } else { 40 };
        let marks = std::sync::Arc::new(std::sync::Mutex::new(Vec::new()));
        s.resident = Some(marks.clone());
        let o = s.run()?;
        c.x.runs_plain += 1;
        if let Some(l) = c.x.log.as_mut() { l.push((a.clone(), false, Some(o.clone()))); }
        // with enough read, the program is stopped; it must have written at least that much
        let text = o.text();
        let upto = text.rfind('\n').map(|p| p + 1).unwrap_or(0);
        let total: u128 = 1u128.checked_shl(n.host_bits()).unwrap_or(u128::MAX);
        if o.code != Code::OutputLimit { return bad(format!("{} ended with {:?} after {} of {} lines, stderr {:?}", show_cmd(&a), o.code, text[..upto].lines().count(), total, short(&o.err_text()))); }
        match check_members(&text[..upto], &n, 0, false) {
            Ok(k) => c.add("addresses compared", k as u64),
            Err(e) => return bad(format!("{}: {}", show_cmd(&a), e)),
        }
        c.count("huge networks");
        let m = marks.lock().unwrap();
        if m.len() >= 2 {
            c.count("memory compared early and late");
            let (early, late) = (m[0], m[m.len() - 1]);
            if late > early + 256 { return bad(format!("{} occupies {} KiB after 1 MiB of output and {} KiB after {} MiB", show_cmd(&a), early, late, m.len())); }
        }
        return Ok(());
    }
    // several at once
    let at_a_time = if i < 40 { 6 } else { 12 };
    for round in 0..at_a_time { several(c, i, round, r)?; }
    Ok(())
}

/// Another network that has to do with the given one.
fn relative(n: &Net, r: &mut Rng) -> Net {
    let f = n.f;
    let bit = |r: &mut Rng, m: u128| { let p: Vec<u32> = (0..f.w()).filter(|b| m >> b & 1 == 1).collect(); if p.is_empty() { 0 } else { 1u128 << *r.pick(&p) } };
    match r.below(7) {
        // part of it
        0 | 1 => { let mut m = n.mask; for _ in 0..r.u32r(1, 3) { m |= bit(r, n.wild()); } Net::new(f, n.base | r.u128() & n.wild(), m) },
        // larger
        2 => Net::new(f, n.base, if n.host_bits() < 9 { n.mask & !bit(r, n.mask) } else { n.mask }),
        // the other half
        3 => Net::new(f, n.base ^ (n.mask & n.mask.wrapping_neg()), n.mask),
        // elsewhere, of the same mask
        4 => Net::new(f, gen::addr(f, r), n.mask),
        // from the same base, of another mask
        5 => { let h = r.u32r(0, 8); Net::new(f, n.base, if h == 0 { f.all() } else { gen::hosts_at(f, h, r) }) },
        _ => *n,
    }
}

fn several(c: &mut Ctx, i: u64, round: u64, r: &mut Rng) -> Result<(), Fail> {
    let f = gen::fam(r);
    let mut a = args(&["-e"]);
    let mut want = String::new();
    let mixed = r.chance(1, 3);
    let (many, most) = if i == 39 && round == 0 || r.chance(1, 200) { (r.u32r(30, 300), 3) } else { (r.u32r(2, 6), 8) };
    let mut given: Vec<Net> = Vec::new();
    if i == 36 && round == 0 {
        // more than 16 bits can count
        for (n, _, s) in gen::crowd(66_000, true, 2, r) {
            given.push(n);
            a.push(s);
            for k in 0..1u128 << n.host_bits() { want.push_str(&addr_text(n.f, n.member(k))); want.push('\n'); }
        }
        c.count("lists of 66,000 networks");
    } else { for k in 0..many {
        let n = if k > 0 && r.chance(2, 3) { let o = *r.pick(&given); relative(&o, r) } else {
            let f = if mixed { gen::fam(r) } else { f };
            let h = r.u32r(0, most);
            Net::new(f, gen::addr(f, r), if h == 0 || r.chance(1, 2) { f.pmask(f.w() - h) } else { gen::hosts_at(f, h, r) })
        };
        given.push(n);
        a.push(gen::spell_net(&n, r));
        for k in 0..1u128 << n.host_bits() { want.push_str(&addr_text(n.f, n.member(k))); want.push('\n'); }
    } }
    c.note(show_cmd(&a));
    let out = c.ok(&a)?;
    if out != want {
        // one by one, what it prints for each
        let mut one_by_one = String::new();
        if given.len() > 60_000 {
            // too many for that: read by the model
            let same = out.lines().count() == want.lines().count() && out.lines().zip(want.lines()).all(|(o, w)| { let f = if w.contains(':') { V6 } else { V4 }; parse_addr(f, o) == parse_addr(f, w) });
            if !same || !out.ends_with('\n') { return bad(format!("{} prints {:?}, expected {:?}", show_cmd(&a), short(&out), short(&want))); }
            return Ok(());
        }
        for s in &a[1..] { one_by_one.push_str(&c.ok(&args(&["-e", s]))?); }
        if out != one_by_one { return bad(format!("{} prints {:?}, one after the other they print {:?}", show_cmd(&a), short(&out), short(&one_by_one))); }
        let mut rest = out.as_str();
        for n in &given {
            let end = rest.match_indices('\n').nth((1usize << n.host_bits()) - 1).map(|m| m.0 + 1).unwrap_or(rest.len());
            if let Err(e) = check_members(&rest[..end], n, 0, true) { return bad(format!("{}: {}", show_cmd(&a), e)); }
            rest = &rest[end..];
        }
    }
    c.count("several networks at once");
    Ok(())
}
