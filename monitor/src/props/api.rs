//! P26 to P29: operations on addresses and networks, called through the API hook and, where they
//! show, through command lines.

use crate::exec::{bad, Fail};
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::show;
use crate::{args, show_cmd, short, Ctx, Prop};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P26", systematic: 2 * 17, plain_only: false, case: p26,
            rule: "A case is 60 calls of address operations (addition, subtraction, offsets, bitwise operators, counts, comparison) on boundary-rich operands, compared with exact integers, or an enumeration or derange across a carry. Distinct by operands." },
        Prop { id: "P27", systematic: 200, plain_only: false, case: p27,
            rule: "A case is 30 calls of the transformation to and from contiguous form for one mask, compared with the definition, inverse and order, or a resize between masks. Distinct by mask and addresses." },
        Prop { id: "P28", systematic: 256, plain_only: false, case: p28,
            rule: "A case is 30 calls of network relations on related networks, compared with set relations (decided by membership of every point where few bits are free, else by bit arithmetic). Distinct by networks." },
        Prop { id: "P29", systematic: 33 + 129 + 256, plain_only: false, case: p29,
            rule: "A case is 30 conversions between bytes, groups, texts, masks and prefixes, compared with the definitions. Every prefix of both families and every IPv6 zero-group pattern comes first. Distinct by operands." },
    ]
}

struct Calls { f: Fam, text: Vec<String>, want: Vec<Vec<String>>, what: Vec<String> }

impl Calls {
    fn new(f: Fam) -> Calls { Calls { f, text: Vec::new(), want: Vec::new(), what: Vec::new() } }
    fn call(&mut self, op: &str, operands: &[String], want: String) { self.call_any(op, operands, vec![want]) }
    fn call_any(&mut self, op: &str, operands: &[String], want: Vec<String>) {
        self.text.push(op.to_owned());
        self.text.push(self.f.ver().to_owned());
        self.text.extend_from_slice(operands);
        self.what.push(format!("{} {} {}", op, self.f.name(), operands.join(" ")));
        self.want.push(want);
    }
    /// Performs the calls; false if the hook is not available.
    fn check(self, c: &mut Ctx) -> Result<bool, Fail> {
        let lines = match c.x.api(&self.text)? { Some(l) => l, None => return Ok(false) };
        if lines.len() != self.want.len() { return Err(Fail::Unsure(format!("{} answers to {} calls", lines.len(), self.want.len()))); }
        for ((l, w), what) in lines.iter().zip(&self.want).zip(&self.what) {
            c.note(what);
            if !w.contains(l) { return bad(format!("{} gives {:?}, expected {:?}", what, l, w[0])); }
            c.count(format!("calls of {}", what.split(' ').next().unwrap()));
        }
        Ok(true)
    }
}

fn hx(v: u128) -> String { format!("{:x}", v) }
fn opt(v: Option<u128>) -> String { v.map(hx).unwrap_or_else(|| "none".to_owned()) }

fn add(f: Fam, a: u128, b: u128) -> Option<u128> { a.checked_add(b).filter(|v| *v <= f.all()) }
fn off(f: Fam, a: u128, o: i64) -> Option<u128> {
    if o >= 0 { add(f, a, o as u128) } else { a.checked_sub(o.unsigned_abs() as u128) }
}

fn offset(r: &mut Rng) -> i32 {
    match r.below(7) {
        0 => *r.pick(&[0, 1, -1, i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, 255, 256, -256, 65535, 65536, -65536, 1 << 24, -(1 << 24)]),
        1 => r.range(-300, 300) as i32,
        2 => 1i32.wrapping_shl(r.u32r(0, 31)),
        3 => -(1i32.wrapping_shl(r.u32r(0, 30))),
        _ => r.u64() as i32,
    }
}

pub fn p26(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let f = if i < 34 { if i < 17 { V4 } else { V6 } } else { gen::fam(r) };
    if i >= 34 && (i % 5 == 0 || c.x.paths.api.is_none()) { return arith_cli(c, f, r); }
    let mut k = Calls::new(f);
    let all = f.all();
    let specials = [0, 1, 2, 0xff, 0x100, 0xffff_ffff & all, all / 2, all / 2 + 1, all - 1, all, 0x8000_0000 & all, u64::MAX as u128 & all, (1u128 << 64) & all, ((1u128 << 64) + 1) & all, (1u128 << 63) & all, all << 64 & all, 0x7fff_ffff];
    for j in 0..60 {
        let a = if i < 34 { specials[i as usize % 17] } else { gen::addr(f, r) };
        let b = match j % 6 {
            0 => gen::addr(f, r),
            1 => !a & all,
            2 => (all - a).wrapping_add(r.range(-2, 2) as i128 as u128) & all,
            3 => a.wrapping_add(r.range(-2, 2) as i128 as u128) & all,
            4 => specials[r.usize(17)],
            _ => 1u128 << r.below(f.w() as u64),
        };
        let o = [a, b];
        let o2: Vec<String> = o.iter().map(|v| hx(*v)).collect();
        match r.below(11) {
            0 | 1 => k.call("add", &o2, opt(add(f, a, b))),
            2 | 3 => k.call("sub", &o2, opt(a.checked_sub(b))),
            4 => {
                let n = if r.chance(1, 2) { offset(r) } else { ((all - a).min(i32::MAX as u128) as i64 + r.range(-2, 1)).clamp(i32::MIN as i64, i32::MAX as i64) as i32 };
                k.call("addoff", &[hx(a), n.to_string()], opt(off(f, a, n as i64)));
            },
            5 => {
                let n = if r.chance(1, 2) { offset(r) } else { (a.min(i32::MAX as u128) as i64 + r.range(-2, 1)).clamp(i32::MIN as i64, i32::MAX as i64) as i32 };
                k.call("suboff", &[hx(a), n.to_string()], opt(off(f, a, -(n as i64))));
            },
            6 => k.call("and", &o2, hx(a & b)),
            7 => k.call("or", &o2, hx(a | b)),
            8 => k.call("xor", &o2, hx(a ^ b)),
            9 => k.call("cmp", &o2, format!("{:?} {}", a.cmp(&b), a == b)),
            _ => {
                k.call("not", &[hx(a)], hx(!a & all));
                k.call("count", &[hx(a)], format!("{} {} {}", a.count_ones(), f.w() - a.count_ones(), f.w() / 8));
            },
        }
    }
    if k.check(c)? { Ok(()) } else { arith_cli(c, f, r) }
}

/// Arithmetic as command lines show it.
fn arith_cli(c: &mut Ctx, f: Fam, r: &mut Rng) -> Result<(), Fail> {
    // enumerating across carries
    let s = *r.pick(gen::seams(f));
    let h = r.u32r(1, 6);
    let wild = if s + h <= f.w() { f.ones(h) << s.saturating_sub(r.u32r(0, h)).min(f.w() - h) } else { f.ones(h) };
    let n = Net::new(f, gen::addr(f, r), !wild & f.all());
    let cmd = args(&["-e", &n.text()]);
    c.note(show_cmd(&cmd));
    let out = c.ok(&cmd)?;
    if let Err(e) = super::lists::check_members(&out, &n, 0, true) { return bad(format!("{}: {}", show_cmd(&cmd), e)); }
    // consecutive blocks across carries
    let a = gen::addr(f, r);
    let b = a.wrapping_add(r.below(100_000) as u128) & f.all();
    let cmd = args(&["-d", &addr_text(f, a), &addr_text(f, b)]);
    c.note(show_cmd(&cmd));
    let out = c.ok(&cmd)?;
    let got: Option<Vec<Net>> = out.lines().map(|l| parse_net(f, l)).collect();
    if got != Some(range_nets(f, a.min(b), a.max(b))) { return bad(format!("{} prints {:?}", show_cmd(&cmd), short(&out))); }
    // wildcard (negation), first and last host
    let m = gen::any_mask(f, r);
    let n = Net::new(f, a, m);
    let cmd = args(&[gen::plain(f, a, m)]);
    let out = c.ok(&cmd)?;
    if let Err(e) = show::check_facts(&out.lines().collect::<Vec<_>>(), &n, Some(a)) { return bad(format!("{}: {}", show_cmd(&cmd), e)); }
    c.count("command lines");
    Ok(())
}

pub fn p27(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let f = gen::fam(r);
    let mask = if i < 200 && i % 2 == 0 { f.pmask((i as u32 / 2) % (f.w() + 1)) } else { gen::any_mask(f, r) };
    let cli = |c: &mut Ctx, r: &mut Rng| -> Result<(), Fail> {
        // same-size resize shows the transformation and its inverse
        let n = Net::new(f, gen::addr(f, r), mask);
        let p = f.pmask(f.w() - n.host_bits());
        let cmd = args(&["-r", &n.text(), &addr_text(f, p)]);
        c.note(show_cmd(&cmd));
        let out = c.ok(&cmd)?;
        let want = super::resize::resize_super(&n, p);
        let bl = show::blocks(&out);
        if bl.len() != 2 { return bad(format!("{} prints {} blocks", show_cmd(&cmd), bl.len())); }
        if let Err(e) = show::check_facts(&bl[1][1..], &want, None) { return bad(format!("{}: {}", show_cmd(&cmd), e)); }
        let cmd = args(&["-r", &want.text(), &addr_text(f, mask)]);
        let out = c.ok(&cmd)?;
        let bl = show::blocks(&out);
        if bl.len() != 2 { return bad(format!("{} prints {} blocks", show_cmd(&cmd), bl.len())); }
        if let Err(e) = show::check_facts(&bl[1][1..], &n, None) { return bad(format!("{}: {}", show_cmd(&cmd), e)); }
        c.count("command lines");
        Ok(())
    };
    if i >= 200 && (i % 6 == 0 || c.x.paths.api.is_none()) { return cli(c, r); }
    let mut k = Calls::new(f);
    let m = hx(mask);
    let one = gen::addr(f, r);
    for j in 0..15 {
        let a = match j { 0 => f.all(), 1 => 0, 2 => mask, 3 => !mask & f.all(), 4 | 5 => 1u128 << r.below(f.w() as u64), 6..=8 => one & mask | (r.u128() & !mask & f.all()), _ => gen::addr(f, r) };
        let u = unravel(f, a, mask);
        k.call("unravel", &[hx(a), m.clone()], hx(u));
        k.call("weave", &[hx(u), m.clone()], hx(a));
        if contig(f, mask).is_some() { k.call("weave", &[hx(a), m.clone()], hx(a)); }
    }
    if !k.check(c)? { return cli(c, r); }
    Ok(())
}

/// Whether the networks meet and contain one another, found by membership of every point of the free
/// bits when these are few.
fn relate(a: &Net, b: &Net) -> (bool, bool, bool) {
    let free = (a.wild() | b.wild()) | (a.base ^ b.base);
    if free.count_ones() <= 10 {
        let base = a.base & !free;
        let (mut sup, mut sub, mut meet) = (true, true, false);
        for k in 0..1u128 << free.count_ones() {
            let p = base | deposit(k, free);
            match (a.has(p), b.has(p)) { (true, true) => meet = true, (true, false) => sub = false, (false, true) => sup = false, _ => {} }
        }
        (sup, sub, meet)
    } else { (a.superset(b), b.superset(a), a.meets(b)) }
}

pub fn p28(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let f = gen::fam(r);
    if i >= 256 && (i % 6 == 0 || c.x.paths.api.is_none()) { return relate_cli(c, f, r); }
    let mut k = Calls::new(f);
    for _ in 0..12 {
        // pairs that nearly contain one another or nearly meet
        let small = r.chance(1, 2);
        let free = if small { !gen::hosts_at(f, r.u32r(1, 8), r) & f.all() } else { f.all() };
        let base = gen::addr(f, r);
        let mask = |r: &mut Rng| if small { f.all() & !(free & r.u128()) } else { gen::any_mask(f, r) };
        let m1 = mask(r);
        let m2 = match r.below(4) { 0 => m1, 1 => m1 | (r.u128() & f.all()), 2 => m1 & r.u128(), _ => mask(r) };
        let flip = match r.below(4) { 0 => 0, 1 => 1u128 << r.below(f.w() as u64), 2 => r.u128() & !(m1 & m2), _ => (r.u128() & r.u128()) & free } & f.all();
        let a = Net::new(f, base, m1);
        let b = Net::new(f, base ^ flip, m2);
        let (sup, sub, meet) = relate(&a, &b);
        k.call("relate", &[hx(a.base), hx(m1), hx(b.base), hx(m2)], format!("{} {} {} {}", sup, sub, meet, a == b));
        let p = base ^ match r.below(3) { 0 => 0, 1 => 1u128 << r.below(f.w() as u64) & f.all(), _ => r.u128() & a.wild() };
        k.call("contains", &[hx(a.base), hx(m1), hx(p)], a.has(p).to_string());
        let low = a.low_host();
        let (first, last) = if a.host_bits() >= 2 { (Some(a.base | low), Some(a.last() & !low)) } else { (None, None) };
        let h = a.host_bits();
        // the network of the same mask after this one
        let next = {
            let u = unravel(f, a.base, m1);
            if h == f.w() { None } else { u.checked_add(if h == 0 { 1 } else { 1u128 << h }).filter(|v| *v <= f.all()).map(|v| weave(f, v, m1)) }
        };
        let count = if h == 128 { "340282366920938463463374607431768211456".to_owned() } else { (1u128 << h).to_string() };
        let hosts = match h { 0 => "-1".to_owned(), 1 => "0".to_owned(), _ => a.hosts().unwrap().to_string() };
        let info = |hosts: &str| format!("{} {} {} {} {:x} {:x} {} {}", opt(first), opt(last), opt(if h >= 1 { Some(a.last()) } else { None }), opt(next), a.last(), a.wild(), count, hosts);
        // a network of one address has no hosts, counted as -1 or 0
        k.call_any("netinfo", &[hx(a.base), hx(m1)], vec![info(&hosts), info(if h == 0 { "0" } else { &hosts })]);
    }
    if k.check(c)? { Ok(()) } else { relate_cli(c, f, r) }
}

/// Containment as minimize shows it.
fn relate_cli(c: &mut Ctx, f: Fam, r: &mut Rng) -> Result<(), Fail> {
    let base = gen::addr(f, r);
    let m1 = gen::any_mask(f, r);
    let m2 = match r.below(3) { 0 => m1 | (r.u128() & f.all()), 1 => m1 & r.u128(), _ => gen::any_mask(f, r) };
    let flip = match r.below(3) { 0 => 0, 1 => 1u128 << r.below(f.w() as u64), _ => r.u128() & !m1 } & f.all();
    let a = Net::new(f, base, m1);
    let b = Net::new(f, base ^ flip, m2);
    let cmd = args(&["-m", &a.text(), &b.text()]);
    c.note(show_cmd(&cmd));
    let out = c.ok(&cmd)?;
    let got: Option<Vec<Net>> = out.lines().map(|l| parse_net(f, l)).collect();
    let got = match got { Some(g) => g, None => return bad(format!("{} prints {:?}", show_cmd(&cmd), short(&out))) };
    let want = if a.superset(&b) { Some(a) } else if b.superset(&a) { Some(b) } else { None };
    match want {
        Some(w) => if got != [w] { return bad(format!("{} prints {:?}, but {} contains the other", show_cmd(&cmd), short(&out), w.text())); },
        None => {
            for n in [a, b] {
                if !got.contains(&n) && got.len() != 1 { return bad(format!("{} prints {:?} without {}", show_cmd(&cmd), short(&out), n.text())); }
            }
            if got.len() == 1 && !(a.mask == b.mask && (a.base ^ b.base).count_ones() == 1) { return bad(format!("{} prints {:?}, but neither contains the other", show_cmd(&cmd), short(&out))); }
        },
    }
    let cmd = args(&[gen::plain(f, base, m1)]);
    let out = c.ok(&cmd)?;
    if let Err(e) = show::check_facts(&out.lines().collect::<Vec<_>>(), &a, Some(base)) { return bad(format!("{}: {}", show_cmd(&cmd), e)); }
    c.count("command lines");
    Ok(())
}

fn hexs(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

pub fn p29(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let sys = 33 + 129 + 256;
    let f = if i < 33 { V4 } else if i < sys { V6 } else { gen::fam(r) };
    if i >= sys && (i % 6 == 0 || c.x.paths.api.is_none()) { return convert_cli(c, f, r); }
    let mut k = Calls::new(f);
    let w = f.w() as usize;
    for j in 0..5 {
        let a = if i < 33 { if j == 0 { V4.pmask(i as u32) } else { gen::addr(f, r) } } else if i < 162 { if j == 0 { V6.pmask(i as u32 - 33) } else { gen::addr(f, r) } }
            else if i < sys { gen::pattern_addr(i as u32 - 162, r) } else if f == V6 && r.chance(1, 3) { gen::groups_addr(r) } else { gen::addr(f, r) };
        let by = f.bytes(a);
        k.call("bytes", &[hx(a)], hexs(&by));
        k.call("frombytes", &[hexs(&by)], hx(a));
        k.call_any("text", &[hx(a)], canonical(f, a));
        k.call("parse", &[gen::spell_addr(f, a, r)], hx(a));
        let bits: String = by.iter().map(|b| format!("{:08b}", b)).collect();
        k.call("bits", &[hexs(&by)], bits.clone());
        k.call("frombits", &[bits.clone()], hexs(&by));
        k.call("binary", &[hexs(&by)], bits);
        // wrong lengths
        let n = *r.pick(&[0, 1, 3, 5, 8, 12, 15, 17, 20]);
        if n * 8 != w { k.call("frombytes", &[hexs(&(0..n).map(|_| r.u64() as u8).collect::<Vec<_>>())], "none".to_owned()); }
        if n % 2 == 1 {
            let part = &by[..n.min(by.len())];
            k.call("binary", &[hexs(part)], part.iter().map(|b| format!("{:08b}", b)).collect());
        }
        if f == V6 {
            let g = groups(a);
            let gt: Vec<String> = g.iter().map(|x| format!("{:04x}", x)).collect();
            k.call("fulltext", &[hx(a)], gt.join(":"));
            k.call("parse", &[gt.join(":")], hx(a));
            k.call("parse", &[full_text(f, a)], hx(a));
            k.call("chunks", &[hx(a)], gt.join(","));
            k.call("fromchunks", &[gt.join(",")], hx(a));
            let m = *r.pick(&[1usize, 2, 4, 7, 9, 10, 16]);
            k.call("fromchunks", &[(0..m).map(|x| gt[x % 8].clone()).collect::<Vec<_>>().join(",")], "none".to_owned());
        }
        // masks and prefixes
        let p = if i < 33 { i as u32 } else if i < 162 { i as u32 - 33 } else { gen::prefix(f, r) };
        let mask = f.pmask(p);
        k.call("prefixmask", &[p.to_string()], hexs(&f.bytes(mask)));
        k.call("maskprefix", &[hexs(&f.bytes(mask))], p.to_string());
        let m = gen::any_mask(f, r);
        k.call("maskprefix", &[hexs(&f.bytes(m))], contig(f, m).map(|p| p.to_string()).unwrap_or_else(|| "none".to_owned()));
        let near = mask ^ (1u128 << r.below(w as u64)) & f.all();
        k.call("maskprefix", &[hexs(&f.bytes(near))], contig(f, near).map(|p| p.to_string()).unwrap_or_else(|| "none".to_owned()));
        // networks
        let net = |n: &Net| format!("{:x} {:x} {}", n.base, n.mask, n.prefix().map(|p| p.to_string()).unwrap_or_else(|| "none".to_owned()));
        let n = Net::new(f, a, m);
        let np = Net::p(f, a, p);
        k.call("newmask", &[hx(a), hx(m)], net(&n));
        k.call("newprefix", &[hx(a), p.to_string()], net(&np));
        k.call("newmask", &[hx(a), hx(mask)], net(&np));
        let b = match r.below(3) { 0 => a, 1 => a & m, _ => a & m | (1u128 << r.below(w as u64) & f.all()) };
        k.call("newmaskstrict", &[hx(b), hx(m)], if b & !m & f.all() == 0 { net(&Net::new(f, b, m)) } else { "none".to_owned() });
        let b = match r.below(3) { 0 => a, 1 => a & mask, _ => a & mask | (1u128 << r.below(w as u64) & f.all()) };
        k.call("newprefixstrict", &[hx(b), p.to_string()], if b & !mask & f.all() == 0 { net(&Net::p(f, b, p)) } else { "none".to_owned() });
        k.call("relate", &[hx(np.base), hx(mask), hx(a & mask), hx(mask)], "true true true true".to_owned());
    }
    if k.check(c)? { Ok(()) } else { convert_cli(c, f, r) }
}

fn convert_cli(c: &mut Ctx, f: Fam, r: &mut Rng) -> Result<(), Fail> {
    let a = if f == V6 && r.chance(1, 2) { gen::groups_addr(r) } else { gen::addr(f, r) };
    let m = gen::any_mask(f, r);
    let cmd = args(&[gen::spell(f, a, m, r)]);
    c.note(show_cmd(&cmd));
    let out = c.ok(&cmd)?;
    let lines: Vec<&str> = out.lines().collect();
    if let Err(e) = show::check_facts(&lines, &Net::new(f, a, m), Some(a)) { return bad(format!("{}: {}", show_cmd(&cmd), e)); }
    if let Err(e) = show::check_layout(&lines, f) { return bad(format!("{}: {}", show_cmd(&cmd), e)); }
    for (_, t) in show::addr_texts(&lines, f) {
        let o = c.ok(&args(&["-d", &t, &t]))?;
        if o.trim_end() != format!("{}/{}", t, f.w()) { return bad(format!("{} printed {:?}, which derange reads back as {:?}", show_cmd(&cmd), t, o)); }
    }
    c.count("command lines");
    Ok(())
}
