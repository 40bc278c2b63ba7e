//! P16 to P18: resize.

use crate::exec::{self, bad, Fail};
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::show;
use crate::{args, show_cmd, short, Ctx, Prop};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P16", systematic: 33 * 34 / 2 + 129 * 4, plain_only: false, case: p16,
            rule: "A case resizes a CIDR network to a shorter or equal prefix and compares the one result; every pair of IPv4 prefixes comes first. Distinct by command line." },
        Prop { id: "P17", systematic: 33 * 9 + 129 * 2 + 2, plain_only: false, case: p17,
            rule: "A case resizes a CIDR network to a prefix up to 8 (rarely 15) longer and checks that the numbered subnets are the consecutive partition; every IPv4 prefix with every difference up to 8 comes first, and one partition into 2^16 and one into 2^20 subnets. Distinct by command line." },
        Prop { id: "P18", systematic: 400, plain_only: false, case: p18,
            rule: "A case resizes between two masks, at least one of them usually interspersed, and compares every printed network with the model of moving bits. Distinct by command line." },
    ]
}

/// The result of resizing to a mask with at least as many host bits.
pub fn resize_super(n: &Net, mask: u128) -> Net {
    let f = n.f;
    let h = (!mask & f.all()).count_ones();
    let u = unravel(f, n.base, n.mask) & f.pmask(f.w() - h);
    Net { f, base: weave(f, u, mask), mask }
}

/// The subnets for a mask with fewer host bits.
pub fn resize_subs(n: &Net, mask: u128) -> Vec<Net> {
    let f = n.f;
    let h = (!mask & f.all()).count_ones();
    let u = unravel(f, n.base, n.mask);
    (0..1u128 << (n.host_bits() - h)).map(|i| Net { f, base: weave(f, u | if h < 128 { i << h } else { 0 }, mask), mask }).collect()
}

enum Outcome { Super(Net), Same(Net), Subs(Vec<Net>) }

fn model(n: &Net, mask: u128) -> Outcome {
    let h = (!mask & n.f.all()).count_ones();
    if h > n.host_bits() { Outcome::Super(resize_super(n, mask)) }
    else if h == n.host_bits() { Outcome::Same(resize_super(n, mask)) }
    else { Outcome::Subs(resize_subs(n, mask)) }
}

fn check(c: &mut Ctx, n: &Net, mask: u128, r: &mut Rng) -> Result<(), Fail> {
    let f = n.f;
    let cmd = args(&[r.pick(&["-r", "--resize"]).to_string(), gen::spell_net(n, r), gen::spell_mask_arg(f, mask, r)]);
    c.note(show_cmd(&cmd));
    let out = c.ok(&cmd)?;
    let bl = show::blocks(&out);
    if bl.is_empty() || !bl[0][0].starts_with("Original network") { return bad(format!("{} does not start with the original network: {:?}", show_cmd(&cmd), short(&out))); }
    if let Err(e) = show::check_facts(&bl[0][1..], n, None) { return bad(format!("{}: original network: {}", show_cmd(&cmd), e)); }
    let (titles, nets): (Vec<String>, Vec<Net>) = match model(n, mask) {
        Outcome::Super(s) => { c.count("supernets"); (vec!["Supernet:".to_owned()], vec![s]) },
        Outcome::Same(s) => { c.count("same-sized"); (vec!["Same-sized net:".to_owned()], vec![s]) },
        Outcome::Subs(v) => { c.count("resizes to subnets"); ((1..=v.len()).map(|k| format!("Subnet {}:", k)).collect(), v) },
    };
    if bl.len() - 1 != nets.len() { return bad(format!("{} prints {} networks, expected {}", show_cmd(&cmd), bl.len() - 1, nets.len())); }
    for ((b, n), t) in bl[1..].iter().zip(&nets).zip(&titles) {
        if b[0] != t { return bad(format!("{}: found {:?} where {:?} was expected", show_cmd(&cmd), b[0], t)); }
        if let Err(e) = show::check_facts(&b[1..], n, None) { return bad(format!("{}: {} {}", show_cmd(&cmd), t, e)); }
        c.count("result networks checked");
        if n.last() == f.all() { c.count("results ending at the last address"); }
    }
    Ok(())
}

fn p16(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let (n, p2) = if i < 561 {
        // all pairs p2 <= p
        let mut k = i as u32;
        let mut p = 0;
        while k > p { k -= p + 1; p += 1; }
        (Net::p(V4, gen::addr(V4, r), p), k)
    } else if i < 561 + 516 {
        let p = ((i - 561) / 4) as u32;
        (Net::p(V6, gen::addr(V6, r), p), match i % 4 { 0 => p, 1 => p.saturating_sub(1), 2 => r.u32r(0, p), _ => p.min(64) })
    } else {
        let f = gen::fam(r);
        let p = gen::prefix(f, r);
        (gen::cidr_p(f, p, r), if r.chance(1, 5) { p } else { r.u32r(0, p) })
    };
    check(c, &n, n.f.pmask(p2), r)?;
    // independently of the bit model: the supernet contains the network
    Ok(())
}

/// One network and all of its 2^20 addresses as subnets, by the faster build.
fn million(c: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let path = match &c.x.paths.release { Some(p) => p.clone(), None => return Ok(()) };
    let f = gen::fam(r);
    let n = Net::p(f, if r.chance(1, 4) { f.all() } else { gen::addr(f, r) }, f.w() - 20);
    let cmd = args(&["-r".to_owned(), gen::spell_net(&n, r), gen::spell_mask_arg(f, f.all(), r)]);
    c.note(show_cmd(&cmd));
    let mut s = exec::Spawn::new(&path, &cmd);
    s.stop_after = 1 << 30;
    s.cpu = 200;
    let o = s.run()?;
    c.x.runs_plain += 1;
    if o.code != exec::Code::Exit(0) || !o.err.is_empty() { return bad(format!("{} ends with {:?}, {:?}", show_cmd(&cmd), o.code, short(&o.err_text()))); }
    let out = o.text();
    let mut lines = out.lines().peekable();
    let mut k = 0u128;
    while lines.peek().is_some() {
        let b: Vec<&str> = lines.by_ref().take_while(|l| !l.is_empty()).collect();
        let (title, want) = if k == 0 { ("Original network:".to_owned(), n) } else { (format!("Subnet {}:", k), Net { f, base: n.base | (k - 1), mask: f.all() }) };
        if k > 1 << 20 || b.first() != Some(&title.as_str()) { return bad(format!("{}: found {:?} after {} networks", show_cmd(&cmd), b.first(), k)); }
        if let Err(e) = show::check_facts(&b[1..], &want, None) { return bad(format!("{}: {} {}", show_cmd(&cmd), title, e)); }
        k += 1;
    }
    if k != (1 << 20) + 1 { return bad(format!("{} prints {} networks", show_cmd(&cmd), k)); }
    c.add("result networks checked", k as u64);
    c.count("partitions into 2^20 subnets");
    Ok(())
}

fn p17(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    if i == 297 + 259 || c.thorough && i % 20000 == 19999 { return million(c, r); }
    let (n, d) = if i < 297 {
        let p = (i / 9) as u32;
        (gen::cidr_p(V4, p, r), (i % 9) as u32)
    } else if i < 297 + 258 {
        let p = ((i - 297) / 2) as u32;
        (gen::cidr_p(V6, p, r), r.u32r(1, 6))
    } else {
        let f = gen::fam(r);
        let p = gen::prefix(f, r).min(f.w() - 1);
        (gen::cidr_p(f, p, r), match r.below(120) { 0 if r.chance(1, 30) => r.u32r(13, 15), 0 | 1 => r.u32r(8, 12), 2..=19 => r.u32r(5, 8), _ => r.u32r(1, 5) })
    };
    // one partition into 2^16 subnets
    let (n, d) = if i == 297 + 258 { c.x.cpu = 60; (Net::p(V4, gen::addr(V4, r), r.u32r(0, 16)), 16) } else { (n, d) };
    let p = n.prefix().unwrap();
    let p2 = (p + d).min(n.f.w());
    if p2 == p { return Ok(()); }
    let v = check(c, &n, n.f.pmask(p2), r);
    c.x.cpu = exec::CPU_LIMIT_S;
    v
}

fn p18(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let f = if i < 200 { V4 } else { gen::fam(r) };
    let m1 = if r.chance(1, 4) { f.pmask(gen::prefix(f, r)) } else { gen::lopsided(f, r) };
    let h1 = (!m1 & f.all()).count_ones();
    // fewer, as many, or more host bits
    let h2 = match r.below(3) {
        0 => h1,
        1 => h1.saturating_sub(match r.below(10) { 0 if r.chance(1, 100) => r.u32r(11, 14), 0 => r.u32r(6, 10), _ => r.u32r(1, 5) }),
        _ => r.u32r(h1, f.w()),
    };
    let m2 = if h2 == 0 || h2 == f.w() || r.chance(1, 5) { f.pmask(f.w() - h2) } else { gen::hosts_at(f, h2, r) };
    let n = Net::new(f, if r.chance(1, 5) { f.all() } else { gen::addr(f, r) }, m1);
    check(c, &n, m2, r)
}
