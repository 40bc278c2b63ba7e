//! The reference model: addresses are plain 128-bit integers. Written from the documentation and
//! the definitions of IP addressing, sharing no code with ripcalc.

use std::net::{Ipv4Addr, Ipv6Addr};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Fam { V4, V6 }
pub use Fam::*;

impl Fam {
    pub fn w(self) -> u32 { match self { V4 => 32, V6 => 128 } }
    pub fn all(self) -> u128 { match self { V4 => 0xFFFF_FFFF, V6 => u128::MAX } }
    pub fn name(self) -> &'static str { match self { V4 => "v4", V6 => "v6" } }
    pub fn ver(self) -> &'static str { match self { V4 => "4", V6 => "6" } }
    pub fn other(self) -> Fam { match self { V4 => V6, V6 => V4 } }
    /// The mask with `p` leading ones.
    pub fn pmask(self, p: u32) -> u128 {
        assert!(p <= self.w());
        if p == 0 { 0 } else { (self.all() << (self.w() - p)) & self.all() }
    }
    pub fn ones(self, n: u32) -> u128 {
        if n == 0 { 0 } else { u128::MAX >> (128 - n) }
    }
    pub fn bytes(self, v: u128) -> Vec<u8> {
        (0..self.w() / 8).map(|i| (v >> (self.w() - 8 - 8 * i)) as u8).collect()
    }
}

/// The prefix length of a contiguous mask.
pub fn contig(f: Fam, mask: u128) -> Option<u32> {
    let p = mask.count_ones();
    if mask == f.pmask(p) { Some(p) } else { None }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Net { pub f: Fam, pub base: u128, pub mask: u128 }

impl Net {
    pub fn new(f: Fam, addr: u128, mask: u128) -> Net { Net { f, base: addr & mask, mask } }
    pub fn p(f: Fam, addr: u128, p: u32) -> Net { Net::new(f, addr, f.pmask(p)) }
    pub fn wild(&self) -> u128 { !self.mask & self.f.all() }
    pub fn prefix(&self) -> Option<u32> { contig(self.f, self.mask) }
    pub fn host_bits(&self) -> u32 { self.wild().count_ones() }
    pub fn last(&self) -> u128 { self.base | self.wild() }
    pub fn has(&self, a: u128) -> bool { a & self.mask == self.base }
    pub fn superset(&self, o: &Net) -> bool { self.mask & !o.mask == 0 && o.base & self.mask == self.base }
    pub fn meets(&self, o: &Net) -> bool { (self.base ^ o.base) & self.mask & o.mask == 0 }
    /// Lowest bit among the host bits.
    pub fn low_host(&self) -> u128 { let w = self.wild(); w & w.wrapping_neg() }
    /// The i-th member, counting in the host bits.
    pub fn member(&self, i: u128) -> u128 { self.base | deposit(i, self.wild()) }
    pub fn text(&self) -> String {
        match self.prefix() {
            Some(p) => format!("{}/{}", addr_text(self.f, self.base), p),
            None => format!("{}/{}", addr_text(self.f, self.base), addr_text(self.f, self.mask)),
        }
    }
    /// Number of hosts as text, if there is at least one.
    pub fn hosts(&self) -> Option<u128> {
        let h = self.host_bits();
        if h < 2 { None } else if h == 128 { Some(u128::MAX - 1) } else { Some((1u128 << h) - 2) }
    }
}

/// Spreads the low bits of `v` over the one bits of `positions`, lowest first.
pub fn deposit(mut v: u128, positions: u128) -> u128 {
    let mut r = 0;
    let mut p = positions;
    while p != 0 {
        let low = p & p.wrapping_neg();
        if v & 1 == 1 { r |= low; }
        v >>= 1;
        p &= p - 1;
    }
    r
}

/// Gathers the bits of `v` at the one bits of `positions` into the low bits, lowest first.
pub fn extract(v: u128, positions: u128) -> u128 {
    let mut r = 0;
    let mut i = 0;
    let mut p = positions;
    while p != 0 {
        let low = p & p.wrapping_neg();
        if v & low != 0 { r |= 1 << i; }
        i += 1;
        p &= p - 1;
    }
    r
}

/// Network bits in order, followed by host bits in order.
pub fn unravel(f: Fam, v: u128, mask: u128) -> u128 {
    let wild = !mask & f.all();
    let h = wild.count_ones();
    let net = extract(v, mask);
    let hi = if h == 128 { 0 } else { net << h };
    (hi | extract(v, wild)) & f.all()
}

pub fn weave(f: Fam, v: u128, mask: u128) -> u128 {
    let wild = !mask & f.all();
    let h = wild.count_ones();
    let net = if h == 128 { 0 } else { v >> h };
    deposit(net, mask) | deposit(v, wild)
}

/// The shortest ordered list of CIDR networks for an inclusive range.
pub fn range_nets(f: Fam, lo: u128, hi: u128) -> Vec<Net> {
    let mut r = Vec::new();
    let mut a = lo;
    loop {
        let mut bits = if a == 0 { f.w() } else { a.trailing_zeros().min(f.w()) };
        while bits > 0 && (a | f.ones(bits)) > hi { bits -= 1; }
        r.push(Net::p(f, a, f.w() - bits));
        let last = a | f.ones(bits);
        if last >= hi { return r; }
        a = last + 1;
    }
}

/// The smallest list of CIDR networks with the same union as the given CIDR networks.
pub fn aggregate(f: Fam, nets: &[Net]) -> Vec<Net> {
    let mut iv: Vec<(u128, u128)> = nets.iter().map(|n| (n.base, n.last())).collect();
    iv.sort();
    let mut merged: Vec<(u128, u128)> = Vec::new();
    for (lo, hi) in iv {
        match merged.last_mut() {
            Some(l) if l.1 == u128::MAX || lo <= l.1 + 1 => l.1 = l.1.max(hi),
            _ => merged.push((lo, hi)),
        }
    }
    merged.iter().flat_map(|(lo, hi)| range_nets(f, *lo, *hi)).collect()
}

/// Whether every address of `a` is in one of `list`. `fuel` bounds the work; `None` if it runs out.
pub fn covered(a: &Net, list: &[Net], fuel: &mut u32) -> Option<bool> {
    if *fuel == 0 { return None; }
    *fuel -= 1;
    let rel: Vec<Net> = list.iter().filter(|b| b.meets(a)).copied().collect();
    if rel.is_empty() { return Some(false); }
    if rel.iter().any(|b| b.superset(a)) { return Some(true); }
    // split at the most significant bit that is free in a and fixed in some b
    let bits = rel.iter().fold(0, |m, b| m | (b.mask & !a.mask));
    let bit = 1u128 << (127 - bits.leading_zeros());
    for v in [0, bit] {
        let half = Net { f: a.f, base: a.base | v, mask: a.mask | bit };
        match covered(&half, &rel, fuel) {
            Some(true) => {},
            o => return o,
        }
    }
    Some(true)
}

/// Whether the networks, in any order, tile exactly lo..=hi without overlap (CIDR only).
pub fn tiles(nets: &[Net], lo: u128, hi: u128) -> Result<(), String> {
    let mut v: Vec<&Net> = nets.iter().collect();
    v.sort_by_key(|n| n.base);
    let mut next = Some(lo);
    for n in v {
        match next {
            Some(x) if x == n.base => {},
            Some(x) if n.base > x => return Err(format!("addresses from {} are missing before {}", addr_text(n.f, x), n.text())),
            _ => return Err(format!("{} overlaps its predecessor or lies outside", n.text())),
        }
        if n.last() > hi { return Err(format!("{} goes beyond {}", n.text(), addr_text(n.f, hi))); }
        next = n.last().checked_add(1);
        if n.last() == hi { next = Some(hi).and_then(|h| h.checked_add(1)); }
    }
    let end = hi.checked_add(1);
    if next != end { return Err("the last addresses are missing".to_owned()); }
    Ok(())
}

pub fn groups(v: u128) -> [u16; 8] {
    let mut g = [0; 8];
    for (i, x) in g.iter_mut().enumerate() { *x = (v >> (112 - 16 * i)) as u16; }
    g
}

fn v6_text(g: &[u16; 8], shorten: Option<(usize, usize)>) -> String {
    match shorten {
        None => g.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(":"),
        Some((i, n)) => {
            let a: Vec<String> = g[..i].iter().map(|x| format!("{:x}", x)).collect();
            let b: Vec<String> = g[i + n..].iter().map(|x| format!("{:x}", x)).collect();
            format!("{}::{}", a.join(":"), b.join(":"))
        },
    }
}

/// Leftmost longest run of zero groups.
fn longest_zero_run(g: &[u16; 8]) -> (usize, usize) {
    let (mut bi, mut bn) = (0, 0);
    let mut i = 0;
    while i < 8 {
        let mut j = i;
        while j < 8 && g[j] == 0 { j += 1; }
        if j - i > bn { bi = i; bn = j - i; }
        i = j.max(i + 1);
    }
    (bi, bn)
}

/// The canonical texts of an address. There are two if only single zero groups could be shortened.
pub fn canonical(f: Fam, v: u128) -> Vec<String> {
    match f {
        V4 => vec![Ipv4Addr::from(v as u32).to_string()],
        V6 => {
            let g = groups(v);
            match longest_zero_run(&g) {
                (_, 0) => vec![v6_text(&g, None)],
                (i, 1) => vec![v6_text(&g, Some((i, 1))), v6_text(&g, None)],
                r => vec![v6_text(&g, Some(r))],
            }
        },
    }
}

/// An unremarkable text form, for use in arguments.
pub fn addr_text(f: Fam, v: u128) -> String { canonical(f, v).pop().unwrap() }

pub fn full_text(f: Fam, v: u128) -> String {
    match f { V4 => addr_text(V4, v), V6 => v6_text(&groups(v), None) }
}

/// Parses an address as any standards-conforming parser would.
pub fn parse_addr(f: Fam, s: &str) -> Option<u128> {
    match f {
        V4 => s.parse::<Ipv4Addr>().ok().map(|a| u32::from(a) as u128),
        V6 => if s.contains('.') { None } else { s.parse::<Ipv6Addr>().ok().map(u128::from) },
    }
}

/// Parses a printed network (`base/prefix` or `base/mask`).
pub fn parse_net(f: Fam, s: &str) -> Option<Net> {
    let (a, m) = s.split_once('/')?;
    let base = parse_addr(f, a)?;
    let mask = if !m.is_empty() && m.bytes().all(|b| b.is_ascii_digit()) {
        let p: u32 = m.parse().ok()?;
        if p > f.w() { return None; }
        f.pmask(p)
    } else {
        parse_addr(f, m)?
    };
    if base & !mask & f.all() != 0 { return None; }
    Some(Net { f, base, mask })
}

pub fn bin_text(f: Fam, v: u128) -> String {
    let g = match f { V4 => 8, V6 => 16 };
    (0..f.w() / g).map(|i| {
        (0..g).map(|j| if (v >> (f.w() - 1 - i * g - j)) & 1 == 1 { '1' } else { '0' }).collect::<String>()
    }).collect::<Vec<_>>().join(match f { V4 => ".", V6 => ":" })
}

/// The class that the mask fixes, and the number of bits that decide it.
pub fn class(n: &Net) -> Option<(&'static str, u32)> {
    if n.f != V4 { return None; }
    for (bits, len, name, decide) in [
        (0b0u128, 1u32, "Class A", 1u32), (0b10, 2, "Class B", 2), (0b110, 3, "Class C", 3),
        (0b1110, 4, "Class D (multicast)", 4), (0b1111, 4, "Class E (reserved)", 4),
    ] {
        if n.base >> (32 - len) == bits && n.mask >> (32 - len) == (1 << len) - 1 { return Some((name, decide)); }
    }
    None
}

#[cfg(test)]
mod test {
    use super::*;

    #[test]
    fn model_self_test() {
        assert_eq!(extract(0b1011_0110, 0b1100_0110), 0b1011);
        assert_eq!(deposit(0b1011, 0b1100_0110), 0b1000_0110);
        let mut x = 88172645463325252u128;
        for _ in 0..2000 {
            x = x.wrapping_mul(0xda94_2042_e4dd_58b5_9e37_79b9_7f4a_7c15).wrapping_add(99);
            let m = x.rotate_left(51) ^ (x >> 9);
            for f in [V4, V6] {
                let (v, m) = (x & f.all(), m & f.all());
                assert_eq!(weave(f, unravel(f, v, m), m), v);
                assert_eq!(parse_addr(f, &addr_text(f, v)), Some(v));
                for c in canonical(f, v) { assert_eq!(parse_addr(f, &c), Some(v)); }
            }
        }
        assert_eq!(range_nets(V4, 0, 0xFFFF_FFFF).len(), 1);
        assert_eq!(range_nets(V6, 1, u128::MAX - 1).len(), 254);
        assert_eq!(aggregate(V4, &[Net::p(V4, 0, 1), Net::p(V4, 1 << 31, 1)]), vec![Net::p(V4, 0, 0)]);
        assert_eq!(canonical(V6, 1), vec!["::1"]);
        assert_eq!(canonical(V6, 1u128 << 112), vec!["1::"]);
        assert_eq!(bin_text(V4, 0xC0A80204), "11000000.10101000.00000010.00000100");
        let n = Net::p(V4, 0, 24);
        assert!(tiles(&[Net::p(V4, 128, 25), Net::p(V4, 0, 25)], n.base, n.last()).is_ok());
        assert!(tiles(&[Net::p(V4, 128, 25)], n.base, n.last()).is_err());
        assert!(tiles(&[Net::p(V6, 0, 0)], 0, u128::MAX).is_ok());
        assert!(tiles(&[Net::p(V6, 0, 1)], 0, u128::MAX).is_err());
        let mut fuel = 1000;
        assert_eq!(covered(&Net::p(V4, 0, 24), &[Net::p(V4, 0, 25), Net::new(V4, 128, 0xFFFFFF81), Net::new(V4, 129, 0xFFFFFF81)], &mut fuel), Some(true));
    }
}
