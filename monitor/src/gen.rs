//! Generators: boundary-rich addresses, masks, networks and their spellings.

use crate::model::*;
use crate::rng::Rng;

pub fn fam(r: &mut Rng) -> Fam { if r.chance(1, 2) { V4 } else { V6 } }

/// Bytes around which carries, octets, chunks and machine words change.
pub fn seams(f: Fam) -> &'static [u32] {
    match f { V4 => &[0, 8, 16, 24, 32], V6 => &[0, 8, 16, 32, 48, 63, 64, 65, 80, 96, 112, 120, 128] }
}

/// An address composed of literals of the source.
fn literal_addr(f: Fam, r: &mut Rng) -> Option<u128> {
    let all = f.all();
    Some(match r.below(8) {
        0 | 1 => r.literal(all)?,
        // by octet or group
        2 | 3 => {
            let step = if f == V6 && r.chance(2, 3) { 16 } else { 8 };
            let mut v = match r.below(4) { 0 => 0, 1 => r.u128(), _ => r.literal(all)? };
            for k in 0..f.w() / step {
                if r.chance(1, 3) { v = v & !(f.ones(step) << (k * step)) | r.literal(f.ones(step))? << (k * step); }
            }
            v
        },
        // at the top, the rest zero or anything
        4 | 5 => {
            let v = r.literal(all)?;
            let room = v.leading_zeros() - (128 - f.w()).min(v.leading_zeros());
            let up = (room / 8 * 8).min(127);
            v << up | if r.chance(1, 2) { 0 } else { r.u128() & ((1u128 << up) - 1) }
        },
        6 if f == V6 => (r.literal(u64::MAX as u128)? << 64) | r.literal(u64::MAX as u128)?,
        _ => r.literal(all)? ^ (r.u128() & f.ones(8)),
    })
}

/// Networks set aside for something (by the registries), which a program may know.
const KNOWN_V4: [(u32, u32); 24] = [
    (0, 8), (0x0A00_0000, 8), (0x6440_0000, 10), (0x7F00_0000, 8), (0xA9FE_0000, 16), (0xAC10_0000, 12), (0xC000_0000, 24), (0xC000_0000, 29), (0xC000_0008, 32),
    (0xC000_00AA, 31), (0xC000_0200, 24), (0xC01F_C400, 24), (0xC034_C100, 24), (0xC058_6300, 24), (0xC0A8_0000, 16), (0xC0AF_3000, 24), (0xC612_0000, 15),
    (0xC633_6400, 24), (0xCB00_7100, 24), (0xE000_0000, 4), (0xE000_0000, 24), (0xEF00_0000, 8), (0xF000_0000, 4), (0xFFFF_FFFF, 32),
];
/// The upper 64 bits (or, with prefixes above 64, all that matters) and the prefix.
const KNOWN_V6: [(u128, u32); 31] = [
    (0, 128), (1, 128), (0xffff_0000_0000, 96), (0, 96), (0xffff << 48, 96), (0x0064_ff9b << 96, 96), (0x0064_ff9b_0001 << 80, 48), (0x0100 << 112, 64), (0x0100 << 112, 8), (0x2000 << 112, 3),
    (0x2001 << 112, 23), (0x2001 << 112, 32), (0x2001_0001_0000_0000_0000_0000_0000_0001, 128), (0x2001_0002 << 96, 48), (0x2001_0003 << 96, 32), (0x2001_0004_0112 << 80, 48), (0x2001_0010 << 96, 28),
    (0x2001_0020 << 96, 28), (0x2001_0db8 << 96, 32), (0x2002 << 112, 16), (0x2620_004f_8000 << 80, 48), (0x3ffe << 112, 16), (0x3fff << 112, 20), (0x5f00 << 112, 16), (0xfc00 << 112, 7), (0xfd00 << 112, 8),
    (0xfe80 << 112, 10), (0xfe80 << 112, 64), (0xfec0 << 112, 10), (0xff00 << 112, 8), (0xff02 << 112, 16),
];

/// A network that is set aside for something.
pub fn known(f: Fam, r: &mut Rng) -> (u128, u32) {
    match f { V4 => { let k = *r.pick(&KNOWN_V4); (k.0 as u128, k.1) }, V6 => *r.pick(&KNOWN_V6) }
}

/// An address from such a network, or just outside.
fn known_addr(f: Fam, r: &mut Rng) -> u128 {
    let (base, p) = known(f, r);
    let low = f.ones(f.w() - p);
    match r.below(8) {
        0 => base,
        1 => base | low,
        2 => base.wrapping_sub(1) & f.all(),
        3 => (base | low).wrapping_add(1) & f.all(),
        // an interface made of a hardware address, or of an IPv4 address
        4 if f == V6 && p <= 64 => base | r.u128() & low & !0xff_ffff_ffff_ffff | (r.u64() as u128 & 0xff_ffff << 40) | 0xfffe << 24 | r.u64() as u128 & 0xff_ffff,
        5 if f == V6 && p <= 96 => base | r.pick(&[0u128, 0x5efe, 0x0200_5efe, 0xffff]) << 32 | r.u64() as u128 & 0xffff_ffff,
        _ => base | r.u128() & low,
    }
}

pub fn addr(f: Fam, r: &mut Rng) -> u128 {
    let all = f.all();
    if r.keen && r.chance(1, 2) {
        if let Some(v) = literal_addr(f, r) { return v & all; }
    }
    let v = match r.below(20) {
        0 => 0,
        19 => known_addr(f, r),
        1 => all,
        2 => r.below(300) as u128,
        3 => all - r.below(300) as u128,
        4 | 5 => r.u128(),
        6 => 1u128 << r.below(f.w() as u64),
        7 => f.pmask(r.u32r(0, f.w())),
        8 => f.ones(r.u32r(0, f.w())),
        9 => {
            // just below, at or above a multiple of a power of two
            let s = r.u32r(0, f.w() - 1);
            let m = if s == 0 { r.u128() } else { r.u128() & !f.ones(s) };
            m.wrapping_add(r.range(-3, 3) as i128 as u128)
        },
        10 => {
            // bytes from a small set
            (0..f.w() / 8).fold(0u128, |a, _| (a << 8) | *r.pick(&[0u128, 0, 1, 9, 10, 99, 100, 127, 128, 192, 199, 200, 249, 250, 254, 255, 255]))
        },
        11 | 12 if f == V6 => groups_addr(r),
        11 | 12 => *r.pick(&[0xC0A8_0204u128, 0x0A01_0203, 0x7F00_0001, 0xAC10_0000, 0xE000_0001, 0xF000_0001, 0xA9FE_0001, 0x6440_0000, 0xC000_0200]) ^ r.below(64) as u128,
        13 if f == V6 => *r.pick(&[0x2001_0db8u128 << 96, 0xfe80u128 << 112, 0xff02u128 << 112, 0xfc00u128 << 112, 0xffff_0000_0000, 1, 0x0064_ff9bu128 << 96]) | r.below(70000) as u128,
        14 => r.u128() & r.u128() & r.u128(),
        15 => r.u128() | r.u128() | r.u128(),
        18 => {
            // the same octet, group or half again and again, or mirrored
            let step = *r.pick(&[8u32, 8, 16, 32, 64]);
            let unit = if step == 8 { r.below(256) as u128 } else { r.u128() & f.ones(step.min(f.w())) };
            let v = (0..128 / step).fold(0u128, |a, _| a << step | unit);
            if r.chance(1, 4) { let x = r.u64() as u128; if f == V6 { x << 64 | (x as u64).reverse_bits() as u128 } else { (x & 0xffff) << 16 | ((x & 0xffff) as u16).swap_bytes() as u128 } } else { v }
        },
        16 if f == V6 => {
            // around the middle of the 128 bits
            (((r.below(3) as u128) << 64).wrapping_sub(r.below(3) as u128)).wrapping_add((r.u128() >> 64) << 64 << 0)
        },
        _ => r.u128(),
    };
    v & all
}

/// An IPv6 address made of groups, many of them zero.
pub fn groups_addr(r: &mut Rng) -> u128 {
    let pattern = r.below(256);
    pattern_addr(pattern as u32, r)
}

pub fn pattern_addr(pattern: u32, r: &mut Rng) -> u128 {
    (0..8).fold(0u128, |a, i| {
        let g = if pattern >> i & 1 == 0 { 0 } else {
            *r.pick(&[1u128, 0xf, 0x10, 0xff, 0x100, 0xabc, 0xfff, 0x1000, 0x8000, 0xffff, 0xdb8, 0x2001, 0xa, 0x0b00, 0xc0d0])
        };
        (a << 16) | g
    })
}

pub fn prefix(f: Fam, r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => *r.pick(seams(f)),
        1 => f.w() - r.u32r(0, 4.min(f.w())),
        2 => r.u32r(0, 5),
        _ => r.u32r(0, f.w()),
    }
}

/// Any mask whatsoever.
pub fn any_mask(f: Fam, r: &mut Rng) -> u128 {
    if r.chance(1, 2) { lopsided(f, r) } else if r.chance(1, 2) { addr(f, r) } else { f.pmask(prefix(f, r)) }
}

/// A mask that is not contiguous.
pub fn lopsided(f: Fam, r: &mut Rng) -> u128 {
    loop {
        let m = match r.below(13) {
            0 => r.u128(),
            12 => hosts_at(f, r.u32r(1, f.w() - 1), r),
            1 => !(r.u128() & r.u128() & r.u128()),
            2 => r.u128() & r.u128() & r.u128(),
            3 => f.ones(r.u32r(1, f.w() - 1)), // network bits at the bottom
            4 | 5 => {
                // a block of host bits in the middle
                let a = r.u32r(0, f.w() - 1);
                let n = r.u32r(1, f.w() - a);
                !(f.ones(n) << a)
            },
            6 => {
                // a block of network bits in the middle
                let a = r.u32r(0, f.w() - 1);
                f.ones(r.u32r(1, f.w() - a)) << a
            },
            7 => !(1u128 << r.below(f.w() as u64)),
            8 => f.pmask(prefix(f, r)) ^ (1u128 << r.below(f.w() as u64)),
            9 => *r.pick(&[0x5555_5555_5555_5555_5555_5555_5555_5555u128, !0x5555_5555_5555_5555_5555_5555_5555_5555u128,
                0x00ff_00ff_00ff_00ff_00ff_00ff_00ff_00ff, 0x0000_ffff_0000_ffff_0000_ffff_0000_ffff, !0xffff_0000, u64::MAX as u128]),
            10 => hosts_at(f, r.u32r(1, 12), r),
            _ => (0..f.w() / 8).fold(0u128, |a, _| (a << 8) | *r.pick(&[0u128, 255, 255, 240, 15, 1, 128, 254])),
        } & f.all();
        if contig(f, m).is_none() { return m; }
    }
}

/// A mask with exactly `h` host bits, scattered or in blocks (it may come out contiguous).
pub fn hosts_at(f: Fam, h: u32, r: &mut Rng) -> u128 {
    let mut w = 0u128;
    let style = r.below(4);
    let start = r.u32r(0, f.w() - 1);
    let mut i = 0;
    while w.count_ones() < h {
        let b = match style {
            0 | 1 => r.u32r(0, f.w() - 1),
            2 => (start + i) % f.w(),
            _ => (start + 5 * i + r.u32r(0, 1)) % f.w(),
        };
        w |= 1 << b;
        i += 1;
        if i > 400 { w |= 1u128 << r.below(f.w() as u64); }
    }
    !w & f.all()
}

/// A lopsided mask with exactly `h` host bits (1 <= h < width).
pub fn lopsided_hosts(f: Fam, h: u32, r: &mut Rng) -> u128 {
    loop {
        let m = hosts_at(f, h, r);
        if contig(f, m).is_none() { return m; }
    }
}

pub fn cidr(f: Fam, r: &mut Rng) -> Net {
    if r.chance(1, 24) {
        // one that is set aside, or nearly
        let (base, p) = known(f, r);
        return Net::p(f, base, match r.below(6) { 0 => p.saturating_sub(1), 1 => (p + 1).min(f.w()), _ => p });
    }
    let a = addr(f, r);
    Net::p(f, a, prefix(f, r))
}

/// A CIDR network of the given prefix, frequently at the edge of the address space.
pub fn cidr_p(f: Fam, p: u32, r: &mut Rng) -> Net {
    let h = f.w() - p;
    let a = match r.below(6) {
        0 => f.all(),
        1 => 0,
        2 if h < 120 => f.all() - (r.below(5) as u128) * (f.ones(h) + 1).min(f.all() >> 4),
        _ => addr(f, r),
    };
    Net::p(f, a, p)
}

// ----- spellings -----

pub fn spell_addr(f: Fam, v: u128, r: &mut Rng) -> String {
    match f {
        V4 => f.bytes(v).iter().map(|b| match r.below(6) {
            0 => format!("{:03}", b),
            1 => format!("{:02}", b),
            _ => b.to_string(),
        }).collect::<Vec<_>>().join("."),
        V6 => {
            let g = groups(v);
            let pad = r.below(3);
            let word = |x: u16, r: &mut Rng| match pad {
                0 => format!("{:x}", x),
                1 => format!("{:04x}", x),
                _ => match r.below(4) { 0 => format!("{:02x}", x), 1 => format!("{:03x}", x), 2 => format!("{:04x}", x), _ => format!("{:x}", x) },
            };
            // any run of zero groups may be shortened, wholly or in part
            let mut runs = Vec::new();
            for i in 0..8 {
                for n in 1..=8 - i {
                    if g[i..i + n].iter().all(|x| *x == 0) { runs.push((i, n)); } else { break; }
                }
            }
            if runs.is_empty() || r.chance(1, 4) {
                g.iter().map(|x| word(*x, r)).collect::<Vec<_>>().join(":")
            } else {
                let (i, n) = *r.pick(&runs);
                let a: Vec<String> = g[..i].iter().map(|x| word(*x, r)).collect();
                let b: Vec<String> = g[i + n..].iter().map(|x| word(*x, r)).collect();
                format!("{}::{}", a.join(":"), b.join(":"))
            }
        },
    }
}

/// A spelling of a mask after the slash.
pub fn spell_mask(f: Fam, mask: u128, r: &mut Rng) -> String {
    let p = contig(f, mask);
    loop {
        return match (r.below(4), p) {
            (0, Some(p)) => p.to_string(),
            (1, Some(p)) => format!("-{}", f.w() - p),
            (2, _) => spell_addr(f, mask, r),
            (3, _) => format!("-{}", spell_addr(f, !mask & f.all(), r)),
            _ => continue,
        };
    }
}

pub fn spell(f: Fam, a: u128, mask: u128, r: &mut Rng) -> String {
    format!("{}/{}", spell_addr(f, a, r), spell_mask(f, mask, r))
}

/// A spelling of a network with random host bits.
pub fn spell_net(n: &Net, r: &mut Rng) -> String {
    let a = if r.chance(1, 2) { n.base } else { n.base | (r.u128() & n.wild()) };
    spell(n.f, a, n.mask, r)
}

/// The plainest way to write an address and a mask.
pub fn plain(f: Fam, a: u128, mask: u128) -> String {
    match contig(f, mask) {
        Some(p) => format!("{}/{}", addr_text(f, a), p),
        None => format!("{}/{}", addr_text(f, a), addr_text(f, mask)),
    }
}

/// A spelling of a mask as resize's second argument.
pub fn spell_mask_arg(f: Fam, mask: u128, r: &mut Rng) -> String {
    match (r.below(3), contig(f, mask)) {
        (0, Some(p)) => p.to_string(),
        (1, _) => format!("-{}", spell_addr(f, !mask & f.all(), r)),
        _ => spell_addr(f, mask, r),
    }
}

/// Very many CIDR networks with one address each and their spellings, which are short enough for one command line.
pub fn crowd(many: usize, mixed: bool, host_bits: u32, r: &mut Rng) -> Vec<(Net, u128, String)> {
    (0..many).map(|_| {
        let h = r.u32r(0, host_bits);
        let (f, a) = if mixed && r.chance(1, 3) { (V6, r.below(1 << 16) as u128) } else { (V4, (r.below(200) << 24 | r.below(1 << 16)) as u128) };
        let p = f.w() - h;
        (Net::p(f, a, p), a, format!("{}/{}", addr_text(f, a), p))
    }).collect()
}
