//! P35: what a command costs depends on the arguments and the output, not on the size of the networks.

use crate::exec::{bad, Code, Fail, Out, Spawn};
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::show;
use crate::{args, show_cmd, short, Ctx, Prop};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P35", systematic: 400, plain_only: true, case: p35,
            rule: "A case either resizes a network into 2^17 to 2^128 subnets, reads some of them (numbers and networks are compared with the model) and stops, or runs another mode on networks and counts of any size; always in a process of its own with 1 s of CPU time (more in proportion to what is read) and 96 MiB of address space. Distinct by command line." },
    ]
}

const SPACE: u64 = 96 << 20;

fn run(c: &mut Ctx, cmd: &[String], cpu: u64, stop_after: usize) -> Result<(Out, u64), Fail> {
    let mut s = Spawn::new(&c.x.paths.plain, cmd);
    s.address_space = SPACE;
    s.cpu = cpu;
    s.stop_after = stop_after;
    let marks = std::sync::Arc::new(std::sync::Mutex::new(Vec::new()));
    s.resident = Some(marks.clone());
    let o = s.run()?;
    c.x.runs_plain += 1;
    if let Some(l) = c.x.log.as_mut() { l.push((cmd.to_vec(), false, Some(o.clone()))); }
    let m = marks.lock().unwrap();
    let grown = if m.len() >= 2 { c.count("memory compared early and late"); m[m.len() - 1].saturating_sub(m[0]) } else { 0 };
    Ok((o, grown))
}

fn p35(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    if i % 2 == 0 { resize(c, i / 2, r) } else { others(c, r) }
}

/// The n-th subnet when resizing to a mask with fewer host bits.
fn sub(n: &Net, mask: u128, k: u128) -> Net {
    let f = n.f;
    let h = (!mask & f.all()).count_ones();
    Net { f, base: weave(f, unravel(f, n.base, n.mask) | if h < 128 { k << h } else { 0 }, mask), mask }
}

fn resize(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let f = if i < 6 { V6 } else { gen::fam(r) };
    let (n, mask) = match i {
        0 => (Net::p(V6, 0, 0), V6.all()),
        1 => (Net::p(V4, 0, 0), V4.all()),
        2 => (Net::p(V6, 0x2001_0db8 << 96, 32), V6.pmask(64)),
        3 => (Net::p(V6, 0, 0), V6.pmask(64)),
        4 => (Net::p(V4, 10 << 24, 8), V4.all()),
        5 => (Net::new(V6, 0xfe80 << 112, u64::MAX as u128), V6.pmask(127)),
        _ => {
            let h1 = r.u32r(17, f.w());
            let h2 = r.u32r(0, h1 - 17);
            let m1 = if r.chance(1, 2) || h1 == f.w() { f.pmask(f.w() - h1) } else { gen::lopsided_hosts(f, h1, r) };
            let m2 = if r.chance(1, 2) || h2 == 0 { f.pmask(f.w() - h2) } else { gen::hosts_at(f, h2, r) };
            (Net::new(f, gen::addr(f, r), m1), m2)
        },
    };
    let f = n.f;
    let cmd = args(&[r.pick(&["-r", "--resize"]).to_string(), gen::spell_net(&n, r), gen::spell_mask_arg(f, mask, r)]);
    c.note(show_cmd(&cmd));
    let bytes = if i < 2 || i % 60 == 0 { 4 << 20 } else { *r.pick(&[1usize, 3000, 40_000, 200_000, 600_000]) };
    let (o, grown) = run(c, &cmd, 2 + (bytes >> 19) as u64 * 2, bytes)?;
    let text = o.text();
    if o.code != Code::OutputLimit {
        return bad(format!("{} ended with {:?} after {} bytes of output, stderr {:?}", show_cmd(&cmd), o.code, text.len(), short(&o.err_text())));
    }
    if grown > 512 { return bad(format!("{} occupies {} KiB more after {} bytes of output than after 1 MiB", show_cmd(&cmd), grown, text.len())); }
    let whole = &text[..text.rfind("\n\n").map(|p| p + 1).unwrap_or(0)];
    for (k, b) in show::blocks(whole).iter().enumerate() {
        let (title, net) = if k == 0 { ("Original network:".to_owned(), n) } else { (format!("Subnet {}:", k), sub(&n, mask, k as u128 - 1)) };
        if b[0] != title { return bad(format!("{}: found {:?} where {:?} was expected", show_cmd(&cmd), b[0], title)); }
        if let Err(e) = show::check_facts(&b[1..], &net, None) { return bad(format!("{}: {} {}", show_cmd(&cmd), title, e)); }
        c.count("displayed networks compared");
    }
    c.count("huge resizes");
    Ok(())
}

/// A network, likely a huge one.
fn huge(f: Fam, r: &mut Rng) -> Net {
    let h = match r.below(4) { 0 => r.u32r(0, f.w()), 1 => f.w(), _ => r.u32r(f.w() / 2, f.w()) };
    let m = if h == 0 || h == f.w() || r.chance(2, 3) { f.pmask(f.w() - h) } else { gen::lopsided_hosts(f, h, r) };
    Net::new(f, gen::addr(f, r), m)
}

fn others(c: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let f = gen::fam(r);
    let count = match r.below(6) { 0 => r.u32r(40, 150), 1 | 2 => r.u32r(4, 40), _ => r.u32r(1, 4) };
    let mut cmd: Vec<String> = Vec::new();
    let kind;
    let mut limit = 8 << 20;
    match r.below(6) {
        0 => {
            kind = "huge networks shown";
            for _ in 0..count { let n = huge(f, r); cmd.push(gen::spell_net(&n, r)); }
        },
        1 => {
            kind = "huge networks minimized";
            cmd.push("-m".to_owned());
            // few different networks, so that they overlap and touch
            let pool: Vec<Net> = (0..count / 4 + 1).map(|_| huge(f, r)).collect();
            for _ in 0..count {
                let n = *r.pick(&pool);
                let n = if n.host_bits() < f.w() && r.chance(1, 2) { Net::new(f, n.base ^ (n.mask & n.mask.wrapping_neg()), n.mask) } else { n };
                cmd.push(gen::spell_net(&n, r));
            }
        },
        2 => {
            kind = "huge ranges deranged";
            cmd = args(&["-d"]);
            for _ in 0..2 { let a = gen::addr(f, r); cmd.push(gen::spell_addr(f, a, r)); }
        },
        3 => {
            kind = "huge splits";
            let n = gen::cidr_p(f, if r.chance(1, 3) { 0 } else { r.u32r(0, f.w() / 2) }, r);
            cmd = args(&["-s", &gen::spell_net(&n, r)]);
            let room = n.host_bits();
            for _ in 0..count.min(150) {
                let bits = if room > 8 { r.u32r(0, room - 8) } else { 0 };
                let h = r.u128() & f.ones(bits);
                cmd.push(h.to_string());
            }
            if r.chance(1, 5) { let b = r.u32r(0, 127); cmd.push((1u128 << b).to_string()); }
            // a count beyond any network
            if r.chance(1, 8) { cmd.push(format!("{}{:0>width$}", r.u32r(1, 9), 0, width = r.u32r(10, 3000) as usize)); }
        },
        4 => {
            kind = "supernets of huge networks";
            let n = huge(f, r);
            let h = r.u32r(n.host_bits(), f.w());
            let mask = if h == 0 || h == f.w() || r.chance(1, 2) { f.pmask(f.w() - h) } else { gen::lopsided_hosts(f, h, r) };
            cmd = args(&["-r", &gen::spell_net(&n, r), &gen::spell_mask_arg(f, mask, r)]);
        },
        _ => {
            kind = "first lines of huge enumerations";
            let n = Net::new(f, gen::addr(f, r), { let h = r.u32r(22, f.w()); if h == f.w() || r.chance(1, 2) { f.pmask(f.w() - h) } else { gen::lopsided_hosts(f, h, r) } });
            cmd = args(&["-e", &gen::spell_net(&n, r)]);
            limit = *r.pick(&[0usize, 1, 40, 4000, 60_000]);
        },
    }
    c.note(show_cmd(&cmd));
    let enumerates = limit < 1 << 20;
    let (o, _) = run(c, &cmd, if cmd.len() > 40 { 3 } else { 1 }, limit)?;
    let want = if enumerates { o.code == Code::OutputLimit } else { matches!(o.code, Code::Exit(0)) || kind == "huge splits" && o.code == Code::Exit(1) };
    if !want {
        return bad(format!("{} within 1 s of CPU time (3 s for more than 40 arguments) and {} MiB of memory ended with {:?} after {} bytes of output, stderr {:?}", short(&show_cmd(&cmd)), SPACE >> 20, o.code, o.out.len(), short(&o.err_text())));
    }
    c.count(kind);
    Ok(())
}
