//! P03 to P08: what is displayed about networks.

use crate::exec::{bad, Fail};
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::show;
use crate::{args, show_cmd, short, Ctx, Prop};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P03", systematic: 256 * 2 + 33 + 129 + 60, plain_only: false, case: p03,
            rule: "A case is one address (or range, network, split) whose printed addresses are compared with the canonical text of the model's value and fed back; all 256 zero-group patterns come first. Non-trivial: every case; distinct by command line." },
        Prop { id: "P04", systematic: 33 * 12 + 129 * 12, plain_only: false, case: p04,
            rule: "A case shows 1 to 3 CIDR networks and compares every fact with 128-bit integer arithmetic; every prefix of both families on 12 boundary addresses comes first. Distinct by command line." },
        Prop { id: "P05", systematic: 32 * 33 + 128 * 8, plain_only: false, case: p05,
            rule: "A case shows 1 to 3 networks with arbitrary (mostly interspersed) masks and compares every fact with the set definition. Distinct by command line." },
        Prop { id: "P06", systematic: 64, plain_only: false, case: p06,
            rule: "A case is a show of 1 to 6 networks of both families, or a split or resize, whose rows are checked for binary digits, columns, order, separation and agreement with the networks shown alone. Distinct by command line." },
        Prop { id: "P07", systematic: 256 * 4, plain_only: false, case: p07,
            rule: "A case shows, splits or resizes networks and compares the class label with the definition; all 256 combinations of the leading four address and mask bits come first. Distinct by command line." },
        Prop { id: "P08", systematic: 256 + 120, plain_only: false, case: p08,
            rule: "A case is a command line of any mode run with and without colour; text is compared after removing escapes and the style of every binary digit with the mask and class. Distinct by command line." },
    ]
}

fn boundary_addrs(f: Fam) -> [u128; 12] {
    let all = f.all();
    [
        0, all, 1, all - 1, all / 3, all / 3 * 2, 1u128 << (f.w() - 1), (1u128 << (f.w() - 1)) - 1,
        0xC0A8_0204 | if f == V6 { 0x2001_0db8u128 << 96 } else { 0 },
        0x0A01_02FF | if f == V6 { 0xfe80u128 << 112 } else { 0 },
        if f == V6 { u64::MAX as u128 } else { 0xFFFF }, if f == V6 { 1u128 << 64 } else { 0x1_0000 },
    ]
}

// ----- P03 -----

fn canon(f: Fam, what: &str, text: &str, value: u128, cmd: &[String]) -> Result<(), Fail> {
    if canonical(f, value).iter().any(|c| c == text) { return Ok(()); }
    bad(format!("{} prints {} as {:?}, expected {:?}", show_cmd(cmd), what, text, canonical(f, value)))
}

/// Values of the rows of a block that show addresses.
fn row_values(n: &Net, addr: Option<u128>) -> Vec<(&'static str, u128)> {
    let mut v = Vec::new();
    if let Some(a) = addr {
        v.push(("Address", a));
        v.push(("Netmask", n.mask));
        v.push(("Wildcard", n.wild()));
    }
    v.push(("Network", n.base));
    if n.host_bits() >= 2 {
        v.push(("HostMin", n.base | n.low_host()));
        v.push(("HostMax", n.last() & !n.low_host()));
    }
    if n.host_bits() >= 1 { v.push(("Broadcast", n.last())); }
    v
}

fn canon_block(lines: &[&str], n: &Net, addr: Option<u128>, cmd: &[String]) -> Result<(), Fail> {
    let texts = show::addr_texts(lines, n.f);
    let want = row_values(n, addr);
    if texts.len() != want.len() { return bad(format!("{} prints {} address rows, expected {}", show_cmd(cmd), texts.len(), want.len())); }
    for ((label, text), (wl, v)) in texts.iter().zip(&want) {
        canon(n.f, &format!("{} ({})", label, wl), text, *v, cmd)?;
    }
    Ok(())
}

fn p03(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let (f, a, mode) = if i < 512 {
        (V6, gen::pattern_addr((i % 256) as u32, r), if i < 256 { 0 } else { 1 })
    } else if i < 512 + 33 + 129 {
        let k = (i - 512) as u32;
        if k < 33 { (V4, V4.pmask(k), 0) } else { (V6, V6.pmask(k - 33), 0) }
    } else {
        let f = gen::fam(r);
        let a = if f == V6 && r.chance(1, 2) { gen::groups_addr(r) } else { gen::addr(f, r) };
        (f, a, r.below(7))
    };
    match mode {
        0 => {
            // as an address, and as a mask (any pattern of groups can be one)
            let mask = if r.chance(1, 2) { gen::any_mask(f, r) } else { a };
            let n = Net::new(f, a, mask);
            let cmd = args(&[gen::spell_addr(f, a, r) + "/" + &gen::spell_addr(f, mask, r)]);
            c.note(show_cmd(&cmd));
            let out = c.ok(&cmd)?;
            let lines: Vec<&str> = out.lines().collect();
            canon_block(&lines, &n, Some(a), &cmd)?;
            c.add("address texts", 7);
            // every printed text goes back in
            for (_, t) in show::addr_texts(&lines, f) {
                let back = args(&[format!("{}/{}", t, f.w())]);
                let out2 = c.ok(&back)?;
                let t2 = show::addr_texts(&out2.lines().collect::<Vec<_>>(), f);
                if t2.first().map(|x| &x.1) != Some(&t) {
                    return bad(format!("{} printed {:?}, which reads back as {:?}", show_cmd(&cmd), t, t2.first()));
                }
                c.count("texts fed back");
            }
            Ok(())
        },
        1 | 2 => {
            // derange
            let b = if r.chance(1, 2) { a } else if r.chance(1, 2) { a ^ r.below(1000) as u128 & f.all() } else { gen::addr(f, r) };
            let cmd = args(&["-d", &gen::spell_addr(f, a, r), &gen::spell_addr(f, b, r)]);
            c.note(show_cmd(&cmd));
            let out = c.ok(&cmd)?;
            check_list(c, f, &out, &range_nets(f, a.min(b), a.max(b)), &cmd)
        },
        3 | 4 => {
            // minimize, single network
            let n = Net::new(f, a, gen::any_mask(f, r));
            let cmd = args(&["-m", &gen::spell_net(&n, r)]);
            c.note(show_cmd(&cmd));
            let out = c.ok(&cmd)?;
            let lines: Vec<&str> = out.lines().collect();
            if lines.len() != 1 { return bad(format!("{} prints {} lines", show_cmd(&cmd), lines.len())); }
            check_list(c, f, &out, &[n], &cmd)
        },
        5 => {
            // enumerate
            let h = r.u32r(0, 6);
            let m = if r.chance(1, 2) || h == 0 { f.pmask(f.w() - h) } else { gen::hosts_at(f, h, r) };
            let n = Net::new(f, a, m);
            let cmd = args(&["-e", &gen::spell_net(&n, r)]);
            c.note(show_cmd(&cmd));
            let out = c.ok(&cmd)?;
            let lines: Vec<&str> = out.lines().collect();
            if lines.len() as u128 != 1u128 << n.host_bits() { return bad(format!("{} prints {} lines", show_cmd(&cmd), lines.len())); }
            for (k, l) in lines.iter().enumerate() { canon(f, "a member", l, n.member(k as u128), &cmd)?; }
            c.add("address texts", lines.len() as u64);
            Ok(())
        },
        _ => {
            // resize to the same or larger size
            let m = gen::any_mask(f, r);
            let n = Net::new(f, a, m);
            let h = r.u32r(n.host_bits(), f.w());
            let m2 = f.pmask(f.w() - h);
            let cmd = args(&["-r", &gen::spell_net(&n, r), &gen::spell_mask_arg(f, m2, r)]);
            c.note(show_cmd(&cmd));
            let out = c.ok(&cmd)?;
            let bl = show::blocks(&out);
            if bl.len() != 2 { return bad(format!("{} prints {} blocks", show_cmd(&cmd), bl.len())); }
            canon_block(&bl[0][1..], &n, None, &cmd)?;
            let n2 = super::resize::resize_super(&n, m2);
            canon_block(&bl[1][1..], &n2, None, &cmd)
        },
    }
}

fn check_list(c: &mut Ctx, f: Fam, out: &str, want: &[Net], cmd: &[String]) -> Result<(), Fail> {
    let lines: Vec<&str> = out.lines().collect();
    // compare as multisets of texts: order and choice are other properties' business
    if lines.len() != want.len() { return bad(format!("{} prints {} networks, expected {}", show_cmd(cmd), lines.len(), want.len())); }
    for (l, n) in lines.iter().zip(want) {
        let (b, t) = match l.split_once('/') { Some(x) => x, None => return bad(format!("{} prints {:?}", show_cmd(cmd), l)) };
        canon(f, "a network base", b, n.base, cmd)?;
        match n.prefix() {
            Some(p) if t == p.to_string() => {},
            Some(p) => return bad(format!("{} prints {:?}, expected prefix {}", show_cmd(cmd), l, p)),
            None => canon(f, "a mask", t, n.mask, cmd)?,
        }
        c.count("address texts");
        if c.stats["address texts"] % 5 == 0 {
            let back = args(&["-m", l]);
            let o = c.ok(&back)?;
            if o.trim_end_matches('\n') != *l { return bad(format!("{} printed {:?}, which minimize reads back as {:?}", show_cmd(cmd), l, o)); }
            c.count("texts fed back");
        }
    }
    Ok(())
}

// ----- P04, P05 -----

fn facts(c: &mut Ctx, specs: &[(Net, u128)], r: &mut Rng, plain: bool) -> Result<(), Fail> {
    let cmd: Vec<String> = specs.iter().map(|(n, a)| if plain { gen::plain(n.f, *a, n.mask) } else { gen::spell(n.f, *a, n.mask, r) }).collect();
    c.note(show_cmd(&cmd));
    let out = c.ok(&cmd)?;
    let bl = show::blocks(&out);
    if bl.len() != specs.len() { return bad(format!("{} prints {} blocks: {:?}", show_cmd(&cmd), bl.len(), short(&out))); }
    for (b, (n, a)) in bl.iter().zip(specs) {
        if let Err(e) = show::check_facts(b, n, Some(*a)) { return bad(format!("{}: {}", show_cmd(&cmd), e)); }
        c.count(format!("networks with {} host bits", match n.host_bits() { 0 => "0", 1 => "1", 2 => "2", h if h == n.f.w() => "all", _ => "more" }));
        if n.last() == n.f.all() { c.count("networks ending at the last address"); }
    }
    Ok(())
}

fn p04(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let k = i as u32;
    if k < 33 * 12 {
        let a = boundary_addrs(V4)[(k / 33) as usize];
        return facts(c, &[(Net::p(V4, a, k % 33), a)], r, true);
    }
    let k = k.wrapping_sub(33 * 12);
    if i < 33 * 12 + 129 * 12 {
        let a = boundary_addrs(V6)[(k / 129) as usize];
        return facts(c, &[(Net::p(V6, a, k % 129), a)], r, true);
    }
    let specs: Vec<(Net, u128)> = (0..if r.chance(1, 8) { r.u32r(2, 3) } else { 1 }).map(|_| {
        let f = gen::fam(r);
        if r.chance(1, 16) { let n = gen::cidr(f, r); let a = n.base | gen::addr(f, r) & n.wild(); return (n, a); }
        let a = gen::addr(f, r);
        (Net::p(f, a, gen::prefix(f, r)), a)
    }).collect();
    let plain = r.chance(1, 2);
    facts(c, &specs, r, plain)
}

fn p05(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    if i < 32 * 33 {
        // every block of host bits in an IPv4 mask
        let start = (i % 32) as u32;
        let n = (i / 32) as u32;
        if start + n > 32 { return Ok(()); }
        let mask = !(V4.ones(n) << start) & V4.all();
        let a = gen::addr(V4, r);
        return facts(c, &[(Net::new(V4, a, mask), a)], r, false);
    }
    if i < 32 * 33 + 128 * 8 {
        let k = i - 32 * 33;
        let bit = 1u128 << (k % 128);
        let mask = match k / 128 {
            0 => !bit, 1 => bit, 2 => !(bit | 1), 3 => bit | 1, 4 => !(bit | 1 << 127), 5 => bit | 1 << 127,
            6 => !(bit | 1 << 64), _ => !(bit | 1 << 63),
        };
        let a = gen::addr(V6, r);
        return facts(c, &[(Net::new(V6, a, mask), a)], r, false);
    }
    let specs: Vec<(Net, u128)> = (0..if r.chance(1, 8) { r.u32r(2, 3) } else { 1 }).map(|_| {
        let f = gen::fam(r);
        let a = gen::addr(f, r);
        let m = if r.chance(1, 12) { f.pmask(gen::prefix(f, r)) } else { gen::lopsided(f, r) };
        (Net::new(f, a, m), a)
    }).collect();
    let plain = r.chance(1, 2);
    facts(c, &specs, r, plain)
}

// ----- P06 -----

/// The text that a list of networks has to be shown as, made from each shown alone.
fn p06(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let mode = if i < 64 { i % 4 } else { r.below(8) };
    match mode {
        1 | 2 => {
            // resize, split: rows as in show
            let f = gen::fam(r);
            let cmd;
            if mode == 1 {
                let n = if r.chance(1, 2) { gen::cidr(f, r) } else { Net::new(f, gen::addr(f, r), gen::any_mask(f, r)) };
                let h = n.host_bits();
                let deep = if r.chance(1, 150) { 8 } else { 4 };
                let h2 = r.u32r(h.saturating_sub(deep), f.w());
                let m2 = if r.chance(1, 2) || h2 == 0 || h2 == f.w() { f.pmask(f.w() - h2) } else { gen::hosts_at(f, h2, r) };
                cmd = args(&["-r", &gen::spell_net(&n, r), &gen::spell_mask_arg(f, m2, r)]);
            } else {
                let p = r.u32r(0, f.w() - 3);
                let n = gen::cidr_p(f, p, r);
                let many = if r.chance(1, 150) { r.u32r(5, 300) } else { r.u32r(1, 4) };
                let counts: Vec<String> = (0..many).map(|_| { let sh = r.u32r(0, (f.w() - p).min(20)); r.below(1 << sh).to_string() }).collect();
                let mut a = args(&["-s", &gen::spell_net(&n, r)]);
                a.extend(counts);
                cmd = a;
            }
            c.note(show_cmd(&cmd));
            // a split that does not fit may end with status 1
            let o = c.run(&cmd)?;
            let text = o.text();
            if !matches!(o.code, crate::exec::Code::Exit(0 | 1)) { return bad(format!("{} ended with {:?}", show_cmd(&cmd), o.code)); }
            for (k, b) in show::blocks(&text).iter().enumerate() {
                if b.len() < 2 || !b[1].starts_with("Network:") {
                    if k == 0 { return bad(format!("{}: no network in the first block {:?}", show_cmd(&cmd), b)); }
                    continue;
                }
                let rows = &b[1..];
                if let Err(e) = show::check_layout(rows, f) { return bad(format!("{}: {}", show_cmd(&cmd), e)); }
                c.count("blocks laid out");
                if k > 3 && !r.chance(1, 6) { continue; }
                // show the same network
                let v = show::row(f, rows[0]).value;
                let spec = if v.contains('/') { v } else {
                    // lopsided: its mask follows from base, broadcast
                    let base = parse_addr(f, &v).unwrap_or(0);
                    let m = if k == 0 { None } else { cmd_mask(f, &cmd) };
                    match m { Some(m) => gen::plain(f, base, m), None => continue }
                };
                let alone = args(&[spec]);
                let s = c.ok(&alone)?;
                let lines: Vec<&str> = s.lines().collect();
                let at = lines.iter().position(|l| l.starts_with("Network:"));
                match at {
                    Some(at) if lines[at..] == *rows => c.count("blocks compared with show"),
                    _ => return bad(format!("{} displays {:?}, show of {} displays {:?}", show_cmd(&cmd), rows, alone[0], lines)),
                }
            }
            Ok(())
        },
        _ => {
            let n = if i < 64 { 1 + (i / 4 % 6) as u32 } else if r.chance(1, 150) { let most = *r.pick(&[20, 70, 150, 400]); r.u32r(7, most) } else { r.u32r(1, 6) };
            let one_family = r.chance(1, 2);
            let f0 = gen::fam(r);
            let huge = i == 63;
            let mut specs: Vec<(Net, u128)> = if huge { gen::crowd(66_000, true, 30, r).into_iter().map(|x| (x.0, x.1)).collect() } else { (0..n).map(|_| {
                let f = if one_family { f0 } else { gen::fam(r) };
                let a = gen::addr(f, r);
                let m = match r.below(4) { 0 => gen::lopsided(f, r), 1 => f.pmask(f.w() - r.u32r(0, 2)), _ => f.pmask(gen::prefix(f, r)) };
                (Net::new(f, a, m), a)
            }).collect() };
            if !huge && n > 1 && r.chance(1, 4) { let d = specs[0]; specs.push(d); }
            let cmd: Vec<String> = specs.iter().map(|(n, a)| if huge { gen::plain(n.f, *a, n.mask) } else { gen::spell(n.f, *a, n.mask, r) }).collect();
            c.note(show_cmd(&cmd));
            if huge { c.x.cpu = 60; }
            let out = c.ok(&cmd);
            c.x.cpu = crate::exec::CPU_LIMIT_S;
            let out = out?;
            if huge { c.count("shows of 66,000 networks"); }
            let bl = show::blocks(&out);
            if bl.len() != specs.len() { return bad(format!("{} prints {} blocks", show_cmd(&cmd), bl.len())); }
            if !out.ends_with('\n') { return bad(format!("{}: the last row does not end", show_cmd(&cmd))); }
            let mut want = String::new();
            for (k, (b, (net, a))) in bl.iter().zip(&specs).enumerate() {
                match show::check_layout(b, net.f) {
                    Ok(rows) => c.add("rows checked", rows as u64),
                    Err(e) => return bad(format!("{}: {}", show_cmd(&cmd), e)),
                }
                // the block is about the network in this place
                let v = show::row(net.f, b[0]);
                if v.label != "Address" || parse_addr(net.f, &v.value) != Some(*a) {
                    return bad(format!("{}: block {} starts with {:?}", show_cmd(&cmd), k + 1, b[0]));
                }
                let nr = b.iter().map(|l| show::row(net.f, l)).find(|x| x.label == "Network");
                let base = nr.and_then(|x| parse_addr(net.f, x.value.split('/').next().unwrap_or("")));
                if base != Some(net.base) { return bad(format!("{}: block {} has network {:?}", show_cmd(&cmd), k + 1, base)); }
                if k > 0 { want.push('\n'); }
                want.push_str(&b.join("\n"));
                want.push('\n');
            }
            if want != out { return bad(format!("{}: blocks are not separated by exactly one blank line: {:?}", show_cmd(&cmd), short(&out))); }
            for j in 0..(if specs.len() > 60_000 { 40 } else { 1 }) {
                if specs.len() == 1 { break; }
                let k = match j { 0 => r.usize(specs.len()), 1 => specs.len() - 1, 2..=9 => 65_531 + j, _ => r.usize(specs.len()) };
                let alone = vec![cmd[k].clone()];
                let s = c.ok(&alone)?;
                if s.lines().collect::<Vec<_>>() != bl[k] { return bad(format!("{}: block {} differs from {} shown alone: {:?}", show_cmd(&cmd), k + 1, alone[0], short(&s))); }
                c.count("blocks compared with show");
            }
            Ok(())
        },
    }
}

/// The mask given to a resize command line.
fn cmd_mask(f: Fam, cmd: &[String]) -> Option<u128> {
    if cmd[0] != "-r" { return None; }
    super::args::model_mask(f, &cmd[2])
}

// ----- P07 -----

fn p07(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    if i >= 1024 && r.chance(1, 3) {
        // in split and resize, and for IPv6
        let f = if r.chance(1, 6) { V6 } else { V4 };
        let n = if r.chance(1, 2) { Net::p(f, gen::addr(f, r), r.u32r(0, 6)) } else { gen::cidr(f, r) };
        let (cmd, k) = if r.chance(1, 2) {
            let p2 = r.u32r(n.prefix().unwrap(), (n.prefix().unwrap() + 5).min(f.w()));
            (args(&["-r", &n.text(), &p2.to_string()]), 1)
        } else {
            (args(&["-s", &n.text(), "1", "2", "5"]), 2)
        };
        c.note(show_cmd(&cmd));
        let o = c.run(&cmd)?;
        let text = o.text();
        let _ = k;
        for b in show::blocks(&text) {
            if b.len() < 2 || !b[1].starts_with("Network:") { continue; }
            let v = show::row(f, b[1]).value;
            let net = match parse_net(f, &v) { Some(n) => n, None => return bad(format!("{}: network {:?}", show_cmd(&cmd), v)) };
            check_class(c, &b[1..], &net, &cmd)?;
        }
        return Ok(());
    }
    let (a, mask) = if i < 1024 {
        // leading four bits of address and mask in all combinations
        let an = (i % 16) as u128;
        let mn = (i / 16 % 16) as u128;
        let rest_mask = match i / 256 { 0 => 0, 1 => 0x0FFF_FF00, 2 => 0x0F00_0000, _ => r.u128() & 0x0FFF_FFFF };
        ((an << 28) | (r.u128() & 0x0FFF_FFFF), (mn << 28) | rest_mask)
    } else {
        (gen::addr(V4, r), gen::any_mask(V4, r))
    };
    let f = if i >= 1024 && r.chance(1, 10) { V6 } else { V4 };
    let (a, mask) = if f == V6 { (gen::addr(V6, r), gen::any_mask(V6, r)) } else { (a, mask) };
    let n = Net::new(f, a, mask);
    let cmd = vec![gen::spell(f, a, mask, r)];
    c.note(show_cmd(&cmd));
    let out = c.ok(&cmd)?;
    check_class(c, &out.lines().collect::<Vec<_>>(), &n, &cmd)
}

fn check_class(c: &mut Ctx, lines: &[&str], n: &Net, cmd: &[String]) -> Result<(), Fail> {
    let got = show::class_label(lines, n.f);
    let want = if n.host_bits() >= 2 { class(n).map(|(s, _)| s.to_owned()) } else { None };
    c.count(format!("class {}", want.clone().unwrap_or_else(|| "none".to_owned())));
    if got != want { return bad(format!("{}: class of {} is {:?}, expected {:?}", show_cmd(cmd), n.text(), got, want)); }
    // no class anywhere else
    if lines.iter().any(|l| l.contains("Class") && !l.starts_with("Hosts/Net")) { return bad(format!("{}: class outside of the hosts row", show_cmd(cmd))); }
    Ok(())
}

// ----- P08 -----

/// Splits coloured text into characters with their styles.
pub fn styled(text: &str) -> Result<Vec<(char, String)>, String> {
    let mut r = Vec::new();
    let mut style = String::new();
    let mut it = text.chars().peekable();
    while let Some(ch) = it.next() {
        if ch != '\u{1b}' { r.push((ch, style.clone())); continue; }
        if it.next() != Some('[') { return Err("unknown escape sequence".to_owned()); }
        let mut s = String::new();
        loop {
            match it.next() {
                Some(x) if x.is_ascii_digit() || x == ';' => s.push(x),
                Some('m') => break,
                x => return Err(format!("escape sequence contains {:?}", x)),
            }
        }
        if s == "0" || s.is_empty() { style.clear(); } else { if !style.is_empty() { style.push('+'); } style.push_str(&s); }
    }
    if !style.is_empty() { return Err("a style is left on at the end".to_owned()); }
    Ok(r)
}

pub fn plain_of(s: &[(char, String)]) -> String { s.iter().map(|x| x.0).collect() }

/// The styles of the binary digits of a row.
fn digit_styles(line: &[(char, String)], f: Fam) -> Option<(String, Vec<String>)> {
    let text = plain_of(line);
    let row = show::row(f, &text);
    let bits = row.bits?;
    let start = line.len() - bits.chars().count();
    Some((row.label, line[start..].iter().filter(|x| x.0 == '0' || x.0 == '1').map(|x| x.1.clone()).collect()))
}

pub fn styled_lines(s: Vec<(char, String)>) -> Vec<Vec<(char, String)>> {
    s.split(|x| x.0 == '\n').map(|l| l.to_vec()).collect()
}

struct Styles { net: String, host: String, class: String }

/// Which styles stand for network, host and class bits, as seen on an ordinary network.
fn reference(c: &mut Ctx) -> Result<Styles, Fail> {
    let t = c.ok_color(&args(&["192.168.2.4/24"]), true)?;
    let s = match styled(&t) { Ok(s) => s, Err(e) => return bad(format!("show in colour: {}", e)) };
    let mut st = Styles { net: String::new(), host: String::new(), class: String::new() };
    for l in styled_lines(s) {
        match digit_styles(&l, V4) {
            Some((label, d)) if label == "Address" => { st.net = d[0].clone(); st.host = d[31].clone(); },
            Some((label, d)) if label == "Network" => { st.class = d[0].clone(); },
            _ => {},
        }
    }
    if st.net.is_empty() || st.net == st.host || st.class == st.net || st.class == st.host || st.host.is_empty() || st.class.is_empty() {
        return bad(format!("show of 192.168.2.4/24 in colour does not tell network ({}), host ({}) and class bits ({}) apart", st.net, st.host, st.class));
    }
    Ok(st)
}

fn p08(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let kind = if i < 256 { 0 } else if i < 376 { i % 6 } else { r.below(8) };
    let f = if i < 256 || r.chance(1, 2) { V4 } else { V6 };
    let (a, mask) = if i < 256 {
        (((i % 16) as u128) << 28 | (r.u128() & 0x0FFF_FFFF), ((i / 16) as u128) << 28 | (r.u128() & 0x0FFF_FFFF))
    } else {
        (gen::addr(f, r), gen::any_mask(f, r))
    };
    let n = Net::new(f, a, mask);
    let mut addr = None;
    let mut nets: Vec<Net> = Vec::new();
    let cmd = match kind {
        0 | 6 | 7 => { addr = Some(a); nets.push(n); vec![gen::spell(f, a, mask, r)] },
        1 => {
            let p2 = f.pmask(f.w() - r.u32r(n.host_bits(), f.w()));
            nets.push(n);
            nets.push(super::resize::resize_super(&n, p2));
            args(&["-r", &gen::spell(f, a, mask, r), &gen::spell_mask_arg(f, p2, r)])
        },
        2 => {
            let n = gen::cidr_p(f, r.u32r(0, f.w()), r);
            args(&["-s", &n.text(), &r.below(300).to_string(), &r.below(300).to_string()])
        },
        3 => args(&["-d", &addr_text(f, a), &addr_text(f, gen::addr(f, r))]),
        4 => args(&["-m", &n.text(), &gen::cidr(f, r).text()]),
        _ => if r.chance(1, 4) { args(&["--color-test"]) } else {
            let h = r.u32r(0, 6);
            args(&["-e", &Net::new(f, a, if h == 0 { f.all() } else { gen::hosts_at(f, h, r) }).text()])
        },
    };
    c.note(show_cmd(&cmd));
    let plain = c.x.run(&cmd, false)?;
    let color = c.x.run(&cmd, true)?;
    if plain.code != color.code { return bad(format!("{}: status {:?} becomes {:?} in colour", show_cmd(&cmd), plain.code, color.code)); }
    let s = match styled(&color.text()) { Ok(s) => s, Err(e) => return bad(format!("{} in colour: {}", show_cmd(&cmd), e)) };
    if plain_of(&s) != plain.text() {
        return bad(format!("{} in colour prints, without escapes, {:?} instead of {:?}", show_cmd(&cmd), short(&plain_of(&s)), short(&plain.text())));
    }
    if plain.text().contains('\u{1b}') { return bad(format!("{} prints escapes without colour", show_cmd(&cmd))); }
    c.add("styled characters", s.len() as u64);
    if cmd[0].starts_with("--") || kind > 2 && kind < 6 { return Ok(()); }
    let st = reference(c)?;
    let mut which = 0;
    for l in styled_lines(s) {
        let (label, d) = match digit_styles(&l, f) { Some(x) => x, None => continue };
        let text = plain_of(&l);
        let net = if kind == 2 {
            if label != "Network" { continue; }
            match parse_net(f, &show::row(f, &text).value) { Some(n) => n, None => return bad(format!("{}: row {:?}", show_cmd(&cmd), text)) }
        } else {
            let k = which.min(nets.len() - 1);
            if label == "Network" { which += 1; }
            nets[k]
        };
        let decide = if label == "Network" { class(&net).map(|c| c.1).unwrap_or(0) } else { 0 };
        if label != "Network" && !(label == "Address" && addr.is_some()) { continue; }
        for (k, got) in d.iter().enumerate() {
            let is_net = net.mask >> (f.w() - 1 - k as u32) & 1 == 1;
            let want = if (k as u32) < decide { &st.class } else if is_net { &st.net } else { &st.host };
            if got != want {
                return bad(format!("{}: digit {} of row {:?} has style {}, expected {} (network {}, host {}, class {})", show_cmd(&cmd), k + 1, text, got, want, st.net, st.host, st.class));
            }
        }
        c.add("digit styles checked", d.len() as u64);
        if decide > 0 { c.count("rows with class digits"); }
    }
    Ok(())
}
