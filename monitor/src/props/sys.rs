//! P22 to P24: status, write failures, determinism.

use std::ffi::OsString;
use std::fs::{File, OpenOptions};
use std::os::fd::OwnedFd;
use std::os::unix::ffi::OsStringExt;

use crate::exec::{bad, read_file, Code, Fail, Out, Spawn};
use crate::gen;
use crate::model::*;
use crate::props::args::{g_spec, model_mask, mutate, Verdict};
use crate::rng::Rng;
use crate::{args, show_cmd, short, Ctx, Prop};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P22", systematic: 420, plain_only: false, case: p22,
            rule: "A case is a command line made of options, good, extreme, malformed, mutated and arbitrary arguments (also bytes that are no text, huge and many arguments) run with overflow checks under CPU and memory limits; status and streams are compared with the contract. Distinct by command line." },
        Prop { id: "P23", systematic: 60 + 24, plain_only: true, case: p23,
            rule: "A case runs a command line with standard output failing: a file-size limit at every byte offset (every offset up to 400 bytes, else a sample), a full device, a closed pipe, a pipe that never waits, or one whose reader leaves in the middle; or with standard error failing. Distinct by command line and kind of failure." },
        Prop { id: "P24", systematic: 60, plain_only: true, case: p24,
            rule: "A case runs one command line in 6 to 12 fresh processes with different locale, time zone, terminal, working directory and other variables, program name, standard input and resource limits, and in a release build, and compares bytes and status. Distinct by command line." },
    ]
}

// ----- command lines -----

pub fn small_net(f: Fam, max_hosts: u32, r: &mut Rng) -> Net {
    let h = r.u32r(0, max_hosts);
    let m = if h == 0 || r.chance(1, 2) { f.pmask(f.w() - h) } else { gen::hosts_at(f, h, r) };
    Net::new(f, gen::addr(f, r), m)
}

/// A well-formed command line of any mode with output of moderate size.
pub fn good_cmd(r: &mut Rng) -> Vec<String> {
    let f = gen::fam(r);
    match r.below(13) {
        0 | 1 => (0..r.u32r(1, 4)).map(|_| { let f = if r.chance(1, 3) { f.other() } else { f }; let m = gen::any_mask(f, r); gen::spell(f, gen::addr(f, r), m, r) }).collect(),
        2 => args(&["-d".to_owned(), addr_text(f, gen::addr(f, r)), addr_text(f, gen::addr(f, r))]),
        3 => { let n = gen::cidr(f, r); args(&["--derange".to_owned(), addr_text(f, n.base), addr_text(f, n.last())]) },
        4 | 5 | 6 => {
            let mut cmd = args(&["-m"]);
            let same = gen::lopsided(f, r);
            let base = gen::addr(f, r);
            let style = r.below(4);
            for k in 0..r.u32r(1, 24) {
                let n = match style {
                    0 => Net::p(f, base.wrapping_add(k as u128) & f.all(), f.w()),
                    1 => Net::new(f, weave(f, (unravel(f, base, same)).wrapping_add(k as u128) & f.all(), same), same),
                    2 => Net::p(f, base ^ (r.u128() & f.ones(10)), f.w() - r.u32r(0, 10)),
                    _ => { let m = f.all() & !(r.u128() & r.u128() & f.ones(9)); Net::new(f, base ^ (r.u128() & f.ones(9)), m) },
                };
                cmd.push(n.text());
            }
            let mut tail = cmd.split_off(1);
            r.shuffle(&mut tail);
            cmd.extend(tail);
            cmd
        },
        7 | 8 => {
            let p = gen::prefix(f, r);
            let n = gen::cidr_p(f, p, r);
            let mut cmd = args(&["-s", &n.text()]);
            for _ in 0..r.u32r(1, 12) { let sh = r.u32r(0, 40); cmd.push(r.below(1 << sh).to_string()); }
            cmd
        },
        9 => {
            let m = gen::any_mask(f, r);
            let n = Net::new(f, gen::addr(f, r), m);
            let h = r.u32r(n.host_bits().saturating_sub(5), f.w());
            let m2 = if h == 0 || h == f.w() || r.chance(1, 2) { f.pmask(f.w() - h) } else { gen::hosts_at(f, h, r) };
            args(&["-r".to_owned(), gen::spell_net(&n, r), gen::spell_mask_arg(f, m2, r)])
        },
        10 | 11 => {
            let mut cmd = args(&["-e"]);
            for _ in 0..r.u32r(1, 3) { cmd.push(gen::spell_net(&small_net(f, 8, r), r)); }
            cmd
        },
        _ => if r.chance(1, 3) { args(&["--color-test"]) } else { vec![gen::spell_net(&small_net(f, 3, r), r)] },
    }
}

/// Whether running the command line is certain to end soon with moderate output.
pub fn tame(cmd: &[String]) -> bool {
    match cmd.first().map(|s| s.as_str()) {
        Some("-e" | "--enumerate") => cmd[1..].iter().all(|s| match g_spec(s) {
            Verdict::Good((f, a, m)) => Net::new(f, a, m).host_bits() <= 12,
            Verdict::Malformed => true,
            Verdict::Open => false,
        }),
        Some("-r" | "--resize") if cmd.len() == 3 => match g_spec(&cmd[1]) {
            Verdict::Good((f, a, m)) => match model_mask(f, &cmd[2]) {
                Some(m2) => Net::new(f, a, m).host_bits().saturating_sub((!m2 & f.all()).count_ones()) <= 10,
                // the grammar says malformed or nothing: only numbers could be taken for a long prefix
                None => !cmd[2].bytes().any(|b| b.is_ascii_digit()) || Net::new(f, a, m).host_bits() <= 10,
            },
            Verdict::Malformed => true,
            Verdict::Open => false,
        },
        Some("-m" | "--minimize") => cmd.len() <= 80,
        _ => true,
    }
}

// ----- P22 -----

fn contract(cmd: &[String], o: &Out, lossy: bool) -> Result<(), String> {
    let mode = cmd.first().map(|s| s.as_str()).unwrap_or("");
    match o.code {
        Code::Exit(0) => {
            if !o.err.is_empty() && mode != "--help" { return Err(format!("status 0, but standard error has {:?}", short(&o.err_text()))); }
        },
        Code::Exit(1) => {
            let split = mode == "-s" || mode == "--split";
            if o.err.is_empty() && !(split && !o.out.is_empty()) { return Err("status 1 without a message".to_owned()); }
        },
        ref c => return Err(format!("ended with {:?}, standard error {:?}", c, short(&o.err_text()))),
    }
    let n = cmd.len().saturating_sub(1);
    let usage = match mode {
        "-m" | "--minimize" | "-e" | "--enumerate" => n < 1,
        "-d" | "--derange" | "-r" | "--resize" => n != 2,
        "-s" | "--split" => n < 2,
        _ => cmd.is_empty(),
    };
    if usage {
        if o.code != Code::Exit(1) || !o.err_text().contains("Usage:") || !o.out.is_empty() {
            return Err(format!("missing or surplus arguments give {:?}, standard error {:?}", o.code, short(&o.err_text())));
        }
    }
    if mode == "--help" && n == 0 && (o.code != Code::Exit(0) || !format!("{}{}", o.err_text(), o.text()).contains("Usage:")) {
        return Err(format!("help gives {:?}", o.code));
    }
    if lossy && o.code == Code::Exit(0) && mode != "--help" && mode != "--color-test" { return Err("bytes that are no text are accepted".to_owned()); }
    Ok(())
}

pub fn token(r: &mut Rng) -> String {
    let f = gen::fam(r);
    if let (Some(t), true) = (r.text_literal(), r.chance(1, 5)) { return t; }
    match r.below(16) {
        0 => r.pick(&["-m", "-d", "-s", "-r", "-e", "--minimize", "--derange", "--split", "--resize", "--enumerate", "--help", "--color-test", "-h", "--", "-", "-M", "--minimise", "-md", "-e=1"]).to_string(),
        1 | 2 | 3 => { let m = gen::any_mask(f, r); gen::spell(f, gen::addr(f, r), m, r) },
        4 => gen::spell_net(&small_net(f, 6, r), r),
        5 => gen::spell_addr(f, gen::addr(f, r), r),
        6 => gen::spell_mask_arg(f, gen::any_mask(f, r), r),
        7 => r.pick(&["0", "1", "2", "32", "33", "128", "129", "255", "256", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211455",
            "340282366920938463463374607431768211456", "-1", "-0", "+1", "00", "1e5", "-2147483648", "99999999999999999999999999999999999999999999999999999999"]).to_string(),
        8 | 9 => { let m = gen::any_mask(f, r); let s = gen::spell(f, gen::addr(f, r), m, r); mutate(&s, r) },
        10 => r.pick(&["", " ", "/", ":", ".", "::", ":::", "...", "-/", "/-", "0/0", "::/0", "0.0.0.0/0", "255.255.255.255/32", "0.0.0.0/-0", "::/-::", "0.0.0.0/0.0.0.0", "::/-128", "1.1.1.1/-32"]).to_string(),
        11 => (0..r.u32r(0, 12)).map(|_| char::from_u32(r.u32r(0, 0x2ff)).unwrap_or('x')).filter(|c| *c != '\0').collect(),
        12 => (0..r.u32r(0, 12)).map(|_| *r.pick(&['0', '1', '9', 'f', ':', '.', '/', '-', '+', '%'])).collect(),
        13 => { let mut v: Vec<u128> = vec![gen::addr(f, r), gen::addr(f, r)]; if r.chance(1, 2) { v[1] = f.all(); } format!("{}/{}", addr_text(f, v[0]), addr_text(f, v[1])) },
        14 => "1".repeat(r.usize(60)),
        _ => format!("{}/{}", addr_text(f, *r.pick(&[0, f.all(), f.all() - 1, 1u128 << (f.w() - 1)])), r.u32r(0, f.w())),
    }
}

/// A run of characters of several bytes, at every argument of every mode, at any offset within a character.
fn wide(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let j = if i < 420 { i - 300 } else { r.u64() };
    let mut cmd = match j % 12 {
        0 | 1 => args(&["-r", "10.1.2.0/24", "255.255.255.128"]),
        2 | 3 => args(&["-d", "10.1.2.3", "10.1.2.200"]),
        4 | 5 => args(&["-s", "10.1.2.0/24", "7"]),
        6 => args(&["-m", "10.1.2.0/24"]),
        7 => args(&["-m", "fe80::/10", "fe80::1/128"]),
        8 => args(&["-e", "10.1.2.0/30"]),
        9 => args(&["-e", "10.1.2.0/30", "fe80::/127"]),
        10 => args(&["10.1.2.0/24"]),
        _ => args(&["-r", "fe80::/64", "ffff::"]),
    };
    let k = if j % 12 < 6 { 1 + (j % 2) as usize } else { cmd.len() - 1 };
    let ch = *r.pick(&["\u{e9}", "\u{20ac}", "\u{1f600}", "\u{661}", "e\u{301}", "\u{2028}"]);
    let keep = match j / 12 % 4 { 0 => 0, 1 => cmd[k].len(), _ => r.usize(cmd[k].len() + 1) };
    cmd[k].truncate(keep);
    let n = match j / 48 % 3 { 0 => r.u32r(1, 40), 1 => r.u32r(40, 300), _ => r.u32r(1, 2000) } as usize;
    for _ in 0..r.below(4) { cmd[k].push('1'); }
    cmd[k].push_str(&ch.repeat(n));
    if r.chance(1, 3) { cmd[k].push_str("/24"); }
    if r.chance(1, 10) { let a = cmd[k].clone(); cmd[0] = a; }
    c.note(show_cmd(&cmd));
    c.count("runs of wide characters");
    let o = c.run(&cmd)?;
    contract(&cmd, &o, false).map_err(|e| Fail::Bad(format!("{}: {}", short(&show_cmd(&cmd)), e)))
}

fn p22(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    if (300..420).contains(&i) || (i >= 420 && r.chance(1, 20)) { return wide(c, i, r); }
    match if i < 300 { i % 10 } else { r.below(30) } {
        0 if i < 300 => {
            // argument counts of every mode
            let modes = ["", "-m", "-d", "-s", "-r", "-e", "--minimize", "--derange", "--split", "--resize", "--enumerate", "--help", "--color-test"];
            let k = (i / 10) as usize;
            let mut cmd: Vec<String> = Vec::new();
            let m = modes[k % modes.len()];
            if !m.is_empty() { cmd.push(m.to_owned()); }
            for _ in 0..r.below(6) { cmd.push(if r.chance(1, 2) { "10.0.0.0/30".to_owned() } else { "10.0.0.1".to_owned() }); }
            c.note(show_cmd(&cmd));
            let o = c.run(&cmd)?;
            contract(&cmd, &o, false).map_err(|e| Fail::Bad(format!("{}: {}", show_cmd(&cmd), e)))
        },
        1 | 2 => {
            // bytes that are no text; only in a fresh process
            let mut cmd: Vec<Vec<u8>> = Vec::new();
            for _ in 0..r.u32r(1, 3) { cmd.push(token(r).into_bytes()); }
            let k = r.usize(cmd.len());
            let at = r.usize(cmd[k].len() + 1);
            let junk: Vec<u8> = match r.below(4) { 0 => vec![0xff], 1 => vec![0xc3], 2 => vec![0xed, 0xa0, 0x80], _ => (0..r.u32r(1, 6)).map(|_| 128 + r.below(128) as u8).collect() };
            for (j, b) in junk.into_iter().enumerate() { cmd[k].insert(at + j, b); }
            for a in &mut cmd { a.retain(|b| *b != 0); }
            let lossy = cmd.iter().any(|a| std::str::from_utf8(a).is_err());
            let text: Vec<String> = cmd.iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect();
            if !tame(&text) { return Ok(()); }
            c.note(format!("bytes {:?}", cmd));
            let mut s = Spawn::new(&c.x.paths.plain, &[]);
            s.args = cmd.iter().map(|a| OsString::from_vec(a.clone())).collect();
            let o = s.run()?;
            c.x.runs_plain += 1;
            c.count("arguments that are no text");
            if let Some(l) = c.x.log.as_mut() { l.push((text.clone(), false, Some(o.clone()))); }
            contract(&text, &o, lossy).map_err(|e| Fail::Bad(format!("bytes {:?}: {}", cmd, e)))
        },
        3 => {
            // long and short options
            let mut cmd = good_cmd(r);
            let pairs = [("-m", "--minimize"), ("-d", "--derange"), ("-s", "--split"), ("-r", "--resize"), ("-e", "--enumerate")];
            let swap = pairs.iter().find_map(|(a, b)| if cmd[0] == *a { Some(*b) } else if cmd[0] == *b { Some(*a) } else { None });
            let b = match swap { Some(b) => b, None => return Ok(()) };
            if r.chance(1, 4) { let k = r.usize(cmd.len()); if k > 0 { cmd[k] = token(r); } }
            if !tame(&cmd) { return Ok(()); }
            let mut other = cmd.clone();
            other[0] = b.to_owned();
            c.note(show_cmd(&cmd));
            let (x, y) = (c.run(&cmd)?, c.run(&other)?);
            contract(&cmd, &x, false).map_err(|e| Fail::Bad(format!("{}: {}", show_cmd(&cmd), e)))?;
            contract(&other, &y, false).map_err(|e| Fail::Bad(format!("{}: {}", show_cmd(&other), e)))?;
            if (x.code, x.out, x.err) != (y.code, y.out, y.err) { return bad(format!("{} and {} differ", show_cmd(&cmd), show_cmd(&other))); }
            c.count("long and short options compared");
            Ok(())
        },
        4 if i < 300 || r.chance(1, 10) => {
            // large ones
            let cmd = match r.below(5) {
                0 => vec!["1".repeat(r.usize(60_000))],
                1 => vec![format!("{}/{}", ":".repeat(r.usize(30_000)), "0".repeat(r.usize(30_000)))],
                2 => (0..r.u32r(1, 1500)).map(|_| token(r)).filter(|t| !t.starts_with('-')).collect(),
                3 => { let mut v = args(&["-s", "::/0"]); v.extend((0..r.u32r(1, 300)).map(|_| r.below(1 << 40).to_string())); v },
                _ => { let mut v = args(&["-s", "10.0.0.0/8", "1"]); v.push("9".repeat(r.usize(3_000) + 1)); v },
            };
            if cmd.is_empty() { return Ok(()); }
            c.note(show_cmd(&cmd));
            c.count("large command lines");
            let o = c.run(&cmd)?;
            contract(&cmd, &o, false).map_err(|e| Fail::Bad(format!("{}: {}", short(&show_cmd(&cmd)), e)))
        },
        5 | 6 | 7 | 8 => {
            // good ones, some spoiled
            let mut cmd = good_cmd(r);
            if r.chance(1, 2) { let k = r.usize(cmd.len()); cmd[k] = if r.chance(1, 2) { mutate(&cmd[k].clone(), r) } else { token(r) }; }
            if r.chance(1, 8) { let k = r.usize(cmd.len()); let d = cmd[k].clone(); cmd.push(d); }
            cmd.iter_mut().for_each(|a| a.retain(|ch| ch != '\0'));
            if !tame(&cmd) { c.count("left out as too large"); return Ok(()); }
            c.note(show_cmd(&cmd));
            let o = c.run(&cmd)?;
            c.count(format!("status {:?}", o.code));
            contract(&cmd, &o, false).map_err(|e| Fail::Bad(format!("{}: {}", show_cmd(&cmd), e)))
        },
        9 | 10 | 11 => {
            // split of any network, also lopsided ones
            let f = gen::fam(r);
            let m = gen::any_mask(f, r);
            let n = Net::new(f, gen::addr(f, r), m);
            let mut cmd = args(&["-s", &gen::spell_net(&n, r)]);
            for _ in 0..r.u32r(1, 6) {
                cmd.push(match r.below(4) { 0 => "0".to_owned(), 1 => r.u128().to_string(), 2 => format!("{}{}", r.u128(), r.u64()), _ => (1u128 << r.below(127)).wrapping_sub(r.below(4) as u128).to_string() });
            }
            c.note(show_cmd(&cmd));
            let o = c.run(&cmd)?;
            c.count("splits");
            contract(&cmd, &o, false).map_err(|e| Fail::Bad(format!("{}: {}", show_cmd(&cmd), e)))
        },
        12 | 13 | 14 => {
            // anything, at the ends of the address space
            let f = gen::fam(r);
            let e = |r: &mut Rng| match r.below(4) { 0 => f.all(), 1 => f.all() - r.below(4) as u128, 2 => r.below(4) as u128, _ => 1u128 << (f.w() - 1) };
            let (a, b) = (e(r), e(r));
            let m = gen::any_mask(f, r);
            let cmd = match r.below(5) {
                0 => args(&["-d".to_owned(), addr_text(f, a), addr_text(f, b)]),
                1 => args(&["-m".to_owned(), gen::plain(f, a, m), gen::plain(f, b, m), gen::plain(f, a ^ 1, m)]),
                2 => args(&["-r".to_owned(), gen::plain(f, a, m), gen::spell_mask_arg(f, gen::any_mask(f, r), r)]),
                3 => args(&["-e".to_owned(), gen::plain(f, a, m)]),
                _ => args(&[gen::plain(f, a, m), gen::plain(f, b, m)]),
            };
            if !tame(&cmd) { c.count("left out as too large"); return Ok(()); }
            c.note(show_cmd(&cmd));
            let o = c.run(&cmd)?;
            c.count(format!("status {:?}", o.code));
            contract(&cmd, &o, false).map_err(|e| Fail::Bad(format!("{}: {}", show_cmd(&cmd), e)))?;
            if o.code != Code::Exit(0) { return bad(format!("{} is well-formed, but ends with {:?}: {:?}", show_cmd(&cmd), o.code, short(&o.err_text()))); }
            Ok(())
        },
        _ => {
            let mut cmd: Vec<String> = (0..r.below(6)).map(|_| token(r)).collect();
            if r.chance(1, 2) { cmd.insert(0, r.pick(&["-m", "-d", "-s", "-r", "-e", "--minimize", "--derange", "--split", "--resize", "--enumerate"]).to_string()); }
            cmd.iter_mut().for_each(|a| a.retain(|ch| ch != '\0'));
            if !tame(&cmd) { c.count("left out as too large"); return Ok(()); }
            c.note(show_cmd(&cmd));
            let o = c.run(&cmd)?;
            c.count(format!("status {:?}", o.code));
            contract(&cmd, &o, false).map_err(|e| Fail::Bad(format!("{}: {}", show_cmd(&cmd), e)))
        },
    }
}

// ----- P23 -----

fn failing(c: &mut Ctx, cmd: &[String], color: bool, stdout: File, fsize: Option<u64>) -> Result<Out, Fail> {
    let mut s = Spawn::new(&c.x.paths.plain, cmd);
    s.stdout = Some(stdout);
    s.fsize = fsize;
    if color { s.env.push(("CLICOLOR_FORCE".to_owned(), "1".into())); }
    let o = s.run()?;
    c.x.runs_plain += 1;
    if let Some(l) = c.x.log.as_mut() { l.push((cmd.to_vec(), color, Some(o.clone()))); }
    Ok(o)
}

fn nonzero(o: &Out) -> bool { matches!(o.code, Code::Signal(_)) || matches!(o.code, Code::Exit(n) if n != 0) }

/// A command line with more output than a pipe or any buffer takes at once.
pub fn large_cmd(r: &mut Rng) -> Vec<String> {
    let f = gen::fam(r);
    match r.below(6) {
        0 | 1 | 2 => {
            let mut cmd = args(&["-e"]);
            for _ in 0..r.u32r(1, 3) {
                let h = r.u32r(10, 16);
                let m = if r.chance(1, 2) { f.pmask(f.w() - h) } else { gen::hosts_at(f, h, r) };
                cmd.push(Net::new(f, gen::addr(f, r), m).text());
            }
            cmd
        },
        3 => {
            let h = r.u32r(0, 10);
            let k = r.u32r(6, 9);
            let m = |h: u32, r: &mut Rng| if r.chance(1, 2) { f.pmask(f.w() - h) } else { gen::hosts_at(f, h, r) };
            let (big, small) = (m(h + k, r), m(h, r));
            args(&["-r".to_owned(), Net::new(f, gen::addr(f, r), big).text(), gen::spell_mask_arg(f, small, r)])
        },
        4 => (0..r.u32r(90, 400)).map(|_| { let f = if r.chance(1, 3) { f.other() } else { f }; gen::plain(f, gen::addr(f, r), gen::any_mask(f, r)) }).collect(),
        _ => {
            let mut cmd = args(&["-s", &gen::cidr_p(f, f.w() - 20, r).text()]);
            for _ in 0..r.u32r(90, 300) { let sh = r.u32r(0, 10); cmd.push(r.below(1 << sh).to_string()); }
            cmd
        },
    }
}

fn p23_large(c: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let cmd = large_cmd(r);
    let full = c.x.run(&cmd, false)?;
    c.note(format!("much output: {}", short(&show_cmd(&cmd))));
    if full.code != Code::Exit(0) || full.out.len() < 4096 { c.count("left out: no or failing or very long output"); return Ok(()); }
    let len = full.out.len() as u64;
    for _ in 0..5 {
        let n = match r.below(4) { 0 => r.below(len), 1 => (r.below(len / 4096 + 1) * 4096 + r.below(3)).min(len - 1), 2 => len - 1 - r.below(len.min(2000)), _ => { let b = 1u64 << r.u32r(10, 17); (r.below(len / b + 1) * b + r.below(b / 2)).min(len - 1) } };
        let path = format!("{}/out", c.dir);
        let file = File::create(&path).map_err(|e| Fail::Unsure(e.to_string()))?;
        let o = failing(c, &cmd, false, file, Some(n))?;
        let got = read_file(&path);
        let _ = std::fs::remove_file(&path);
        c.count("size limits tried on much output");
        if !nonzero(&o) { return bad(format!("{}: only {} of {} bytes could be written, but the status is {:?}", show_cmd(&cmd), n, len, o.code)); }
        if got.len() as u64 > n || got[..] != full.out[..got.len()] { return bad(format!("{}: with room for {} bytes, {} bytes are written which are no prefix", show_cmd(&cmd), n, got.len())); }
    }
    for k in 0..2 {
        let mut s = Spawn::new(&c.x.paths.plain, &cmd);
        let how = if k == 0 {
            let seed = (r.u64() >> 1 | 1).to_string();
            let shim = c.x.paths.shim.clone();
            if !s.with_shim(&shim, &[("RV_SHORT", seed.clone())]) { continue; }
            c.count("much output written piecemeal");
            format!("with writes that take only part of the bytes or are interrupted (LD_PRELOAD=shim RV_SHORT={})", seed)
        } else {
            s.stops = r.u32r(3, 20);
            c.count("stopped and continued while waiting for a full pipe");
            "stopped (SIGSTOP) and continued while waiting for a full pipe".to_owned()
        };
        let o = s.run()?;
        c.x.runs_plain += 1;
        if let Some(l) = c.x.log.as_mut() { l.push((cmd.to_vec(), false, Some(o.clone()))); }
        if o != full {
            let at = o.out.iter().zip(&full.out).take_while(|(a, b)| a == b).count();
            return bad(format!("{} {} ends with {:?} {:?} and {} of {} bytes, different from byte {} on", show_cmd(&cmd), how, o.code, short(&o.err_text()), o.out.len(), len, at));
        }
    }
    Ok(())
}

/// A pipe that refuses what it cannot take at once, and a reader that is slow.
fn p23_impatient(c: &mut Ctx, r: &mut Rng) -> Result<(), Fail> {
    let cmd = large_cmd(r);
    let full = c.x.run(&cmd, false)?;
    if full.code != Code::Exit(0) || full.out.len() < 4096 { c.count("left out: no or failing or very long output"); return Ok(()); }
    c.note(format!("impatient: {}", short(&show_cmd(&cmd))));
    let (mut rd, wr) = std::io::pipe().map_err(|e| Fail::Unsure(e.to_string()))?;
    let wr = File::from(OwnedFd::from(wr));
    crate::exec::impatient(&wr);
    let (patience, size) = (r.below(300), r.u32r(1, 13));
    let most = 1usize << size;
    let reader = std::thread::spawn(move || {
        use std::io::Read;
        let (mut all, mut buf) = (Vec::new(), vec![0u8; most]);
        loop {
            std::thread::sleep(std::time::Duration::from_micros(if all.len() < 6000 { patience } else { 0 }));
            match rd.read(&mut buf) { Ok(0) | Err(_) => return all, Ok(n) => all.extend_from_slice(&buf[..n]) }
        }
    });
    let o = failing(c, &cmd, false, wr, None)?;
    let got = reader.join().map_err(|_| Fail::Unsure("reader".to_owned()))?;
    c.count(if got.len() == full.out.len() { "pipes that never wait, and need not" } else { "pipes that never wait" });
    if got.len() > full.out.len() || got[..] != full.out[..got.len()] { return bad(format!("{} into a pipe that never waits: {} bytes arrive which are no prefix of the output", show_cmd(&cmd), got.len())); }
    if got.len() < full.out.len() && !nonzero(&o) { return bad(format!("{} into a pipe that never waits: {} of {} bytes arrive, but the status is {:?}", show_cmd(&cmd), got.len(), full.out.len(), o.code)); }
    Ok(())
}

/// A command line that fails, while its message cannot be written.
fn p23_unheard(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let mut cmd = match (if i < 84 { i } else { r.below(12) }) % 12 {
        0 => Vec::new(),
        1 => args(&[*r.pick(&["-m", "-d", "-r", "-s", "-e", "--minimize", "--resize"])]),
        2 => args(&["-d", "10.0.0.1", "10.0.0.2", "10.0.0.3"]),
        3 => args(&["-s", "10.0.0.0/24", "x"]),
        4 => args(&["-m", "10.0.0.0/24", "::/0"]),
        5 => args(&["-r", "10.0.0.0/24", "33"]),
        6 => args(&["-d", "10.0.0.1", "::"]),
        _ => {
            let mut v = good_cmd(r);
            let first = usize::from(v[0].starts_with("--") || v[0].len() == 2);
            if first == 0 || r.chance(1, 2) {
                // enumerate or show
                v = (0..r.u32r(1, 4)).map(|_| small_net(gen::fam(r), 5, r).text()).collect();
                if r.chance(2, 3) { v.insert(0, "-e".to_owned()); }
            }
            let k = usize::from(v[0].starts_with('-'));
            let k = k + r.usize(v.len() - k + 1);
            v.insert(k, crate::props::args::bad_spec(r));
            v
        },
    };
    cmd.iter_mut().for_each(|a| a.retain(|ch| ch != '\0'));
    if !tame(&cmd) { return Ok(()); }
    let full = c.x.run(&cmd, false)?;
    if full.code != Code::Exit(1) || full.err.is_empty() { c.count("left out: no or failing or very long output"); return Ok(()); }
    let path = format!("{}/messages", c.dir);
    for kind in 0..3 {
        let mut s = Spawn::new(&c.x.paths.plain, &cmd);
        let mut room = 0;
        s.stderr = Some(match kind {
            0 => OpenOptions::new().write(true).open("/dev/full").map_err(|e| Fail::Unsure(e.to_string()))?,
            1 => { let (_, wr) = std::io::pipe().map_err(|e| Fail::Unsure(e.to_string()))?; File::from(OwnedFd::from(wr)) },
            _ => { room = r.below(full.err.len() as u64); s.fsize = Some(room); File::create(&path).map_err(|e| Fail::Unsure(e.to_string()))? },
        });
        let how = match kind { 0 => "a full device".to_owned(), 1 => "a closed pipe".to_owned(), _ => format!("a file with room for {} bytes", room) };
        c.note(format!("standard error is {}: {}", how, show_cmd(&cmd)));
        let o = s.run()?;
        c.x.runs_plain += 1;
        if let Some(l) = c.x.log.as_mut() { l.push((cmd.clone(), false, Some(o.clone()))); }
        c.count("messages that could not be written");
        if !nonzero(&o) { return bad(format!("{} fails, but with {} as standard error the status is {:?}", show_cmd(&cmd), how, o.code)); }
        if o.out.len() > full.out.len() || o.out[..] != full.out[..o.out.len()] { return bad(format!("{} with {} as standard error prints {:?}, which is no prefix of {:?}", show_cmd(&cmd), how, short(&o.text()), short(&full.text()))); }
        if kind == 2 {
            let got = read_file(&path);
            let _ = std::fs::remove_file(&path);
            if got[..] != full.err[..got.len().min(full.err.len())] { return bad(format!("{} with {} as standard error writes {:?} there", show_cmd(&cmd), how, short(&String::from_utf8_lossy(&got)))); }
        }
    }
    Ok(())
}

fn p23(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    if (60..78).contains(&i) || (i >= 84 && r.chance(1, 16)) { return p23_unheard(c, i, r); }
    if (78..84).contains(&i) || (i >= 84 && r.chance(1, 24)) { return p23_impatient(c, r); }
    if (20..32).contains(&i) || (i >= 84 && r.chance(1, 16)) { return p23_large(c, r); }
    let cmd = match i {
        0 => args(&["192.168.2.4/24"]),
        1 => args(&["--color-test"]),
        2 => args(&["-s", "10.0.0.0/29", "1", "1", "1"]),
        3 => args(&["-m", "10.0.0.0/25", "10.0.0.128/25"]),
        4 => args(&["-d", "10.0.0.1", "10.0.0.6"]),
        5 => args(&["-e", "10.0.0.0/28"]),
        6 => args(&["-r", "10.0.0.0/30", "31"]),
        7 => args(&["10.0.0.0/32", "::1/128"]),
        _ => good_cmd(r),
    };
    let color = i % 4 == 1;
    let kind = if i < 12 { 0 } else if i < 20 { 8 } else { r.below(9) };
    let full = c.x.run(&cmd, color)?;
    if full.out.is_empty() || full.code != Code::Exit(0) || full.out.len() > 400_000 { c.count("left out: no or failing or very long output"); return Ok(()); }
    let len = full.out.len() as u64;
    match kind {
        0..=4 => {
            c.note(format!("size limits: {}", show_cmd(&cmd)));
            let limits: Vec<u64> = if len <= 400 && (kind < 2 || i < 12) { (0..len).collect() } else {
                let mut v = vec![0, 1, len - 1, len / 2];
                // at the ends of lines, where buffers are flushed
                let mut ends: Vec<u64> = full.out.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(k, _)| k as u64).collect();
                if ends.is_empty() { ends.push(len - 1); }
                for _ in 0..8 { let e = *r.pick(&ends); v.push(e); v.push((e + 1).min(len - 1)); v.push(r.below(len)); }
                for k in [1024u64, 4096, 8192, 65536] { if k < len { v.push(k); v.push(k - 1); } }
                v.sort();
                v.dedup();
                v
            };
            for n in limits.iter().copied().chain([len]) {
                let path = format!("{}/out", c.dir);
                let file = File::create(&path).map_err(|e| Fail::Unsure(e.to_string()))?;
                let o = failing(c, &cmd, color, file, Some(n))?;
                let got = read_file(&path);
                let _ = std::fs::remove_file(&path);
                if n == len {
                    if o.code != Code::Exit(0) || got != full.out { return bad(format!("{} ends with {:?} although all {} bytes can be written", show_cmd(&cmd), o.code, len)); }
                    continue;
                }
                c.count("size limits tried");
                if !nonzero(&o) { return bad(format!("{}: only {} of {} bytes could be written, but the status is {:?}", show_cmd(&cmd), n, len, o.code)); }
                if got.len() as u64 > n || got[..] != full.out[..got.len()] { return bad(format!("{}: with room for {} bytes, {:?} is written, which is no prefix", show_cmd(&cmd), n, short(&String::from_utf8_lossy(&got)))); }
            }
            Ok(())
        },
        5 => {
            c.note(format!("full device: {}", show_cmd(&cmd)));
            let file = OpenOptions::new().write(true).open("/dev/full").map_err(|e| Fail::Unsure(e.to_string()))?;
            let o = failing(c, &cmd, color, file, None)?;
            c.count("full devices tried");
            if !nonzero(&o) { return bad(format!("{} into a full device ends with {:?}", show_cmd(&cmd), o.code)); }
            Ok(())
        },
        6 => {
            c.note(format!("closed pipe: {}", show_cmd(&cmd)));
            let (rd, wr) = std::io::pipe().map_err(|e| Fail::Unsure(e.to_string()))?;
            drop(rd);
            let o = failing(c, &cmd, color, File::from(OwnedFd::from(wr)), None)?;
            c.count("closed pipes tried");
            if !nonzero(&o) { return bad(format!("{} into a closed pipe ends with {:?}", show_cmd(&cmd), o.code)); }
            Ok(())
        },
        8 => {
            // all of it can be written, but only piece by piece, with interruptions
            let shim = c.x.paths.shim.clone();
            for _ in 0..4 {
                let mut s = Spawn::new(&c.x.paths.plain, &cmd);
                if color { s.env.push(("CLICOLOR_FORCE".to_owned(), "1".into())); }
                let seed = (r.u64() >> 1 | 1).to_string();
                if !s.with_shim(&shim, &[("RV_SHORT", seed.clone())]) { return Ok(()); }
                let o = s.run()?;
                c.x.runs_plain += 1;
                if let Some(l) = c.x.log.as_mut() { l.push((cmd.to_vec(), color, Some(o.clone()))); }
                c.note(format!("piecemeal {}: {}", seed, show_cmd(&cmd)));
                c.count("outputs written piecemeal");
                if o != full { return bad(format!("{} with writes that take only part of the bytes or are interrupted (LD_PRELOAD=shim RV_SHORT={}) gives {:?} {:?} {:?}", show_cmd(&cmd), seed, o.code, short(&o.text()), short(&o.err_text()))); }
            }
            Ok(())
        },
        _ => {
            // the reader takes some of an output larger than any pipe buffer, then leaves
            let f = gen::fam(r);
            let n = Net::p(f, gen::addr(f, r), f.w() - 17);
            let cmd = args(&["-e", &n.text()]);
            let take = r.below(20_000) as usize;
            c.note(format!("reader leaves after {} bytes: {}", take, show_cmd(&cmd)));
            let (mut rd, wr) = std::io::pipe().map_err(|e| Fail::Unsure(e.to_string()))?;
            let reader = std::thread::spawn(move || {
                use std::io::Read;
                let mut buf = vec![0u8; take];
                let ok = rd.read_exact(&mut buf).is_ok();
                (ok, buf)
            });
            let o = failing(c, &cmd, false, File::from(OwnedFd::from(wr)), None)?;
            let (ok, got) = reader.join().map_err(|_| Fail::Unsure("reader".to_owned()))?;
            c.count("readers that left");
            if !ok { return bad(format!("{} wrote fewer than {} bytes", show_cmd(&cmd), take)); }
            if !nonzero(&o) { return bad(format!("{} ends with {:?} although the reader left after {} bytes", show_cmd(&cmd), o.code, take)); }
            let text = String::from_utf8_lossy(&got).into_owned();
            let upto = text.rfind('\n').map(|p| p + 1).unwrap_or(0);
            super::lists::check_members(&text[..upto], &n, 0, false).map(|_| ()).map_err(|e| Fail::Bad(format!("{}: {}", show_cmd(&cmd), e)))
        },
    }
}

// ----- P24 -----

/// Whether a variable is documented to choose whether there is colour.
pub fn is_colour(name: &str) -> bool { matches!(name, "CLICOLOR" | "CLICOLOR_FORCE" | "NO_COLOR" | "TERM") }

fn p24(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let mut cmd = good_cmd(r);
    if i < 60 {
        // lists whose handling goes through hash tables
        let mut n = 0;
        while cmd[0] != ["-m", "-s"][i as usize % 2] || (cmd.len() < 6 && n < 200) { cmd = good_cmd(r); n += 1; }
    }
    if r.chance(1, 10) { let k = r.usize(cmd.len()); cmd[k] = mutate(&cmd[k].clone(), r); cmd[k].retain(|ch| ch != '\0'); }
    if !tame(&cmd) { return Ok(()); }
    c.note(show_cmd(&cmd));
    let first = c.x.run(&cmd, false)?;
    if !matches!(first.code, Code::Exit(0 | 1)) { return bad(format!("{} ends with {:?}", show_cmd(&cmd), first.code)); }
    let runs = if c.x.log.is_some() { 40 } else if cmd[0] == "-m" || cmd[0] == "-s" { 10 } else { 5 };
    for k in 0..runs {
        let path = match &c.x.paths.release { Some(p) if k % 3 == 2 => p.clone(), _ => c.x.paths.plain.clone() };
        let mut s = Spawn::new(&path, &cmd);
        let mut env: Vec<(&str, &str)> = Vec::new();
        for (name, values) in [
            ("LANG", &["C", "de_AT.UTF-8", "tr_TR.UTF-8", "ar_EG.UTF-8", "ja_JP.EUC-JP"][..]), ("LC_ALL", &["C", "de_AT", "tr_TR.UTF-8", "POSIX", "hi_IN"]),
            ("LC_NUMERIC", &["de_DE.UTF-8", "fr_FR"]), ("TZ", &["UTC", "Asia/Kathmandu", "Nowhere/Else"]), ("TERM", &["dumb", "xterm-256color", "vt100", ""]),
            ("COLUMNS", &["20", "1000", "x"]), ("LINES", &["1"]), ("HOME", &["/", "/nonexistent"]), ("PATH", &["", "/bin"]), ("USER", &["root", "x"]),
            ("RUST_BACKTRACE", &["0", "1", "full"]), ("RUST_LOG", &["trace"]), ("POSIXLY_CORRECT", &["1"]), ("DEBUG", &["1"]), ("RUST_MIN_STACK", &["1000000"]),
            ("IPCALC", &["x"]), ("RIPCALC", &["x"]), ("RANDOM_SEED", &["1"]), ("COLORTERM", &["truecolor"]), ("LANGUAGE", &["de"]), ("MALLOC_PERTURB_", &["85", "170"]),
        ] {
            if k > 0 && r.chance(1, 2) { env.push((name, *r.pick(values))); }
        }
        // variables that the program was seen to look up (those that choose colours aside)
        let names = crate::exec::lookups();
        for n in &names {
            if k > 0 && !env.iter().any(|e| e.0 == n) && !is_colour(n) && r.chance(1, 2) {
                env.push((n, *r.pick(&["1", "0", "", "yes", "true", "always", "on", "x", "/", "de_AT.UTF-8", "2", "10.0.0.0/8", "42", "off", "never"])));
            }
        }
        s.env = env.iter().map(|(a, b)| (a.to_string(), b.into())).collect();
        let record = format!("{}/lookups", c.dir);
        let shim = c.x.paths.shim.clone();
        let mut faked = String::new();
        if k == 0 {
            if s.with_shim(&shim, &[("RV_LOG", record.clone())]) { c.count("runs whose look-ups were recorded"); }
        } else if r.chance(1, 2) {
            // another time, process, user, host and randomness
            let vars = [("RV_TIME", (r.below(4_000_000_000) as i64 - 1_700_000_000).to_string()), ("RV_WHO", (r.below(1 << 40) + 1).to_string())];
            if s.with_shim(&shim, &vars) { c.count("runs at another time, by another user and process"); faked = format!(", pretended {:?}", vars); }
        }
        let dir = c.dir.clone();
        s.cwd = match r.below(3) { 0 => Some("/"), 1 => Some("/usr"), _ => Some(&dir) };
        if k > 0 {
            if r.chance(1, 3) { s.arg0 = Some(r.pick(&["ripcalc", "", "/usr/bin/ipcalc", "-m", "-e", "minimize", "ripcalc6", "a b", "sipcalc"]).into()); }
            if r.chance(1, 4) { s.umask = Some(*r.pick(&[0, 0o77, 0o777])); }
            if r.chance(1, 4) { s.nofile = Some(*r.pick(&[16, 64, 4096])); }
            if r.chance(1, 4) { s.address_space = 256 << 20; }
            if r.chance(1, 3) {
                let path = format!("{}/input", c.dir);
                let _ = std::fs::write(&path, "10.0.0.0/8\n10.0.0.1/32\n".repeat(r.usize(40)));
                s.stdin = File::open(&path).ok();
            }
        }
        let o = s.run()?;
        if k == 0 { crate::exec::learn_lookups(&record); }
        c.x.runs_plain += 1;
        c.count(if path == c.x.paths.plain { "runs compared (debug build)" } else { "runs compared (release build)" });
        if o.code != first.code || o.out != first.out {
            return bad(format!("{} gives {:?} {:?}, and in another process ({}, environment {:?}{}) {:?} {:?}", show_cmd(&cmd), first.code, short(&first.text()), path, env, faked, o.code, short(&o.text())));
        }
    }
    Ok(())
}
