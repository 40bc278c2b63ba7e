//! P37: no undefined behaviour, as seen by AddressSanitizer, MemorySanitizer, Miri and Valgrind.

use crate::exec::{bad, read_file, Code, Fail, Observer, Out, Spawn};
use crate::gen;
use crate::model::*;
use crate::props::args::{bad_addr, bad_spec};
use crate::props::sys::{good_cmd, small_net, tame, token};
use crate::rng::Rng;
use crate::{args, show_cmd, short, Ctx, Prop};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P37", systematic: 36, plain_only: false, case: p37,
            rule: "A case runs one command line in a build with AddressSanitizer and in one with MemorySanitizer, standard library included (or, every few hundred cases, under Miri or Valgrind) and in the ordinary build with std's checks of unchecked operations; neither may report anything, and both must print the same. Distinct by command line and observer." },
    ]
}

/// A command line that an interpreter gets through soon.
fn light_cmd(i: u64, r: &mut Rng) -> Vec<String> {
    let f = if r.chance(2, 3) { V4 } else { V6 };
    let spec = |r: &mut Rng| { let m = gen::any_mask(f, r); gen::spell(f, gen::addr(f, r), m, r) };
    match i % 12 {
        0 => vec![spec(r)],
        1 => { let (a, h) = (gen::addr(f, r), r.u32r(0, 4)); args(&["-d".to_owned(), addr_text(f, a & !f.ones(h) | (h > 1) as u128), addr_text(f, a | f.ones(h))]) },
        2 => { let a = gen::addr(f, r); args(&["-d".to_owned(), addr_text(f, a), addr_text(f, a ^ (r.u128() & f.ones(4)))]) },
        3 => { let mut v = args(&["-m"]); for _ in 0..r.u32r(1, 4) { v.push(small_net(f, 5, r).text()); } v },
        4 => {
            let h = r.u32r(3, 6);
            let mut v = args(&["-s".to_owned(), gen::cidr_p(f, f.w() - h, r).text()]);
            for _ in 0..r.u32r(1, 2) { let k = r.u32r(0, h - 1); v.push(r.upto(f.ones(k)).to_string()); }
            v
        },
        5 => {
            let n = Net::new(f, gen::addr(f, r), gen::any_mask(f, r));
            let h = r.u32r(n.host_bits().saturating_sub(1), f.w());
            args(&["-r".to_owned(), gen::spell_net(&n, r), gen::spell_mask_arg(f, if h == 0 || h == f.w() { f.pmask(f.w() - h) } else { gen::hosts_at(f, h, r) }, r)])
        },
        6 | 7 => args(&["-e".to_owned(), gen::spell_net(&small_net(f, 4, r), r)]),
        8 => vec![bad_spec(r)],
        9 if i < 36 || r.chance(3, 4) => match if i < 36 { i / 12 } else { r.below(5) } {
            0 | 1 => { let f = if i == 9 { V4 } else if i == 21 { V6 } else { f }; let bad = if i == 9 { "10.0.1".to_owned() } else { bad_addr(f, r) }; let mut v = [bad, addr_text(f, gen::addr(f, r))]; let k = r.usize(2); v.swap(0, k); args(&["-d", &v[0], &v[1]]) },
            2 => args(&["-r".to_owned(), spec(r), bad_addr(f, r)]),
            3 => args(&["-s".to_owned(), gen::cidr(f, r).text(), token(r)]),
            _ => vec![format!("{}/{}", gen::addr(f, r), bad_addr(f, r))],
        },
        9 => args(&[*r.pick(&["-m", "-e", "-d", "-s", "-r"]), &bad_spec(r), &token(r)]),
        10 => (0..r.u32r(1, 2)).map(|_| token(r)).collect(),
        _ => args(&[["--help", "-q", "--color-test", "-m"][(i / 12 % 4) as usize]]),
    }
}

/// What an observer has to say, if it is about undefined behaviour.
fn report(o: &Out) -> Option<String> {
    let e = o.err_text();
    let line = |m: &str| e.lines().find(|l| l.contains(m)).unwrap_or("").to_owned();
    if e.contains("ERROR: AddressSanitizer") {
        let l = line("ERROR: AddressSanitizer");
        // neither a deep stack nor a large allocation is undefined
        return if ["stack-overflow", "out of memory", "allocation-size", "rss-limit", "failed to allocate"].iter().any(|w| l.contains(w)) { None } else { Some(l) };
    }
    if e.contains("WARNING: MemorySanitizer") { return Some(line("WARNING: MemorySanitizer")); }
    for m in ["error: Undefined Behavior", "unsafe precondition(s) violated", "Data race detected"] { if e.contains(m) { return Some(line(m)); } }
    match o.code { Code::Signal(n) if [4, 7, 11].contains(&n) => Some(format!("signal {}", n)), _ => None }
}

fn same_end(a: &Out, b: &Out) -> bool { a.code == b.code && a.out == b.out && a.err == b.err }

fn p37(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let (miri, valgrind) = if i < 36 { (true, false) } else { (i % 300 == 7, i % 300 == 151) };
    if miri || valgrind {
        let cmd = light_cmd(if i < 36 { i } else { r.below(48) }, r);
        if !tame(&cmd) { c.count("left out as too large"); return Ok(()); }
        let color = miri && i == 12;
        let plain = c.x.run(&cmd, color)?;
        if !matches!(plain.code, Code::Exit(0 | 1)) || plain.out.len() > 3000 { c.count("left out as too large"); return Ok(()); }
        if miri {
            let o = match c.x.run_observed(&cmd, color, Observer::Miri)? { Some(o) => o, None => return Ok(()) };
            c.note(format!("{} under Miri", show_cmd(&cmd)));
            if let Some(m) = report(&o) { return bad(format!("{} under Miri: {}", show_cmd(&cmd), m)); }
            if !matches!(o.code, Code::Exit(0 | 1)) || o.err_text().contains("error: unsupported operation") || (o.err_text().contains("miri") && o.code != plain.code) {
                return Err(Fail::Unsure(format!("{} under Miri ends with {:?}, {:?}", show_cmd(&cmd), o.code, short(&o.err_text()))));
            }
            if !same_end(&plain, &o) { return bad(format!("{} prints something else under Miri: {:?} and {:?}", show_cmd(&cmd), short(&plain.text()), short(&o.text()))); }
            c.count("command lines interpreted by Miri");
            return Ok(());
        }
        let log = format!("{}/valgrind.log", c.dir);
        let _ = std::fs::remove_file(&log);
        let mut s = Spawn::new("/usr/bin/env", &[]);
        s.args = ["valgrind", "-q", "--error-exitcode=99", "--undef-value-errors=yes"].iter().map(|a| a.into()).collect();
        s.args.push(format!("--log-file={}", log).into());
        s.args.push(c.x.paths.release.as_ref().unwrap_or(&c.x.paths.plain).into());
        s.args.extend(cmd.iter().map(|a| a.into()));
        if let Some(p) = std::env::var_os("PATH") { s.env.push(("PATH".to_owned(), p)); }
        s.address_space = u64::MAX;
        s.cpu = 100;
        let o = s.run()?;
        let said = String::from_utf8_lossy(&read_file(&log)).into_owned();
        if o.code == Code::Exit(127) || o.code == Code::Exit(126) { c.count("no valgrind"); return Ok(()); }
        c.note(format!("{} under Valgrind", show_cmd(&cmd)));
        if o.code == Code::Exit(99) {
            if ["Invalid read", "Invalid write", "uninitialised", "Invalid free", "overlap"].iter().any(|w| said.contains(w)) {
                return bad(format!("{} under Valgrind: {}", show_cmd(&cmd), short(&said)));
            }
            return Err(Fail::Unsure(format!("{} under Valgrind: {}", show_cmd(&cmd), short(&said))));
        }
        if !same_end(&plain, &o) {
            if !matches!(o.code, Code::Exit(0 | 1)) { return Err(Fail::Unsure(format!("{} under Valgrind ends with {:?}", show_cmd(&cmd), o.code))); }
            return bad(format!("{} prints something else under Valgrind: {:?} and {:?}", show_cmd(&cmd), short(&plain.text()), short(&o.text())));
        }
        c.count("command lines observed by Valgrind");
        return Ok(());
    }

    let color = r.chance(1, 4);
    let cmd = match r.below(10) {
        0 => (0..r.u32r(1, 3)).map(|_| token(r)).collect(),
        1 => { let mut v = good_cmd(r); let k = r.usize(v.len()); v[k] = if r.chance(1, 2) { bad_spec(r) } else { token(r) }; v },
        2 => light_cmd(r.below(12), r),
        3 => { let f = gen::fam(r); let mut v = args(&["-m"]); for _ in 0..r.u32r(20, 70) { v.push(small_net(f, 8, r).text()); } v },
        4 => (0..r.u32r(10, 60)).map(|_| { let f = gen::fam(r); let m = gen::any_mask(f, r); gen::spell(f, gen::addr(f, r), m, r) }).collect(),
        _ => good_cmd(r),
    };
    if !tame(&cmd) || cmd.iter().any(|a| a.contains('\0')) { c.count("left out as too large"); return Ok(()); }
    let plain = c.x.run(&cmd, color)?;
    if let Some(m) = report(&plain) { return bad(format!("{}: {}", show_cmd(&cmd), m)); }
    if !matches!(plain.code, Code::Exit(0 | 1)) { c.count("other ends, not judged here"); return Ok(()); }
    let o = match c.x.run_observed(&cmd, color, Observer::Asan)? { Some(o) => o, None => { c.count("no AddressSanitizer"); return Ok(()); } };
    c.note(show_cmd(&cmd));
    if let Some(m) = report(&o) { return bad(format!("{} with AddressSanitizer: {}", show_cmd(&cmd), m)); }
    if !matches!(o.code, Code::Exit(0 | 1)) { return Err(Fail::Unsure(format!("{} with AddressSanitizer ends with {:?}", show_cmd(&cmd), o.code))); }
    if !same_end(&plain, &o) {
        return bad(format!("{} prints something else with AddressSanitizer: {:?} {:?} and {:?} {:?}", show_cmd(&cmd), short(&plain.text()), short(&plain.err_text()), short(&o.text()), short(&o.err_text())));
    }
    c.count("command lines run with AddressSanitizer");
    if let Some(o) = c.x.run_observed(&cmd, color, Observer::Msan)? {
        if let Some(m) = report(&o) { return bad(format!("{} with MemorySanitizer: {}", show_cmd(&cmd), m)); }
        if o.err_text().contains("FATAL: MemorySanitizer") { c.count("MemorySanitizer does not work here"); return Ok(()); }
        if !matches!(o.code, Code::Exit(0 | 1)) { return Err(Fail::Unsure(format!("{} with MemorySanitizer ends with {:?}", show_cmd(&cmd), o.code))); }
        if !same_end(&plain, &o) {
            return bad(format!("{} prints something else with MemorySanitizer: {:?} {:?} and {:?} {:?}", show_cmd(&cmd), short(&plain.text()), short(&plain.err_text()), short(&o.text()), short(&o.err_text())));
        }
        c.count("command lines run with MemorySanitizer");
    }
    c.add("bytes of output compared", o.out.len() as u64);
    Ok(())
}
