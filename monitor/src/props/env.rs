//! P30 to P32 and P34: colour decision and roles, no effects but output, reduced builds.

use std::fs::File;
use std::io::{Seek, Write};

use crate::exec::{bad, read_file, terminal, Code, Fail, Out, Spawn};
use crate::gen;
use crate::model::*;
use crate::props::args::{g_spec, mutate, Verdict};
use crate::props::display::{plain_of, styled, styled_lines};
use crate::props::sys::{good_cmd, tame};
use crate::rng::Rng;
use crate::show;
use crate::{args, show_cmd, short, Ctx, Prop};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P30", systematic: 360, plain_only: true, case: p30,
            rule: "A case runs one command line with a given kind of standard output (pipe, file, terminal of some size), standard input and standard error (terminals or not) and colour variables; the bytes have to be those of the forced or those of the uncoloured run, as the decision table says. Every combination of the variables' values and stream kinds comes first. Distinct by command line and setting." },
        Prop { id: "P31", systematic: 200, plain_only: false, case: p31,
            rule: "A case is a command line of any mode run in colour; every printed character that is not blank is given the role it has (label, separator, value, mask digit, network digit, host digit, class digit, class, title, list) by the reference model, and its style has to be that role's. Distinct by command line." },
        Prop { id: "P32", systematic: 40, plain_only: true, case: p32,
            rule: "A case runs one command line (good, malformed or arbitrary) under a system-call trace, in a directory of decoy files, with data on standard input; calls that touch anything but the program's own output, changes to the directory and consumed input are violations. Distinct by command line." },
        Prop { id: "P34", systematic: 60, plain_only: true, case: p34,
            rule: "A case runs one command line in the full build and in the builds without console, without num-bigint and without both, with and without forced colour, and compares bytes and status up to what the missing feature provides. Distinct by command line." },
    ]
}

fn spawn<'a>(path: &'a str, cmd: &[String], env: &[(&str, &str)]) -> Spawn<'a> {
    let mut s = Spawn::new(path, cmd);
    s.env = env.iter().map(|(a, b)| (a.to_string(), b.into())).collect();
    s
}

fn record(c: &mut Ctx, cmd: &[String], o: &Out) {
    c.x.runs_plain += 1;
    if let Some(l) = c.x.log.as_mut() { l.push((cmd.to_vec(), false, Some(o.clone()))); }
}

/// A command line that displays networks (or colours).
fn display_cmd(r: &mut Rng) -> Vec<String> {
    loop {
        let cmd = good_cmd(r);
        match cmd[0].as_str() {
            "-m" | "-d" | "--derange" | "-e" => {},
            _ => return cmd,
        }
    }
}

// ----- P30 -----

fn p30(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let display = i < 360 || r.chance(4, 5);
    let cmd = if i < 360 && i % 3 == 0 { args(&["192.168.2.4/24"]) } else if display { display_cmd(r) } else {
        let mut cmd = good_cmd(r);
        if r.chance(1, 6) { let k = r.usize(cmd.len()); cmd[k] = mutate(&cmd[k].clone(), r); cmd[k].retain(|ch| ch != '\0'); }
        cmd
    };
    if !tame(&cmd) { return Ok(()); }
    // the setting
    let mut k = if i < 360 { i } else { r.u64() >> 1 };
    let mut take = |n: u64| { let v = k % n; k /= n; v as usize };
    let out_kind = take(3); // pipe, file, terminal
    let force = [None, Some("0"), Some("1"), Some("yes")][if i < 360 { take(2) } else { take(4) }];
    let term = [Some("xterm-256color"), Some("dumb"), None, Some("vt100"), Some("linux")][if i < 360 { take(3) } else { take(5) }];
    let clicolor = [None, Some("0"), Some("1"), Some("auto")][if i < 360 { take(2) } else { take(4) }];
    let no_color = [None, Some("1"), Some("yes")][if i < 360 { take(2) } else { take(3) }];
    let others = take(if i < 360 { 5 } else { 4 }); // terminals as standard input or error
    let force = if i < 360 && others == 4 { Some("1") } else { force };
    let mut env: Vec<(&str, &str)> = Vec::new();
    for (n, v) in [("CLICOLOR_FORCE", force), ("TERM", term), ("CLICOLOR", clicolor), ("NO_COLOR", no_color)] { if let Some(v) = v { env.push((n, v)); } }
    if r.chance(1, 4) { env.push(("COLORTERM", "truecolor")); }
    if r.chance(1, 4) { env.push(("FORCE_COLOR", *r.pick(&["0", "1", "3"]))); }
    if r.chance(1, 4) { env.push(("CI", "true")); }
    if r.chance(1, 4) { env.push(("COLUMNS", *r.pick(&["5", "40", "200"]))); }
    let names = crate::exec::lookups();
    for n in &names {
        if !crate::props::sys::is_colour(n) && !env.iter().any(|e| e.0 == n) && r.chance(1, 3) { env.push((n, *r.pick(&["1", "0", "", "yes", "always", "never", "x"]))); }
    }
    let forced = matches!(force, Some(v) if v != "0");
    let want = forced || out_kind == 2 && no_color.is_none() && matches!(term, Some(t) if t != "dumb") && clicolor != Some("0");

    let path = c.x.paths.plain.clone();
    let plain = spawn(&path, &cmd, &[]).run()?;
    record(c, &cmd, &plain);
    let color = spawn(&path, &cmd, &[("CLICOLOR_FORCE", "1")]).run()?;
    record(c, &cmd, &color);
    if plain.out.len() > 300_000 { return Ok(()); }
    if color.code != plain.code { return bad(format!("{}: status {:?} becomes {:?} with forced colour", show_cmd(&cmd), plain.code, color.code)); }
    match styled(&color.text()) {
        Ok(s) => if plain_of(&s) != plain.text() { return bad(format!("{}: forced colour changes the text to {:?}", show_cmd(&cmd), short(&plain_of(&s)))); },
        Err(e) => return bad(format!("{}: forced colour: {}", show_cmd(&cmd), e)),
    }
    if plain.out.contains(&0x1b) { return bad(format!("{}: escapes without any reason", show_cmd(&cmd))); }
    let displays = color.code == Code::Exit(0) && !matches!(cmd[0].as_str(), "-m" | "--minimize" | "-d" | "--derange" | "-e" | "--enumerate") && !color.out.is_empty();
    if displays && color.out == plain.out { return bad(format!("{}: no colour although it is forced", show_cmd(&cmd))); }

    let unsure = |e: &str| Fail::Unsure(e.to_owned());
    let mut s = spawn(&path, &cmd, &env);
    let file = format!("{}/out", c.dir);
    let size = (*r.pick(&[1u16, 24, 50]), *r.pick(&[1u16, 20, 80, 132, 500]));
    let mut keep: Vec<File> = Vec::new();
    match out_kind {
        1 => s.stdout = Some(File::create(&file).map_err(|_| unsure("file"))?),
        2 => match terminal(size.0, size.1) {
            Some((m, sl)) => { s.stdout = Some(sl); s.reader = Some(m); },
            None => { c.count("no terminals available"); return Ok(()); },
        },
        _ => {},
    }
    for what in [1, 2] {
        if others & what != 0 && others < 4 {
            if let Some((m, sl)) = terminal(24, 80) {
                keep.push(m);
                if what == 1 { s.stdin = Some(sl); } else { s.stderr = Some(sl); }
            }
        }
    }
    let record_of_lookups = format!("{}/lookups", c.dir);
    let shim = c.x.paths.shim.clone();
    if r.chance(1, 8) && s.with_shim(&shim, &[("RV_LOG", record_of_lookups.clone())]) { c.count("runs whose look-ups were recorded"); }
    let mut o = s.run()?;
    crate::exec::learn_lookups(&record_of_lookups);
    drop(keep);
    if out_kind == 1 { o.out = read_file(&file); let _ = std::fs::remove_file(&file); }
    record(c, &cmd, &o);
    let setting = format!("stdout {}, stdin {}, stderr {}, {:?}", ["pipe", "file", "terminal"][out_kind], ["other", "terminal"][others & 1], ["other", "terminal"][others >> 1 & 1], env);
    c.note(format!("{} with {}", show_cmd(&cmd), setting));
    c.count(format!("stdout {}: {}", ["pipe", "file", "terminal"][out_kind], if want { "colour" } else { "no colour" }));
    if o.code != plain.code { return bad(format!("{} with {} ends with {:?} instead of {:?}", show_cmd(&cmd), setting, o.code, plain.code)); }
    let expect = if want { &color.out } else { &plain.out };
    if o.out != *expect {
        return bad(format!("{} with {} should be {}, but prints {:?}", show_cmd(&cmd), setting, if want { "in colour" } else { "without colour" }, short(&o.text())));
    }
    Ok(())
}

// ----- P31 -----

/// The colour (0 to 15) that a style sets.
fn color_of(style: &str) -> Option<u32> {
    let v: Vec<&str> = style.split(';').collect();
    match v[..] {
        [x] => match x.parse::<u32>().ok()? { n @ 30..=37 => Some(n - 30), n @ 90..=97 => Some(n - 82), _ => None },
        ["38", "5", x] => x.parse().ok().filter(|n| *n < 16),
        _ => None,
    }
}

const WHITE: u32 = 15;
const BLUE: u32 = 12;
const RED: u32 = 9;
const GREEN: u32 = 10;
const YELLOW: u32 = 11;
const MAGENTA: u32 = 13;

/// The colour that each character of a line has to have. `net`: the network the block is about.
fn roles(f: Fam, text: &str, net: &Net) -> Vec<Option<u32>> {
    let n = text.chars().count();
    let row = show::row(f, text);
    match row.label.trim_end() {
        "=>" | "no hosts" | "no broadcast" | "no hosts/net" => return vec![Some(WHITE); n],
        "Address" | "Netmask" | "Wildcard" | "Network" | "HostMin" | "HostMax" | "Broadcast" | "Hosts/Net" => {},
        _ => return vec![None; n],
    }
    let bits_at = row.bits.as_ref().map(|b| n - b.chars().count()).unwrap_or(n);
    let decide = if row.label == "Network" && net.host_bits() < 128 { class(net).map(|c| c.1).unwrap_or(0) } else { 0 };
    let class_at = if row.label == "Hosts/Net" { row.value.split_once(' ').map(|(num, _)| row.value_col + num.len()).unwrap_or(n) } else { n };
    let mut digit = 0;
    text.chars().enumerate().map(|(k, ch)| {
        if k < row.value_col { return Some(WHITE); }
        if k >= class_at { return Some(MAGENTA); }
        if k < bits_at { return Some(BLUE); }
        if ch != '0' && ch != '1' { return Some(WHITE); }
        digit += 1;
        Some(match row.label.as_str() {
            "Netmask" => RED,
            "Address" | "Network" => if digit <= decide { MAGENTA } else if net.mask >> (f.w() - digit) & 1 == 1 { GREEN } else { YELLOW },
            _ => YELLOW,
        })
    }).collect()
}

const NAMES: [(&str, u32); 16] = [
    ("Black", 0), ("DarkBlue", 4), ("DarkGreen", 2), ("DarkCyan", 6), ("DarkRed", 1), ("DarkMagenta", 5), ("DarkYellow", 3), ("Gray", 7),
    ("DarkGray", 8), ("Blue", 12), ("Green", 10), ("Cyan", 14), ("Red", 9), ("Magenta", 13), ("Yellow", 11), ("White", 15),
];

fn p31(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let f = if i < 100 || r.chance(1, 2) { V4 } else { V6 };
    let m = if i < 100 { ((i % 16) as u128) << 28 | (r.u128() & 0x0FFF_FFFF) } else { gen::any_mask(f, r) };
    let n = Net::new(f, gen::addr(f, r), m);
    let kind = if i == 0 { 9 } else { r.below(9) };
    // the networks that blocks are about, as far as the command line says
    let mut nets: Vec<Net> = Vec::new();
    let mut mask_after = None;
    let cmd = match kind {
        0 | 1 | 2 => {
            nets.push(n);
            let mut cmd = vec![gen::spell_net(&n, r)];
            for _ in 0..r.below(3) {
                let g = if r.chance(1, 2) { f } else { f.other() };
                let m = gen::any_mask(g, r);
                let n = Net::new(g, gen::addr(g, r), m);
                nets.push(n);
                cmd.push(gen::spell_net(&n, r));
            }
            cmd
        },
        3 | 4 => {
            nets.push(n);
            let h = r.u32r(n.host_bits().saturating_sub(4), f.w());
            let m2 = if h == 0 || h == f.w() || r.chance(1, 2) { f.pmask(f.w() - h) } else { gen::hosts_at(f, h, r) };
            mask_after = Some(m2);
            args(&["-r", &gen::spell_net(&n, r), &gen::spell_mask_arg(f, m2, r)])
        },
        5 | 6 => {
            let n = gen::cidr_p(f, r.u32r(0, f.w()), r);
            nets.push(n);
            let mut cmd = args(&["-s", &n.text()]);
            for _ in 0..r.u32r(1, 5) { let s = r.u32r(0, n.host_bits().min(60)); cmd.push(r.below((1 << s) + 1).to_string()); }
            cmd
        },
        9 => args(&["--color-test"]),
        _ => loop { let cmd = good_cmd(r); if matches!(cmd[0].as_str(), "-m" | "-d" | "--derange" | "-e") { break cmd; } },
    };
    c.note(show_cmd(&cmd));
    let o = c.x.run(&cmd, true)?;
    if !matches!(o.code, Code::Exit(0 | 1)) { return bad(format!("{} ends with {:?}", show_cmd(&cmd), o.code)); }
    let chars = match styled(&o.text()) { Ok(s) => s, Err(e) => return bad(format!("{} in colour: {}", show_cmd(&cmd), e)) };
    if cmd[0] == "--color-test" {
        let text = plain_of(&chars);
        let want: String = NAMES.iter().map(|(n, _)| format!("{:20}", n)).collect::<String>() + "\n";
        if text != want { return bad(format!("the colour test prints {:?}", text)); }
        for (k, (name, color)) in NAMES.iter().enumerate() {
            for j in 0..name.len() {
                let st = &chars[20 * k + j].1;
                if color_of(st) != Some(*color) { return bad(format!("the colour test shows {} in style {:?}, not in colour {}", name, st, color)); }
            }
        }
        c.count("colour tests");
        return Ok(());
    }
    let list = kind > 6 && kind < 9;
    let mut block = 0;
    let mut cur = nets.first().copied().unwrap_or(n);
    let lines = styled_lines(chars);
    for (at, l) in lines.iter().enumerate() {
        let text = plain_of(l);
        if text.is_empty() { continue; }
        // a new block: its first row, or the title before it
        let first_row = at == 0 || lines[at - 1].is_empty() || !matches!(kind, 0 | 1 | 2) && plain_of(&lines[at - 1]).ends_with(':');
        if first_row && !list && !text.ends_with(':') {
            let k = block;
            block += 1;
            cur = match kind {
                0 | 1 | 2 => match nets.get(k) { Some(n) => *n, None => return bad(format!("{}: more blocks than networks", show_cmd(&cmd))) },
                _ => {
                    let row = show::row(f, &text);
                    let v = row.value.split('/').next().unwrap_or("");
                    match (row.label.as_str(), parse_addr(f, v)) {
                        ("Network", Some(base)) => match (k, mask_after, parse_net(f, &row.value)) {
                            (0, _, _) => nets[0],
                            (_, Some(m), _) => Net::new(f, base, m),
                            (_, None, Some(n)) => n,
                            _ => return bad(format!("{}: row {:?}", show_cmd(&cmd), text)),
                        },
                        // the list of unused networks
                        _ => cur,
                    }
                },
            };
        }
        let want = if list { vec![None; l.len()] } else { roles(cur.f, &text, &cur) };
        for (k, (ch, style)) in l.iter().enumerate() {
            if ch.is_whitespace() { continue; }
            let got = if style.is_empty() { None } else { Some(color_of(style)) };
            if got != want[k].map(Some) {
                return bad(format!("{}: character {} ({:?}) of {:?} has style {:?}, expected {:?}", show_cmd(&cmd), k + 1, ch, text, style, want[k]));
            }
        }
        c.add("characters whose colour was checked", l.len() as u64);
        c.count(format!("lines: {}", if list { "list" } else { show::row(cur.f, &text).label.split(' ').next().map(|s| if s.bytes().all(|b| b.is_ascii_alphabetic() || b == b'/' || b == b'=' || b == b'>') { s.to_owned() } else { "other".to_owned() }).unwrap_or_default().leak() }));
    }
    Ok(())
}

// ----- P32 -----

fn decoys(dir: &str) -> Option<()> {
    std::fs::create_dir_all(format!("{}/.config/ripcalc", dir)).ok()?;
    for (name, text) in [
        ("ripcalc.conf", "-m\n"), (".ripcalcrc", "color = always\n"), (".config/ripcalc/config.toml", "x = 1\n"), ("nets.txt", "10.0.0.0/8\n10.0.0.0/8\n"),
        ("10.0.0.0", "x"), ("24", "x"), ("-m", "x"), ("-e", "10.0.0.0/30\n"), ("::", "x"), ("out", ""), ("core", ""), ("hosts", "127.0.0.1 localhost\n"),
    ] {
        std::fs::write(format!("{}/{}", dir, name), text).ok()?;
    }
    Some(())
}

/// Everything below a directory: path, kind, contents, modification time.
fn snapshot(dir: &std::path::Path, into: &mut Vec<String>) {
    let mut names: Vec<_> = match std::fs::read_dir(dir) { Ok(d) => d.flatten().map(|e| e.path()).collect(), Err(_) => return };
    names.sort();
    for p in names {
        let m = match std::fs::symlink_metadata(&p) { Ok(m) => m, Err(_) => continue };
        use std::os::unix::fs::MetadataExt;
        into.push(format!("{:?} {:o} {} {}.{} {:?}", p, m.mode(), m.len(), m.mtime(), m.mtime_nsec(), if m.is_file() { read_file(&p.to_string_lossy()) } else { Vec::new() }));
        if m.is_dir() { snapshot(&p, into); }
    }
}

/// What is wrong with a traced system call, if anything.
fn forbidden(line: &str, execs: &mut u32, dir: &str) -> Option<&'static str> {
    // "1234 name(arguments) = result", possibly split by other threads
    let rest = line.trim_start_matches(|ch: char| ch.is_ascii_digit()).trim_start();
    let (name, rest) = rest.split_once('(')?;
    if !name.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') { return None; }
    match name {
        "execve" | "execveat" => { *execs += 1; if *execs > 1 { return Some("starts a program"); } },
        "fork" | "vfork" => return Some("starts a process"),
        "clone" | "clone3" => if !rest.contains("CLONE_THREAD") { return Some("starts a process"); },
        "open" | "openat" | "openat2" | "creat" => {
            let p = rest.split('"').nth(1).unwrap_or("");
            let writes = name == "creat" || ["O_WRONLY", "O_RDWR", "O_CREAT", "O_TRUNC", "O_APPEND", "O_TMPFILE"].iter().any(|x| rest.contains(x));
            if writes && p != "/dev/null" { return Some("opens a file for writing"); }
            if p.starts_with(dir) || !p.starts_with('/') { return Some("reads a file of the user"); }
        },
        "unlink" | "unlinkat" | "rename" | "renameat" | "renameat2" | "mkdir" | "mkdirat" | "rmdir" | "link" | "linkat" | "symlink" | "symlinkat" | "truncate" | "ftruncate"
        | "chmod" | "fchmod" | "fchmodat" | "chown" | "fchown" | "lchown" | "fchownat" | "mknod" | "mknodat" | "utimensat" | "utime" | "utimes" | "setxattr" | "fsetxattr" | "removexattr"
        | "mount" | "umount2" | "chroot" | "pivot_root" | "swapon" | "sethostname" | "fallocate" | "copy_file_range" => return Some("changes the file system"),
        "socket" | "socketpair" | "connect" | "bind" | "listen" | "accept" | "accept4" | "sendto" | "sendmsg" | "recvfrom" => return Some("uses the network"),
        "kill" | "ptrace" | "process_vm_readv" | "process_vm_writev" | "pidfd_send_signal" => return Some("touches a process"),
        "read" | "readv" | "pread64" | "preadv" | "recv" => if rest.starts_with("0,") { return Some("reads standard input"); },
        "write" | "writev" | "pwrite64" | "pwritev" => if !rest.starts_with("1,") && !rest.starts_with("2,") && !rest.starts_with("1<") { return Some("writes to something that is not an output stream"); },
        _ => {},
    }
    None
}

fn strace() -> Option<&'static str> { ["/usr/bin/strace", "/bin/strace", "/usr/local/bin/strace"].into_iter().find(|p| std::path::Path::new(p).exists()) }

fn p32(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let mut cmd = match i {
        0 => args(&["--help"]),
        1 => args(&["--color-test"]),
        2 => Vec::new(),
        3 => args(&["-e", "10.0.0.0/28", "@nets.txt", "10.0.0.0/30"]),
        4 => args(&["nets.txt"]),
        5 => args(&["-m", "@nets.txt"]),
        6 => args(&["-"]),
        7 => args(&["-m", "-"]),
        8 => args(&["-e", "-"]),
        9 => args(&["-m"]),
        _ => good_cmd(r),
    };
    if i >= 10 {
        if r.chance(1, 4) { let k = r.usize(cmd.len()); cmd[k] = if r.chance(1, 2) { mutate(&cmd[k].clone(), r) } else { r.pick(&["-", "@nets.txt", "nets.txt", "/etc/hosts", "localhost/8", "dns.example/24", "./10.0.0.0/24", "24", "$HOME", "~"]).to_string() }; }
        cmd.iter_mut().for_each(|a| a.retain(|ch| ch != '\0'));
    }
    if !tame(&cmd) { return Ok(()); }
    c.note(show_cmd(&cmd));
    let full = format!("{}/home", c.dir);
    let unsure = |e: &str| Fail::Unsure(e.to_owned());
    if !std::path::Path::new(&full).exists() { decoys(&full).ok_or_else(|| unsure("decoys"))?; }
    let input = format!("{}/input", c.dir);
    let trace = format!("{}/trace", c.dir);
    File::create(&input).and_then(|mut f| f.write_all(b"10.0.0.0/30\n-m\n".repeat(50).as_slice())).map_err(|_| unsure("input"))?;
    let mut stdin = File::open(&input).map_err(|_| unsure("input"))?;
    let mut before = Vec::new();
    snapshot(std::path::Path::new(&full), &mut before);

    let plain = c.x.run(&cmd, false)?;
    let path = c.x.paths.plain.clone();
    let home = full.clone();
    let env = [("HOME", home.as_str()), ("XDG_CONFIG_HOME", home.as_str()), ("TMPDIR", home.as_str()), ("RUST_BACKTRACE", "0"), ("PATH", "/usr/bin:/bin")];
    let traced = i % 2 == 0 && strace().is_some();
    let mut s = if traced {
        let mut a = args(&["-f", "-qq", "-s", "4096", "-o", &trace, "--", &path]);
        a.extend(cmd.iter().cloned());
        spawn(strace().unwrap(), &a, &env)
    } else {
        spawn(&path, &cmd, &env)
    };
    s.cwd = Some(&full);
    s.stdin = Some(stdin.try_clone().map_err(|_| unsure("input"))?);
    let o = s.run()?;
    record(c, &cmd, &o);
    let mut after = Vec::new();
    snapshot(std::path::Path::new(&full), &mut after);
    if before != after {
        let diff: Vec<&String> = after.iter().filter(|l| !before.contains(l)).chain(before.iter().filter(|l| !after.contains(l))).collect();
        let text = format!("{:?}", diff);
        let _ = std::fs::remove_dir_all(&full);
        return bad(format!("{} changes the working directory: {}", show_cmd(&cmd), short(&text)));
    }
    c.count("directories compared");
    let pos = stdin.stream_position().map_err(|_| unsure("input"))?;
    if pos != 0 { return bad(format!("{} consumes {} bytes of standard input", show_cmd(&cmd), pos)); }
    if traced {
        let text = String::from_utf8_lossy(&read_file(&trace)).into_owned();
        let _ = std::fs::remove_file(&trace);
        if !text.contains("execve(") {
            // tracing is not possible here
            c.count("traces that could not be taken");
            return Ok(());
        }
        let mut execs = 0;
        for l in text.lines() {
            if let Some(what) = forbidden(l, &mut execs, &full) { return bad(format!("{} {}: {}", show_cmd(&cmd), what, short(l))); }
            c.count("system calls judged");
        }
    }
    if o.code != plain.code || o.out != plain.out || o.err != plain.err {
        return bad(format!("{} gives {:?} {:?} {:?} alone, but with input and files around {:?} {:?} {:?}", show_cmd(&cmd), plain.code, short(&plain.text()), short(&plain.err_text()), o.code, short(&o.text()), short(&o.err_text())));
    }
    Ok(())
}

// ----- P34 -----

/// The output without the rows that only arbitrary-precision numbers provide.
fn without_counts(out: &[u8]) -> Vec<u8> {
    let mut r = Vec::new();
    for l in out.split_inclusive(|b| *b == b'\n') {
        let text = styled(&String::from_utf8_lossy(l)).map(|s| plain_of(&s)).unwrap_or_default();
        if text.starts_with("Hosts/Net:") || text.trim_end() == "no hosts/net" { continue; }
        r.extend_from_slice(l);
    }
    r
}

fn p34(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    if let Some((name, log)) = c.x.paths.unbuilt.first() {
        let errors: Vec<&str> = log.lines().filter(|l| l.starts_with("error") || l.trim_start().starts_with("--> src")).collect();
        return bad(format!("the program cannot be built as {}: {}", name, errors.join("; ")));
    }
    let reduced = c.x.paths.reduced.clone();
    let mut cmd = match i {
        0 => args(&["--help"]),
        1 => args(&["--color-test"]),
        2 => Vec::new(),
        3 => args(&["-s", "10.0.0.0/24", "3"]),
        4 => args(&["--split", "10.0.0.0/24", "3"]),
        5 => args(&["10.0.0.0/32", "::/0", "::1/128", "10.0.0.0/31"]),
        6 => args(&["-s"]),
        _ => good_cmd(r),
    };
    if i > 6 && r.chance(1, 8) { let k = r.usize(cmd.len()); cmd[k] = mutate(&cmd[k].clone(), r); cmd[k].retain(|ch| ch != '\0'); }
    if !tame(&cmd) { return Ok(()); }
    c.note(show_cmd(&cmd));
    if reduced.is_empty() { c.count("no reduced build available"); return Ok(()); }
    let split = matches!(cmd.first().map(|s| s.as_str()), Some("-s" | "--split"));
    for forced in [false, true] {
        let full = c.x.run(&cmd, forced)?;
        let bare = c.x.run(&cmd, false)?;
        for (name, path) in &reduced {
            let console = name == "only-console";
            let bigint = name == "only-num-bigint";
            let o = spawn(path, &cmd, if forced { &[("CLICOLOR_FORCE", "1")] } else { &[] }).run()?;
            record(c, &cmd, &o);
            c.count(format!("runs of build {} compared", name));
            let like = if console { &full } else { &bare };
            if split && !bigint {
                // not a mode, so it has to be refused like any other word that is no network
                if o.code != Code::Exit(1) || !o.out.is_empty() || o.err.is_empty() {
                    return bad(format!("{} in build {} (which cannot split) gives {:?} {:?} {:?}", show_cmd(&cmd), name, o.code, short(&o.text()), short(&o.err_text())));
                }
                continue;
            }
            let want = if bigint { like.out.clone() } else { without_counts(&like.out) };
            if o.code != like.code || o.out != want {
                return bad(format!("{}{} in build {} gives {:?} {:?}, expected {:?} {:?}", if forced { "CLICOLOR_FORCE=1 " } else { "" }, show_cmd(&cmd), name, o.code, short(&o.text()), like.code, short(&String::from_utf8_lossy(&want))));
            }
            let usage = |e: &Out| e.err_text().lines().filter(|l| bigint || !l.contains("--split")).map(|l| l.to_owned()).collect::<Vec<_>>();
            if usage(&o) != usage(like) || !bigint && o.err_text().contains("--split") {
                return bad(format!("{} in build {} says {:?}, the full build {:?}", show_cmd(&cmd), name, short(&o.err_text()), short(&like.err_text())));
            }
            // a specification that is accepted is accepted everywhere
            if let (Some(s), true) = (cmd.first(), cmd.len() == 1) { if matches!(g_spec(s), Verdict::Good(_)) && o.code != Code::Exit(0) { return bad(format!("{} fails in build {}", show_cmd(&cmd), name)); } }
        }
    }
    Ok(())
}
