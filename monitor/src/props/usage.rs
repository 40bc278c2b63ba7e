//! P36: the usage text tells the truth about the options and forms of command lines.

use crate::exec::{bad, Code, Fail};
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::{args, show_cmd, short, Ctx, Prop};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P36", systematic: 401, plain_only: false, case: p36,
            rule: "A case reads the usage text and either builds a command line after one of its forms, with random values for its words and repetitions where it has dots, which must be accepted; or leaves out or adds words, which must print the usage text again; or gives an option that the usage text does not name (all single letters and digits come first), which must be refused. Distinct by command line." },
    ]
}

/// A line of the usage text: the names of the option (none: the default mode) and the words after it.
struct Form { names: Vec<String>, words: Vec<String> }

fn forms(text: &str) -> Vec<Form> {
    let mut v = Vec::new();
    for l in text.lines() {
        let l = l.trim_start().trim_start_matches("Usage:").trim();
        let mut t = l.split_whitespace();
        if t.next() != Some("ripcalc") { continue; }
        let mut words: Vec<String> = t.map(|s| s.to_owned()).collect();
        let names = if words.first().map(|w| w.starts_with('-')).unwrap_or(false) { words.remove(0).split('|').map(|s| s.to_owned()).collect() } else { Vec::new() };
        v.push(Form { names, words });
    }
    v
}

/// The words given for SUBNET.
fn notations(text: &str) -> Vec<String> {
    let mut v = Vec::new();
    let mut on = false;
    for l in text.lines() {
        if let Some(p) = l.find("one of:") { on = l.trim_start().starts_with("SUBNET"); if on { v.extend(l[p + 7..].split_whitespace().map(|s| s.to_owned())); } }
        else if l.trim().is_empty() { on = false; }
        else if on { v.extend(l.split_whitespace().map(|s| s.to_owned())); }
    }
    v
}

const MODES: [(&str, &str); 5] = [("-m", "--minimize"), ("-d", "--derange"), ("-s", "--split"), ("-r", "--resize"), ("-e", "--enumerate")];

/// The mask in one of the notations that the usage text lists, if it is expressible in it.
fn subnet(f: Fam, mask: u128, how: &str) -> Option<String> {
    Some(match how {
        "SUBNETMASK" => addr_text(f, mask),
        "CIDRPREFIX" => contig(f, mask)?.to_string(),
        "-WILDCARD" => format!("-{}", addr_text(f, !mask & f.all())),
        _ => return None,
    })
}

/// A value for a word; `n` is the network to which it should belong.
fn value(word: &str, n: &Net, lists: &[String], r: &mut Rng) -> Option<String> {
    let f = n.f;
    let mask = |m: u128, r: &mut Rng| { let how = r.pick(lists).clone(); subnet(f, m, &how).or_else(|| subnet(f, m, "SUBNETMASK")) };
    let a = n.base | r.u128() & n.wild();
    Some(match word.trim_end_matches("...") {
        "IPADDRESS/SUBNET" => format!("{}/{}", gen::spell_addr(f, a, r), mask(n.mask, r)?),
        "IPADDRESS/CIDRPREFIX" => format!("{}/{}", gen::spell_addr(f, a, r), n.prefix()?),
        "IPADDRESS" => gen::spell_addr(f, a, r),
        "HOSTCOUNT" => r.below(5).to_string(),
        "SUBNET" => {
            let h = r.u32r(n.host_bits().saturating_sub(5), f.w());
            let m = if r.chance(1, 2) || h == 0 || h == f.w() { f.pmask(f.w() - h) } else { gen::hosts_at(f, h, r) };
            mask(m, r)?
        },
        _ => return None,
    })
}

fn help(c: &mut Ctx) -> Result<String, Fail> {
    let o = c.run(&args(&["--help"]))?;
    if o.code != Code::Exit(0) || !o.out.is_empty() { return bad(format!("--help ends with {:?}, on standard output {:?}", o.code, short(&o.text()))); }
    Ok(o.err_text())
}

/// Every example in the README comes out the way it is printed there, but for white space at the ends of lines.
fn readme(c: &mut Ctx) -> Result<(), Fail> {
    let text = match std::fs::read_to_string(&c.x.paths.readme) { Ok(t) => t, Err(_) => { c.count("no README"); return Ok(()); } };
    let lines: Vec<&str> = text.lines().collect();
    for (k, l) in lines.iter().enumerate() {
        let cmd: Vec<String> = match l.strip_prefix("    ripcalc ") { Some(w) => w.split_whitespace().map(|x| x.to_owned()).collect(), None => continue };
        if lines.get(k + 2).map(|x| x.trim()) != Some("outputs") || lines.get(k + 1).map(|x| x.trim()) != Some("") { continue; }
        let mut want: Vec<&str> = lines[k + 3..].iter().take_while(|x| x.is_empty() || x.starts_with("    ")).map(|x| x.get(4..).unwrap_or("").trim_end()).collect();
        while want.last() == Some(&"") { want.pop(); }
        while want.first() == Some(&"") { want.remove(0); }
        if want.is_empty() { continue; }
        let o = c.run(&cmd)?;
        let out = o.text();
        let mut got: Vec<&str> = out.lines().map(|x| x.trim_end()).collect();
        while got.last() == Some(&"") { got.pop(); }
        c.count("examples in the README");
        if o.code != Code::Exit(0) || got != want {
            let at = (0..want.len().max(got.len())).find(|&j| want.get(j) != got.get(j)).unwrap_or(0);
            return bad(format!("the README shows what {} prints, but line {} is {:?} instead of {:?} (status {:?})", show_cmd(&cmd), at + 1, got.get(at), want.get(at), o.code));
        }
    }
    c.note("examples in the README");
    Ok(())
}

fn p36(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let usage = help(c)?;
    let forms = forms(&usage);
    let lists = notations(&usage);
    if i == 0 {
        c.note("usage text");
        for (s, l) in MODES {
            if !forms.iter().any(|f| f.names.iter().any(|n| n == s) && f.names.iter().any(|n| n == l)) { return bad(format!("the usage text has no form with {}|{}: {:?}", s, l, usage)); }
        }
        if !forms.iter().any(|f| f.names.is_empty()) { return bad(format!("the usage text has no form without an option: {:?}", usage)); }
        for w in ["SUBNETMASK", "CIDRPREFIX", "-WILDCARD"] { if !lists.iter().any(|x| x == w) { return bad(format!("the usage text does not list {} as a way to write SUBNET: {:?}", w, usage)); } }
        c.add("forms in the usage text", forms.len() as u64);
        return Ok(());
    }
    if i == 400 { return readme(c); }
    if lists.is_empty() || forms.is_empty() { return Err(Fail::Unsure("usage text not understood".to_owned())); }
    let kind = if (1..100).contains(&i) { 3 } else if i < 400 { i % 3 } else { r.below(4) };
    let f = gen::fam(r);
    if kind == 3 {
        // options that are not named
        let named = |s: &str| s == "--help" || s == "--color-test" || forms.iter().any(|f| f.names.iter().any(|n| n == s));
        let letters: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').collect();
        let words = ["version", "verbose", "all", "class", "color", "colour", "no-color", "json", "csv", "quiet", "help-all", "list", "count", "reverse", "merge", "aggregate", "file", "input", "ipv4", "ipv6", "4", "6",
            "minimise", "enum", "range", "deaggregate", "show", "info", "split-network", "sizes", "test", "debug", "dump", "self-test", "random", "expand", "contains", "overlap", "diff", "sum", "usage", "man", "license"];
        let opt = if i <= 62 { format!("-{}", letters[i as usize - 1]) } else {
            match r.below(7) {
                0 => format!("-{}", r.pick(&letters)),
                1 | 2 => format!("--{}", r.pick(&words)),
                3 => { let (s, l) = *r.pick(&MODES); let l = if r.chance(1, 3) { s } else { l }; match r.below(5) { 0 => l[..l.len() - 1].to_owned(), 1 => format!("{}s", l), 2 => format!("{}=", l), 3 => l.to_uppercase(), _ => format!("-{}", l) } },
                4 => { let (_, l) = *r.pick(&MODES); let n = r.u32r(3, l.len() as u32 - 1) as usize; l[..n].to_owned() },
                5 => { let (s, l) = *r.pick(&MODES); format!("{}{}", s, &r.pick(&[s, l])[1..]) },
                _ => (*r.pick(&["-", "--", "---", "/?", "-?", "+m", "@-", "--help=1", "-help", "help", "minimize", "-color-test", "--color", "--colour-test", "--color-tests"])).to_owned(),
            }
        };
        if named(&opt) { return Ok(()); }
        let mut cmd = vec![opt];
        let n = Net::p(f, gen::addr(f, r), f.w() - r.u32r(0, 6));
        match r.below(5) {
            0 => {},
            1 => cmd.push(n.text()),
            2 => { cmd.push(addr_text(f, n.base)); cmd.push(addr_text(f, n.last())); },
            3 => { cmd.push(n.text()); cmd.push("1".to_owned()); },
            _ => { cmd.push(n.text()); cmd.push(n.text()); },
        }
        c.note(show_cmd(&cmd));
        let o = c.run(&cmd)?;
        c.count("options that the usage text does not name");
        if o.code != Code::Exit(1) || !o.out.is_empty() || o.err.is_empty() { return bad(format!("{} ends with {:?} and prints {:?}, but the usage text names no such option", show_cmd(&cmd), o.code, short(&o.text()))); }
        return Ok(());
    }
    let form = &forms[if i < 400 { (i / 3) as usize % forms.len() } else { r.usize(forms.len()) }];
    let option = form.names.get(0).map(|_| r.pick(&form.names).clone());
    // sizes that keep the output small
    let mode = MODES.iter().position(|m| form.names.iter().any(|n| n == m.0));
    let h = if mode == Some(4) { r.u32r(0, 6) } else if mode == Some(2) { r.u32r(10, f.w()) } else { r.u32r(0, f.w()) };
    let m = if mode == Some(2) || h == 0 || h == f.w() || r.chance(1, 2) { f.pmask(f.w() - h) } else { gen::hosts_at(f, h, r) };
    let n = Net::new(f, gen::addr(f, r), m);
    let mut words: Vec<&str> = Vec::new();
    for w in &form.words {
        let times = if w.ends_with("...") { r.u32r(1, 4) } else { 1 };
        for _ in 0..times { words.push(w); }
    }
    let mut given = Vec::new();
    for w in &words {
        match value(w, &n, &lists, r) { Some(v) => given.push(v), None => { c.count(format!("word {} not understood", w)); return Ok(()); } }
    }
    match kind {
        0 | 1 => {
            let mut cmd: Vec<String> = option.into_iter().collect();
            cmd.extend(given);
            c.note(show_cmd(&cmd));
            let o = c.run(&cmd)?;
            c.count(format!("of the form {} {}", form.names.join("|"), form.words.join(" ")));
            if o.code != Code::Exit(0) || o.out.is_empty() || !o.err.is_empty() {
                return bad(format!("{} follows the form {:?} of the usage text, but ends with {:?}: {:?}", show_cmd(&cmd), format!("{} {}", form.names.join("|"), form.words.join(" ")), o.code, short(&o.err_text())));
            }
        },
        _ => {
            // too few or (where nothing can be repeated) too many words
            let least = form.words.len();
            let surplus = matches!(mode, Some(1 | 3)) && r.chance(1, 3);
            let mut cmd: Vec<String> = option.into_iter().collect();
            if surplus { cmd.extend(given.iter().cloned()); let more = given[given.len() - 1].clone(); for _ in 0..r.u32r(1, 3) { cmd.push(more.clone()); } }
            else { cmd.extend(given.into_iter().take(r.usize(least))); }
            c.note(show_cmd(&cmd));
            let o = c.run(&cmd)?;
            c.count(if surplus { "with surplus words" } else { "with missing words" });
            if o.code != Code::Exit(1) || !o.out.is_empty() || o.err_text() != usage {
                return bad(format!("{} has {} words: status {:?}, standard output {:?}, standard error {:?}, expected the usage text", show_cmd(&cmd), if surplus { "surplus" } else { "missing" }, o.code, short(&o.text()), short(&o.err_text())));
            }
        },
    }
    Ok(())
}
