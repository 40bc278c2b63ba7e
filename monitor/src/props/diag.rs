//! P33: error messages are about the right thing.

use crate::exec::{bad, Code, Fail};
use crate::gen;
use crate::model::*;
use crate::props::args::{bad_spec, g_addr, g_spec, Verdict};
use crate::rng::Rng;
use crate::{args, show_cmd, short, Ctx, Prop};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P33", systematic: 400, plain_only: false, case: p33,
            rule: "A case is a command line with a known fault (octet, group or prefix out of range, wrong number of parts, wrong word, wrong family, bad count; in address or mask, at any place), or several; quotations, positions, values and limits in the messages are compared with the fault. Distinct by command line." },
    ]
}

/// What a message has to say about a fault.
#[derive(Clone, Debug, Default)]
struct Fault {
    /// All numbers in the message outside of quotations, in order.
    numbers: Option<Vec<String>>,
    /// Words of which the message has to contain one, and words that it must not contain.
    has: Vec<&'static str>,
    not: Vec<&'static str>,
    /// A part of the argument that the message has to quote.
    quote: Option<String>,
}

fn fault(numbers: &[String], has: &[&'static str], not: &[&'static str]) -> Fault {
    Fault { numbers: Some(numbers.to_vec()), has: has.to_vec(), not: not.to_vec(), quote: None }
}

/// Splits a message into its text and its quotations.
fn quotations(msg: &str) -> Option<(String, Vec<String>)> {
    let mut text = String::new();
    let mut quotes = Vec::new();
    let mut it = msg.chars();
    while let Some(ch) = it.next() {
        if ch != '"' { text.push(ch); continue; }
        let mut q = String::from("\"");
        loop {
            match it.next()? {
                '\\' => { q.push('\\'); q.push(it.next()?); },
                '"' => break,
                x => q.push(x),
            }
        }
        q.push('"');
        quotes.push(q);
        text.push('"');
    }
    Some((text, quotes))
}

fn numbers(text: &str) -> Vec<String> {
    text.split(|ch: char| !ch.is_alphanumeric()).filter(|w| !w.is_empty() && w.bytes().all(|b| b.is_ascii_digit())).map(|w| w.to_owned()).collect()
}

fn judge(msg: &str, whole: Option<&str>, f: &Fault) -> Result<(), String> {
    let (text, quotes) = quotations(msg).ok_or_else(|| "a quotation does not end".to_owned())?;
    if let Some(w) = whole {
        if quotes.first().map(|q| q.as_str()) != Some(&format!("{:?}", w)) { return Err(format!("it does not quote {:?} first", w)); }
    }
    if let Some(q) = &f.quote { if !quotes.contains(&format!("{:?}", q)) { return Err(format!("it does not quote {:?}", q)); } }
    if let Some(n) = &f.numbers { if numbers(&text) != *n { return Err(format!("its numbers are {:?}, expected {:?}", numbers(&text), n)); } }
    if !f.has.is_empty() && !f.has.iter().any(|h| text.contains(h)) { return Err(format!("it contains none of {:?}", f.has)); }
    if let Some(x) = f.not.iter().find(|h| text.contains(**h)) { return Err(format!("it contains {:?}", x)); }
    Ok(())
}

/// A malformed address of which the fault is known.
fn faulty_addr(f: Fam, r: &mut Rng) -> (String, Fault) {
    let n = |v: &[u64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    match f {
        V4 => {
            let mut p: Vec<String> = f.bytes(gen::addr(f, r)).iter().map(|b| b.to_string()).collect();
            let k = r.usize(4);
            match r.below(4) {
                0 | 1 => {
                    let v = match r.below(4) { 0 => 256, 1 => r.below(1000 - 256) + 256, 2 => u32::MAX as u64 - r.below(3), _ => 256 * (1 + r.below(1 << 20)) };
                    p[k] = v.to_string();
                    // later ones do not matter
                    if k < 3 && r.chance(1, 3) { p[3] = "999".to_owned(); }
                    (p.join("."), fault(&n(&[k as u64, v, 0, 255]), &[], &[]))
                },
                _ => {
                    let v = format!("{}{}", r.pick(&["4294967296", "18446744073709551616", "99999999999"]), r.below(1000));
                    p[k] = v.clone();
                    let mut x = fault(&n(&[k as u64]), &[], &[]);
                    x.quote = Some(v);
                    (p.join("."), x)
                },
            }
        },
        V6 => {
            let mut p: Vec<String> = groups(gen::addr(f, r)).iter().map(|g| format!("{:x}", g)).collect();
            let k = r.usize(8);
            match r.below(4) {
                0 | 1 => {
                    let bits = r.u32r(1, 30);
                    let v = format!("{:x}", 0x10000 + r.below(1 << bits));
                    p[k] = v.clone();
                    let mut x = fault(&n(&[k as u64]), &[], &[]);
                    x.quote = Some(v);
                    (p.join(":"), x)
                },
                2 => {
                    let len = *r.pick(&[2usize, 3, 4, 5, 6, 7, 9, 10]);
                    while p.len() < len { p.push("1".to_owned()); }
                    p.truncate(len);
                    (p.join(":"), fault(&n(&[len as u64, 8]), &[], &[]))
                },
                _ => {
                    let a = r.u32r(1, 3) as usize;
                    (format!("{}::{}::{}", p[..a].join(":"), p[a], p[a + 1..a + 2].join(":")), fault(&n(&[2, 1]), &[], &[]))
                },
            }
        },
    }
}

/// Also with faults that the notation of networks does not let through.
fn faulty_bare_addr(f: Fam, r: &mut Rng) -> (String, Fault) {
    let n = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let word = |r: &mut Rng| r.pick(&["a b", "x", "1x", "-1", "0x1", "1.", " 1", "1 ", "é", "1\u{b2}", "\\", "1%0", "[1]", "~"]).to_string();
    let whole = |k: usize, w: String| { let mut x = fault(&[k.to_string()], &[], &[]); x.quote = Some(w); x };
    match (f, r.below(8)) {
        (V4, 0 | 1) => {
            let mut p: Vec<String> = f.bytes(gen::addr(f, r)).iter().map(|b| b.to_string()).collect();
            let len = *r.pick(&[2usize, 3, 5, 6, 9, 20]);
            while p.len() < len { p.push(r.below(256).to_string()); }
            p.truncate(len);
            (p.join("."), fault(&n(&[len, 4]), &[], &[]))
        },
        (V4, 2) => {
            let mut p: Vec<String> = f.bytes(gen::addr(f, r)).iter().map(|b| b.to_string()).collect();
            let k = r.usize(4);
            p[k].clear();
            if k < 3 && r.chance(1, 3) { p[3] = "x".to_owned(); }
            (p.join("."), fault(&n(&[k]), &[], &[]))
        },
        (V4, 3 | 4) => {
            let mut p: Vec<String> = f.bytes(gen::addr(f, r)).iter().map(|b| b.to_string()).collect();
            let k = r.usize(4);
            let w = word(r).replace('.', "_");
            p[k] = w.clone();
            if k < 3 && r.chance(1, 3) { p[3].clear(); }
            (p.join("."), whole(k, w))
        },
        (V6, 0 | 1) => {
            let mut p: Vec<String> = groups(gen::addr(f, r)).iter().map(|g| format!("{:x}", g)).collect();
            let k = r.usize(8);
            let w = word(r).replace('.', "_");
            p[k] = w.clone();
            if k < 5 && r.chance(1, 3) { p[k + 1].clear(); p.remove(k + 2); }
            (p.join(":"), whole(k, w))
        },
        (V6, 2) => {
            // a lone colon at either end of eight parts, perhaps one of them a double colon
            let mut p: Vec<String> = groups(gen::addr(f, r)).iter().map(|g| format!("{:x}", g)).collect();
            let k = if r.chance(1, 2) { 0 } else { 7 };
            p[k].clear();
            if r.chance(1, 3) { p[2 + r.usize(4)].clear(); }
            (p.join(":"), fault(&n(&[k]), &[], &[]))
        },
        (V6, 3) => {
            let mut p: Vec<String> = (0..r.u32r(10, 30)).map(|_| format!("{:x}", r.below(1 << 16))).collect();
            if r.chance(1, 2) { let k = 1 + r.usize(p.len() - 2); p[k].clear(); }
            let l = p.len();
            (p.join(":"), fault(&n(&[l, 8]), &[], &[]))
        },
        _ => faulty_addr(f, r),
    }
}

/// A malformed specification of which the fault is known.
fn faulty_spec(r: &mut Rng) -> (String, Fault) {
    let f = gen::fam(r);
    let a = gen::addr(f, r);
    let m = gen::any_mask(f, r);
    match r.below(8) {
        0 | 1 => { let (s, mut x) = faulty_addr(f, r); x.has = vec!["address"]; x.not = vec!["mask", "prefix"]; (format!("{}/{}", s, gen::spell_mask(f, m, r)), x) },
        2 | 3 => {
            let (s, mut x) = faulty_addr(f, r);
            x.has = vec!["mask"];
            x.not = vec!["parse address", "prefix"];
            (format!("{}/{}{}", gen::spell_addr(f, a, r), if r.chance(1, 2) { "-" } else { "" }, s), x)
        },
        4 | 5 => {
            let p = f.w() as u64 + 1 + match r.below(4) { 0 => 0, 1 => r.below(100), 2 => (1 << 32) - 1 - f.w() as u64 + r.below(40), _ => r.below(1 << 60) };
            (format!("{}/{}{}", gen::spell_addr(f, a, r), if r.chance(1, 3) { "-" } else { "" }, p), fault(&[p.to_string(), f.w().to_string()], &["prefix"], &["mask"]))
        },
        6 => (format!("{}/{}18446744073709551616", gen::spell_addr(f, a, r), if r.chance(1, 3) { "-" } else { "" }), Fault { has: vec!["prefix"], not: vec!["mask"], numbers: Some(Vec::new()), quote: None }),
        _ => {
            // no specification at all
            let s = loop {
                let s = match r.below(4) {
                    0 => gen::spell_addr(f, a, r),
                    1 => gen::spell(f, a, m, r).replacen('/', *r.pick(&["//", " /", "", "\\", "-"]), 1),
                    2 => r.pick(&["", "/", "x", "hello/8", "localhost/8", "\"", "a\"b", "\\", "é/8", "10.0.0.0/", "/8", "10.0.0.0/8\n", "\t", "'", "-x", "-1", "\u{202e}"]).to_string(),
                    _ => format!("{}/{}", addr_text(f, a), addr_text(f.other(), gen::addr(f.other(), r))),
                };
                if g_spec(&s) == Verdict::Malformed && !matches!(s.as_str(), "-m" | "-d" | "-s" | "-r" | "-e") && !(f == V4 && s.contains(':') && s.bytes().all(|b| b.is_ascii_hexdigit() || b == b':' || b == b'/')) && !s.contains("::/") { break s; }
            };
            let q = s.clone();
            (s, Fault { numbers: Some(Vec::new()), has: Vec::new(), not: vec!["parse address", "parse mask", "parse CIDR"], quote: Some(q) })
        },
    }
}

fn good_spec(f: Fam, r: &mut Rng) -> String { let m = gen::any_mask(f, r); gen::spell(f, gen::addr(f, r), m, r) }

fn p33(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let kind = if i < 400 { i % 10 } else { r.below(10) };
    let f = gen::fam(r);
    // each expected message: what it is about, and the argument it has to quote as a whole
    let mut want: Vec<(Fault, Option<String>)> = Vec::new();
    let cmd = match kind {
        0 | 1 => {
            // show: the first bad one
            let before = if r.chance(1, 40) { r.below(140) } else { r.below(4) };
            let mut cmd: Vec<String> = if i == 390 { gen::crowd(65_600, true, 30, r).into_iter().map(|x| x.2).collect() } else { Vec::new() };
            cmd.extend((0..before).map(|_| { let g = gen::fam(r); good_spec(g, r) }).collect::<Vec<_>>());
            let (s, x) = faulty_spec(r);
            if cmd.is_empty() && s.starts_with('-') { cmd.push(good_spec(f, r)); }
            cmd.push(s);
            for _ in 0..r.below(3) { cmd.push(if r.chance(1, 2) { bad_spec(r) } else { good_spec(f, r) }); }
            want.push((x, None));
            cmd
        },
        2 => {
            let mut cmd = args(&["-m"]);
            for _ in 0..(if r.chance(1, 40) { r.below(140) } else { r.below(4) }) { cmd.push(good_spec(f, r)); }
            let (s, x) = faulty_spec(r);
            cmd.push(s);
            for _ in 0..r.below(3) { cmd.push(if r.chance(1, 2) { bad_spec(r) } else { good_spec(f, r) }); }
            want.push((x, None));
            cmd
        },
        3 => {
            // mixed families, everything well-formed
            let mut cmd = args(&["-m"]);
            for _ in 0..r.u32r(1, 4) { cmd.push(good_spec(f, r)); }
            let k = 1 + r.usize(cmd.len());
            cmd.insert(k, good_spec(f.other(), r));
            if cmd.len() == 2 { cmd.push(good_spec(f, r)); }
            want.push((Fault { has: vec!["mix"], not: vec!["parse", "unrecognized"], ..Fault::default() }, None));
            cmd
        },
        4 | 5 => {
            // derange: which address
            let (s, x) = faulty_bare_addr(f, r);
            let good = gen::spell_addr(f, gen::addr(f, r), r);
            match r.below(7) {
                6 => {
                    // neither of the two is malformed
                    want.push((Fault { numbers: None, not: vec!["parse", "first address", "second address", "unrecognized"], ..Fault::default() }, None));
                    let other = gen::spell_addr(f.other(), gen::addr(f.other(), r), r);
                    args(&["-d", &good, &other])
                },
                0 | 1 => { want.push((Fault { has: vec!["first"], not: vec!["second"], ..x }, None)); args(&["-d", &s, &good]) },
                2 | 3 => { want.push((Fault { has: vec!["second"], not: vec!["first"], ..x }, None)); args(&["-d", &good, &s]) },
                4 => { let (t, _) = faulty_bare_addr(f, r); want.push((Fault { has: vec!["first"], not: vec!["second"], ..x }, None)); args(&["-d", &s, &t]) },
                _ => {
                    let w = ["x", "", "10", "localhost", "12", "abcd"][r.usize(6)];
                    if g_addr(w) != Verdict::Malformed { return Ok(()); }
                    let k = r.chance(1, 2);
                    want.push((Fault { has: vec![if k { "first" } else { "second" }], not: vec![if k { "second" } else { "first" }], numbers: Some(Vec::new()), quote: None }, None));
                    if k { args(&["-d", w, &good]) } else { args(&["-d", &good, w]) }
                },
            }
        },
        6 => {
            // resize
            let net = { let m = gen::any_mask(f, r); gen::spell(f, gen::addr(f, r), m, r) };
            match r.below(6) {
                0 | 1 => { let (s, x) = faulty_spec(r); want.push((Fault { quote: x.quote, ..x }, Some(s.clone()))); args(&["-r", &s, &gen::spell_mask_arg(f, gen::any_mask(f, r), r)]) },
                2 => {
                    let p = f.w() as u64 + 1 + if r.chance(1, 2) { r.below(3) } else { r.below(1 << 40) };
                    let v = if f == V4 { "IPv4" } else { "IPv6" };
                    want.push((Fault { not: vec![if f == V4 { "IPv6" } else { "IPv4" }], ..fault(&[p.to_string(), f.w().to_string()], &[v], &[]) }, None));
                    args(&["-r", &net, &p.to_string()])
                },
                3 => {
                    let o = f.other();
                    let m = gen::spell_addr(o, gen::addr(o, r), r);
                    // the network's family is named before the mask's
                    want.push((Fault { has: vec![if f == V4 { "IPv4 subnet to an IPv6 mask" } else { "IPv6 subnet to an IPv4 mask" }], ..Fault::default() }, None));
                    args(&["-r".to_owned(), net, if r.chance(1, 2) { m } else { format!("-{}", m) }])
                },
                4 => {
                    let (s, x) = faulty_bare_addr(f, r);
                    let s = if r.chance(1, 2) && !s.starts_with('-') { s } else { format!("-{}", s) };
                    want.push((Fault { not: vec!["network spec"], ..x }, Some(s.clone())));
                    args(&["-r", &net, &s])
                },
                _ => { let s = *r.pick(&["x", "", "a b", "24x", "\"", "18446744073709551616"]); want.push((Fault { not: vec!["network spec"], numbers: Some(Vec::new()), ..Fault::default() }, Some(s.to_owned()))); args(&["-r", &net, s]) },
            }
        },
        7 => {
            // split
            let n = gen::cidr(f, r).text();
            let count = |r: &mut Rng| r.below(100).to_string();
            match r.below(3) {
                0 => { let (s, x) = faulty_spec(r); want.push((x, Some(s.clone()))); args(&["-s", &s, &count(r), &count(r)]) },
                1 => {
                    let w = *r.pick(&["x", "", "1.5", "1e3", "0x10", "ten", "1,000", " 5", "5 ", "é", "\"", "--", "12a"]);
                    let mut cmd = args(&["-s", &n]);
                    for _ in 0..r.below(4) { cmd.push(count(r)); }
                    cmd.push(w.to_owned());
                    for _ in 0..r.below(3) { cmd.push(if r.chance(1, 2) { count(r) } else { "y".to_owned() }); }
                    want.push((Fault { has: vec!["host count"], ..Fault::default() }, Some(w.to_owned())));
                    cmd
                },
                _ => {
                    let mut cmd = args(&["-s", &n]);
                    for _ in 0..r.below(4) { cmd.push(count(r)); }
                    cmd.push(format!("-{}", 1 + r.below(1 << 40)));
                    for _ in 0..r.below(3) { cmd.push(count(r)); }
                    want.push((Fault { has: vec!["zero or greater"], not: vec!["network", "failed to parse"], ..Fault::default() }, None));
                    cmd
                },
            }
        },
        _ => {
            // enumerate: one message for each bad one
            let mut cmd = args(&["-e"]);
            let mut bad: Vec<(String, Fault)> = Vec::new();
            for _ in 0..(if i == 399 { 10_000 } else if r.chance(1, 30) { r.u32r(7, 140) } else { r.u32r(1, 6) }) {
                if !bad.is_empty() && r.chance(1, 5) {
                    // the same one again
                    let (s, x) = r.pick(&bad).clone();
                    want.push((x, Some(s.clone())));
                    cmd.push(s);
                    continue;
                }
                if r.chance(1, 2) {
                    let h = r.u32r(0, 4);
                    let m = if h == 0 { f.all() } else { gen::hosts_at(f, h, r) };
                    cmd.push(gen::spell(f, gen::addr(f, r), m, r));
                } else {
                    let (s, x) = faulty_spec(r);
                    want.push((x.clone(), Some(s.clone())));
                    bad.push((s.clone(), x));
                    cmd.push(s);
                }
            }
            cmd
        },
    };
    if want.is_empty() { return Ok(()); }
    c.note(show_cmd(&cmd));
    let o = c.run(&cmd)?;
    if o.code != Code::Exit(1) { return bad(format!("{} is wrong, but ends with {:?}", show_cmd(&cmd), o.code)); }
    let err = o.err_text();
    let lines: Vec<&str> = err.lines().collect();
    if lines.len() != want.len() { return bad(format!("{} gives {} messages instead of {}: {:?}", show_cmd(&cmd), lines.len(), want.len(), short(&err))); }
    for (l, (x, whole)) in lines.iter().zip(&want) {
        // a whole argument may not contain what else must not be there
        if let Err(e) = judge(l, whole.as_deref(), x) { return bad(format!("{} says {:?}: {} ({:?})", show_cmd(&cmd), l, e, x)); }
        c.count("messages judged");
    }
    Ok(())
}
