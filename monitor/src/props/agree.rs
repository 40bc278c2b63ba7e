//! P25: the modes agree with each other. No reference model is used for the verdict.

use crate::exec::{bad, Code, Fail};
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::show;
use crate::{args, show_cmd, short, Ctx, Prop};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "P25", systematic: 162 * 2, plain_only: false, case: p25,
        rule: "A case sends one network or range through a chain of two or three modes (derange base to last; enumerate, resize or split and minimize; enumerate and show; derange and minimize any cover) and compares the results. Every prefix of both families with derange and resize comes first. Distinct by network and chain." }]
}

fn fact(c: &mut Ctx, spec: &str, f: Fam) -> Result<Vec<show::Row>, Fail> {
    let t = c.ok(&args(&[spec]))?;
    Ok(t.lines().map(|l| show::row(f, l)).collect())
}

fn value(rows: &[show::Row], label: &str) -> Option<String> { rows.iter().find(|r| r.label == label).map(|r| r.value.clone()) }

fn lines(t: &str) -> Vec<String> { t.lines().map(|l| l.to_owned()).collect() }

fn minimize(c: &mut Ctx, nets: Vec<String>) -> Result<String, Fail> {
    let mut cmd = args(&["-m"]);
    cmd.extend(nets);
    c.ok(&cmd)
}

fn p25(c: &mut Ctx, i: u64, r: &mut Rng) -> Result<(), Fail> {
    let (chain, n) = if i < 324 {
        let k = (i / 2) as u32;
        let (f, p) = if k < 33 { (V4, k) } else { (V6, k - 33) };
        (i % 2, gen::cidr_p(f, p, r))
    } else {
        let f = gen::fam(r);
        let p = gen::prefix(f, r);
        (r.below(7), gen::cidr_p(f, p, r))
    };
    let f = n.f;
    let w = f.w();
    c.note(format!("chain {} of {}", chain, n.text()));
    let text = gen::spell_net(&n, r);
    match chain {
        0 => {
            // base and last as show reports them
            let rows = fact(c, &text, f)?;
            let net = value(&rows, "Network").unwrap_or_default();
            let base = net.split('/').next().unwrap_or("").to_owned();
            let last = value(&rows, "Broadcast").unwrap_or_else(|| base.clone());
            let out = c.ok(&args(&["-d", &base, &last]))?;
            if out.trim_end() != net { return bad(format!("show of {} reports {} up to {}, derange of these gives {:?}", text, net, last, short(&out))); }
            c.count("derange of a network's ends");
            Ok(())
        },
        1 => {
            let p = n.prefix().unwrap();
            let p2 = (p + r.u32r(0, 5)).min(w);
            let out = c.ok(&args(&["-r", &text, &p2.to_string()]))?;
            let mut nets: Vec<String> = show::blocks(&out)[1..].iter().filter(|b| b.len() > 1).map(|b| show::row(f, b[1]).value).collect();
            r.shuffle(&mut nets);
            let back = minimize(c, nets)?;
            let orig = minimize(c, vec![text.clone()])?;
            if back != orig { return bad(format!("the subnets of -r {} {} minimize to {:?}, not to {:?}", text, p2, short(&back), orig)); }
            // and back by resizing any of them
            let subs = show::blocks(&out);
            let k = 1 + r.usize(subs.len() - 1);
            let one = show::row(f, subs[k][1]).value;
            let out2 = c.ok(&args(&["-r", &one, &p.to_string()]))?;
            let up = show::blocks(&out2);
            let got = up.get(1).and_then(|b| b.get(1)).map(|l| show::row(f, l).value).unwrap_or_default();
            if got != orig.trim_end() { return bad(format!("{} is a /{} of {}, but resized back it is {}", one, p2, text, got)); }
            c.count("resize, then minimize");
            Ok(())
        },
        2 | 3 => {
            // enumerate, then minimize, and show
            let h = r.u32r(0, if chain == 2 { 6 } else { 9 });
            let mask = if r.chance(1, 2) || h == 0 { f.pmask(w - h) } else { gen::hosts_at(f, h, r) };
            let n = Net::new(f, n.base | (r.u128() & f.ones(w / 2)), mask);
            let text = gen::spell_net(&n, r);
            let out = c.ok(&args(&["-e", &text]))?;
            let l = lines(&out);
            let rows = fact(c, &text, f)?;
            let base = value(&rows, "Network").unwrap_or_default().split('/').next().unwrap_or("").to_owned();
            let last = value(&rows, "Broadcast").unwrap_or_else(|| base.clone());
            let hosts: u128 = value(&rows, "Hosts/Net").and_then(|v| v.split(' ').next().map(|x| x.to_owned())).and_then(|v| v.parse().ok()).unwrap_or(0);
            if l.first() != Some(&base) || l.last() != Some(&last) { return bad(format!("-e {} lists {:?} to {:?}, show reports {} to {}", text, l.first(), l.last(), base, last)); }
            let many = l.len() as u128;
            if if many > 2 { hosts != many - 2 } else { hosts != 0 } { return bad(format!("-e {} lists {} addresses, show reports {} hosts", text, many, hosts)); }
            if many > 2 {
                let (min, max) = (value(&rows, "HostMin"), value(&rows, "HostMax"));
                if min.as_ref() != Some(&l[1]) || max.as_ref() != Some(&l[l.len() - 2]) { return bad(format!("-e {}: second and last but one are {} and {}, show reports hosts {:?} to {:?}", text, l[1], l[l.len() - 2], min, max)); }
            }
            c.count("enumerate, and show");
            if contig(f, mask).is_some() && many <= 64 {
                let mut nets: Vec<String> = l.iter().map(|a| format!("{}/{}", a, w)).collect();
                r.shuffle(&mut nets);
                let back = minimize(c, nets)?;
                let orig = minimize(c, vec![text.clone()])?;
                if back != orig { return bad(format!("the addresses of -e {} minimize to {:?}, not to {:?}", text, short(&back), orig)); }
                c.count("enumerate, then minimize");
            }
            Ok(())
        },
        4 => {
            // split, then minimize
            let mut cmd = args(&["-s", &text]);
            let h = n.host_bits();
            for _ in 0..r.u32r(1, 6) { let k = r.u32r(0, h.min(120)); cmd.push(r.upto(f.ones(k)).to_string()); }
            let o = c.run(&cmd)?;
            let t = o.text();
            if o.code != Code::Exit(0) || t.contains("too small") || t.contains("ot enough") { return Ok(()); }
            let mut nets = Vec::new();
            let bl = show::blocks(&t);
            for b in &bl[1..] {
                if b[0].starts_with("Unused") { nets.extend(b[1..].iter().map(|s| s.to_string())); } else if b.len() > 1 { nets.push(show::row(f, b[1]).value); }
            }
            if nets.len() > 200 { return Ok(()); }
            r.shuffle(&mut nets);
            let back = minimize(c, nets)?;
            let orig = minimize(c, vec![text.clone()])?;
            if back != orig { return bad(format!("slices and unused networks of {} minimize to {:?}, not to {:?}", show_cmd(&cmd), short(&back), orig)); }
            c.count("split, then minimize");
            Ok(())
        },
        _ => {
            // derange and minimize of a cover of the same range
            let a = gen::addr(f, r);
            let b = if r.chance(2, 3) { a ^ (r.u128() & f.ones(r.u32r(0, 16))) } else { gen::addr(f, r) };
            let (a, b) = (a.min(b), a.max(b));
            let out = c.ok(&args(&["-d", &addr_text(f, a), &addr_text(f, b)]))?;
            let mut cover: Vec<String> = Vec::new();
            if chain == 5 {
                // halves of what derange printed
                for l in lines(&out) {
                    let m = match parse_net(f, &l) { Some(m) => m, None => return bad(format!("derange prints {:?}", l)) };
                    let p = m.prefix().unwrap_or(w);
                    if p < w && r.chance(1, 2) { cover.push(format!("{}/{}", addr_text(f, m.base), p + 1)); cover.push(format!("{}/{}", addr_text(f, m.last()), p + 1)); } else { cover.push(l); }
                }
            } else {
                // two overlapping or adjacent ranges, each deranged
                let m = a + r.upto(b - a);
                let k = if m > a { m - r.upto((m - a).min(3)) } else { m };
                cover.extend(lines(&c.ok(&args(&["-d", &addr_text(f, a), &addr_text(f, m)]))?));
                cover.extend(lines(&c.ok(&args(&["-d", &addr_text(f, b), &addr_text(f, k)]))?));
            }
            if cover.len() > 160 { return Ok(()); }
            r.shuffle(&mut cover);
            let shown = cover.join(" ");
            let back = minimize(c, cover)?;
            if back != out { return bad(format!("-d {} {} gives {:?}, but minimizing {} gives {:?}", addr_text(f, a), addr_text(f, b), short(&out), short(&shown), short(&back))); }
            c.count("derange, and minimize of a cover");
            Ok(())
        },
    }
}
