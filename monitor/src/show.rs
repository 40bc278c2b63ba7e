//! Reads the blocks in which networks are displayed.

use crate::model::*;

#[derive(Clone, Debug)]
pub struct Row {
    pub label: String,
    pub value: String,
    pub bits: Option<String>,
    /// Columns (in characters) at which value and binary digits start.
    pub value_col: usize,
    pub bits_col: usize,
    pub raw: String,
}

fn bits_len(f: Fam) -> usize { match f { V4 => 35, V6 => 135 } }

pub fn row(f: Fam, line: &str) -> Row {
    let mut row = Row { label: String::new(), value: String::new(), bits: None, value_col: 0, bits_col: 0, raw: line.to_owned() };
    match line.split_once(": ") {
        Some((l, rest)) => {
            row.label = l.to_owned();
            let skip = rest.len() - rest.trim_start().len();
            row.value_col = l.len() + 2 + skip;
            let rest = rest.trim_start();
            let tail = rest.rsplit(' ').next().unwrap_or("");
            if tail.len() == bits_len(f) && tail.len() < rest.len() && tail.bytes().all(|b| matches!(b, b'0' | b'1' | b'.' | b':')) {
                row.bits = Some(tail.to_owned());
                row.bits_col = line.len() - tail.len();
                row.value = rest[..rest.len() - tail.len()].trim_end().to_owned();
            } else {
                row.value = rest.trim_end().to_owned();
            }
        },
        None => row.label = line.to_owned(),
    }
    row
}

/// Splits text into blocks of lines separated by empty lines (exactly one between blocks).
pub fn blocks(text: &str) -> Vec<Vec<&str>> {
    let mut r: Vec<Vec<&str>> = vec![Vec::new()];
    for l in text.lines() {
        if l.is_empty() { r.push(Vec::new()); } else { r.last_mut().unwrap().push(l); }
    }
    if r.last().unwrap().is_empty() { r.pop(); }
    r
}

fn want_addr(f: Fam, row: &Row, value: u128) -> Result<(), String> {
    match parse_addr(f, &row.value) {
        Some(v) if v == value => Ok(()),
        _ => Err(format!("{} is {:?}, expected {}", row.label, row.value, addr_text(f, value))),
    }
}

struct Rows { f: Fam, rows: Vec<Row>, i: usize }
impl Rows {
    fn next(&mut self, label: &str) -> Result<Row, String> {
        let r = self.rows.get(self.i).cloned().ok_or_else(|| format!("row {:?} is missing", label))?;
        if r.label.trim_end() != label { return Err(format!("found row {:?} where {:?} was expected", r.raw, label)); }
        self.i += 1;
        Ok(r)
    }
    fn addr(&mut self, label: &str, value: u128) -> Result<(), String> {
        let r = self.next(label)?;
        want_addr(self.f, &r, value)
    }
}

/// Checks the facts in a block; with `addr`, it is a full block as printed by show.
pub fn check_facts(lines: &[&str], n: &Net, addr: Option<u128>) -> Result<(), String> {
    let f = n.f;
    let mut rows = Rows { f, rows: lines.iter().map(|l| row(f, l)).collect(), i: 0 };
    if let Some(a) = addr {
        rows.addr("Address", a)?;
        let m = rows.next("Netmask")?;
        let (mask, prefix) = match m.value.split_once(" = ") {
            Some((m, p)) => (m.to_owned(), Some(p.trim().to_owned())),
            None => (m.value.clone(), None),
        };
        if parse_addr(f, &mask) != Some(n.mask) { return Err(format!("Netmask is {:?}, expected {}", mask, addr_text(f, n.mask))); }
        if prefix != n.prefix().map(|p| p.to_string()) { return Err(format!("Netmask row says prefix {:?}, expected {:?}", prefix, n.prefix())); }
        rows.addr("Wildcard", n.wild())?;
        rows.next("=>")?;
    }
    let net = rows.next("Network")?;
    let (base, tail) = match net.value.split_once('/') { Some((b, t)) => (b, Some(t.to_owned())), None => (net.value.as_str(), None) };
    if parse_addr(f, base) != Some(n.base) { return Err(format!("Network is {:?}, expected {}", net.value, n.text())); }
    match n.prefix() {
        Some(p) => if tail != Some(p.to_string()) { return Err(format!("Network is {:?}, expected {}", net.value, n.text())); },
        None => if let Some(t) = tail {
            if parse_addr(f, &t) != Some(n.mask) { return Err(format!("Network is {:?}, expected {}", net.value, n.text())); }
        },
    }
    if n.host_bits() >= 2 {
        let low = n.low_host();
        rows.addr("HostMin", n.base | low)?;
        rows.addr("HostMax", n.last() & !low)?;
    } else {
        rows.next("no hosts")?;
    }
    if n.host_bits() >= 1 {
        rows.addr("Broadcast", n.last())?;
    } else {
        rows.next("no broadcast")?;
    }
    match n.hosts() {
        Some(h) => {
            let r = rows.next("Hosts/Net")?;
            let got = r.value.split(' ').next().unwrap_or("");
            if got != h.to_string() { return Err(format!("Hosts/Net is {:?}, expected {}", got, h)); }
        },
        None => { rows.next("no hosts/net")?; },
    }
    if rows.i != rows.rows.len() { return Err(format!("unexpected row {:?}", rows.rows[rows.i].raw)); }
    Ok(())
}

/// Checks binary digits, alignment and line structure of a block.
pub fn check_layout(lines: &[&str], f: Fam) -> Result<usize, String> {
    let mut cols: Option<(usize, usize)> = None;
    let mut seen = 0;
    for l in lines {
        let r = row(f, l);
        match r.label.trim_end() {
            "Address" | "Netmask" | "Wildcard" | "Network" | "HostMin" | "HostMax" | "Broadcast" => {
                let text = r.value.split(['/', ' ']).next().unwrap_or("");
                let v = parse_addr(f, text).ok_or_else(|| format!("no address in row {:?}", l))?;
                let b = r.bits.as_ref().ok_or_else(|| format!("no binary digits in row {:?}", l))?;
                if *b != bin_text(f, v) { return Err(format!("binary digits {} in the row of {}, expected {}", b, text, bin_text(f, v))); }
                let c = (r.value_col, r.bits_col);
                if *cols.get_or_insert(c) != c { return Err(format!("columns {:?} of row {:?} differ from those of the row before, {:?}", c, l, cols)); }
                seen += 1;
            },
            "Hosts/Net" => {
                if let Some(c) = cols { if r.value_col != c.0 { return Err(format!("value column of row {:?} is {}, not {}", l, r.value_col, c.0)); } }
                if let Some((_, class)) = r.value.split_once(' ') {
                    let col = l.len() - class.trim_start().len();
                    if let Some(c) = cols { if col != c.1 { return Err(format!("class in row {:?} starts in column {}, not {}", l, col, c.1)); } }
                }
            },
            "=>" | "no hosts" | "no broadcast" | "no hosts/net" => {},
            _ => return Err(format!("unknown row {:?}", l)),
        }
    }
    Ok(seen)
}

/// The class label of a block, if it has one.
pub fn class_label(lines: &[&str], f: Fam) -> Option<String> {
    lines.iter().map(|l| row(f, l)).find(|r| r.label == "Hosts/Net")
        .and_then(|r| r.value.split_once(' ').map(|(_, c)| c.trim().to_owned()))
}

/// All address texts in a block, with their meaning per the model.
pub fn addr_texts(lines: &[&str], f: Fam) -> Vec<(String, String)> {
    lines.iter().map(|l| row(f, l)).filter(|r| r.bits.is_some())
        .map(|r| (r.label.clone(), r.value.split(['/', ' ']).next().unwrap_or("").to_owned())).collect()
}
