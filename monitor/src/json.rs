//! Just enough JSON output.

pub enum J { S(String), N(f64), B(bool), A(Vec<J>), O(Vec<(String, J)>) }

fn quote(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

impl J {
    fn write(&self, o: &mut String, ind: usize) {
        let nl = |o: &mut String, n: usize| { o.push('\n'); o.push_str(&" ".repeat(n)); };
        match self {
            J::S(s) => quote(s, o),
            J::N(n) => o.push_str(&if n.fract() == 0.0 { format!("{}", *n as i64) } else { format!("{}", n) }),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } nl(o, ind + 1); x.write(o, ind + 1); }
                if !v.is_empty() { nl(o, ind); }
                o.push(']');
            },
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } nl(o, ind + 1); quote(k, o); o.push_str(": "); x.write(o, ind + 1); }
                if !v.is_empty() { nl(o, ind); }
                o.push('}');
            },
        }
    }
    pub fn text(&self) -> String { let mut s = String::new(); self.write(&mut s, 0); s.push('\n'); s }
}
