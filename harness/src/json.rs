//! A small independent JSON writer with a configurable style, used by the reference encoder.
use crate::gen::{mix, Gen};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug)]
pub enum J {
    S(String),
    /// number, already spelled
    N(String),
    B(bool),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}

impl J {
    pub fn s(s: &str) -> J { J::S(s.to_string()) }
    pub fn n<T: ToString>(n: T) -> J { J::N(n.to_string()) }
    pub fn f32(f: f32) -> J {
        let s = format!("{f:?}");
        J::N(s)
    }
    pub fn os(v: &mut Vec<(&'static str, J)>, k: &'static str, s: &Option<String>) {
        if let Some(s) = s { v.push((k, J::s(s))) }
    }
}

/// How the reference encoder spells JSON
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Style {
    pub seed: u64,
    /// 0 none, 1 spaces and tabs, 2 also line breaks (only honoured for single-document files)
    pub ws: u8,
    /// 0 minimal, 1 gson (html safe), 2 ascii only, 3 everything escaped, 4 mixed
    pub esc: u8,
    pub shuffle: bool,
    /// spelling of colours in the project file: 0 integer, 1 `.0`, 2 exponent, 3 mixed
    pub color: u8,
}

impl Style {
    pub fn gen(g: &mut Gen) -> Style {
        if g.chance(1, 3) {
            return Style { seed: 0, ws: 0, esc: 1, shuffle: false, color: if g.bool() { 2 } else { 0 } };
        }
        Style { seed: g.below(1 << 30), ws: g.below(3) as u8, esc: g.below(5) as u8, shuffle: g.bool(), color: g.below(4) as u8 }
    }
}

pub struct Emit<'a> { st: &'a Style, rng: u64, multiline: bool }

impl<'a> Emit<'a> {
    pub fn new(st: &'a Style, salt: u64, multiline: bool) -> Emit<'a> { Emit { st, rng: mix(st.seed ^ mix(salt)), multiline } }
    pub fn r(&mut self, n: u64) -> u64 { self.rng = mix(self.rng); self.rng % n }

    /// the blank lines after a section: one, sometimes more
    pub fn gap(&mut self) -> &'static str { if self.st.ws == 2 { ["\n", "\n", "\n\n", "\n\n\n"][self.r(4) as usize] } else { "\n" } }
    pub fn shuffled(&self) -> bool { self.st.shuffle }

    pub fn color(&mut self, c: u32) -> J {
        let v = c as i32;
        let k = match self.st.color { 3 => self.r(3) as u8, k => k };
        match k {
            0 => J::n(v),
            1 => J::N(format!("{v}.0")),
            _ => J::N(exp_form(v)),
        }
    }

    fn ws(&mut self, out: &mut String) {
        let k = if self.multiline { 4 } else { 2 };
        if self.st.ws == 0 || (self.st.ws == 1 && self.r(3) != 0) { return }
        for _ in 0..self.r(3) {
            out.push([' ', '\t', '\n', '\r'][self.r(if self.st.ws == 2 { k } else { 2 }) as usize]);
        }
    }

    fn uesc(c: char, out: &mut String) {
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b) { out.push_str(&format!("\\u{u:04x}")); }
    }

    fn string(&mut self, s: &str, out: &mut String) {
        out.push('"');
        for c in s.chars() {
            let esc = match self.st.esc { 4 => self.r(4) as u8, e => e };
            match c {
                '"' => out.push_str("\\\""),
                '\\' => out.push_str("\\\\"),
                '\n' if esc != 3 => out.push_str("\\n"),
                '\t' if esc != 3 => out.push_str("\\t"),
                '\r' if esc != 3 => out.push_str("\\r"),
                '\u{8}' if esc != 3 => out.push_str("\\b"),
                '\u{c}' if esc != 3 => out.push_str("\\f"),
                c if (c as u32) < 0x20 => Self::uesc(c, out),
                '=' | '<' | '>' | '&' | '\'' | '\u{2028}' | '\u{2029}' if esc == 1 => Self::uesc(c, out),
                '/' if esc == 2 => out.push_str("\\/"),
                c if esc == 2 && !c.is_ascii() => Self::uesc(c, out),
                c if esc == 3 => Self::uesc(c, out),
                c => out.push(c),
            }
        }
        out.push('"');
    }

    pub fn emit(&mut self, j: &J) -> String {
        let mut s = String::new();
        self.ws(&mut s);
        self.val(j, &mut s);
        self.ws(&mut s);
        s
    }

    /// like `emit`, for an entry of a line-based file: no surrounding white space
    pub fn line(&mut self, j: &J) -> String {
        let mut s = String::new();
        self.val(j, &mut s);
        s
    }

    fn val(&mut self, j: &J, out: &mut String) {
        match j {
            J::S(s) => self.string(s, out),
            J::N(n) => out.push_str(n),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { out.push(',') }
                    self.ws(out);
                    self.val(x, out);
                    self.ws(out);
                }
                out.push(']');
            }
            J::O(v) => {
                let mut idx: Vec<usize> = (0..v.len()).collect();
                if self.st.shuffle {
                    for i in (1..idx.len()).rev() { let j = self.r(i as u64 + 1) as usize; idx.swap(i, j); }
                }
                out.push('{');
                for (n, i) in idx.into_iter().enumerate() {
                    if n > 0 { out.push(',') }
                    self.ws(out);
                    self.string(v[i].0, out);
                    self.ws(out);
                    out.push(':');
                    self.ws(out);
                    self.val(&v[i].1, out);
                    self.ws(out);
                }
                out.push('}');
            }
        }
    }
}

/// Java's spelling of a double >= 1e7 (d.dddE7); plain `.0` below
fn exp_form(v: i32) -> String {
    let a = (v as i64).abs();
    if a < 10_000_000 { return format!("{v}.0") }
    let d = a.to_string();
    let e = d.len() - 1;
    let frac = d[1..].trim_end_matches('0');
    format!("{}{}.{}E{}", if v < 0 { "-" } else { "" }, &d[..1], if frac.is_empty() { "0" } else { frac }, e)
}
