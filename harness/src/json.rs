//! Just enough JSON: objects keep insertion order, numbers are i64.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    N(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn obj() -> J { J::O(Vec::new()) }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self { J::O(v) => v.iter().find(|p| p.0 == k).map(|p| &p.1), _ => None }
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::O(o) = self {
            if let Some(p) = o.iter_mut().find(|p| p.0 == k) { p.1 = v; } else { o.push((k.into(), v)); }
        }
    }
    pub fn with(mut self, k: &str, v: J) -> J { self.set(k, v); self }
    pub fn num(&self) -> i64 { match self { J::N(n) => *n, _ => panic!("harness: not a number: {:?}", self) } }
    pub fn arr(&self) -> &[J] { match self { J::A(a) => a, _ => panic!("harness: not an array: {:?}", self) } }
    pub fn str(&self) -> &str { match self { J::S(a) => a, _ => panic!("harness: not a string: {:?}", self) } }
    pub fn n(&self, k: &str) -> i64 { self.get(k).map_or(0, |j| j.num()) }
    pub fn s(&self, k: &str) -> &str { self.get(k).map_or("", |j| j.str()) }
    pub fn ints(v: &[i64]) -> J { J::A(v.iter().map(|x| J::N(*x)).collect()) }
    pub fn write(&self, out: &mut String) {
        match self {
            J::N(n) => { let _ = write!(out, "{}", n); }
            J::S(s) => { out.push('"'); for c in s.chars() { match c { '"' => out.push_str("\\\""), '\\' => out.push_str("\\\\"), '\n' => out.push_str("\\n"), c if (c as u32) < 32 => out.push(' '), c => out.push(c) } } out.push('"'); }
            J::A(a) => { out.push('['); for (i, x) in a.iter().enumerate() { if i > 0 { out.push(','); } x.write(out); } out.push(']'); }
            J::O(o) => { out.push('{'); for (i, (k, x)) in o.iter().enumerate() { if i > 0 { out.push(','); } let _ = write!(out, "\"{}\":", k); x.write(out); } out.push('}'); }
        }
    }
    pub fn text(&self) -> String { let mut s = String::new(); self.write(&mut s); s }
    pub fn parse(s: &str) -> J { let b = s.as_bytes(); let mut i = 0; let v = val(b, &mut i); v }
}

fn ws(b: &[u8], i: &mut usize) { while *i < b.len() && (b[*i] as char).is_whitespace() { *i += 1; } }
fn val(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1; let mut o = Vec::new();
            loop {
                ws(b, i);
                if b[*i] == b'}' { *i += 1; return J::O(o); }
                if b[*i] == b',' { *i += 1; continue; }
                let k = match val(b, i) { J::S(s) => s, _ => panic!("harness: bad key") };
                ws(b, i); assert!(b[*i] == b':'); *i += 1;
                o.push((k, val(b, i)));
            }
        }
        b'[' => {
            *i += 1; let mut a = Vec::new();
            loop {
                ws(b, i);
                if b[*i] == b']' { *i += 1; return J::A(a); }
                if b[*i] == b',' { *i += 1; continue; }
                a.push(val(b, i));
            }
        }
        b'"' => {
            *i += 1; let mut s = Vec::new();
            while b[*i] != b'"' {
                if b[*i] == b'\\' { *i += 1; }
                s.push(b[*i]); *i += 1;
            }
            *i += 1; J::S(String::from_utf8(s).unwrap())
        }
        _ => {
            let st = *i; if b[*i] == b'-' { *i += 1; }
            while *i < b.len() && b[*i].is_ascii_digit() { *i += 1; }
            J::N(std::str::from_utf8(&b[st..*i]).unwrap().parse().expect("harness: number"))
        }
    }
}
