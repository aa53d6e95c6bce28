//! Minimal JSON values, printer and parser (no dependency).
use std::collections::BTreeMap;
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    N(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
pub fn s(x: &str) -> J {
    J::S(x.to_string())
}
pub fn n(x: u64) -> J {
    J::N(x as f64)
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::S(x) => Some(x),
            _ => None,
        }
    }
    pub fn pretty(&self) -> String {
        let mut o = String::new();
        self.w(&mut o, 0);
        o.push('\n');
        o
    }
    fn w(&self, o: &mut String, ind: usize) {
        let pad = |o: &mut String, k: usize| {
            for _ in 0..k {
                o.push(' ')
            }
        };
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(x) => {
                if x.fract() == 0.0 && x.abs() < 1e15 {
                    o.push_str(&format!("{}", *x as i64))
                } else {
                    o.push_str(&format!("{:.3}", x))
                }
            }
            J::S(x) => quote(x, o),
            J::A(v) => {
                if v.is_empty() {
                    o.push_str("[]");
                    return;
                }
                o.push_str("[\n");
                for (i, x) in v.iter().enumerate() {
                    pad(o, ind + 1);
                    x.w(o, ind + 1);
                    o.push_str(if i + 1 < v.len() { ",\n" } else { "\n" });
                }
                pad(o, ind);
                o.push(']');
            }
            J::O(v) => {
                if v.is_empty() {
                    o.push_str("{}");
                    return;
                }
                o.push_str("{\n");
                for (i, (k, x)) in v.iter().enumerate() {
                    pad(o, ind + 1);
                    quote(k, o);
                    o.push_str(": ");
                    x.w(o, ind + 1);
                    o.push_str(if i + 1 < v.len() { ",\n" } else { "\n" });
                }
                pad(o, ind);
                o.push('}');
            }
        }
    }
}
fn quote(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
pub fn parse(t: &str) -> Option<J> {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let v = val(&c, &mut i)?;
    ws(&c, &mut i);
    if i == c.len() {
        Some(v)
    } else {
        None
    }
}
fn ws(c: &[char], i: &mut usize) {
    while *i < c.len() && c[*i].is_whitespace() {
        *i += 1
    }
}
fn val(c: &[char], i: &mut usize) -> Option<J> {
    ws(c, i);
    match *c.get(*i)? {
        '{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(c, i);
                if *c.get(*i)? == '}' {
                    *i += 1;
                    return Some(J::O(v));
                }
                if *c.get(*i)? == ',' {
                    *i += 1;
                    continue;
                }
                let k = val(c, i)?;
                ws(c, i);
                if *c.get(*i)? != ':' {
                    return None;
                }
                *i += 1;
                let x = val(c, i)?;
                v.push((k.str()?.to_string(), x));
            }
        }
        '[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(c, i);
                if *c.get(*i)? == ']' {
                    *i += 1;
                    return Some(J::A(v));
                }
                if *c.get(*i)? == ',' {
                    *i += 1;
                    continue;
                }
                v.push(val(c, i)?);
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            loop {
                let x = *c.get(*i)?;
                *i += 1;
                match x {
                    '"' => return Some(J::S(s)),
                    '\\' => {
                        let y = *c.get(*i)?;
                        *i += 1;
                        match y {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            'u' => {
                                let h: String = c.get(*i..*i + 4)?.iter().collect();
                                *i += 4;
                                s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                            }
                            z => s.push(z),
                        }
                    }
                    z => s.push(z),
                }
            }
        }
        't' => {
            *i += 4;
            Some(J::B(true))
        }
        'f' => {
            *i += 5;
            Some(J::B(false))
        }
        'n' => {
            *i += 4;
            Some(J::Null)
        }
        _ => {
            let st = *i;
            while *i < c.len() && "+-.eE0123456789".contains(c[*i]) {
                *i += 1
            }
            c[st..*i].iter().collect::<String>().parse().ok().map(J::N)
        }
    }
}
pub fn map(m: &BTreeMap<String, u64>) -> J {
    J::O(m.iter().map(|(k, v)| (k.clone(), n(*v))).collect())
}
