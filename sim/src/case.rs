//! A case is one simulated execution written down: the system, its schedule, the injected faults, the
//! commands run and the simulated operating system. Everything needed to repeat it exactly.
//! Field names carry their type for the minimiser:
//!   sig        signature      T.* interaction term     M.* multi-trace    W.* world schedule (list of events)
//!   X.* any text
//!   F.* list of injected faults     O.* list of options separated by " ; "     N.* number    other: opaque
use crate::json::{self, J};
use crate::term::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Case {
    pub prop: String,
    pub kind: String,
    pub f: BTreeMap<String, String>,
}
impl Case {
    pub fn new(prop: &str, kind: &str) -> Case {
        Case { prop: prop.into(), kind: kind.into(), f: BTreeMap::new() }
    }
    pub fn set<S: Into<String>>(&mut self, k: &str, v: S) -> &mut Case {
        self.f.insert(k.into(), v.into());
        self
    }
    pub fn get(&self, k: &str) -> &str {
        self.f.get(k).map(|x| x.as_str()).unwrap_or("")
    }
    pub fn has(&self, k: &str) -> bool {
        self.f.contains_key(k)
    }
    pub fn num(&self, k: &str) -> u64 {
        self.get(k).parse().unwrap_or(0)
    }
    pub fn sig(&self) -> Sig {
        Sig::parse(self.get("sig")).expect("signature in case")
    }
    pub fn term(&self, k: &str, s: &Sig) -> T {
        parse_hif(self.get(k), s).unwrap_or_else(|| panic!("term in case: {}", self.get(k)))
    }
    pub fn mu(&self, k: &str, s: &Sig) -> Mu {
        Mu::parse(self.get(k), s).unwrap_or_else(|| panic!("multi-trace in case: {}", self.get(k)))
    }
    pub fn list(&self, k: &str) -> Vec<String> {
        self.get(k).split_whitespace().map(|x| x.to_string()).collect()
    }
    pub fn opts(&self, k: &str) -> Vec<String> {
        self.get(k).split(" ; ").filter(|x| !x.trim().is_empty()).map(|x| x.trim().to_string()).collect()
    }
    pub fn to_json(&self) -> J {
        J::O(vec![
            ("property".into(), json::s(&self.prop)),
            ("scenario".into(), json::s(&self.kind)),
            ("case".into(), J::O(self.f.iter().map(|(k, v)| (k.clone(), json::s(v))).collect())),
        ])
    }
    pub fn from_json(j: &J) -> Option<Case> {
        let mut c = Case::new(j.get("property")?.str()?, j.get("scenario")?.str()?);
        if let J::O(v) = j.get("case")? {
            for (k, x) in v {
                c.f.insert(k.clone(), x.str()?.to_string());
            }
        }
        Some(c)
    }
    pub fn key(&self) -> u64 {
        crate::rng::hash_str(&format!("{:?}", self))
    }
    /// smaller variants, most aggressive first
    pub fn shrink(&self) -> Vec<Case> {
        let mut out = vec![];
        let sig = if self.has("sig") { Sig::parse(self.get("sig")) } else { None };
        for (k, v) in &self.f {
            let mut put = |x: String| {
                if &x != v {
                    let mut c = self.clone();
                    c.f.insert(k.clone(), x);
                    out.push(c);
                }
            };
            if k.starts_with("F.") || k.starts_with("W.") {
                let l: Vec<&str> = v.split_whitespace().collect();
                for c in drops(&l) {
                    put(c.join(" "));
                }
            } else if k.starts_with("O.") {
                let l: Vec<&str> = v.split(" ; ").filter(|x| !x.is_empty()).collect();
                for c in drops(&l) {
                    put(c.join(" ; "));
                }
            } else if k.starts_with("X.") {
                // text: its pieces, from large to small
                let l = crate::props::reading::tokens(v);
                let mut n = l.len() / 2;
                let mut left = 60;
                while n > 0 && left > 0 {
                    let mut a = 0;
                    while a < l.len() && left > 0 {
                        let x: Vec<String> = l.iter().enumerate().filter(|(i, _)| *i < a || *i >= a + n).map(|x| x.1.clone()).collect();
                        put(x.concat());
                        a += n;
                        left -= 1;
                    }
                    n /= 2;
                }
            } else if k.starts_with("N.") {
                if let Ok(n) = v.parse::<u64>() {
                    if n > 0 {
                        put("0".into());
                        put((n / 2).to_string());
                        put((n - 1).to_string());
                    }
                }
            } else if k.starts_with("T.") {
                if let Some(s) = &sig {
                    if let Some(t) = parse_hif(v, s) {
                        for x in shrink_term(&t) {
                            put(x.hif(s));
                        }
                    }
                }
            } else if k.starts_with("M.") {
                if let Some(s) = &sig {
                    if let Some(m) = Mu::parse(v, s) {
                        for c in 0..m.logs.len() {
                            if m.logs.len() > 1 {
                                let mut x = m.clone();
                                x.logs.remove(c);
                                x.colocs.remove(c);
                                put(x.htf(s));
                            }
                            if m.logs[c].len() > 1 {
                                let mut x = m.clone();
                                x.logs[c].clear();
                                put(x.htf(s));
                            }
                            for i in 0..m.logs[c].len() {
                                let mut x = m.clone();
                                x.logs[c].remove(i);
                                put(x.htf(s));
                            }
                        }
                    }
                }
            } else if k == "os" {
                let l: Vec<&str> = v.split_whitespace().collect();
                for i in 0..l.len() {
                    if l[i].starts_with("fault=") || (l[i].starts_with("clock=") && l[i] != "clock=1000") || l[i].starts_with("quota=") {
                        let mut x: Vec<&str> = l.clone();
                        if l[i].starts_with("clock=") {
                            x[i] = "clock=1000";
                        } else {
                            x.remove(i);
                        }
                        put(x.join(" "));
                    }
                }
            }
        }
        out
    }
}
fn drops<'a>(l: &[&'a str]) -> Vec<Vec<&'a str>> {
    let mut o = vec![];
    if l.len() > 1 {
        o.push(vec![]);
        o.push(l[..l.len() / 2].to_vec());
        o.push(l[l.len() / 2..].to_vec());
    }
    for i in 0..l.len() {
        let mut x = l.to_vec();
        x.remove(i);
        o.push(x);
    }
    o
}
pub fn shrink_term(t: &T) -> Vec<T> {
    use T::*;
    let mut o = vec![];
    if *t == E {
        return o;
    }
    o.push(E);
    let bin = |a: &T, b: &T, mk: &dyn Fn(T, T) -> T, o: &mut Vec<T>| {
        o.push(a.clone());
        o.push(b.clone());
        for x in shrink_term(a) {
            o.push(mk(x, b.clone()));
        }
        for x in shrink_term(b) {
            o.push(mk(a.clone(), x));
        }
    };
    match t {
        E => {}
        Em { o: org, m, sy, t: tg } => {
            for i in 0..tg.len() {
                let mut x = tg.clone();
                x.remove(i);
                o.push(Em { o: *org, m: *m, sy: *sy && !x.is_empty(), t: x });
            }
            if *sy {
                o.push(Em { o: *org, m: *m, sy: false, t: tg.clone() });
            }
        }
        Rc { g, m, sy, r } => {
            if r.len() > 1 {
                for i in 0..r.len() {
                    let mut x = r.clone();
                    x.remove(i);
                    o.push(Rc { g: *g, m: *m, sy: *sy, r: x });
                }
            }
            if *sy {
                o.push(Rc { g: *g, m: *m, sy: false, r: r.clone() });
            }
        }
        St(a, b) => bin(a, b, &|x, y| St(bx(x), bx(y)), &mut o),
        Sq(a, b) => bin(a, b, &|x, y| Sq(bx(x), bx(y)), &mut o),
        Co(l, a, b) => {
            bin(a, b, &|x, y| Co(l.clone(), bx(x), bx(y)), &mut o);
            o.push(Sq(a.clone(), b.clone()));
        }
        Al(a, b) => bin(a, b, &|x, y| Al(bx(x), bx(y)), &mut o),
        Pa(a, b) => bin(a, b, &|x, y| Pa(bx(x), bx(y)), &mut o),
        Sy(s, a, b) => {
            bin(a, b, &|x, y| Sy(s.clone(), bx(x), bx(y)), &mut o);
            if s.len() > 1 {
                for i in 0..s.len() {
                    let mut z = s.clone();
                    z.remove(i);
                    o.push(Sy(z, a.clone(), b.clone()));
                }
            }
        }
        Lp(k, a) => {
            o.push((**a).clone());
            for x in shrink_term(a) {
                o.push(Lp(*k, bx(x)));
            }
            if *k != LK::S {
                o.push(Lp(LK::S, a.clone()));
            }
        }
    }
    o
}
