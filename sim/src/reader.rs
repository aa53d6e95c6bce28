//! Strict readers of signature, interaction and multi-trace files, following the file formats as documented and
//! written independently of the tool: what a text says, or why it is not well formed.
use crate::term::*;

pub enum R<X> {
    Good(X),
    Bad(String),
    /// the documentation does not say
    Unclear(String),
}
struct L {
    s: Vec<char>,
    i: usize,
}
fn alpha(c: char) -> bool {
    c.is_ascii_alphabetic() || c == 'é'
}
impl L {
    fn new(t: &str) -> L {
        L { s: t.chars().collect(), i: 0 }
    }
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && matches!(self.s[self.i], ' ' | '\t' | '\r' | '\n') {
                self.i += 1;
            }
            if !self.comment() {
                return;
            }
        }
    }
    fn comment(&mut self) -> bool {
        if self.s[self.i..].starts_with(&['/', '*']) {
            for k in self.i + 2..self.s.len() {
                if self.s[k..].starts_with(&['*', '/']) {
                    self.i = k + 2;
                    return true;
                }
            }
        }
        false
    }
    fn tok(&mut self, t: &str) -> bool {
        let i = self.i;
        self.ws();
        let c: Vec<char> = t.chars().collect();
        if self.s[self.i..].starts_with(&c) {
            self.i += c.len();
            return true;
        }
        self.i = i;
        false
    }
    fn label(&mut self) -> Option<String> {
        let i = self.i;
        self.ws();
        let a = self.i;
        if a < self.s.len() && alpha(self.s[a]) {
            while self.i < self.s.len() && (alpha(self.s[self.i]) || self.s[self.i].is_ascii_digit() || self.s[self.i] == '_') {
                self.i += 1;
            }
            return Some(self.s[a..self.i].iter().collect());
        }
        self.i = i;
        None
    }
    fn attempt<X>(&mut self, f: impl FnOnce(&mut L) -> Option<X>) -> Option<X> {
        let i = self.i;
        let r = f(self);
        if r.is_none() {
            self.i = i;
        }
        r
    }
    fn end(&mut self) -> bool {
        self.ws();
        self.i == self.s.len()
    }
    fn list(&mut self) -> Option<Vec<String>> {
        self.attempt(|l| {
            if !l.tok("(") {
                return None;
            }
            let mut v = vec![l.label()?];
            while l.tok(",") {
                v.push(l.label()?);
            }
            if l.tok(")") {
                Some(v)
            } else {
                None
            }
        })
    }
    fn action(&mut self) -> Option<RawAct> {
        self.attempt(|l| {
            let lf = l.label()?;
            let em = l.tok("!");
            if !em && !l.tok("?") {
                return None;
            }
            Some((lf, em, l.label()?))
        })
    }
    fn set(&mut self) -> Option<Vec<RawAct>> {
        self.attempt(|l| {
            if !l.tok("{") {
                return None;
            }
            let mut v = vec![l.action()?];
            while l.tok(",") {
                v.push(l.action()?);
            }
            if l.tok("}") && v.len() > 1 {
                Some(v)
            } else {
                None
            }
        })
    }
    fn what(&self) -> String {
        let a = self.i.min(self.s.len());
        format!("unexpected {:?}", self.s[a..(a + 12).min(self.s.len())].iter().collect::<String>())
    }
}
type RawAct = (String, bool, String);
/// letters beyond those known to be letters, outside of comments
fn odd(t: &str) -> bool {
    let mut l = L::new(t);
    while l.i < l.s.len() {
        if !l.comment() {
            if !l.s[l.i].is_ascii() && !matches!(l.s[l.i], 'é' | '∅') {
                return true;
            }
            l.i += 1;
        }
    }
    false
}
pub fn read_hsf(t: &str) -> R<Sig> {
    if odd(t) {
        return R::Unclear("letters".into());
    }
    let mut l = L::new(t);
    let mut sig = Sig { ms: vec![], lf: vec![], gt: vec![] };
    let mut seen = vec![];
    let mut twice = None;
    loop {
        let a = l.i;
        let got = l.attempt(|l| {
            let k = if l.tok("@message") {
                0
            } else if l.tok("@lifeline") {
                1
            } else if l.tok("@gate") {
                2
            } else {
                return None;
            };
            if !l.tok("{") {
                return None;
            }
            let mut v = vec![l.label()?];
            while let Some(x) = l.attempt(|l| if l.tok(";") { l.label() } else { None }) {
                v.push(x);
            }
            l.tok(";");
            if l.tok("}") {
                Some((k, v))
            } else {
                None
            }
        });
        match got {
            None => {
                l.i = a;
                break;
            }
            Some((k, v)) => {
                if seen.contains(&k) {
                    twice = Some(k);
                }
                seen.push(k);
                [&mut sig.ms, &mut sig.lf, &mut sig.gt][k as usize].extend(v);
            }
        }
    }
    if !l.end() {
        return R::Bad(l.what());
    }
    if twice.is_some() {
        return R::Bad("a section is given twice".into());
    }
    for v in [&sig.ms, &sig.lf, &sig.gt] {
        for (i, x) in v.iter().enumerate() {
            if v[..i].contains(x) {
                return R::Unclear(format!("{} declared twice", x));
            }
        }
    }
    if sig.ms.len() > 200 || sig.lf.len() > 200 || sig.gt.len() > 200 {
        return R::Unclear("large".into());
    }
    R::Good(sig)
}
enum Raw {
    Empty,
    Com { o: Option<String>, sy: bool, m: String, t: Vec<String> },
    Op(&'static str, Vec<String>, Vec<RawAct>, Vec<Raw>),
    And,
}
fn com(l: &mut L) -> Option<Raw> {
    l.attempt(|l| {
        let o = l.attempt(|l| {
            let x = l.label()?;
            if l.tok("--") {
                Some(x)
            } else {
                None
            }
        });
        let kind = l.attempt(|l| {
            if !l.tok("<") {
                return None;
            }
            let sy = if l.tok("asynch") {
                false
            } else if l.tok("synch") {
                true
            } else {
                return None;
            };
            if l.tok(">") {
                Some(sy)
            } else {
                None
            }
        });
        let m = l.label()?;
        if !l.tok("->") {
            return None;
        }
        let t = if let Some(x) = l.label() {
            vec![x]
        } else if let Some(v) = l.list() {
            v
        } else if l.tok("|") {
            vec![]
        } else {
            return None;
        };
        Some(Raw::Com { o, sy: kind == Some(true), m, t })
    })
}
fn parts(l: &mut L) -> Option<Vec<Raw>> {
    if !l.tok("(") {
        return None;
    }
    let mut v = vec![inter(l)?];
    while l.tok(",") {
        v.push(inter(l)?);
    }
    if l.tok(")") {
        Some(v)
    } else {
        None
    }
}
fn inter(l: &mut L) -> Option<Raw> {
    if let Some(x) = com(l) {
        return Some(x);
    }
    for op in ["strict", "seq", "coreg", "alt", "par", "loop", "sync", "and"] {
        let x = l.attempt(|l| {
            if !l.tok(op) {
                return None;
            }
            let (mut lfs, mut acts) = (vec![], vec![]);
            match op {
                "coreg" => lfs = l.list()?,
                "loop" => {
                    lfs = vec![["S", "H", "W", "P"].iter().find(|k| l.tok(k))?.to_string()];
                }
                "sync" => {
                    acts = match l.set() {
                        Some(v) => v,
                        None => {
                            if !l.tok("(") {
                                return None;
                            }
                            let a = l.action()?;
                            if !l.tok(")") {
                                return None;
                            }
                            vec![a]
                        }
                    }
                }
                _ => {}
            }
            let v = parts(l)?;
            if (op == "loop") != (v.len() == 1) {
                return None;
            }
            Some(if op == "and" { Raw::And } else { Raw::Op(op, lfs, acts, v) })
        });
        if x.is_some() {
            return x;
        }
    }
    if l.tok("o") || l.tok("∅") {
        return Some(Raw::Empty);
    }
    None
}
fn act(a: &RawAct, s: &Sig) -> Result<Act, String> {
    Ok(Act { lf: s.lfid(&a.0).ok_or(format!("no lifeline {}", a.0))?, em: a.1, msg: s.msid(&a.2).ok_or(format!("no message {}", a.2))? })
}
fn resolve(x: &Raw, s: &Sig, unclear: &mut bool) -> Result<T, String> {
    let lf = |n: &String| s.lfid(n).ok_or(format!("no lifeline {}", n));
    let distinct = |v: &[u8]| -> Result<(), String> {
        for (i, a) in v.iter().enumerate() {
            if v[..i].contains(a) {
                return Err(format!("{} given twice", s.lf[*a as usize]));
            }
        }
        Ok(())
    };
    Ok(match x {
        Raw::Empty => T::E,
        Raw::And => {
            *unclear = true;
            T::E
        }
        Raw::Com { o, sy, m, t } => {
            let m = s.msid(m).ok_or(format!("no message {}", m))?;
            match o.as_ref().map(|n| (s.lfid(n), s.gtid(n), n)) {
                Some((Some(o), _, _)) => {
                    let mut v = vec![];
                    for n in t {
                        let x = match (s.lfid(n), s.gtid(n)) {
                            (Some(l), _) => Tgt::Lf(l),
                            (_, Some(g)) => Tgt::Gt(g),
                            _ => return Err(format!("no lifeline or gate {}", n)),
                        };
                        if v.contains(&x) {
                            return Err(format!("{} given twice", n));
                        }
                        v.push(x);
                    }
                    T::Em { o, m, sy: *sy, t: v }
                }
                Some((None, None, n)) => return Err(format!("no lifeline or gate {}", n)),
                g => {
                    let g = g.and_then(|x| x.1);
                    let r = t.iter().map(lf).collect::<Result<Vec<u8>, String>>()?;
                    distinct(&r)?;
                    if r.is_empty() {
                        return Err("an action without any lifeline".into());
                    }
                    T::Rc { g, m, sy: *sy, r }
                }
            }
        }
        Raw::Op(op, lfs, acts, v) => {
            let co: Vec<u8> = if *op == "coreg" { lfs.iter().map(lf).collect::<Result<_, _>>()? } else { vec![] };
            distinct(&co)?;
            let mut sy = acts.iter().map(|a| act(a, s)).collect::<Result<Vec<Act>, String>>()?;
            sy.sort();
            sy.dedup();
            let mut k = v.iter().map(|y| resolve(y, s, unclear)).collect::<Result<Vec<T>, String>>()?;
            let mut t = k.pop().unwrap();
            if *op == "loop" {
                let k = match lfs[0].as_str() {
                    "S" => LK::S,
                    "H" => LK::H,
                    "W" => LK::W,
                    _ => LK::P,
                };
                return Ok(T::Lp(k, bx(t)));
            }
            while let Some(a) = k.pop() {
                let (a, b) = (bx(a), bx(t));
                t = match *op {
                    "strict" => T::St(a, b),
                    "seq" => T::Sq(a, b),
                    "coreg" => T::Co(co.clone(), a, b),
                    "alt" => T::Al(a, b),
                    "par" => T::Pa(a, b),
                    _ => T::Sy(sy.clone(), a, b),
                };
            }
            t
        }
    })
}
pub fn read_hif(t: &str, s: &Sig) -> R<T> {
    if odd(t) {
        return R::Unclear("letters".into());
    }
    let mut l = L::new(t);
    let x = inter(&mut l);
    let x = match x {
        Some(x) if l.end() => x,
        _ => return R::Bad(l.what()),
    };
    let mut unclear = false;
    match resolve(&x, s, &mut unclear) {
        Err(e) => R::Bad(e),
        Ok(_) if unclear => R::Unclear("operator and".into()),
        Ok(t) => R::Good(t),
    }
}
fn sequence(l: &mut L) -> Vec<Vec<RawAct>> {
    let elt = |l: &mut L| l.action().map(|a| vec![a]).or_else(|| l.set());
    let mut v = vec![];
    if let Some(x) = elt(l) {
        v.push(x);
        while let Some(x) = l.attempt(|l| if l.tok(".") { elt(l) } else { None }) {
            v.push(x);
        }
    }
    v
}
/// every canal with the lifelines it is said to be of, then the lifelines not mentioned, each on its own
pub fn read_htf(t: &str, s: &Sig) -> R<Mu> {
    if odd(t) {
        return R::Unclear("letters".into());
    }
    enum C {
        Any,
        All,
        Of(Vec<String>),
    }
    let mut l = L::new(t);
    let canals = l.attempt(|l| {
        if !l.tok("{") {
            return None;
        }
        let canal = |l: &mut L| {
            l.attempt(|l| {
                if !l.tok("[") {
                    return None;
                }
                let c = if l.tok("#any") {
                    C::Any
                } else if l.tok("#all") {
                    C::All
                } else {
                    let mut v = vec![l.label()?];
                    while l.tok(",") {
                        v.push(l.label()?);
                    }
                    C::Of(v)
                };
                if !l.tok("]") {
                    return None;
                }
                Some((c, sequence(l)))
            })
        };
        let mut v = vec![];
        if let Some(x) = canal(l) {
            v.push(x);
            while let Some(x) = l.attempt(|l| if l.tok(";") { canal(l) } else { None }) {
                v.push(x);
            }
        }
        l.tok(";");
        if l.tok("}") {
            Some(v)
        } else {
            None
        }
    });
    let canals = canals.unwrap_or_else(|| vec![(C::All, sequence(&mut l))]);
    if !l.end() {
        return R::Bad(l.what());
    }
    let mut mu = Mu { colocs: vec![], logs: vec![] };
    let mut taken: Vec<u8> = vec![];
    for (c, seq) in canals {
        let mut own: Vec<u8> = vec![];
        match &c {
            C::Of(v) => {
                for n in v {
                    match s.lfid(n) {
                        None => return R::Bad(format!("no lifeline {}", n)),
                        Some(l) if taken.contains(&l) => return R::Bad(format!("{} in two canals", n)),
                        Some(l) => own.push(l),
                    }
                }
            }
            C::All => own = (0..s.lf.len() as u8).filter(|l| !taken.contains(l)).collect(),
            C::Any => {}
        }
        let mut log = vec![];
        for e in seq {
            let mut m: MAct = vec![];
            for a in &e {
                let a = match act(a, s) {
                    Ok(a) => a,
                    Err(e) => return R::Bad(e),
                };
                if taken.contains(&a.lf) {
                    return R::Bad(format!("{} in two canals", s.lf[a.lf as usize]));
                }
                if !own.contains(&a.lf) {
                    if !matches!(c, C::Any) {
                        return R::Bad(format!("{} is of another canal", s.lf[a.lf as usize]));
                    }
                    own.push(a.lf);
                }
                m.push(a);
            }
            m.sort();
            m.dedup();
            log.push(m);
        }
        own.sort();
        own.dedup();
        if own.is_empty() {
            return R::Unclear("a canal without lifelines".into());
        }
        taken.extend(own.iter());
        mu.colocs.push(own);
        mu.logs.push(log);
    }
    for l in 0..s.lf.len() as u8 {
        if !taken.contains(&l) {
            mu.colocs.push(vec![l]);
            mu.logs.push(vec![]);
        }
    }
    R::Good(mu)
}
