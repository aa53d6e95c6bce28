//! Interaction terms, signatures, actions; printing to and parsing from the tool's text formats.
//! Independent of the code under test (own syntax tree, own printer, own parser).
use std::collections::BTreeSet;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Act {
    pub lf: u8,
    pub em: bool,
    pub msg: u8,
}
pub type MAct = Vec<Act>; // sorted, non-empty, distinct

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum LK {
    S,
    H,
    W,
    P,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Tgt {
    Lf(u8),
    Gt(u8),
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum T {
    E,
    Em { o: u8, m: u8, sy: bool, t: Vec<Tgt> },
    Rc { g: Option<u8>, m: u8, sy: bool, r: Vec<u8> },
    St(Box<T>, Box<T>),
    Sq(Box<T>, Box<T>),
    Co(Vec<u8>, Box<T>, Box<T>),
    Al(Box<T>, Box<T>),
    Pa(Box<T>, Box<T>),
    Sy(Vec<Act>, Box<T>, Box<T>),
    Lp(LK, Box<T>),
}
use T::*;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Sig {
    pub ms: Vec<String>,
    pub lf: Vec<String>,
    pub gt: Vec<String>,
}
impl Sig {
    pub fn hsf(&self) -> String {
        let mut s = format!("@message{{{}}}\n@lifeline{{{}}}\n", self.ms.join(";"), self.lf.join(";"));
        if !self.gt.is_empty() {
            s.push_str(&format!("@gate{{{}}}\n", self.gt.join(";")));
        }
        s
    }
    pub fn parse(txt: &str) -> Option<Sig> {
        let mut sig = Sig { ms: vec![], lf: vec![], gt: vec![] };
        let t: String = txt.chars().filter(|c| !c.is_whitespace()).collect();
        for sec in t.split('@').skip(1) {
            let (k, rest) = sec.split_once('{')?;
            let body = rest.strip_suffix('}')?;
            let v: Vec<String> = body.split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
            match k {
                "message" => sig.ms.extend(v),
                "lifeline" => sig.lf.extend(v),
                "gate" => sig.gt.extend(v),
                _ => return None,
            }
        }
        Some(sig)
    }
    pub fn act(&self, a: &Act) -> String {
        format!("{}{}{}", self.lf[a.lf as usize], if a.em { "!" } else { "?" }, self.ms[a.msg as usize])
    }
    pub fn mact(&self, m: &MAct) -> String {
        if m.len() == 1 {
            self.act(&m[0])
        } else {
            format!("{{{}}}", m.iter().map(|a| self.act(a)).collect::<Vec<_>>().join(","))
        }
    }
    pub fn lfid(&self, n: &str) -> Option<u8> {
        self.lf.iter().position(|x| x == n).map(|x| x as u8)
    }
    pub fn msid(&self, n: &str) -> Option<u8> {
        self.ms.iter().position(|x| x == n).map(|x| x as u8)
    }
    pub fn gtid(&self, n: &str) -> Option<u8> {
        self.gt.iter().position(|x| x == n).map(|x| x as u8)
    }
}

pub fn bx(t: T) -> Box<T> {
    Box::new(t)
}

impl T {
    pub fn size(&self) -> usize {
        match self {
            E | Em { .. } | Rc { .. } => 1,
            St(a, b) | Sq(a, b) | Co(_, a, b) | Al(a, b) | Pa(a, b) | Sy(_, a, b) => 1 + a.size() + b.size(),
            Lp(_, a) => 1 + a.size(),
        }
    }
    pub fn has_sync_op(&self) -> bool {
        self.any(&|t| matches!(t, Sy(..)))
    }
    pub fn has_synch_act(&self) -> bool {
        self.any(&|t| match t {
            Em { sy: true, .. } | Rc { sy: true, .. } => true,
            _ => false,
        })
    }
    pub fn has_loop(&self) -> bool {
        self.any(&|t| matches!(t, Lp(..)))
    }
    pub fn any(&self, f: &dyn Fn(&T) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            E | Em { .. } | Rc { .. } => false,
            St(a, b) | Sq(a, b) | Co(_, a, b) | Al(a, b) | Pa(a, b) | Sy(_, a, b) => a.any(f) || b.any(f),
            Lp(_, a) => a.any(f),
        }
    }
    pub fn loops(&self) -> usize {
        match self {
            E | Em { .. } | Rc { .. } => 0,
            St(a, b) | Sq(a, b) | Co(_, a, b) | Al(a, b) | Pa(a, b) | Sy(_, a, b) => a.loops() + b.loops(),
            Lp(_, a) => 1 + a.loops(),
        }
    }
    pub fn loop_nest(&self) -> usize {
        match self {
            E | Em { .. } | Rc { .. } => 0,
            St(a, b) | Sq(a, b) | Co(_, a, b) | Al(a, b) | Pa(a, b) | Sy(_, a, b) => a.loop_nest().max(b.loop_nest()),
            Lp(_, a) => 1 + a.loop_nest(),
        }
    }
    /// number of atomic actions
    pub fn acts_count(&self) -> usize {
        let mut v = vec![];
        self.all_acts(&mut v);
        v.len()
    }
    pub fn all_acts(&self, out: &mut Vec<Act>) {
        match self {
            E => {}
            Em { o, m, t, .. } => {
                out.push(Act { lf: *o, em: true, msg: *m });
                for x in t {
                    if let Tgt::Lf(l) = x {
                        out.push(Act { lf: *l, em: false, msg: *m });
                    }
                }
            }
            Rc { m, r, .. } => {
                for l in r {
                    out.push(Act { lf: *l, em: false, msg: *m });
                }
            }
            St(a, b) | Sq(a, b) | Co(_, a, b) | Al(a, b) | Pa(a, b) | Sy(_, a, b) => {
                a.all_acts(out);
                b.all_acts(out);
            }
            Lp(_, a) => a.all_acts(out),
        }
    }
    pub fn lifelines(&self) -> BTreeSet<u8> {
        let mut v = vec![];
        self.all_acts(&mut v);
        v.into_iter().map(|a| a.lf).collect()
    }

    pub fn hif(&self, s: &Sig) -> String {
        fn bin(op: &str, a: &T, b: &T, s: &Sig) -> String {
            format!("{}({},{})", op, a.hif(s), b.hif(s))
        }
        match self {
            E => "o".to_string(),
            Em { o, m, sy, t } => {
                let tg: Vec<String> = t
                    .iter()
                    .map(|x| match x {
                        Tgt::Lf(l) => s.lf[*l as usize].clone(),
                        Tgt::Gt(g) => s.gt[*g as usize].clone(),
                    })
                    .collect();
                let ts = match tg.len() {
                    0 => "|".to_string(),
                    1 => tg[0].clone(),
                    _ => format!("({})", tg.join(",")),
                };
                format!("{} -- {}{} -> {}", s.lf[*o as usize], if *sy { "<synch>" } else { "" }, s.ms[*m as usize], ts)
            }
            Rc { g, m, sy, r } => {
                let tg: Vec<String> = r.iter().map(|l| s.lf[*l as usize].clone()).collect();
                let ts = match tg.len() {
                    1 => tg[0].clone(),
                    _ => format!("({})", tg.join(",")),
                };
                let gs = match g {
                    None => "".to_string(),
                    Some(x) => format!("{} -- ", s.gt[*x as usize]),
                };
                format!("{}{}{} -> {}", gs, if *sy { "<synch>" } else { "" }, s.ms[*m as usize], ts)
            }
            St(a, b) => bin("strict", a, b, s),
            Sq(a, b) => bin("seq", a, b, s),
            Co(c, a, b) => {
                let l: Vec<String> = c.iter().map(|l| s.lf[*l as usize].clone()).collect();
                bin(&format!("coreg({})", l.join(",")), a, b, s)
            }
            Al(a, b) => bin("alt", a, b, s),
            Pa(a, b) => bin("par", a, b, s),
            Sy(acts, a, b) => {
                let l: Vec<String> = acts.iter().map(|x| s.act(x)).collect();
                let ss = if l.len() == 1 { format!("({})", l[0]) } else { format!("{{{}}}", l.join(",")) };
                bin(&format!("sync{}", ss), a, b, s)
            }
            Lp(k, a) => format!(
                "loop{}({})",
                match k {
                    LK::S => "S",
                    LK::H => "H",
                    LK::W => "W",
                    LK::P => "P",
                },
                a.hif(s)
            ),
        }
    }
    /// the interaction as users write it: operators of many operands, marks that say the default, comments and
    /// spaces; how is drawn from the text itself, so that a replay writes alike
    pub fn hif_file(&self, s: &Sig) -> String {
        let plain = self.hif(s);
        let mut r = crate::rng::Rng::new(crate::rng::hash_str(&plain) ^ 0x5151);
        if r.chance(1, 2) {
            return plain;
        }
        let t = self.spelled(s, &mut r);
        if r.chance(1, 4) {
            format!("\n/* seq(o,o) */ {}\n\n", t)
        } else {
            t
        }
    }
    fn spelled(&self, s: &Sig, r: &mut crate::rng::Rng) -> String {
        type R = crate::rng::Rng;
        fn sp(r: &mut R) -> &'static str {
            match r.below(12) {
                0 => " ",
                1 => "\n  ",
                2 => " /* , ) */ ",
                3 => "\t",
                _ => "",
            }
        }
        // the operands of a right comb of one operator
        fn args(t: &T, same: &dyn Fn(&T) -> Option<(T, T)>, s: &Sig, r: &mut R) -> String {
            let (a, mut rest) = same(t).unwrap();
            let mut v = vec![a.spelled(s, r)];
            loop {
                match same(&rest) {
                    Some((x, y)) if r.chance(7, 8) => {
                        v.push(x.spelled(s, r));
                        rest = y;
                    }
                    _ => break,
                }
            }
            v.push(rest.spelled(s, r));
            let mut o = String::from(sp(r));
            o.push('(');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push_str(sp(r));
                o.push_str(x);
                o.push_str(sp(r));
            }
            o.push(')');
            o
        }
        match self {
            E => if r.chance(1, 3) { "∅" } else { "o" }.to_string(),
            Em { .. } | Rc { .. } => {
                let mut x = self.hif(s);
                if !x.contains("<synch>") && r.chance(1, 5) {
                    x = match x.find(" -- ") {
                        Some(k) => format!("{} -- <asynch>{}", &x[..k], &x[k + 4..]),
                        None => format!("<asynch> {}", x),
                    };
                }
                if r.chance(1, 6) {
                    x = x.replace("<synch>", "< synch >");
                }
                if r.chance(1, 6) {
                    x = x.replace(" -> ", "->").replace(" -- ", "--");
                }
                if r.chance(1, 8) && !x.ends_with(')') && !x.ends_with('|') {
                    // one target, as a list
                    if let Some(k) = x.find("->") {
                        x = format!("{}-> ( {} )", &x[..k], x[k + 2..].trim());
                    }
                }
                x
            }
            St(..) => format!("strict{}", args(self, &|t| if let St(a, b) = t { Some(((**a).clone(), (**b).clone())) } else { None }, s, r)),
            Sq(..) => format!("seq{}", args(self, &|t| if let Sq(a, b) = t { Some(((**a).clone(), (**b).clone())) } else { None }, s, r)),
            Al(..) => format!("alt{}", args(self, &|t| if let Al(a, b) = t { Some(((**a).clone(), (**b).clone())) } else { None }, s, r)),
            Pa(..) => format!("par{}", args(self, &|t| if let Pa(a, b) = t { Some(((**a).clone(), (**b).clone())) } else { None }, s, r)),
            Co(c, ..) => {
                let l: Vec<String> = c.iter().map(|l| s.lf[*l as usize].clone()).collect();
                let x = args(self, &|t| match t { Co(d, a, b) if d == c => Some(((**a).clone(), (**b).clone())), _ => None }, s, r);
                format!("coreg{}({}){}", sp(r), l.join(&format!("{},", sp(r))), x)
            }
            Sy(acts, ..) => {
                let l: Vec<String> = acts.iter().map(|x| s.act(x)).collect();
                let ss = if l.len() == 1 { format!("({})", l[0]) } else { format!("{{{}}}", l.join(&format!("{},", sp(r)))) };
                let x = args(self, &|t| match t { Sy(d, a, b) if d == acts => Some(((**a).clone(), (**b).clone())), _ => None }, s, r);
                format!("sync{}{}{}", sp(r), ss, x)
            }
            Lp(..) => {
                let x = self.hif(s);
                let a = if let Lp(_, a) = self { a } else { unreachable!() };
                format!("loop{}{}({}{})", sp(r), &x[4..5], sp(r), a.spelled(s, r))
            }
        }
    }
}

// ---------------------------------------------------------------- parser of interaction files
pub struct P<'a> {
    s: Vec<char>,
    i: usize,
    sig: &'a Sig,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && self.s[self.i].is_whitespace() {
                self.i += 1;
            }
            if self.i + 1 < self.s.len() && self.s[self.i] == '/' && self.s[self.i + 1] == '*' {
                self.i += 2;
                while self.i + 1 < self.s.len() && !(self.s[self.i] == '*' && self.s[self.i + 1] == '/') {
                    self.i += 1;
                }
                self.i += 2;
            } else {
                return;
            }
        }
    }
    fn tok(&mut self, t: &str) -> bool {
        self.ws();
        let tc: Vec<char> = t.chars().collect();
        if self.i + tc.len() <= self.s.len() && self.s[self.i..self.i + tc.len()] == tc[..] {
            self.i += tc.len();
            true
        } else {
            false
        }
    }
    fn label(&mut self) -> Option<String> {
        self.ws();
        let st = self.i;
        if self.i < self.s.len() && self.s[self.i].is_alphabetic() {
            self.i += 1;
            while self.i < self.s.len() && (self.s[self.i].is_alphanumeric() || self.s[self.i] == '_') {
                self.i += 1;
            }
            Some(self.s[st..self.i].iter().collect())
        } else {
            None
        }
    }
    fn list(&mut self) -> Option<Vec<String>> {
        if !self.tok("(") {
            return None;
        }
        let mut v = vec![self.label()?];
        while self.tok(",") {
            v.push(self.label()?);
        }
        if self.tok(")") {
            Some(v)
        } else {
            None
        }
    }
    fn action(&mut self) -> Option<Act> {
        let l = self.label()?;
        let em = if self.tok("!") {
            true
        } else if self.tok("?") {
            false
        } else {
            return None;
        };
        let m = self.label()?;
        Some(Act { lf: self.sig.lfid(&l)?, em, msg: self.sig.msid(&m)? })
    }
    fn comm(&mut self) -> Option<T> {
        let save = self.i;
        let mut origin = None;
        if let Some(l) = self.label() {
            if self.tok("--") {
                origin = Some(l);
            } else {
                self.i = save;
            }
        }
        let mut sy = false;
        if self.tok("<") {
            if self.tok("synch") {
                sy = true;
            } else if !self.tok("asynch") {
                return None;
            }
            if !self.tok(">") {
                return None;
            }
        }
        let m = self.label()?;
        if !self.tok("->") {
            return None;
        }
        let targets = if self.tok("|") {
            vec![]
        } else {
            self.ws();
            if self.i < self.s.len() && self.s[self.i] == '(' {
                self.list()?
            } else {
                vec![self.label()?]
            }
        };
        let msg = self.sig.msid(&m)?;
        if let Some(o) = &origin {
            if let Some(ol) = self.sig.lfid(o) {
                let mut t = vec![];
                for x in targets {
                    if let Some(l) = self.sig.lfid(&x) {
                        t.push(Tgt::Lf(l));
                    } else {
                        t.push(Tgt::Gt(self.sig.gtid(&x)?));
                    }
                }
                return Some(Em { o: ol, m: msg, sy, t });
            }
            let g = self.sig.gtid(o)?;
            let r: Option<Vec<u8>> = targets.iter().map(|x| self.sig.lfid(x)).collect();
            return Some(Rc { g: Some(g), m: msg, sy, r: r? });
        }
        let r: Option<Vec<u8>> = targets.iter().map(|x| self.sig.lfid(x)).collect();
        Some(Rc { g: None, m: msg, sy, r: r? })
    }
    fn args(&mut self) -> Option<Vec<T>> {
        if !self.tok("(") {
            return None;
        }
        let mut v = vec![self.term()?];
        while self.tok(",") {
            v.push(self.term()?);
        }
        if self.tok(")") {
            Some(v)
        } else {
            None
        }
    }
    fn term(&mut self) -> Option<T> {
        self.ws();
        let save = self.i;
        if let Some(t) = self.comm() {
            return Some(t);
        }
        self.i = save;
        if self.tok("∅") {
            return Some(E);
        }
        let l = self.label()?;
        // n-ary operators are folded to the right
        fn fold(v: Vec<T>, f: &dyn Fn(T, T) -> T) -> Option<T> {
            if v.len() < 2 {
                return None;
            }
            let mut it = v.into_iter().rev();
            let mut acc = it.next().unwrap();
            for x in it {
                acc = f(x, acc);
            }
            Some(acc)
        }
        match l.as_str() {
            "o" => Some(E),
            "strict" => fold(self.args()?, &|a, b| St(bx(a), bx(b))),
            "seq" => fold(self.args()?, &|a, b| Sq(bx(a), bx(b))),
            "alt" => fold(self.args()?, &|a, b| Al(bx(a), bx(b))),
            "par" => fold(self.args()?, &|a, b| Pa(bx(a), bx(b))),
            "coreg" => {
                let ls = self.list()?;
                let ids: Option<Vec<u8>> = ls.iter().map(|x| self.sig.lfid(x)).collect();
                let ids = ids?;
                fold(self.args()?, &|a, b| Co(ids.clone(), bx(a), bx(b)))
            }
            "sync" => {
                let mut acts = vec![];
                if self.tok("(") {
                    acts.push(self.action()?);
                    if !self.tok(")") {
                        return None;
                    }
                } else if self.tok("{") {
                    acts.push(self.action()?);
                    while self.tok(",") {
                        acts.push(self.action()?);
                    }
                    if !self.tok("}") {
                        return None;
                    }
                } else {
                    return None;
                }
                fold(self.args()?, &|a, b| Sy(acts.clone(), bx(a), bx(b)))
            }
            "loopS" | "loopH" | "loopW" | "loopP" => {
                let k = match &l[4..] {
                    "S" => LK::S,
                    "H" => LK::H,
                    "W" => LK::W,
                    _ => LK::P,
                };
                let mut v = self.args()?;
                if v.len() != 1 {
                    return None;
                }
                Some(Lp(k, bx(v.pop().unwrap())))
            }
            _ => None,
        }
    }
}
pub fn parse_hif(txt: &str, sig: &Sig) -> Option<T> {
    let mut p = P { s: txt.chars().collect(), i: 0, sig };
    let t = p.term()?;
    p.ws();
    if p.i == p.s.len() {
        Some(t)
    } else {
        None
    }
}

// ---------------------------------------------------------------- multi-traces
/// colocs: pairwise disjoint sets of lifelines, in file order; logs: one per coloc
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Mu {
    pub colocs: Vec<Vec<u8>>,
    pub logs: Vec<Vec<MAct>>,
}
impl Mu {
    pub fn len(&self) -> usize {
        self.logs.iter().map(|l| l.len()).sum()
    }
    pub fn htf(&self, s: &Sig) -> String {
        let mut v = vec![];
        for (c, l) in self.colocs.iter().zip(&self.logs) {
            let names: Vec<String> = c.iter().map(|x| s.lf[*x as usize].clone()).collect();
            let evs: Vec<String> = l.iter().map(|m| s.mact(m)).collect();
            v.push(format!("[{}] {}", names.join(","), evs.join(".")));
        }
        format!("{{\n{}\n}}\n", v.join(";\n"))
    }
    pub fn parse(txt: &str, s: &Sig) -> Option<Mu> {
        let mut p = P { s: txt.chars().collect(), i: 0, sig: s };
        if !p.tok("{") {
            return None;
        }
        let mut mu = Mu { colocs: vec![], logs: vec![] };
        loop {
            if p.tok("}") {
                break;
            }
            if !p.tok("[") {
                return None;
            }
            let mut c = vec![];
            if !p.tok("]") {
                c.push(s.lfid(&p.label()?)?);
                while p.tok(",") {
                    c.push(s.lfid(&p.label()?)?);
                }
                if !p.tok("]") {
                    return None;
                }
            }
            let mut log = vec![];
            loop {
                p.ws();
                if p.i >= p.s.len() {
                    return None;
                }
                let ch = p.s[p.i];
                if ch == ';' || ch == '}' {
                    break;
                }
                if !log.is_empty() && !p.tok(".") {
                    return None;
                }
                if p.tok("{") {
                    let mut m = vec![p.action()?];
                    while p.tok(",") {
                        m.push(p.action()?);
                    }
                    if !p.tok("}") {
                        return None;
                    }
                    m.sort();
                    m.dedup();
                    log.push(m);
                } else {
                    log.push(vec![p.action()?]);
                }
            }
            mu.colocs.push(c);
            mu.logs.push(log);
            if !p.tok(";") {
                if p.tok("}") {
                    break;
                }
                return None;
            }
        }
        p.ws();
        if p.i == p.s.len() {
            Some(mu)
        } else {
            None
        }
    }
    /// canonical: colocs internally sorted (content order of canals kept)
    pub fn sorted_colocs(&self) -> Mu {
        let mut m = self.clone();
        for c in m.colocs.iter_mut() {
            c.sort();
        }
        m
    }
    /// canals sorted by their smallest lifeline
    pub fn canonical(&self) -> Mu {
        let m = self.sorted_colocs();
        let mut z: Vec<(Vec<u8>, Vec<MAct>)> = m.colocs.into_iter().zip(m.logs).collect();
        z.sort();
        Mu { colocs: z.iter().map(|x| x.0.clone()).collect(), logs: z.into_iter().map(|x| x.1).collect() }
    }
    /// projection of a global trace on a partition
    /// the logs as users write them: lifelines of a canal in any order, inferred from its events or all that are left,
    /// a plain sequence for a global log, comments and spaces; drawn from the text itself
    pub fn htf_file(&self, s: &Sig) -> String {
        let plain = self.htf(s);
        let r = &mut crate::rng::Rng::new(crate::rng::hash_str(&plain) ^ 0x1234);
        if r.chance(1, 2) {
            return plain;
        }
        let sp = |r: &mut crate::rng::Rng| *r.pick(&["", "", "", " ", "\n\t", " /* ; [l1] */ "]);
        let seq = |l: &Vec<MAct>, r: &mut crate::rng::Rng| -> String {
            let mut o = String::new();
            for (i, m) in l.iter().enumerate() {
                if i > 0 {
                    o.push_str(sp(r));
                    o.push('.');
                    o.push_str(sp(r));
                }
                let mut m = m.clone();
                r.shuffle(&mut m);
                o.push_str(&s.mact(&m));
            }
            o
        };
        let mut left: Vec<u8> = (0..s.lf.len() as u8).collect();
        let mut at: Vec<usize> = (0..self.logs.len()).collect();
        if r.chance(1, 2) {
            r.shuffle(&mut at);
        }
        let mut v = vec![];
        for i in at {
            let mut c = self.colocs[i].clone();
            r.shuffle(&mut c);
            let mut on: Vec<u8> = self.logs[i].iter().flatten().map(|a| a.lf).collect();
            on.sort();
            on.dedup();
            let mut own = self.colocs[i].clone();
            own.sort();
            let head = if on == own && r.chance(1, 2) {
                "#any".to_string()
            } else if left == own && r.chance(2, 3) {
                "#all".to_string()
            } else {
                c.iter().map(|x| s.lf[*x as usize].clone()).collect::<Vec<_>>().join(&format!("{},{}", sp(r), sp(r)))
            };
            left.retain(|x| !own.contains(x));
            v.push(format!("[{}{}{}]{}{}", sp(r), head, sp(r), sp(r), seq(&self.logs[i], r)));
        }
        let t = if self.logs.len() == 1 && self.colocs[0].len() == s.lf.len() && r.chance(1, 3) {
            seq(&self.logs[0], r)
        } else {
            format!("{}{{{}{}}}\n", sp(r), v.join(&format!("{};", sp(r))), if v.is_empty() { "" } else { *r.pick(&["", ";", "\n"]) })
        };
        // (whether it means the same is for the independent reader to say)
        match crate::reader::read_htf(&t, s) {
            crate::reader::R::Good(m) if crate::oracle::covered(&m, s.lf.len()).canonical() == crate::oracle::covered(self, s.lf.len()).canonical() => t,
            _ => plain,
        }
    }
    pub fn project(colocs: &[Vec<u8>], tr: &[MAct]) -> Mu {
        let logs = colocs.iter().map(|c| tr.iter().filter_map(|m| proj(m, c)).collect()).collect();
        Mu { colocs: colocs.to_vec(), logs }
    }
}
pub fn proj(m: &MAct, c: &[u8]) -> Option<MAct> {
    let v: MAct = m.iter().filter(|a| c.contains(&a.lf)).cloned().collect();
    if v.is_empty() {
        None
    } else {
        Some(v)
    }
}
