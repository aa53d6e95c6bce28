//! Seeded generation of systems (signature + interaction), of their runs under a seeded scheduler, and of
//! the observation faults that hit the logs.
use crate::refsem::*;
use crate::rng::Rng;
use crate::term::*;
use T::*;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub lf: (usize, usize),
    pub ms: (usize, usize),
    pub gates: bool,
    pub size: (usize, usize),
    pub loops: bool,
    pub sync_op: bool,
    pub synch: bool,
    pub strict: bool,
    pub coreg: bool,
    pub broadcast: bool,
    pub odd_names: bool,
    pub pool: Vec<T>,
    /// how often (in percent) a protocol of messages that follow one another
    pub proto: u32,
}
impl Cfg {
    pub fn std() -> Cfg {
        Cfg {
            lf: (1, 4),
            ms: (1, 4),
            gates: true,
            size: (1, 9),
            loops: true,
            sync_op: true,
            synch: true,
            strict: true,
            coreg: true,
            broadcast: true,
            odd_names: true,
            pool: vec![],
            proto: 7,
        }
    }
}
const LN: &[&str] = &["l1", "l2", "l3", "l4", "l5"];
const LN2: &[&str] = &["client", "broker", "orderer", "Server", "o", "node_1", "o2", "a", "altx", "parser", "seq1", "loopy"];
const MN: &[&str] = &["m1", "m2", "m3", "m4"];
const MN2: &[&str] = &["req", "ack", "ok", "o", "a1", "Pub", "on", "strictly", "x_1", "orig"];

pub fn sig(r: &mut Rng, c: &Cfg) -> Sig {
    let nl = r.range(c.lf.0, c.lf.1);
    let nm = r.range(c.ms.0, c.ms.1);
    let pick = |r: &mut Rng, a: &[&str], b: &[&str], n: usize| -> Vec<String> {
        if c.odd_names && r.chance(1, 3) {
            let mut v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
            r.shuffle(&mut v);
            v.truncate(n);
            v
        } else {
            a[..n].iter().map(|x| x.to_string()).collect()
        }
    };
    let lf = pick(r, LN, LN2, nl);
    let mut ms = pick(r, MN, MN2, nm);
    // names are unique over the whole signature
    for m in ms.iter_mut() {
        if lf.contains(m) {
            m.push_str("_m");
        }
    }
    let gt = if c.gates && r.chance(1, 3) { (0..r.range(1, 2)).map(|i| format!("g{}", i + 1)).collect() } else { vec![] };
    Sig { ms, lf, gt }
}
fn subset(r: &mut Rng, n: usize, k: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n as u8).collect();
    r.shuffle(&mut v);
    v.truncate(k.max(1).min(n));
    v
}
pub fn atom(r: &mut Rng, s: &Sig, c: &Cfg) -> T {
    if !c.pool.is_empty() {
        return r.pick(&c.pool).clone();
    }
    let m = r.below(s.ms.len()) as u8;
    let nl = s.lf.len();
    let sy = c.synch && r.chance(1, 8);
    match r.weighted(&[60, 12, 10, 4]) {
        0 => {
            let o = r.below(nl) as u8;
            let k = if c.broadcast && r.chance(1, 4) { r.range(2, 3) } else { 1 };
            let tg = subset(r, nl, k);
            let mut t: Vec<Tgt> = tg.into_iter().map(Tgt::Lf).collect();
            if !s.gt.is_empty() && r.chance(1, 5) {
                let g = Tgt::Gt(r.below(s.gt.len()) as u8);
                if r.chance(1, 2) {
                    t = vec![g];
                } else {
                    t.push(g);
                }
            }
            Em { o, m, sy, t }
        }
        1 => Em { o: r.below(nl) as u8, m, sy: false, t: vec![] },
        2 => {
            let k = if c.broadcast && r.chance(1, 4) { 2 } else { 1 };
            let g = if !s.gt.is_empty() && r.chance(1, 2) { Some(r.below(s.gt.len()) as u8) } else { None };
            Rc { g, m, sy, r: subset(r, nl, k) }
        }
        _ => E,
    }
}
pub fn term(r: &mut Rng, s: &Sig, c: &Cfg) -> T {
    let size = r.range(c.size.0, c.size.1);
    // sometimes only a few different atoms, so that the parts of the interaction compete for the same actions
    let c2;
    let c = if r.chance(1, 3) {
        let mut d = c.clone();
        let n = r.range(2, 4);
        let pool: Vec<T> = (0..n).map(|_| atom(r, s, c)).collect();
        d.pool = pool;
        c2 = d;
        &c2
    } else {
        c
    };
    if size >= 3 && c.sync_op && s.lf.len() > 1 && r.chance(1, 14) {
        return sync_term(r, s, c, size);
    }
    if size >= 3 && s.lf.len() > 1 {
        if r.chance(1, 14) {
            return prune_term(r, s, c);
        }
        if r.chance(c.proto, 100) {
            return protocol(r, s, c);
        }
        if c.coreg && c.synch && r.chance(1, 40) {
            return coreg_term(r, s, c);
        }
    }
    // one operator with many operands
    if size >= 4 && r.chance(1, 14) {
        let n = r.range(3, 4);
        let op = r.below(6);
        let cr: Vec<u8> = partition(r, s.lf.len()).swap_remove(0);
        // they often have a lifeline in common, on which they are or are not ordered
        let shared = if r.chance(1, 2) { Some(r.below(s.lf.len()) as u8) } else { None };
        let part = |r: &mut Rng| -> T {
            match shared {
                Some(l) if r.chance(4, 5) => atom_on(r, s, c, l, true),
                _ => {
                    let k = r.range(1, 2);
                    gterm(r, s, c, k, 1)
                }
            }
        };
        let mut t = part(r);
        for _ in 1..n {
            let (a, b) = (bx(part(r)), bx(t));
            t = match op {
                0 if c.strict => St(a, b),
                1 => Al(a, b),
                2 => Pa(a, b),
                3 | 4 if c.coreg => Co(cr.clone(), a, b),
                _ => Sq(a, b),
            };
        }
        return if c.loops && r.chance(1, 5) { Lp(*r.pick(&[LK::S, LK::H, LK::W, LK::P]), bx(t)) } else { t };
    }
    // a small loop around everything: several iterations overlap
    if size >= 3 && size <= 8 && c.loops && r.chance(1, 10) {
        let k = *r.pick(&[LK::H, LK::H, LK::W, LK::S, LK::P]);
        let n = size.min(5);
        return Lp(k, bx(gterm(r, s, c, n, 1)));
    }
    gterm(r, s, c, size, 0)
}
/// two parts that synchronise on an action which each may or may not come to, and what is around them
fn sync_term(r: &mut Rng, s: &Sig, c: &Cfg, size: usize) -> T {
    let mut tries = 0;
    let x = loop {
        let mut x = atom(r, s, c);
        // simultaneous actions, of which some are synchronised
        if c.synch && r.chance(1, 3) {
            x = match x {
                Em { o, m, t, .. } if t.iter().any(|y| matches!(y, Tgt::Lf(_))) => Em { o, m, sy: true, t },
                Rc { g, m, r, .. } if r.len() > 1 => Rc { g, m, sy: true, r },
                y => y,
            };
        }
        let mut v = vec![];
        x.all_acts(&mut v);
        tries += 1;
        if !v.is_empty() || tries > 9 {
            break x;
        }
    };
    let mut acts = vec![];
    x.all_acts(&mut acts);
    if acts.is_empty() {
        return gterm(r, s, c, size, 0);
    }
    let mut sset = vec![r.pick(&acts).clone()];
    if acts.len() > 1 && r.chance(1, 3) {
        sset = acts.clone();
    }
    sset.sort();
    sset.dedup();
    let k = (size / 3).max(1);
    let side = |r: &mut Rng| {
        let a = if r.chance(2, 3) { x.clone() } else { gterm(r, s, c, k, 1) };
        let b = gterm(r, s, c, k.min(3), 1);
        let t = match r.below(6) {
            0 => a,
            1 => Sq(bx(a), bx(b)),
            2 => Sq(bx(b), bx(a)),
            3 => St(bx(b), bx(a)),
            4 => Al(bx(a), bx(b)),
            _ => Pa(bx(a), bx(b)),
        };
        match r.below(4) {
            0 => Al(bx(t), bx(E)),
            1 if c.loops => Lp(*r.pick(&[LK::S, LK::H, LK::W, LK::P]), bx(t)),
            _ => t,
        }
    };
    let l = side(r);
    let mut m = side(r);
    // three or four parts that synchronise
    while size >= 4 && r.chance(1, 4) && m.size() < 12 {
        m = Sy(sset.clone(), bx(side(r)), bx(m));
    }
    let y = Sy(sset, bx(l), bx(m));
    let z = gterm(r, s, c, k.min(3), 0);
    match r.below(6) {
        0 => y,
        1 | 2 => Sq(bx(y), bx(z)),
        3 => Sq(bx(z), bx(y)),
        4 => Pa(bx(y), bx(z)),
        _ if c.loops => Lp(*r.pick(&[LK::S, LK::H, LK::W, LK::P]), bx(y)),
        _ => y,
    }
}
/// an atom that acts on that lifeline, or one that does not
fn atom_on(r: &mut Rng, s: &Sig, c: &Cfg, l: u8, on: bool) -> T {
    for _ in 0..12 {
        let x = atom(r, s, c);
        if x != E && x.lifelines().contains(&l) == on {
            return x;
        }
    }
    let others: Vec<u8> = (0..s.lf.len() as u8).filter(|x| (*x == l) == on).collect();
    Em { o: *r.pick(&others), m: r.below(s.ms.len()) as u8, sy: false, t: vec![] }
}
/// something of which a part has to go once a later action has been done on a lifeline
pub fn prune_term(r: &mut Rng, s: &Sig, c: &Cfg) -> T {
    let l = r.below(s.lf.len()) as u8;
    let x = atom_on(r, s, c, l, false);
    let part = |r: &mut Rng| {
        let kept = if r.chance(2, 3) { x.clone() } else { atom_on(r, s, c, l, false) };
        let lost = atom_on(r, s, c, l, true);
        let (kept, lost) = (bx(kept), bx(lost));
        let loops = c.loops && r.chance(1, 3);
        let lk = *r.pick(&[LK::S, LK::H, LK::W, LK::P]);
        match r.below(10) {
            7 if c.loops => Lp(lk, lost),
            8 if c.loops => Lp(lk, kept),
            9 => E,
            0 | 1 | 2 => {
                let y = if r.chance(1, 2) { Al(kept, lost) } else { Al(lost, kept) };
                if loops {
                    Lp(lk, bx(y))
                } else {
                    y
                }
            }
            3 if c.loops => Sq(kept, bx(Lp(lk, lost))),
            4 if c.loops => Pa(kept, bx(Lp(lk, lost))),
            5 => Al(bx(if r.chance(1, 2) { Sq(kept.clone(), lost) } else { Pa(lost, kept.clone()) }), kept),
            6 if c.loops => Lp(lk, bx(Sq(kept, lost))),
            _ => *kept,
        }
    };
    let (a, b) = (part(r), part(r));
    let mut acts = vec![];
    x.all_acts(&mut acts);
    let y = match r.below(7) {
        0 | 1 if c.sync_op && !acts.is_empty() => Sy(vec![r.pick(&acts).clone()], bx(a), bx(b)),
        2 if c.coreg => {
            let n = r.range(1, s.lf.len());
            let mut k = subset(r, s.lf.len(), n);
            k.sort();
            Co(k, bx(a), bx(b))
        }
        3 => Pa(bx(a), bx(b)),
        4 if c.strict => St(bx(a), bx(b)),
        5 => Al(bx(a), bx(b)),
        _ => Sq(bx(a), bx(b)),
    };
    let z = atom_on(r, s, c, l, true);
    let t = if c.coreg && r.chance(1, 6) {
        // a co-region elsewhere does not matter
        let k = r.below(s.lf.len()) as u8;
        Co(vec![k], bx(y), bx(z))
    } else {
        Sq(bx(y), bx(z))
    };
    if c.loops && r.chance(1, 6) {
        return Lp(*r.pick(&[LK::H, LK::W, LK::P]), bx(t));
    }
    t
}
/// a co-region of whose lifelines a communication of several lifelines only involves some
pub fn coreg_term(r: &mut Rng, s: &Sig, c: &Cfg) -> T {
    let k = r.range(2, s.lf.len().min(3));
    let inv = subset(r, s.lf.len(), k);
    let m = r.below(s.ms.len()) as u8;
    let sy = r.chance(3, 4);
    let com = Em { o: inv[0], m, sy, t: inv[1..].iter().map(|l| Tgt::Lf(*l)).collect() };
    let before = |r: &mut Rng| {
        let l = *r.pick(&inv);
        atom_on(r, s, c, l, true)
    };
    let mut a = before(r);
    if r.chance(1, 2) {
        let b = before(r);
        a = match r.below(4) {
            0 => Pa(bx(a), bx(b)),
            1 if c.loops => Lp(*r.pick(&[LK::S, LK::H, LK::W, LK::P]), bx(b)),
            2 => Al(bx(a), bx(b)),
            _ => Sq(bx(a), bx(b)),
        };
    }
    let mut z = com;
    if r.chance(1, 2) {
        let y = atom(r, s, c);
        z = match r.below(3) {
            0 => Al(bx(z), bx(y)),
            1 => Sq(bx(y), bx(z)),
            _ => Sq(bx(z), bx(y)),
        };
    }
    let mut l: Vec<u8> = inv.iter().filter(|_| r.chance(1, 2)).cloned().collect();
    if l.is_empty() {
        l.push(*r.pick(&inv));
    }
    l.sort();
    Co(l, bx(a), bx(z))
}
/// messages that follow one another from lifeline to lifeline, as protocols have them
pub fn protocol(r: &mut Rng, s: &Sig, c: &Cfg) -> T {
    let nl = s.lf.len();
    let mut from = r.below(nl);
    let n = r.range(2, 5);
    let mut parts = vec![];
    for _ in 0..n {
        let to = (from + r.range(1, (nl - 1).max(1))) % nl;
        let m = r.below(s.ms.len()) as u8;
        let mut tg = vec![Tgt::Lf(to as u8)];
        if c.broadcast && nl > 2 && r.chance(1, 8) {
            let k = (0..nl).find(|k| *k != from && *k != to).unwrap();
            tg.push(Tgt::Lf(k as u8));
        }
        let x = Em { o: from as u8, m, sy: c.synch && r.chance(1, 10), t: tg };
        parts.push(match r.below(8) {
            0 => Al(bx(x), bx(E)),
            1 => Al(bx(x), bx(atom(r, s, c))),
            2 if c.loops => Lp(*r.pick(&[LK::S, LK::H, LK::W, LK::P]), bx(x)),
            _ => x,
        });
        if r.chance(4, 5) {
            from = to;
        } else {
            from = r.below(nl);
        }
    }
    let mut t = parts.pop().unwrap();
    while let Some(x) = parts.pop() {
        t = match r.below(8) {
            0 if c.strict => St(bx(x), bx(t)),
            1 => Pa(bx(x), bx(t)),
            _ => Sq(bx(x), bx(t)),
        };
    }
    if c.loops && r.chance(1, 8) {
        t = Lp(*r.pick(&[LK::S, LK::H, LK::W]), bx(t));
    }
    t
}
/// the same interaction with fewer constraints: its runs are nearly those of the original
pub fn relax(r: &mut Rng, t: &T) -> T {
    let go = |r: &mut Rng, a: &T| bx(relax(r, a));
    let hit = r.chance(1, 2);
    match t {
        E => E,
        Em { o, m, sy, t } => Em { o: *o, m: *m, sy: *sy && !hit, t: t.clone() },
        Rc { g, m, sy, r: rr } => Rc { g: *g, m: *m, sy: *sy && !hit, r: rr.clone() },
        St(a, b) => {
            let (a, b) = (go(r, a), go(r, b));
            if !hit {
                St(a, b)
            } else if r.chance(2, 3) {
                Sq(a, b)
            } else {
                Pa(a, b)
            }
        }
        Sq(a, b) => {
            let (a, b) = (go(r, a), go(r, b));
            if !hit || r.chance(1, 2) {
                Sq(a, b)
            } else {
                Pa(a, b)
            }
        }
        Co(l, a, b) => {
            let (a, b) = (go(r, a), go(r, b));
            if !hit {
                Co(l.clone(), a, b)
            } else if r.chance(1, 2) {
                Pa(a, b)
            } else {
                let mut l = l.clone();
                l.remove(r.below(l.len()));
                if l.is_empty() {
                    Sq(a, b)
                } else {
                    Co(l, a, b)
                }
            }
        }
        Pa(a, b) => {
            let (a, b) = (go(r, a), go(r, b));
            Pa(a, b)
        }
        Al(a, b) => {
            let (x, y) = (go(r, a), go(r, b));
            if hit && r.chance(1, 3) {
                // both, or one after the other
                if r.chance(1, 2) {
                    Pa(x, y)
                } else {
                    Sq(x, y)
                }
            } else if hit && r.chance(1, 3) {
                Al(bx(Al(x, y)), bx(E))
            } else {
                Al(x, y)
            }
        }
        Sy(s, a, b) => {
            let (x, y) = (go(r, a), go(r, b));
            if hit {
                let mut s = s.clone();
                s.remove(r.below(s.len()));
                if s.is_empty() {
                    return Pa(x, y);
                }
                Sy(s, x, y)
            } else {
                Sy(s.clone(), x, y)
            }
        }
        Lp(l, a) => {
            let x = go(r, a);
            let up = match l {
                LK::S => LK::H,
                LK::H => LK::W,
                _ => LK::P,
            };
            Lp(if hit { if r.chance(1, 2) { up } else { LK::P } } else { *l }, x)
        }
    }
}
fn gterm(r: &mut Rng, s: &Sig, c: &Cfg, size: usize, nest: usize) -> T {
    if size <= 1 {
        return atom(r, s, c);
    }
    let w = [
        30,                                                        // seq
        if c.strict { 14 } else { 0 },                             // strict
        14,                                                        // alt
        12,                                                        // par
        if c.coreg { 10 } else { 0 },                              // coreg
        if c.loops && nest < 2 { 20 } else { 0 },                  // loop
        if c.sync_op { 4 } else { 0 },                             // sync
        4,                                                         // shrink
    ];
    let k = r.weighted(&w);
    if k == 5 {
        let a = gterm(r, s, c, size - 1, nest + 1);
        let lk = *r.pick(&[LK::S, LK::H, LK::W, LK::P]);
        return Lp(lk, bx(a));
    }
    if k == 7 {
        return atom(r, s, c);
    }
    let l = r.range(1, (size - 1).max(1));
    let a = gterm(r, s, c, l, nest);
    let b = gterm(r, s, c, (size - 1).saturating_sub(l).max(1), nest);
    match k {
        0 => Sq(bx(a), bx(b)),
        1 => St(bx(a), bx(b)),
        2 => Al(bx(a), bx(b)),
        3 => Pa(bx(a), bx(b)),
        4 => {
            let n = r.range(1, s.lf.len());
            let mut l = subset(r, s.lf.len(), n);
            l.sort();
            Co(l, bx(a), bx(b))
        }
        _ => {
            let mut acts = vec![];
            a.all_acts(&mut acts);
            b.all_acts(&mut acts);
            if acts.is_empty() {
                return Pa(bx(a), bx(b));
            }
            let mut sset = vec![];
            for _ in 0..r.range(1, 2) {
                let x = r.pick(&acts).clone();
                if !sset.contains(&x) {
                    sset.push(x);
                }
            }
            Sy(sset, bx(a), bx(b))
        }
    }
}
pub fn partition(r: &mut Rng, nl: usize) -> Vec<Vec<u8>> {
    match r.below(5) {
        0 | 1 => (0..nl as u8).map(|x| vec![x]).collect(),
        2 => vec![(0..nl as u8).collect()],
        _ => {
            let k = r.range(1, nl);
            let mut v: Vec<Vec<u8>> = vec![vec![]; k];
            for l in 0..nl as u8 {
                let i = r.below(k);
                v[i].push(l);
            }
            v.retain(|x| !x.is_empty());
            r.shuffle(&mut v);
            v
        }
    }
}
pub fn discrete(nl: usize) -> Vec<Vec<u8>> {
    (0..nl as u8).map(|x| vec![x]).collect()
}
/// one run of the system under a seeded scheduler: (events, completed)
pub fn run(r: &mut Rng, t: &T, max: usize, stop: Option<usize>) -> (Vec<MAct>, bool) {
    let mut x = t.clone();
    let mut tr = vec![];
    let soft = r.range(0, max);
    loop {
        if let Some(k) = stop {
            if tr.len() >= k {
                let c = nullable(&x);
                return (tr, c);
            }
        }
        if x.size() > 120 {
            return (tr, nullable(&x));
        }
        let ss = steps(&x);
        if ss.is_empty() {
            return (tr, nullable(&x));
        }
        if nullable(&x) && (tr.len() >= soft || r.chance(1, 8)) {
            return (tr, true);
        }
        let flat: Vec<usize> = (0..ss.len()).filter(|i| ss[*i].depth == 0).collect();
        let i = if tr.len() >= soft && !flat.is_empty() {
            *r.pick(&flat)
        } else {
            // prefer a uniform choice over distinct actions, so that small alternatives are reached too
            r.below(ss.len())
        };
        tr.push(ss[i].act.clone());
        x = ss.into_iter().nth(i).unwrap().next;
        if tr.len() >= max + 4 {
            return (tr, nullable(&x));
        }
    }
}
pub fn random_act(r: &mut Rng, s: &Sig, lfs: &[u8]) -> Act {
    Act { lf: *r.pick(lfs), em: r.chance(1, 2), msg: r.below(s.ms.len()) as u8 }
}

// ------------------------------------------------------------ world schedule and observation faults
pub fn world_str(s: &Sig, tr: &[MAct]) -> String {
    tr.iter().map(|m| s.mact(m)).collect::<Vec<_>>().join(" ")
}
pub fn parse_world(s: &Sig, t: &str) -> Vec<MAct> {
    t.split_whitespace()
        .filter_map(|w| {
            let w = w.trim_start_matches('{').trim_end_matches('}');
            let mut m = vec![];
            for a in w.split(',') {
                m.push(parse_act(s, a)?);
            }
            m.sort();
            m.dedup();
            Some(m)
        })
        .collect()
}
pub fn parse_act(s: &Sig, a: &str) -> Option<Act> {
    let (l, em, m) = if let Some((l, m)) = a.split_once('!') {
        (l, true, m)
    } else {
        let (l, m) = a.split_once('?')?;
        (l, false, m)
    };
    Some(Act { lf: s.lfid(l)?, em, msg: s.msid(m)? })
}
pub fn partition_str(s: &Sig, p: &[Vec<u8>]) -> String {
    p.iter().map(|c| c.iter().map(|l| s.lf[*l as usize].clone()).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join("|")
}
pub fn parse_partition(s: &Sig, t: &str) -> Vec<Vec<u8>> {
    t.split('|').map(|c| c.split(',').filter_map(|l| s.lfid(l)).collect()).filter(|c: &Vec<u8>| !c.is_empty()).collect()
}
/// the logs the observers hold after the run, under the listed faults. Grammar (w = observer number):
///  cut:w:k    observer w crashed at instant k, nothing from then on reached its log
///  late:w:k   observer w was only started at instant k
///  gap:w:a:b  observer w was partitioned away during [a,b): what happened then is lost
///  hide:w     observer w never ran
///  lose:w:i   the i-th record was lost          dup:w:i   it was written twice
///  swap:w:i   records i and i+1 came in the wrong order (clock skew between co-localised components)
///  alien:w:i:act  a record that nobody emitted      corr:w:i:act  record i corrupted into act
pub fn observe(s: &Sig, part: &[Vec<u8>], tr: &[MAct], faults: &[String]) -> Mu {
    let mut logs: Vec<Vec<(usize, MAct)>> = part
        .iter()
        .map(|c| tr.iter().enumerate().filter_map(|(i, m)| proj(m, c).map(|x| (i, x))).collect())
        .collect();
    for f in faults {
        let p: Vec<&str> = f.split(':').collect();
        let w: usize = match p.get(1).and_then(|x| x.parse().ok()) {
            Some(w) if w < logs.len() => w,
            _ => continue,
        };
        let a: usize = p.get(2).and_then(|x| x.parse().ok()).unwrap_or(0);
        let log = &mut logs[w];
        match p[0] {
            "cut" => log.retain(|x| x.0 < a),
            "late" => log.retain(|x| x.0 >= a),
            "hide" => log.clear(),
            "gap" => {
                let b: usize = p.get(3).and_then(|x| x.parse().ok()).unwrap_or(0);
                log.retain(|x| x.0 < a || x.0 >= b)
            }
            "lose" => {
                if a < log.len() {
                    log.remove(a);
                }
            }
            "dup" => {
                if a < log.len() {
                    let x = log[a].clone();
                    log.insert(a, x);
                }
            }
            "swap" => {
                if a + 1 < log.len() {
                    log.swap(a, a + 1);
                }
            }
            "alien" | "corr" => {
                if let Some(act) = p.get(3).and_then(|x| parse_act(s, x)) {
                    if part[w].contains(&act.lf) {
                        if p[0] == "alien" {
                            let i = a.min(log.len());
                            log.insert(i, (0, vec![act]));
                        } else if a < log.len() {
                            log[a].1 = vec![act];
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Mu { colocs: part.to_vec(), logs: logs.into_iter().map(|l| l.into_iter().map(|x| x.1).collect()).collect() }
}
/// faults that destroy the observation in ways a run does not explain
pub fn damage(r: &mut Rng, s: &Sig, part: &[Vec<u8>], tr: &[MAct], n: usize) -> Vec<String> {
    let mut v = vec![];
    for _ in 0..n {
        let w = r.below(part.len());
        let len = tr.iter().filter(|m| proj(m, &part[w]).is_some()).count().max(1);
        let i = r.below(len);
        v.push(match r.below(9) {
            0 | 1 => format!("lose:{}:{}", w, i),
            2 => format!("dup:{}:{}", w, i),
            3 | 4 => format!("swap:{}:{}", w, i),
            5 => format!("alien:{}:{}:{}", w, r.below(len + 1), s.act(&random_act(r, s, &part[w]))),
            6 => format!("corr:{}:{}:{}", w, i, s.act(&random_act(r, s, &part[w]))),
            7 => format!("cut:{}:{}", w, r.below(tr.len() + 1)),
            _ => {
                let a = r.below(tr.len() + 1);
                format!("gap:{}:{}:{}", w, a, a + r.range(1, 3))
            }
        });
    }
    v
}
