//! Reference semantics of interactions: a small executable operational model, written from the
//! documentation of the language and independent of the code under test (other term structure,
//! other rules for alt and loops, no delayed choices, bit masks instead of sets).
use crate::term::{LK, MAct, T, Tgt};
use crate::term::{bx, Act};
use std::collections::{HashMap, HashSet};
use T::*;

pub type Mask = u32;

pub fn mask_of(m: &MAct) -> Mask {
    m.iter().fold(0, |x, a| x | (1 << a.lf))
}
/// can t be completed without any action on the lifelines of mask
pub fn avoids(t: &T, k: Mask) -> bool {
    match t {
        E => true,
        Em { o, t, .. } => {
            (k >> *o) & 1 == 0
                && t.iter().all(|x| match x {
                    Tgt::Lf(l) => (k >> *l) & 1 == 0,
                    Tgt::Gt(_) => true,
                })
        }
        Rc { r, .. } => r.iter().all(|l| (k >> *l) & 1 == 0),
        St(a, b) | Sq(a, b) | Co(_, a, b) | Pa(a, b) | Sy(_, a, b) => avoids(a, k) && avoids(b, k),
        Al(a, b) => avoids(a, k) || avoids(b, k),
        Lp(..) => true,
    }
}
/// t restricted to its behaviours without any action on the lifelines of mask (needs avoids)
pub fn prune(t: &T, k: Mask) -> T {
    match t {
        E | Em { .. } | Rc { .. } => t.clone(),
        St(a, b) => st(prune(a, k), prune(b, k)),
        Sq(a, b) => sq(prune(a, k), prune(b, k)),
        Co(l, a, b) => co(l, prune(a, k), prune(b, k)),
        Pa(a, b) => pa(prune(a, k), prune(b, k)),
        Sy(s, a, b) => sy(s, prune(a, k), prune(b, k)),
        Al(a, b) => match (avoids(a, k), avoids(b, k)) {
            (true, true) => al(prune(a, k), prune(b, k)),
            (true, false) => prune(a, k),
            _ => prune(b, k),
        },
        Lp(lk, a) => {
            if avoids(a, k) {
                lp(*lk, prune(a, k))
            } else {
                E
            }
        }
    }
}
pub fn nullable(t: &T) -> bool {
    match t {
        E => true,
        Em { .. } => false,
        Rc { r, .. } => r.is_empty(),
        St(a, b) | Sq(a, b) | Co(_, a, b) | Pa(a, b) | Sy(_, a, b) => nullable(a) && nullable(b),
        Al(a, b) => nullable(a) || nullable(b),
        Lp(..) => true,
    }
}
pub fn st(a: T, b: T) -> T {
    if a == E {
        b
    } else if b == E {
        a
    } else {
        St(bx(a), bx(b))
    }
}
pub fn sq(a: T, b: T) -> T {
    if a == E {
        b
    } else if b == E {
        a
    } else {
        Sq(bx(a), bx(b))
    }
}
pub fn co(l: &[u8], a: T, b: T) -> T {
    if a == E {
        b
    } else if b == E {
        a
    } else {
        Co(l.to_vec(), bx(a), bx(b))
    }
}
pub fn pa(a: T, b: T) -> T {
    if a == E {
        b
    } else if b == E {
        a
    } else {
        Pa(bx(a), bx(b))
    }
}
pub fn al(a: T, b: T) -> T {
    if a == b {
        a
    } else {
        Al(bx(a), bx(b))
    }
}
pub fn sy(s: &[Act], a: T, b: T) -> T {
    if a == E && b == E {
        E
    } else {
        Sy(s.to_vec(), bx(a), bx(b))
    }
}
pub fn lp(k: LK, a: T) -> T {
    if a == E {
        E
    } else {
        Lp(k, bx(a))
    }
}

pub struct Step {
    pub act: MAct,
    pub next: T,
    pub depth: u32,
}
pub fn steps(t: &T) -> Vec<Step> {
    let mut v = vec![];
    steps_into(t, &mut |s| v.push(s));
    v
}
fn steps_into(t: &T, f: &mut dyn FnMut(Step)) {
    match t {
        E => {}
        Em { o, m, sy, t } => {
            let mut r: Vec<u8> = t
                .iter()
                .filter_map(|x| match x {
                    Tgt::Lf(l) => Some(*l),
                    Tgt::Gt(_) => None,
                })
                .collect();
            if *sy {
                let mut act = vec![Act { lf: *o, em: true, msg: *m }];
                act.extend(r.iter().map(|l| Act { lf: *l, em: false, msg: *m }));
                act.sort();
                act.dedup();
                f(Step { act, next: E, depth: 0 });
            } else {
                r.sort();
                let next = if r.is_empty() { E } else { Rc { g: None, m: *m, sy: false, r } };
                f(Step { act: vec![Act { lf: *o, em: true, msg: *m }], next, depth: 0 });
            }
        }
        Rc { m, sy, r, .. } => {
            if *sy {
                let mut act: MAct = r.iter().map(|l| Act { lf: *l, em: false, msg: *m }).collect();
                act.sort();
                act.dedup();
                f(Step { act, next: E, depth: 0 });
            } else {
                for i in 0..r.len() {
                    if r[..i].contains(&r[i]) {
                        continue;
                    }
                    let mut q = r.clone();
                    let l = q.remove(i);
                    let next = if q.is_empty() { E } else { Rc { g: None, m: *m, sy: false, r: q } };
                    f(Step { act: vec![Act { lf: l, em: false, msg: *m }], next, depth: 0 });
                }
            }
        }
        St(a, b) => {
            steps_into(a, &mut |s| f(Step { next: st(s.next, (**b).clone()), ..s }));
            if nullable(a) {
                steps_into(b, f);
            }
        }
        Sq(a, b) => {
            steps_into(a, &mut |s| f(Step { next: sq(s.next, (**b).clone()), ..s }));
            steps_into(b, &mut |s| {
                let k = mask_of(&s.act);
                if avoids(a, k) {
                    let next = sq(prune(a, k), s.next);
                    f(Step { act: s.act, next, depth: s.depth });
                }
            });
        }
        Co(l, a, b) => {
            steps_into(a, &mut |s| f(Step { next: co(l, s.next, (**b).clone()), ..s }));
            let free: Mask = l.iter().fold(0, |x, y| x | (1 << y));
            steps_into(b, &mut |s| {
                let k = mask_of(&s.act) & !free;
                if avoids(a, k) {
                    let next = co(l, prune(a, k), s.next);
                    f(Step { act: s.act, next, depth: s.depth });
                }
            });
        }
        Pa(a, b) => {
            steps_into(a, &mut |s| f(Step { next: pa(s.next, (**b).clone()), ..s }));
            steps_into(b, &mut |s| f(Step { next: pa((**a).clone(), s.next), ..s }));
        }
        Al(a, b) => {
            steps_into(a, f);
            steps_into(b, f);
        }
        Sy(sync, a, b) => {
            let inter = |m: &MAct| -> MAct { m.iter().filter(|x| sync.contains(x)).cloned().collect() };
            let sa = steps(a);
            let sb = steps(b);
            for s in &sa {
                if inter(&s.act).is_empty() {
                    f(Step { act: s.act.clone(), next: sy(sync, s.next.clone(), (**b).clone()), depth: s.depth });
                }
            }
            for s in &sb {
                if inter(&s.act).is_empty() {
                    f(Step { act: s.act.clone(), next: sy(sync, (**a).clone(), s.next.clone()), depth: s.depth });
                }
            }
            for x in &sa {
                let ix = inter(&x.act);
                if ix.is_empty() {
                    continue;
                }
                for y in &sb {
                    if inter(&y.act) == ix {
                        let mut act = x.act.clone();
                        act.extend(y.act.iter().cloned());
                        act.sort();
                        act.dedup();
                        f(Step {
                            act,
                            next: sy(sync, x.next.clone(), y.next.clone()),
                            depth: x.depth.max(y.depth),
                        });
                    }
                }
            }
        }
        Lp(k, a) => {
            steps_into(a, &mut |s| {
                let lpt = T::Lp(*k, a.clone());
                let next = match k {
                    LK::S => st(s.next, lpt),
                    LK::H => sq(s.next, lpt),
                    LK::W => {
                        let p = prune(&lpt, mask_of(&s.act));
                        sq(p, sq(s.next, lpt))
                    }
                    LK::P => pa(s.next, lpt),
                };
                f(Step { act: s.act, next, depth: s.depth + 1 });
            });
        }
    }
}

/// all complete behaviours of at most `n` multi-actions (None when more than `cap` states)
pub fn accepted_upto(t: &T, n: usize, cap: usize) -> Option<HashSet<Vec<MAct>>> {
    let mut cur: HashMap<Vec<MAct>, HashSet<T>> = HashMap::new();
    cur.insert(vec![], std::iter::once(t.clone()).collect());
    let mut out = HashSet::new();
    let mut seen = 0;
    for d in 0..=n {
        let mut nxt: HashMap<Vec<MAct>, HashSet<T>> = HashMap::new();
        for (tr, ts) in cur {
            for x in ts {
                seen += 1;
                if seen > cap {
                    return None;
                }
                if nullable(&x) {
                    out.insert(tr.clone());
                }
                if d < n {
                    for s in steps(&x) {
                        let mut tr2 = tr.clone();
                        tr2.push(s.act);
                        nxt.entry(tr2).or_default().insert(s.next);
                    }
                }
            }
        }
        cur = nxt;
    }
    Some(out)
}
