//! Cross-check of the reference semantics against a declarative one: behaviours as sets of sequences, built
//! bottom-up by the definitions of the operators (concatenation, shuffles and filters), with no notion of
//! pruning or of a step.
use crate::gen;
use crate::refsem;
use crate::rng::Rng;
use crate::term::*;
use std::collections::HashSet;
use T::*;

type Tr = Vec<MAct>;
type L = HashSet<Tr>;

fn lfs(a: &MAct) -> u32 {
    refsem::mask_of(a)
}
/// interleavings of x and y where no action of y comes before an action of x which it conflicts with
fn shuffle(x: &[MAct], y: &[MAct], conflict: &dyn Fn(&MAct, &MAct) -> bool, fuse: &dyn Fn(&MAct) -> Vec<Act>, pre: &mut Tr, out: &mut L) {
    if x.is_empty() && y.is_empty() {
        out.insert(pre.clone());
        return;
    }
    if let Some(a) = x.first() {
        if fuse(a).is_empty() {
            pre.push(a.clone());
            shuffle(&x[1..], y, conflict, fuse, pre, out);
            pre.pop();
        }
    }
    if let Some(b) = y.first() {
        if fuse(b).is_empty() && x.iter().all(|a| !conflict(a, b)) {
            pre.push(b.clone());
            shuffle(x, &y[1..], conflict, fuse, pre, out);
            pre.pop();
        }
        if let Some(a) = x.first() {
            if !fuse(a).is_empty() && fuse(a) == fuse(b) {
                let mut m = a.clone();
                m.extend(b.iter().cloned());
                m.sort();
                m.dedup();
                pre.push(m);
                shuffle(&x[1..], &y[1..], conflict, fuse, pre, out);
                pre.pop();
            }
        }
    }
}
fn product(a: &L, b: &L, n: usize, conflict: &dyn Fn(&MAct, &MAct) -> bool, fuse: &dyn Fn(&MAct) -> Vec<Act>) -> L {
    let mut o = L::new();
    for x in a {
        for y in b {
            let f = x.iter().filter(|m| !fuse(m).is_empty()).count();
            if x.len() + y.len() - f.min(y.len()) <= n {
                shuffle(x, y, conflict, fuse, &mut vec![], &mut o);
            }
        }
    }
    o.retain(|t| t.len() <= n);
    o
}
/// complete behaviours of at most n actions. None: too many.
fn den(t: &T, n: usize) -> Option<L> {
    let nofuse = |_: &MAct| vec![];
    let r = match t {
        E => std::iter::once(vec![]).collect(),
        Em { o, m, sy, t } => {
            let r: Vec<u8> = t.iter().filter_map(|x| if let Tgt::Lf(l) = x { Some(*l) } else { None }).collect();
            let e = Act { lf: *o, em: true, msg: *m };
            let recs: Vec<Act> = r.iter().map(|l| Act { lf: *l, em: false, msg: *m }).collect();
            if *sy {
                let mut a = vec![e];
                a.extend(recs);
                a.sort();
                a.dedup();
                std::iter::once(vec![a]).collect()
            } else {
                perms(&recs).into_iter().map(|p| { let mut v = vec![vec![e.clone()]]; v.extend(p); v }).collect()
            }
        }
        Rc { m, sy, r, .. } => {
            let mut recs: Vec<Act> = r.iter().map(|l| Act { lf: *l, em: false, msg: *m }).collect();
            if *sy {
                recs.sort();
                recs.dedup();
                std::iter::once(vec![recs]).collect()
            } else {
                perms(&recs)
            }
        }
        St(a, b) => product(&den(a, n)?, &den(b, n)?, n, &|_, _| true, &nofuse),
        Sq(a, b) => product(&den(a, n)?, &den(b, n)?, n, &|x, y| lfs(x) & lfs(y) != 0, &nofuse),
        Co(l, a, b) => {
            let free = l.iter().fold(0u32, |x, y| x | (1 << y));
            product(&den(a, n)?, &den(b, n)?, n, &|x, y| lfs(x) & lfs(y) & !free != 0, &nofuse)
        }
        Pa(a, b) => product(&den(a, n)?, &den(b, n)?, n, &|_, _| false, &nofuse),
        Al(a, b) => { let mut x = den(a, n)?; x.extend(den(b, n)?); x }
        Sy(s, a, b) => {
            // fused sequences are shorter than the sum of their parts
            product(&den(a, n)?, &den(b, n)?, n, &|_, _| false, &|m: &MAct| m.iter().filter(|x| s.contains(x)).cloned().collect())
        }
        Lp(k, a) => {
            let one: L = den(a, n)?.into_iter().filter(|t| !t.is_empty()).collect();
            let mut all: L = std::iter::once(vec![]).collect();
            loop {
                // one more iteration in front
                let mut next = match k {
                    LK::S => product(&one, &all, n, &|_, _| true, &nofuse),
                    LK::W => product(&one, &all, n, &|x, y| lfs(x) & lfs(y) != 0, &nofuse),
                    LK::P => product(&one, &all, n, &|_, _| false, &nofuse),
                    LK::H => {
                        // the first action is the front iteration's
                        let mut o = L::new();
                        for x in &one {
                            for y in &all {
                                if x.len() + y.len() <= n {
                                    shuffle(&x[1..], y, &|p, q| lfs(p) & lfs(q) != 0, &nofuse, &mut vec![x[0].clone()], &mut o);
                                }
                            }
                        }
                        o
                    }
                };
                next.extend(all.iter().cloned());
                if next.len() == all.len() {
                    break all;
                }
                if next.len() > 20000 {
                    return None;
                }
                all = next;
            }
        }
    };
    if r.len() > 20000 {
        None
    } else {
        Some(r)
    }
}
fn perms(a: &[Act]) -> L {
    if a.is_empty() {
        return std::iter::once(vec![]).collect();
    }
    let mut o = L::new();
    for i in 0..a.len() {
        let mut b = a.to_vec();
        let x = b.remove(i);
        for p in perms(&b) {
            let mut v = vec![vec![x.clone()]];
            v.extend(p);
            o.insert(v);
        }
    }
    o
}
pub fn run(n: u64, seed: u64) -> i32 {
    let (mut same, mut skipped, mut behaviours) = (0u64, 0u64, 0u64);
    for i in 0..n {
        let mut r = Rng::for_run("selftest", seed, i);
        let mut cfg = gen::Cfg::std();
        cfg.size = (1, 6);
        let sg = gen::sig(&mut r, &cfg);
        let t = gen::term(&mut r, &sg, &cfg);
        let len = r.range(2, 6);
        // unfused bound: with sync operators the parts of a behaviour may be longer than it
        let syncs = sysyms(&t);
        if syncs > 2 {
            skipped += 1;
            continue;
        }
        let len = if syncs > 0 { len.min(4) } else { len };
        let bound = len << syncs;
        match (den(&t, bound), refsem::accepted_upto(&t, len, 4000)) {
            (Some(d), Some(a)) => {
                let d: L = d.into_iter().filter(|x| x.len() <= len).collect();
                if d != a {
                    let extra = a.difference(&d).next();
                    let missing = d.difference(&a).next();
                    println!("selftest: run {} differs: {} up to {}: only in the reference {:?}, only in the definition {:?}", i, t.hif(&sg), len, extra, missing);
                    return 1;
                }
                same += 1;
                behaviours += d.len() as u64;
            }
            _ => skipped += 1,
        }
    }
    println!("selftest: {} interactions with the same behaviours ({} behaviours), {} too large", same, behaviours, skipped);
    0
}
fn sysyms(t: &T) -> usize {
    match t {
        E | Em { .. } | Rc { .. } => 0,
        St(a, b) | Sq(a, b) | Co(_, a, b) | Al(a, b) | Pa(a, b) => sysyms(a) + sysyms(b),
        Sy(_, a, b) => 1 + sysyms(a) + sysyms(b),
        Lp(_, a) => sysyms(a),
    }
}
