//! Decision procedures on top of the reference semantics: what a multi-trace is worth against an
//! interaction. Every search has a node cap and says Unknown rather than guess.
use crate::refsem::*;
use crate::term::*;
use std::collections::{HashMap, HashSet, BinaryHeap};
use std::cmp::Reverse;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tri {
    Yes,
    No,
    Unknown,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pref {
    Complete,
    Proper,
    No,
    Unknown,
}

/// make the co-localisations of mu cover all lifelines of the signature: each undeclared lifeline
/// has its own empty log
pub fn covered(mu: &Mu, nlf: usize) -> Mu {
    let mut m = mu.clone();
    let seen: HashSet<u8> = mu.colocs.iter().flatten().cloned().collect();
    for l in 0..nlf as u8 {
        if !seen.contains(&l) {
            m.colocs.push(vec![l]);
            m.logs.push(vec![]);
        }
    }
    m
}

/// advance every canal by its projection of act; None when one head differs
fn advance(mu: &Mu, pos: &[u8], act: &MAct) -> Option<Vec<u8>> {
    let mut p = pos.to_vec();
    let mut cov = 0;
    for (c, col) in mu.colocs.iter().enumerate() {
        if let Some(pr) = proj(act, col) {
            cov += pr.len();
            let log = &mu.logs[c];
            if (p[c] as usize) < log.len() && log[p[c] as usize] == pr {
                p[c] += 1;
            } else {
                return None;
            }
        }
    }
    if cov == act.len() {
        Some(p)
    } else {
        None
    }
}

/// largest cost of a search, per unit of its cap
const WORK: usize = 60;

/// exact acceptance / global-prefix membership. mu must be covered.
pub fn prefix(t: &T, mu: &Mu, cap: usize) -> Pref {
    let total = mu.len();
    let mut seen: HashSet<(T, Vec<u8>)> = HashSet::new();
    let mut stack = vec![(t.clone(), vec![0u8; mu.logs.len()])];
    let mut proper = false;
    let mut complete = false;
    let mut work = 0;
    while let Some((x, p)) = stack.pop() {
        // the cost of a state grows with the square of its size (as many steps, each as large)
        work += x.size() * x.size();
        if work > cap * WORK {
            return Pref::Unknown;
        }
        if p.iter().map(|z| *z as usize).sum::<usize>() == total {
            proper = true;
            if nullable(&x) {
                complete = true;
                break;
            }
            continue;
        }
        for s in steps(&x) {
            if let Some(q) = advance(mu, &p, &s.act) {
                let k = (s.next, q);
                if !seen.contains(&k) {
                    if seen.len() > cap {
                        return Pref::Unknown;
                    }
                    seen.insert(k.clone());
                    stack.push(k);
                }
            }
        }
    }
    if complete {
        Pref::Complete
    } else if proper {
        Pref::Proper
    } else {
        Pref::No
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// events on exhausted logs are free
    After,
    /// events on exhausted logs and on logs not started are free
    Slice,
}

pub struct Sim {
    pub ans: Tri,
    /// smallest number of free actions of a solution (when Yes)
    pub free: u32,
    /// loop instantiations that suffice for such a solution
    pub loops: u32,
}
/// can t complete (only a question when sync operators can block it)?
fn completes(t: &T, cap: usize, work: &mut usize) -> bool {
    let mut seen: HashSet<T> = HashSet::new();
    let mut st = vec![t.clone()];
    while let Some(x) = st.pop() {
        if nullable(&x) {
            return true;
        }
        for s in steps(&x) {
            if seen.len() < cap && s.next.size() <= 60 && seen.insert(s.next.clone()) {
                *work += s.next.size() * s.next.size();
                st.push(s.next);
            }
        }
    }
    false
}

/// is there one execution that extends every log (after its end; and before its start in Slice mode)?
/// Dijkstra on the number of free actions. The number of loop unfoldings along a path is bounded by
/// |mu| * nest: an iteration in which no log advances can be removed from any solution.
/// With sync operators an execution can get stuck and more loop instantiations can be needed: then the
/// answer is Yes or Unknown.
pub fn extends(t: &T, mu: &Mu, mode: Mode, cap: usize) -> Sim {
    let total = mu.len() as u32;
    let sync = t.has_sync_op();
    let budget = total * (t.loop_nest() as u32) + if sync { 4 } else { 0 };
    let no = Sim { ans: if sync { Tri::Unknown } else { Tri::No }, free: 0, loops: budget };
    let n = mu.logs.len();
    let full: Vec<u8> = mu.logs.iter().map(|l| l.len() as u8).collect();
    // best (cost,unfold) pareto per state
    let mut best: HashMap<(T, Vec<u8>), Vec<(u32, u32)>> = HashMap::new();
    let mut heap: BinaryHeap<Reverse<(u32, u32, u64)>> = BinaryHeap::new();
    let mut store: HashMap<u64, (T, Vec<u8>)> = HashMap::new();
    let mut id = 0u64;
    let start = (t.clone(), vec![0u8; n]);
    best.insert(start.clone(), vec![(0, 0)]);
    store.insert(0, start);
    heap.push(Reverse((0, 0, 0)));
    let mut count = 0;
    let mut work = 0;
    while let Some(Reverse((c, u, i))) = heap.pop() {
        let (x, p) = store.remove(&i).unwrap();
        if p == full {
            if sync && !completes(&x, 100, &mut work) {
                continue;
            }
            return Sim { ans: Tri::Yes, free: c, loops: if sync { u } else { total * (t.loop_nest() as u32) } };
        }
        count += 1;
        work += x.size() * x.size();
        if count > cap || work > cap * WORK {
            return Sim { ans: Tri::Unknown, free: 0, loops: 0 };
        }
        for s in steps(&x) {
            let u2 = u + s.depth;
            if u2 > budget {
                continue;
            }
            // alternatives per canal: consume if head matches, free if exhausted, free if slice and unstarted
            let mut alts: Vec<(Vec<u8>, u32)> = vec![(p.clone(), 0)];
            let mut ok = true;
            for (k, col) in mu.colocs.iter().enumerate() {
                if let Some(pr) = proj(&s.act, col) {
                    let log = &mu.logs[k];
                    let pos = p[k] as usize;
                    let mut nx = vec![];
                    for (q, fr) in &alts {
                        if pos >= log.len() || (mode == Mode::Slice && pos == 0) {
                            nx.push((q.clone(), fr + 1));
                        }
                        if pos < log.len() && log[pos] == pr {
                            let mut q2 = q.clone();
                            q2[k] += 1;
                            nx.push((q2, *fr));
                        }
                    }
                    alts = nx;
                    if alts.is_empty() {
                        ok = false;
                        break;
                    }
                }
            }
            if !ok {
                continue;
            }
            for (q, fr) in alts {
                let c2 = c + fr;
                let k = (s.next.clone(), q);
                let e = best.entry(k.clone()).or_default();
                if e.iter().any(|(a, b)| *a <= c2 && *b <= u2) {
                    continue;
                }
                e.retain(|(a, b)| !(c2 <= *a && u2 <= *b));
                e.push((c2, u2));
                id += 1;
                store.insert(id, k);
                heap.push(Reverse((c2, u2, id)));
                if store.len() > cap * 4 {
                    return Sim { ans: Tri::Unknown, free: 0, loops: 0 };
                }
            }
        }
    }
    no
}

/// the interaction without the given lifelines: their events disappear, and with them the orderings that
/// only existed through them
pub fn elim(t: &T, k: Mask) -> T {
    use T::*;
    let out = |l: u8| (k >> l) & 1 == 1;
    match t {
        E => E,
        Em { o, m, sy, t } => {
            let keep: Vec<Tgt> = t.iter().filter(|x| !matches!(x, Tgt::Lf(l) if out(*l))).cloned().collect();
            if out(*o) {
                let r: Vec<u8> = keep.iter().filter_map(|x| if let Tgt::Lf(l) = x { Some(*l) } else { None }).collect();
                if r.is_empty() {
                    E
                } else {
                    Rc { g: None, m: *m, sy: *sy, r }
                }
            } else {
                let sy = *sy && !keep.is_empty();
                Em { o: *o, m: *m, sy, t: keep }
            }
        }
        Rc { g, m, sy, r } => {
            let r: Vec<u8> = r.iter().filter(|l| !out(**l)).cloned().collect();
            if r.is_empty() {
                E
            } else {
                Rc { g: *g, m: *m, sy: *sy, r }
            }
        }
        St(a, b) => st(elim(a, k), elim(b, k)),
        Sq(a, b) => sq(elim(a, k), elim(b, k)),
        Co(l, a, b) => co(l, elim(a, k), elim(b, k)),
        Pa(a, b) => pa(elim(a, k), elim(b, k)),
        Al(a, b) => al(elim(a, k), elim(b, k)),
        Sy(s, a, b) => {
            let s: Vec<Act> = s.iter().filter(|x| !out(x.lf)).cloned().collect();
            let (a, b) = (elim(a, k), elim(b, k));
            if s.is_empty() {
                pa(a, b)
            } else {
                sy(&s, a, b)
            }
        }
        // when the first actions of the iterations may be gone, their order is no longer constrained
        Lp(LK::H, a) if a.lifelines().iter().any(|l| out(*l)) => lp(LK::W, elim(a, k)),
        Lp(l, a) => lp(*l, elim(a, k)),
    }
}
/// can every log be consumed when the lifelines of each exhausted log are removed from the interaction
pub fn removal(t: &T, mu: &Mu, cap: usize) -> Tri {
    let n = mu.logs.len();
    let hide = |t: T, p: &[u8]| -> T {
        let mut k = 0;
        for c in 0..n {
            if p[c] as usize == mu.logs[c].len() {
                for l in &mu.colocs[c] {
                    k |= 1 << l;
                }
            }
        }
        elim(&t, k)
    };
    let total = mu.len();
    let p0 = vec![0u8; n];
    let s0 = (hide(t.clone(), &p0), p0);
    let mut seen: HashSet<(T, Vec<u8>)> = HashSet::new();
    let mut stack = vec![s0];
    let mut work = 0;
    while let Some((x, p)) = stack.pop() {
        work += x.size() * x.size();
        if work > cap * WORK {
            return Tri::Unknown;
        }
        if p.iter().map(|z| *z as usize).sum::<usize>() == total {
            return Tri::Yes;
        }
        for s in steps(&x) {
            if let Some(q) = advance(mu, &p, &s.act) {
                let k = (hide(s.next, &q), q);
                if !seen.contains(&k) {
                    if seen.len() > cap {
                        return Tri::Unknown;
                    }
                    seen.insert(k.clone());
                    stack.push(k);
                }
            }
        }
    }
    Tri::No
}
