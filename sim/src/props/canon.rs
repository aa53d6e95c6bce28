//! C09: canonization, every interaction reached by every rewriting schedule.
use super::nfa::{dfa, same_language, Dfa};
use super::*;
use crate::gen;
use crate::refsem::*;
use crate::term::*;
use std::collections::{BTreeSet, HashMap};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C09", quick: 3000, thorough: 40000, gen: gen_c09, exec: exec_c09, what: "canonization" }]
}

/// terms with repeated and related parts, so that factorizations, de-duplications and merges have work to do
fn canon_term(r: &mut Rng, s: &Sig, pool: &[T], size: usize, nest: usize) -> T {
    use T::*;
    if size <= 1 {
        if r.chance(1, 14) {
            return E;
        }
        return r.pick(pool).clone();
    }
    let half = (size / 2).max(1);
    let sub = |r: &mut Rng, n: usize, d: usize| canon_term(r, s, pool, n, nest + d);
    let bin = |k: usize, a: T, b: T, s: &Sig, r: &mut Rng| match k {
        0 => Sq(bx(a), bx(b)),
        1 => St(bx(a), bx(b)),
        2 => Pa(bx(a), bx(b)),
        3 => {
            // mostly lifelines on which both sides act, so that the co-region matters
            let both: Vec<u8> = a.lifelines().intersection(&b.lifelines()).cloned().collect();
            let mut l: Vec<u8> = if !both.is_empty() && r.chance(1, 2) { both } else { (0..s.lf.len() as u8).collect() };
            r.shuffle(&mut l);
            let n = if r.chance(1, 2) { 1 } else { r.range(1, l.len()) };
            l.truncate(n);
            l.sort();
            Co(l, bx(a), bx(b))
        }
        _ => Al(bx(a), bx(b)),
    };
    let k = r.weighted(&[10, 6, 6, 3]);
    match r.weighted(&[30, 14, 14, 8, 24, if nest < 2 { 16 } else { 0 }, 2, 22]) {
        // common prefix or suffix of two alternatives, under the same operator or not
        0 if size >= 3 => {
            let x = sub(r, half.min(3), 0);
            let y = sub(r, half, 0);
            let z = if r.chance(1, 6) { y.clone() } else { sub(r, half, 0) };
            let k2 = if r.chance(1, 4) { r.weighted(&[10, 6, 6, 3]) } else { k };
            let (a, b) = match r.below(4) {
                0 => (bin(k, x.clone(), y, s, r), bin(k2, x, z, s, r)),
                1 => (bin(k, y, x.clone(), s, r), bin(k2, z, x, s, r)),
                2 => (bin(k, x.clone(), y, s, r), bin(k2, z, x, s, r)),
                _ => (bin(k, x.clone(), y, s, r), x),
            };
            if r.chance(1, 2) {
                Al(bx(a), bx(b))
            } else {
                Al(bx(b), bx(a))
            }
        }
        // distribution over alternatives
        1 if size >= 3 => {
            let x = sub(r, half, 0);
            let y = sub(r, half, 0);
            let z = sub(r, half.min(2), 0);
            let al = Al(bx(x), bx(y));
            if r.chance(1, 2) {
                bin(k, al, z, s, r)
            } else {
                bin(k, z, al, s, r)
            }
        }
        2 => {
            // (an element and) its loop, loops of loops
            let x = sub(r, half.min(3), 1);
            let lk = *r.pick(&[LK::S, LK::H, LK::W, LK::P]);
            let l = Lp(lk, bx(x.clone()));
            match r.below(5) {
                0 => Lp(*r.pick(&[LK::S, LK::H, LK::W, LK::P]), bx(l)),
                1 => bin(k, l, x, s, r),
                2 => bin(k, x, l, s, r),
                3 => Al(bx(l), bx(x)),
                _ => {
                    let y = Lp(*r.pick(&[LK::S, LK::H, LK::W, LK::P]), bx(x));
                    bin(k, l, y, s, r)
                }
            }
        }
        3 => {
            let a = sub(r, half, 0);
            bin(k, a.clone(), a, s, r)
        }
        5 => Lp(*r.pick(&[LK::S, LK::H, LK::W, LK::P]), bx(sub(r, size - 1, 1))),
        6 => {
            let a = sub(r, half, 0);
            let b = sub(r, half, 0);
            let mut acts = vec![];
            a.all_acts(&mut acts);
            b.all_acts(&mut acts);
            match acts.is_empty() {
                true => Pa(bx(a), bx(b)),
                false => Sy(vec![r.pick(&acts).clone()], bx(a), bx(b)),
            }
        }
        7 if size >= 3 => {
            // the same operator over and over (co-regions over the same or over other lifelines),
            // some of its parts empty or repeated
            let n = r.range(3, size.min(5));
            let mut parts: Vec<T> = vec![];
            for _ in 0..n {
                parts.push(match r.below(6) {
                    0 => E,
                    1 if !parts.is_empty() => r.pick(&parts).clone(),
                    _ => sub(r, (size / n).max(1), 0),
                });
            }
            let kk = r.weighted(&[4, 4, 5, 12, 4]);
            while parts.len() > 1 {
                let i = r.below(parts.len() - 1);
                let b = parts.remove(i + 1);
                let a = parts.remove(i);
                let x = bin(kk, a, b, s, r);
                parts.insert(i, x);
            }
            parts.pop().unwrap()
        }
        _ => {
            let l = r.range(1, size - 1);
            let a = sub(r, l, 0);
            let b = sub(r, size - l, 0);
            let k = r.weighted(&[14, 8, 10, 5, 10]);
            bin(k, a, b, s, r)
        }
    }
}
fn schedule(r: &mut Rng, all: bool) -> String {
    let mut o = vec![];
    o.extend(super::hcf::strategy(r));
    if r.chance(1, 2) {
        o.push(format!("priorities=[randomize={}]", if r.chance(4, 5) { "true" } else { "false" }));
    }
    match r.below(8) {
        0 => o.push("memoize=true".into()),
        1 if !all => o.push("memoize=false".into()),
        _ => {}
    }
    r.shuffle(&mut o);
    o.join(" ; ")
}
/// beside some of its parts, the empty interaction, below any operator
fn padded(r: &mut Rng, s: &Sig, t: &T) -> T {
    use T::*;
    let mut go = |x: &T| bx(padded(r, s, x));
    let u = match t {
        E | Em { .. } | Rc { .. } => t.clone(),
        St(a, b) => St(go(a), go(b)),
        Sq(a, b) => Sq(go(a), go(b)),
        Co(c, a, b) => Co(c.clone(), go(a), go(b)),
        Al(a, b) => Al(go(a), go(b)),
        Pa(a, b) => Pa(go(a), go(b)),
        Sy(x, a, b) => Sy(x.clone(), go(a), go(b)),
        Lp(k, a) => Lp(*k, go(a)),
    };
    if !r.chance(1, if u.size() <= 1 { 8 } else { 3 }) {
        return u;
    }
    let (a, b) = if r.chance(1, 2) { (bx(E), bx(u)) } else { (bx(u), bx(E)) };
    match r.below(12) {
        0 | 1 => Sq(a, b),
        2 | 3 => St(a, b),
        4 | 5 => Pa(a, b),
        6..=10 => {
            let mut l: Vec<u8> = (0..s.lf.len() as u8).collect();
            r.shuffle(&mut l);
            let n = if r.chance(1, 2) { 1 } else { r.range(1, l.len()) };
            l.truncate(n);
            l.sort();
            Co(l, a, b)
        }
        _ => Al(a, b),
    }
}
fn gen_c09(r: &mut Rng, _i: u64) -> Case {
    let all = r.chance(1, 2);
    let mut cfg = gen::Cfg::std();
    cfg.lf = if r.chance(1, 4) { (1, 3) } else { (2, 3) };
    cfg.ms = (1, 3);
    let mut s = gen::sig(r, &cfg);
    if r.chance(1, 2) {
        s.gt.clear();
    }
    let t = if r.chance(1, 4) {
        cfg.size = (2, if all { 6 } else { 9 });
        gen::term(r, &s, &cfg)
    } else {
        let np = r.range(1, 4);
        let pool: Vec<T> = (0..np).map(|_| gen::atom(r, &s, &cfg)).collect();
        let n = r.range(2, if all { 6 } else { 9 });
        canon_term(r, &s, &pool, n, 0)
    };
    let t = if r.chance(1, 5) && t.size() <= if all { 5 } else { 8 } { padded(r, &s, &t) } else { t };
    let mut c = Case::new("C09", if all { "every_order" } else { "one_order" });
    c.set("sig", s.hsf());
    c.set("T.system", t.hif(&s));
    c.set("O.search", schedule(r, all));
    c.set("O.other", schedule(r, all));
    c.set("os", Os::benign(r).ser());
    c
}
/// one state of the rewriting graph
pub struct State {
    pub phase: usize,
    pub t: T,
}
fn label(l: &str, kids: &[T], s: &Sig) -> Option<T> {
    let two = |f: fn(Box<T>, Box<T>) -> T| match kids {
        [a, b] => Some(f(bx(a.clone()), bx(b.clone()))),
        _ => None,
    };
    let one = |k: LK| match kids {
        [a] => Some(T::Lp(k, bx(a.clone()))),
        _ => None,
    };
    match l {
        "strict" => return two(T::St),
        "seq" => return two(T::Sq),
        "par" => return two(T::Pa),
        "alt" => return two(T::Al),
        "loopS" => return one(LK::S),
        "loopH" => return one(LK::H),
        "loopW" => return one(LK::W),
        "loopP" => return one(LK::P),
        _ => {}
    }
    if kids.len() == 2 {
        let (a, b) = (bx(kids[0].clone()), bx(kids[1].clone()));
        if let Some(x) = l.strip_prefix("coreg(").and_then(|x| x.strip_suffix(')')) {
            let mut v: Vec<u8> = x.split(',').map(|n| s.lfid(n)).collect::<Option<_>>()?;
            v.sort();
            return Some(T::Co(v, a, b));
        }
        if let Some(x) = l.strip_prefix("sync{").and_then(|x| x.strip_suffix('}')) {
            let mut v: Vec<Act> = x.split(',').map(|n| gen::parse_act(s, n)).collect::<Option<_>>()?;
            v.sort();
            return Some(T::Sy(v, a, b));
        }
        return None;
    }
    if !kids.is_empty() {
        return None;
    }
    if l == "o" {
        return Some(T::E);
    }
    if let Some((o, rest)) = l.split_once('!') {
        let (sy, o, rest) = match (o.strip_suffix('|'), rest.strip_prefix('|')) {
            (Some(o), Some(r)) => (true, o, r),
            (None, None) => (false, o, rest),
            _ => return None,
        };
        let (m, tg) = match rest.split_once('(') {
            Some((m, x)) => (m, x.strip_suffix(')')?.split(',').collect::<Vec<_>>()),
            None => (rest, vec![]),
        };
        let t: Vec<Tgt> = tg.into_iter().map(|n| s.lfid(n).map(Tgt::Lf).or_else(|| s.gtid(n).map(Tgt::Gt))).collect::<Option<_>>()?;
        return Some(T::Em { o: s.lfid(o)?, m: s.msid(m)?, sy, t });
    }
    let (rs, rest) = l.split_once('?')?;
    let (sy, rs, rest) = match (rs.strip_suffix('|'), rest.strip_prefix('|')) {
        (Some(o), Some(r)) => (true, o, r),
        (None, None) => (false, rs, rest),
        _ => return None,
    };
    let (g, m) = match rest.strip_prefix('[') {
        Some(x) => {
            let (g, m) = x.split_once(']')?;
            (Some(s.gtid(g)?), m)
        }
        None => (None, rest),
    };
    let rs = rs.strip_prefix('(').and_then(|x| x.strip_suffix(')')).unwrap_or(rs);
    let r: Vec<u8> = rs.split(',').map(|n| s.lfid(n)).collect::<Option<_>>()?;
    Some(T::Rc { g, m: s.msid(m)?, sy, r })
}
/// a term tree as the tool draws it
pub fn tree(dot: &str, s: &Sig) -> Option<T> {
    let mut lab: HashMap<String, String> = HashMap::new();
    for l in dot.lines() {
        let l = l.trim();
        if l.contains("->") || !l.starts_with('p') {
            continue;
        }
        let (id, rest) = l.split_once(' ')?;
        let x = rest.split_once("label=\"")?.1;
        lab.insert(id.to_string(), x[..x.rfind('"')?].to_string());
    }
    fn rec(id: &str, lab: &HashMap<String, String>, s: &Sig) -> Option<T> {
        let l = lab.get(id)?;
        let mut kids = vec![];
        for d in ["1", "2"] {
            let k = format!("p{}{}", d, &id[1..]);
            if lab.contains_key(&k) {
                kids.push(rec(&k, lab, s)?);
            }
        }
        label(l, &kids, s)
    }
    rec("p", &lab, s)
}
/// the rewriting graph as the tool draws it
pub fn states(ctx: &Ctx, s: &Sig) -> Result<Vec<State>, String> {
    let g = ctx.w.get("c_l1.dot").ok_or("no graph of the rewriting process")?;
    let mut colour: HashMap<usize, String> = HashMap::new();
    let mut edges: Vec<(usize, usize)> = vec![];
    let mut cur = 0;
    for l in g.lines() {
        let l = l.trim();
        if let Some(x) = l.strip_prefix("subgraph cluster_n") {
            cur = x.trim_end_matches(|c| c == ' ' || c == '{').parse().map_err(|_| format!("graph: {}", l))?;
        } else if let Some(p) = l.find("fillcolor=") {
            if cur != 0 {
                let x = &l[p + 10..];
                colour.insert(cur, x.chars().take_while(|c| c.is_alphanumeric()).collect());
                cur = 0;
            }
        } else if let Some(x) = l.strip_prefix('a') {
            if let Some((_, e)) = x.split_once("->s_") {
                let e: String = e.chars().take_while(|c| c.is_ascii_digit() || *c == '_').collect();
                if let Some((a, b)) = e.split_once('_') {
                    if let (Ok(a), Ok(b)) = (a.parse(), b.parse()) {
                        edges.push((a, b));
                    }
                }
            }
        }
    }
    let mut phase: HashMap<usize, usize> = HashMap::new();
    phase.insert(1, 0);
    let mut todo = vec![1];
    while let Some(n) = todo.pop() {
        for (a, b) in &edges {
            if *a == n && !phase.contains_key(b) {
                let p = phase[&n] + if colour.get(a) == colour.get(b) { 0 } else { 1 };
                phase.insert(*b, p);
                todo.push(*b);
            }
        }
    }
    let mut out = vec![];
    let mut ids: Vec<usize> = colour.keys().cloned().collect();
    ids.sort();
    for n in ids {
        let p = *phase.get(&n).ok_or(format!("state {} is not reached from the original", n))?;
        // the empty interaction is drawn as an empty box
        if let Some(l) = g.lines().find(|l| l.trim().starts_with(&format!("itt{} ", n))) {
            if !l.contains("image=") {
                out.push(State { phase: p, t: T::E });
                continue;
            }
        }
        let d = ctx.w.get(&format!("temp/itt{}.dot", n)).ok_or(format!("state {} is not drawn", n))?;
        let t = tree(&d, s).ok_or(format!("state {} is drawn as something that is no interaction: {}", n, d.replace('\n', " ")))?;
        out.push(State { phase: p, t });
    }
    Ok(out)
}
enum Lang {
    Dfa(Dfa),
    Upto(usize, HashSet<Vec<MAct>>),
}
impl Lang {
    fn of(t: &T) -> Option<Lang> {
        if let Some(d) = dfa(t, 300) {
            return Some(Lang::Dfa(d));
        }
        for n in [6, 5, 4, 3, 2] {
            if let Some(a) = accepted_upto(t, n, 3000) {
                return Some(Lang::Upto(n, a));
            }
        }
        None
    }
    /// None: too large to decide; Some(None): same; Some(Some(w)): differ
    fn differs(&self, t: &T) -> Option<Option<Vec<MAct>>> {
        match self {
            Lang::Dfa(d) => match dfa(t, 1500) {
                Some(e) => Some(if same_language(d, &e) { None } else { Some(d.difference(&e)) }),
                None => {
                    let a = accepted_upto(t, 4, 3000)?;
                    for w in &a {
                        if d.walk(w).map_or(true, |q| !d.fin[q]) {
                            return Some(Some(w.clone()));
                        }
                    }
                    None
                }
            },
            Lang::Upto(n, a) => {
                let b = accepted_upto(t, *n, 12000)?;
                let mut x: Vec<&Vec<MAct>> = a.symmetric_difference(&b).collect();
                x.sort_by_key(|w| w.len());
                Some(x.first().map(|w| (*w).clone()))
            }
        }
    }
}
pub fn file(search: &[String], all: bool, log: bool) -> String {
    let mut o: Vec<String> = search.to_vec();
    if log {
        o.push("loggers=[graphic[svg,draw_sd=false,draw_tt=true]]".into());
    }
    o.push(format!("search_all={}", all));
    super::hcf::spell(format!("@canonize_option{{\n{}\n}}\n", o.join(";\n")), "@canonize")
}
pub fn canonize(ctx: &mut Ctx, s: &Sig, t: &T, hcf: Option<&str>, os: &Os) -> Result<Option<u64>, String> {
    ctx.w.reset();
    ctx.w.put("s.hsf", &s.hsf());
    ctx.w.put("i.hif", &t.hif_file(s));
    let mut a = vec!["canonize", "s.hsf", "i.hif"];
    if let Some(h) = hcf {
        ctx.w.put("c.hcf", h);
        a.push("c.hcf");
    }
    let o = ctx.w.run(&a, os);
    if o.end == End::Cpu {
        return Ok(None);
    }
    if o.end != End::Exit(0) {
        return Err(format!("ended abnormally: {}", o.digest()));
    }
    o.node_count().map(Some).ok_or(format!("reports no number of nodes: {}", o.digest()))
}
fn exec_c09(c: &Case, ctx: &mut Ctx) -> Res {
    let s = c.sig();
    let t = c.term("T.system", &s);
    let os = Os::de(c.get("os"));
    let other = Os::plain(os.seed ^ 0x5bd1_e995);
    ctx.st.execs.insert(c.key());
    let all = c.kind == "every_order";
    // the tool's own schedule, nothing drawn
    let n0 = match canonize(ctx, &s, &t, None, &other)? {
        Some(n) => n,
        None => return Err("does not terminate".into()),
    };
    let mut all = all;
    if all {
        // a graph of more interactions than can be looked at is only followed along one order
        match canonize(ctx, &s, &t, Some(&file(&[], true, false)), &other)? {
            Some(n) if n <= 150 => {}
            _ => {
                ctx.st.count("every_order_too_many");
                all = false;
            }
        }
    }
    let f1 = file(&c.opts("O.search"), all, true);
    let n1 = match canonize(ctx, &s, &t, Some(&f1), &os)? {
        Some(n) => n,
        None if all => {
            ctx.st.count("cpu");
            return Ok(());
        }
        None => return Err("does not terminate when drawn".into()),
    };
    let a = states(ctx, &s)?;
    ctx.st.add("states", a.len() as u64);
    if a.len() as u64 != n1 {
        return Err(format!("{} nodes reported, {} drawn", n1, a.len()));
    }
    let drawn = sorted(&t);
    if !a.iter().any(|x| x.phase == 0 && x.t == drawn) {
        return Err("the original interaction is not drawn".into());
    }
    if a.len() > 8 {
        ctx.st.nontrivial(c);
    }
    // every interaction keeps the behaviours
    let lang = match Lang::of(&t) {
        Some(l) => l,
        None => {
            ctx.st.count("language_too_large");
            return Ok(());
        }
    };
    ctx.st.count(if let Lang::Dfa(_) = lang { "regular" } else { "bounded" });
    let mut seen: HashSet<T> = HashSet::new();
    seen.insert(drawn);
    for x in &a {
        if seen.insert(x.t.clone()) {
            match lang.differs(&x.t) {
                None => ctx.st.count("state_too_large"),
                Some(None) => ctx.st.count("state_checked"),
                Some(Some(w)) => {
                    let has = match &lang {
                        Lang::Dfa(d) => d.walk(&w).map_or(false, |q| d.fin[q]),
                        Lang::Upto(_, a) => a.contains(&w),
                    };
                    return Err(format!(
                        "language: rewritten to {} which {} {}",
                        x.t.hif(&s),
                        if has { "loses" } else { "adds" },
                        if w.is_empty() { "the empty behaviour".to_string() } else { gen::world_str(&s, &w) }
                    ));
                }
            }
        }
    }
    // another process, another schedule: the same interactions
    let f2 = file(&c.opts("O.other"), all, true);
    let n2 = match canonize(ctx, &s, &t, Some(&f2), &other)? {
        Some(n) => n,
        None => {
            ctx.st.count("cpu");
            return Ok(());
        }
    };
    let b = states(ctx, &s)?;
    if n1 != n2 || (!all && n1 != n0) {
        return Err(format!("schedule: {} nodes, {} under another schedule, {} when not drawn", n1, n2, n0));
    }
    let set = |v: &[State]| -> BTreeSet<(usize, String)> { v.iter().map(|x| (x.phase, x.t.hif(&s))).collect() };
    let (sa, sb) = (set(&a), set(&b));
    if sa != sb {
        let d = sa.symmetric_difference(&sb).next().unwrap();
        return Err(format!("schedule: {} is reached (phase {}) under one schedule and not the other", d.1, d.0 + 1));
    }
    let fin = |v: &[State]| -> BTreeSet<String> { v.iter().filter(|x| x.phase == 7).map(|x| x.t.hif(&s)).collect() };
    let fa = fin(&a);
    if fa.is_empty() {
        return Err("no final interaction".into());
    }
    if all {
        let f = file(&[], false, true);
        if canonize(ctx, &s, &t, Some(&f), &other)?.is_some() {
            let d = states(ctx, &s)?;
            let fd = fin(&d);
            if fd.len() != 1 || !fd.is_subset(&fa) {
                return Err(format!("normal form: {:?} is not among those of all orders {:?}", fd, fa));
            }
            if !set(&d).is_subset(&sa) {
                return Err("normal form: the default order goes through interactions that all orders do not".into());
            }
        }
        ctx.st.count(if fa.len() == 1 { "one_normal_form" } else { "several_normal_forms" });
    } else if fa.len() != 1 {
        return Err(format!("several final interactions: {:?}", fa));
    }
    Ok(())
}
/// the actions of a synchronization, written in no particular order, sorted
fn sorted(t: &T) -> T {
    use T::*;
    let f = |x: &T| bx(sorted(x));
    match t {
        St(a, b) => St(f(a), f(b)),
        Sq(a, b) => Sq(f(a), f(b)),
        Co(c, a, b) => Co(c.clone(), f(a), f(b)),
        Al(a, b) => Al(f(a), f(b)),
        Pa(a, b) => Pa(f(a), f(b)),
        Sy(c, a, b) => {
            let mut c = c.clone();
            c.sort();
            c.dedup();
            Sy(c, f(a), f(b))
        }
        Lp(k, a) => Lp(*k, f(a)),
        x => x.clone(),
    }
}
