//! C08: automata obtained from interactions, and trace analysis with them.
use super::ana::*;
use super::*;
use crate::gen;
use crate::oracle::*;
use crate::refsem::*;
use crate::term::*;
use std::collections::{BTreeSet, HashMap};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C08", quick: 20000, thorough: 150000, gen: gen_c08, exec: exec_c08, what: "automata" }]
}

// ---------------------------------------------------------------- automata of the reference model
/// a deterministic automaton without sink states; state 0 is initial
#[derive(Debug)]
pub struct Dfa {
    pub fin: Vec<bool>,
    pub tr: Vec<BTreeMap<MAct, usize>>,
}
/// all residual terms, when they are finitely many (at most cap)
pub fn closure(t: &T, cap: usize) -> Option<usize> {
    let mut seen: HashSet<T> = std::iter::once(t.clone()).collect();
    let mut st = vec![t.clone()];
    while let Some(x) = st.pop() {
        if x.size() > 150 {
            return None;
        }
        for s in steps(&x) {
            if seen.insert(s.next.clone()) {
                if seen.len() > cap {
                    return None;
                }
                st.push(s.next);
            }
        }
    }
    Some(seen.len())
}
/// subset construction
pub fn dfa(t: &T, cap: usize) -> Option<Dfa> {
    closure(t, cap)?;
    let mut id: HashMap<BTreeSet<T>, usize> = HashMap::new();
    let s0: BTreeSet<T> = std::iter::once(t.clone()).collect();
    id.insert(s0.clone(), 0);
    let mut q = std::collections::VecDeque::from(vec![s0]);
    let mut d = Dfa { fin: vec![], tr: vec![] };
    while let Some(s) = q.pop_front() {
        d.fin.push(s.iter().any(nullable));
        let mut by: BTreeMap<MAct, BTreeSet<T>> = BTreeMap::new();
        for x in &s {
            for y in steps(x) {
                by.entry(y.act).or_default().insert(y.next);
            }
        }
        let mut row = BTreeMap::new();
        for (a, y) in by {
            let n = id.len();
            let i = *id.entry(y.clone()).or_insert(n);
            if i == n {
                if n > cap {
                    return None;
                }
                q.push_back(y);
            }
            row.insert(a, i);
        }
        d.tr.push(row);
    }
    Some(d)
}
impl Dfa {
    /// the language with the letters that involve a lifeline erased
    pub fn hide(&self, l: u8) -> Dfa {
        let close = |mut x: BTreeSet<usize>| {
            let mut st: Vec<usize> = x.iter().cloned().collect();
            while let Some(i) = st.pop() {
                for (a, j) in &self.tr[i] {
                    if a.iter().any(|b| b.lf == l) && x.insert(*j) {
                        st.push(*j);
                    }
                }
            }
            x
        };
        let mut q = vec![close(std::iter::once(0).collect())];
        let mut d = Dfa { fin: vec![], tr: vec![] };
        let mut k = 0;
        while k < q.len() {
            d.fin.push(q[k].iter().any(|i| self.fin[*i]));
            let mut m: BTreeMap<MAct, BTreeSet<usize>> = BTreeMap::new();
            for i in &q[k] {
                for (a, j) in &self.tr[*i] {
                    if a.iter().all(|b| b.lf != l) {
                        m.entry(a.clone()).or_default().insert(*j);
                    }
                }
            }
            let mut row = BTreeMap::new();
            for (a, y) in m {
                let y = close(y);
                let i = q.iter().position(|z| *z == y).unwrap_or_else(|| {
                    q.push(y.clone());
                    q.len() - 1
                });
                row.insert(a, i);
            }
            d.tr.push(row);
            k += 1;
        }
        d
    }
    /// a word, as short as can be, of exactly one of the two languages
    pub fn difference(&self, o: &Dfa) -> Vec<MAct> {
        let mut seen = HashSet::new();
        let mut q = std::collections::VecDeque::new();
        q.push_back((Some(0usize), Some(0usize), vec![]));
        while let Some((x, y, w)) = q.pop_front() {
            if !seen.insert((x, y)) {
                continue;
            }
            if x.map_or(false, |i| self.fin[i]) != y.map_or(false, |i| o.fin[i]) {
                return w;
            }
            let mut k: BTreeSet<&MAct> = BTreeSet::new();
            if let Some(i) = x {
                k.extend(self.tr[i].keys());
            }
            if let Some(i) = y {
                k.extend(o.tr[i].keys());
            }
            for m in k {
                let mut w2 = w.clone();
                w2.push(m.clone());
                q.push_back((x.and_then(|i| self.tr[i].get(m).cloned()), y.and_then(|i| o.tr[i].get(m).cloned()), w2));
            }
        }
        vec![]
    }
    pub fn walk(&self, w: &[MAct]) -> Option<usize> {
        let mut q = 0;
        for a in w {
            q = *self.tr[q].get(a)?;
        }
        Some(q)
    }
    /// (states, edges) of the smallest automaton of the same language, without sink
    pub fn minimal(&self) -> (usize, usize) {
        let n = self.fin.len();
        // states from which the end can be reached
        let mut live = self.fin.clone();
        loop {
            let mut ch = false;
            for i in 0..n {
                if !live[i] && self.tr[i].values().any(|j| live[*j]) {
                    live[i] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        if !live[0] {
            return (1, 0);
        }
        let mut cl: Vec<usize> = (0..n).map(|i| self.fin[i] as usize).collect();
        loop {
            let mut ids: HashMap<(usize, Vec<(MAct, usize)>), usize> = HashMap::new();
            let mut nc = vec![usize::MAX; n];
            for i in 0..n {
                if live[i] {
                    let k = (cl[i], self.tr[i].iter().filter(|(_, j)| live[**j]).map(|(a, j)| (a.clone(), cl[*j])).collect());
                    let m = ids.len();
                    nc[i] = *ids.entry(k).or_insert(m);
                }
            }
            let old: HashSet<usize> = (0..n).filter(|i| live[*i]).map(|i| cl[i]).collect();
            let same = ids.len() == old.len();
            cl = nc;
            if same {
                break;
            }
        }
        let mut edges = HashSet::new();
        let mut states = HashSet::new();
        for i in 0..n {
            if live[i] {
                states.insert(cl[i]);
                for (a, j) in &self.tr[i] {
                    if live[*j] {
                        edges.insert((cl[i], a.clone()));
                    }
                }
            }
        }
        (states.len(), edges.len())
    }
}
/// the automaton drawn by the tool
struct Drawn {
    names: BTreeSet<usize>,
    init: Vec<usize>,
    fin: BTreeSet<usize>,
    tr: HashMap<usize, Vec<(Option<MAct>, usize)>>,
}
fn parse_dot(txt: &str, s: &Sig) -> Option<Drawn> {
    let mut d = Drawn { names: BTreeSet::new(), init: vec![], fin: BTreeSet::new(), tr: HashMap::new() };
    for l in txt.lines() {
        let l = l.trim().trim_end_matches('}').trim().trim_end_matches(';');
        if let Some((a, b)) = l.split_once("->") {
            let (b, lab) = match b.split_once(" [label=\"") {
                Some((b, r)) => (b, Some(r[..r.rfind('"')?].to_string())),
                None => (b, None),
            };
            let b: usize = b.trim().strip_prefix('S')?.parse().ok()?;
            if a.starts_with('I') {
                d.init.push(b);
                continue;
            }
            let a: usize = a.trim().strip_prefix('S')?.parse().ok()?;
            // several letters may share an edge
            let lab = lab?;
            let mut rest = lab.as_str();
            while !rest.is_empty() {
                let e = if rest.starts_with('{') { rest.find('}')? + 1 } else { rest.find(|c: char| c == ',' || c == '|' || c == '\\').unwrap_or(rest.len()) };
                let w = rest[..e].trim();
                if w.contains('!') || w.contains('?') {
                    let m = gen::parse_world(s, w);
                    if m.len() != 1 {
                        return None;
                    }
                    d.tr.entry(a).or_default().push((Some(m[0].clone()), b));
                } else if w == "𝜀" || w == "&#x3B5;" {
                    d.tr.entry(a).or_default().push((None, b));
                } else {
                    return None;
                }
                rest = rest[e..].trim_start_matches(|c: char| c == ',' || c == '|' || c == '\\' || c == 'n' || c == ' ');
            }
        } else if let Some((a, b)) = l.split_once(" [shape=") {
            if let Some(n) = a.trim().strip_prefix('S').and_then(|x| x.parse().ok()) {
                d.names.insert(n);
                if b.starts_with("doublecircle") {
                    d.fin.insert(n);
                }
            }
        }
    }
    Some(d)
}
impl Drawn {
    fn close(&self, mut s: BTreeSet<usize>) -> BTreeSet<usize> {
        let mut st: Vec<usize> = s.iter().cloned().collect();
        while let Some(x) = st.pop() {
            for (a, y) in self.tr.get(&x).map(|v| v.as_slice()).unwrap_or(&[]) {
                if a.is_none() && s.insert(*y) {
                    st.push(*y);
                }
            }
        }
        s
    }
    fn start(&self) -> BTreeSet<usize> {
        self.close(self.init.iter().cloned().collect())
    }
    fn dfa(&self) -> Dfa {
        let mut id: HashMap<BTreeSet<usize>, usize> = HashMap::new();
        id.insert(self.start(), 0);
        let mut q = vec![self.start()];
        let mut d = Dfa { fin: vec![], tr: vec![] };
        let mut k = 0;
        while k < q.len() {
            d.fin.push(q[k].iter().any(|x| self.fin.contains(x)));
            let mut row = BTreeMap::new();
            for (a, y) in self.rows(&q[k].clone()) {
                let n = id.len();
                let i = *id.entry(y.clone()).or_insert(n);
                if i == n {
                    q.push(y);
                }
                row.insert(a, i);
            }
            d.tr.push(row);
            k += 1;
        }
        d
    }
    fn rows(&self, s: &BTreeSet<usize>) -> BTreeMap<MAct, BTreeSet<usize>> {
        let mut m: BTreeMap<MAct, BTreeSet<usize>> = BTreeMap::new();
        for x in s {
            for (a, y) in self.tr.get(x).map(|v| v.as_slice()).unwrap_or(&[]) {
                if let Some(a) = a {
                    m.entry(a.clone()).or_default().insert(*y);
                }
            }
        }
        m.into_iter().map(|(a, y)| (a, self.close(y))).collect()
    }
}

// ---------------------------------------------------------------- cases
fn gen_c08(r: &mut Rng, _i: u64) -> Case {
    let mut cfg = gen::Cfg::std();
    if r.chance(1, 3) {
        cfg.size = (4, 12);
    }
    if r.chance(1, 4) {
        cfg.coreg = false;
        cfg.sync_op = false;
    }
    let kind = *r.pick(&["word", "word", "word", "draw", "draw", "sizes", "compose", "glosem"]);
    if kind == "compose" {
        cfg.coreg = false;
        cfg.sync_op = false;
        cfg.size = (1, 8);
    }
    let mut w = world(r, &cfg, 12, false);
    if kind == "compose" {
        w.t = only_strict_loops(&w.t);
        w.tr.clear();
    }
    w.part = vec![(0..w.sig.lf.len() as u8).collect()];
    let mut faults = vec![];
    if kind == "word" {
        if r.chance(1, 3) {
            let k = r.below(w.tr.len() + 1);
            w.tr.truncate(k);
        }
        if r.chance(1, 2) {
            let n = r.range(1, 2);
            faults = gen::damage(r, &w.sig, &w.part, &w.tr, n);
        }
    } else {
        w.tr.clear();
    }
    let mut c = Case::new("C08", kind);
    put_world(&mut c, &w, &faults, &Os::benign(r));
    match kind {
        "word" => {
            let mut o = vec![];
            if r.chance(1, 12) {
                o.push("-t");
            }
            if r.chance(1, 12) {
                o.push("-a");
            }
            c.set("O.flags", o.join(" ; "));
            if r.chance(1, 5) {
                // an event together with another one which never occurs at the same time
                c.set("N.joint", (r.below(24) + 1).to_string());
            }
        }
        "draw" => {
            let mut o = vec![];
            o.extend(super::hcf::strategy(r));
            o.extend(super::hcf::priorities(r, &["emission", "reception", "multi_rdv", "loop"]));
            c.set("O.search", o.join(" ; "));
            let mut f = vec![];
            if r.chance(1, 4) {
                f.push(format!("max_depth={}", r.range(0, 6)));
            }
            if r.chance(1, 6) {
                f.push(format!("max_loop_depth={}", r.range(0, 3)));
            }
            c.set("O.filters", f.join(" ; "));
        }
        "sizes" => {
            c.set("what", *r.pick(&["minDFA", "minDFA", "operatNFA"]));
            c.set("os2", Os::benign(r).ser());
        }
        _ => {
            c.set("os2", Os::benign(r).ser());
        }
    }
    c
}
/// the operators the compositional translation covers
fn only_strict_loops(t: &T) -> T {
    use T::*;
    match t {
        St(a, b) => St(bx(only_strict_loops(a)), bx(only_strict_loops(b))),
        Sq(a, b) => Sq(bx(only_strict_loops(a)), bx(only_strict_loops(b))),
        Al(a, b) => Al(bx(only_strict_loops(a)), bx(only_strict_loops(b))),
        Pa(a, b) => Pa(bx(only_strict_loops(a)), bx(only_strict_loops(b))),
        Lp(_, a) => Lp(LK::S, bx(only_strict_loops(a))),
        x => x.clone(),
    }
}
const CAP: usize = 250;
fn files(c: &Case, ctx: &mut Ctx) -> (Sig, T) {
    let s = c.sig();
    let t = c.term("T.system", &s);
    ctx.w.reset();
    ctx.w.put("s.hsf", &s.hsf());
    ctx.w.put("i.hif", &t.hif_file(&s));
    (s, t)
}
fn number(o: &str, key: &str) -> Option<u64> {
    o.lines().find(|l| l.contains(key)).and_then(|l| l.rsplit(':').next()).and_then(|x| x.trim().parse().ok())
}
fn exec_c08(c: &Case, ctx: &mut Ctx) -> Res {
    note_world(c, ctx.st);
    let (s, t) = files(c, ctx);
    let os = Os::de(c.get("os"));
    let regular = closure(&t, CAP);
    if regular.is_none() {
        ctx.st.count("unboundedly_many_states");
    }
    match c.kind.as_str() {
        "word" => {
            let mut mu = logs(c, &s);
            if c.has("N.joint") && mu.logs.len() == 1 && !mu.logs[0].is_empty() {
                let n = mu.logs[0].len();
                let m = &mut mu.logs[0][c.num("N.joint") as usize % n];
                let mut a = m[0].clone();
                a.lf = (a.lf + 1) % s.lf.len() as u8;
                a.em = !a.em;
                m.push(a);
                m.sort();
                m.dedup();
                ctx.st.count("joint_foreign");
            }
            if mu.logs.len() != 1 || mu.colocs[0].len() != s.lf.len() {
                return Ok(());
            }
            ctx.w.put("t.htf", &mu.htf_file(&s));
            let mut a = vec!["nfa_analyze", "s.hsf", "i.hif", "t.htf"];
            let fl = c.opts("O.flags");
            for f in &fl {
                if f == "-t" && drawable(&t) {
                    a.push("-t");
                } else if f == "-a" {
                    a.push("-a");
                }
            }
            // (without a bound on the states, only short explorations)
            if regular.is_none() && (t.loops() > 2 || super::explo::paths(&t, 6, 2000) > 2000) {
                return Ok(());
            }
            let o = ctx.w.run(&a, &os);
            if o.end == End::Cpu && regular.is_none() {
                ctx.st.count("cpu");
                return Ok(());
            }
            let v = verdict(&o)?;
            let e = prefix(&t, &mu, 40_000);
            ctx.st.nontrivial(c);
            ctx.st.count(&format!("{:?}_{}", e, if v.starts_with("re-enacted") { "read" } else { "refused" }));
            match v.as_str() {
                "re-enacted trace without deviations" => {
                    if e == Pref::No {
                        return Err(format!("automaton: reads a trace no run can begin with: {}", mu.htf(&s).replace('\n', " ")));
                    }
                }
                "failed to re-enact trace" => {
                    if (e == Pref::Complete || e == Pref::Proper) && regular.is_some() {
                        if let Some(b) = loop_bounded(&t, &s, ctx, &os) {
                            let w: Vec<MAct> = mu.logs[0].clone();
                            if b.walk(&w).is_none() {
                                return Err(format!("{}: refuses the beginning of a run: {}", BOUND, mu.htf(&s).replace('\n', " ")));
                            }
                        }
                        return Err(format!("automaton: refuses the beginning of a run: {}", mu.htf(&s).replace('\n', " ")));
                    }
                }
                x => return Err(format!("unknown verdict {}", x)),
            }
        }
        "draw" => {
            let f = c.opts("O.filters");
            let limited = !f.is_empty();
            let rd = match dfa(&t, CAP) {
                Some(d) => d,
                None => return Ok(()),
            };
            let mut o = vec!["loggers=[nfait]".to_string(), "memoize=true".into()];
            o.extend(c.opts("O.search"));
            if limited {
                o.push(format!("filters=[{}]", f.join(",")));
            }
            ctx.w.put("c.hcf", &super::hcf::explo_file(&o));
            let out = ctx.w.run(&["explore", "s.hsf", "i.hif", "c.hcf"], &os);
            if out.end == End::Cpu {
                ctx.st.count("cpu");
                return Ok(());
            }
            if out.end != End::Exit(0) {
                return Err(format!("exploration ended abnormally: {}", out.digest()));
            }
            let dot = match ctx.w.get("nfait_l1.dot") {
                Some(x) => x,
                None => return Err("no automaton was drawn".into()),
            };
            let d = match parse_dot(&dot, &s) {
                Some(d) => d,
                None => return Err(format!("unreadable automaton: {}", dot)),
            };
            if d.init.len() != 1 {
                return Err(format!("automaton: {} initial states", d.init.len()));
            }
            ctx.st.nontrivial(c);
            ctx.st.count(if limited { "drawn_limited" } else { "drawn" });
            agree(&d, &rd, limited, &s)?;
        }
        "glosem" => {
            if !drawable(&t) {
                return Ok(());
            }
            let rd = match dfa(&t, 60) {
                Some(d) => d,
                None => return Ok(()),
            };
            let out = ctx.w.run(&["glosem", "s.hsf", "i.hif"], &os);
            if out.end != End::Exit(0) {
                return Err(format!("glosem ended abnormally: {}", out.digest()));
            }
            ctx.st.nontrivial(c);
            let get = |ctx: &mut Ctx, n: &str| -> Result<Drawn, String> {
                let n = format!("i_{}.dot", n);
                let x = ctx.w.get(&n).ok_or(format!("{} was not written", n))?;
                parse_dot(&x, &s).ok_or(format!("unreadable automaton {}: {}", n, x))
            };
            let orig = get(ctx, "orig_nfa")?;
            let mini = get(ctx, "mini_dfa")?;
            let hidden: Vec<(Drawn, Drawn)> = (0..s.lf.len()).map(|i| Ok((get(ctx, &format!("hid_{}_nfa", i))?, get(ctx, &format!("hid_{}_closed_nfa", i))?))).collect::<Result<_, String>>()?;
            // the explored automaton is the one the loop bound leaves (see BOUND)
            let rd = match loop_bounded(&t, &s, ctx, &os) {
                Some(b) if !same_language(&b, &rd) => {
                    ctx.st.count("known[loop-bound]_glosem");
                    b
                }
                _ => rd,
            };
            agree(&orig, &rd, false, &s).map_err(|e| format!("{} (incremental)", e))?;
            if !same_language(&mini.dfa(), &rd) {
                return Err("automaton: the minimal automaton has another language".into());
            }
            if mini.init.len() != 1 || mini.tr.values().any(|v| v.iter().map(|x| &x.0).collect::<BTreeSet<_>>().len() < v.len()) {
                return Err("minimal: the minimal automaton is not deterministic".into());
            }
            if mini.names.len() != rd.minimal().0 {
                return Err(format!("minimal: drawn with {} states, the minimal automaton has {}", mini.names.len(), rd.minimal().0));
            }
            for (i, (h, cl)) in hidden.iter().enumerate() {
                let e = rd.hide(i as u8);
                if !same_language(&h.dfa(), &e) {
                    return Err(format!("automaton: hiding {} leaves another language", s.lf[i]));
                }
                if !same_language(&cl.dfa(), &e) {
                    return Err(format!("automaton: hiding {} leaves another language once closed", s.lf[i]));
                }
            }
        }
        "sizes" => {
            let rd = match dfa(&t, CAP) {
                Some(d) => d,
                None => return Ok(()),
            };
            let what = c.get("what");
            let o1 = ctx.w.run(&["get_metrics", "s.hsf", "i.hif", what], &os);
            let o2 = ctx.w.run(&["get_metrics", "s.hsf", "i.hif", what], &Os::de(c.get("os2")));
            let mut g = vec![];
            for o in [&o1, &o2] {
                if o.end != End::Exit(0) {
                    return Err(format!("metrics ended abnormally: {}", o.digest()));
                }
                match (number(&o.out, "number of states"), number(&o.out, "number of edges")) {
                    (Some(a), Some(b)) => g.push((a as usize, b as usize)),
                    _ => return Err(format!("no sizes reported: {:?}", tail(&o.out))),
                }
            }
            ctx.st.nontrivial(c);
            ctx.st.count(what);
            if g[0] != g[1] {
                // known finding: one interaction reached with several loop depths is memoised as several states, and
                // which of them a later transition goes to depends on the hash seed
                if what == "operatNFA" && g[0].0 == g[1].0 && t.loops() > 1 {
                    return Err(format!("known[memo-depth]: sizes differ between runs: {:?} and {:?}", g[0], g[1]));
                }
                return Err(format!("sizes differ between runs: {:?} and {:?}", g[0], g[1]));
            }
            let m = rd.minimal();
            if what == "minDFA" && g[0] != m {
                // (the metrics are those of a canonized interaction: nested loops are merged, empty parts removed...)
                let mut forms = vec![unnested(&t), t.clone()];
                let canonized = super::canon::canonize(ctx, &s, &t, Some(&super::canon::file(&[], false, true)), &os);
                if let Ok(Some(_)) = canonized {
                    forms.extend(super::canon::states(ctx, &s).unwrap_or_default().into_iter().map(|x| x.t));
                }
                for f in forms {
                    if let Some(b) = loop_bounded(&f, &s, ctx, &os) {
                        if g[0] == b.minimal() && !same_language(&b, &rd) {
                            return Err(format!("{}: reported {:?} states and edges, the minimal automaton has {:?}", BOUND, g[0], m));
                        }
                    }
                }
                return Err(format!("minimal: reported {:?} states and edges, the minimal automaton has {:?}", g[0], m));
            }
        }
        _ => {
            let rd = match dfa(&t, CAP) {
                Some(d) => d,
                None => return Ok(()),
            };
            let ct = composed(&t);
            let cd = match dfa(&ct, CAP) {
                Some(d) => d,
                None => return Ok(()),
            };
            let a = ["nfa_experiment", "s.hsf", "i.hif", "-n", "1", "-k", "1"];
            let o = ctx.w.run(&a, &os);
            if o.end == End::Cpu {
                ctx.st.count("cpu");
                return Ok(());
            }
            if o.end != End::Exit(0) {
                return Err(format!("experiment ended abnormally: {}", o.digest()));
            }
            ctx.st.nontrivial(c);
            let ns = |k: &str| -> Option<usize> { o.out.lines().find(|l| l.contains(k)).and_then(|l| l.rsplit("states").next()).and_then(|x| x.trim().parse().ok()) };
            for (k, d) in [("minimized DFA after operational", &rd), ("minimized DFA after compositional", &cd)] {
                let m = d.minimal().0;
                if ns(k) != Some(m) {
                    if k.ends_with("operational") {
                        if let Some(b) = loop_bounded(&t, &s, ctx, &os) {
                            if ns(k) == Some(b.minimal().0) && !same_language(&b, &rd) {
                                return Err(format!("{}: {} reports {:?} states, the minimal automaton has {}", BOUND, k, ns(k), m));
                            }
                        }
                    }
                    return Err(format!("minimal: {} reports {:?} states, the minimal automaton has {}", k, ns(k), m));
                }
            }
            let eq = same_language(&rd, &cd);
            ctx.st.count(if eq { "compositional_equal" } else { "compositional_differs" });
            let said = o.out.contains("compositional NFA is a correct translation");
            if said != eq {
                if let Some(b) = loop_bounded(&t, &s, ctx, &os) {
                    if said == same_language(&b, &cd) {
                        return Err(format!("{}: compositional translation reported {}", BOUND, if said { "correct" } else { "incorrect" }));
                    }
                }
                return Err(format!("composition: reported {} but the languages are {}", if said { "correct" } else { "incorrect" }, if eq { "equal" } else { "different" }));
            }
        }
    }
    Ok(())
}
/// the drawn automaton accepts what the reference accepts (part of it, when the exploration was limited)
fn agree(d: &Drawn, rd: &Dfa, limited: bool, s: &Sig) -> Res {

            // walk both
            let mut seen = HashSet::new();
            let mut st = vec![(0usize, d.start(), vec![])];
            while let Some((q, p, w)) = st.pop() {
                if !seen.insert((q, p.clone())) || seen.len() > 4000 {
                    continue;
                }
                let fin = p.iter().any(|x| d.fin.contains(x));
                if fin != rd.fin[q] && (fin || !limited) {
                    return Err(format!(
                        "automaton: {} {}",
                        if fin { "accepts" } else { "does not accept" },
                        if w.is_empty() { "the empty behaviour".to_string() } else { gen::world_str(s, &w) }
                    ));
                }
                let rows = d.rows(&p);
                for (a, j) in &rd.tr[q] {
                    let mut w2 = w.clone();
                    w2.push(a.clone());
                    match rows.get(a) {
                        Some(p2) => st.push((*j, p2.clone(), w2)),
                        None => {
                            if !limited {
                                return Err(format!("automaton: lacks {}", gen::world_str(s, &w2)));
                            }
                        }
                    }
                }
                for a in rows.keys() {
                    if !rd.tr[q].contains_key(a) {
                        let mut w2 = w.clone();
                        w2.push(a.clone());
                        return Err(format!("automaton: has {}", gen::world_str(s, &w2)));
                    }
                }
            }
    Ok(())
}
/// Known finding: the automaton behind nfa_analyze, get_metrics and nfa_experiment is explored with a bound of
/// twice the number of loops on the loop instantiations along a path, which can cut transitions of an
/// interaction that has finitely many states. The automaton that the same bound leaves of the
/// exploration, when the tool draws it.
const BOUND: &str = "known[loop-bound]";
pub fn loop_bounded(t: &T, s: &Sig, ctx: &mut Ctx, os: &Os) -> Option<Dfa> {
    if t.loops() == 0 {
        return None;
    }
    let o = vec!["loggers=[nfait]".to_string(), "memoize=true".into(), "strategy=BFS".into(), format!("filters=[max_loop_depth={}]", 2 * t.loops())];
    ctx.w.put("bound.hif", &t.hif_file(s));
    ctx.w.put("bound.hcf", &super::hcf::explo_file(&o));
    let plain = Os::plain(os.seed);
    let out = ctx.w.run(&["explore", "s.hsf", "bound.hif", "bound.hcf"], &plain);
    if out.end != End::Exit(0) {
        return None;
    }
    Some(parse_dot(&ctx.w.get("nfait_l1.dot")?, s)?.dfa())
}
fn unnested(t: &T) -> T {
    use T::*;
    let f = |x: &T| bx(unnested(x));
    match t {
        St(a, b) => St(f(a), f(b)),
        Sq(a, b) => Sq(f(a), f(b)),
        Co(c, a, b) => Co(c.clone(), f(a), f(b)),
        Al(a, b) => Al(f(a), f(b)),
        Pa(a, b) => Pa(f(a), f(b)),
        Sy(c, a, b) => Sy(c.clone(), f(a), f(b)),
        Lp(k, a) => match unnested(a) {
            Lp(l, x) => Lp(*k.max(&l), x),
            x => Lp(*k, bx(x)),
        },
        x => x.clone(),
    }
}
/// what the compositional translation stands for: weak sequences are only kept inside blocks of sequences
fn composed(t: &T) -> T {
    use T::*;
    fn basic(t: &T) -> bool {
        match t {
            E | Em { .. } | Rc { .. } => true,
            St(a, b) | Sq(a, b) => basic(a) && basic(b),
            _ => false,
        }
    }
    if basic(t) {
        return t.clone();
    }
    match t {
        St(a, b) | Sq(a, b) => st(composed(a), composed(b)),
        Al(a, b) => al(composed(a), composed(b)),
        Pa(a, b) => pa(composed(a), composed(b)),
        Lp(k, a) => lp(*k, composed(a)),
        x => x.clone(),
    }
}
/// same complete behaviours
pub fn same_language(a: &Dfa, b: &Dfa) -> bool {
    let mut seen = HashSet::new();
    let mut st = vec![(Some(0usize), Some(0usize))];
    while let Some((x, y)) = st.pop() {
        if !seen.insert((x, y)) {
            continue;
        }
        if x.map_or(false, |i| a.fin[i]) != y.map_or(false, |i| b.fin[i]) {
            return false;
        }
        let mut k: BTreeSet<&MAct> = BTreeSet::new();
        if let Some(i) = x {
            k.extend(a.tr[i].keys());
        }
        if let Some(i) = y {
            k.extend(b.tr[i].keys());
        }
        for m in k {
            st.push((x.and_then(|i| a.tr[i].get(m).cloned()), y.and_then(|i| b.tr[i].get(m).cloned())));
        }
    }
    true
}
/// None: not drawings of automata
pub fn same_drawing(a: &str, b: &str, s: &Sig) -> Option<Res> {
    let (x, y) = (parse_dot(a, s)?, parse_dot(b, s)?);
    if x.names.is_empty() && y.names.is_empty() {
        return None;
    }
    let sizes = |d: &Drawn| (d.names.len(), d.fin.len(), d.init.len());
    if sizes(&x) != sizes(&y) {
        return Some(Err(format!("{:?} states, accepting, initial in one, {:?} in the other", sizes(&x), sizes(&y))));
    }
    if !same_language(&x.dfa(), &y.dfa()) {
        return Some(Err("the drawn automata accept different executions".into()));
    }
    Some(Ok(()))
}
