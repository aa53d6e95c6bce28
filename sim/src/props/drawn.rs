//! C16: the search process that is drawn is a true account of the search. Systems are explored (and logs analysed)
//! under random search schedules with the graphical logger on; the drawn graph is read back and every drawn
//! state, firing, verdict and cut is compared with the reference semantics.
use super::ana::*;
use super::canon::tree;
use super::nfa::{dfa, same_language};
use super::*;
use crate::gen;
use crate::refsem::*;
use crate::term::*;
use std::collections::{HashMap, VecDeque};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C16", quick: 6000, thorough: 100000, gen: gen_c16, exec: exec_c16, what: "drawn searches" }]
}
const LOGGER: &str = "loggers=[graphic[svg,vertical,draw_sd=false,draw_tt=true,draw_sub_processes=false]]";

fn gen_c16(r: &mut Rng, _i: u64) -> Case {
    if r.chance(1, 5) {
        return gen_still(r);
    }
    if r.chance(2, 5) {
        return gen_ana(r);
    }
    let mut cfg = gen::Cfg::std();
    if r.chance(1, 3) {
        cfg.proto = 40;
    }
    cfg.size = (2, 9);
    let mut w = world(r, &cfg, 5, false);
    for _ in 0..6 {
        if drawable(&w.t) {
            break;
        }
        w = world(r, &cfg, 5, false);
    }
    if !drawable(&w.t) {
        w.t = T::E;
    }
    let mut d = r.range(2, 6);
    let cap = if r.chance(1, 12) { 150 } else { 40 };
    while d > 1 && super::explo::paths(&w.t, d, cap) > cap {
        d -= 1;
    }
    let mut c = Case::new("C16", "explore");
    c.set("sig", w.sig.hsf());
    c.set("T.system", w.t.hif(&w.sig));
    c.set("os", Os::benign(r).ser());
    let mut o = vec![];
    o.extend(super::hcf::strategy(r));
    if r.chance(2, 3) {
        o.extend(super::hcf::priorities(r, &["emission", "reception", "multi_rdv", "loop"]));
    }
    match r.below(3) {
        0 => o.push("memoize=true".into()),
        1 => o.push("memoize=false".into()),
        _ => {}
    }
    r.shuffle(&mut o);
    c.set("O.search", o.join(" ; "));
    let mut f = vec![];
    if w.t.has_loop() || r.chance(2, 3) || super::explo::paths(&w.t, 20, cap) > cap {
        f.push(format!("max_depth={}", d));
    }
    if r.chance(1, 3) {
        f.push(format!("max_loop_depth={}", r.below(4)));
    }
    if r.chance(1, 8) {
        f.push(format!("max_node_number={}", r.range(1, 30)));
    }
    r.shuffle(&mut f);
    c.set("O.filters", f.join(" ; "));
    c
}
/// one drawing of one interaction: as a term tree, or as a sequence diagram in the language of PlantUML
fn gen_still(r: &mut Rng) -> Case {
    let puml = r.chance(1, 2);
    let mut cfg = gen::Cfg::std();
    cfg.size = (1, 16);
    let s = gen::sig(r, &cfg);
    let mut t = gen::term(r, &s, &cfg);
    if puml {
        t = drawable_puml(&t);
    }
    let mut c = Case::new("C16", if puml { "puml" } else { "tree" });
    c.set("sig", s.hsf());
    c.set("T.system", t.hif(&s));
    c.set("os", Os::benign(r).ser());
    c
}
/// the part of the language that can be drawn for PlantUML
fn drawable_puml(t: &T) -> T {
    use T::*;
    let d = |a: &T| bx(drawable_puml(a));
    match t {
        E => E,
        Em { o, m, sy, t } => Em { o: *o, m: *m, sy: *sy && t.len() == 1, t: t.iter().take(1).cloned().collect() },
        Rc { g, m, sy, r } => Rc { g: *g, m: *m, sy: *sy, r: r.iter().take(1).cloned().collect() },
        St(a, b) => St(d(a), d(b)),
        Sq(a, b) => Sq(d(a), d(b)),
        Co(_, a, b) | Pa(a, b) | Sy(_, a, b) => Pa(d(a), d(b)),
        Al(a, b) => Al(d(a), d(b)),
        Lp(k, a) => Lp(*k, d(a)),
    }
}
/// what a sequence diagram must show: weak sequencing from top to bottom, nested strict, par and alt flattened
fn puml(t: &T, s: &Sig, out: &mut Vec<String>) {
    use T::*;
    fn parts<'a>(t: &'a T, k: u8, v: &mut Vec<&'a T>) {
        match (t, k) {
            (St(a, b), 0) | (Pa(a, b), 1) | (Al(a, b), 2) => {
                parts(a, k, v);
                parts(b, k, v);
            }
            _ => v.push(t),
        }
    }
    let group = |name: &str, k: u8, out: &mut Vec<String>| {
        let mut v = vec![];
        parts(t, k, &mut v);
        out.push(name.into());
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                out.push("else".into());
            }
            puml(x, s, out);
        }
        out.push("end".into());
    };
    match t {
        E => {}
        Em { o, m, t, .. } => {
            let to = match t.first() {
                None => String::new(),
                Some(Tgt::Gt(_)) => "]".into(),
                Some(Tgt::Lf(l)) => s.lf[*l as usize].clone(),
            };
            out.push(format!("{}->{}:{}", s.lf[*o as usize], to, s.ms[*m as usize]));
        }
        Rc { m, r, .. } => out.push(format!("->{}:{}", s.lf[r[0] as usize], s.ms[*m as usize])),
        Sq(a, b) => {
            puml(a, s, out);
            puml(b, s, out);
        }
        St(..) => group("groupstrict", 0, out),
        Pa(..) => group("grouppar", 1, out),
        Al(..) => group("alt", 2, out),
        Lp(k, a) => {
            // (the names of the tool for its four loops)
            let n = match k {
                LK::S => "grouploopX",
                LK::H => "grouploopH",
                LK::W => "grouploopS",
                LK::P => "grouploopP",
            };
            out.push(n.into());
            puml(a, s, out);
            out.push("end".into());
        }
        _ => out.push("?".into()),
    }
}
fn exec_still(c: &Case, ctx: &mut Ctx) -> Res {
    let s = c.sig();
    let mut t = c.term("T.system", &s);
    let os = Os::de(c.get("os"));
    if c.kind == "puml" {
        t = drawable_puml(&t);
    }
    ctx.w.reset();
    ctx.w.put("s.hsf", &s.hsf());
    ctx.w.put("i.hif", &t.hif_file(&s));
    ctx.st.execs.insert(c.key());
    if t != T::E {
        ctx.st.nontrivial(c);
    }
    if c.kind == "puml" {
        let o = ctx.w.run(&["puml_sd", "s.hsf", "i.hif"], &os);
        if o.end != End::Exit(0) {
            return Err(format!("no sequence diagram: {}", o.digest()));
        }
        let name = ctx.w.tree().into_keys().find(|k| k.ends_with(".puml")).ok_or("no sequence diagram")?;
        let got: Vec<String> =
            ctx.w.get(&name).unwrap_or_default().lines().map(|l| l.split_whitespace().collect::<String>()).filter(|l| !l.is_empty()).collect();
        let mut want = vec!["@startuml".to_string()];
        puml(&t, &s, &mut want);
        want.push("@enduml".into());
        if got != want {
            return Err(format!("the sequence diagram of {} is {}", t.hif(&s), got.join(" ")));
        }
        ctx.st.count("sequence_diagrams");
    } else {
        let o = ctx.w.run(&["draw", "s.hsf", "i.hif", "-r", "tt"], &os);
        if o.end != End::Exit(0) {
            return Err(format!("no drawing: {}", o.digest()));
        }
        let name = ctx.w.tree().into_keys().find(|k| k.ends_with(".png")).ok_or("no drawing")?;
        let f = ctx.w.get(&name).unwrap_or_default();
        match tree(&f, &s) {
            Some(g) if norm(&g) == norm(&t) => ctx.st.count("term_trees"),
            Some(g) => return Err(format!("{} is drawn as {}", t.hif(&s), g.hif(&s))),
            None => return Err(format!("{} is drawn as something that is no interaction: {}", t.hif(&s), f.replace('\n', " "))),
        }
    }
    Ok(())
}
fn gen_ana(r: &mut Rng) -> Case {
    let mut cfg = gen::Cfg::std();
    if r.chance(1, 3) {
        cfg.proto = 40;
    }
    let mut w = world(r, &cfg, 5, false);
    for _ in 0..6 {
        if drawable(&w.t) {
            break;
        }
        w = world(r, &cfg, 5, false);
    }
    if !drawable(&w.t) {
        w.t = T::E;
        w.tr.clear();
    }
    let mut faults = vec![];
    let kind = *r.pick(&["accept", "prefix", "eliminate"]);
    if r.chance(1, 2) {
        let n = r.range(1, 2);
        faults = gen::damage(r, &w.sig, &w.part, &w.tr, n);
    }
    let mut c = Case::new("C16", "analyze");
    put_world(&mut c, &w, &faults, &Os::benign(r));
    c.set("how", kind);
    let mut o: Vec<String> = super::hcf::ana_schedule(r, w.tr.len() <= 4, false);
    o.extend(super::hcf::goal(r));
    c.set("O.search", o.join(" ; "));
    c
}
/// the same term up to the neutral element and the order of targets
fn norm(t: &T) -> T {
    use T::*;
    match t {
        E => E,
        Em { o, m, sy: s, t } => {
            let mut t = t.clone();
            t.sort();
            Em { o: *o, m: *m, sy: *s, t }
        }
        Rc { g, m, sy: s, r } => {
            let mut r = r.clone();
            r.sort();
            if r.is_empty() {
                return E;
            }
            Rc { g: *g, m: *m, sy: *s, r }
        }
        St(a, b) => st(norm(a), norm(b)),
        Sq(a, b) => sq(norm(a), norm(b)),
        Co(l, a, b) => co(l, norm(a), norm(b)),
        Pa(a, b) => pa(norm(a), norm(b)),
        Al(a, b) => al(norm(a), norm(b)),
        Sy(s, a, b) => {
            let mut s = s.clone();
            s.sort();
            sy(&s, norm(a), norm(b))
        }
        Lp(k, a) => lp(*k, norm(a)),
    }
}
/// None: too large to tell
fn same(a: &T, b: &T) -> Option<bool> {
    if norm(a) == norm(b) {
        return Some(true);
    }
    let (x, y) = (dfa(a, 120)?, dfa(b, 120)?);
    Some(same_language(&x, &y))
}
fn union(v: &[T]) -> T {
    let mut u = v[0].clone();
    for x in &v[1..] {
        u = al(u, x.clone());
    }
    u
}
/// is every behaviour of q one of those of v
fn within(q: &T, v: &[T]) -> Option<bool> {
    if v.iter().any(|x| norm(x) == norm(q)) {
        return Some(true);
    }
    let w = union(v);
    same(&al(q.clone(), w.clone()), &w)
}
/// what is fired at a drawn position of a drawn term, and how many loops it is under
fn at(t: &T, p: &mut std::iter::Peekable<std::str::Chars>) -> Option<(MAct, u32)> {
    use T::*;
    let two = |t: &T| -> Option<(T, T)> {
        match t {
            St(a, b) | Sq(a, b) | Co(_, a, b) | Pa(a, b) | Al(a, b) | Sy(_, a, b) => Some(((**a).clone(), (**b).clone())),
            _ => None,
        }
    };
    // (at the very end of a position, nothing stands for the action itself)
    let k = match p.peek() {
        None | Some('_') => 'o',
        _ => p.next()?,
    };
    match k {
        '1' => match t {
            Lp(_, a) => at(a, p).map(|(m, d)| (m, d + 1)),
            _ => at(&two(t)?.0, p),
        },
        '2' => at(&two(t)?.1, p),
        'H' => {
            let (a, b) = two(t)?;
            if p.next()? != '1' {
                return None;
            }
            let (mut x, d) = at(&a, p)?;
            if p.next()? != '_' || p.next()? != '2' {
                return None;
            }
            let (y, e) = at(&b, p)?;
            if p.next()? != 'H' {
                return None;
            }
            x.extend(y);
            x.sort();
            x.dedup();
            Some((x, d.max(e)))
        }
        k => {
            let mut n = String::new();
            if k == 's' {
                while p.peek().map_or(false, |c| c.is_ascii_digit()) {
                    n.push(p.next()?);
                }
            } else if k != 'o' {
                return None;
            }
            match t {
                Em { sy: false, o, m, .. } => Some((vec![Act { lf: *o, em: true, msg: *m }], 0)),
                Rc { sy: false, m, r, .. } => {
                    let i = if k == 'o' { 0 } else { n.parse::<usize>().ok()? };
                    Some((vec![Act { lf: *r.get(i)?, em: false, msg: *m }], 0))
                }
                Em { .. } | Rc { .. } => steps(t).into_iter().next().map(|s| (s.act, 0)),
                _ => None,
            }
        }
    }
}
fn rest_of(l: &str) -> &str {
    l.split(" [").next().unwrap_or(l)
}
struct Drawn {
    /// states in the order in which they were drawn
    ids: Vec<usize>,
    term: HashMap<usize, T>,
    verdict: HashMap<usize, Vec<String>>,
    /// (from, to, position), in the order in which they were drawn
    steps: Vec<(usize, usize, String)>,
    cut: HashMap<usize, Vec<String>>,
    global: String,
}
fn read(ctx: &Ctx, s: &Sig, ana: bool) -> Result<Drawn, String> {
    let g = ctx.w.get("c_l1.dot").ok_or("the search is not drawn")?;
    let mut d = Drawn { ids: vec![], term: HashMap::new(), verdict: HashMap::new(), steps: vec![], cut: HashMap::new(), global: String::new() };
    let mut cut_label: HashMap<String, String> = HashMap::new();
    let mut vlabel: HashMap<String, String> = HashMap::new();
    let pre = if ana { "itt" } else { "n" };
    let anchor = if ana { "a" } else { "n" };
    let lab = |x: &str| x.split_once("[label=\"").and_then(|y| y.1.split_once('"')).map(|y| y.0.to_string());
    let mut edges: Vec<(String, String)> = vec![];
    let mut drawn_steps: Vec<String> = vec![];
    for l in g.lines() {
        let l = l.trim();
        let name: String = l.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        let rest = &l[name.len()..];
        if let Some(x) = rest.strip_prefix("->") {
            edges.push((name, x.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()));
        } else if !rest.starts_with(" [") {
            if name.starts_with("s_") {
                return Err(format!("malformed drawing: {:?} is no identifier", rest_of(l)));
            }
            continue;
        } else if name == "verdict" {
            d.global = lab(rest).unwrap_or_default().trim_start_matches("verdict=").to_string();
        } else if let Some(n) = name.strip_prefix(pre).and_then(|x| x.parse::<usize>().ok()) {
            let t = if !rest.contains("image=") {
                T::E
            } else {
                // the picture that is shown (which holds the text it was drawn from)
                let img = rest.split_once("image=\"").and_then(|x| x.1.split_once('"')).map_or("", |x| x.0);
                let f = ctx.w.get(img).ok_or(format!("state {} is drawn with the picture {:?}, which is missing", n, img))?;
                tree(&f, s).ok_or(format!("state {} is drawn as something that is no interaction: {}", n, f.replace('\n', " ")))?
            };
            if d.term.insert(n, t).is_some() {
                return Err(format!("state {} is drawn twice", n));
            }
            d.ids.push(n);
        } else if name.starts_with("s_") {
            drawn_steps.push(name);
        } else if name.starts_with('e') {
            cut_label.insert(name, lab(rest).unwrap_or_default());
        } else if name.starts_with('v') {
            vlabel.insert(name, lab(rest).unwrap_or_default());
        }
    }
    let num = |x: &str| x.strip_prefix(anchor).and_then(|y| y.parse::<usize>().ok());
    for n in &drawn_steps {
        let mut p = n.splitn(4, '_').skip(1);
        let (a, b) = (p.next().and_then(|x| x.parse().ok()), p.next().and_then(|x| x.parse().ok()));
        let (a, b): (usize, usize) = match (a, b) {
            (Some(a), Some(b)) => (a, b),
            _ => return Err(format!("step {}", n)),
        };
        for e in [(format!("{}{}", anchor, a), n.clone()), (n.clone(), format!("{}{}", anchor, b))] {
            if !edges.contains(&e) {
                return Err(format!("the drawing lacks the edge {} -> {}", e.0, e.1));
            }
        }
        d.steps.push((a, b, p.next().unwrap_or("").to_string()));
    }
    for (a, b) in &edges {
        if let (Some(n), Some(c)) = (num(a), cut_label.get(b)) {
            d.cut.entry(n).or_default().push(c.clone());
        }
        if let (Some(n), Some(c)) = (num(a), vlabel.get(b)) {
            d.verdict.entry(n).or_default().push(c.clone());
        }
    }
    for (a, b, _) in &d.steps {
        if !d.term.contains_key(a) || !d.term.contains_key(b) {
            return Err(format!("step from {} to {} but not both are drawn", a, b));
        }
    }
    Ok(d)
}
fn exec_c16(c: &Case, ctx: &mut Ctx) -> Res {
    if c.kind == "puml" || c.kind == "tree" {
        return exec_still(c, ctx);
    }
    if c.kind == "analyze" {
        return exec_ana(c, ctx);
    }
    let s = c.sig();
    let t = c.term("T.system", &s);
    let os = Os::de(c.get("os"));
    let filters = c.opts("O.filters");
    let lim = |k: &str| filters.iter().find_map(|x| x.strip_prefix(&format!("{}=", k)).and_then(|y| y.parse::<u32>().ok()));
    if !drawable(&t) || (t.has_loop() && lim("max_depth").is_none()) {
        return Ok(());
    }
    ctx.w.reset();
    ctx.w.put("s.hsf", &s.hsf());
    ctx.w.put("i.hif", &t.hif_file(&s));
    let mut o = c.opts("O.search");
    o.push(LOGGER.to_string());
    if !filters.is_empty() {
        o.push(format!("filters=[{}]", filters.join(",")));
    }
    ctx.w.put("c.hcf", &super::hcf::explo_file(&o));
    let out = ctx.w.run(&["explore", "s.hsf", "i.hif", "c.hcf"], &os);
    ctx.st.execs.insert(c.key());
    if out.end == End::Cpu {
        ctx.st.count("undecided");
        return Ok(());
    }
    if out.end != End::Exit(0) {
        return Err(format!("no drawing: {} {}", out.digest(), tail(&out.out)));
    }
    let d = read(ctx, &s, false)?;
    ctx.st.add("states", d.ids.len() as u64);
    ctx.st.ticks += d.steps.len() as u64;
    if d.steps.len() > 1 {
        ctx.st.nontrivial(c);
    }
    // ---- the counts and the verdict that are printed
    let n = out.node_count().ok_or("no node count")?;
    if n != d.ids.len() as u64 {
        return Err(format!("{} states are drawn but the node count is {}", d.ids.len(), n));
    }
    let v = d.global.clone();
    if d.ids.first() != Some(&1) {
        return Err("the first state is not drawn first".into());
    }
    if same(&d.term[&1], &t) == Some(false) || norm(&d.term[&1]) != norm(&t) {
        return Err(format!("the search starts from {} instead of {}", d.term[&1].hif(&s), t.hif(&s)));
    }
    // ---- depth and loop depth at which every state was found
    let mut found: HashMap<usize, (u32, u32)> = std::iter::once((1usize, (0u32, 0u32))).collect();
    let memo = !c.opts("O.search").iter().any(|x| x == "memoize=false");
    let mut fired: Vec<MAct> = vec![];
    for (a, b, p) in &d.steps {
        let mut it = p.chars().peekable();
        let (act, ld) = match at(&d.term[a], &mut it) {
            Some(x) if it.peek().is_none() => x,
            _ => return Err(format!("step {}->{}: nothing to fire at position {} of {}", a, b, p, d.term[a].hif(&s))),
        };
        fired.push(act);
        let (x, y) = *found.get(a).ok_or(format!("step from {} which is not reached yet", a))?;
        if found.contains_key(b) {
            if !memo {
                return Err(format!("state {} is reached twice although states are not identified", b));
            }
        } else {
            found.insert(*b, (x + 1, y + ld));
        }
    }
    let (md, ml, mn) = (lim("max_depth"), lim("max_loop_depth"), lim("max_node_number"));
    let mut dead = false;
    for id in &d.ids {
        let p = &d.term[id];
        let (dep, ld) = *found.get(id).ok_or(format!("state {} is drawn but not reached", id))?;
        if md.map_or(false, |m| dep > m) || ml.map_or(false, |m| ld > m) {
            return Err(format!("state {} at depth {} and loop depth {} is beyond the limits {}", id, dep, ld, filters.join(" ")));
        }
        let st = steps(p);
        // verdict
        let want: Vec<String> = if nullable(p) {
            vec!["Accepting".into()]
        } else if st.is_empty() {
            dead = true;
            vec!["DeadLocked".into()]
        } else {
            vec![]
        };
        let got = d.verdict.get(id).cloned().unwrap_or_default();
        if want != got {
            return Err(format!("state {}: verdict {:?} is drawn instead of {:?} for {}", id, got, want, p.hif(&s)));
        }
        // every drawn step is a step, and every step is drawn or cut for a reason
        // (the tool may take one step where the reference has several: it delays choices)
        let mine: Vec<usize> = (0..d.steps.len()).filter(|i| d.steps[*i].0 == *id).collect();
        let cuts = d.cut.get(id).cloned().unwrap_or_default();
        let mut acts: Vec<MAct> = st.iter().map(|x| x.act.clone()).collect();
        acts.sort();
        acts.dedup();
        if mine.len() + cuts.len() > st.len() || mine.len() + cuts.len() < acts.len() {
            return Err(format!("state {}: {} steps and {} cuts are drawn but {} has {} steps", id, mine.len(), cuts.len(), p.hif(&s), st.len()));
        }
        for i in &mine {
            if !acts.contains(&fired[*i]) {
                return Err(format!("step {}->{}: {} is not a step of {}", id, d.steps[*i].1, s.mact(&fired[*i]), p.hif(&s)));
            }
        }
        for a in &acts {
            let want: Vec<T> = st.iter().filter(|x| x.act == *a).map(|x| norm(&x.next)).collect();
            let after: Vec<T> = mine.iter().filter(|i| fired[**i] == *a).map(|i| norm(&d.term[&d.steps[*i].1])).collect();
            let w = union(&want);
            for q in &after {
                match within(q, &want) {
                    Some(true) => {}
                    Some(false) => {
                        return Err(format!("state {}: {} does not turn {} into {}", id, s.mact(a), p.hif(&s), q.hif(&s)));
                    }
                    None => ctx.st.count("undecided_steps"),
                }
            }
            let full = if after.is_empty() { Some(false) } else { same(&union(&after), &w) };
            match full {
                Some(true) => {}
                None => ctx.st.count("undecided_steps"),
                Some(false) => {
                    let deep = st.iter().filter(|x| x.act == *a).map(|x| x.depth).max().unwrap_or(0);
                    if cuts.is_empty() || !(md.map_or(false, |m| dep + 1 > m) || ml.map_or(false, |m| ld + deep > m) || mn.is_some()) {
                        return Err(format!("state {}: not every way to do {} in {} is drawn", id, s.mact(a), p.hif(&s)));
                    }
                }
            }
        }
        for k in &cuts {
            ctx.st.count(&format!("cut_{}", k));
            let ok = match k.as_str() {
                "MaxDepth" => md.map_or(false, |m| dep + 1 > m),
                "MaxLoop" => ml.map_or(false, |m| st.iter().any(|x| ld + x.depth > m)),
                "MaxNum" => mn.map_or(false, |m| n >= m as u64),
                _ => false,
            };
            if !ok {
                return Err(format!("state {} (depth {}, loop depth {}): cut by {} without reason", id, dep, ld, k));
            }
        }
    }
    if (v == "HasDeadLocks") != dead {
        return Err(format!("verdict {} but a dead lock is {}drawn", v, if dead { "" } else { "not " }));
    }
    if let Some(m) = mn {
        if n > m.max(1) as u64 {
            return Err(format!("{} states although the limit is {}", n, m));
        }
    }
    Ok(())
}
fn exec_ana(c: &Case, ctx: &mut Ctx) -> Res {
    let s = c.sig();
    let t = c.term("T.system", &s);
    if !drawable(&t) {
        return Ok(());
    }
    let mu = logs(c, &s);
    note_world(c, ctx.st);
    let os = Os::de(c.get("os"));
    let how = c.get("how");
    let mut o = c.opts("O.search");
    o.push(LOGGER.to_string());
    let out = analyze(ctx, &s, &t, &mu, Some(&super::hcf::ana_file(how, &o)), &os);
    if out.end == End::Cpu {
        ctx.st.count("undecided");
        return Ok(());
    }
    let v = verdict(&out)?;
    let d = read(ctx, &s, true)?;
    ctx.st.add("states", d.ids.len() as u64);
    ctx.st.count(&v);
    let n = out.node_count().ok_or("no node count")?;
    if n != d.ids.len() as u64 {
        return Err(format!("{} states are drawn but the node count is {}", d.ids.len(), n));
    }
    if v != d.global {
        return Err(format!("verdict {} is printed but {} is drawn", v, d.global));
    }
    if d.steps.len() > 1 {
        ctx.st.nontrivial(c);
    }
    if !d.term.contains_key(&1) || norm(&d.term[&1]) != norm(&t) {
        let g = d.term.get(&1).map_or("nothing".into(), |x| x.hif(&s));
        return Err(format!("the search starts from {} instead of {}", g, t.hif(&s)));
    }
    // ---- the verdict that is drawn follows from those of the states
    let has = |k: &str| d.verdict.values().any(|x| x.iter().any(|y| y == k));
    let want = if has("Cov") {
        "Pass"
    } else if has("TooShort") || has("MultiPref") || has("Slice") {
        "WeakPass"
    } else {
        ""
    };
    if (want == "" && (v == "Pass" || v == "WeakPass")) || (want != "" && v != want) {
        let all: Vec<String> = d.verdict.values().flatten().cloned().collect();
        return Err(format!("verdict {} but the states are drawn as {}", v, all.join(" ")));
    }
    // ---- every drawn step fires something, or hides lifelines
    let mut can: Vec<Option<Vec<MAct>>> = vec![];
    for (a, b, _) in &d.steps {
        let (p, q) = (&d.term[a], &d.term[b]);
        let mut acts: Vec<MAct> = vec![];
        let mut known = true;
        let st = steps(p);
        for x in &st {
            if acts.contains(&x.act) {
                continue;
            }
            let v: Vec<T> = st.iter().filter(|y| y.act == x.act).map(|y| y.next.clone()).collect();
            match within(q, &v) {
                Some(true) => acts.push(x.act.clone()),
                Some(false) => {}
                None => known = false,
            }
        }
        if how == "eliminate" {
            let mut k = 0u32;
            // (lifelines that nobody observes may go as well)
            for m in 1..(1u32 << s.lf.len()) {
                if mu.colocs.iter().all(|c| c.iter().all(|l| m >> l & 1 == 1) || c.iter().all(|l| m >> l & 1 == 0)) {
                    match same(&crate::oracle::elim(p, m), q) {
                        Some(true) => k = m,
                        Some(false) => {}
                        None => known = false,
                    }
                }
                if k != 0 {
                    break;
                }
            }
            if k != 0 {
                acts.push(vec![]);
            }
        }
        if acts.is_empty() && known {
            return Err(format!("step {}->{}: nothing turns {} into {}", a, b, p.hif(&s), q.hif(&s)));
        }
        can.push(if known { Some(acts) } else { None });
    }
    if can.iter().any(|x| x.is_none()) {
        ctx.st.count("undecided_steps");
        return Ok(());
    }
    // ---- a drawn success is reached by a drawn run that leaves exactly the logs
    let goals: Vec<usize> = d
        .verdict
        .iter()
        .filter(|x| x.1.iter().any(|y| matches!(y.as_str(), "Cov" | "TooShort" | "MultiPref")))
        .map(|x| *x.0)
        .collect();
    let start: (usize, Vec<usize>) = (1, vec![0; mu.colocs.len()]);
    let mut seen: HashSet<(usize, Vec<usize>)> = std::iter::once(start.clone()).collect();
    let mut todo = VecDeque::from(vec![start]);
    while let Some((x, pos)) = todo.pop_front() {
        if seen.len() > 20000 {
            ctx.st.count("undecided");
            return Ok(());
        }
        for (i, (a, b, _)) in d.steps.iter().enumerate() {
            if *a != x {
                continue;
            }
            for act in can[i].as_ref().unwrap() {
                let mut p = pos.clone();
                let mut ok = true;
                for (k, (cl, log)) in mu.colocs.iter().zip(&mu.logs).enumerate() {
                    if let Some(m) = proj(act, cl) {
                        if log.get(p[k]) == Some(&m) {
                            p[k] += 1;
                        } else {
                            ok = false;
                        }
                    }
                }
                if ok && seen.insert((*b, p.clone())) {
                    todo.push_back((*b, p));
                }
            }
        }
    }
    let end: Vec<usize> = mu.logs.iter().map(|x| x.len()).collect();
    for g in goals {
        let full = seen.contains(&(g, end.clone()));
        let lab = d.verdict[&g].join(" ");
        if !full {
            return Err(format!("state {} is drawn as {} but no drawn run leading there leaves the logs", g, lab));
        }
        if lab == "Cov" && !nullable(&d.term[&g]) {
            return Err(format!("state {} is drawn as covered but {} is not over", g, d.term[&g].hif(&s)));
        }
        if lab == "TooShort" && nullable(&d.term[&g]) {
            return Err(format!("state {} is drawn as too short but {} may be over", g, d.term[&g].hif(&s)));
        }
        ctx.st.count("witnesses");
    }
    Ok(())
}
