//! C07: trace generation by exploration.
use super::ana::*;
use super::*;
use crate::gen;
use crate::oracle::covered;
use crate::refsem::*;
use crate::term::*;
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C07", quick: 30000, thorough: 300000, gen: gen_c07, exec: exec_c07, what: "trace generation" }]
}

/// a trace of the system: its states with (least loop depth), the sum over its steps of the greatest loop depth
struct Beh {
    tr: Vec<MAct>,
    st: HashMap<T, u32>,
    greatest: u32,
}
use std::collections::HashMap;
/// every non-empty trace of at most `d` actions; None when too many
fn behaviours(t: &T, d: usize, cap: usize) -> Option<Vec<Beh>> {
    let mut out: Vec<Beh> = vec![];
    let mut cur = vec![Beh { tr: vec![], st: std::iter::once((t.clone(), 0)).collect(), greatest: 0 }];
    let mut work = 0;
    for _ in 0..d {
        let mut nxt = vec![];
        for b in &cur {
            let mut by: BTreeMap<MAct, (HashMap<T, u32>, u32)> = BTreeMap::new();
            for (x, c) in &b.st {
                for s in steps(x) {
                    work += 1;
                    let e = by.entry(s.act).or_default();
                    e.1 = e.1.max(s.depth);
                    let y = e.0.entry(s.next).or_insert(u32::MAX);
                    *y = (*y).min(c + s.depth);
                }
            }
            for (a, (st, g)) in by {
                let mut tr = b.tr.clone();
                tr.push(a);
                nxt.push(Beh { tr, st, greatest: b.greatest + g });
            }
            if work > cap || nxt.len() + out.len() > cap / 10 {
                return None;
            }
        }
        out.append(&mut cur);
        cur = nxt;
    }
    out.append(&mut cur);
    out.retain(|b| !b.tr.is_empty());
    Some(out)
}
/// number of firings the explorer may go through (every derivation is a separate path)
pub fn paths(t: &T, d: usize, cap: usize) -> usize {
    let mut cur: HashMap<T, usize> = std::iter::once((t.clone(), 1)).collect();
    let mut n = 0usize;
    for _ in 0..d {
        let mut nxt: HashMap<T, usize> = HashMap::new();
        for (x, k) in cur {
            for s in steps(&x) {
                n = n.saturating_add(k);
                let e = nxt.entry(s.next).or_insert(0);
                *e = e.saturating_add(k);
                if n > cap || nxt.len() > cap {
                    return cap + 1;
                }
            }
        }
        cur = nxt;
        if cur.is_empty() {
            break;
        }
    }
    n
}

/// the trace generator attached to the analysis of some logs
fn gen_guided(r: &mut Rng) -> Case {
    let mut cfg = gen::Cfg::std();
    cfg.size = (2, 7);
    let mut w = world(r, &cfg, 6, false);
    while w.tr.len() > 1 && paths(&w.t, w.tr.len(), 1500) > 1500 {
        w.tr.pop();
    }
    let n = [0, 0, 0, 1][r.below(4)];
    let mut faults = gen::damage(r, &w.sig, &w.part, &w.tr, n);
    if r.chance(1, 4) {
        faults.push(format!("cut:{}:{}", r.below(w.part.len()), r.below(w.tr.len() + 1)));
    }
    let mut c = Case::new("C07", "guided");
    put_world(&mut c, &w, &faults, &Os::benign(r));
    c.set("mode", if r.chance(1, 2) { "accept" } else { "prefix" });
    let mut o: Vec<String> = super::hcf::ana_schedule(r, true, false);
    o.extend(super::hcf::goal(r));
    c.set("O.search", o.join(" ; "));
    match r.below(5) {
        0 | 1 => c.set("gen", "accepted"),
        2 => c.set("gen", ""),
        3 => c.set("gen", format!("exact depth {}", r.range(1, 4))),
        _ => c.set("gen", format!("modulo depth {}", r.range(1, 3))),
    };
    match r.below(6) {
        0 => c.set("part", ""),
        1 => c.set("part", "trivial"),
        2 => c.set("part", "discrete"),
        _ => c.set("part", gen::partition_str(&w.sig, &gen::partition(r, w.sig.lf.len()))),
    };
    c.set("nodup", *r.pick(&["", "true", "true", "false"]));
    c.set("folder", "out");
    c
}
fn exec_guided(c: &Case, ctx: &mut Ctx) -> Res {
    let s = c.sig();
    let t = c.term("T.system", &s);
    let mu = logs(c, &s);
    note_world(c, ctx.st);
    let cmu = covered(&mu, s.lf.len());
    let total: usize = cmu.logs.iter().map(|l| l.len()).sum();
    if total > 8 {
        return Ok(());
    }
    // executions of which every log shows a beginning
    let mut cur: Vec<(Vec<MAct>, std::collections::HashSet<T>)> = vec![(vec![], std::iter::once(t.clone()).collect())];
    let mut beh = vec![];
    let mut work = 0;
    while !cur.is_empty() {
        let mut nxt = vec![];
        for (tr, st) in &cur {
            let mut by: BTreeMap<MAct, std::collections::HashSet<T>> = BTreeMap::new();
            for x in st {
                for y in steps(x) {
                    work += 1;
                    by.entry(y.act).or_default().insert(y.next);
                }
            }
            for (a, st) in by {
                let mut tr = tr.clone();
                tr.push(a);
                let p = Mu::project(&cmu.colocs, &tr);
                if p.logs.iter().zip(&cmu.logs).all(|(x, y)| y.starts_with(x)) {
                    nxt.push((tr, st));
                }
            }
        }
        if work > 40_000 || beh.len() > 4000 {
            ctx.st.count("oracle_unknown");
            return Ok(());
        }
        beh.append(&mut cur);
        cur = nxt;
    }
    let mut part = partition_of(c, &s);
    let seen: BTreeSet<u8> = part.iter().flatten().cloned().collect();
    for l in 0..s.lf.len() as u8 {
        if !seen.contains(&l) {
            part.push(vec![l]);
        }
    }
    let g = c.get("gen");
    let (mut allowed, mut required) = (BTreeSet::new(), BTreeMap::new());
    for (tr, st) in &beh {
        let ok = if let Some(x) = g.strip_prefix("exact depth ") {
            tr.len() == x.parse::<usize>().unwrap_or(0)
        } else if let Some(x) = g.strip_prefix("modulo depth ") {
            tr.len() % x.parse::<usize>().unwrap_or(1) == 0
        } else {
            st.iter().any(nullable)
        };
        if ok {
            let k = Mu::project(&part, tr).canonical().htf(&s);
            // an execution that explains all the logs is not given up, whatever else the search spares itself
            let full = Mu::project(&cmu.colocs, tr).logs == cmu.logs;
            if full && !tr.is_empty() && st.iter().any(nullable) && goal_of(&c.opts("O.search")) == "none" {
                required.insert(k.clone(), gen::world_str(&s, tr));
            }
            allowed.insert(k);
        }
    }
    let mut opts = c.opts("O.search");
    opts.push(format!("loggers=[{}]", generator(c, &s)));
    let o = analyze(ctx, &s, &t, &mu, Some(&super::hcf::ana_file(c.get("mode"), &opts)), &Os::de(c.get("os")));
    if resource(&o, &opts, total) {
        ctx.st.count("resource_limit");
        return Ok(());
    }
    let v = verdict(&o)?;
    ctx.st.count(&format!("guided_{}", v));
    let mut got: BTreeMap<String, u64> = BTreeMap::new();
    for (k, v) in &ctx.w.tree() {
        if let Some(x) = k.strip_prefix("out/") {
            if x.strip_prefix("trace").and_then(|y| y.strip_suffix(".htf")).and_then(|y| y.parse::<u64>().ok()).is_none() {
                return Err(format!("unexpected file {}", k));
            }
            let txt = String::from_utf8_lossy(v).into_owned();
            let m = Mu::parse(&txt, &s).ok_or(format!("unreadable trace file {}: {:?}", k, txt))?;
            let key = m.canonical().htf(&s);
            if !allowed.contains(&key) {
                return Err(format!("not allowed: the analysis wrote {} holding {}", k, key.replace('\n', " ")));
            }
            *got.entry(key).or_insert(0) += 1;
        } else if !["s.hsf", "i.hif", "c.hcf", "t.htf"].contains(&k.as_str()) {
            return Err(format!("unexpected file {}", k));
        }
    }
    ctx.st.add("files", got.values().sum());
    if !got.is_empty() {
        ctx.st.nontrivial(c);
    }
    if c.get("nodup") == "true" {
        if let Some((k, m)) = got.iter().find(|x| *x.1 > 1) {
            return Err(format!("duplicate: {} files hold {}", m, k.replace('\n', " ")));
        }
    }
    for (k, tr) in &required {
        if !got.contains_key(k) {
            return Err(format!("missing: the analysis wrote no file for {} that is {}", tr, k.replace('\n', " ")));
        }
    }
    Ok(())
}
fn gen_c07(r: &mut Rng, _i: u64) -> Case {
    if r.chance(1, 8) {
        return gen_guided(r);
    }
    let mut cfg = gen::Cfg::std();
    if r.chance(1, 4) {
        cfg.size = (4, 12);
    }
    let mut w = world(r, &cfg, 6, false);
    w.tr.clear();
    let mut d = r.range(2, 6);
    let cap = if r.chance(1, 20) { 3000 } else { 400 };
    while d > 1 && paths(&w.t, d, cap) > cap {
        d -= 1;
    }
    if d <= 1 && paths(&w.t, 1, 400) > 400 {
        w.t = T::E;
    }
    let mut c = Case::new("C07", "explore");
    c.set("sig", w.sig.hsf());
    c.set("T.system", w.t.hif(&w.sig));
    c.set("os", Os::benign(r).ser());
    let mut o = vec![];
    o.extend(super::hcf::strategy(r));
    if r.chance(2, 3) {
        o.extend(super::hcf::priorities(r, &["emission", "reception", "multi_rdv", "loop"]));
    }
    match r.below(6) {
        0 => o.push("memoize=true".into()),
        1 => o.push("memoize=false".into()),
        _ => {}
    }
    r.shuffle(&mut o);
    c.set("O.search", o.join(" ; "));
    // limits
    let mut f = vec![];
    if !w.t.has_loop() && r.chance(1, 3) && paths(&w.t, 20, 400) <= 400 {
        // nothing
    } else {
        f.push(format!("max_depth={}", d));
    }
    if r.chance(1, 4) {
        f.push(format!("max_loop_depth={}", r.below(4)));
    }
    if r.chance(1, 10) {
        f.push(format!("max_node_number={}", r.range(1, 60)));
    }
    r.shuffle(&mut f);
    c.set("O.filters", f.join(" ; "));
    // the generator
    match r.below(5) {
        0 | 1 => c.set("gen", "accepted"),
        2 => c.set("gen", ""),
        3 => c.set("gen", format!("exact depth {}", r.range(0, d))),
        _ => c.set("gen", format!("modulo depth {}", if r.chance(1, 8) { 0 } else { r.range(1, 4) })),
    };
    match r.below(6) {
        0 => c.set("part", ""),
        1 => c.set("part", "trivial"),
        2 => c.set("part", "discrete"),
        _ => {
            let mut p = gen::partition(r, w.sig.lf.len());
            if p.len() > 1 && r.chance(1, 4) {
                p.pop();
            }
            c.set("part", gen::partition_str(&w.sig, &p))
        }
    };
    c.set("nodup", *r.pick(&["", "true", "true", "false"]));
    c.set("folder", *r.pick(&["", "", "out", "traces_1"]));
    c.set("prefix", *r.pick(&["", "", "tr", "x_"]));
    if r.chance(1, 4) {
        c.set("stale", "1");
    }
    c
}
pub fn partition_of(c: &Case, s: &Sig) -> Vec<Vec<u8>> {
    match c.get("part") {
        "" | "trivial" => vec![(0..s.lf.len() as u8).collect()],
        "discrete" => gen::discrete(s.lf.len()),
        x => gen::parse_partition(s, x),
    }
}
fn generator(c: &Case, s: &Sig) -> String {
    let mut tg = vec![];
    if c.get("gen") != "" {
        tg.push(format!("generation={}", c.get("gen")));
    }
    match c.get("part") {
        "" => {}
        "trivial" | "discrete" => tg.push(format!("partition={}", c.get("part"))),
        x => {
            let p: Vec<String> = gen::parse_partition(s, x)
                .iter()
                .map(|l| format!("({})", l.iter().map(|y| s.lf[*y as usize].clone()).collect::<Vec<_>>().join(",")))
                .collect();
            tg.push(format!("partition={{{}}}", p.join(",")))
        }
    }
    if c.get("nodup") != "" {
        tg.push(format!("no_duplicates={}", c.get("nodup")));
    }
    if c.get("folder") != "" {
        tg.push(format!("folder={}", c.get("folder")));
    }
    if c.get("prefix") != "" {
        tg.push(format!("prefix={}", c.get("prefix")));
    }
    let tgs = if tg.is_empty() { "tracegen".to_string() } else { format!("tracegen[{}]", tg.join(",")) };
    tgs
}
fn hcf(c: &Case, s: &Sig) -> String {
    let mut o = vec![format!("loggers=[{}]", generator(c, s))];
    o.extend(c.opts("O.search"));
    let f = c.opts("O.filters");
    if !f.is_empty() {
        o.push(format!("filters=[{}]", f.join(",")));
    }
    super::hcf::explo_file(&o)
}
fn exec_c07(c: &Case, ctx: &mut Ctx) -> Res {
    if c.kind == "guided" {
        return exec_guided(c, ctx);
    }
    let s = c.sig();
    let t = c.term("T.system", &s);
    ctx.st.execs.insert(c.key());
    let f = c.opts("O.filters");
    let lim = |k: &str| f.iter().find_map(|x| x.strip_prefix(k).and_then(|y| y.strip_prefix('=')).and_then(|y| y.parse::<u32>().ok()));
    let maxd = lim("max_depth").map(|x| x as usize);
    if maxd.is_none() && t.has_loop() && lim("max_node_number").is_none() {
        return Ok(());
    }
    let d = maxd.unwrap_or(20);
    let beh = match behaviours(&t, d, 40_000) {
        Some(b) => b,
        None => {
            ctx.st.count("oracle_unknown");
            return Ok(());
        }
    };
    let mut part = partition_of(c, &s);
    // as in trace files, lifelines which are not listed have a log of their own
    let seen: BTreeSet<u8> = part.iter().flatten().cloned().collect();
    for l in 0..s.lf.len() as u8 {
        if !seen.contains(&l) {
            part.push(vec![l]);
        }
    }
    let folder = if c.get("folder") != "" { c.get("folder").to_string() } else { "tracegen_l1".into() };
    let pre = if c.get("prefix") != "" { c.get("prefix") } else { "trace" };
    ctx.w.reset();
    ctx.w.put("s.hsf", &s.hsf());
    ctx.w.put("i.hif", &t.hif_file(&s));
    ctx.w.put("c.hcf", &hcf(c, &s));
    if c.get("stale") == "1" {
        ctx.w.put(&format!("{}/{}1.htf", folder, pre), "{ [nobody] }");
        ctx.w.put(&format!("{}/{}77.htf", folder, pre), "left over");
    }
    let o = ctx.w.run(&["explore", "s.hsf", "i.hif", "c.hcf"], &Os::de(c.get("os")));
    if o.end != End::Exit(0) {
        // a step of zero is no sensible request: an error is as good as an empty answer, a crash is not
        if c.get("gen") == "modulo depth 0" && !o.panicked() && matches!(o.end, End::Exit(_)) {
            ctx.st.count("zero_step_refused");
            return Ok(());
        }
        return Err(format!("exploration ended abnormally: {}", o.digest()));
    }
    // ---- what was written
    let tree = ctx.w.tree();
    let mut got: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut n = 0u64;
    for (k, v) in &tree {
        if let Some(x) = k.strip_prefix(&format!("{}/", folder)) {
            n += 1;
            let num = x.strip_prefix(pre).and_then(|y| y.strip_suffix(".htf")).and_then(|y| y.parse::<u64>().ok());
            if num.is_none() {
                return Err(format!("unexpected file {}", k));
            }
            let txt = String::from_utf8_lossy(v).into_owned();
            let mu = match Mu::parse(&txt, &s) {
                Some(m) => m,
                None => return Err(format!("unreadable trace file {}: {:?}", k, txt)),
            };
            let e = got.entry(mu.canonical().htf(&s)).or_insert((0, k.clone()));
            e.0 += 1;
        } else if !["s.hsf", "i.hif", "c.hcf"].contains(&k.as_str()) {
            return Err(format!("unexpected file {}", k));
        }
    }
    // (when duplicates are avoided, their numbers are skipped)
    for i in 1..=if c.get("nodup") == "true" { 0 } else { n } {
        if !tree.contains_key(&format!("{}/{}{}.htf", folder, pre, i)) {
            return Err(format!("trace files are not numbered consecutively: no number {} of {}", i, n));
        }
    }
    // ---- what is allowed and what is required
    let g = c.get("gen");
    let wanted = |b: &Beh, len: usize| -> bool {
        if let Some(x) = g.strip_prefix("exact depth ") {
            len == x.parse::<usize>().unwrap_or(0)
        } else if let Some(x) = g.strip_prefix("modulo depth ") {
            let m = x.parse::<usize>().unwrap_or(0);
            m != 0 && len % m == 0
        } else {
            b.st.keys().any(nullable)
        }
    };
    let ld = lim("max_loop_depth").unwrap_or(u32::MAX);
    let mut allowed: HashSet<String> = HashSet::new();
    let mut required: BTreeMap<String, String> = BTreeMap::new();
    for b in &beh {
        if !wanted(b, b.tr.len()) {
            continue;
        }
        let key = Mu::project(&part, &b.tr).canonical().htf(&s);
        // within the loop limit for some derivation; for the completed part, one that can complete
        if b.st.values().any(|x| *x <= ld) {
            allowed.insert(key.clone());
            if b.greatest <= ld && lim("max_node_number").is_none() {
                required.insert(key, gen::world_str(&s, &b.tr));
            }
        }
    }
    ctx.st.add("files", n);
    ctx.st.ticks += beh.len() as u64;
    if n > 0 {
        ctx.st.nontrivial(c);
    }
    for (k, (m, f)) in &got {
        if !allowed.contains(k) {
            return Err(format!("not allowed: {} holds {}", f, k.replace('\n', " ")));
        }
        if *m > 1 && c.get("nodup") == "true" {
            return Err(format!("duplicate: {} files hold {}", m, k.replace('\n', " ")));
        }
    }
    for (k, tr) in &required {
        if !got.contains_key(k) {
            return Err(format!("missing: no file for behaviour {} that is {}", tr, k.replace('\n', " ")));
        }
    }
    // ---- a written file is read back by the tool as what it says
    if let Some((k, (_, f))) = got.iter().nth((c.key() % got.len().max(1) as u64) as usize) {
        if (g == "" || g == "accepted") && part.len() == 1 {
            let file = f.clone();
            ctx.w.put("a.hcf", &super::hcf::ana_file("accept", &[]));
            let o = ctx.w.run(&["analyze", "s.hsf", "i.hif", &file, "a.hcf"], &Os::plain(c.key() >> 1));
            if o.end == End::Cpu {
                return Ok(());
            }
            let v = verdict(&o)?;
            ctx.st.count("read_back");
            if v != "Pass" {
                return Err(format!("read back: verdict {} for the generated {}", v, k.replace('\n', " ")));
            }
        }
    }
    Ok(())
}
