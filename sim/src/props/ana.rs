//! C01..C06: verdicts of trace analysis.
use super::*;
use crate::gen;
use crate::oracle::*;
use crate::refsem;
use crate::term::*;

pub const CAP: usize = 40_000;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", quick: 45000, thorough: 1500000, gen: gen_c01, exec: exec_c01, what: "accept" },
        Prop { id: "C02", quick: 45000, thorough: 1500000, gen: gen_c02, exec: exec_c02, what: "prefix" },
        Prop { id: "C03", quick: 22000, thorough: 600000, gen: gen_c03, exec: exec_c03, what: "lifeline removal" },
        Prop { id: "C04", quick: 15000, thorough: 500000, gen: gen_c04, exec: exec_c04, what: "simulation" },
        Prop { id: "C05", quick: 4500, thorough: 160000, gen: gen_c05, exec: exec_c05, what: "search schedules" },
        Prop { id: "C06", quick: 9000, thorough: 250000, gen: gen_c06, exec: exec_c06, what: "exploration limits" },
    ]
}

pub struct World {
    pub sig: Sig,
    pub t: T,
    pub part: Vec<Vec<u8>>,
    pub tr: Vec<MAct>,
    pub complete: bool,
}
pub fn world(r: &mut Rng, cfg: &gen::Cfg, max: usize, stop: bool) -> World {
    let sig = gen::sig(r, cfg);
    let mut t = gen::term(r, &sig, cfg);
    if t.size() < 10 && r.chance(1, 8) {
        t = stutter(r, &t);
    }
    let mut best = None;
    // prefer systems that do something
    for _ in 0..3 {
        let (tr, c) = gen::run(r, &t, max, None);
        if !tr.is_empty() {
            best = Some((tr, c));
            break;
        }
        t = gen::term(r, &sig, cfg);
    }
    let (mut tr, mut complete) = best.unwrap_or((vec![], refsem::nullable(&t)));
    // sometimes the system does not quite follow the interaction
    if r.chance(1, 5) {
        let mut u = gen::relax(r, &t);
        if u == t {
            u = gen::relax(r, &t);
        }
        let (x, c) = gen::run(r, &u, max, None);
        if !x.is_empty() {
            tr = x;
            complete = c;
        }
    }
    if stop && r.chance(1, 2) {
        let k = r.below(tr.len() + 1);
        if k < tr.len() {
            complete = false;
        }
        tr.truncate(k);
    }
    let mut part = gen::partition(r, sig.lf.len());
    // sometimes a component is not even declared in the logs
    if part.len() > 1 && r.chance(1, 12) {
        part.pop();
    }
    World { sig, t, part, tr, complete }
}
/// iterations which overlap, started by actions that only some of the (grouped) logs contain: what one log
/// shows of an execution is then in no obvious relation with the whole
fn grouped_world(r: &mut Rng, max: usize) -> World {
    use T::*;
    let mut cfg = gen::Cfg::std();
    cfg.lf = (3, 4);
    cfg.ms = (2, 4);
    cfg.sync_op = false;
    let sig = gen::sig(r, &cfg);
    let al = |a: T, b: T| Al(bx(a), bx(b));
    let sq = |a: T, b: T| Sq(bx(a), bx(b));
    let mut t = E;
    let mut best = (vec![], false);
    for _ in 0..4 {
        let x: Vec<T> = (0..4).map(|_| gen::atom(r, &sig, &cfg)).collect();
        let (a, b, d) = (x[0].clone(), x[1].clone(), x[2].clone());
        let lk = *r.pick(&[LK::H, LK::W, LK::S, LK::P]);
        let y = match r.below(9) {
            5 => Co(gen::partition(r, sig.lf.len()).swap_remove(0), bx(sq(a, b)), bx(d)),
            6 => sq(Lp(lk, bx(sq(a, b))), d),
            7 => Pa(bx(sq(a, b)), bx(d)),
            8 => Sq(bx(St(bx(a), bx(b))), bx(d)),
            0 => sq(al(x[0].clone(), x[1].clone()), x[2].clone()),
            1 => al(sq(x[0].clone(), x[1].clone()), x[2].clone()),
            2 => al(sq(x[0].clone(), x[1].clone()), sq(x[2].clone(), x[3].clone())),
            3 => sq(x[0].clone(), al(x[1].clone(), x[2].clone())),
            _ => sq(x[0].clone(), x[1].clone()),
        };
        let k = *r.pick(&[LK::H, LK::H, LK::H, LK::W, LK::S, LK::P]);
        t = Lp(k, bx(y));
        if r.chance(1, 4) {
            t = sq(t, x[3].clone());
        }
        let run = gen::run(r, &t, max, None);
        if run.0.len() >= 4 && run.1 {
            best = run;
            break;
        }
        if run.0.len() >= best.0.len() {
            best = run;
        }
    }
    let mut part = gen::partition(r, sig.lf.len());
    for _ in 0..3 {
        if part.len() < 2 || part.iter().all(|p| p.len() == 1) {
            part = gen::partition(r, sig.lf.len());
        }
    }
    World { sig, t, part, tr: best.0, complete: best.1 }
}
/// any of the two
fn some_world(r: &mut Rng, cfg: &gen::Cfg, max: usize, stop: bool) -> (World, bool) {
    if r.chance(1, 7) {
        (grouped_world(r, max.min(8)), true)
    } else {
        (world(r, cfg, max, stop), false)
    }
}
/// local analyses of every log at every step
fn search_local(r: &mut Rng, c: &mut Case, w: &World) {
    search(r, c, w);
    if r.chance(1, 2) {
        let mut o: Vec<String> = c.opts("O.search").into_iter().filter(|x| !x.starts_with("local_analysis")).collect();
        o.push("local_analysis=[select=all]".into());
        c.set("O.search", o.join(" ; "));
    }
}
pub fn put_world(c: &mut Case, w: &World, faults: &[String], os: &Os) {
    c.set("sig", w.sig.hsf());
    c.set("T.system", w.t.hif(&w.sig));
    c.set("observers", gen::partition_str(&w.sig, &w.part));
    c.set("W.schedule", gen::world_str(&w.sig, &w.tr));
    c.set("F.faults", faults.join(" "));
    c.set("os", os.ser());
}
/// the logs described by the case
pub fn logs(c: &Case, s: &Sig) -> Mu {
    let part = gen::parse_partition(s, c.get("observers"));
    let tr = gen::parse_world(s, c.get("W.schedule"));
    gen::observe(s, &part, &tr, &c.list("F.faults"))
}
pub fn note_world(c: &Case, st: &mut Stats) {
    for f in c.list("F.faults") {
        st.fault(&format!("log-{}", f.split(':').next().unwrap_or("")));
    }
    st.ticks += c.list("W.schedule").len() as u64;
    st.execs.insert(c.key());
}

pub fn analyze(ctx: &mut Ctx, sig: &Sig, t: &T, mu: &Mu, hcf: Option<&str>, os: &Os) -> Out {
    ctx.w.reset();
    ctx.w.put("s.hsf", &sig.hsf());
    ctx.w.put("i.hif", &t.hif_file(sig));
    ctx.w.put("t.htf", &mu.htf_file(sig));
    let mut args = vec!["analyze", "s.hsf", "i.hif", "t.htf"];
    if let Some(h) = hcf {
        ctx.w.put("c.hcf", h);
        args.push("c.hcf");
    }
    // a first attempt with little CPU time; only what is known to be a small search deserves more
    let mut o2 = os.clone();
    o2.cpu = 2;
    let o = ctx.w.run(&args, &o2);
    if o.end == End::Cpu && mu.len() <= 6 {
        ctx.w.reset();
        ctx.w.put("s.hsf", &sig.hsf());
        ctx.w.put("i.hif", &t.hif_file(sig));
        ctx.w.put("t.htf", &mu.htf_file(sig));
        if let Some(h) = hcf {
            ctx.w.put("c.hcf", h);
        }
        return ctx.w.run(&args, os);
    }
    o
}
/// the verdict, or why there is none
pub fn verdict(o: &Out) -> Result<String, String> {
    if o.end == End::Exit(0) {
        if let Some(v) = o.verdict() {
            return Ok(v);
        }
    }
    Err(format!("no verdict: {} stdout={:?}", o.digest(), tail(&o.out)))
}
pub fn tail(s: &str) -> String {
    let l: Vec<&str> = s.lines().filter(|x| !x.trim().is_empty()).collect();
    let k = l.len().saturating_sub(4);
    l[k..].join(" / ")
}
pub fn goal_of(o: &[String]) -> &str {
    for x in o {
        if let Some(g) = x.strip_prefix("goal=") {
            return match g {
                "Pass" => "Pass",
                "none" => "none",
                _ => "WeakPass",
            };
        }
    }
    "WeakPass"
}
/// a random schedule of the search, and a goal
pub fn search(r: &mut Rng, c: &mut Case, w: &World) {
    let mut o = super::hcf::ana_schedule(r, w.tr.len() <= 7, true);
    o.extend(super::hcf::goal(r));
    c.set("O.search", o.join(" ; "));
}
/// the options of the case; drawings are dropped when the system cannot be drawn (a lifeline that sends to
/// itself: a documented limit of the drawing, not of the analysis)
pub fn search_opts(c: &Case, t: &T) -> Vec<String> {
    let v = c.opts("O.search");
    if drawable(t) {
        v
    } else {
        v.into_iter().filter(|x| !x.starts_with("loggers=[graphic")).collect()
    }
}
pub fn drawable(t: &T) -> bool {
    !t.any(&|x| matches!(x, T::Em { o, t: tg, .. } if tg.contains(&Tgt::Lf(*o))))
}
pub fn memo_off(o: &[String]) -> bool {
    // a trace generator switches memoisation off
    o.iter().any(|x| x == "memoize=false" || x.contains("tracegen"))
}
/// running out of CPU is a finding only when the search space is known to be small
pub fn resource(o: &Out, opts: &[String], n: usize) -> bool {
    match o.end {
        End::Cpu => n > if memo_off(opts) || opts.iter().any(|x| x.contains("graphic")) { 2 } else { 5 },
        End::Signal(6) => o.err.contains("memory allocation"),
        _ => false,
    }
}

// ------------------------------------------------------------------------------------------- C01
fn gen_c01(r: &mut Rng, _i: u64) -> Case {
    let mut cfg = gen::Cfg::std();
    if r.chance(1, 6) {
        cfg.size = (8, 16);
    }
    let (w, grouped) = some_world(r, &cfg, 10, false);
    let nf = if grouped { 0 } else { [0, 0, 1, 1, 2, 3][r.below(6)] };
    let mut faults = gen::damage(r, &w.sig, &w.part, &w.tr, nf);
    if r.chance(1, 10) {
        faults.push(format!("cut:{}:{}", r.below(w.part.len()), r.below(w.tr.len() + 1)));
    }
    let mut c = Case::new("C01", "accept");
    put_world(&mut c, &w, &faults, &Os::benign(r));
    if grouped {
        search_local(r, &mut c, &w);
    } else {
        search(r, &mut c, &w);
    }
    c
}
fn exec_c01(c: &Case, ctx: &mut Ctx) -> Res {
    let s = c.sig();
    let t = c.term("T.system", &s);
    let mu = logs(c, &s);
    note_world(c, ctx.st);
    let want = match prefix(&t, &covered(&mu, s.lf.len()), CAP) {
        Pref::Complete => "Pass",
        Pref::Unknown => {
            ctx.st.count("oracle_unknown");
            return Ok(());
        }
        _ => "Fail",
    };
    let opts = search_opts(c, &t);
    let o = analyze(ctx, &s, &t, &mu, Some(&super::hcf::ana_file("accept", &opts)), &Os::de(c.get("os")));
    if resource(&o, &opts, mu.len()) {
        ctx.st.count("resource_limit");
        return Ok(());
    }
    let v = verdict(&o)?;
    ctx.st.count(&format!("verdict_{}", v));
    if mu.len() > 0 {
        ctx.st.nontrivial(c);
    }
    if v != want {
        return Err(format!("verdict {} but the logs are{} those of a complete execution", v, if want == "Pass" { "" } else { " not" }));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------- C02
pub fn cuts(r: &mut Rng, part: &[Vec<u8>], len: usize) -> Vec<String> {
    // every observer stops at its own instant
    let mut v = vec![];
    for w in 0..part.len() {
        match r.below(4) {
            0 => {}
            1 => v.push(format!("hide:{}", w)),
            _ => v.push(format!("cut:{}:{}", w, r.below(len + 1))),
        }
    }
    v
}
fn gen_c02(r: &mut Rng, _i: u64) -> Case {
    let mut cfg = gen::Cfg::std();
    if r.chance(1, 6) {
        cfg.size = (8, 16);
    }
    let (w, grouped) = some_world(r, &cfg, 10, true);
    let faults = match if grouped { r.below(3) } else { r.below(5) } {
        0 | 1 => vec![],
        2 => cuts(r, &w.part, w.tr.len()),
        3 => {
            let n = r.range(1, 3);
            gen::damage(r, &w.sig, &w.part, &w.tr, n)
        }
        _ => {
            let mut v = cuts(r, &w.part, w.tr.len());
            v.extend(gen::damage(r, &w.sig, &w.part, &w.tr, 1));
            v
        }
    };
    let mut c = Case::new("C02", "prefix");
    put_world(&mut c, &w, &faults, &Os::benign(r));
    if grouped {
        search_local(r, &mut c, &w);
    } else {
        search(r, &mut c, &w);
    }
    if r.chance(1, 10) {
        c.set("default", "1"); // no configuration file at all
    }
    c
}
fn exec_c02(c: &Case, ctx: &mut Ctx) -> Res {
    let s = c.sig();
    let t = c.term("T.system", &s);
    let mu = logs(c, &s);
    note_world(c, ctx.st);
    let cmu = covered(&mu, s.lf.len());
    let p = prefix(&t, &cmu, CAP);
    if p == Pref::Unknown {
        ctx.st.count("oracle_unknown");
        return Ok(());
    }
    let dflt = c.get("default") == "1";
    let opts = if dflt { vec![] } else { search_opts(c, &t) };
    let hcf = super::hcf::ana_file("prefix", &opts);
    let o = analyze(ctx, &s, &t, &mu, if dflt { None } else { Some(&hcf) }, &Os::de(c.get("os")));
    if resource(&o, &opts, mu.len()) {
        ctx.st.count("resource_limit");
        return Ok(());
    }
    let v = verdict(&o)?;
    ctx.st.count(&format!("verdict_{}", v));
    if mu.len() > 0 {
        ctx.st.nontrivial(c);
    }
    let goal = goal_of(&opts);
    match p {
        Pref::Complete => {
            if v == "Pass" || (v == "WeakPass" && goal == "WeakPass") {
                Ok(())
            } else {
                Err(format!("verdict {} (goal {}) for the logs of a complete execution", v, goal))
            }
        }
        Pref::Proper => {
            if v == "WeakPass" {
                Ok(())
            } else {
                Err(format!("verdict {} for the logs of an execution up to a global instant", v))
            }
        }
        _ => {
            if v == "Pass" || v == "WeakPass" {
                return Err(format!("verdict {} but no execution leaves these logs at any global instant", v));
            }
            if v == "Fail" {
                if extends(&t, &cmu, Mode::After, CAP).ans == Tri::Yes {
                    return Err("verdict Fail although one complete execution extends every log".into());
                }
                Ok(())
            } else if v == "Inconc LackObs" {
                Ok(())
            } else {
                Err(format!("verdict {} does not exist for an unlimited prefix analysis", v))
            }
        }
    }
}

// ------------------------------------------------------------------------------------------- C03
fn gen_c03(r: &mut Rng, _i: u64) -> Case {
    let mut cfg = gen::Cfg::std();
    if r.chance(1, 4) {
        cfg.sync_op = false;
    }
    if r.chance(1, 6) {
        cfg.size = (8, 14);
    }
    cfg.lf.0 = 2;
    let (mut w, grouped) = some_world(r, &cfg, 9, false);
    if r.chance(3, 5) && !grouped {
        w.part = gen::discrete(w.sig.lf.len());
        r.shuffle(&mut w.part);
    }
    let mut faults = if r.chance(4, 5) { cuts(r, &w.part, w.tr.len()) } else { vec![] };
    if r.chance(2, 5) {
        let n = r.range(1, 2);
        faults.extend(gen::damage(r, &w.sig, &w.part, &w.tr, n));
    }
    let mut c = Case::new("C03", "eliminate");
    put_world(&mut c, &w, &faults, &Os::benign(r));
    search(r, &mut c, &w);
    c
}
fn exec_c03(c: &Case, ctx: &mut Ctx) -> Res {
    let s = c.sig();
    let t = c.term("T.system", &s);
    let mu = logs(c, &s);
    note_world(c, ctx.st);
    let cmu = covered(&mu, s.lf.len());
    let opts = search_opts(c, &t);
    let o = analyze(ctx, &s, &t, &mu, Some(&super::hcf::ana_file("eliminate", &opts)), &Os::de(c.get("os")));
    if resource(&o, &opts, mu.len()) {
        ctx.st.count("resource_limit");
        return Ok(());
    }
    let v = verdict(&o)?;
    ctx.st.count(&format!("verdict_{}", v));
    if mu.len() > 0 {
        ctx.st.nontrivial(c);
    }
    let discrete = cmu.colocs.iter().all(|x| x.len() == 1);
    let coloc = v == "Inconc UsingLifelineRemovalWithCoLocalizations";
    let pass = v == "Pass" || v == "WeakPass";
    if !(pass || v == "Fail" || (coloc && !discrete)) {
        return Err(format!("verdict {} does not exist for this analysis", v));
    }
    let p = prefix(&t, &cmu, CAP);
    if v == "Pass" && (p == Pref::Proper || p == Pref::No) {
        return Err("verdict Pass but the logs are not those of a complete execution".into());
    }
    if v == "WeakPass" && !discrete && p == Pref::No {
        return Err("verdict WeakPass with grouped lifelines although lifelines had to be removed".into());
    }
    let x = extends(&t, &cmu, Mode::After, CAP).ans;
    let m = removal(&t, &cmu, CAP);
    if x == Tri::Unknown || m == Tri::Unknown {
        ctx.st.count("oracle_unknown");
    }
    if x == Tri::Yes {
        ctx.st.count("extendable");
        if v == "Fail" {
            // known finding: what is left of simultaneous actions which were synchronized on a removed lifeline has to
            // be observed once per synchronized part
            let known = if t.has_sync_op() && m == Tri::No { "known[sync-removal]: " } else { "" };
            return Err(format!("{}verdict Fail although one complete execution extends every log", known));
        }
        if discrete && !pass {
            return Err(format!("verdict {} although one complete execution extends every log", v));
        }
    }
    if m == Tri::No && v != "Fail" && !t.has_sync_op() {
        return Err(format!("verdict {} but the logs cannot be consumed even with the removal of lifelines", v));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------- C04
fn sim_kind(v: &[String]) -> String {
    if v.is_empty() {
        "simulate".into()
    } else {
        format!("simulate[{}]", v.join(","))
    }
}
fn sim_config(r: &mut Rng) -> Vec<String> {
    let mut v = vec![];
    if r.chance(1, 8) {
        return v;
    }
    if r.chance(1, 2) {
        v.push(format!("slice={}", if r.chance(3, 4) { "true" } else { "false" }));
    }
    if r.chance(1, 4) {
        v.push(format!("multiply={}", if r.chance(3, 4) { "true" } else { "false" }));
    }
    if r.chance(1, 4) {
        v.push(format!("reset={}", if r.chance(3, 4) { "true" } else { "false" }));
    }
    match r.below(5) {
        0 => {}
        1 => v.push("loop max_num".into()),
        2 => v.push("loop max_depth".into()),
        3 => v.push(format!("loop num={}", r.below(5))),
        _ => v.push("loop enough".into()),
    }
    match r.below(5) {
        0 => v.push("act none".into()),
        1 => v.push("act max_num".into()),
        2 => v.push(format!("act num={}", r.below(8))),
        3 => v.push("act enough".into()),
        _ => {}
    }
    r.shuffle(&mut v);
    v
}
/// a system in which actions occur several times in a row, and which orders more of them
fn stutter(r: &mut Rng, t: &T) -> T {
    use T::*;
    let again = |r: &mut Rng, x: T| -> T {
        match r.below(5) {
            0 => Sq(bx(x.clone()), bx(x)),
            1 => St(bx(x.clone()), bx(x)),
            _ => x,
        }
    };
    match t {
        Em { .. } | Rc { .. } => again(r, t.clone()),
        Sq(a, b) => {
            let (a, b) = (bx(stutter(r, a)), bx(stutter(r, b)));
            if r.chance(1, 3) {
                St(a, b)
            } else {
                Sq(a, b)
            }
        }
        St(a, b) => St(bx(stutter(r, a)), bx(stutter(r, b))),
        Al(a, b) => Al(bx(stutter(r, a)), bx(stutter(r, b))),
        Pa(a, b) => Pa(bx(stutter(r, a)), bx(stutter(r, b))),
        x => again(r, x.clone()),
    }
}
/// when an observer may be started so that its log begins with something that also happened before
fn echoes(w: &World, k: usize) -> Vec<usize> {
    let on = |m: &MAct| -> Vec<Act> { m.iter().filter(|a| w.part[k].contains(&a.lf)).cloned().collect() };
    (1..w.tr.len())
        .filter(|&p| {
            let x = on(&w.tr[p]);
            !x.is_empty() && w.tr[..p].iter().any(|y| on(y) == x)
        })
        .collect()
}
fn gen_c04(r: &mut Rng, _i: u64) -> Case {
    let mut cfg = gen::Cfg::std();
    if r.chance(1, 4) {
        cfg.sync_op = false;
    }
    cfg.size = (1, 7);
    if r.chance(1, 3) {
        cfg.lf = (2, 4);
        cfg.size = (3, 7);
        cfg.proto = 80;
        if r.chance(1, 2) {
            // the same few messages again and again: an event may match several occurrences
            cfg.ms = (1, 2);
            cfg.lf = (2, 3);
        }
    }
    let (mut w, _) = some_world(r, &cfg, 7, false);
    if w.t.size() < 12 && r.chance(2, 5) {
        let t = stutter(r, &w.t);
        let (tr, complete) = gen::run(r, &t, 9, None);
        if !tr.is_empty() && tr.iter().all(|m| m.iter().all(|a| w.part.iter().any(|p| p.contains(&a.lf)))) {
            w.t = t;
            w.tr = tr;
            w.complete = complete;
        }
    }
    let mut faults = match r.below(4) {
        0 => vec![],
        1 => cuts(r, &w.part, w.tr.len()),
        _ => {
            let mut v = vec![];
            for k in 0..w.part.len() {
                let e = echoes(&w, k);
                if !e.is_empty() && r.chance(1, 2) {
                    v.push(format!("late:{}:{}", k, *r.pick(&e)));
                } else if r.chance(2, 3) {
                    v.push(format!("late:{}:{}", k, r.below(w.tr.len() + 1)));
                }
                if r.chance(2, 3) {
                    v.push(format!("cut:{}:{}", k, r.below(w.tr.len() + 1)));
                }
                if r.chance(1, 6) {
                    v.push(format!("hide:{}", k));
                }
            }
            v
        }
    };
    if r.chance(1, 4) {
        faults.extend(gen::damage(r, &w.sig, &w.part, &w.tr, 1));
    }
    let mut c = Case::new("C04", "simulate");
    put_world(&mut c, &w, &faults, &Os::benign(r));
    search(r, &mut c, &w);
    let mut so = sim_config(r);
    if cfg.proto > 50 && r.chance(2, 3) {
        // slices of a protocol, with just the budget they need
        so.retain(|x| x.starts_with("multiply") || x.starts_with("reset"));
        so.push(format!("slice={}", if r.chance(4, 5) { "true" } else { "false" }));
        so.push("loop enough".into());
        if r.chance(2, 3) {
            so.push("act enough".into());
        }
        r.shuffle(&mut so);
    }
    c.set("O.simulate", so.join(" ; "));
    c
}
/// small budgets and how they are spent are the tool's heuristics; the property is about what a positive
/// verdict means and about budgets that suffice
fn exec_c04(c: &Case, ctx: &mut Ctx) -> Res {
    let s = c.sig();
    let t = c.term("T.system", &s);
    let mu = logs(c, &s);
    note_world(c, ctx.st);
    let cmu = covered(&mu, s.lf.len());
    let so = c.opts("O.simulate");
    let slice = so.iter().any(|x| x == "slice=true");
    let mode = if slice { Mode::Slice } else { Mode::After };
    let e = extends(&t, &cmu, mode, CAP);
    let loops = e.loops;
    let lim = |x: &String| -> String {
        match x.as_str() {
            "loop enough" => format!("loop num={}", loops),
            "act enough" => format!("act num={}", e.free.max(0)),
            _ => x.clone(),
        }
    };
    let so2: Vec<String> = so.iter().map(lim).collect();
    let opts = search_opts(c, &t);
    let o = analyze(ctx, &s, &t, &mu, Some(&super::hcf::ana_file(&sim_kind(&so2), &opts)), &Os::de(c.get("os")));
    if o.end == End::Cpu && (memo_off(&opts) || mu.len() + t.size() > 4) || resource(&o, &opts, mu.len()) {
        ctx.st.count("resource_limit");
        return Ok(());
    }
    let v = verdict(&o)?;
    ctx.st.count(&format!("verdict_{}", v));
    if mu.len() > 0 {
        ctx.st.nontrivial(c);
    }
    let pass = v == "Pass" || v == "WeakPass";
    if !pass && v != "WeakFail" {
        return Err(format!("verdict {} of an unlimited simulation", v));
    }
    if v == "Pass" {
        let p = prefix(&t, &cmu, CAP);
        if p == Pref::Proper || p == Pref::No {
            return Err("verdict Pass but the logs are not those of a complete execution".into());
        }
    }
    if pass && e.ans == Tri::No {
        return Err(format!("verdict {} but no complete execution extends every log", v));
    }
    // a budget of so many units: at least the number given, even when multiplied by a (non-zero) length
    let num = |k: &str| so2.iter().rev().find(|x| x.starts_with(k)).map(|x| x[k.len()..].trim().to_string());
    let has = |k: &str, need: u32| -> bool {
        match num(k) {
            Some(x) if x == "none" => true,
            Some(x) => x.strip_prefix("num=").and_then(|y| y.parse::<u32>().ok()).map_or(false, |y| y >= need),
            None => k == "act" || need == 0,
        }
    };
    let enough = has("act", e.free) && has("loop", loops);
    if e.ans == Tri::Yes && enough {
        ctx.st.count("enough_budget");
        if !pass {
            return Err(format!("verdict {} although one complete execution extends every log and the budget allows it", v));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------- C05
pub fn any_kind(r: &mut Rng) -> String {
    match r.below(6) {
        0 => "accept".into(),
        1 | 2 => "prefix".into(),
        3 => "eliminate".into(),
        _ => {
            // budgets are compared exactly here, so all of them are of interest; unlimited loops are not
            let v: Vec<String> =
                sim_config(r).iter().map(|x| x.replace("loop enough", "loop num=4").replace("act enough", "act num=6")).collect();
            sim_kind(&v)
        }
    }
}
fn observation(r: &mut Rng, w: &World) -> Vec<String> {
    let mut faults = match r.below(4) {
        0 => vec![],
        1 => vec![format!("cut:0:{}", w.tr.len())],
        _ => {
            let mut v = cuts(r, &w.part, w.tr.len());
            if r.chance(1, 3) {
                let k = r.below(w.part.len());
                v.push(format!("late:{}:{}", k, r.below(w.tr.len() + 1)));
            }
            v
        }
    };
    if r.chance(1, 2) {
        let n = r.range(1, 2);
        faults.extend(gen::damage(r, &w.sig, &w.part, &w.tr, n));
    }
    faults
}
fn gen_c05(r: &mut Rng, _i: u64) -> Case {
    let mut cfg = gen::Cfg::std();
    cfg.size = (2, 9);
    if r.chance(1, 4) {
        // small alphabets make different paths meet
        cfg.ms = (1, 1);
        cfg.lf = (1, 2);
    }
    let st = r.chance(1, 3);
    let w = if r.chance(1, 6) { grouped_world(r, 7) } else { world(r, &cfg, 7, st) };
    let faults = observation(r, &w);
    let mut c = Case::new("C05", "schedules");
    put_world(&mut c, &w, &faults, &Os::benign(r));
    c.set("kind", any_kind(r));
    let n = r.range(3, 5);
    for k in 0..n {
        let mut o = super::hcf::ana_schedule(r, w.tr.len() <= 5, true);
        o.extend(super::hcf::goal(r));
        c.set(&format!("O.schedule{}", k), o.join(" ; "));
    }
    c
}
fn rank(v: &str) -> u32 {
    match v {
        "Pass" => 4,
        "WeakPass" => 3,
        "WeakFail" => 1,
        "Fail" => 0,
        _ => 2,
    }
}
fn exec_c05(c: &Case, ctx: &mut Ctx) -> Res {
    let s = c.sig();
    let t = c.term("T.system", &s);
    let mu = logs(c, &s);
    note_world(c, ctx.st);
    let kind = c.get("kind").to_string();
    let mut seen: Vec<(String, String, String)> = vec![];
    for k in 0..8 {
        let f = format!("O.schedule{}", k);
        if !c.has(&f) {
            continue;
        }
        let mut opts = c.opts(&f);
        if !drawable(&t) {
            opts.retain(|x| !x.starts_with("loggers=[graphic"));
        }
        let mut os = Os::de(c.get("os"));
        os.seed = os.seed.wrapping_add(k as u64 * 7919);
        let o = analyze(ctx, &s, &t, &mu, Some(&super::hcf::ana_file(&kind, &opts)), &os);
        if o.end == End::Cpu && kind.starts_with("sim") && (memo_off(&opts) || mu.len() + t.size() > 4) || resource(&o, &opts, mu.len()) {
            ctx.st.count("resource_limit");
            continue;
        }
        let v = verdict(&o)?;
        ctx.st.count(&format!("verdict_{}", v));
        let g = goal_of(&opts).to_string();
        for (v0, g0, o0) in &seen {
            let weak = g == "WeakPass" || *g0 == "WeakPass";
            let both = rank(v0) >= 3 && rank(&v) >= 3;
            if *v0 == v || (weak && both && g != *g0) {
                continue;
            }
            if weak && both {
                // two searches that may both stop at the first positive answer
                continue;
            }
            // local analysis may settle what the search alone leaves inconclusive
            let local = |o: &str| !o.contains("local_analysis=none");
            let fi = |a: &str, b: &str| a == "Fail" && b == "Inconc LackObs";
            if kind == "prefix" && ((fi(v0, &v) && local(o0)) || (fi(&v, v0) && local(&opts.join(";")))) {
                continue;
            }
            return Err(format!("verdicts differ: {} under [{}], {} under [{}]", v0, o0, v, opts.join(";")));
        }
        seen.push((v, g, opts.join(";")));
    }
    if seen.len() > 1 && mu.len() > 0 {
        ctx.st.nontrivial(c);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------- C06
fn gen_c06(r: &mut Rng, _i: u64) -> Case {
    let mut cfg = gen::Cfg::std();
    cfg.size = (2, 9);
    let st = r.chance(1, 3);
    let w = if r.chance(1, 6) { grouped_world(r, 7) } else { world(r, &cfg, 7, st) };
    let faults = observation(r, &w);
    let mut c = Case::new("C06", "limits");
    put_world(&mut c, &w, &faults, &Os::benign(r));
    c.set("kind", any_kind(r));
    let mut o = super::hcf::ana_schedule(r, w.tr.len() <= 5, false);
    o.extend(super::hcf::goal(r));
    c.set("O.search", o.join(" ; "));
    let big = r.chance(1, 4);
    for (k, p) in [("N.max_depth", 2), ("N.max_loop_depth", 3), ("N.max_node_number", 2)] {
        if r.chance(1, p) {
            c.set(k, if big { 100000 } else { r.below(if k == "N.max_node_number" { 12 } else { 7 }) }.to_string());
        }
    }
    c
}
fn exec_c06(c: &Case, ctx: &mut Ctx) -> Res {
    let s = c.sig();
    let t = c.term("T.system", &s);
    let mu = logs(c, &s);
    note_world(c, ctx.st);
    let kind = c.get("kind").to_string();
    let opts = search_opts(c, &t);
    let os = Os::de(c.get("os"));
    let mut f = vec![];
    for k in ["max_depth", "max_loop_depth", "max_node_number"] {
        if c.has(&format!("N.{}", k)) {
            f.push(format!("{}={}", k, c.num(&format!("N.{}", k))));
        }
    }
    let mut lopts = opts.clone();
    if !f.is_empty() {
        lopts.push(format!("filters=[{}]", f.join(",")));
    }
    let a = analyze(ctx, &s, &t, &mu, Some(&super::hcf::ana_file(&kind, &opts)), &os);
    let b = analyze(ctx, &s, &t, &mu, Some(&super::hcf::ana_file(&kind, &lopts)), &os);
    let hard = |o: &Out| o.end == End::Cpu && kind.starts_with("sim") && (memo_off(&opts) || mu.len() + t.size() > 4) || resource(o, &opts, mu.len());
    if hard(&b) {
        ctx.st.count("resource_limit");
        return Ok(());
    }
    let lv = verdict(&b)?;
    ctx.st.count(&format!("limited_{}", lv));
    let n = b.node_count().ok_or_else(|| "no node count is reported".to_string())?;
    if c.has("N.max_node_number") && n > c.num("N.max_node_number").max(1) {
        return Err(format!("{} nodes were explored with the limit {}", n, c.num("N.max_node_number")));
    }
    if hard(&a) {
        ctx.st.count("resource_limit");
        return Ok(());
    }
    let v = verdict(&a)?;
    let n0 = a.node_count().unwrap_or(0);
    if mu.len() > 0 {
        ctx.st.nontrivial(c);
    }
    let huge = |k: &str| !c.has(k) || c.num(k) >= 1000;
    let room = !c.has("N.max_node_number") || c.num("N.max_node_number") > n0;
    if huge("N.max_depth") && huge("N.max_loop_depth") && room {
        // randomised priorities draw from the same simulated entropy, so the search is the same
        if lv != v || n != n0 {
            return Err(format!("limits that are not reached changed the outcome: {} ({} nodes) instead of {} ({} nodes)", lv, n, v, n0));
        }
        return Ok(());
    }
    let goal = goal_of(&opts);
    let ok = if lv == v {
        true
    } else if rank(&v) >= 3 {
        // less definite: the other positive verdict only when the search may stop there
        lv == "WeakPass" || (lv == "Pass" && goal == "WeakPass") || rank(&lv) == 2 || lv == "WeakFail"
    } else if v == "Fail" {
        lv.starts_with("Inconc")
    } else {
        // inconclusive or WeakFail: any other verdict below a pass and above Fail
        lv != "Fail" && rank(&lv) < 3
    };
    if !ok {
        return Err(format!("the limited analysis says {} where the unlimited one says {}", lv, v));
    }
    Ok(())
}
