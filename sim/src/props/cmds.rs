//! A catalogue of all the commands of the tool with small inputs, shared by the properties about the operating
//! system the tool runs on.
use super::files::*;
use super::*;
use crate::gen;
use crate::term::*;

pub struct Kind {
    pub name: &'static str,
    /// may differ between random seeds
    pub random: bool,
}
pub const KINDS: &[&str] = &[
    "analyze", "explore", "canonize", "draw", "glosem", "nfa_analyze", "get_metrics", "slice", "mutate_remove_actions",
    "mutate_insert_noise", "mutate_swap_actions", "mutate_swap_components", "puml_sd", "puml_ap", "rng_gen_interactions",
];
/// fills in a case: `cmd` is the command line, the inputs are written by `setup`
pub fn command(r: &mut Rng, c: &mut Case, kind: &str) {
    let mut cfg = gen::Cfg::std();
    cfg.size = (1, 5);
    if matches!(kind, "puml_sd" | "puml_ap") {
        // operators these translations do not support
        cfg.synch = false;
        cfg.broadcast = false;
        cfg.coreg = false;
        cfg.sync_op = false;
        cfg.gates = kind == "puml_sd";
    }
    let mut w = super::ana::world(r, &cfg, 5, false);
    let draws = matches!(kind, "draw" | "puml_sd" | "puml_ap" | "glosem" | "nfa_analyze");
    let nf = r.below(2);
    let faults = gen::damage(r, &w.sig, &w.part, &w.tr, nf);
    let mut mu = gen::observe(&w.sig, &w.part, &w.tr, &faults);
    let mut a: Vec<String> = vec![kind.into(), "s.hsf".into()];
    let mut hcf = String::new();
    let mut random = false;
    let graphic = |r: &mut Rng, t: &T| -> String {
        let mut o = vec![(*r.pick(&["svg", "png", "svg"])).to_string()];
        if !super::ana::drawable(t) || r.chance(1, 2) {
            o.push("draw_sd=false".into());
            o.push("draw_tt=true".into());
        }
        if r.chance(1, 3) {
            o.push("output=gr".into());
        }
        format!("graphic[{}]", o.join(","))
    };
    match kind {
        "analyze" => {
            a.extend(["i.hif".into(), "t.htf".into()]);
            let k = super::ana::any_kind(r);
            let mut o = super::hcf::ana_schedule(r, false, false);
            o.extend(super::hcf::goal(r));
            if r.chance(1, 2) {
                o.push(format!("filters=[max_node_number={}]", r.range(1, 40)));
                if r.chance(1, 2) {
                    o.push(format!("loggers=[{}]", graphic(r, &w.t)));
                }
            }
            if r.chance(4, 5) {
                a.push("c.hcf".into());
                hcf = super::hcf::ana_file(&k, &o);
            }
            // the order of exploration may change which nodes fit in a limit
            random = !hcf.is_empty() && o.iter().any(|x| x.contains("randomize=true"));
        }
        "explore" => {
            a.push("i.hif".into());
            let mut o = vec![];
            o.extend(super::hcf::strategy(r));
            o.extend(super::hcf::priorities(r, &["emission", "reception", "multi_rdv", "loop"]));
            o.push(format!("filters=[max_depth={},max_loop_depth={},max_node_number={}]", r.range(1, 4), r.range(0, 2), r.range(5, 60)));
            let mut l = vec![];
            if r.chance(2, 3) {
                l.push(format!(
                    "tracegen[generation={},partition={},no_duplicates={}]",
                    r.pick(&["accepted", "exact depth 1", "exact depth 2", "modulo depth 1"]),
                    r.pick(&["trivial", "discrete"]),
                    r.chance(1, 2)
                ));
            }
            if r.chance(1, 3) {
                l.push(graphic(r, &w.t));
            }
            if r.chance(1, 3) {
                l.push("nfait".into());
            }
            if !l.is_empty() {
                o.push(format!("loggers=[{}]", l.join(",")));
            }
            a.push("c.hcf".into());
            hcf = super::hcf::explo_file(&o);
            random = !hcf.is_empty() && o.iter().any(|x| x.contains("randomize=true"));
        }
        "canonize" => {
            a.push("i.hif".into());
            if r.chance(3, 4) {
                let mut o: Vec<String> = vec![];
                o.extend(super::hcf::strategy(r));
                if r.chance(3, 4) {
                    o.push(format!("loggers=[{}]", graphic(r, &w.t)));
                }
                if r.chance(1, 3) {
                    o.push(format!("search_all={}", r.chance(1, 2) && w.t.size() <= 4));
                }
                if o.is_empty() {
                    o.push("search_all=false".into());
                }
                a.push("c.hcf".into());
                hcf = format!("@canonize_option{{\n{}\n}}\n", o.join(";\n"));
            }
        }
        "draw" => {
            a.push("i.hif".into());
            let sd = super::ana::drawable(&w.t) && r.chance(1, 2);
            a.extend(["-r".into(), if sd { "sd".into() } else { "tt".into() }]);
            if r.chance(1, 2) {
                a.extend(["-o".into(), "picture".into()]);
            }
        }
        "glosem" => {
            a.push("i.hif".into());
            if w.t.has_loop() || r.chance(1, 4) {
                a.extend(["-l".into(), r.range(0, 2).to_string()]);
            }
        }
        "nfa_analyze" => {
            a.extend(["i.hif".into(), "t.htf".into()]);
            mu = gen::observe(&w.sig, &[(0..w.sig.lf.len() as u8).collect()], &w.tr, &[]);
            for f in ["-t", "-a"] {
                if r.chance(1, 2) {
                    a.push(f.into());
                }
            }
            if super::nfa::dfa(&w.t, 60).is_none() {
                w.t = T::E;
            }
        }
        "get_metrics" => {
            a.push("i.hif".into());
            a.push((*r.pick(&["INT", "minDFA"])).into());
            if super::nfa::dfa(&w.t, 60).is_none() {
                w.t = T::E;
            }
        }
        "slice" => {
            a.push("t.htf".into());
            mu = rand_mu(r, &w.sig, 3);
            let k = *r.pick(&["slice", "prefix", "suffix"]);
            while mu.len() > 5 {
                let k = (0..mu.logs.len()).max_by_key(|k| mu.logs[*k].len()).unwrap();
                mu.logs[k].pop();
            }
            a.extend(["-k".into(), k.into()]);
            if r.chance(1, 3) {
                random = true;
                a.extend(["-r".into(), r.range(1, 5).to_string()]);
            }
            if r.chance(1, 2) {
                a.extend(["-p".into(), "out".into()]);
            }
        }
        "mutate_swap_components" => {
            a.extend(["t.htf".into(), "t2.htf".into()]);
            mu = rand_mu(r, &w.sig, 4);
            let mut m2 = mu.clone();
            for (l, co) in m2.logs.iter_mut().zip(&mu.colocs) {
                *l = rand_log(r, &w.sig, co, 4);
            }
            c.set("M.other", m2.htf(&w.sig));
            random = true;
        }
        k if k.starts_with("mutate") => {
            a.push("t.htf".into());
            mu = rand_mu(r, &w.sig, 4);
            a.extend(["-m".into(), r.range(0, 3).to_string()]);
            if r.chance(1, 2) {
                a.extend(["-p".into(), "out".into(), "-n".into(), "mut".into()]);
            }
            random = true;
        }
        "rng_gen_interactions" => {
            for (k, lo, hi) in [("-i", 1, 5), ("-d", 2, 5), ("-x", 1, 6), ("-s", 0, 1000)] {
                a.extend([k.to_string(), r.range(lo, hi).to_string()]);
            }
            if r.chance(2, 3) {
                a.extend(["-p".into(), (*r.pick(&["default", "conservative", "protocols_with_coreg"])).into()]);
            }
            if r.chance(1, 2) {
                a.extend(["-f".into(), "ints".into()]);
            }
        }
        _ => {
            a.push("i.hif".into());
        }
    }
    if draws && !super::ana::drawable(&w.t) && a.iter().all(|x| x != "tt") && (kind != "nfa_analyze" || a.iter().any(|x| x == "-t")) {
        w.t = T::Em { o: 0, m: 0, sy: false, t: vec![] };
    }
    if kind.starts_with("puml") && w.t.any(&|x| matches!(x, T::Em { t, .. } if t.len() > 1) || matches!(x, T::Rc { r, .. } if r.len() > 1)) {
        w.t = T::E;
    }
    c.set("sig", w.sig.hsf());
    c.set("cmd", a.join(" "));
    if a.iter().any(|x| x == "i.hif") {
        c.set("T.system", w.t.hif(&w.sig));
    }
    if a.iter().any(|x| x == "t.htf") {
        c.set("M.trace", mu.htf(&w.sig));
    }
    if !hcf.is_empty() {
        c.set("hcf", hcf);
    }
    if random {
        c.set("random", "1");
    }
}
/// a fresh scratch directory with the inputs; returns the command line
pub fn setup(c: &Case, ctx: &mut Ctx) -> Vec<String> {
    let s = c.sig();
    ctx.w.reset();
    ctx.w.put("s.hsf", &s.hsf());
    if c.has("T.system") {
        ctx.w.put("i.hif", &c.term("T.system", &s).hif_file(&s));
    }
    if c.has("M.trace") {
        ctx.w.put("t.htf", &c.mu("M.trace", &s).htf(&s));
    }
    if c.has("M.other") {
        ctx.w.put("t2.htf", &c.mu("M.other", &s).htf(&s));
    }
    if c.has("hcf") {
        ctx.w.put("c.hcf", c.get("hcf"));
    }
    c.get("cmd").split_whitespace().map(|x| x.to_string()).collect()
}
/// what is printed, apart from durations
pub fn printed(o: &Out) -> Vec<String> {
    o.out
        .lines()
        .map(|l| l.to_string())
        .filter(|l| !["elapsed", "μs", "µs", "duration", "time", " ms", "micros"].iter().any(|x| l.contains(x)))
        .collect()
}
