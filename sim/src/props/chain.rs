//! C15: files that flow through several commands, each a simulated process of its own, keep their meaning.
use super::ana::{goal_of, memo_off, verdict};
use super::*;
use crate::gen;
use crate::oracle::*;
use crate::reader::{self, R};
use crate::term::*;
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C15", quick: 16000, thorough: 300000, gen: gen_c15, exec: exec_c15, what: "chains of commands" }]
}
const KINDS: &[&str] = &["kinds", "partial", "finer", "automaton", "canonized", "mutants", "canonized_traces"];

fn gen_c15(r: &mut Rng, i: u64) -> Case {
    let kind = KINDS[i as usize % KINDS.len()];
    let mut cfg = gen::Cfg::std();
    cfg.size = (2, 8);
    if r.chance(1, 4) {
        cfg.lf = (1, 2);
    }
    let w = super::ana::world(r, &cfg, 6, false);
    let mut c = Case::new("C15", kind);
    c.set("sig", w.sig.hsf());
    if r.chance(1, 4) {
        let (i, d, x) = (r.range(1, 3), r.range(2, 4), r.range(2, 5));
        let p = *r.pick(&["", "-p default", "-p conservative", "-p protocols_with_coreg"]);
        c.set("generate", format!("-i {} -d {} -x {} -s {} {}", i, d, x, r.below(100_000), p).trim());
        c.set("N.which", r.below(i).to_string());
    } else {
        c.set("T.system", w.t.hif(&w.sig));
    }
    let lo = if w.complete && !c.has("generate") { w.tr.len().clamp(2, 6) } else { 2 };
    c.set("N.depth", r.range(lo, 6).to_string());
    c.set("N.pick", r.below(1000).to_string());
    let part = match kind {
        "automaton" => vec![(0..w.sig.lf.len() as u8).collect()],
        "partial" if r.chance(1, 2) => gen::discrete(w.sig.lf.len()),
        _ => gen::partition(r, w.sig.lf.len()),
    };
    c.set("part", gen::partition_str(&w.sig, &part));
    if kind == "finer" {
        c.set("split", (r.next() >> 1).to_string());
    }
    let mut o = vec![];
    o.extend(super::hcf::strategy(r));
    if r.chance(1, 3) {
        o.extend(super::hcf::priorities(r, &["emission", "reception", "multi_rdv", "loop"]));
    }
    c.set("O.explore", o.join(" ; "));
    let mut o = super::hcf::ana_schedule(r, false, false);
    o.extend(super::hcf::goal(r));
    c.set("O.search", o.join(" ; "));
    match kind {
        "kinds" => {
            c.set("kind", super::ana::any_kind(r));
        }
        "partial" => {
            let k = *r.pick(&["prefix", "prefix", "slice", "suffix"]);
            let m = match r.below(3) {
                0 => String::new(),
                _ => format!(" -r {}", r.range(1, 3)),
            };
            c.set("cut", format!("-k {}{}{}", k, m, if r.chance(1, 4) && !m.is_empty() { " -w" } else { "" }));
            c.set("kind", if k == "prefix" { *r.pick(&["prefix", "eliminate", "simulate"]) } else { "simulate" });
        }
        "finer" => {
            c.set("kind", *r.pick(&["accept", "accept", "prefix", "eliminate"]));
        }
        "mutants" | "canonized" => {
            c.set("kind", if kind == "mutants" { *r.pick(&["accept", "accept", "prefix"]) } else { "accept" });
            let m = match r.below(5) {
                0 => "mutate_remove_actions".to_string(),
                1 => "mutate_insert_noise".to_string(),
                2 => "mutate_swap_actions".to_string(),
                3 => "mutate_swap_components".to_string(),
                _ => String::new(),
            };
            c.set("mutation", m);
            c.set("N.mutations", r.range(1, 2).to_string());
        }
        _ => {}
    }
    // any one command of the chain may be killed a first time, then be run again
    if r.chance(1, 3) {
        c.set("crash", format!("{}:{}", r.below(4), r.range(1, 30)));
    }
    c.set("os", Os::benign(r).ser());
    c
}
/// one command of a chain: killed and run again if so decided
struct Chain<'a, 'b> {
    c: &'a Case,
    ctx: &'a mut Ctx<'b>,
    os: Os,
    n: u64,
}
enum Stop {
    Resource,
    Bad(String),
}
impl From<String> for Stop {
    fn from(x: String) -> Stop {
        Stop::Bad(x)
    }
}
impl<'a, 'b> Chain<'a, 'b> {
    fn run(&mut self, args: &[&str]) -> Out {
        let k = self.n;
        self.n += 1;
        let mut os = self.os.clone();
        os.seed = os.seed.wrapping_add(k.wrapping_mul(0x9e37_79b9));
        os.cpu = 3;
        if let Some((a, b)) = self.c.get("crash").split_once(':') {
            if a == k.to_string() {
                let mut o2 = os.clone();
                o2.faults = format!("any:{}:crash:0", b);
                self.ctx.w.run(args, &o2);
            }
        }
        self.ctx.w.run(args, &os)
    }
    fn ok(&mut self, args: &[&str]) -> Result<Out, Stop> {
        let o = self.run(args);
        match o.end {
            End::Exit(0) => Ok(o),
            End::Cpu => Err(Stop::Resource),
            End::Signal(6) if o.err.contains("memory allocation") => Err(Stop::Resource),
            _ => Err(Stop::Bad(format!("{} ended abnormally: {}", args.join(" "), o.digest()))),
        }
    }
    fn read(&self, s: &Sig, f: &str) -> Result<Mu, Stop> {
        let x = self.ctx.w.get(f).ok_or_else(|| format!("{} is missing", f))?;
        match reader::read_htf(&x, s) {
            R::Good(m) => Ok(m),
            _ => Err(Stop::Bad(format!("{} written by the tool is no multi-trace: {:?}", f, x))),
        }
    }
    /// analyses one file with the options of the case
    fn verdict(&mut self, hif: &str, htf: &str, kind: &str) -> Result<String, Stop> {
        let o = self.c.opts("O.search");
        self.ctx.w.put("a.hcf", &super::hcf::ana_file(kind, &o));
        let o = self.run(&["analyze", "s.hsf", hif, htf, "a.hcf"]);
        match o.end {
            End::Cpu => return Err(Stop::Resource),
            End::Signal(6) if o.err.contains("memory allocation") => return Err(Stop::Resource),
            _ => {}
        }
        Ok(verdict(&o)?)
    }
    fn explore(&mut self, s: &Sig, hif: &str, part: &[Vec<u8>], d: usize, folder: &str) -> Result<Vec<String>, Stop> {
        let p: Vec<String> =
            part.iter().map(|l| format!("({})", l.iter().map(|y| s.lf[*y as usize].clone()).collect::<Vec<_>>().join(","))).collect();
        let mut o = vec![
            format!("loggers=[tracegen[generation=accepted,partition={{{}}},no_duplicates=true,folder={}]]", p.join(","), folder),
            format!("filters=[max_depth={}]", d),
        ];
        o.extend(self.c.opts("O.explore"));
        self.ctx.w.put("e.hcf", &super::hcf::explo_file(&o));
        self.ok(&["explore", "s.hsf", hif, "e.hcf"])?;
        let pre = format!("{}/", folder);
        let mut v: Vec<String> = self.ctx.w.tree().into_keys().filter(|k| k.starts_with(&pre)).collect();
        v.sort_by_key(|k| (k.len(), k.clone()));
        Ok(v)
    }
}
fn exec_c15(c: &Case, ctx: &mut Ctx) -> Res {
    ctx.st.execs.insert(c.key());
    let os = Os::de(c.get("os"));
    let mut ch = Chain { c, ctx, os, n: 0 };
    let x = chain(c, &mut ch);
    let n = ch.n;
    ctx.st.add("commands", n);
    match x {
        Ok(()) => Ok(()),
        Err(Stop::Resource) => {
            ctx.st.count("resource_limit");
            Ok(())
        }
        Err(Stop::Bad(e)) => Err(e),
    }
}
fn one_line(x: &str) -> String {
    x.replace('\n', " ")
}
fn chain(c: &Case, ch: &mut Chain) -> Result<(), Stop> {
    let s = c.sig();
    ch.ctx.w.reset();
    ch.ctx.w.put("s.hsf", &s.hsf());
    let hif: String;
    let t: T;
    if c.has("generate") {
        let mut a = vec!["rng_gen_interactions", "s.hsf"];
        a.extend(c.get("generate").split_whitespace());
        let o = ch.ok(&a)?;
        hif = format!("gen_ints/i{}.hif", c.num("N.which"));
        let txt = match ch.ctx.w.get(&hif) {
            Some(x) => x,
            None if o.out.contains("max retries exceeded") || o.err.contains("max retries exceeded") => return Ok(()),
            None => return Err(format!("{} was not generated: {}", hif, super::ana::tail(&o.out)).into()),
        };
        t = match reader::read_hif(&txt, &s) {
            R::Good(t) => t,
            _ => return Err(format!("{} was generated but is no interaction over its signature: {}", hif, one_line(&txt)).into()),
        };
        ch.ctx.st.count("generated");
    } else {
        hif = "i.hif".into();
        t = c.term("T.system", &s);
        ch.ctx.w.put(&hif, &t.hif(&s));
    }
    let part = gen::parse_partition(&s, c.get("part"));
    let mut d = c.num("N.depth") as usize;
    while d > 1 && super::explo::paths(&t, d, 300) > 300 {
        d -= 1;
    }
    if d == 0 || super::explo::paths(&t, d, 300) > 300 {
        ch.ctx.st.count("too_large");
        return Ok(());
    }
    let files = ch.explore(&s, &hif, &part, d, "traces")?;
    ch.ctx.st.add("traces", files.len() as u64);
    if c.kind == "canonized_traces" {
        let nf = normal_form(ch, &s, &t, &hif)?;
        if super::explo::paths(&nf, d, 2000) > 2000 {
            return Ok(());
        }
        ch.ctx.w.put("nf.hif", &nf.hif(&s));
        let other = ch.explore(&s, "nf.hif", &part, d, "traces_nf")?;
        let mut sets: Vec<BTreeSet<String>> = vec![];
        for l in [&files, &other] {
            let mut b = BTreeSet::new();
            for f in l {
                b.insert(ch.read(&s, f)?.canonical().htf(&s));
            }
            sets.push(b);
        }
        if !files.is_empty() {
            ch.ctx.st.nontrivial(c);
        }
        if let Some(x) = sets[0].symmetric_difference(&sets[1]).next() {
            return Err(format!(
                "{} is generated from the {} only; canonized: {}",
                one_line(x),
                if sets[0].contains(x) { "original interaction" } else { "canonized interaction" },
                one_line(&nf.hif(&s))
            )
            .into());
        }
        return Ok(());
    }
    if files.is_empty() {
        ch.ctx.st.count("no_trace");
        return Ok(());
    }
    let f = files[c.num("N.pick") as usize % files.len()].clone();
    let mu = ch.read(&s, &f)?;
    ch.ctx.st.ticks += mu.len() as u64;
    ch.ctx.st.nontrivial(c);
    ch.ctx.st.count(&c.kind);
    let opts = c.opts("O.search");
    let goal = goal_of(&opts).to_string();
    // the removal of lifelines is attempted as soon as a log is empty, needed or not, and is inconclusive with
    // grouped lifelines (see C03)
    let grouped = c.get("kind") == "eliminate" && mu.colocs.iter().any(|x| x.len() > 1);
    let elim = c.get("kind") == "eliminate";
    let full = |v: &str| {
        v == "Pass" || (elim && v == "WeakPass") || (v == "WeakPass" && goal == "WeakPass") || (grouped && v == "Inconc UsingLifelineRemovalWithCoLocalizations")
    };
    // switching memoisation off is not asked for; the searches are small
    debug_assert!(!memo_off(&opts));
    match c.kind.as_str() {
        "kinds" => {
            let k = c.get("kind");
            let v = ch.verdict(&hif, &f, k)?;
            ch.ctx.st.count(&format!("kind_{}", k.split('[').next().unwrap()));
            if !full(&v) {
                return Err(format!("verdict {} (goal {}, {}) for the generated trace {} {}", v, goal, k, f, one_line(&mu.htf(&s))).into());
            }
        }
        "finer" => {
            let mut r = Rng::new(c.num("split"));
            let mut m = Mu { colocs: vec![], logs: vec![] };
            for (co, l) in mu.colocs.iter().zip(&mu.logs) {
                for g in gen::partition(&mut r, co.len()) {
                    let g: Vec<u8> = g.iter().map(|k| co[*k as usize]).collect();
                    let log: Vec<MAct> = l
                        .iter()
                        .map(|a| a.iter().filter(|x| g.contains(&x.lf)).cloned().collect::<MAct>())
                        .filter(|a: &MAct| !a.is_empty())
                        .collect();
                    m.colocs.push(g);
                    m.logs.push(log);
                }
            }
            ch.ctx.w.put("finer.htf", &m.htf(&s));
            let k = c.get("kind");
            let v = ch.verdict(&hif, "finer.htf", k)?;
            if !full(&v) {
                return Err(format!("verdict {} (goal {}, {}) for {} which is {} on smaller groups", v, goal, k, one_line(&m.htf(&s)), f).into());
            }
        }
        "partial" => {
            let mut a = vec!["slice", "s.hsf", f.as_str(), "-p", "cuts"];
            a.extend(c.get("cut").split_whitespace());
            ch.ok(&a)?;
            let mut v: Vec<String> = ch.ctx.w.tree().into_keys().filter(|k| k.starts_with("cuts/")).collect();
            v.sort();
            if v.is_empty() {
                return Err("no slice written".to_string().into());
            }
            let p = v[(c.num("N.pick") / 7) as usize % v.len()].clone();
            let m = ch.read(&s, &p)?;
            let what = c.get("cut").split_whitespace().nth(1).unwrap_or("slice");
            let kind = match c.get("kind") {
                "simulate" => {
                    let n = mu.len();
                    let total: usize = mu.logs.iter().flatten().map(|a| a.len()).sum();
                    let sl = if what == "prefix" { c.num("N.pick") % 2 == 1 } else { true };
                    format!("simulate[slice={},act num={},loop num={}]", sl, total.max(n), total.max(n) * t.loop_nest().max(1) as usize)
                }
                k => k.to_string(),
            };
            let v = ch.verdict(&hif, &p, &kind)?;
            ch.ctx.st.count(&format!("partial_{}_{}", what, v));
            if t.has_sync_op() && c.get("kind") == "eliminate" {
                // the finding `sync-removal` of C03
                return Ok(());
            }
            let discrete = mu.colocs.iter().all(|x| x.len() == 1);
            let pass = v == "Pass" || v == "WeakPass";
            let fine = match c.get("kind") {
                "prefix" => pass || v == "Inconc LackObs",
                "eliminate" => pass || (!discrete && v == "Inconc UsingLifelineRemovalWithCoLocalizations"),
                _ => pass,
            };
            if !fine {
                return Err(format!("verdict {} ({}) for {} which is a {} of {}", v, kind, one_line(&m.htf(&s)), what, one_line(&mu.htf(&s))).into());
            }
        }
        "automaton" => {
            let rd = match super::nfa::dfa(&t, 60) {
                Some(d) => d,
                None => return Ok(()),
            };
            let o = ch.ok(&["nfa_analyze", "s.hsf", &hif, &f])?;
            if !o.out.contains("re-enacted trace without deviations") {
                let os = Os::plain(ch.os.seed);
                if let Some(b) = super::nfa::loop_bounded(&t, &s, ch.ctx, &os) {
                    if !super::nfa::same_language(&b, &rd) {
                        // the finding `loop-bound` of C08
                        ch.ctx.st.count("loop_bound");
                        return Ok(());
                    }
                }
                return Err(format!("the automaton does not re-enact {} {}", f, one_line(&mu.htf(&s))).into());
            }
        }
        _ => {
            // mutants of the trace against the original and the canonized interaction
            let m = c.get("mutation").to_string();
            let mut g = f.clone();
            if !m.is_empty() {
                if m == "mutate_swap_components" {
                    let f2 = files[(c.num("N.pick") / 11) as usize % files.len()].clone();
                    ch.ok(&[&m, "s.hsf", &f, &f2, "-p", "mut", "-n", "m"])?;
                } else {
                    let k = c.get("N.mutations").to_string();
                    ch.ok(&[&m, "s.hsf", &f, "-m", &k, "-p", "mut", "-n", "m"])?;
                }
                let v: Vec<String> = ch.ctx.w.tree().into_keys().filter(|k| k.starts_with("mut/")).collect();
                if v.len() != 1 {
                    return Err(format!("{} wrote {:?}", m, v).into());
                }
                g = v[0].clone();
            }
            let m = ch.read(&s, &g)?;
            let k = c.get("kind");
            let want = prefix(&t, &covered(&m, s.lf.len()), super::ana::CAP);
            let mut judged = vec![hif.clone()];
            if c.kind == "canonized" {
                let nf = normal_form(ch, &s, &t, &hif)?;
                ch.ctx.w.put("nf.hif", &nf.hif(&s));
                judged = vec!["nf.hif".into()];
            }
            for h in judged {
                let v = ch.verdict(&h, &g, k)?;
                ch.ctx.st.count(&format!("{}_{}", k, v));
                let fine = match &want {
                    Pref::Unknown => true,
                    Pref::Complete => full(&v),
                    Pref::Proper if k == "prefix" => v == "WeakPass",
                    _ if k == "prefix" => v == "Fail" || v == "Inconc LackObs",
                    _ => v == "Fail",
                };
                if !fine {
                    return Err(format!(
                        "verdict {} (goal {}, {}) of {} against {}{}",
                        v,
                        goal,
                        k,
                        one_line(&m.htf(&s)),
                        h,
                        if h == "nf.hif" { format!(": {}", one_line(&ch.ctx.w.get("nf.hif").unwrap_or_default())) } else { String::new() }
                    )
                    .into());
                }
            }
        }
    }
    Ok(())
}
/// the tool's normal form, read back from its drawing
fn normal_form(ch: &mut Chain, s: &Sig, t: &T, hif: &str) -> Result<T, Stop> {
    let mut o: Vec<String> = ch.c.opts("O.explore").into_iter().filter(|x| !x.starts_with("priorities")).collect();
    o.retain(|x| !x.is_empty());
    ch.ctx.w.put("c.hcf", &super::canon::file(&o, false, true));
    let a = ["canonize", "s.hsf", hif, "c.hcf"];
    ch.ok(&a)?;
    let _ = t;
    let st = super::canon::states(ch.ctx, s)?;
    let fin: BTreeSet<String> = st.iter().filter(|x| x.phase == 7).map(|x| x.t.hif(s)).collect();
    if fin.len() != 1 {
        return Err(format!("canonization ends with {:?}", fin).into());
    }
    Ok(st.into_iter().find(|x| x.phase == 7).unwrap().t)
}
