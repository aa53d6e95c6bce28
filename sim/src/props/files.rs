//! C10, C11: slices and mutants of multi-traces, over the simulated entropy and file system.
use super::*;
use crate::gen;
use crate::term::*;
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C10", quick: 12000, thorough: 400000, gen: gen_c10, exec: exec_c10, what: "slicing" },
        Prop { id: "C11", quick: 60000, thorough: 600000, gen: gen_c11, exec: exec_c11, what: "mutants" },
    ]
}
/// slow writes besides slow reads, nothing lost
pub fn benign_rw(r: &mut Rng) -> Os {
    let mut o = Os::benign(r);
    if r.chance(1, 4) {
        let mut f: Vec<String> = o.faults.split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
        for _ in 0..r.range(1, 3) {
            let n = if r.chance(1, 8) { "-1".to_string() } else { r.range(1, 9).to_string() };
            f.push(if n != "-1" && r.chance(1, 3) { format!("write:{}:eintr:0", n) } else { format!("write:{}:short:{}", n, r.range(1, 20)) });
        }
        o.faults = f.join(";");
    }
    o
}
/// any multi-trace: `max` events per log at most, some lifelines possibly unmentioned
pub fn rand_mu(r: &mut Rng, s: &Sig, max: usize) -> Mu {
    let mut p = gen::partition(r, s.lf.len());
    if p.len() > 1 && r.chance(1, 5) {
        let k = r.range(1, p.len() - 1);
        p.truncate(k);
    }
    if r.chance(1, 3) {
        r.shuffle(&mut p);
    }
    let logs = p.iter().map(|c| rand_log(r, s, c, max)).collect();
    Mu { colocs: p, logs }
}
pub fn rand_log(r: &mut Rng, s: &Sig, c: &[u8], max: usize) -> Vec<MAct> {
    let n = r.range(0, max);
    let pool: Vec<Act> = (0..r.range(1, 5)).map(|_| gen::random_act(r, s, c)).collect();
    (0..n)
        .map(|_| {
            let k = if r.chance(1, 6) { r.range(2, 3) } else { 1 };
            let m: BTreeSet<Act> = (0..k).map(|_| r.pick(&pool).clone()).collect();
            m.into_iter().collect()
        })
        .collect()
}
/// the multi-trace in one of the forms a file may take; a form only applies when it says the same
pub fn as_file(mu: &Mu, s: &Sig, form: &str) -> String {
    if form == "heads" {
        // canals named by what they hold or by what is left, where that means the same
        let mut left: Vec<u8> = (0..s.lf.len() as u8).collect();
        let mut v = vec![];
        for (c, l) in mu.colocs.iter().zip(&mu.logs) {
            let mut own: Vec<u8> = c.clone();
            own.sort();
            let held: BTreeSet<u8> = l.iter().flatten().map(|a| a.lf).collect();
            let names: Vec<String> = c.iter().map(|x| s.lf[*x as usize].clone()).collect();
            let head = if own == left {
                "#all".into()
            } else if held.iter().eq(own.iter()) {
                "#any".into()
            } else {
                names.join(",")
            };
            left.retain(|x| !own.contains(x));
            v.push(format!("[{}] {}", head, l.iter().map(|m| s.mact(m)).collect::<Vec<_>>().join(".")));
        }
        return format!("{{ {} }}\n", v.join(" ; "));
    }
    let whole = mu.colocs.len() == 1 && mu.colocs[0].len() == s.lf.len();
    if !whole || form.is_empty() {
        return mu.htf(s);
    }
    let seq = mu.logs[0].iter().map(|m| s.mact(m)).collect::<Vec<_>>().join(".");
    match form {
        "sequence" => format!("{}\n", seq),
        _ => format!("{{[#all] {}}}", seq),
    }
}
pub fn form(r: &mut Rng) -> &'static str {
    *r.pick(&["", "", "sequence", "all", "heads", "heads"])
}
/// reads a written multi-trace which must be over the logs of `mu`, in their order, then the lifelines it does not mention
pub fn read_like(mu: &Mu, s: &Sig, txt: &str) -> Result<Vec<Vec<MAct>>, String> {
    let one = || txt.replace('\n', " ");
    let x = Mu::parse(txt, s).ok_or_else(|| format!("unreadable: {}", one()))?.sorted_colocs();
    let w = mu.sorted_colocs();
    if x.colocs.len() < w.colocs.len() || x.colocs[..w.colocs.len()] != w.colocs[..] {
        return Err(format!("other lifelines per log: {}", one()));
    }
    let mut rest: Vec<u8> = vec![];
    for (c, l) in x.colocs[w.colocs.len()..].iter().zip(&x.logs[w.colocs.len()..]) {
        if c.len() != 1 || rest.contains(&c[0]) || w.colocs.iter().any(|d| d.contains(&c[0])) {
            return Err(format!("other lifelines per log: {}", one()));
        }
        if !l.is_empty() {
            return Err(format!("events on a lifeline without a log: {}", one()));
        }
        rest.push(c[0]);
    }
    Ok(x.logs[..w.logs.len()].to_vec())
}
fn names(r: &mut Rng, c: &mut Case) {
    c.set("parent", *r.pick(&["", "", "out", "deep/er", "slices_1"]));
    c.set("name", *r.pick(&["", "", "x", "tr_", "mut1"]));
}
// ------------------------------------------------------------------------------------------------ slicing
fn pieces(n: usize, kind: &str, wide: bool) -> Vec<(usize, usize)> {
    let min = if wide { (n + 2) / 3 } else { 0 };
    let mut v = vec![];
    for l in min..=n {
        match kind {
            "prefix" => v.push((0, l)),
            "suffix" => v.push((n - l, n)),
            _ if l == 0 => v.push((0, 0)),
            _ => v.extend((0..=n - l).map(|i| (i, i + l))),
        }
    }
    v
}
fn combos(mu: &Mu, kind: &str, wide: bool) -> u64 {
    mu.logs.iter().fold(1u64, |a, l| a.saturating_mul(pieces(l.len(), kind, wide).len() as u64))
}
fn all_slices(mu: &Mu, kind: &str, wide: bool) -> BTreeMap<Vec<Vec<MAct>>, u64> {
    let mut v: Vec<Vec<Vec<MAct>>> = vec![vec![]];
    for l in &mu.logs {
        let ps = pieces(l.len(), kind, wide);
        v = v
            .into_iter()
            .flat_map(|p| {
                ps.iter().map(move |(a, b)| {
                    let mut q = p.clone();
                    q.push(l[*a..*b].to_vec());
                    q
                })
            })
            .collect();
    }
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(x).or_insert(0) += 1;
    }
    m
}
fn gen_c10(r: &mut Rng, i: u64) -> Case {
    let mut cfg = gen::Cfg::std();
    cfg.ms = (1, 3);
    let s = gen::sig(r, &cfg);
    let fair = i % 60 == 7;
    let cap = if fair { 8 } else { 300 };
    let kind = *r.pick(&["", "slice", "prefix", "suffix"]);
    let random = fair || r.chance(1, 2);
    let wide = random && r.chance(1, 3);
    let max = if fair {
        3
    } else {
        *r.pick(&[6, 6, 6, 6, 6, 14, 14, 30])
    };
    let mut mu = rand_mu(r, &s, max);
    while combos(&mu, kind, wide) > cap {
        let k = (0..mu.logs.len()).max_by_key(|k| mu.logs[*k].len()).unwrap();
        mu.logs[k].pop();
    }
    let mut c = Case::new("C10", if fair { "fair" } else if random { "random" } else { "exhaustive" });
    c.set("sig", s.hsf());
    c.set("M.trace", mu.htf(&s));
    c.set("form", form(r));
    c.set("kind", kind);
    if wide {
        c.set("wide", "1");
    }
    if random {
        let n = combos(&mu, kind, wide) as usize;
        let k = match r.below(6) {
            0 => n,
            1 => n + 1,
            2 => n + r.range(1, 50),
            3 => r.below(3),
            _ => r.range(0, n.max(1)),
        };
        c.set("N.random", if fair { "1".into() } else { k.to_string() });
    }
    names(r, &mut c);
    if r.chance(1, 5) {
        c.set("stale", "1");
    }
    c.set("os", benign_rw(r).ser());
    c
}
fn exec_c10(c: &Case, ctx: &mut Ctx) -> Res {
    let s = c.sig();
    let mu = c.mu("M.trace", &s);
    let mut os = Os::de(c.get("os"));
    let kind = c.get("kind");
    let wide = c.has("wide");
    let want = all_slices(&mu, kind, wide);
    let total: u64 = want.values().sum();
    ctx.st.execs.insert(c.key());
    let dir = if c.get("parent").is_empty() { "mu_slices".to_string() } else { c.get("parent").to_string() };
    let mut args: Vec<String> = ["slice", "s.hsf", "mu.htf"].iter().map(|x| x.to_string()).collect();
    let mut add = |a: &str, b: &str| {
        if !b.is_empty() {
            args.push(a.into());
            args.push(b.into());
        }
    };
    add("-p", c.get("parent"));
    add("-n", c.get("name"));
    add("-k", kind);
    add("-r", c.get("N.random"));
    if wide {
        args.push("-w".into());
    }
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let rounds = if c.kind == "fair" { 40 + 30 * total } else { 1 };
    let seed = os.seed;
    let mut drawn: HashSet<Vec<Vec<MAct>>> = HashSet::new();
    for round in 0..rounds {
        os.seed = seed.wrapping_add(round);
        ctx.w.reset();
        ctx.w.put("s.hsf", &s.hsf());
        ctx.w.put("mu.htf", &as_file(&mu, &s, c.get("form")));
        if c.has("stale") {
            ctx.w.put(&format!("{}/s1.htf", dir), "left from before");
            ctx.w.put(&format!("{}/other.txt", dir), "left from before");
            ctx.w.put("s1.htf", "left from before");
        }
        let mut before = ctx.w.tree();
        let o = ctx.w.run(&a, &os);
        if o.end != End::Exit(0) {
            return Err(format!("ended abnormally: {}", o.digest()));
        }
        if o.fault_count() > 0 {
            ctx.st.count("delivered_slowly");
        }
        let mut after = ctx.w.tree();
        let n = if c.has("N.random") { c.num("N.random").min(total) } else { total };
        let mut got: BTreeMap<Vec<Vec<MAct>>, u64> = BTreeMap::new();
        for i in 1..=n {
            let f = format!("{}/{}s{}.htf", dir, c.get("name"), i);
            before.remove(&f);
            let b = after.remove(&f).ok_or_else(|| format!("{} of {} slices was not written", f, n))?;
            let logs = read_like(&mu, &s, &String::from_utf8_lossy(&b)).map_err(|e| format!("slice {}: {}", i, e))?;
            *got.entry(logs).or_insert(0) += 1;
        }
        if before != after {
            let k = before.keys().chain(after.keys()).find(|k| before.get(*k) != after.get(*k)).unwrap();
            return Err(format!("{} was {}", k, if before.contains_key(k) { "changed" } else { "written and is no requested slice" }));
        }
        for (k, v) in &got {
            let w = want.get(k).cloned().unwrap_or(0);
            if *v > w || (n == total && *v != w) {
                let x = Mu { colocs: mu.colocs.clone(), logs: k.clone() };
                return Err(format!("{} written {} times, exists {} times as a {} slice", x.htf(&s).replace('\n', " "), v, w, kind));
            }
        }
        if n == total && got.len() != want.len() {
            return Err("a slice was not written".into());
        }
        ctx.st.add("slices", n);
        if n > 1 {
            ctx.st.nontrivial(c);
        }
        drawn.extend(got.into_keys());
    }
    if c.kind == "fair" && drawn.len() != want.len() {
        let k = want.keys().find(|k| !drawn.contains(*k)).unwrap();
        let x = Mu { colocs: mu.colocs.clone(), logs: k.clone() };
        return Err(format!("{} never came up in {} random slices ({} exist)", x.htf(&s).replace('\n', " "), rounds, total));
    }
    ctx.st.count(&c.kind);
    Ok(())
}
// ------------------------------------------------------------------------------------------------ mutants
fn gen_c11(r: &mut Rng, i: u64) -> Case {
    let mut cfg = gen::Cfg::std();
    let fair = i % 60 == 11;
    cfg.ms = (1, if fair { 2 } else { 3 });
    let s = gen::sig(r, &cfg);
    let kind = *r.pick(&["insert_noise", "remove_actions", "swap_actions", "swap_components"]);
    let max = if fair { 3 } else { *r.pick(&[7, 7, 7, 7, 16]) };
    let mut mu = rand_mu(r, &s, max);
    if r.chance(1, 40) {
        mu = Mu { colocs: vec![], logs: vec![] };
    }
    let mut c = Case::new("C11", kind);
    if fair {
        while mu.len() > 5 {
            let k = (0..mu.logs.len()).max_by_key(|k| mu.logs[*k].len()).unwrap();
            mu.logs[k].pop();
        }
        c.set("fair", "1");
    } else {
        match r.below(5) {
            0 => {}
            1 => {
                c.set("N.max", r.range(0, 40).to_string());
            }
            _ => {
                c.set("N.max", r.range(0, 4).to_string());
            }
        }
    }
    if kind == "insert_noise" {
        if r.chance(1, 3) {
            c.set("once", "1");
        }
        if r.chance(1, 3) {
            c.set("end", "1");
        }
    }
    c.set("sig", s.hsf());
    c.set("M.trace", mu.htf(&s));
    if kind == "swap_components" {
        let mut m2 = mu.clone();
        for (l, co) in m2.logs.iter_mut().zip(&mu.colocs) {
            *l = rand_log(r, &s, co, if fair { 3 } else { 7 });
        }
        if r.chance(1, 12) {
            m2 = rand_mu(r, &s, 5);
        }
        c.set("M.other", m2.htf(&s));
    }
    c.set("form", form(r));
    names(r, &mut c);
    c.set("os", benign_rw(r).ser());
    c
}
/// whether `a` becomes `b` with at most `k` exchanges; how many at least
fn swaps(a: &mut Vec<MAct>, b: &[MAct], k: usize) -> Option<usize> {
    let i = match (0..a.len()).find(|i| a[*i] != b[*i]) {
        None => return Some(0),
        Some(i) => i,
    };
    let mism = (0..a.len()).filter(|i| a[*i] != b[*i]).count();
    if k * 2 < mism {
        return None;
    }
    let mut best: Option<usize> = None;
    for j in i + 1..a.len() {
        if a[j] == b[i] && a[j] != b[j] {
            a.swap(i, j);
            let lim = best.map_or(k - 1, |x: usize| x.saturating_sub(2));
            if let Some(n) = swaps(a, b, lim.min(k - 1)) {
                best = Some(best.map_or(n + 1, |x| x.min(n + 1)));
            }
            a.swap(i, j);
        }
    }
    best
}
fn subsequence(a: &[MAct], b: &[MAct]) -> bool {
    let mut i = 0;
    for x in b {
        if i < a.len() && a[i] == *x {
            i += 1;
        }
    }
    i == a.len()
}
/// every multi-trace one mutation away
fn one_step(c: &Case, mu: &Mu, m2: Option<&Mu>, s: &Sig) -> BTreeSet<Vec<Vec<MAct>>> {
    let mut v = BTreeSet::new();
    for k in 0..mu.logs.len() {
        let l = &mu.logs[k];
        let mut put = |x: Vec<MAct>| {
            let mut y = mu.logs.clone();
            y[k] = x;
            v.insert(y);
        };
        match c.kind.as_str() {
            "insert_noise" => {
                for lf in &mu.colocs[k] {
                    for ms in 0..s.ms.len() {
                        for em in [true, false] {
                            let base = Act { lf: *lf, em, msg: ms as u8 };
                            for p in 0..=l.len() {
                                if c.has("end") && p < l.len() {
                                    continue;
                                }
                                let mut x = l.clone();
                                x.insert(p, vec![base.clone()]);
                                put(x);
                            }
                        }
                    }
                }
            }
            "remove_actions" => {
                for p in 0..l.len() {
                    let mut x = l.clone();
                    x.remove(p);
                    put(x);
                }
            }
            "swap_actions" => {
                for p in 0..l.len() {
                    for q in p + 1..l.len() {
                        let mut x = l.clone();
                        x.swap(p, q);
                        put(x);
                    }
                }
            }
            _ => {
                let m2 = m2.unwrap();
                let of = |x: &Vec<u8>| x.iter().cloned().collect::<BTreeSet<u8>>();
                if let Some(i) = m2.colocs.iter().position(|d| of(d) == of(&mu.colocs[k])) {
                    put(m2.logs[i].clone());
                }
            }
        }
    }
    v
}
fn exec_c11(c: &Case, ctx: &mut Ctx) -> Res {
    let s = c.sig();
    let mu = c.mu("M.trace", &s);
    let m2 = if c.has("M.other") { Some(c.mu("M.other", &s)) } else { None };
    let mut os = Os::de(c.get("os"));
    ctx.st.execs.insert(c.key());
    let cmd = format!("mutate_{}", c.kind);
    let mut args: Vec<String> = vec![cmd, "s.hsf".into(), "mu.htf".into()];
    if m2.is_some() {
        args.push("mu2.htf".into());
    }
    let mut add = |a: &str, b: &str| {
        if !b.is_empty() {
            args.push(a.into());
            args.push(b.into());
        }
    };
    add("-p", c.get("parent"));
    add("-n", c.get("name"));
    add("-m", c.get("N.max"));
    if c.has("once") {
        args.push("-u".into());
    }
    if c.has("end") {
        args.push("-e".into());
    }
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let max = if c.has("N.max") { c.num("N.max") as usize } else { 1 };
    let name = match c.get("name") {
        "" => format!(
            "mu_{}_mutant",
            match c.kind.as_str() {
                "swap_actions" => "swap_act",
                "swap_components" => "swap_comp",
                x => x,
            }
        ),
        n => n.to_string(),
    };
    let file = if c.get("parent").is_empty() { format!("{}.htf", name) } else { format!("{}/{}.htf", c.get("parent"), name) };
    // with its lifelines that have no log, every multi-trace has as many logs as the tool sees
    let full = complete(&mu, &s);
    let steps = if c.has("fair") { one_step(c, &full, m2.as_ref().map(|x| complete(x, &s)).as_ref(), &s) } else { BTreeSet::new() };
    // one exchange is only certain when there is something to exchange
    let rounds = if c.has("fair") { (40 + 30 * steps.len() * full.logs.len().max(1)).min(6000) } else { 1 };
    let mut seen: BTreeSet<Vec<Vec<MAct>>> = BTreeSet::new();
    let seed = os.seed;
    for round in 0..rounds {
        if round > 0 && seen.iter().filter(|x| steps.contains(*x)).count() == steps.len() {
            break;
        }
        os.seed = seed.wrapping_add(round as u64);
        ctx.w.reset();
        ctx.w.put("s.hsf", &s.hsf());
        ctx.w.put("mu.htf", &as_file(&mu, &s, c.get("form")));
        if let Some(m) = &m2 {
            ctx.w.put("mu2.htf", &m.htf(&s));
        }
        let before = ctx.w.tree();
        let o = ctx.w.run(&a, &os);
        let mut after = ctx.w.tree();
        if let Some(m) = &m2 {
            let (x, y) = (full.sorted_colocs().colocs, complete(m, &s).sorted_colocs().colocs);
            if x != y && o.end == End::Exit(1) {
                ctx.st.count("other_colocalizations");
                if before != after {
                    return Err("the command failed and wrote files".into());
                }
                return Ok(());
            }
            let (mut x, mut y) = (x, y);
            x.sort();
            y.sort();
            if x != y {
                return Err("logs exchanged between multi-traces over different co-localizations".into());
            }
        }
        if o.end != End::Exit(0) {
            return Err(format!("ended abnormally: {}", o.digest()));
        }
        if o.fault_count() > 0 {
            ctx.st.count("delivered_slowly");
        }
        let txt = after.remove(&file).ok_or_else(|| format!("{} was not written", file))?;
        if before != after {
            let k = before.keys().chain(after.keys()).find(|k| before.get(*k) != after.get(*k)).unwrap();
            return Err(format!("{} was {}", k, if before.contains_key(k) { "changed" } else { "written" }));
        }
        let txt = String::from_utf8_lossy(&txt).into_owned();
        // which lifelines the mutant gives to which log
        let x = Mu::parse(&txt, &s).ok_or_else(|| format!("unreadable mutant: {}", txt.replace('\n', " ")))?.sorted_colocs();
        let w = full.sorted_colocs();
        let mut logs = vec![];
        if x.colocs.len() != w.colocs.len() || x.colocs[..mu.colocs.len()] != w.colocs[..mu.colocs.len()] {
            return Err(format!("mutant over other lifelines: {}", txt.replace('\n', " ")));
        }
        for co in &w.colocs {
            let k = x.colocs.iter().position(|d| d == co).ok_or_else(|| format!("mutant over other lifelines: {}", txt.replace('\n', " ")))?;
            logs.push(x.logs[k].clone());
        }
        judge(c, &full, m2.as_ref().map(|m| complete(m, &s)).as_ref(), &logs, max).map_err(|e| format!("{}: {}", e, txt.replace('\n', " ")))?;
        if logs != full.logs {
            ctx.st.nontrivial(c);
            ctx.st.count(&format!("{}_changed", c.kind));
        }
        seen.insert(logs);
    }
    if c.has("fair") && full.len() + full.logs.len() > 0 {
        // a single exchange among `n` logs is only possible from two logs on
        let none = c.kind == "swap_components" && full.logs.len() < 2;
        for x in &steps {
            if !seen.contains(x) && !none {
                let m = Mu { colocs: full.colocs.clone(), logs: x.clone() };
                return Err(format!("in {} random mutations, {} never came up", rounds, m.htf(&s).replace('\n', " ")));
            }
        }
        ctx.st.count("fair");
    }
    ctx.st.count(&c.kind);
    Ok(())
}
/// the lifelines without a log get an empty log each
pub fn complete(mu: &Mu, s: &Sig) -> Mu {
    let mut m = mu.clone();
    for l in 0..s.lf.len() as u8 {
        if !m.colocs.iter().any(|c| c.contains(&l)) {
            m.colocs.push(vec![l]);
            m.logs.push(vec![]);
        }
    }
    m
}
fn judge(c: &Case, mu: &Mu, m2: Option<&Mu>, logs: &[Vec<MAct>], max: usize) -> Res {
    let mut n = 0;
    for k in 0..logs.len() {
        let (a, b) = (&mu.logs[k], &logs[k]);
        match c.kind.as_str() {
            "insert_noise" => {
                if b.len() < a.len() || !subsequence(a, b) {
                    return Err("events were lost or exchanged".into());
                }
                if c.has("end") && b[..a.len()] != a[..] {
                    return Err("noise elsewhere than at the end".into());
                }
                if c.has("once") && b.len() > a.len() + 1 {
                    return Err("noise more than once in a log".into());
                }
                if b.iter().flatten().any(|x| !mu.colocs[k].contains(&x.lf)) {
                    return Err("noise on a lifeline of another log".into());
                }
                n += b.len() - a.len();
            }
            "remove_actions" => {
                if b.len() > a.len() || !subsequence(b, a) {
                    return Err("more than removals".into());
                }
                n += a.len() - b.len();
            }
            "swap_actions" => {
                let (mut x, mut y) = (a.clone(), b.clone());
                x.sort();
                y.sort();
                if x != y {
                    return Err("more than exchanges within the log".into());
                }
                if a != b && max < 8 {
                    match swaps(&mut a.clone(), b, max) {
                        Some(k) => n += k,
                        None => n = max + 1,
                    }
                }
            }
            _ => {
                let m2 = m2.unwrap();
                let i = m2.sorted_colocs().colocs.iter().position(|d| *d == mu.sorted_colocs().colocs[k]);
                let o = i.map(|i| &m2.logs[i]);
                if a != b {
                    if Some(b) != o {
                        return Err("a log of neither multi-trace".into());
                    }
                    n += 1;
                }
            }
        }
    }
    if n > max {
        return Err(format!("{} mutations, at most {} requested", n, max));
    }
    Ok(())
}
