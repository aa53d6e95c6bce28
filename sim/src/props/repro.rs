//! C14: nothing the process environment provides changes what a command does.
use super::cmds::*;
use super::*;
use crate::term::*;
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C14", quick: 12000, thorough: 300000, gen: gen_c14, exec: exec_c14, what: "reproducibility" }]
}
fn gen_c14(r: &mut Rng, i: u64) -> Case {
    let kind = KINDS[i as usize % KINDS.len()];
    let mut c = Case::new("C14", kind);
    command(r, &mut c, kind);
    c.set("os", Os::plain(r.next() >> 1).ser());
    let mut b = super::files::benign_rw(r);
    if r.chance(1, 2) {
        b.clock = format!("{},{},{}", r.range(1, 1_000_000), r.range(1, 9), r.next() % 4_000_000_000_000);
    }
    if c.has("random") {
        b.seed = Os::de(c.get("os")).seed;
    }
    c.set("os2", b.ser());
    c
}
struct Seen {
    end: End,
    printed: Vec<String>,
    tree: BTreeMap<String, Vec<u8>>,
    verdict: Option<String>,
    nodes: Option<u64>,
    err: String,
}
fn look(c: &Case, ctx: &mut Ctx, os: &Os) -> Seen {
    let args = setup(c, ctx);
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let o = ctx.w.run(&a, os);
    Seen { end: o.end.clone(), printed: printed(&o), tree: ctx.w.tree(), verdict: o.verdict(), nodes: o.node_count(), err: o.digest() }
}
fn exec_c14(c: &Case, ctx: &mut Ctx) -> Res {
    let (os, mut os2) = (Os::de(c.get("os")), Os::de(c.get("os2")));
    ctx.st.execs.insert(c.key());
    let a = look(c, ctx, &os);
    if a.tree.keys().any(|k| k.ends_with(".dot")) {
        // the graphviz library the tool draws with ignores how much of a drawing could be written: see DESIGN.md
        os2.faults = os2.faults.split(';').filter(|f| !f.starts_with("write")).collect::<Vec<_>>().join(";");
    }
    let b = look(c, ctx, &os2);
    if a.end == End::Cpu || b.end == End::Cpu {
        ctx.st.count("cpu");
        return Ok(());
    }
    ctx.st.count(&format!("{}{}", c.kind, if c.has("random") { "_random" } else { "" }));
    ctx.st.nontrivial(c);
    if a.end != b.end {
        return Err(format!("ends differently: {} and {}", a.err, b.err));
    }
    if a.end != End::Exit(0) {
        ctx.st.count(&format!("{}_failed", c.kind));
        return Err(format!("ended abnormally: {}", a.err));
    }
    if a.verdict != b.verdict {
        return Err(format!("verdict {:?} in one process, {:?} in another", a.verdict, b.verdict));
    }
    if a.nodes != b.nodes {
        return Err(format!("{:?} nodes in one process, {:?} in another", a.nodes, b.nodes));
    }
    let mut differ: BTreeSet<&String> = a.tree.keys().chain(b.tree.keys()).filter(|k| a.tree.get(*k) != b.tree.get(*k)).collect();
    for k in differ.clone() {
        // automata may be drawn with other numbers for their states and in another order
        if let (true, Some(x), Some(y)) = (k.ends_with(".dot"), a.tree.get(k), b.tree.get(k)) {
            let s = c.sig();
            if let Some(same) = super::nfa::same_drawing(&String::from_utf8_lossy(x), &String::from_utf8_lossy(y), &s) {
                ctx.st.count("renumbered_automata");
                same.map_err(|e| format!("{} differs between two processes: {}", k, e))?;
                let stem = k.trim_end_matches("dot");
                differ.retain(|x| x.strip_prefix(stem).map_or(true, |e| !["dot", "png", "svg"].contains(&e)));
            }
        }
    }
    if let Some(k) = differ.into_iter().next() {
        return Err(match (a.tree.get(k), b.tree.get(k)) {
            (Some(x), Some(y)) => {
                let (x, y) = (String::from_utf8_lossy(x).into_owned(), String::from_utf8_lossy(y).into_owned());
                let d = x.lines().zip(y.lines()).find(|(p, q)| p != q).map(|(p, q)| format!("{:?} / {:?}", cut(p), cut(q)));
                format!("output {} differs between two processes: {}", k, d.unwrap_or("one is longer".into()))
            }
            _ => format!("output {} is only written by one of two processes", k),
        });
    }
    if a.printed != b.printed {
        let d = a.printed.iter().zip(&b.printed).find(|(x, y)| x != y);
        return Err(format!("prints {:?} in one process, {:?} in another", d.map(|x| x.0), d.map(|x| x.1)));
    }
    if c.kind == "rng_gen_interactions" {
        return honours(c, ctx, &a.tree, &a.printed);
    }
    Ok(())
}
fn cut(x: &str) -> String {
    x.chars().take(160).collect()
}
fn honours(c: &Case, ctx: &mut Ctx, tree: &BTreeMap<String, Vec<u8>>, printed: &[String]) -> Res {
    let s = c.sig();
    let args: Vec<&str> = c.get("cmd").split_whitespace().collect();
    let opt = |k: &str| args.iter().position(|x| *x == k).map(|i| args[i + 1]);
    let n: usize = opt("-i").unwrap_or("350").parse().unwrap();
    let depth: u32 = opt("-d").unwrap_or("10").parse().unwrap();
    let min: usize = opt("-x").unwrap_or("100").parse().unwrap();
    let dir = opt("-f").unwrap_or("gen_ints");
    let gave_up = printed.iter().any(|l| l.contains("max retries exceeded"));
    let mut seen: HashSet<T> = HashSet::new();
    let made = tree.keys().filter(|k| k.starts_with(&format!("{}/", dir))).count();
    if made > n || (made < n && !gave_up) {
        return Err(format!("{} interactions requested, {} generated", n, made));
    }
    for i in 0..made {
        let k = format!("{}/i{}.hif", dir, i);
        let b = tree.get(&k).ok_or_else(|| format!("{} is missing", k))?;
        let txt = String::from_utf8_lossy(b).into_owned();
        let t = parse_hif(&txt, &s).ok_or_else(|| format!("{} is not an interaction over the signature: {}", k, txt))?;
        if t.size() < min {
            return Err(format!("{} has {} symbols, at least {} requested", k, t.size(), min));
        }
        if !seen.insert(t) {
            return Err(format!("{} was generated before", k));
        }
        ctx.st.count("generated");
    }
    for l in printed {
        if let Some(x) = l.strip_prefix("generated interaction of depth ") {
            let d: u32 = x.split_whitespace().next().and_then(|x| x.parse().ok()).unwrap_or(0);
            if d > depth + 1 {
                return Err(format!("an interaction of depth {} was generated, at most {} requested", d, depth));
            }
        }
    }
    Ok(())
}
