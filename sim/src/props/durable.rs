//! C12: what a command that reports success has written, when the operating system fails, delivers little,
//! interrupts, or kills the process.
use super::cmds::*;
use super::*;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C12", quick: 26000, thorough: 500000, gen: gen_c12, exec: exec_c12, what: "outputs under faults" }]
}
const OPS: &[(&str, &[&str])] = &[
    ("open", &["eacces", "eio", "emfile", "enoent", "eintr"]),
    ("openw", &["eacces", "enospc", "erofs", "emfile", "crash", "crash2", "eintr"]),
    ("read", &["eio", "short", "eintr", "crash"]),
    ("write", &["eio", "enospc", "short", "short", "eintr", "crash", "crash"]),
    ("mkdir", &["eacces", "enospc", "erofs", "crash"]),
    ("unlink", &["eacces", "eio", "crash"]),
    ("dir", &["eio", "emfile"]),
    ("spawn", &["enoent", "enomem"]),
    ("alloc", &["enomem"]),
    ("any", &["crash"]),
];
fn gen_c12(r: &mut Rng, i: u64) -> Case {
    let kind = KINDS[i as usize % KINDS.len()];
    let mut c = Case::new("C12", kind);
    command(r, &mut c, kind);
    let mut fs = vec![];
    for _ in 0..if r.chance(1, 4) { 2 } else { 1 } {
        let w = r.below(20);
        let (op, kinds) = OPS[match w {
            0 => 0,
            1..=4 => 1,
            5 => 2,
            6..=12 => 3,
            13 => 4,
            14 => 5,
            15 => 6,
            16 => 7,
            17 => 8,
            _ => 9,
        }];
        // which occurrence: resolved against how often the fault-free run does it
        fs.push(format!("{}/{}/{}/{}", op, r.next() % 100_000, r.pick(kinds), r.range(0, 30)));
    }
    if r.chance(1, 6) {
        fs.truncate(r.below(2));
        c.set("N.quota", (r.next() % 100_000).to_string());
    }
    c.set("plan", fs.join(" "));
    if r.chance(1, 2) {
        c.set("old", "1");
    }
    let mut os = Os::plain(r.next() >> 1);
    os.clock = format!("{}", r.range(1, 1_000_000));
    c.set("os", os.ser());
    c
}
const KEEP: &[&str] = &["notes.txt", "out/notes.txt", "other/i.hif"];
type Tree = BTreeMap<String, Vec<u8>>;

fn stem(k: &str) -> &str {
    let f = k.rsplit('/').next().unwrap();
    f.rsplit_once('.').map_or(f, |x| x.0)
}
fn ext(k: &str) -> &str {
    k.rsplit_once('.').map_or("", |x| x.1)
}
/// what the graphviz library writes, or the graphviz program renders
fn rendered(k: &str, r: &Tree) -> bool {
    match ext(k) {
        "dot" => true,
        "png" | "svg" => r.keys().any(|d| ext(d) == "dot" && stem(d) == stem(k)),
        _ => false,
    }
}
/// the first output which is not as in the reference run
fn lacks(f: &Tree, r: &Tree, skip: bool) -> Option<String> {
    for (k, v) in r {
        if skip && rendered(k, r) {
            continue;
        }
        match f.get(k) {
            None => return Some(format!("{} is missing", k)),
            Some(w) if w != v => return Some(format!("{} has {} bytes of {}{}", k, w.len(), v.len(), if v.starts_with(w) { " (cut short)" } else { "" })),
            _ => {}
        }
    }
    None
}
fn prepare(c: &Case, ctx: &mut Ctx, old: &[String]) -> Vec<String> {
    let a = setup(c, ctx);
    for k in KEEP {
        ctx.w.put(k, &format!("kept {}\n", k));
    }
    for k in old {
        ctx.w.put(k, &"written by an earlier run\n".repeat(if k.len() % 2 == 0 { 400 } else { 1 }));
    }
    a
}
fn exec_c12(c: &Case, ctx: &mut Ctx) -> Res {
    let os = Os::de(c.get("os"));
    ctx.st.execs.insert(c.key());
    // the fault-free run
    let args = prepare(c, ctx, &[]);
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let start = ctx.w.tree();
    let o = ctx.w.run(&a, &os);
    let reference = ctx.w.tree();
    if o.end != End::Exit(0) {
        ctx.st.count(&format!("{}_reference_failed", c.kind));
        return Ok(());
    }
    check_place(&o, &start, &reference, None)?;
    let counts: BTreeMap<String, u64> = o
        .log
        .lines()
        .rev()
        .find_map(|l| l.strip_prefix("COUNTS "))
        .map(|l| l.split_whitespace().filter_map(|w| w.split_once('=')).map(|(k, v)| (k.to_string(), v.parse().unwrap_or(0))).collect())
        .unwrap_or_default();
    let of = |k: &str| counts.get(k).cloned().unwrap_or(0);
    let mut faulty = os.clone();
    let mut fs = vec![];
    for f in c.get("plan").split_whitespace() {
        let mut w: Vec<&str> = f.split('/').collect();
        // a command that does no such operation has its writes fail instead
        if of(w[0]) == 0 {
            w[0] = "write";
            if w[2] == "emfile" || w[2] == "erofs" {
                w[2] = "enospc";
            }
        }
        let n = of(w[0]);
        if n == 0 {
            continue;
        }
        let k = w[1].parse::<u64>().unwrap_or(0);
        // allocations: also the early ones and the late ones
        fs.push(format!("{}:{}:{}:{}", w[0], 1 + k % n, w[2], w[3]));
    }
    faulty.faults = fs.join(";");
    if c.has("N.quota") {
        faulty.quota = Some(c.num("N.quota") as u64 % (of("bytes") + 1));
    }
    if fs.is_empty() && faulty.quota.is_none() {
        ctx.st.count("nothing_to_fail");
        return Ok(());
    }
    let old: Vec<String> = if c.has("old") { reference.keys().filter(|k| !start.contains_key(*k)).cloned().collect() } else { vec![] };
    // the run with faults
    prepare(c, ctx, &old);
    let start = ctx.w.tree();
    let o = ctx.w.run(&a, &faulty);
    let got = ctx.w.tree();
    check_place(&o, &start, &got, Some(&reference))?;
    let fired: Vec<&str> = o.log.lines().filter(|l| l.starts_with("FAULT") || l.starts_with("CRASH")).collect();
    let soft = fired.iter().all(|l| l.contains("eintr") || l.starts_with("FAULT read short") || l.starts_with("FAULT write short"));
    // the graphviz library ignores whether its writes, folders and child processes succeed
    let on_drawings = fired.iter().any(|l| l.starts_with("FAULT write") || l.starts_with("FAULT spawn") || l.starts_with("FAULT alloc") || l.starts_with("FAULT realloc") || (l.starts_with("FAULT mkdir") && l.contains("temp")));
    let told = || format!("{} after {}", o.digest(), fired.join(", "));
    if o.end == End::Cpu {
        return Err(format!("does not end: {}", told()));
    }
    if fired.is_empty() {
        ctx.st.count("not_reached");
    } else {
        ctx.st.nontrivial(c);
    }
    let what = match &o.end {
        End::Exit(0) => "success",
        End::Exit(_) => "failure",
        _ => "killed",
    };
    ctx.st.count(&format!("{}_{}", if soft { "soft" } else { "hard" }, what));
    if soft && o.end != End::Exit(0) {
        return Err(format!("nothing was lost but the command failed: {}", told()));
    }
    if o.end == End::Exit(0) {
        if let Some(x) = lacks(&got, &reference, on_drawings) {
            return Err(format!("success reported, {}: {}", x, told()));
        }
    }
    // once the faults are over, the command run again makes everything right
    if o.end != End::Exit(0) {
        let start = got;
        let o = ctx.w.run(&a, &os);
        let again = ctx.w.tree();
        check_place(&o, &start, &again, Some(&reference))?;
        if o.end != End::Exit(0) {
            return Err(format!("fails when run again without faults: {} (before: {})", o.digest(), fired.join(", ")));
        }
        if let Some(x) = lacks(&again, &reference, false) {
            return Err(format!("run again without faults, {} (before: {})", x, fired.join(", ")));
        }
        ctx.st.count("recovered");
    }
    Ok(())
}
/// everything written is an output of the fault-free run; inputs and other files are as before
fn check_place(o: &Out, start: &Tree, end: &Tree, reference: Option<&Tree>) -> Res {
    if let Some(l) = o.log.lines().find(|l| l.starts_with("DENIED")) {
        return Err(format!("touches files elsewhere: {}", l));
    }
    let inputs = ["s.hsf", "i.hif", "t.htf", "t2.htf", "c.hcf"];
    for (k, v) in start {
        if (inputs.contains(&k.as_str()) || KEEP.contains(&k.as_str())) && end.get(k) != Some(v) {
            return Err(format!("{} was {}", k, if end.contains_key(k) { "changed" } else { "deleted" }));
        }
    }
    if let Some(r) = reference {
        // what the tool puts in its own temporary folder it may also remove again
        if let Some(k) = end.keys().find(|k| !r.contains_key(*k) && !start.contains_key(*k) && !k.starts_with("temp/")) {
            return Err(format!("{} is created, which no run without faults does", k));
        }
    }
    Ok(())
}
