//! Random search schedules of the tool (its own scheduler: queue strategy, priorities, randomisation,
//! memoisation, local analysis, loggers) written as configuration files.
use crate::rng::Rng;

pub fn priorities(r: &mut Rng, keys: &[&str]) -> Option<String> {
    let mut v = vec![];
    if r.chance(1, 2) {
        v.push(format!("randomize={}", if r.chance(4, 5) { "true" } else { "false" }));
    }
    for k in keys {
        if r.chance(1, 3) {
            let n = r.below(7) as i64 - 3;
            v.push(format!("{}={}", k, n));
        }
    }
    if v.is_empty() {
        None
    } else {
        Some(format!("priorities=[{}]", v.join(",")))
    }
}
pub fn strategy(r: &mut Rng) -> Option<String> {
    match r.below(4) {
        0 => None,
        1 => Some("strategy=BFS".into()),
        2 => Some("strategy=DFS".into()),
        _ => Some("strategy=HCS".into()),
    }
}
pub fn local(r: &mut Rng) -> Option<String> {
    match r.below(4) {
        0 => None,
        1 => Some("local_analysis=none".into()),
        _ => {
            let mut v = vec![];
            if r.chance(1, 2) {
                v.push(format!("select={}", r.pick(&["all", "dirty"])));
            }
            if r.chance(1, 2) {
                v.push(format!("modulo={}", r.range(0, 4)));
            }
            if r.chance(1, 5) {
                v.push("max_look_ahead_depth=none".to_string());
            }
            if v.is_empty() {
                None
            } else {
                Some(format!("local_analysis=[{}]", v.join(",")))
            }
        }
    }
}
/// everything that must not matter to an unlimited analysis
pub fn ana_schedule(r: &mut Rng, memo_off_ok: bool, loggers: bool) -> Vec<String> {
    let mut v = vec![];
    v.extend(strategy(r));
    if r.chance(2, 3) {
        v.extend(priorities(r, &["emission", "reception", "multi_rdv", "loop", "elim", "simu"]));
    }
    match r.below(4) {
        0 => v.push("memoize=true".into()),
        1 if memo_off_ok => v.push("memoize=false".into()),
        _ => {}
    }
    v.extend(local(r));
    if loggers && r.chance(1, 10) {
        let o = match r.below(4) {
            0 => "graphic",
            1 => "graphic[svg,draw_sub_processes=true]",
            2 => "tracegen[generation=accepted]",
            _ => "tracegen[generation=exact depth 2,partition=trivial]",
        };
        v.push(format!("loggers=[{}]", o));
    }
    r.shuffle(&mut v);
    v
}
pub fn goal(r: &mut Rng) -> Option<String> {
    match r.below(4) {
        0 => Some("goal=Pass".into()),
        1 => Some("goal=WeakPass".into()),
        2 => Some("goal=none".into()),
        _ => None,
    }
}
thread_local! {
    pub static PLAIN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// the same configuration written otherwise: synonyms, spaces, comments, trailing separators, and sections that
/// are for other commands. The spelling is drawn from the text itself, so that a replay spells alike.
pub fn spell(t: String, section: &str) -> String {
    let r = &mut Rng::new(crate::rng::hash_str(&t));
    if PLAIN.with(|p| p.get()) || r.chance(2, 3) {
        return t;
    }
    let syn: &[(&str, &[&str])] = &[
        ("=true", &["= true", "=True", "=TRUE", "=⊤"]),
        ("=false", &["=\nfalse", "=False", "=FALSE", "=⊥"]),
        ("goal=none", &["goal=None", "goal = NONE"]),
        ("local_analysis=none", &["local_analysis=None", "local_analysis=NONE"]),
        ("act none", &["act None", "act  NONE"]),
        ("max_look_ahead_depth=none", &["lookahead=none", "max depth=None", "lookup=NONE"]),
        ("strategy=BFS", &["strategy=BreadthFS", "strategy=Breadth First Search"]),
        ("strategy=DFS", &["strategy=DepthFS", "strategy= Depth First Search"]),
        ("strategy=HCS", &["strategy=HighCoverageS", "strategy=High Coverage Search"]),
        ("max_depth=", &["max depth=", "max/**/depth ="]),
        ("max_loop_depth=", &["max loop depth="]),
        ("max_node_number=", &["max node number=", "max  node\tnumber = "]),
        ("max_num", &["max num"]),
        ("loop max_depth", &["loop max depth"]),
        ("slice=", &["before=", "preamble ="]),
        ("multiply=", &["resized=", "dependent="]),
        ("reset=", &["reinitialize="]),
        ("modulo=", &["modulo_each_X_steps="]),
        ("select=all", &["select=All", "select = ALL"]),
        ("select=dirty", &["select=Dirty", "select=DIRTY"]),
        ("no_duplicates=", &["avoid_duplicates=", "prevent_duplicates="]),
        (",folder=", &[",parent_folder=", ", parent ="]),
        (",prefix=", &[",name_prefix=", ",trace_prefix="]),
        ("\n", &["\n /* max_depth=0; goal=none */\n", "\r\n", "\t"]),
        (";\n", &[" ;  "]),
        ("]", &[" ]", ",]"]),
        ("\n}", &[";\n}"]),
    ];
    let mut t = t;
    for (a, b) in syn {
        if r.chance(1, 3) {
            let mut out = String::new();
            let mut rest = &t[..];
            while let Some(k) = rest.find(a) {
                out.push_str(&rest[..k]);
                out.push_str(if r.chance(2, 3) { *r.pick(b) } else { a });
                rest = &rest[k + a.len()..];
            }
            out.push_str(rest);
            t = out;
        }
    }
    let other: Vec<&str> = [
        "@explore_option{ strategy=DFS; filters=[max_depth=1]; loggers=[tracegen] }\n",
        "@analyze_option{ analysis_kind=prefix; goal=none; filters=[max_node_number=1] }\n",
        "@canonize_option{ search_all=true; loggers=[graphic[png]] }\n",
    ]
    .into_iter()
    .filter(|x| !x.starts_with(section))
    .collect();
    match r.below(8) {
        0 => format!("{}{}", r.pick(&other), t),
        1 => format!("{}{}", t, r.pick(&other)),
        2 => format!("{}{}{}", other[0], t, other[1]),
        _ => t,
    }
}
pub fn ana_file(kind: &str, opts: &[String]) -> String {
    let mut v = vec![format!("analysis_kind={}", kind)];
    v.extend(opts.iter().cloned());
    spell(format!("@analyze_option{{\n{}\n}}\n", v.join(";\n")), "@analyze")
}
pub fn explo_file(opts: &[String]) -> String {
    spell(format!("@explore_option{{\n{}\n}}\n", opts.join(";\n")), "@explore")
}
