//! C13: what the tool understands of files which were damaged, or which it cannot read.
use super::cmds::*;
use super::*;
use crate::reader::{self, R};
use crate::term::*;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C13", quick: 90000, thorough: 600000, gen: gen_c13, exec: exec_c13, what: "damaged and unreadable inputs" }]
}
const FILES: &[(&str, &str)] = &[("s.hsf", "X.hsf"), ("i.hif", "X.hif"), ("t.htf", "X.htf"), ("t2.htf", "X.htf2"), ("c.hcf", "configuration")];

fn base_text(c: &Case, file: &str) -> Option<String> {
    let s = c.sig();
    Some(match file {
        "s.hsf" => s.hsf(),
        "i.hif" if c.has("T.system") => c.term("T.system", &s).hif(&s),
        "t.htf" if c.has("M.trace") => c.mu("M.trace", &s).htf(&s),
        "t2.htf" if c.has("M.other") => c.mu("M.other", &s).htf(&s),
        "c.hcf" if c.has("hcf") => c.get("hcf").to_string(),
        _ => return None,
    })
}
/// words, runs of blanks, comments, single symbols
pub fn tokens(t: &str) -> Vec<String> {
    let s: Vec<char> = t.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        let a = i;
        let word = |c: char| c.is_alphanumeric() || c == '_';
        i += 1;
        if word(s[a]) {
            while i < s.len() && word(s[i]) {
                i += 1;
            }
        } else if s[a].is_whitespace() {
            while i < s.len() && s[i].is_whitespace() {
                i += 1;
            }
        } else if (s[a] == '-' && i < s.len() && (s[i] == '-' || s[i] == '>')) || (s[a] == '/' && i < s.len() && s[i] == '*') {
            i += 1;
        }
        v.push(s[a..i].iter().collect());
    }
    v
}
fn word(t: &str) -> bool {
    t.chars().next().map_or(false, |c| c.is_alphabetic())
}
const VOCABULARY: &[&str] = &[
    "{", "}", "(", ")", "[", "]", ";", ",", ".", "!", "?", "--", "->", "|", "<", ">", "#any", "#all", "@message", "@lifeline", "@gate", "@", "o", "∅", "strict", "seq",
    "coreg", "alt", "par", "loop", "loopS", "loopW", "loop H", "sync", "<synch>", "<asynch>", "/*", "*/", "/**/", "//", "#", "-", "_", "0", "l1", "m1", "g1", "zz",
    "é", "=", "\u{a0}", "\u{feff}", "\0", "$", "seq(o,o)", "alt(o,o,o)", "sync(l1!m1)(o,o)", "l1!m1", "{l1!m1,l2?m1}", "[l1]", "[l9]", "\"", "S", "SEQ",
];
fn blank(r: &mut Rng) -> String {
    (*r.pick(&[" ", "\n", "\t", "\r\n", "\r", "  ", "/* x */", " /* } ; */ ", "/**/", "/* -> */\n"])).to_string()
}
/// blanks between words only where words stay apart
fn spaced(r: &mut Rng, t: &str) -> String {
    let v = tokens(t);
    let mut o = String::new();
    for k in v {
        if r.chance(1, 4) && k != "#" && !k.starts_with('@') && !o.ends_with('#') && !o.ends_with('@') {
            o.push_str(&blank(r));
        }
        o.push_str(&k);
    }
    if r.chance(1, 3) {
        o.push_str(&blank(r));
    }
    o
}
/// configurations: around symbols only, as some keywords are several words
fn spaced_hcf(r: &mut Rng, t: &str) -> String {
    let mut o = String::new();
    for k in t.chars() {
        let symbol = "{}[]=,;".contains(k);
        if symbol && r.chance(1, 4) {
            o.push_str(&blank(r));
        }
        o.push(k);
        if symbol && r.chance(1, 4) {
            o.push_str(&blank(r));
        }
    }
    o
}
/// a multi-trace whose canals name their lifelines in any of the ways there are, whether or not that suits what they
/// hold: the independent reader is to say what it means, if anything
fn heads(r: &mut Rng, mu: &Mu, s: &Sig) -> String {
    let mut canals: Vec<(String, String)> = vec![];
    for (c, l) in mu.colocs.iter().zip(&mu.logs) {
        let mut names: Vec<String> = c.iter().map(|x| s.lf[*x as usize].clone()).collect();
        if r.chance(1, 12) {
            let extra = r.pick(&s.lf).clone();
            names.push(extra);
        }
        let head = match r.weighted(&[4, 3, 2]) {
            0 => names.join(","),
            1 => "#any".into(),
            _ => "#all".into(),
        };
        let events = if r.chance(1, 5) { String::new() } else { l.iter().map(|m| s.mact(m)).collect::<Vec<_>>().join(".") };
        canals.push((head, events));
    }
    if r.chance(1, 3) {
        r.shuffle(&mut canals);
    }
    // all that is left
    if r.chance(1, 3) {
        if let Some(x) = canals.last_mut() {
            x.0 = "#all".into();
        }
    }
    if r.chance(1, 8) && !canals.is_empty() {
        let k = r.below(canals.len());
        let mut x = canals[k].clone();
        if r.chance(1, 2) {
            x.1.clear();
        }
        let at = r.below(canals.len() + 1);
        canals.insert(at, x);
    }
    let v: Vec<String> = canals.iter().map(|(h, e)| format!("[{}] {}", h, e)).collect();
    format!("{{ {} }}", v.join("; "))
}
fn mangle(r: &mut Rng, t: &str) -> String {
    let ch: Vec<char> = t.chars().collect();
    let mut tk = tokens(t);
    if tk.is_empty() {
        return (*r.pick(VOCABULARY)).to_string();
    }
    let at = r.below(tk.len());
    match r.below(13) {
        0 | 1 => ch[..r.below(ch.len() + 1)].iter().collect(),
        2 => {
            let k = r.below(ch.len());
            let n = r.range(1, 4).min(ch.len() - k);
            ch[..k].iter().chain(&ch[k + n..]).collect()
        }
        3 => {
            let k = r.below(ch.len() + 1);
            let ins: Vec<char> = r.pick(VOCABULARY).chars().collect();
            ch[..k].iter().chain(&ins).chain(&ch[k..]).collect()
        }
        4 => {
            tk.insert(at, (*r.pick(VOCABULARY)).to_string());
            tk.concat()
        }
        5 => {
            tk[at] = (*r.pick(VOCABULARY)).to_string();
            tk.concat()
        }
        6 => {
            tk.remove(at);
            tk.concat()
        }
        7 => {
            let x = tk[at].clone();
            tk.insert(at, x);
            tk.concat()
        }
        8 => {
            let b = r.below(tk.len());
            tk.swap(at, b);
            tk.concat()
        }
        9 => {
            // a name becomes another one
            let w: Vec<usize> = (0..tk.len()).filter(|k| word(&tk[*k])).collect();
            if !w.is_empty() {
                let k = *r.pick(&w);
                tk[k] = match r.below(4) {
                    0 => format!("{}x", tk[k]),
                    1 => tk[k].chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                    _ => tk[*r.pick(&w)].clone(),
                };
            }
            tk.concat()
        }
        10 => {
            // a piece again, elsewhere
            let b = r.below(tk.len() + 1);
            let (a, b) = (at.min(b), at.max(b));
            let piece = tk[a..b].to_vec();
            let k = r.below(tk.len() + 1);
            tk.splice(k..k, piece);
            tk.concat()
        }
        11 => {
            let b = r.below(tk.len() + 1);
            tk.drain(at.min(b)..at.max(b));
            tk.concat()
        }
        _ => format!("{}{}", t, t),
    }
}
/// damages to a configuration file after which it certainly is not well formed
fn mangle_hcf(r: &mut Rng, t: &str) -> String {
    let ch: Vec<char> = t.chars().collect();
    let last = ch.iter().rposition(|c| *c == '}').unwrap();
    let first = ch.iter().position(|c| *c == '@').unwrap();
    let symbols: Vec<usize> = (0..ch.len()).filter(|k| "{}[]=".contains(ch[*k])).collect();
    let words: Vec<usize> = {
        let tk = tokens(t);
        let mut p = 0;
        let mut v = vec![];
        for (i, k) in tk.iter().enumerate() {
            let n = k.chars().count();
            // keywords, not the names given to files
            if word(k) && n > 3 && !(i > 0 && tk[i - 1] == "=" && ["gr"].contains(&k.as_str())) {
                v.push(p + 1 + (n - 2) / 2);
            }
            p += n;
        }
        v
    };
    match r.below(6) {
        0 | 1 => ch[..r.range(first + 1, last)].iter().collect(),
        2 => {
            let k = *r.pick(&symbols);
            ch[..k].iter().chain(&ch[k + 1..]).collect()
        }
        3 => {
            let k = r.range(first, last);
            ch[..k].iter().chain(&['$']).chain(&ch[k..]).collect()
        }
        4 => {
            let k = *r.pick(&words);
            ch[..k].iter().chain(&['$']).chain(&ch[k + 1..]).collect()
        }
        _ => {
            let bad = *r.pick(&[
                "filters=[max_depth=99999999999]",
                "filters=[max_node_number=4294967296]",
                "filters=[max_loop_depth=-1]",
                "filters=[max_depth=01]",
                "filters=[]",
                "priorities=[loop=3000000000]",
                "priorities=[loops=1]",
                "strategy=ABC",
                "memoize=yes",
                "loggers=[]",
                "nonsense",
                "strategy BFS",
                "loggers=[tracegen[partition={(l1,nobody)}]]",
                "loggers=[tracegen[partition={}]]",
                "loggers=[tracegen[generation=exact depth 99999999999]]",
                "loggers=[graphic[format=gif]]",
            ]);
            let mut o: String = ch[..last].iter().collect();
            o.push_str(if o.trim_end().ends_with(';') { "" } else { ";\n" });
            format!("{}{}\n}}\n", o, bad)
        }
    }
}
fn gen_c13(r: &mut Rng, i: u64) -> Case {
    let kind = KINDS[i as usize % (KINDS.len() - 1)];
    let mut c = Case::new("C13", kind);
    loop {
        // (damage is spelled here, and must be in what the command reads)
        super::hcf::PLAIN.with(|p| p.set(true));
        command(r, &mut c, kind);
        super::hcf::PLAIN.with(|p| p.set(false));
        // a configuration that is not there cannot be damaged
        if c.has("hcf") || !["analyze", "explore", "canonize"].contains(&kind) {
            break;
        }
        if r.chance(1, 2) {
            break;
        }
        c = Case::new("C13", kind);
    }
    let there: Vec<&(&str, &str)> = FILES.iter().filter(|(f, _)| base_text(&c, f).is_some()).collect();
    let (file, key) = **r.pick(&there);
    c.set("victim", file);
    let text = base_text(&c, file).unwrap();
    let mut os = Os::plain(r.next() >> 1);
    match r.below(20) {
        _ if file.ends_with("htf") && r.chance(1, 3) => {
            let mu = c.mu(if file == "t.htf" { "M.trace" } else { "M.other" }, &c.sig());
            let t = heads(r, &mu, &c.sig());
            c.set(key, if r.chance(1, 4) { spaced(r, &t) } else { t });
        }
        0 => {
            c.set("place", *r.pick(&["missing", "dir", "noext", "otherext", "dotfile", "upper", "dangling", "nofolder"]));
        }
        1 | 2 => {
            let op = *r.pick(&["open", "read"]);
            let kinds: &[&str] = if op == "open" { &["eacces", "eio", "emfile", "enoent"] } else { &["eio"] };
            os.faults = format!("{}:{}:{}:0", op, r.range(1, if op == "open" { 4 } else { 9 }), r.pick(kinds));
        }
        3 => {
            c.set("N.utf8", (r.range(0, text.len()) + 1).to_string());
            c.set(key, text);
        }
        4 | 5 => {
            let t = if file == "c.hcf" { spaced_hcf(r, &text) } else { spaced(r, &text) };
            c.set(key, t);
            os = super::files::benign_rw(r);
        }
        _ => {
            let mut t = text;
            if file == "c.hcf" {
                c.set("bad", "1");
                t = mangle_hcf(r, &t);
                if r.chance(1, 2) {
                    t = spaced_hcf(r, &t);
                }
            } else {
                if r.chance(1, 2) {
                    t = spaced(r, &t);
                }
                for _ in 0..if r.chance(1, 4) { 2 } else { 1 } {
                    t = mangle(r, &t);
                }
            }
            c.set(key, t);
            if r.chance(1, 4) {
                os = super::files::benign_rw(r);
            }
        }
    }
    c.set("os", os.ser());
    c
}
/// what is said besides the banner
fn said(o: &Out) -> String {
    let mut s = String::new();
    for l in o.out.lines().chain(o.err.lines()) {
        let l = match l.find('|') {
            Some(k) if l.len() > 20 && k < 24 => &l[k + 1..],
            _ if l.starts_with("===") => "",
            _ if l.contains("V-label") || l.contains("\\_/") || l.starts_with(" ___") || l.starts_with("(o,o)") || l.starts_with("{`") || l.starts_with("-\"-") => "",
            _ => l,
        };
        s.push_str(l.trim());
    }
    s
}
enum Read {
    Fine,
    Bad(String),
    Unclear,
}
fn exec_c13(c: &Case, ctx: &mut Ctx) -> Res {
    let os = Os::de(c.get("os"));
    ctx.st.execs.insert(c.key());
    let mut args = setup(c, ctx);
    let victim = c.get("victim").to_string();
    let mut text: BTreeMap<&str, String> = BTreeMap::new();
    for (f, k) in FILES {
        if let Some(t) = base_text(c, f) {
            text.insert(f, if c.has(k) { c.get(k).to_string() } else { t });
        }
    }
    let mut bad: Option<String> = None;
    for (f, t) in &text {
        if *f == victim && c.has("N.utf8") {
            let mut b = t.clone().into_bytes();
            let mut k = (c.num("N.utf8") as usize).min(b.len() + 1) - 1;
            while !t.is_char_boundary(k) {
                k -= 1;
            }
            b.insert(k, 0xff);
            std::fs::write(ctx.w.jail().join(f), b).map_err(|e| e.to_string())?;
            bad = Some(format!("{} is not UTF-8", f));
        } else {
            ctx.w.put(f, t);
        }
    }
    if c.has("place") {
        let p = ctx.w.jail().join(&victim);
        let t = &text[victim.as_str()];
        let stem = victim.split('.').next().unwrap().to_string();
        let other = match c.get("place") {
            "missing" => {
                std::fs::remove_file(&p).unwrap();
                victim.clone()
            }
            "dir" => {
                std::fs::remove_file(&p).unwrap();
                std::fs::create_dir(&p).unwrap();
                victim.clone()
            }
            "dangling" => {
                std::fs::remove_file(&p).unwrap();
                let _ = std::os::unix::fs::symlink("nowhere", &p);
                victim.clone()
            }
            "noext" => stem,
            "nofolder" => format!("nowhere/{}", victim),
            "dotfile" => format!(".{}", victim.split('.').nth(1).unwrap()),
            "upper" => format!("{}.{}", stem, victim.split('.').nth(1).unwrap().to_uppercase()),
            _ => format!("{}.{}", stem, if victim.ends_with("htf") { "hif" } else { "htf" }),
        };
        if other != victim {
            if c.get("place") != "nofolder" {
                ctx.w.put(&other, t);
            }
            for a in args.iter_mut() {
                if *a == victim {
                    *a = other.clone();
                }
            }
        }
        bad = Some(format!("{} is {}", victim, c.get("place")));
    }
    // what the files say
    let mut sig: Option<Sig> = None;
    let mut state = Read::Fine;
    let note = |r: Read, state: &mut Read| match (&state, r) {
        (Read::Bad(_), _) => {}
        (_, Read::Bad(x)) => *state = Read::Bad(x),
        (Read::Fine, Read::Unclear) => *state = Read::Unclear,
        _ => {}
    };
    match reader::read_hsf(&text["s.hsf"]) {
        R::Good(s) => sig = Some(s),
        R::Bad(e) => note(Read::Bad(format!("s.hsf: {}", e)), &mut state),
        R::Unclear(_) => note(Read::Unclear, &mut state),
    }
    let (mut term, mut mus) = (None, vec![]);
    if let Some(s) = &sig {
        if let Some(t) = text.get("i.hif") {
            match reader::read_hif(t, s) {
                R::Good(t) => term = Some(t),
                R::Bad(e) => note(Read::Bad(format!("i.hif: {}", e)), &mut state),
                R::Unclear(_) => note(Read::Unclear, &mut state),
            }
        }
        for f in ["t.htf", "t2.htf"] {
            if let Some(t) = text.get(f) {
                match reader::read_htf(t, s) {
                    R::Good(m) => mus.push((f, m)),
                    R::Bad(e) => note(Read::Bad(format!("{}: {}", f, e)), &mut state),
                    R::Unclear(_) => note(Read::Unclear, &mut state),
                }
            }
        }
    }
    if let Some(b) = bad {
        state = Read::Bad(b);
    }
    if c.has("bad") && !matches!(state, Read::Bad(_)) {
        state = Read::Bad("c.hcf is damaged".into());
    }
    let refused = |o: &Out, start: &BTreeMap<String, Vec<u8>>, end: &BTreeMap<String, Vec<u8>>, why: &str| -> Res {
        let told = || format!("{}, {}: {} printed {:?}", why, c.get("cmd").split(' ').next().unwrap(), o.digest(), said(o).chars().take(120).collect::<String>());
        match o.end {
            End::Exit(0) => return Err(format!("taken for well formed although {}", told())),
            End::Exit(101) | End::Signal(_) => return Err(format!("crashes when {}", told())),
            End::Cpu => return Err(format!("does not end when {}", told())),
            _ => {}
        }
        if o.panicked() {
            return Err(format!("crashes when {}", told()));
        }
        if o.verdict().is_some() {
            return Err(format!("a verdict although {}", told()));
        }
        if said(o).len() < 5 {
            return Err(format!("nothing is said when {}", told()));
        }
        if start != end {
            let k = end.keys().find(|k| start.get(*k) != end.get(*k)).cloned().unwrap_or_default();
            return Err(format!("{} is written although {}", k, told()));
        }
        Ok(())
    };
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    match state {
        Read::Unclear => {
            ctx.st.count("unclear");
            Ok(())
        }
        Read::Bad(why) => {
            ctx.st.count(&format!("refused_{}", victim.rsplit('.').next().unwrap()));
            ctx.st.nontrivial(c);
            let start = ctx.w.tree();
            let o = ctx.w.run(&a, &os);
            refused(&o, &start, &ctx.w.tree(), &why)
        }
        Read::Fine if os.faults.contains("eacces") || os.faults.contains("emfile") || os.faults.contains("enoent") || os.faults.contains("eio") => {
            let start = ctx.w.tree();
            let o = ctx.w.run(&a, &os);
            let fired = o.log.lines().any(|l| {
                (l.starts_with("FAULT open ") && FILES.iter().any(|f| l.contains(&format!(" {} ", f.0)))) || l.starts_with("FAULT read eio")
            });
            if !fired {
                ctx.st.count("fault_not_reached");
                return Ok(());
            }
            ctx.st.count("refused_fault");
            ctx.st.nontrivial(c);
            refused(&o, &start, &ctx.w.tree(), &format!("the system answers {}", os.faults))
        }
        Read::Fine => {
            let s = sig.unwrap();
            ctx.st.count(&format!("understood_{}", victim.rsplit('.').next().unwrap()));
            ctx.st.nontrivial(c);
            if let Some(t) = &term {
                let o = ctx.w.run(&["draw", "s.hsf", "i.hif", "-r", "tt", "-o", "x"], &os);
                if o.end != End::Exit(0) {
                    return Err(format!("well formed but refused: {} {}", o.digest(), said(&o)));
                }
                let dot = ctx.w.get("x.dot").or_else(|| ctx.w.get("temp/x.dot")).ok_or("no drawing")?;
                let got = super::canon::tree(&dot, &s).ok_or("unreadable drawing")?;
                if norm(&got) != norm(t) {
                    return Err(format!("understood as {} instead of {}", got.hif(&s), t.hif(&s)));
                }
            }
            for (f, m) in &mus {
                let o = ctx.w.run(&["mutate_remove_actions", "s.hsf", f, "-m", "0", "-n", "back"], &os);
                if o.end != End::Exit(0) {
                    return Err(format!("well formed but refused: {} {}", o.digest(), said(&o)));
                }
                let back = ctx.w.get("back.htf").ok_or("nothing written back")?;
                let got = match reader::read_htf(&back, &s) {
                    R::Good(g) => g,
                    R::Bad(e) => return Err(format!("written back as a malformed file: {}: {}", e, back.replace('\n', " "))),
                    R::Unclear(e) => return Err(format!("written back with {}: {}", e, back.replace('\n', " "))),
                };
                if got.canonical() != m.canonical() {
                    return Err(format!("understood as {} instead of {}", got.htf(&s).replace('\n', " "), m.htf(&s).replace('\n', " ")));
                }
            }
            if victim == "c.hcf" {
                // blanks and comments only: nothing changes
                let o = ctx.w.run(&a, &os);
                let v = (o.end.clone(), o.verdict(), o.node_count());
                ctx.w.reset();
                let _ = setup(c, ctx);
                for (f, t) in &text {
                    ctx.w.put(f, &if *f == victim { base_text(c, f).unwrap() } else { t.clone() });
                }
                let p = ctx.w.run(&a, &os);
                let w = (p.end.clone(), p.verdict(), p.node_count());
                if v != w && v.0 != End::Cpu && w.0 != End::Cpu {
                    return Err(format!("blanks in the configuration turn {:?} into {:?} {}", w, v, said(&o)));
                }
            }
            Ok(())
        }
    }
}
fn norm(t: &T) -> T {
    use T::*;
    let b = |x: &T| bx(norm(x));
    match t {
        E | Em { .. } | Rc { .. } => t.clone(),
        St(x, y) => St(b(x), b(y)),
        Sq(x, y) => Sq(b(x), b(y)),
        Co(c, x, y) => {
            let mut c = c.clone();
            c.sort();
            Co(c, b(x), b(y))
        }
        Al(x, y) => Al(b(x), b(y)),
        Pa(x, y) => Pa(b(x), b(y)),
        Sy(a, x, y) => {
            let mut a = a.clone();
            a.sort();
            Sy(a, b(x), b(y))
        }
        Lp(k, x) => Lp(*k, b(x)),
    }
}
