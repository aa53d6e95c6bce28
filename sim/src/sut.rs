//! Running the real tool as one simulated process: hash seeds, clocks, file operations, allocations and
//! child processes all go through the preloaded shim, inside a scratch directory.
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Debug)]
pub struct Os {
    pub seed: u64,
    pub clock: String,
    pub faults: String,
    pub quota: Option<u64>,
    pub cpu: u32,
    pub mem: u32,
}
impl Os {
    pub fn plain(seed: u64) -> Os {
        Os { seed, clock: "1000".into(), faults: String::new(), quota: None, cpu: 8, mem: 3000 }
    }
    /// an operating system which is slow, interrupts and delivers little, but loses nothing
    pub fn benign(r: &mut Rng) -> Os {
        let mut o = Os::plain(r.next() >> 1);
        if r.chance(1, 3) {
            o.clock = format!("{},{},{}", r.range(1, 1_000_000), r.range(1, 9), r.next() % 4_000_000_000_000);
        }
        if r.chance(1, 3) {
            let mut f = vec![];
            for _ in 0..r.range(1, 4) {
                let n = r.range(1, 6);
                f.push(match r.below(3) {
                    0 => format!("read:{}:short:{}", n, r.range(1, 40)),
                    1 => format!("read:{}:eintr:0", n),
                    _ => format!("openr:{}:none:0", n),
                });
            }
            o.faults = f.into_iter().filter(|x| !x.starts_with("openr")).collect::<Vec<_>>().join(";");
        }
        o
    }
    pub fn ser(&self) -> String {
        let mut s = format!("seed={} clock={}", self.seed, self.clock);
        if let Some(q) = self.quota {
            s.push_str(&format!(" quota={}", q));
        }
        for f in self.faults.split(';').filter(|x| !x.is_empty()) {
            s.push_str(&format!(" fault={}", f));
        }
        s
    }
    pub fn de(t: &str) -> Os {
        let mut o = Os::plain(0);
        let mut fs = vec![];
        for w in t.split_whitespace() {
            if let Some((k, v)) = w.split_once('=') {
                match k {
                    "seed" => o.seed = v.parse().unwrap_or(0),
                    "clock" => o.clock = v.to_string(),
                    "quota" => o.quota = v.parse().ok(),
                    "fault" => fs.push(v.to_string()),
                    "mem" => o.mem = v.parse().unwrap_or(3000),
                    "cpu" => o.cpu = v.parse().unwrap_or(8),
                    _ => {}
                }
            }
        }
        o.faults = fs.join(";");
        o
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    Cpu,
}
#[derive(Clone, Debug)]
pub struct Out {
    pub end: End,
    pub out: String,
    pub err: String,
    pub log: String,
}
impl Out {
    pub fn panicked(&self) -> bool {
        self.err.contains("panicked at") || self.end == End::Exit(101)
    }
    pub fn verdict(&self) -> Option<String> {
        for l in self.out.lines() {
            if let Some(k) = l.find("verdict ") {
                let t = &l[k..];
                let a = t.find('\'')?;
                let b = t.rfind('\'')?;
                if b > a {
                    return Some(t[a + 1..b].to_string());
                }
            }
        }
        None
    }
    pub fn node_count(&self) -> Option<u64> {
        for l in self.out.lines() {
            if let Some(k) = l.find("node count") {
                let t = &l[k..];
                return t.split(':').nth(1)?.trim().parse().ok();
            }
        }
        None
    }
    pub fn digest(&self) -> String {
        let mut e = self.err.replace('\n', " | ");
        e.truncate(e.char_indices().nth(400).map(|x| x.0).unwrap_or(e.len()));
        format!("end={:?} verdict={:?} stderr={:?}", self.end, self.verdict(), e)
    }
    pub fn fault_count(&self) -> u64 {
        self.log.lines().filter(|l| l.starts_with("FAULT") || l.starts_with("CRASH")).count() as u64
    }
}

pub struct Worker {
    pub dir: PathBuf,
    pub bin: PathBuf,
    pub shim: PathBuf,
    pub dotdir: PathBuf,
    pub runs: u64,
    pub faults: BTreeMap<String, u64>,
    pub virt_ns: u64,
    /// no tool process is started once this time has passed: the run is abandoned (it unwinds with [Abandoned]) and
    /// counts for nothing
    pub deadline: Option<std::time::Instant>,
    /// the same once another worker has found a violation (and set this to a moment a little later)
    pub stop: Option<std::sync::Arc<std::sync::Mutex<Option<std::time::Instant>>>>,
}
/// what an abandoned run unwinds with
pub struct Abandoned;
impl Worker {
    pub fn new(root: &Path, id: usize, bin: &Path, shim: &Path, dotdir: &Path) -> Worker {
        let dir = root.join(format!("w{}", id));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(dir.join("j")).unwrap();
        Worker {
            dir,
            bin: bin.into(),
            shim: shim.into(),
            dotdir: dotdir.into(),
            runs: 0,
            faults: BTreeMap::new(),
            virt_ns: 0,
            deadline: None,
            stop: None,
        }
    }
    pub fn jail(&self) -> PathBuf {
        self.dir.join("j")
    }
    /// empty the scratch directory
    pub fn reset(&self) {
        let j = self.jail();
        if let Ok(rd) = std::fs::read_dir(&j) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() && !p.is_symlink() {
                    let _ = std::fs::remove_dir_all(&p);
                } else {
                    let _ = std::fs::remove_file(&p);
                }
            }
        }
    }
    pub fn put(&self, name: &str, content: &str) {
        let p = self.jail().join(name);
        if let Some(d) = p.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(p, content).unwrap();
    }
    pub fn get(&self, name: &str) -> Option<String> {
        std::fs::read(self.jail().join(name)).ok().map(|b| String::from_utf8_lossy(&b).into_owned())
    }
    /// all files below the scratch directory, relative, with content
    pub fn tree(&self) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        let root = self.jail();
        let mut st = vec![root.clone()];
        while let Some(d) = st.pop() {
            if let Ok(rd) = std::fs::read_dir(&d) {
                for e in rd.flatten() {
                    let p = e.path();
                    if p.is_dir() {
                        st.push(p);
                    } else {
                        let r = p.strip_prefix(&root).unwrap().to_string_lossy().into_owned();
                        m.insert(r, std::fs::read(&p).unwrap_or_default());
                    }
                }
            }
        }
        m
    }
    pub fn run(&mut self, args: &[&str], os: &Os) -> Out {
        let now = std::time::Instant::now();
        if self.deadline.is_some_and(|d| now > d) || self.stop.as_ref().is_some_and(|x| x.lock().unwrap().is_some_and(|d| now > d)) {
            std::panic::panic_any(Abandoned);
        }
        self.runs += 1;
        let logp = self.dir.join("events.log");
        let _ = std::fs::remove_file(&logp);
        let mut c = Command::new(&self.bin);
        c.args(args)
            .current_dir(self.jail())
            .env_clear()
            .env("PATH", format!("{}:/usr/bin:/bin", self.dotdir.display()))
            .env("LD_PRELOAD", &self.shim)
            .env("HSIM_SEED", os.seed.to_string())
            .env("HSIM_CLOCK", &os.clock)
            .env("HSIM_JAIL", self.jail())
            .env("HSIM_LOG", &logp)
            .env("HSIM_CPU", os.cpu.to_string())
            .env("HSIM_AS", os.mem.to_string())
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        if !os.faults.is_empty() {
            c.env("HSIM_FAULTS", &os.faults);
        }
        if let Some(q) = os.quota {
            c.env("HSIM_QUOTA", q.to_string());
        }
        let o = match c.output() {
            Ok(o) => o,
            Err(e) => {
                eprintln!("hsim: cannot start the tool: {}", e);
                std::process::exit(3);
            }
        };
        let end = match (o.status.code(), o.status.signal()) {
            (Some(c), _) => End::Exit(c),
            (_, Some(s)) if s == 24 => End::Cpu,
            (_, Some(s)) => End::Signal(s),
            _ => End::Signal(0),
        };
        let log = std::fs::read(&logp).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        for l in log.lines() {
            if let Some(r) = l.strip_prefix("FAULT ") {
                let w: Vec<&str> = r.split_whitespace().collect();
                let k = match w.first().copied().unwrap_or("") {
                    "read" | "write" => format!("{}-{}", w[0], w.get(1).unwrap_or(&"")),
                    "alloc" | "realloc" => "alloc-enomem".to_string(),
                    op => format!("{}-{}", op, w.last().unwrap_or(&"")),
                };
                *self.faults.entry(k).or_insert(0) += 1;
            } else if l.starts_with("CRASH") {
                *self.faults.entry("process-crash".into()).or_insert(0) += 1;
            } else if l.starts_with("clock") {
                let step: u64 = os.clock.split(',').next().and_then(|x| x.parse().ok()).unwrap_or(0);
                self.virt_ns += step;
            } else if l.starts_with("getrandom") {
                *self.faults.entry("hash-seed-drawn".into()).or_insert(0) += 1;
            }
        }
        if os.clock.contains(',') {
            *self.faults.entry("clock-jumps".into()).or_insert(0) += 1;
        }
        Out {
            end,
            out: String::from_utf8_lossy(&o.stdout).into_owned(),
            err: String::from_utf8_lossy(&o.stderr).into_owned(),
            log,
        }
    }
}
