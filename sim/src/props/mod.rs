//! The properties: how their cases are generated from a seed, and how one case is executed and judged.
use crate::case::Case;
use crate::rng::Rng;
use crate::sut::*;
use std::collections::{BTreeMap, HashSet};

pub mod ana;
pub mod canon;
pub mod drawn;
pub mod chain;
pub mod cmds;
pub mod explo;
pub mod files;
pub mod hcf;
pub mod nfa;
pub mod durable;
pub mod reading;
pub mod repro;

#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub world_faults: BTreeMap<String, u64>,
    /// digests of distinct simulated executions (system, schedule, faults)
    pub execs: HashSet<u64>,
    /// digests of distinct non-trivial situations (the property's antecedent really held)
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    /// instants of simulated system time
    pub ticks: u64,
}
impl Stats {
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn fault(&mut self, k: &str) {
        *self.world_faults.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn nontrivial(&mut self, c: &Case) {
        self.nontrivial.insert(c.key());
        if self.samples.len() < 3 {
            let s: Vec<String> = c.f.iter().map(|(k, v)| format!("{}={}", k, v.replace('\n', " "))).collect();
            self.samples.push(format!("{}: {}", c.kind, s.join(" ~ ")));
        }
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.world_faults {
            *self.world_faults.entry(k).or_insert(0) += v;
        }
        self.execs.extend(o.execs);
        self.nontrivial.extend(o.nontrivial);
        self.samples.extend(o.samples);
        self.ticks += o.ticks;
    }
}
pub struct Ctx<'a> {
    pub w: &'a mut Worker,
    pub st: &'a mut Stats,
}
/// Err: the property is violated, with what was seen
pub type Res = Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    /// number of simulated runs in the quick and thorough tiers
    pub quick: u64,
    pub thorough: u64,
    pub gen: fn(&mut Rng, u64) -> Case,
    pub exec: fn(&Case, &mut Ctx) -> Res,
    pub what: &'static str,
}
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(ana::props());
    v.extend(explo::props());
    v.extend(nfa::props());
    v.extend(canon::props());
    v.extend(drawn::props());
    v.extend(files::props());
    v.extend(repro::props());
    v.extend(durable::props());
    v.extend(reading::props());
    v.extend(chain::props());
    v
}
