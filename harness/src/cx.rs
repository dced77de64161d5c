//! Context of one case: randomness, trace, counters, verdict.
use crate::rng::{mix, Rng};
use std::collections::BTreeMap;
use std::path::PathBuf;

pub struct Cx {
    pub prop: &'static str,
    pub idx: u64,
    pub rng: Rng,
    pub thorough: bool,
    pub trace: Vec<String>,
    pub counters: BTreeMap<&'static str, u64>,
    pub viol: Option<String>,
    pub sig: u64,
    pub nontrivial: bool,
    pub sample: Option<String>,
    pub scratch: PathBuf,
    pub asan: bool,
}

pub type R<T> = Result<T, Stop>;

/// Ends a case early (the verdict, if any, is already recorded).
pub struct Stop;

impl Cx {
    /// A context outside of any case.
    pub fn detached(prop: &'static str, idx: u64, seed: u64) -> Cx {
        Cx {
            prop,
            idx,
            rng: Rng::new(seed),
            thorough: false,
            trace: vec![],
            counters: BTreeMap::new(),
            viol: None,
            sig: 0,
            nontrivial: true,
            sample: None,
            scratch: PathBuf::new(),
            asan: false,
        }
    }
    pub fn step(&mut self, s: String) {
        self.sig = mix(self.sig, crate::rng::hash_bytes(s.as_bytes()));
        if self.trace.len() < 5000 {
            self.trace.push(s);
        }
    }
    pub fn fold(&mut self, v: u64) {
        self.sig = mix(self.sig, v);
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn is(&self, p: &str) -> bool {
        self.prop == p
    }
    pub fn any(&self, p: &[&str]) -> bool {
        p.contains(&self.prop)
    }
    /// Record a violation of the given properties, if this run decides one of them.
    pub fn fail(&mut self, props: &[&str], msg: String) {
        if self.viol.is_none() && props.contains(&self.prop) {
            self.viol = Some(msg);
        }
    }
    pub fn check(&mut self, ok: bool, props: &[&str], msg: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(props, msg());
        }
        ok
    }
    pub fn ok(&self) -> R<()> {
        if self.viol.is_some() {
            Err(Stop)
        } else {
            Ok(())
        }
    }
    pub fn file(&self, name: &str) -> PathBuf {
        self.scratch.join(name)
    }
}
