//! Bookkeeping of one check run: states, transitions, outcomes, violations.
use crate::explore::{explore, Ch, Stats};
use crate::model::{Gen, Model, FLAVORS, S};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

pub struct Viol {
    pub key: String,
    pub count: u64,
    pub case: Value,
    pub detail: String,
}

pub struct Ctx {
    pub prop: String,
    pub version: String,
    pub thorough: bool,
    /// replay: report only this violation
    pub only: Option<String>,
    states: HashSet<u64>,
    pub transitions: u64,
    pub replays: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub viols: BTreeMap<String, Viol>,
    pub samples: Vec<Value>,
    pub bounds: BTreeMap<String, u64>,
    pub capped: bool,
    pub digests: BTreeMap<String, String>,
    /// (i, n): this process takes every n-th unit of work, starting at i
    pub part: (usize, usize),
    unit: usize,
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Ctx {
    pub fn new(prop: &str, version: &str, thorough: bool, only: Option<String>) -> Ctx {
        Ctx {
            prop: prop.into(),
            version: version.into(),
            thorough,
            only,
            states: HashSet::new(),
            transitions: 0,
            replays: 0,
            outcomes: BTreeMap::new(),
            viols: BTreeMap::new(),
            samples: vec![],
            bounds: BTreeMap::new(),
            capped: false,
            digests: BTreeMap::new(),
            part: (0, 1),
            unit: 0,
        }
    }
    /// whether the next unit of work belongs to this process
    pub fn mine(&mut self) -> bool {
        self.unit += 1;
        self.unit % self.part.1 == self.part.0
    }
    /// a model state (an input, history or configuration) reached by the exploration; false if seen before
    pub fn state(&mut self, op: &str, s: &str) -> bool {
        self.states.insert(h64(&(op, s)))
    }
    /// the real code executed one model step, with the given outcome
    pub fn ran(&mut self, outcome: &str) {
        self.replays += 1;
        match self.outcomes.get_mut(outcome) {
            Some(n) => *n += 1,
            None => {
                self.outcomes.insert(outcome.to_string(), 1);
            }
        }
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 3 {
            self.samples.push(v);
        }
    }
    pub fn fail(&mut self, key: impl Into<String>, case: Value, detail: impl Into<String>) {
        let key = key.into();
        if let Some(o) = &self.only {
            if *o != key {
                return;
            }
        }
        let size = case.to_string().len();
        match self.viols.get_mut(&key) {
            Some(v) => {
                v.count += 1;
                if size < v.case.to_string().len() {
                    v.case = case;
                    v.detail = detail.into();
                }
            }
            None => {
                self.viols.insert(key.clone(), Viol { key, count: 1, case, detail: detail.into() });
            }
        }
    }
    pub fn expect(&mut self, ok: bool, key: impl Into<String>, case: impl FnOnce() -> Value, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(key, case(), detail());
        }
        ok
    }
    pub fn explored(&mut self, what: &str, st: &Stats) {
        self.transitions += st.points;
        let e = self.bounds.entry(if st.bound > 1000 { "all choices".into() } else { format!("deviation bound {}", st.bound) }).or_insert(0);
        *e += 1;
        if st.capped {
            self.capped = true;
            *self.bounds.entry(format!("capped: {what}")).or_insert(0) += st.runs;
        }
    }
    /// explores with the largest deviation bound <= max whose size stays within cap (at least bound min)
    pub fn explore_fit(&mut self, what: &str, min: usize, max: usize, cap: u64, f: &mut dyn FnMut(&mut Ctx, &mut Ch), dry: &mut dyn FnMut(&mut Ch)) {
        let mut b = min;
        for k in min + 1..=max {
            if explore(k, cap, dry).capped {
                break;
            }
            b = k;
        }
        let st = explore(b, u64::MAX, &mut |ch| f(self, ch));
        self.explored(what, &st);
    }
    /// documents of one schema with every position taking many more values (one at a time), and documents
    /// whose scalars are all alike; as deep as stays within cap. The last argument tells the plain ones (flavor 0).
    pub fn rich(&mut self, m: &Model, what: &str, s: &S, cap: u64, f: &mut dyn FnMut(&mut Ctx, Value, &Gen, usize)) {
        for full in [false, true] {
            for flavor in 0..=FLAVORS {
                let gen = |depth: usize| {
                    let mut g = Gen::new(m, full);
                    (g.flavor, g.rich, g.max_depth) = (flavor, flavor == 0, depth);
                    g
                };
                let cap = if flavor == 0 { cap } else { cap / 25 + 1 };
                let fits = |d: usize| !explore(1, cap, &mut |ch| drop(gen(d).try_at(ch, s, what))).capped;
                let least = (1..7).find(|d| gen(*d).try_at(&mut Ch::replay(vec![]), s, what).is_some()).expect("no document");
                let deep = [6, 5, 4, 3, 2].into_iter().find(|d| *d >= least && fits(*d));
                let (depth, bound) = deep.map(|d| (d, 1)).unwrap_or(if flavor == 0 { (least, 1) } else { (6, 0) });
                let st = explore(bound, u64::MAX, &mut |ch| {
                    let mut g = gen(depth);
                    if let Some(d) = g.try_at(ch, s, what) {
                        f(self, d, &g, flavor);
                    }
                });
                self.explored(what, &st);
            }
        }
    }
    pub fn report(&self) -> Value {
        json!({
            "property": self.prop, "version": self.version,
            "states": self.states.len(), "transitions": self.transitions, "replays": self.replays,
            "outcomes": self.outcomes, "samples": self.samples, "bounds": self.bounds, "capped": self.capped,
            "digests": self.digests,
            "violations": self.viols.values().map(|v| json!({"key": v.key, "count": v.count, "case": v.case, "detail": v.detail})).collect::<Vec<_>>(),
        })
    }
}

/// runs code under test; a panic is returned as Err
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panicked: {m}")
    })
}
