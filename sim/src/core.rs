//! One simulated run: the choice tape that decides everything, the trace and
//! the counters.
use std::collections::{BTreeMap, HashSet};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = if h == 0 { 0xcbf2_9ce4_8422_2325 } else { h };
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Every decision of a run is one value on this tape: drawn from a PRNG when
/// searching, read back when replaying. 0 is always the simplest choice.
pub struct Tape {
    rng: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Tape {
    pub fn random(seed: u64) -> Tape {
        Tape { rng: seed, replay: None, pos: 0, rec: vec![] }
    }
    pub fn replay(v: Vec<u64>) -> Tape {
        Tape { rng: 0, replay: Some(v), pos: 0, rec: vec![] }
    }
    fn draw(&mut self, n: u64) -> u64 {
        let v = match &self.replay {
            Some(t) => {
                // past its end: the simplest choices, but not for ever, or a scenario
                // that draws until it likes what it got would never end
                let past = self.pos.saturating_sub(t.len());
                let v = t.get(self.pos).copied().unwrap_or_else(|| if past < 10_000 { 0 } else { mix(past as u64) });
                self.pos += 1;
                if n == 0 {
                    v
                } else {
                    v % n
                }
            }
            None => {
                self.rng = self.rng.wrapping_add(0x9e37_79b9_7f4a_7c15);
                let z = mix(self.rng);
                if n == 0 {
                    z
                } else {
                    z % n
                }
            }
        };
        self.rec.push(v);
        v
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub detail: String,
}

pub type Res<T = ()> = Result<T, Violation>;

pub fn violation<T>(kind: &str, detail: String) -> Res<T> {
    Err(Violation { kind: kind.to_string(), detail })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $k:expr, $($a:tt)*) => {
        if !$c { return $crate::core::violation($k, format!($($a)*)); }
    };
}

#[derive(Default, Clone)]
pub struct Stats {
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<String, u64>,
    pub steps: u64,
    pub sim_ms: u64,
    pub checks: u64,
}

pub struct Cx {
    pub tape: Tape,
    pub keep: bool,
    pub trace: Vec<String>,
    /// hash of the whole trace: two executions of a tape must agree
    pub digest: u64,
    /// hash of the schedule: who did what in which order, and the faults
    pub sched: u64,
    pub states: HashSet<u64>,
    pub nontrivial: bool,
    pub st: Stats,
    /// crashes left in this run: faults stop at some point
    pub crashes: u32,
}

impl Cx {
    pub fn new(tape: Tape, keep: bool) -> Cx {
        Cx {
            tape,
            keep,
            trace: vec![],
            digest: 0,
            sched: 0,
            states: HashSet::new(),
            nontrivial: false,
            st: Stats::default(),
            crashes: 30,
        }
    }
    /// a choice in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.tape.draw(n as u64) as usize
    }
    /// a choice in lo..=hi, lo being the simplest
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// a number of participants: mostly lo..=hi, now and then up to twice as many
    pub fn people(&mut self, lo: usize, hi: usize) -> usize {
        if self.below(1000) >= 970 {
            self.probe("a large group");
            self.range(hi + 1, 2 * hi)
        } else {
            self.range(lo, hi)
        }
    }
    /// a length: mostly the one given, now and then one past what a counter may hold
    pub fn big(&mut self, n: usize) -> usize {
        if self.chance(6) {
            let k = self.pick(&[65536usize, 65535, 65537, 16383, 16384, 32768, 70000, 131072, 262144, 1 << 20]);
            self.probe("a large size");
            k
        } else {
            n
        }
    }
    pub fn word(&mut self) -> u64 {
        self.tape.draw(0)
    }
    pub fn chance(&mut self, permille: u64) -> bool {
        if permille == 0 {
            return false;
        }
        if permille >= 1000 {
            return true;
        }
        self.tape.draw(1000) >= 1000 - permille
    }
    /// does the fault strike here? counted when it does
    pub fn fault(&mut self, name: &'static str, permille: u64) -> bool {
        let b = self.chance(permille);
        if b {
            self.fired(name);
        }
        b
    }
    /// does a node crash here?
    pub fn crash(&mut self, permille: u64) -> bool {
        if self.crashes > 0 && self.chance(permille) {
            self.crashes -= 1;
            return true;
        }
        false
    }
    pub fn fired(&mut self, name: &'static str) {
        *self.st.faults.entry(name).or_insert(0) += 1;
        self.sched = fnv(self.sched, name.as_bytes());
        self.nontrivial = true;
    }
    /// a rare condition worth knowing to be reached
    pub fn probe(&mut self, name: &str) {
        match self.st.probes.get_mut(name) {
            Some(v) => *v += 1,
            None => {
                self.st.probes.insert(name.to_string(), 1);
            }
        }
    }
    pub fn ev(&mut self, line: String) {
        self.digest = fnv(self.digest, line.as_bytes());
        if self.keep {
            self.trace.push(line);
        }
    }
    /// one step of the schedule
    pub fn step(&mut self, what: &str, a: usize, b: usize) {
        self.st.steps += 1;
        self.sched = fnv(self.sched, what.as_bytes());
        self.sched = fnv(self.sched, &[a as u8, b as u8]);
    }
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        // 0s leave the order as it is
        for i in 0..v.len().saturating_sub(1) {
            let j = i + self.below(v.len() - i);
            v.swap(i, j);
        }
    }
    /// a subset of 0..n of size k, sorted
    pub fn subset(&mut self, n: usize, k: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        self.shuffle(&mut v);
        v.truncate(k);
        v.sort_unstable();
        v
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut s = self.word();
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            s = mix(s);
            v.extend_from_slice(&s.to_le_bytes());
        }
        v.truncate(n);
        v
    }
}
