//! The simulated network and clock: a queue of (time, sequence number, event).
use crate::core::Cx;
use std::cmp::Reverse;
use std::collections::BinaryHeap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Msg {
    pub from: usize,
    pub to: usize,
    pub kind: &'static str,
    pub bytes: Rc<Vec<u8>>,
    /// unique per message sent; copies and retransmissions share it
    pub id: u64,
    /// what the harness knows about the message (0: authentic)
    pub tag: u32,
    pub attempt: u32,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Msg(Msg),
    Timer { node: usize, what: u32 },
}

/// rates in permille; each run draws its own (swarm)
#[derive(Clone, Debug, Default)]
pub struct NetCfg {
    pub drop: u64,
    pub dup: u64,
    pub jitter: usize,
    /// lost messages are sent again until delivered
    pub reliable: bool,
    /// from here on nothing is lost any more
    pub gst: u64,
}

pub struct Partition {
    pub from: u64,
    pub until: u64,
    pub side: u32,
}

pub struct Net {
    pub now: u64,
    seq: u64,
    ids: u64,
    heap: BinaryHeap<Reverse<(u64, u64, usize)>>,
    slab: Vec<Option<Ev>>,
    pub cfg: NetCfg,
    pub parts: Vec<Partition>,
    pub down: u32,
}

const RTO: u64 = 60;

impl Net {
    pub fn new(cfg: NetCfg) -> Net {
        Net {
            now: 0,
            seq: 0,
            ids: 0,
            heap: BinaryHeap::new(),
            slab: vec![],
            cfg,
            parts: vec![],
            down: 0,
        }
    }

    /// a swarm configuration: each kind of fault is on or off for the run
    pub fn swarm(cx: &mut Cx, n: usize, gst: u64, reliable: bool) -> Net {
        let mut cfg = NetCfg { jitter: 4, reliable, gst, ..Default::default() };
        if cx.chance(500) {
            cfg.drop = cx.pick(&[20, 80, 200]);
        }
        if cx.chance(500) {
            cfg.dup = cx.pick(&[20, 100, 250]);
        }
        cfg.jitter = cx.pick(&[1, 10, 60, 300]);
        let mut net = Net::new(cfg);
        if n > 1 && cx.chance(250) {
            let from = cx.range(0, 150) as u64;
            let len = cx.range(20, 300) as u64;
            let side = 1 + cx.below((1 << n.min(31)) - 2) as u32;
            net.parts.push(Partition { from, until: from + len, side });
        }
        net
    }

    pub fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        let i = self.slab.len();
        self.slab.push(Some(e));
        self.heap.push(Reverse((t, self.seq, i)));
    }

    pub fn timer(&mut self, after: u64, node: usize, what: u32) {
        self.at(self.now + after, Ev::Timer { node, what });
    }

    pub fn send(&mut self, cx: &mut Cx, from: usize, to: usize, kind: &'static str, bytes: Vec<u8>) -> u64 {
        self.send_tagged(cx, from, to, kind, bytes, 0)
    }

    pub fn send_tagged(&mut self, cx: &mut Cx, from: usize, to: usize, kind: &'static str, bytes: Vec<u8>, tag: u32) -> u64 {
        self.ids += 1;
        let m = Msg { from, to, kind, bytes: Rc::new(bytes), id: self.ids, tag, attempt: 0 };
        self.put(cx, m);
        self.ids
    }

    /// sent only after `wait` (by a participant which takes its time)
    pub fn send_later(&mut self, wait: u64, from: usize, to: usize, kind: &'static str, bytes: Vec<u8>) {
        self.ids += 1;
        let m = Msg { from, to, kind, bytes: Rc::new(bytes), id: self.ids, tag: 0, attempt: 0 };
        self.at(self.now + wait, Ev::Msg(m));
    }

    pub fn put(&mut self, cx: &mut Cx, m: Msg) {
        let d = 1 + cx.below(self.cfg.jitter.max(1)) as u64;
        if self.now < self.cfg.gst {
            if cx.fault("net.drop", self.cfg.drop) {
                if self.cfg.reliable {
                    let mut m = m;
                    m.attempt += 1;
                    self.at(self.now + RTO, Ev::Msg(m));
                }
                return;
            }
            if cx.fault("net.duplicate", self.cfg.dup) {
                let d2 = 1 + cx.below(3 * self.cfg.jitter.max(1)) as u64;
                self.at(self.now + d2, Ev::Msg(m.clone()));
            }
        }
        if d > 50 {
            cx.fired("net.delay");
        }
        self.at(self.now + d, Ev::Msg(m));
    }

    fn cut(&self, a: usize, b: usize) -> Option<u64> {
        self.parts
            .iter()
            .filter(|p| p.from <= self.now && self.now < p.until)
            .find(|p| ((p.side >> (a % 31)) & 1) != ((p.side >> (b % 31)) & 1))
            .map(|p| p.until)
    }

    /// the next event; the clock jumps to it
    pub fn next(&mut self, cx: &mut Cx) -> Option<Ev> {
        while let Some(Reverse((t, _, i))) = self.heap.pop() {
            self.now = self.now.max(t);
            let e = self.slab[i].take().unwrap();
            if let Ev::Msg(m) = &e {
                if let Some(until) = self.cut(m.from, m.to) {
                    cx.fired("net.partitioned");
                    if self.cfg.reliable {
                        let d = 1 + cx.below(self.cfg.jitter.max(1)) as u64;
                        self.at(until + d, e);
                    }
                    continue;
                }
            }
            cx.st.sim_ms = self.now;
            return Some(e);
        }
        None
    }
}
