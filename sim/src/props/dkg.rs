//! C04-C06 and the DKG half of C10, C11, C17: n nodes run the Pedersen DKG, or
//! a resharing, over the simulated network. Next to each node a reference
//! model of what it must conclude about every dealer.
use super::flavor::{p_dl, dl_p, pri, Dl};
use super::vss::{DealOutcome, Model};
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::net::*;
use kyber_rs::share::dkg::pedersen::structs::{Deal, DistKeyShare, Justification, Response};
use kyber_rs::share::dkg::pedersen::{new_dist_key_handler, Config, DistKeyGenerator};
use kyber_rs::share::vss::pedersen::vss as pvss;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::Read;

/// the entropy source a user may plug in
#[derive(Clone, Default, Serialize, Deserialize, PartialEq, Eq, Debug)]
pub struct SimReader {
    pub seed: u64,
    pub fail: bool,
}
impl Read for SimReader {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.fail {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "no entropy"));
        }
        for x in b.iter_mut() {
            self.seed = mix(self.seed);
            *x = self.seed as u8;
        }
        Ok(b.len())
    }
}

pub type Dkg = DistKeyGenerator<S, SimReader>;
pub type Dks = DistKeyShare<S>;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ODeal {
    pub index: u32,
    pub deal: EncDeal,
    pub signature: Vec<u8>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct OResp {
    pub index: u32,
    pub response: Resp,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct OJust {
    pub index: u32,
    pub justification: Just<PDeal>,
}

fn es<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}

#[derive(Clone, Default)]
pub struct Cfg {
    pub byz: u64,
    /// partial or equivocating dealing: agreement is not required then
    pub unclean: bool,
    pub attacker: u64,
    pub crash: u64,
    pub early_timeout: u64,
    pub reliable: bool,
    pub dup: bool,
    /// some nodes do nothing at all
    pub offline: u64,
}

/// one run of the protocol among the participants
pub struct Setup {
    pub resharing: bool,
    pub long: Vec<Sc>,
    /// participants of the old and of the new group
    pub old: Vec<usize>,
    pub new: Vec<usize>,
    pub old_t: usize,
    pub t: usize,
    pub coeffs: Vec<P>,
    pub shares: BTreeMap<usize, Dks>,
    /// do not set the threshold: the default one is to be taken
    pub default_t: bool,
}

#[derive(Clone)]
struct Node {
    d: Dkg,
    /// per dealer
    m: Vec<Model>,
    /// leaving nodes only keep responses, per dealer
    agg: Vec<BTreeMap<usize, bool>>,
    oidx: Option<usize>,
    nidx: Option<usize>,
    out: bool,
    hold: u64,
    pend: VecDeque<Msg>,
    since: Vec<Msg>,
}

pub struct World {
    s: Setup,
    pubs: Vec<P>,
    newp: Vec<P>,
    nodes: Vec<Node>,
    snaps: Vec<(Vec<u8>, Node)>,
    byz: Vec<bool>,
    off: Vec<bool>,
    /// dealer -> recipient -> the deal sent and its encryption
    deals: Vec<BTreeMap<usize, (Dl, Vec<u8>)>>,
    orig: Vec<Vec<Dl>>,
    sids: Vec<Vec<u8>>,
    authentic: BTreeSet<Vec<u8>>,
    cfg: Cfg,
    net: Net,
    clean: bool,
    late: bool,
    /// the old share of a Byzantine dealer was not the one dealt
    other_secret: BTreeSet<usize>,
    pre: bool,
}

pub type Out = BTreeMap<usize, Dks>;

impl World {
    pub fn new(cx: &mut Cx, s: Setup, cfg: Cfg) -> Res<World> {
        let m = s.long.len();
        let pubs: Vec<P> = s.long.iter().map(g).collect();
        let newp: Vec<P> = s.new.iter().map(|i| pubs[*i].clone()).collect();
        let oldp: Vec<P> = s.old.iter().map(|i| pubs[*i].clone()).collect();
        let byz: Vec<bool> = (0..m).map(|_| cx.chance(cfg.byz)).collect();
        let off: Vec<bool> = (0..m).map(|_| cfg.offline > 0 && cx.fault("node.offline", cfg.offline)).collect();
        let mut nodes = vec![];
        for i in 0..m {
            let oidx = s.old.iter().position(|x| *x == i);
            let nidx = s.new.iter().position(|x| *x == i);
            let share = s.shares.get(&i).cloned();
            let c: Config<S, SimReader> = Config {
                suite: suite(),
                longterm: s.long[i].clone(),
                old_nodes: if s.resharing { oldp.clone() } else { vec![] },
                public_coeffs: if s.resharing && (share.is_none() || cx.chance(300)) { Some(s.coeffs.clone()) } else { None },
                new_nodes: newp.clone(),
                share,
                threshold: if s.default_t { 0 } else { s.t },
                old_threshold: if s.resharing { s.old_t } else { 0 },
                reader: None,
                user_reader_only: false,
            };
            let d = match new_dist_key_handler(c) {
                Ok(d) => d,
                Err(e) => return violation("a valid configuration was refused", es(e)),
            };
            let models = match nidx {
                Some(k) => oldp.iter().map(|p| Model::new(false, k, p, &newp, s.t)).collect(),
                None => vec![],
            };
            nodes.push(Node {
                d,
                m: models,
                agg: vec![BTreeMap::new(); oldp.len()],
                oidx,
                nidx,
                out: false,
                hold: 0,
                pend: VecDeque::new(),
                since: vec![],
            });
        }
        let mut net = Net::swarm(cx, m, 3000, cfg.reliable);
        if cfg.dup {
            net.cfg.dup = cx.pick(&[100, 300]);
        }
        Ok(World {
            pubs,
            newp,
            snaps: vec![],
            nodes,
            byz,
            off,
            deals: vec![BTreeMap::new(); s.old.len()],
            orig: vec![],
            sids: vec![],
            authentic: BTreeSet::new(),
            cfg,
            net,
            clean: true,
            late: true,
            other_secret: BTreeSet::new(),
            pre: false,
            s,
        })
    }

    fn n(&self) -> usize {
        self.s.new.len()
    }

    fn honest(&self, i: usize) -> bool {
        !self.byz[i] && !self.off[i]
    }

    fn signed(&mut self, i: usize, dealer: usize, sid: Vec<u8>, idx: usize, ok: bool) -> Vec<u8> {
        let mut r = Resp { session_id: sid, index: idx as u32, ok, signature: vec![] };
        let h = cast::<_, pvss::Response>(&r).hash(&suite()).unwrap();
        r.signature = sign(&self.s.long[i], &h);
        self.authentic.insert(enc(&r));
        enc(&OResp { index: dealer as u32, response: r })
    }

    fn send(&mut self, cx: &mut Cx, from: usize, to: usize, kind: &'static str, b: Vec<u8>) {
        self.attack(cx, from, to, kind, &b);
        self.net.send(cx, from, to, kind, b);
    }

    fn broadcast(&mut self, cx: &mut Cx, from: usize, kind: &'static str, b: &[u8]) {
        for j in 0..self.nodes.len() {
            if j != from {
                self.send(cx, from, j, kind, b.to_vec());
            }
        }
    }

    fn attack(&mut self, cx: &mut Cx, from: usize, to: usize, kind: &'static str, b: &[u8]) {
        if !cx.chance(self.cfg.attacker) {
            return;
        }
        let m = self.nodes.len();
        let mut to = to;
        let v = match kind {
            "resp" => {
                let mut r: OResp = dec(b).unwrap();
                match cx.below(7) {
                    0 => {
                        cx.fired("attack.alter");
                        corrupt(cx, b)
                    }
                    1 => {
                        cx.fired("attack.flip-status");
                        r.response.ok = !r.response.ok;
                        enc(&r)
                    }
                    2 => {
                        cx.fired("attack.relabel-dealer");
                        r.index = cx.pick(&[0, 1, self.s.old.len() as u32 - 1, self.s.old.len() as u32, u32::MAX]);
                        enc(&r)
                    }
                    3 => {
                        cx.fired("attack.other-index");
                        r.response.index = cx.pick(&[0, 1, self.n() as u32 - 1, self.n() as u32, u32::MAX]);
                        enc(&r)
                    }
                    4 => {
                        cx.fired("attack.other-session");
                        r.response.session_id = if cx.chance(300) { vec![] } else { cx.bytes(32) };
                        enc(&r)
                    }
                    5 => {
                        cx.fired("attack.own-key");
                        let k = rand_scalar();
                        r.response.ok = cx.chance(300);
                        if cx.chance(500) {
                            r.response.index = cx.below(self.n()) as u32;
                        }
                        let h = cast::<_, pvss::Response>(&r.response).hash(&suite()).unwrap();
                        r.response.signature = sign(&k, &h);
                        enc(&r)
                    }
                    _ => {
                        cx.fired("attack.redirect");
                        to = cx.below(m);
                        b.to_vec()
                    }
                }
            }
            "deal" => {
                let mut e: ODeal = dec(b).unwrap();
                match cx.below(6) {
                    0 => {
                        cx.fired("attack.alter");
                        corrupt(cx, b)
                    }
                    1 => {
                        cx.fired("attack.relabel-dealer");
                        e.index = cx.pick(&[0, 1, self.s.old.len() as u32 - 1, self.s.old.len() as u32, u32::MAX]);
                        enc(&e)
                    }
                    2 => {
                        cx.fired("attack.alter-cipher");
                        e.deal.cipher = corrupt(cx, &e.deal.cipher);
                        enc(&e)
                    }
                    3 => {
                        cx.fired("attack.alter-signature");
                        e.signature = corrupt(cx, &e.signature);
                        enc(&e)
                    }
                    4 => {
                        cx.fired("attack.resigned");
                        // signed by the adversary's own key
                        let k = rand_scalar();
                        e.signature = vec![];
                        e.signature = sign(&k, &enc(&e));
                        enc(&e)
                    }
                    _ => {
                        cx.fired("attack.redirect");
                        to = cx.below(m);
                        b.to_vec()
                    }
                }
            }
            _ => {
                cx.fired("attack.redirect");
                to = cx.below(m);
                b.to_vec()
            }
        };
        if cx.chance(200) {
            // kept back until the timeouts are over
            cx.fired("attack.delayed");
            let wait = 8000 + cx.below(8000) as u64;
            self.net.send_later(wait, from, to, kind, v);
            return;
        }
        self.net.send(cx, from, to, kind, v);
    }

    /// what a Byzantine dealer does to the deal of one recipient
    fn mutate(&mut self, cx: &mut Cx, dealer: usize, i: usize, alt: &[Dl]) -> Option<Dl> {
        let mut d = self.orig[dealer][i].clone();
        if !self.cfg.unclean || cx.chance(500) {
            match cx.below(3) {
                0 => {
                    cx.fired("byz.deal.share");
                    d.v = d.v + scalar(1);
                }
                1 => {
                    cx.fired("byz.deal.other-share");
                    let j = (i + 1) % self.n();
                    d.v = self.orig[dealer][j].v.clone();
                }
                _ => {
                    cx.fired("byz.deal.zero");
                    d.v = scalar(0);
                }
            }
            return Some(d);
        }
        self.clean = false;
        match cx.below(7) {
            0 => {
                cx.fired("byz.deal.none");
                return None;
            }
            1 => {
                cx.fired("byz.deal.equivocate");
                d = alt[i].clone();
            }
            2 => {
                cx.fired("byz.deal.commitment");
                let j = cx.below(d.commits.len());
                d.commits[j] = g(&rand_scalar());
                if cx.chance(500) {
                    d.sid = vec![];
                }
            }
            3 => {
                cx.fired("byz.deal.threshold");
                d.t = cx.pick(&[0, 1, 2, self.n(), self.n() + 1, usize::MAX]);
                if cx.chance(500) {
                    d.sid = vec![];
                }
            }
            4 => {
                cx.fired("byz.deal.sid");
                d.sid = cx.bytes(32);
            }
            5 => {
                cx.fired("byz.deal.degree");
                if cx.chance(500) {
                    d.commits.pop();
                } else {
                    d.commits.push(null());
                }
                if cx.chance(500) {
                    d.sid = vec![];
                }
            }
            _ => {
                cx.fired("byz.deal.other-index");
                let j = cx.below(self.n());
                d = self.orig[dealer][j].clone();
            }
        }
        if d.sid.is_empty() {
            let p = self.pubs[self.s.old[dealer]].clone();
            d.sid = session_id(&p, &self.newp, &d.commits, d.t);
        }
        Some(d)
    }

    fn start(&mut self, cx: &mut Cx) -> Res {
        let n = self.n();
        // the plain deals as the dealers have them
        for k in 0..self.s.old.len() {
            let i = self.s.old[k];
            if self.byz[i] && self.s.resharing && cx.chance(400) {
                // a resharing dealer with another secret than its share
                cx.fired("byz.deal.other-secret");
                self.other_secret.insert(k);
                self.nodes[i].d.dealer = match pvss::new_dealer(suite(), self.s.long[i].clone(), rand_scalar(), &self.newp, self.s.t) {
                    Ok(d) => d,
                    Err(e) => return violation("a valid configuration was refused", es(e)),
                };
            }
            let d = &mut self.nodes[i].d;
            let mut v = vec![];
            for j in 0..n {
                match d.dealer.plaintext_deal(j) {
                    Ok(x) => v.push(p_dl(cast(&*x))),
                    Err(e) => return violation("a dealer has no deal for a participant", es(e)),
                }
            }
            let sid = v[0].sid.clone();
            // the other nodes must come to the threshold asked for, or the default one
            ensure!(v.iter().all(|x| x.t == self.s.t && x.sid == sid), "a dealer's deals do not belong together", "dealer {k}");
            self.orig.push(v);
            self.sids.push(sid);
        }
        let mut order: Vec<usize> = (0..self.s.old.len()).collect();
        cx.shuffle(&mut order);
        for k in order {
            let i = self.s.old[k];
            if self.off[i] {
                continue;
            }
            let mut dead = BTreeSet::new();
            if self.byz[i] {
                let mut d2 = pvss::new_dealer(suite(), self.s.long[i].clone(), rand_scalar(), &self.newp, self.s.t).expect("dealer");
                let alt: Vec<Dl> = (0..n).map(|j| p_dl(cast(&*d2.plaintext_deal(j).unwrap()))).collect();
                for j in 0..n {
                    let own = self.s.new[j] == i;
                    if own && !self.s.resharing {
                        continue;
                    }
                    if cx.chance(350) {
                        match self.mutate(cx, k, j, &alt) {
                            Some(x) => {
                                *self.nodes[i].d.dealer.plaintext_deal(j).unwrap() = cast(&dl_p(&x));
                            }
                            None => {
                                dead.insert(j);
                            }
                        }
                    }
                }
            }
            let plain: Vec<Dl> = (0..n).map(|j| p_dl(cast(&*self.nodes[i].d.dealer.plaintext_deal(j).unwrap()))).collect();
            let all_silent = self.byz[i] && cx.chance(150);
            if all_silent {
                cx.fired("byz.deal.no-deals");
            }
            let r = self.nodes[i].d.deals();
            let out = match r {
                Ok(o) => o,
                Err(e) => return violation("a node could not make its deals", es(e)),
            };
            let own = self.nodes[i].nidx;
            if !self.s.resharing {
                // the own deal is processed on the way
                let o = own.unwrap();
                let m = &mut self.nodes[i].m[k];
                m.on_deal(&plain[o]);
                ensure!(!out.contains_key(&o), "a node sends its own deal to itself", "node {i}");
            }
            ensure!(
                out.len() == n - (!self.s.resharing) as usize,
                "a participant got no deal",
                "dealer {k}: {} deals for {n} participants",
                out.len()
            );
            let mut js: Vec<usize> = out.keys().copied().collect();
            js.sort();
            for j in js {
                let b = enc(&out[&j]);
                self.deals[k].insert(j, (plain[j].clone(), b.clone()));
                if dead.contains(&j) || all_silent {
                    continue;
                }
                let to = self.s.new[j];
                if to == i && !self.byz[i] && cx.chance(250) {
                    // or it has it sent, and it comes whenever it comes
                    cx.probe("own deal by mail");
                    self.net.send(cx, i, i, "deal", b);
                } else if to == i {
                    // a staying node hands itself its own deal at once
                    let m = Msg { from: i, to: i, kind: "deal", bytes: std::rc::Rc::new(b), id: 0, tag: 0, attempt: 0 };
                    if !self.byz[i] {
                        self.deliver(cx, &m)?;
                    } else {
                        self.byz_deliver(cx, &m)?;
                    }
                } else {
                    self.send(cx, i, to, "deal", b);
                }
            }
        }
        for i in 0..self.nodes.len() {
            let at = if cx.chance(self.cfg.early_timeout) {
                cx.fired("clock.early-timeout");
                self.late = false;
                cx.range(1, 600) as u64
            } else {
                8000 + cx.below(1000) as u64
            };
            self.net.at(at, Ev::Timer { node: i, what: 0 });
        }
        self.snaps = self.nodes.iter().map(|n| (enc(&n.d), n.clone())).collect();
        Ok(())
    }

    /// Byzantine nodes run the code too, and lie about what it says
    fn byz_deliver(&mut self, cx: &mut Cx, m: &Msg) -> Res {
        let i = m.to;
        match m.kind {
            "deal" => {
                let d: Deal<P> = match dec(&m.bytes) {
                    Some(d) => d,
                    None => return Ok(()),
                };
                if let Ok(r) = self.nodes[i].d.process_deal(&d) {
                    let r: OResp = cast(&r);
                    let idx = self.nodes[i].nidx.unwrap();
                    match cx.below(5) {
                        0 => cx.fired("byz.response.none"),
                        1 => {
                            cx.fired("byz.response.complaint");
                            let b = self.signed(i, r.index as usize, r.response.session_id.clone(), idx, false);
                            self.broadcast(cx, i, "resp", &b);
                        }
                        2 => {
                            cx.fired("byz.response.approval");
                            let b = self.signed(i, r.index as usize, r.response.session_id.clone(), idx, true);
                            self.broadcast(cx, i, "resp", &b);
                        }
                        3 if self.cfg.unclean => {
                            cx.fired("byz.response.equivocate");
                            self.clean = false;
                            let a = self.signed(i, r.index as usize, r.response.session_id.clone(), idx, true);
                            let b = self.signed(i, r.index as usize, r.response.session_id.clone(), idx, false);
                            for j in 0..self.nodes.len() {
                                if j != i {
                                    let x = if cx.chance(500) { a.clone() } else { b.clone() };
                                    self.send(cx, i, j, "resp", x);
                                }
                            }
                        }
                        _ => {
                            self.authentic.insert(enc(&r.response));
                            self.broadcast(cx, i, "resp", &enc(&r));
                        }
                    }
                }
            }
            "resp" => {
                let r: Response = match dec(&m.bytes) {
                    Some(d) => d,
                    None => return Ok(()),
                };
                if let Ok(Some(j)) = self.nodes[i].d.process_response(&r) {
                    let mut j: OJust = cast(&j);
                    let k = self.nodes[i].oidx.unwrap();
                    let c = j.justification.index as usize;
                    match cx.below(4) {
                        0 => {
                            cx.fired("byz.just.none");
                            return Ok(());
                        }
                        1 => {
                            cx.fired("byz.just.wrong-share");
                            j.justification.deal.share = pri(c, self.orig[k][c].v.clone() + scalar(1));
                        }
                        2 => {
                            cx.fired("byz.just.right");
                            j.justification.deal = dl_p(&self.orig[k][c]);
                        }
                        _ => {
                            cx.fired("byz.just.as-dealt");
                            j.justification.deal = dl_p(&self.deals[k].get(&c).map(|x| x.0.clone()).unwrap_or(self.orig[k][c].clone()));
                        }
                    }
                    self.broadcast(cx, i, "just", &enc(&j));
                }
            }
            _ => (),
        }
        Ok(())
    }

    fn deliver(&mut self, cx: &mut Cx, m: &Msg) -> Res {
        let i = m.to;
        let before = self.nodes[i].d.clone();
        let mut changed = true;
        let mut pend = false;
        match m.kind {
            "deal" => {
                let d: Deal<P> = match dec(&m.bytes) {
                    Some(d) => d,
                    None => return Ok(()),
                };
                let can = enc(&d);
                let k = d.index as usize;
                let got = self.nodes[i].d.process_deal(&d);
                let issued = match (self.nodes[i].nidx, self.deals.get(k)) {
                    (Some(x), Some(ds)) => ds.get(&x).filter(|y| y.1 == can).map(|y| y.0.clone()),
                    _ => None,
                };
                let mut want = None;
                if let Some(dl) = issued {
                    let s = &self.s;
                    let dealer_new = s.new.iter().position(|x| *x == s.old[k]);
                    let nd = &mut self.nodes[i];
                    if let DealOutcome::Answer { sid, mut ok } = nd.m[k].on_deal(&dl) {
                        let own = nd.nidx.unwrap();
                        if s.resharing && dl.commits.first() != Some(&eval_commits(&s.coeffs, k)) {
                            ok = false;
                            if let Some(x) = dealer_new {
                                nd.m[k].resp.entry(x).or_insert(false);
                            }
                            nd.m[k].resp.insert(own, false);
                        } else if !s.resharing {
                            if let Some(x) = dealer_new {
                                nd.m[k].resp.entry(x).or_insert(true);
                            }
                        }
                        want = Some((sid, ok));
                    }
                }
                cx.ev(format!("{} n{i} deal of {k} -> {}", self.net.now, got.is_ok()));
                match (want, got) {
                    (None, Ok(_)) => return violation("a deal was accepted which must not be", format!("node {i}, dealer {k}")),
                    (None, Err(_)) => changed = false,
                    (Some(_), Err(e)) => return violation("a deal got no answer", format!("node {i}, dealer {k}: {e:?}")),
                    (Some((sid, ok)), Ok(r)) => {
                        let r: OResp = cast(&r);
                        ensure!(
                            r.response.ok == ok,
                            if ok { "a valid deal was complained about" } else { "an invalid deal was approved" },
                            "node {i}, dealer {k}"
                        );
                        ensure!(
                            r.index as usize == k && r.response.session_id == sid && Some(r.response.index as usize) == self.nodes[i].nidx,
                            "the answer is about something else",
                            "node {i}, dealer {k}"
                        );
                        if !ok {
                            cx.probe("complaint");
                        }
                        self.authentic.insert(enc(&r.response));
                        self.broadcast(cx, i, "resp", &enc(&r));
                    }
                }
            }
            "resp" => {
                let r: Response = match dec(&m.bytes) {
                    Some(d) => d,
                    None => return Ok(()),
                };
                let o: OResp = cast(&r);
                let auth = self.authentic.contains(&enc(&o.response));
                let k = o.index as usize;
                let got = self.nodes[i].d.process_response(&r);
                let nd = &mut self.nodes[i];
                let mut want_just = false;
                let idx = o.response.index as usize;
                let want = if nd.nidx.is_none() {
                    // leaving
                    if k >= nd.agg.len() {
                        nd.agg.resize(k.min(1 << 20) + 1, BTreeMap::new());
                    }
                    let ok = auth && idx < self.s.new.len() && nd.agg.get(k).map(|a| !a.contains_key(&idx)).unwrap_or(false);
                    if ok {
                        nd.agg[k].insert(idx, o.response.ok);
                        want_just = !o.response.ok && Some(k) == nd.oidx;
                    }
                    // an outer index beyond all: whatever
                    ok || (k >= self.s.old.len() && got.is_ok())
                } else if k >= nd.m.len() {
                    false
                } else {
                    let early = nd.m[k].deal.is_none();
                    // ahead of the own deal, complaints about it have to wait, and the
                    // others must be about it
                    let mine = nd.oidx == Some(k) && (self.s.shares.contains_key(&i) || !self.s.resharing);
                    let wait = early && mine && (!o.response.ok || o.response.session_id != self.orig[k][0].sid);
                    let ok = !wait && nd.m[k].on_resp(&o.response, auth);
                    if ok && !o.response.ok && nd.oidx == Some(k) && self.s.shares.contains_key(&i) | !self.s.resharing {
                        want_just = true;
                        // justified at once in the own view
                        nd.m[k].on_just(idx, &self.orig[k][idx]);
                    }
                    pend = !ok && auth && early;
                    ok
                };
                cx.ev(format!("{} n{i} resp of {idx} about {k}: {} auth={auth} -> {:?}", self.net.now, o.response.ok, got.as_ref().map(|x| x.is_some()).map_err(|_| ())));
                ensure!(
                    got.is_ok() == want,
                    if want { "a genuine response was refused" } else { "a response was accepted which must not be" },
                    "node {i}: response of {idx} about dealer {k}, ok={} authentic={auth}: {:?}",
                    o.response.ok,
                    got.err()
                );
                changed = want;
                if let Ok(j) = got {
                    ensure!(
                        j.is_some() == want_just,
                        "a complaint and its justification do not go together",
                        "node {i}: response of {idx} about dealer {k}: ok={}, justification {}",
                        o.response.ok,
                        j.is_some()
                    );
                    if let Some(j) = j {
                        let o: OJust = cast(&j);
                        ensure!(
                            o.index as usize == k && o.justification.index as usize == idx && p_dl(o.justification.deal.clone()) == self.orig[k][idx],
                            "the justification reveals another deal",
                            "node {i}: complaint of {idx} answered with the deal of {}",
                            o.justification.deal.share.i
                        );
                        self.broadcast(cx, i, "just", &enc(&j));
                    }
                }
            }
            "just" => {
                let j: Justification<S> = match dec(&m.bytes) {
                    Some(d) => d,
                    None => return Ok(()),
                };
                let o: OJust = cast(&j);
                let (k, idx) = (o.index as usize, o.justification.index as usize);
                let dl = p_dl(o.justification.deal.clone());
                let got = self.nodes[i].d.process_justification(&j);
                let resharing_other = self.s.resharing && k < self.s.old.len() && dl.commits.first() != Some(&eval_commits(&self.s.coeffs, k));
                let nd = &mut self.nodes[i];
                let mut want = false;
                changed = false;
                if nd.nidx.is_some() && k < nd.m.len() && !resharing_other {
                    changed = nd.m[k].just_counts(idx);
                    pend = !changed;
                    want = nd.m[k].on_just(idx, &dl);
                }
                cx.ev(format!("{} n{i} just {idx} by {k} counts={changed} -> {}", self.net.now, got.is_ok()));
                ensure!(
                    got.is_ok() == want,
                    if want { "a right justification was refused" } else { "a justification was accepted which must not be" },
                    "node {i}: dealer {k}, complaint of {idx}: {got:?}"
                );
                if changed {
                    cx.probe(if want { "complaint justified" } else { "dealer flagged by its justification" });
                }
            }
            _ => (),
        }
        if !changed {
            ensure!(same(&self.nodes[i].d, &before) || (m.kind == "resp" && self.nodes[i].nidx.is_none()), "a refused message changed the node", "node {i}: {}", m.kind);
        }
        self.compare(cx, i)?;
        if pend {
            let nd = &mut self.nodes[i];
            if !nd.pend.iter().any(|x| x.id == m.id) {
                nd.pend.push_back(m.clone());
            }
        }
        Ok(())
    }

    fn flush(&mut self, cx: &mut Cx, i: usize) -> Res {
        let k = self.nodes[i].pend.len();
        for _ in 0..k {
            let m = match self.nodes[i].pend.pop_front() {
                Some(m) => m,
                None => break,
            };
            let useful = match m.kind {
                "resp" => dec::<OResp>(&m.bytes).map(|o| self.nodes[i].m.get(o.index as usize).map(|x| x.deal.is_some()).unwrap_or(false)).unwrap_or(false),
                _ => dec::<OJust>(&m.bytes)
                    .map(|o| self.nodes[i].m.get(o.index as usize).map(|x| x.just_counts(o.justification.index as usize)).unwrap_or(false))
                    .unwrap_or(false),
            };
            if useful {
                cx.probe("early message retried");
                self.deliver(cx, &m)?;
            } else {
                self.nodes[i].pend.push_back(m);
            }
        }
        Ok(())
    }

    fn qual(&self, i: usize) -> BTreeSet<usize> {
        self.nodes[i].m.iter().enumerate().filter(|(_, m)| m.certified()).map(|x| x.0).collect()
    }

    fn compare(&mut self, cx: &mut Cx, i: usize) -> Res {
        cx.st.checks += 1;
        let nd = &self.nodes[i];
        if nd.nidx.is_none() {
            return Ok(());
        }
        let want = self.qual(i);
        let got: Vec<usize> = nd.d.qual();
        let gots: BTreeSet<usize> = got.iter().copied().collect();
        ensure!(
            gots == want && got.len() == want.len(),
            "the qualified set differs from the messages received",
            "node {i}: {gots:?}, expected {want:?}"
        );
        let need = if self.s.resharing { self.s.old_t } else { self.s.t };
        for k in 0..self.s.old.len() {
            ensure!(nd.d.is_in_qual(k as u32) == want.contains(&k), "a dealer is in the qualified set or not, depending on how one asks", "node {i}, dealer {k}: {want:?}");
        }
        ensure!(
            nd.d.threshold_certified() == (want.len() >= need),
            "the threshold certification is wrong",
            "node {i}: {} qualified, {need} needed",
            want.len()
        );
        let full = nd.m.iter().filter(|m| m.certified() && m.resp.len() == self.n()).count();
        ensure!(
            nd.d.certified() == (full >= nd.m.len()),
            "the certification is wrong",
            "node {i}: certified()={}, {full} complete of {}",
            nd.d.certified(),
            nd.m.len()
        );
        let mut h = fnv(0, &[i as u8]);
        for q in &want {
            h = fnv(h, &[*q as u8]);
        }
        for m in &nd.m {
            h = fnv(h, &[m.resp.len() as u8, m.deal.is_some() as u8]);
        }
        cx.state(h);
        if cx.chance(20) {
            self.key_of(cx, i)?;
        }
        Ok(())
    }

    /// the key share of a node against the sum of the certified deals
    fn key_of(&self, cx: &mut Cx, i: usize) -> Res<Option<Dks>> {
        let nd = &self.nodes[i];
        let got = nd.d.dist_key_share();
        cx.st.checks += 1;
        if nd.nidx.is_none() {
            ensure!(got.is_err(), "a node which is not in the group got a share", "node {i}");
            return Ok(None);
        }
        let q = self.qual(i);
        let need = if self.s.resharing { self.s.old_t } else { self.s.t };
        let all = q.iter().all(|k| nd.m[*k].own().is_some());
        let want = q.len() >= need && all;
        ensure!(
            got.is_ok() == want,
            if want { "no key share though enough deals are certified" } else { "a key share without enough certified deals" },
            "node {i}: {} certified, {need} needed: {:?}",
            q.len(),
            got.err()
        );
        let ks = match got {
            Ok(k) => k,
            Err(_) => return Ok(None),
        };
        cx.probe("key share");
        ensure!(ks.share.i == nd.nidx.unwrap(), "a key share with another's index", "node {i}: {}", ks.share.i);
        ensure!(ks.commits.len() == self.s.t, "a key of another threshold", "node {i}: {} commitments, t={}", ks.commits.len(), self.s.t);
        ensure!(eval_commits(&ks.commits, ks.share.i) == g(&ks.share.v), "a key share which is not on the public polynomial", "node {i}");
        if !self.s.resharing {
            let mut v = scalar(0);
            let mut c = vec![null(); self.s.t];
            for k in &q {
                let d = nd.m[*k].own().unwrap();
                v = v + d.v.clone();
                for (a, b) in c.iter_mut().zip(&d.commits) {
                    *a = add(a, b);
                }
            }
            ensure!(v == ks.share.v && c == ks.commits, "a key share which is not the sum of the certified deals", "node {i}: qualified {q:?}");
        } else {
            ensure!(ks.public() == self.s.coeffs[0], "the resharing changed the public key", "node {i}");
        }
        Ok(Some(ks))
    }

    fn crash(&mut self, cx: &mut Cx, i: usize) -> Res {
        if self.byz[i] || self.off[i] {
            return Ok(());
        }
        if cx.chance(600) {
            cx.fired("crash.node");
            let again: Dkg = restarted(&self.nodes[i].d, format!("node {i}"))?;
            if cx.chance(150) {
                // asked for its deals once more, it answers as it would have
                let (mut a, mut b) = (self.nodes[i].d.clone(), again.clone());
                let f = |d: &mut Dkg| d.deals().map(|m| m.keys().copied().collect::<BTreeSet<usize>>()).map_err(es);
                let (x, y) = (f(&mut a), f(&mut b));
                ensure!(x == y, "what starts again behaves differently", "node {i}: deals(): {x:?}, then {y:?}");
            }
            self.nodes[i].d = again;
        } else {
            cx.fired("crash.node-rollback");
            torn(cx, &self.nodes[i].d)?;
            let since = std::mem::take(&mut self.nodes[i].since);
            let out = self.nodes[i].out;
            let (b, n) = &self.snaps[i];
            let d = match dec::<Dkg>(b) {
                Some(d) => d,
                None => return violation("a saved node does not load", format!("node {i}")),
            };
            self.nodes[i] = Node { d, ..n.clone() };
            self.nodes[i].since = vec![];
            self.nodes[i].hold = self.net.now + 2000;
            if out {
                self.net.timer(2000, i, 0);
            }
            for m in since {
                self.net.put(cx, m);
            }
        }
        self.compare(cx, i)
    }

    fn snapshot(&mut self, i: usize) {
        self.nodes[i].since.clear();
        self.snaps[i] = (enc(&self.nodes[i].d), self.nodes[i].clone());
    }

    pub fn run(&mut self, cx: &mut Cx) -> Res<Out> {
        self.start(cx)?;
        let mut steps = 0;
        while let Some(e) = self.net.next(cx) {
            steps += 1;
            if steps > 20000 {
                break;
            }
            match e {
                Ev::Msg(m) => {
                    cx.step(m.kind, m.from, m.to);
                    let i = m.to;
                    if self.off[i] {
                        continue;
                    }
                    if self.byz[i] {
                        self.byz_deliver(cx, &m)?;
                        continue;
                    }
                    self.deliver(cx, &m)?;
                    self.flush(cx, i)?;
                    self.nodes[i].since.push(m);
                }
                Ev::Timer { node, .. } => {
                    cx.step("timeout", node, 0);
                    if self.net.now >= 8000 && !self.pre {
                        self.pre = true;
                        self.before_timeout(cx)?;
                    }
                    if self.net.now < self.nodes[node].hold && self.net.now >= 8000 {
                        let h = self.nodes[node].hold;
                        self.net.at(h, Ev::Timer { node, what: 0 });
                        continue;
                    }
                    if self.honest(node) {
                        let nd = &mut self.nodes[node];
                        nd.d.set_timeout();
                        nd.out = true;
                        for m in &mut nd.m {
                            m.on_timeout();
                        }
                        self.compare(cx, node)?;
                    }
                }
            }
            if cx.crash(self.cfg.crash) {
                let i = cx.below(self.nodes.len());
                self.crash(cx, i)?;
            }
            if self.cfg.crash > 0 && cx.chance(40) {
                let i = cx.below(self.nodes.len());
                self.snapshot(i);
            }
        }
        self.end(cx)
    }

    fn faultless(&self) -> bool {
        (0..self.nodes.len()).all(|i| self.honest(i))
    }

    /// everybody did its part and everything arrived: no timeout is needed
    fn before_timeout(&mut self, cx: &mut Cx) -> Res {
        if !(self.cfg.reliable && self.late && self.faultless() && self.cfg.attacker == 0 && self.cfg.crash == 0) {
            return Ok(());
        }
        for i in 0..self.nodes.len() {
            if self.nodes[i].nidx.is_some() {
                cx.probe("certified before the timeout");
                ensure!(self.nodes[i].d.certified(), "not certified though all nodes did their part", "node {i}: {:?}", self.nodes[i].d.qual());
            } else {
                ensure!(self.nodes[i].d.certified(), "a leaving node does not see the resharing done", "node {i}");
            }
        }
        Ok(())
    }

    fn end(&mut self, cx: &mut Cx) -> Res<Out> {
        let mut out: Out = BTreeMap::new();
        let mut hold = 0;
        for i in 0..self.nodes.len() {
            if !self.honest(i) {
                continue;
            }
            self.compare(cx, i)?;
            if let Some(ks) = self.key_of(cx, i)? {
                out.insert(i, ks);
            }
            if self.nodes[i].nidx.is_some() {
                hold += 1;
                for (k, m) in self.nodes[i].m.iter().enumerate() {
                    if self.honest(self.s.old[k]) {
                        ensure!(!m.bad, "an honest dealer was found bad", "node {i}, dealer {k}");
                    }
                }
                self.qualified_shares(i)?;
            }
        }
        // same qualified deals, same key
        let view = |i: usize| -> Vec<(usize, Vec<u8>)> { self.qual(i).into_iter().map(|k| (k, self.nodes[i].m[k].sid.clone())).collect() };
        let ids: Vec<usize> = out.keys().copied().collect();
        for a in &ids {
            for b in &ids {
                if a < b && view(*a) == view(*b) {
                    ensure!(out[a].commits == out[b].commits, "same qualified dealers, different keys", "nodes {a} and {b}: {:?}", self.qual(*a));
                }
            }
        }
        // agreement: every message was broadcast and arrived in time
        let sync = self.clean && self.cfg.reliable && self.cfg.attacker == 0;
        if sync {
            cx.probe("agreement required");
            for a in &ids {
                ensure!(self.qual(*a) == self.qual(ids[0]), "honest nodes disagree on the qualified set", "nodes {a} and {}: {:?} {:?}", ids[0], self.qual(*a), self.qual(ids[0]));
                ensure!(out[a].commits == out[&ids[0]].commits, "honest nodes disagree on the key", "nodes {a} and {}", ids[0]);
            }
            for k in &self.other_secret {
                for a in &ids {
                    ensure!(!self.qual(*a).contains(k), "a resharing of another secret was qualified", "node {a}, dealer {k}");
                }
            }
            // progress
            let dealers = self.s.old.iter().filter(|i| self.honest(**i)).count();
            let need = if self.s.resharing { self.s.old_t } else { self.s.t };
            if hold >= self.s.t && dealers >= need {
                cx.probe("progress required");
                for i in 0..self.nodes.len() {
                    if self.honest(i) && self.nodes[i].nidx.is_some() {
                        ensure!(out.contains_key(&i), "an honest node got no key share", "node {i}: {hold} honest holders, t={}, {dealers} honest dealers, {need} needed", self.s.t);
                        for (k, d) in self.s.old.iter().enumerate() {
                            if self.honest(*d) {
                                ensure!(self.qual(i).contains(&k), "an honest dealer is not qualified", "node {i}, dealer {k}");
                            }
                        }
                    }
                }
            }
            // the secret behind the key
            if ids.len() >= self.s.t {
                let mut sh: Vec<(usize, Sc)> = out.values().map(|k| (k.share.i, k.share.v.clone())).collect();
                cx.shuffle(&mut sh);
                sh.truncate(self.s.t);
                let sec = interpolate(&sh).unwrap();
                ensure!(g(&sec) == out[&ids[0]].public(), "t shares do not make the key", "t={}", self.s.t);
                if !self.s.resharing {
                    let mut want = scalar(0);
                    for k in self.qual(ids[0]) {
                        let v: Vec<(usize, Sc)> = self.orig[k][..self.s.t].iter().map(|d| (d.i, d.v.clone())).collect();
                        want = want + interpolate(&v).unwrap();
                    }
                    ensure!(sec == want, "the secret is not the sum of the qualified dealers' secrets", "t={}", self.s.t);
                }
                cx.probe("secret recovered");
            }
        }
        Ok(out)
    }

    fn qualified_shares(&self, i: usize) -> Res {
        let nd = &self.nodes[i];
        let mut want: BTreeSet<usize> = (0..self.n()).collect();
        for m in &nd.m {
            let bad = m.resp.is_empty() || m.resp.values().any(|x| !x);
            if !bad {
                for h in 0..self.n() {
                    if !m.resp.contains_key(&h) {
                        want.remove(&h);
                    }
                }
            }
        }
        let got: BTreeSet<usize> = nd.d.qualified_shares().into_iter().collect();
        ensure!(got == want, "the qualified share holders differ from the messages received", "node {i}: {got:?}, expected {want:?}");
        Ok(())
    }
}

pub fn fresh_setup(cx: &mut Cx, lo: usize, hi: usize) -> Setup {
    let n = cx.people(lo, hi);
    let default_t = cx.chance(150) && n >= 3;
    let t = if default_t { (n + 1) / 2 } else { cx.range(2, n) };
    let (long, _) = keypairs(n);
    Setup {
        resharing: false,
        long,
        old: (0..n).collect(),
        new: (0..n).collect(),
        old_t: t,
        t,
        coeffs: vec![],
        shares: BTreeMap::new(),
        default_t,
    }
}

fn fresh(cx: &mut Cx, cfg: Cfg) -> Res {
    let s = fresh_setup(cx, 3, 5);
    World::new(cx, s, cfg)?.run(cx)?;
    Ok(())
}

pub fn agreement(cx: &mut Cx) -> Res {
    let byz = cx.pick(&[0, 150, 350]);
    let offline = cx.pick(&[0, 0, 100]);
    let crash = cx.pick(&[0, 0, 20, 60]);
    fresh(cx, Cfg { byz, offline, crash, reliable: true, ..Default::default() })
}

/// loss, early timeouts, equivocation: whatever is concluded must follow from
/// what was received
pub fn adverse(cx: &mut Cx) -> Res {
    let byz = cx.pick(&[0, 200, 400]);
    let early_timeout = cx.pick(&[0, 300]);
    let crash = cx.pick(&[0, 40]);
    let reliable = cx.chance(400);
    fresh(cx, Cfg { byz, unclean: true, early_timeout, crash, reliable, ..Default::default() })
}

pub fn progress(cx: &mut Cx) -> Res {
    let byz = cx.pick(&[0, 0, 150, 300]);
    let offline = cx.pick(&[0, 0, 200]);
    let crash = cx.pick(&[0, 0, 50]);
    let dup = cx.chance(300);
    let early_timeout = cx.pick(&[0, 0, 300]);
    fresh(cx, Cfg { byz, offline, crash, early_timeout, reliable: true, dup, ..Default::default() })
}

pub fn attacked(cx: &mut Cx) -> Res {
    let attacker = cx.pick(&[100, 300]);
    let byz = cx.pick(&[0, 0, 150]);
    let offline = cx.pick(&[0, 0, 200]);
    fresh(cx, Cfg { byz, offline, attacker, reliable: true, ..Default::default() })
}

pub fn crashing(cx: &mut Cx) -> Res {
    let crash = cx.pick(&[60, 200]);
    let byz = cx.pick(&[0, 0, 150]);
    fresh(cx, Cfg { byz, crash, reliable: true, ..Default::default() })
}

pub fn duplicated(cx: &mut Cx) -> Res {
    let byz = cx.pick(&[0, 0, 200]);
    fresh(cx, Cfg { byz, dup: true, reliable: true, ..Default::default() })
}

/// key shares made by the harness, as a DKG would have left them
pub fn made_key(n: usize, t: usize, secret: Option<Sc>) -> (Vec<P>, Vec<Dks>, Sc) {
    let mut f: Vec<Sc> = (0..t).map(|_| rand_scalar()).collect();
    if let Some(s) = secret {
        f[0] = s;
    }
    let commits: Vec<P> = f.iter().map(g).collect();
    let shares = (0..n)
        .map(|i| {
            let x = scalar(i as i64 + 1);
            let mut v = scalar(0);
            for c in f.iter().rev() {
                v = v * x.clone() + c.clone();
            }
            let mut k = Dks::default();
            k.commits = commits.clone();
            k.share = pri(i, v);
            k.private_poly = f.clone();
            k
        })
        .collect();
    (commits, shares, f[0].clone())
}

/// C06: a key goes through resharings and renewals
pub fn history(cx: &mut Cx, cfg: impl Fn(&mut Cx) -> Cfg) -> Res {
    let n0 = cx.people(2, 4);
    let t0 = cx.range(2, n0);
    let (coeffs, shares, secret) = made_key(n0, t0, None);
    let key = coeffs[0].clone();
    // key material of everybody who may ever take part
    let (long, pubs) = keypairs(16);
    let mut group: Vec<usize> = (0..n0).collect();
    let mut t = t0;
    let mut coeffs = coeffs;
    let mut hold: BTreeMap<usize, Dks> = shares.into_iter().enumerate().collect();
    let rounds = cx.range(1, 3);
    for round in 0..rounds {
        if cx.chance(300) {
            renewal(cx, &group, t, &mut hold, &mut coeffs, &key)?;
            cx.probe("renewed");
        }
        // the next group
        let k = cx.people(2, 4);
        let mut pool: Vec<usize> = (0..long.len()).collect();
        let stay = cx.chance(600);
        if !stay {
            cx.shuffle(&mut pool);
        } else {
            // mostly the same people
            let mut p = group.clone();
            cx.shuffle(&mut p);
            pool.retain(|x| !p.contains(x));
            let cut = cx.below(p.len() + 1);
            p.truncate(p.len() - cut.min(p.len() - 1));
            p.extend(pool);
            pool = p;
        }
        let new: Vec<usize> = pool[..k].to_vec();
        let t2 = cx.range(2, k);
        // the participants: old group first, then the newcomers
        let mut all: Vec<usize> = group.clone();
        for x in &new {
            if !all.contains(x) {
                all.push(*x);
            }
        }
        let at = |x: usize| all.iter().position(|y| *y == x).unwrap();
        let s = Setup {
            resharing: true,
            long: all.iter().map(|x| long[*x].clone()).collect(),
            old: group.iter().map(|x| at(*x)).collect(),
            new: new.iter().map(|x| at(*x)).collect(),
            old_t: t,
            t: t2,
            coeffs: coeffs.clone(),
            shares: hold.iter().map(|(x, k)| (at(*x), k.clone())).collect(),
            default_t: false,
        };
        let _ = &pubs;
        let c = cfg(cx);
        cx.ev(format!("round {round}: {} of {} -> {t2} of {k}", t, group.len()));
        let mut w = World::new(cx, s, c)?;
        let out = w.run(cx)?;
        if out.len() < new.len() {
            // not everybody has a share: the history ends here
            return Ok(());
        }
        let c0 = out.values().next().unwrap().commits.clone();
        if !out.values().all(|k| k.commits == c0) {
            return Ok(());
        }
        cx.probe("reshared");
        hold = new.iter().map(|x| (*x, out[&at(*x)].clone())).collect();
        group = new;
        t = t2;
        coeffs = c0;
        ensure!(coeffs[0] == key, "the history changed the public key", "round {round}");
        let mut sh: Vec<(usize, Sc)> = hold.values().map(|k| (k.share.i, k.share.v.clone())).collect();
        cx.shuffle(&mut sh);
        sh.truncate(t);
        ensure!(interpolate(&sh).unwrap() == secret, "the history changed the secret", "round {round}");
    }
    Ok(())
}

fn renewal(cx: &mut Cx, group: &[usize], t: usize, hold: &mut BTreeMap<usize, Dks>, coeffs: &mut Vec<P>, key: &P) -> Res {
    let n = group.len();
    let (_, zero, _) = made_key(n, t, Some(scalar(0)));
    // wrong ones are refused and change nothing
    if cx.chance(600) {
        let k = cx.below(n);
        let x = group[k];
        let (what, g2) = match cx.below(4) {
            0 => {
                cx.fired("renewal.nonzero-secret");
                ("of another secret than zero", made_key(n, t, None).1[k].clone())
            }
            1 => {
                cx.fired("renewal.other-index");
                let mut z = zero[k].clone();
                z.share.i = (k + 1) % n;
                ("of another party", z)
            }
            2 => {
                cx.fired("renewal.other-degree");
                ("of another degree", made_key(n, t + 1, Some(scalar(0))).1[k].clone())
            }
            _ => {
                cx.fired("renewal.lower-degree");
                ("of another degree", made_key(n, t - 1, Some(scalar(0))).1[k].clone())
            }
        };
        ensure!(hold[&x].renew(suite(), g2).is_err(), "a wrong renewal was accepted", "a renewal {what}");
    }
    let mut next = BTreeMap::new();
    for (k, x) in group.iter().enumerate() {
        let old = &hold[x];
        match old.renew(suite(), zero[k].clone()) {
            Ok(r) => {
                ensure!(r.public() == *key, "a renewal changed the public key", "holder {k}");
                ensure!(eval_commits(&r.commits, k) == g(&r.share.v) && r.share.i == k, "a renewed share is not on the public polynomial", "holder {k}");
                ensure!(r.share.v != old.share.v, "a renewed share is the old one", "holder {k}");
                next.insert(*x, r);
            }
            Err(e) => return violation("a renewal was refused", es(e)),
        }
    }
    cx.fired("renewal");
    *coeffs = next.values().next().unwrap().commits.clone();
    *hold = next;
    Ok(())
}

pub fn reshare_quiet(cx: &mut Cx) -> Res {
    history(cx, |cx| {
        let crash = cx.pick(&[0, 0, 40]);
        let offline = cx.pick(&[0, 0, 120]);
        Cfg { crash, offline, reliable: true, ..Default::default() }
    })
}

pub fn reshare_byzantine(cx: &mut Cx) -> Res {
    history(cx, |cx| {
        let byz = cx.pick(&[100, 250]);
        let crash = cx.pick(&[0, 0, 40]);
        let unclean = cx.chance(250);
        Cfg { byz, crash, unclean, reliable: true, ..Default::default() }
    })
}

pub fn reshare_adverse(cx: &mut Cx) -> Res {
    history(cx, |cx| {
        let byz = cx.pick(&[0, 200]);
        let early_timeout = cx.pick(&[0, 200]);
        let attacker = cx.pick(&[0, 0, 150]);
        let reliable = cx.chance(500);
        Cfg { byz, early_timeout, attacker, reliable, dup: cx.chance(300), ..Default::default() }
    })
}

pub fn reshare_attacked(cx: &mut Cx) -> Res {
    history(cx, |cx| {
        let attacker = cx.pick(&[100, 300]);
        let byz = cx.pick(&[0, 0, 150]);
        Cfg { byz, attacker, reliable: true, ..Default::default() }
    })
}

pub fn reshare_crashing(cx: &mut Cx) -> Res {
    history(cx, |cx| {
        let crash = cx.pick(&[60, 200]);
        let byz = cx.pick(&[0, 0, 150]);
        Cfg { byz, crash, reliable: true, ..Default::default() }
    })
}

pub fn reshare_duplicated(cx: &mut Cx) -> Res {
    history(cx, |cx| {
        let byz = cx.pick(&[0, 0, 200]);
        Cfg { byz, dup: true, reliable: true, ..Default::default() }
    })
}
