//! C01-C03, and the sharing half of C10, C11 and C17: a dealer and n verifiers
//! (of either scheme) over the simulated network, each verifier next to a
//! reference model which is told the same messages.
use super::flavor::*;
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::net::*;
use kyber_rs::{Group, Point};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;

/// what a correct verifier must conclude from the messages it was given
#[derive(Clone)]
pub struct Model {
    rabin: bool,
    idx: usize,
    dealer: P,
    vs: Vec<P>,
    h: Option<P>,
    t: usize,
    pub sid: Vec<u8>,
    commits: Vec<P>,
    pub deal: Option<Dl>,
    pub bad: bool,
    timeout: bool,
    pub resp: BTreeMap<usize, bool>,
    early: BTreeMap<usize, Vec<u8>>,
}

pub enum DealOutcome {
    Rejected,
    Answer { sid: Vec<u8>, ok: bool },
}

impl Model {
    pub fn new(rabin: bool, idx: usize, dealer: &P, vs: &[P], t: usize) -> Model {
        Model {
            rabin,
            idx,
            dealer: dealer.clone(),
            vs: vs.to_vec(),
            h: if rabin { Some(second_base(vs)) } else { None },
            t,
            sid: vec![],
            commits: vec![],
            deal: None,
            bad: false,
            timeout: false,
            resp: BTreeMap::new(),
            early: BTreeMap::new(),
        }
    }

    fn n(&self) -> usize {
        self.vs.len()
    }

    /// a deal of this session, with a share on its committed polynomial
    pub fn valid(&self, d: &Dl) -> bool {
        if d.t < 2 || d.t > self.n() || (!self.rabin && d.t != self.t) || d.sid != self.sid {
            return false;
        }
        if d.commits != self.commits || d.commits.len() != d.t || d.i >= self.n() {
            return false;
        }
        let want = eval_commits(&d.commits, d.i);
        let got = match (&d.rnd, &self.h) {
            (Some((ri, rv)), Some(h)) => {
                if *ri != d.i {
                    return false;
                }
                add(&g(&d.v), &suite().point().mul(rv, Some(h)))
            }
            _ => g(&d.v),
        };
        got == want
    }

    pub fn on_deal(&mut self, d: &Dl) -> DealOutcome {
        if d.i != self.idx || self.deal.is_some() {
            return DealOutcome::Rejected;
        }
        self.deal = Some(d.clone());
        self.sid = d.sid.clone();
        self.commits = d.commits.clone();
        if self.t == 0 {
            self.t = d.t;
        }
        // what came ahead of the deal about another one does not count
        let early = std::mem::take(&mut self.early);
        for (i, s) in early {
            if s != self.sid {
                self.resp.remove(&i);
            }
        }
        let mut ok = self.valid(d);
        let sid = session_id(&self.dealer, &self.vs, &d.commits, d.t);
        if sid != d.sid {
            ok = false;
            self.bad = true;
        }
        self.resp.insert(self.idx, ok);
        DealOutcome::Answer { sid, ok }
    }

    pub fn on_resp(&mut self, r: &Resp, authentic: bool) -> bool {
        let i = r.index as usize;
        if !authentic || i >= self.n() || self.resp.contains_key(&i) {
            return false;
        }
        if self.deal.is_none() && (self.rabin || i == self.idx) {
            return false;
        }
        if self.deal.is_some() && r.session_id != self.sid {
            return false;
        }
        if self.deal.is_none() {
            self.early.insert(i, r.session_id.clone());
        }
        self.resp.insert(i, r.ok);
        true
    }

    pub fn on_just(&mut self, i: usize, d: &Dl) -> bool {
        if i >= self.n() || self.resp.get(&i) != Some(&false) || self.deal.is_none() {
            return false;
        }
        if d.i == i && self.valid(d) {
            self.resp.insert(i, true);
            if i == self.idx {
                self.deal = Some(d.clone());
            }
            true
        } else {
            self.bad = true;
            false
        }
    }

    /// would this justification be looked at at all?
    pub fn just_counts(&self, i: usize) -> bool {
        i < self.n() && self.resp.get(&i) == Some(&false) && self.deal.is_some()
    }

    pub fn on_timeout(&mut self) {
        if self.rabin {
            if self.deal.is_some() {
                for i in 0..self.n() {
                    self.resp.entry(i).or_insert(false);
                }
            }
        } else {
            self.timeout = true;
        }
    }

    pub fn certified(&self) -> bool {
        let approvals = self.resp.values().filter(|x| **x).count();
        let absent = self.n() - self.resp.len();
        if self.bad || approvals < self.t || self.t == 0 {
            return false;
        }
        if self.rabin {
            return absent == 0;
        }
        if approvals != self.resp.len() {
            return false;
        }
        absent == 0 || (self.timeout && absent <= self.n() - self.t)
    }

    pub fn own(&self) -> Option<&Dl> {
        if self.certified() {
            self.deal.as_ref()
        } else {
            None
        }
    }

    fn known_t(&self) -> bool {
        self.t != 0
    }

    fn hash(&self) -> u64 {
        let mut h = fnv(0, &[self.idx as u8, self.deal.is_some() as u8, self.bad as u8, self.timeout as u8, self.certified() as u8]);
        for (i, b) in &self.resp {
            h = fnv(h, &[*i as u8, *b as u8]);
        }
        h
    }
}

pub const AUTH: u32 = 0;
const DEAL: u32 = 0x1000;

#[derive(Clone, Default)]
pub struct Cfg {
    pub byz_dealer: bool,
    /// permille: a verifier is Byzantine
    pub byz_ver: u64,
    pub attacker: u64,
    pub crash: u64,
    pub early_timeout: u64,
    /// lost messages are sent again
    pub reliable: bool,
    pub dup: bool,
}

struct VNode<V: Vss> {
    v: V::Ver,
    m: Model,
    pend: VecDeque<(Msg, u32)>,
    // the snapshot on disk and what was received since
    snap: Vec<u8>,
    snap_m: Model,
    since: Vec<Msg>,
    snap_pend: VecDeque<(Msg, u32)>,
    out: bool,
    hold: u64,
}

struct World<V: Vss> {
    n: usize,
    long: Vec<Sc>,
    vs: Vec<P>,
    dpub: P,
    dlong: Sc,
    d: V::Dealer,
    dsnap: Vec<u8>,
    dseen: BTreeMap<usize, bool>,
    dseen_snap: BTreeMap<usize, bool>,
    dsince: Vec<Msg>,
    dout: bool,
    dhold: u64,
    sid: Vec<u8>,
    orig: Vec<Dl>,
    deals: Vec<Dl>,
    encs: Vec<(usize, Vec<u8>, usize)>,
    authentic: BTreeSet<Vec<u8>>,
    byz: Vec<bool>,
    nodes: Vec<VNode<V>>,
    cfg: Cfg,
    net: Net,
    other_resp: Vec<Vec<u8>>,
    alt: Vec<Dl>,
    answered: BTreeSet<usize>,
    flagged: BTreeSet<usize>,
    /// the Byzantine dealer takes one wrong answer back
    second_thoughts: bool,
    equivocates: bool,
    late: bool,
}

fn mutate<V: Vss>(cx: &mut Cx, orig: &[Dl], alt: &[Dl], i: usize) -> Option<(Dl, &'static str)> {
    let mut d = orig[i].clone();
    let n = orig.len();
    let k = cx.below(13);
    let name = match k {
        0 => {
            d.v = d.v + scalar(1 + cx.below(3) as i64);
            "byz.deal.share"
        }
        1 => {
            let j = cx.below(d.commits.len());
            d.commits[j] = g(&rand_scalar());
            "byz.deal.commitment"
        }
        2 => {
            let j = cx.below(d.commits.len());
            d.commits[j] = g(&rand_scalar());
            "byz.deal.commitment+sid"
        }
        3 => {
            d.commits.pop();
            "byz.deal.short"
        }
        4 => {
            d.commits.push(if cx.chance(500) { null() } else { g(&rand_scalar()) });
            "byz.deal.long"
        }
        5 => {
            d.t = cx.pick(&[0, 1, n + 1, usize::MAX, d.t + 1, d.t.saturating_sub(1), d.t + (1usize << 32)]);
            "byz.deal.threshold"
        }
        6 => {
            d.sid = cx.bytes(32);
            "byz.deal.sid"
        }
        7 => {
            let j = cx.below(n);
            d = orig[j].clone();
            "byz.deal.other-index"
        }
        8 => {
            d = alt[i].clone();
            "byz.deal.equivocate"
        }
        9 => {
            d = alt[i].clone();
            d.sid = orig[i].sid.clone();
            "byz.deal.equivocate-same-sid"
        }
        10 => {
            if let Some((_, rv)) = &mut d.rnd {
                *rv = rv.clone() + scalar(1);
            } else {
                let j = cx.below(n);
                d.v = orig[j].v.clone();
            }
            "byz.deal.blinding"
        }
        11 => {
            if let Some((ri, _)) = &mut d.rnd {
                *ri = (*ri + 1) % n;
            } else {
                d.v = scalar(0);
            }
            "byz.deal.blinding-index"
        }
        _ => {
            // another degree, everything else right: shares of a polynomial of another threshold
            d.t = d.t.saturating_sub(1);
            d.commits.truncate(d.t);
            "byz.deal.lower-degree"
        }
    };
    if (2..=5).contains(&k) && cx.chance(600) || k == 2 || k == 12 {
        // with the session id which goes with it
        d.sid = vec![];
    }
    Some((d, name))
}

impl<V: Vss> World<V> {
    fn new(cx: &mut Cx, cfg: Cfg) -> World<V> {
        let n = cx.people(3, 6);
        let t = cx.range(2, n);
        let (long, vs) = keypairs(n);
        let dlong = rand_scalar();
        let dpub = g(&dlong);
        let secret = rand_scalar();
        let mut d = V::dealer(&dlong, &secret, &vs, t).expect("dealer");
        let orig: Vec<Dl> = (0..n).map(|i| V::plain(&mut d, i)).collect();
        let mut d2 = V::dealer(&dlong, &rand_scalar(), &vs, t).expect("dealer");
        let alt: Vec<Dl> = (0..n).map(|i| V::plain(&mut d2, i)).collect();
        let byz: Vec<bool> = (0..n).map(|_| cx.chance(cfg.byz_ver)).collect();
        let sid = V::d_sid(&d);
        let mut nodes = vec![];
        for i in 0..n {
            let mut v = V::verifier(&long[i], &dpub, &vs).expect("verifier");
            let set = !V::RABIN && cx.chance(500);
            if set {
                V::set_threshold(&mut v, t);
            }
            let m = Model::new(V::RABIN, i, &dpub, &vs, if set { t } else { 0 });
            nodes.push(VNode { snap: enc(&v), v, snap_m: m.clone(), m, pend: VecDeque::new(), snap_pend: VecDeque::new(), since: vec![], out: false, hold: 0 });
        }
        let mut net = Net::swarm(cx, n + 1, 3000, cfg.reliable);
        if cfg.dup {
            net.cfg.dup = cx.pick(&[100, 300, 600]);
        }
        World {
            n,
            long,
            vs,
            dpub,
            dlong,
            dsnap: enc(&d),
            d,
            dseen: BTreeMap::new(),
            dseen_snap: BTreeMap::new(),
            dsince: vec![],
            dout: false,
            dhold: 0,
            sid,
            orig,
            deals: vec![],
            encs: vec![],
            authentic: BTreeSet::new(),
            byz,
            nodes,
            cfg,
            net,
            other_resp: vec![],
            alt,
            answered: BTreeSet::new(),
            flagged: BTreeSet::new(),
            second_thoughts: false,
            equivocates: false,
            late: true,
        }
    }

    fn response(&mut self, i: usize, sid: &[u8], ok: bool) -> Vec<u8> {
        let mut r = Resp { session_id: sid.to_vec(), index: i as u32, ok, signature: vec![] };
        r.signature = sign(&self.long[i], &V::resp_hash(&r));
        let b = enc(&r);
        self.authentic.insert(b.clone());
        b
    }

    /// an adversary on the wire: copies of what was sent, altered
    fn attack(&mut self, cx: &mut Cx, from: usize, to: usize, kind: &'static str, b: &[u8]) {
        if !cx.chance(self.cfg.attacker) {
            return;
        }
        let mut to = to;
        let v = match kind {
            "resp" => {
                let mut r: Resp = dec(b).unwrap();
                match cx.below(9) {
                    0 => {
                        cx.fired("attack.alter");
                        corrupt(cx, b)
                    }
                    1 => {
                        cx.fired("attack.flip-status");
                        r.ok = !r.ok;
                        enc(&r)
                    }
                    2 => {
                        cx.fired("attack.other-index");
                        r.index = cx.pick(&[0, 1, 2, self.n as u32 - 1, self.n as u32, u32::MAX, r.index + 1]);
                        enc(&r)
                    }
                    3 => {
                        cx.fired("attack.other-session");
                        r.session_id = if cx.chance(300) { vec![] } else { cx.bytes(32) };
                        enc(&r)
                    }
                    4 => {
                        cx.fired("attack.no-signature");
                        r.signature = if cx.chance(500) { vec![] } else { vec![0; 64] };
                        if cx.chance(500) {
                            r.ok = !r.ok;
                            r.index = cx.below(self.n) as u32;
                        }
                        enc(&r)
                    }
                    5 => {
                        cx.fired("attack.own-key");
                        r.ok = cx.chance(500);
                        if cx.chance(500) {
                            r.index = cx.below(self.n) as u32;
                        }
                        let k = rand_scalar();
                        r.signature = sign(&k, &V::resp_hash(&r));
                        enc(&r)
                    }
                    6 => {
                        cx.fired("attack.by-another-verifier");
                        let j = cx.below(self.n);
                        if j == r.index as usize {
                            return;
                        }
                        r.signature = sign(&self.long[j], &V::resp_hash(&r));
                        enc(&r)
                    }
                    7 if !self.other_resp.is_empty() => {
                        cx.fired("attack.replay-other-session");
                        let v = self.other_resp.clone();
                        cx.pick(&v)
                    }
                    _ => {
                        cx.fired("attack.redirect");
                        to = cx.below(self.n + 1);
                        b.to_vec()
                    }
                }
            }
            "deal" => {
                let mut e: EncDeal = dec(b).unwrap();
                match cx.below(6) {
                    0 => {
                        cx.fired("attack.alter");
                        corrupt(cx, b)
                    }
                    1 => {
                        cx.fired("attack.alter-cipher");
                        e.cipher = corrupt(cx, &e.cipher);
                        enc(&e)
                    }
                    2 => {
                        cx.fired("attack.alter-nonce");
                        e.nonce = corrupt(cx, &e.nonce);
                        enc(&e)
                    }
                    3 => {
                        cx.fired("attack.own-dhkey");
                        let k = rand_scalar();
                        e.dhkey = g(&k);
                        e.signature = sign(&k, &pbytes(&e.dhkey));
                        enc(&e)
                    }
                    4 => {
                        cx.fired("attack.alter-signature");
                        e.signature = corrupt(cx, &e.signature);
                        enc(&e)
                    }
                    _ => {
                        cx.fired("attack.redirect");
                        to = 1 + cx.below(self.n);
                        b.to_vec()
                    }
                }
            }
            _ => {
                // an altered justification flags the dealer: see the known
                // finding; whole ones may travel anywhere
                cx.fired("attack.redirect");
                to = 1 + cx.below(self.n);
                b.to_vec()
            }
        };
        if cx.chance(200) {
            // kept back until the timeouts are over
            cx.fired("attack.delayed");
            let wait = 8000 + cx.below(8000) as u64;
            self.net.send_later(wait, from, to, kind, v);
            return;
        }
        self.net.send(cx, from, to, kind, v);
    }

    fn send(&mut self, cx: &mut Cx, from: usize, to: usize, kind: &'static str, b: Vec<u8>) {
        self.attack(cx, from, to, kind, &b);
        self.net.send(cx, from, to, kind, b);
    }

    fn broadcast(&mut self, cx: &mut Cx, from: usize, kind: &'static str, b: &[u8], dealer: bool) {
        for j in if dealer { 0 } else { 1 }..=self.n {
            if j != from {
                self.send(cx, from, j, kind, b.to_vec());
            }
        }
    }

    fn start(&mut self, cx: &mut Cx) {
        let n = self.n;
        // another, earlier session among the same participants
        if self.cfg.attacker > 0 || self.cfg.dup {
            let sid2 = self.alt[0].sid.clone();
            for i in 0..n {
                let ok = cx.chance(500);
                let b = self.response(i, &sid2, ok);
                self.other_resp.push(b);
            }
        }
        let mut silent = vec![false; n];
        self.second_thoughts = self.cfg.byz_dealer && cx.chance(150);
        for i in 0..n {
            let mut d = self.orig[i].clone();
            if self.cfg.byz_dealer {
                if self.second_thoughts && !cx.chance(350) {
                    // most of the deals of such a dealer are good
                } else if cx.chance(100) {
                    silent[i] = true;
                    cx.fired("byz.deal.none");
                } else if cx.chance(450) {
                    if let Some((x, name)) = mutate::<V>(cx, &self.orig, &self.alt, i) {
                        d = x;
                        if d.sid.is_empty() {
                            d.sid = session_id(&self.dpub, &self.vs, &d.commits, d.t);
                        }
                        cx.fired(name);
                    }
                }
            }
            let b = if d == self.orig[i] {
                V::enc_deal(&self.d, i).expect("encrypt")
            } else {
                let mut x = self.d.clone();
                V::set_plain(&mut x, i, &d);
                V::enc_deal(&x, i).expect("encrypt")
            };
            self.deals.push(d);
            self.encs.push((i, b.clone(), i));
            if !silent[i] {
                self.send(cx, 0, i + 1, "deal", b);
            }
        }
        // a Byzantine dealer may send a second, different deal to the same verifier
        if self.cfg.byz_dealer && !self.second_thoughts && cx.chance(300) {
            let i = cx.below(n);
            let d = self.alt[i].clone();
            let mut x = self.d.clone();
            V::set_plain(&mut x, i, &d);
            let b = V::enc_deal(&x, i).expect("encrypt");
            self.deals.push(d);
            self.encs.push((i, b.clone(), self.deals.len() - 1));
            cx.fired("byz.deal.second");
            self.send(cx, 0, i + 1, "deal", b);
        }
        // Byzantine verifiers
        for i in 0..n {
            if !self.byz[i] {
                continue;
            }
            let sid = match cx.below(4) {
                0 | 1 => self.sid.clone(),
                2 => self.deals[i].sid.clone(),
                _ => self.alt[0].sid.clone(),
            };
            match cx.below(4) {
                0 => cx.fired("byz.verifier.silent"),
                1 => {
                    cx.fired("byz.verifier.complains");
                    let b = self.response(i, &sid, false);
                    self.broadcast(cx, i + 1, "resp", &b, true);
                }
                2 => {
                    cx.fired("byz.verifier.approves");
                    let b = self.response(i, &sid, true);
                    self.broadcast(cx, i + 1, "resp", &b, true);
                }
                _ => {
                    cx.fired("byz.verifier.equivocates");
                    self.equivocates = true;
                    let a = self.response(i, &sid, true);
                    let b = self.response(i, &sid, false);
                    for j in 0..=n {
                        if j != i + 1 {
                            match cx.below(3) {
                                0 => self.send(cx, i + 1, j, "resp", a.clone()),
                                1 => self.send(cx, i + 1, j, "resp", b.clone()),
                                _ => (),
                            }
                        }
                    }
                }
            }
        }
        // the end of the period, by each node's own clock
        for i in 0..=n {
            let at = if cx.chance(self.cfg.early_timeout) {
                cx.fired("clock.early-timeout");
                self.late = false;
                cx.range(1, 400) as u64
            } else {
                let skew = cx.below(1000) as u64;
                if skew > 500 {
                    cx.fired("clock.skew");
                }
                8000 + skew
            };
            self.net.at(at, Ev::Timer { node: i, what: 0 });
        }
    }

    fn compare(&self, cx: &mut Cx, i: usize) -> Res {
        let nd = &self.nodes[i];
        cx.st.checks += 1;
        if nd.m.known_t() {
            let c = V::v_certified_or(&nd.v, nd.m.deal.is_some());
            ensure!(
                c == nd.m.certified(),
                "certification differs from the messages received",
                "verifier {i}: deal_certified()={c}, expected {} (responses {:?}, bad dealer {}, timeout {}, t {})",
                nd.m.certified(),
                nd.m.resp,
                nd.m.bad,
                nd.m.timeout,
                nd.m.t
            );
            let got = V::v_get(&nd.v);
            ensure!(
                got.as_ref() == nd.m.own(),
                "deal() differs from the certified deal",
                "verifier {i}: deal() is {}, expected {}",
                if got.is_some() { "some deal" } else { "none" },
                if nd.m.own().is_some() { "the own deal" } else { "none" }
            );
        }
        cx.state(nd.m.hash());
        Ok(())
    }

    fn deliver(&mut self, cx: &mut Cx, m: &Msg) -> Res {
        let i = m.to - 1;
        if self.byz[i] {
            return Ok(());
        }
        let mut retry = true;
        match m.kind {
            "deal" => {
                let e = dec::<EncDeal>(&m.bytes).map(|e| enc(&e));
                let which = e.and_then(|e| self.encs.iter().find(|(to, b, _)| *to == i && *b == e).map(|x| x.2));
                let before = self.nodes[i].v.clone();
                let had = self.nodes[i].m.deal.is_some();
                let r = V::v_deal(&mut self.nodes[i].v, &m.bytes);
                let want = match which {
                    Some(k) => self.nodes[i].m.on_deal(&self.deals[k]),
                    None => DealOutcome::Rejected,
                };
                cx.ev(format!("{} v{i} deal {:?} -> {}", self.net.now, which, r.is_ok()));
                match (want, r) {
                    (DealOutcome::Rejected, Ok(_)) => {
                        return violation(
                            "a deal was accepted which must not be",
                            format!("verifier {i}: {} deal answered", if had { "second" } else { "unauthentic or misdirected" }),
                        )
                    }
                    (DealOutcome::Rejected, Err(_)) => {
                        retry = false;
                        ensure!(same(&self.nodes[i].v, &before), "a rejected deal changed the verifier", "verifier {i}: state changed though the deal was rejected");
                    }
                    (DealOutcome::Answer { .. }, Err(e)) => {
                        return violation("a deal got no answer", format!("verifier {i}: {e} on deal {which:?}"));
                    }
                    (DealOutcome::Answer { sid, ok }, Ok(b)) => {
                        let r: Resp = match dec(&b) {
                            Some(r) => r,
                            None => return violation("an answer does not decode", format!("verifier {i}")),
                        };
                        ensure!(
                            r.ok == ok,
                            if ok { "a valid deal was complained about" } else { "an invalid deal was approved" },
                            "verifier {i}: answered {} to deal {:?}",
                            r.ok,
                            which
                        );
                        ensure!(r.index as usize == i && r.session_id == sid, "the answer is about something else", "verifier {i}: index {}", r.index);
                        if !r.ok {
                            cx.probe("complaint");
                        }
                        self.authentic.insert(b.clone());
                        self.broadcast(cx, i + 1, "resp", &b, true);
                    }
                }
            }
            "resp" => {
                let r = dec::<Resp>(&m.bytes);
                let auth = r.as_ref().map(|r| self.authentic.contains(&enc(r))).unwrap_or(false);
                let before = self.nodes[i].v.clone();
                let got = V::v_resp(&mut self.nodes[i].v, &m.bytes);
                let want = match &r {
                    Some(r) => self.nodes[i].m.on_resp(r, auth),
                    None => false,
                };
                cx.ev(format!("{} v{i} resp {:?} auth={auth} -> {}", self.net.now, r.as_ref().map(|r| (r.index, r.ok)), got.is_ok()));
                ensure!(
                    got.is_ok() == want,
                    if want { "a genuine response was refused" } else { "a response was accepted which must not be" },
                    "verifier {i}: response {:?} authentic={auth}: {:?}",
                    r.as_ref().map(|r| (r.index, r.ok, hex::encode(&r.session_id))),
                    got
                );
                if got.is_err() {
                    ensure!(same(&self.nodes[i].v, &before), "a refused response changed the verifier", "verifier {i}");
                }
                if got.is_ok() || !auth || self.nodes[i].m.deal.is_some() {
                    retry = false;
                }
            }
            "just" => {
                let j = V::dec_just(&m.bytes);
                let before = self.nodes[i].v.clone();
                let got = V::v_just(&mut self.nodes[i].v, &m.bytes);
                let (idx, d) = match j {
                    Some(j) => j,
                    None => return Ok(()),
                };
                let counts = self.nodes[i].m.just_counts(idx as usize);
                let want = self.nodes[i].m.on_just(idx as usize, &d);
                cx.ev(format!("{} v{i} just {idx} counts={counts} -> {}", self.net.now, got.is_ok()));
                ensure!(
                    got.is_ok() == want,
                    if want { "a right justification was refused" } else { "a justification was accepted which must not be" },
                    "verifier {i}: justification of {idx}: {got:?}"
                );
                if !counts {
                    ensure!(same(&self.nodes[i].v, &before), "an ignored justification changed the verifier", "verifier {i}");
                } else {
                    cx.probe(if want { "complaint justified" } else { "dealer flagged by its justification" });
                    retry = false;
                }
            }
            _ => (),
        }
        self.compare(cx, i)?;
        // what was refused may have been early: try again after progress
        if retry && m.kind != "deal" && m.attempt < 6 {
            let refused = match m.kind {
                "resp" => true,
                _ => dec::<Resp>(&m.bytes).is_some() || true,
            };
            if refused {
                let mut k = m.clone();
                k.attempt += 1;
                let nd = &mut self.nodes[i];
                if !nd.pend.iter().any(|x| x.0.id == k.id) {
                    nd.pend.push_back((k, 0));
                }
            }
        }
        Ok(())
    }

    fn flush_pending(&mut self, cx: &mut Cx, i: usize) -> Res {
        let k = self.nodes[i].pend.len();
        for _ in 0..k {
            let (m, _) = match self.nodes[i].pend.pop_front() {
                Some(x) => x,
                None => break,
            };
            let useful = match m.kind {
                "resp" => self.nodes[i].m.deal.is_some(),
                _ => V::dec_just(&m.bytes).map(|j| self.nodes[i].m.just_counts(j.0 as usize)).unwrap_or(false),
            };
            if useful {
                cx.probe("early message retried");
                self.deliver(cx, &m)?;
            } else {
                self.nodes[i].pend.push_back((m, 0));
            }
        }
        Ok(())
    }

    fn at_dealer(&mut self, cx: &mut Cx, m: &Msg) -> Res {
        if m.kind != "resp" {
            return Ok(());
        }
        let r = match dec::<Resp>(&m.bytes) {
            Some(r) => r,
            None => {
                return Ok(());
            }
        };
        let auth = self.authentic.contains(&enc(&r));
        let i = r.index as usize;
        if self.cfg.byz_dealer {
            // every complaint answered right, but one of the answers follows a
            // wrong one; perhaps both when the period is over
            if auth && !r.ok && i < self.n && self.second_thoughts {
                if self.flagged.insert(i) {
                    cx.fired("byz.just.second-thoughts");
                    let late = cx.chance(700);
                    let first = self.flagged.len() == 1;
                    for j in 1..=self.n {
                        if first {
                            let b = self.justification(i, &self.deals[i]);
                            let (w1, w2) = if late { (9100, 9500) } else { (100, 1500) };
                            let w1 = w1 + cx.below(300) as u64;
                            let w2 = w2 + cx.below(300) as u64;
                            self.net.send_later(w1.saturating_sub(self.net.now).max(1), 0, j, "just", b);
                            let b = self.justification(i, &self.orig[i]);
                            self.net.send_later(w2.saturating_sub(self.net.now).max(w1.saturating_sub(self.net.now) + 50), 0, j, "just", b);
                        } else {
                            let b = self.justification(i, &self.orig[i]);
                            self.send(cx, 0, j, "just", b);
                        }
                    }
                }
                return Ok(());
            }
            // its own ways to answer a complaint
            let mut times = (auth && !r.ok && i < self.n && self.flagged.insert(i)) as usize;
            if times > 0 && cx.fault("byz.just.several", 250) {
                times = cx.range(2, 3);
            }
            for _ in 0..times {
                let (k, d) = match cx.below(7) {
                    0 => ("byz.just.none", None),
                    1 | 2 => ("byz.just.right", Some(self.orig[i].clone())),
                    3 => ("byz.just.again-invalid", Some(self.deals[i].clone())),
                    4 => ("byz.just.other-index", Some(self.orig[(i + 1) % self.n].clone())),
                    5 => {
                        let mut d = self.orig[i].clone();
                        d.v = d.v + scalar(1);
                        ("byz.just.wrong-share", Some(d))
                    }
                    _ => {
                        let mut d = match mutate::<V>(cx, &self.orig, &self.alt, i) {
                            Some((d, _)) => d,
                            None => self.alt[i].clone(),
                        };
                        if d.sid.is_empty() {
                            d.sid = session_id(&self.dpub, &self.vs, &d.commits, d.t);
                        }
                        ("byz.just.mutated", Some(d))
                    }
                };
                cx.fired(k);
                if let Some(d) = d {
                    let b = self.justification(i, &d);
                    // perhaps not to everybody
                    let partial = cx.fault("byz.just.partial", 250);
                    // perhaps only when the period is over
                    let late = cx.fault("byz.just.late", 250);
                    for j in 1..=self.n {
                        if partial && cx.chance(500) {
                            continue;
                        }
                        if late {
                            let wait = 9100 + cx.below(900) as u64;
                            self.net.send_later(wait.saturating_sub(self.net.now), 0, j, "just", b.clone());
                        } else {
                            self.send(cx, 0, j, "just", b.clone());
                        }
                    }
                }
            }
            return Ok(());
        }
        let before = self.d.clone();
        let got = V::d_resp(&mut self.d, &m.bytes);
        let want = auth && i < self.n && r.session_id == self.sid && !self.dseen.contains_key(&i);
        cx.st.checks += 1;
        cx.ev(format!("{} dealer resp {i} {} auth={auth} -> {:?}", self.net.now, r.ok, got.as_ref().map(|x| x.is_some()).map_err(|_| ())));
        ensure!(
            got.is_ok() == want,
            if want { "the dealer refused a genuine response" } else { "the dealer accepted a response it must not" },
            "response of {i}, ok={}: {:?}",
            r.ok,
            got.err()
        );
        match got {
            Err(_) => {
                ensure!(same(&self.d, &before), "a refused response changed the dealer", "response of {i}");
            }
            Ok(j) => {
                self.dseen.insert(i, r.ok);
                ensure!(
                    j.is_some() == !r.ok,
                    "a complaint and its justification do not go together",
                    "response of {i}: ok={}, justification {}",
                    r.ok,
                    j.is_some()
                );
                if let Some(b) = j {
                    match V::dec_just(&b) {
                        Some((k, d)) => ensure!(
                            k as usize == i && d == self.orig[i],
                            "the justification reveals another deal",
                            "complaint of {i} answered with the deal of {}, index {k}",
                            d.i
                        ),
                        None => return violation("a justification does not decode", format!("complaint of {i}")),
                    }
                    self.answered.insert(i);
                    self.broadcast(cx, 0, "just", &b, false);
                }
            }
        }
        self.dealer_oracle(cx)
    }

    fn dealer_oracle(&self, _cx: &mut Cx) -> Res {
        if self.cfg.byz_dealer {
            return Ok(());
        }
        let app = self.dseen.values().filter(|x| **x).count();
        let c = V::d_certified(&self.d);
        let t = self.orig[0].t;
        if c {
            ensure!(app >= t, "the dealer's deal is certified without t approvals", "{app} approvals of {t}");
            ensure!(
                V::d_secret_commit(&self.d) == Some(g(&interpolate(&self.orig[..t].iter().map(|d| (d.i, d.v.clone())).collect::<Vec<_>>()).unwrap())),
                "the dealer's secret commitment is another secret's",
                "secret_commit() differs from g^secret"
            );
        } else {
            ensure!(V::d_secret_commit(&self.d).is_none(), "a secret commitment without certification", "secret_commit() is Some");
            ensure!(
                self.dseen.len() < self.n || app < self.n,
                "the dealer's deal is not certified though all approved",
                "{app} approvals of {}",
                self.n
            );
        }
        Ok(())
    }

    fn justification(&self, i: usize, d: &Dl) -> Vec<u8> {
        V::just(self.sid.clone(), i as u32, d, &self.dlong)
    }

    fn crash_verifier(&mut self, cx: &mut Cx, i: usize) -> Res {
        if cx.chance(600) {
            // everything was on disk
            cx.fired("crash.verifier");
            self.nodes[i].v = restarted(&self.nodes[i].v, format!("verifier {i}"))?;
        } else {
            // back to the last snapshot; what was received since is sent again
            cx.fired("crash.verifier-rollback");
            torn(cx, &self.nodes[i].v)?;
            let nd = &mut self.nodes[i];
            nd.v = match dec::<V::Ver>(&nd.snap) {
                Some(v) => v,
                None => return violation("a saved verifier does not load", format!("verifier {i}")),
            };
            nd.m = nd.snap_m.clone();
            nd.pend = nd.snap_pend.clone();
            // a restarted node allows for the messages to come again
            nd.hold = self.net.now + 2000;
            if nd.out {
                self.net.timer(2000, i + 1, 0);
            }
            let since = std::mem::take(&mut nd.since);
            for m in since {
                self.net.put(cx, m);
            }
        }
        self.compare(cx, i)
    }

    fn crash_dealer(&mut self, cx: &mut Cx) -> Res {
        if self.cfg.byz_dealer {
            return Ok(());
        }
        if cx.chance(600) {
            cx.fired("crash.dealer");
            self.d = restarted(&self.d, "dealer".into())?;
        } else {
            cx.fired("crash.dealer-rollback");
            torn(cx, &self.d)?;
            self.d = match dec::<V::Dealer>(&self.dsnap) {
                Some(v) => v,
                None => return violation("a saved dealer does not load", "dealer".into()),
            };
            self.dseen = self.dseen_snap.clone();
            self.dhold = self.net.now + 2000;
            if self.dout {
                self.net.timer(2000, 0, 0);
            }
            for m in std::mem::take(&mut self.dsince) {
                self.net.put(cx, m);
            }
        }
        self.dealer_oracle(cx)
    }

    fn run(&mut self, cx: &mut Cx) -> Res {
        self.start(cx);
        let mut steps = 0;
        while let Some(e) = self.net.next(cx) {
            steps += 1;
            if steps > 6000 {
                break;
            }
            match e {
                Ev::Msg(m) => {
                    cx.step(m.kind, m.from, m.to);
                    if m.to == 0 {
                        self.at_dealer(cx, &m)?;
                        self.dsince.push(m);
                    } else {
                        let i = m.to - 1;
                        if self.byz[i] {
                            continue;
                        }
                        self.deliver(cx, &m)?;
                        self.flush_pending(cx, i)?;
                        self.nodes[i].since.push(m);
                    }
                }
                Ev::Timer { node, .. } => {
                    cx.step("timeout", node, 0);
                    let hold = if node == 0 { self.dhold } else { self.nodes[node - 1].hold };
                    if self.net.now < hold && self.net.now >= 8000 {
                        self.net.at(hold, Ev::Timer { node, what: 0 });
                        continue;
                    }
                    if node == 0 {
                        if !self.cfg.byz_dealer {
                            self.dout = true;
                            V::d_timeout(&mut self.d);
                            if V::RABIN {
                                for i in 0..self.n {
                                    self.dseen.entry(i).or_insert(false);
                                }
                            }
                            self.dealer_oracle(cx)?;
                        }
                    } else if !self.byz[node - 1] {
                        let nd = &mut self.nodes[node - 1];
                        nd.out = true;
                        V::v_timeout(&mut nd.v);
                        nd.m.on_timeout();
                        self.compare(cx, node - 1)?;
                    }
                }
            }
            if cx.crash(self.cfg.crash) {
                let i = cx.below(self.n + 1);
                if i == 0 {
                    self.crash_dealer(cx)?;
                } else if !self.byz[i - 1] {
                    self.crash_verifier(cx, i - 1)?;
                }
            }
            if self.cfg.crash > 0 && cx.chance(60) {
                // snapshots
                let i = cx.below(self.n + 1);
                if i == 0 {
                    self.dsnap = enc(&self.d);
                    self.dseen_snap = self.dseen.clone();
                    self.dsince.clear();
                } else {
                    let nd = &mut self.nodes[i - 1];
                    nd.snap = enc(&nd.v);
                    nd.snap_m = nd.m.clone();
                    nd.snap_pend = nd.pend.clone();
                    nd.since.clear();
                }
            }
        }
        self.end(cx)
    }

    fn end(&mut self, cx: &mut Cx) -> Res {
        let n = self.n;
        let mut by_sid: BTreeMap<Vec<u8>, Vec<Dl>> = BTreeMap::new();
        let mut honest = 0;
        for i in 0..n {
            if self.byz[i] {
                continue;
            }
            honest += 1;
            self.compare(cx, i)?;
            let nd = &self.nodes[i];
            if !self.cfg.byz_dealer {
                ensure!(!nd.m.bad, "an honest dealer was found bad", "by verifier {i}");
            }
            if let Some(d) = V::v_get(&nd.v) {
                cx.probe("certified");
                ensure!(d.i == i, "a verifier got another's share", "verifier {i} holds the share of {}", d.i);
                // unanswered complaints are tolerated by the Rabin scheme: the
                // complainer knows that its own share is bad
                if nd.m.resp.get(&i) == Some(&true) {
                    ensure!(nd.m.valid(&d), "a certified share is not on the committed polynomial", "verifier {i}");
                    by_sid.entry(d.sid.clone()).or_default().push(d);
                }
            }
        }
        for (_, mut ds) in by_sid {
            let t = ds[0].t;
            let c = ds[0].commits.clone();
            ensure!(ds.iter().all(|d| d.t == t && d.commits == c), "certified deals of one session disagree", "{} deals", ds.len());
            if ds.len() < t {
                let r = V::recover(&ds, n, t);
                ensure!(r.is_err(), "a secret recovered from less than t deals", "{} of {t}", ds.len());
                continue;
            }
            cx.probe("secret recovered");
            let all: Vec<(usize, Sc)> = ds.iter().map(|d| (d.i, d.v.clone())).collect();
            let want = interpolate(&all[..t]).unwrap();
            for _ in 0..2 {
                cx.shuffle(&mut ds);
                let k = cx.range(t, ds.len());
                let sub: Vec<Dl> = ds[..k].to_vec();
                match V::recover(&sub, n, t) {
                    Ok(s) => ensure!(s == want, "recovered secrets differ", "from {k} of {} deals, t={t}", ds.len()),
                    Err(e) => return violation("t certified deals do not recover the secret", e),
                }
                cx.st.checks += 1;
                // a share of another session among them
                let mut mixed = sub.clone();
                let mut d = cx.pick(&sub);
                d.v = d.v + scalar(1);
                d.sid[0] ^= 1;
                if cx.chance(500) {
                    mixed.retain(|x| x.i != d.i);
                }
                mixed.push(d);
                if let Ok(s) = V::recover(&mixed, n, t) {
                    return violation("deals of several sessions recover a secret", format!("{}", s == want));
                }
            }
            if !V::RABIN {
                ensure!(g(&want) == c[0], "the recovered secret is not the committed one", "t={t}");
            }
            if !self.cfg.byz_dealer {
                let sec = interpolate(&self.orig[..t].iter().map(|d| (d.i, d.v.clone())).collect::<Vec<_>>()).unwrap();
                ensure!(sec == want, "the recovered secret is not the dealer's", "t={t}");
            }
        }
        // progress: an honest dealer, t honest verifiers, nothing lost for good
        if !self.cfg.byz_dealer && self.cfg.reliable && self.late && !self.equivocates {
            let t = self.orig[0].t;
            if honest >= t {
                cx.probe("progress required");
                for i in 0..n {
                    if !self.byz[i] {
                        let nd = &self.nodes[i];
                        ensure!(
                            V::v_get(&nd.v).as_ref() == Some(&self.orig[i]),
                            "an honest dealer's deal was not certified in time",
                            "verifier {i}: {honest} honest of {n}, t={t}, responses {:?}",
                            nd.m.resp
                        );
                    }
                }
            }
        }
        Ok(())
    }
}

pub fn cluster<V: Vss>(cx: &mut Cx, cfg: Cfg) -> Res {
    World::<V>::new(cx, cfg).run(cx)
}

fn rates(cx: &mut Cx) -> (u64, u64, u64) {
    let byz = cx.pick(&[0, 150, 400]);
    let crash = cx.pick(&[0, 0, 30, 120]);
    let early = cx.pick(&[0, 0, 300]);
    (byz, crash, early)
}

/// honest dealer
pub fn honest<V: Vss>(cx: &mut Cx) -> Res {
    let (byz_ver, crash, early_timeout) = rates(cx);
    let reliable = cx.below(4) != 3;
    cluster::<V>(cx, Cfg { byz_ver, crash, early_timeout, reliable, ..Default::default() })
}

/// Byzantine dealer
pub fn byzantine<V: Vss>(cx: &mut Cx) -> Res {
    let (byz_ver, crash, early_timeout) = rates(cx);
    let reliable = cx.below(4) != 3;
    cluster::<V>(cx, Cfg { byz_dealer: true, byz_ver, crash, early_timeout, reliable, ..Default::default() })
}

/// complaints, true and false, and what the dealer makes of them
pub fn complaints<V: Vss>(cx: &mut Cx) -> Res {
    let byz_dealer = cx.chance(500);
    let byz_ver = if byz_dealer { cx.pick(&[0, 200]) } else { cx.pick(&[300, 600]) };
    let crash = cx.pick(&[0, 40]);
    cluster::<V>(cx, Cfg { byz_dealer, byz_ver, crash, reliable: true, ..Default::default() })
}

/// an adversary on the wire
pub fn attacked<V: Vss>(cx: &mut Cx) -> Res {
    let attacker = cx.pick(&[150, 500]);
    let byz_ver = cx.pick(&[0, 0, 200]);
    let byz_dealer = cx.chance(150);
    cluster::<V>(cx, Cfg { byz_dealer, byz_ver, attacker, reliable: true, ..Default::default() })
}

/// crashes at every point
pub fn crashing<V: Vss>(cx: &mut Cx) -> Res {
    let crash = cx.pick(&[100, 300, 600]);
    let byz_ver = cx.pick(&[0, 0, 200]);
    let byz_dealer = cx.chance(400);
    cluster::<V>(cx, Cfg { byz_dealer, byz_ver, crash, reliable: true, ..Default::default() })
}

/// everything twice and more
pub fn duplicated<V: Vss>(cx: &mut Cx) -> Res {
    let byz_ver = cx.pick(&[0, 300]);
    let byz_dealer = cx.chance(250);
    let crash = cx.pick(&[0, 0, 100]);
    cluster::<V>(cx, Cfg { byz_dealer, byz_ver, crash, reliable: true, dup: true, ..Default::default() })
}

#[allow(dead_code)]
fn _unused(_: Rc<Vec<u8>>) {}
