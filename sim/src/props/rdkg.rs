//! C07, C08 and the Rabin half of C10, C11, C17: n nodes run the Rabin DKG,
//! dealing, certification, secret commitments, complaints about them and their
//! reconstruction, each node next to a reference model.
use super::flavor::{dl_r, pri, r_dl, Dl, Rabin, Vss};
use super::vss::{DealOutcome, Model};
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::net::*;
use kyber_rs::share::dkg::rabin as rab;
use kyber_rs::share::poly::PriShare;
use kyber_rs::share::vss::rabin::vss as rvss;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

pub type Dkg = rab::DistKeyGenerator<S>;
pub type Dks = rab::DistKeyShare<S>;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ODeal {
    pub index: u32,
    pub deal: EncDeal,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct OResp {
    pub index: u32,
    pub response: Resp,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct OJust {
    pub index: u32,
    pub justification: Just<RDeal>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct SC {
    pub index: u32,
    pub commitments: Vec<P>,
    pub session_id: Vec<u8>,
    pub signature: Vec<u8>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CC {
    pub index: u32,
    pub dealer_index: u32,
    pub deal: RDeal,
    pub signature: Vec<u8>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RC {
    pub session_id: Vec<u8>,
    pub index: u32,
    pub dealer_index: u32,
    pub share: PriShare<Sc>,
    pub signature: Vec<u8>,
}

fn same_message(kind: &str, a: &[u8], b: &[u8]) -> bool {
    fn plain_points(p: &[P]) -> Vec<Vec<u8>> {
        p.iter().map(pbytes).collect()
    }
    match kind {
        "sc" => match (dec::<SC>(a), dec::<SC>(b)) {
            (Some(x), Some(y)) => {
                plain_points(&x.commitments) == plain_points(&y.commitments)
                    && (x.index, x.session_id, x.signature) == (y.index, y.session_id, y.signature)
            }
            _ => false,
        },
        "cc" => match (dec::<CC>(a), dec::<CC>(b)) {
            (Some(mut x), Some(mut y)) => {
                let same = plain_points(&x.deal.commits) == plain_points(&y.deal.commits);
                x.deal.commits.clear();
                y.deal.commits.clear();
                same && x == y
            }
            _ => false,
        },
        _ => false,
    }
}

#[derive(Clone, Default)]
pub struct Cfg {
    pub byz: u64,
    pub unclean: bool,
    pub attacker: u64,
    pub crash: u64,
    pub early_timeout: u64,
    pub reliable: bool,
    pub dup: bool,
    pub offline: u64,
}

/// what a node knows of the second phase
#[derive(Clone, Default)]
struct Phase2 {
    commits: BTreeMap<usize, Vec<P>>,
    rejected: BTreeMap<usize, Vec<P>>,
    pending: BTreeMap<usize, BTreeMap<usize, (usize, Sc)>>,
    rebuilt: BTreeSet<usize>,
}

#[derive(Clone)]
struct Node {
    d: Dkg,
    m: Vec<Model>,
    /// responses about the own deal, as the dealer counts them
    own: BTreeMap<usize, bool>,
    p2: Phase2,
    out: bool,
    sent2: bool,
    hold: u64,
    pend: VecDeque<Msg>,
    since: Vec<Msg>,
}

pub struct World {
    n: usize,
    t: usize,
    long: Vec<Sc>,
    pubs: Vec<P>,
    nodes: Vec<Node>,
    snaps: Vec<(Vec<u8>, Node)>,
    byz: Vec<bool>,
    off: Vec<bool>,
    deals: Vec<BTreeMap<usize, (Dl, Vec<u8>)>>,
    orig: Vec<Vec<Dl>>,
    /// g^coefficients of each dealer's secret polynomial
    truth: Vec<Vec<P>>,
    authentic: BTreeSet<Vec<u8>>,
    cfg: Cfg,
    net: Net,
    /// every participant does say the same to everybody, in time
    clean: bool,
    late: bool,
    /// a dealer keeps its secret commitments for itself
    withheld: bool,
}

const T_OUT: u64 = 8000;
const PHASE2: u64 = 14000;

pub fn commits_of(deals: &[Dl], t: usize) -> Vec<P> {
    // the coefficients, from t shares: solve by Lagrange basis expansion
    let mut out = vec![scalar(0); t];
    for (a, d) in deals[..t].iter().enumerate() {
        // basis polynomial of share a
        let mut b = vec![scalar(1)];
        let xa = scalar(d.i as i64 + 1);
        let mut den = scalar(1);
        for (c, e) in deals[..t].iter().enumerate() {
            if a == c {
                continue;
            }
            let xc = scalar(e.i as i64 + 1);
            let mut nb = vec![scalar(0); b.len() + 1];
            for (k, v) in b.iter().enumerate() {
                nb[k + 1] = nb[k + 1].clone() + v.clone();
                nb[k] = sub(&nb[k], &(v.clone() * xc.clone()));
            }
            b = nb;
            den = den * sub(&xa, &xc);
        }
        let f = d.v.clone() * inv(&den);
        for (k, v) in b.iter().enumerate() {
            out[k] = out[k].clone() + v.clone() * f.clone();
        }
    }
    out.iter().map(g).collect()
}

impl World {
    fn new(cx: &mut Cx, cfg: Cfg) -> Res<World> {
        let n = cx.people(3, 5);
        let t = cx.range(2, n);
        let (long, _) = keypairs(n);
        World::with(cx, cfg, long, t)
    }

    pub fn with(cx: &mut Cx, cfg: Cfg, long: Vec<Sc>, t: usize) -> Res<World> {
        let n = long.len();
        let pubs: Vec<P> = long.iter().map(g).collect();
        let byz: Vec<bool> = (0..n).map(|_| cx.chance(cfg.byz)).collect();
        let off: Vec<bool> = (0..n).map(|_| cfg.offline > 0 && cx.fault("node.offline", cfg.offline)).collect();
        let mut nodes = vec![];
        for k in &long {
            let d = match rab::new_dist_key_generator(&suite(), k, &pubs, t) {
                Ok(d) => d,
                Err(e) => return violation("a valid configuration was refused", format!("{e:?}")),
            };
            let i = nodes.len();
            nodes.push(Node {
                d,
                m: (0..n).map(|k| Model::new(true, i, &pubs[k], &pubs, 0)).collect(),
                own: BTreeMap::new(),
                p2: Phase2::default(),
                out: false,
                sent2: false,
                hold: 0,
                pend: VecDeque::new(),
                since: vec![],
            });
        }
        let mut net = Net::swarm(cx, n, 3000, cfg.reliable);
        if cx.chance(500) {
            // the second phase sees the same faults
            net.cfg.gst = 18000;
            if cx.chance(300) {
                let side = 1 + cx.below((1 << n) - 2) as u32;
                let from = PHASE2 + cx.below(300) as u64;
                net.parts.push(Partition { from, until: from + 200, side });
            }
        }
        if cfg.dup {
            net.cfg.dup = cx.pick(&[100, 300]);
        }
        Ok(World {
            n,
            t,
            long,
            pubs,
            snaps: vec![],
            nodes,
            byz,
            off,
            deals: vec![BTreeMap::new(); n],
            orig: vec![],
            truth: vec![],
            authentic: BTreeSet::new(),
            cfg,
            net,
            clean: true,
            late: true,
            withheld: false,
        })
    }

    fn honest(&self, i: usize) -> bool {
        !self.byz[i] && !self.off[i]
    }

    fn signed(&mut self, i: usize, dealer: usize, sid: Vec<u8>, ok: bool) -> Vec<u8> {
        let mut r = Resp { session_id: sid, index: i as u32, ok, signature: vec![] };
        r.signature = sign(&self.long[i], &Rabin::resp_hash(&r));
        self.authentic.insert(enc(&r));
        enc(&OResp { index: dealer as u32, response: r })
    }

    fn send(&mut self, cx: &mut Cx, from: usize, to: usize, kind: &'static str, b: Vec<u8>) {
        self.attack(cx, from, to, kind, &b);
        self.net.send(cx, from, to, kind, b);
    }

    fn broadcast(&mut self, cx: &mut Cx, from: usize, kind: &'static str, b: &[u8]) {
        for j in 0..self.n {
            if j != from {
                self.send(cx, from, j, kind, b.to_vec());
            }
        }
    }

    fn some_index(&self, cx: &mut Cx) -> u32 {
        cx.pick(&[0, 1, 2, self.n as u32 - 1, self.n as u32, u32::MAX])
    }

    fn attack(&mut self, cx: &mut Cx, from: usize, to: usize, kind: &'static str, b: &[u8]) {
        if !cx.chance(self.cfg.attacker) {
            return;
        }
        let mut to = to;
        let k = cx.below(6);
        let v = match (kind, k) {
            ("just", _) | (_, 5) => {
                cx.fired("attack.redirect");
                to = cx.below(self.n);
                b.to_vec()
            }
            (_, 0) => {
                cx.fired("attack.alter");
                corrupt(cx, b)
            }
            ("resp", _) => {
                let mut r: OResp = dec(b).unwrap();
                match k {
                    1 => {
                        cx.fired("attack.flip-status");
                        r.response.ok = !r.response.ok;
                    }
                    2 => {
                        cx.fired("attack.relabel-dealer");
                        r.index = self.some_index(cx);
                    }
                    3 => {
                        cx.fired("attack.other-index");
                        r.response.index = self.some_index(cx);
                    }
                    _ => {
                        cx.fired("attack.own-key");
                        r.response.ok = cx.chance(300);
                        if cx.chance(500) {
                            r.response.index = cx.below(self.n) as u32;
                        }
                        r.response.signature = sign(&rand_scalar(), &Rabin::resp_hash(&r.response));
                    }
                }
                enc(&r)
            }
            ("deal", _) => {
                let mut e: ODeal = dec(b).unwrap();
                match k {
                    1 => {
                        cx.fired("attack.relabel-dealer");
                        e.index = self.some_index(cx);
                    }
                    2 => {
                        cx.fired("attack.alter-cipher");
                        e.deal.cipher = corrupt(cx, &e.deal.cipher);
                    }
                    3 => {
                        cx.fired("attack.alter-signature");
                        e.deal.signature = corrupt(cx, &e.deal.signature);
                    }
                    _ => {
                        cx.fired("attack.own-dhkey");
                        let k = rand_scalar();
                        e.deal.dhkey = g(&k);
                        e.deal.signature = sign(&k, &pbytes(&e.deal.dhkey));
                    }
                }
                enc(&e)
            }
            ("sc", _) => {
                let mut e: SC = dec(b).unwrap();
                match k {
                    1 => {
                        cx.fired("attack.relabel-dealer");
                        e.index = self.some_index(cx);
                    }
                    2 => {
                        cx.fired("attack.other-commitments");
                        let j = cx.below(e.commitments.len());
                        e.commitments[j] = g(&rand_scalar());
                    }
                    3 => {
                        cx.fired("attack.other-session");
                        e.session_id = cx.bytes(32);
                    }
                    _ => {
                        cx.fired("attack.own-key");
                        let j = cx.below(e.commitments.len());
                        e.commitments[j] = g(&rand_scalar());
                        let h = cast::<_, rab::SecretCommits<S>>(&e).hash(&suite()).unwrap();
                        e.signature = sign(&rand_scalar(), &h);
                    }
                }
                enc(&e)
            }
            ("cc", _) => {
                let mut e: CC = dec(b).unwrap();
                match k {
                    1 => {
                        cx.fired("attack.relabel-dealer");
                        e.dealer_index = self.some_index(cx);
                    }
                    2 => {
                        cx.fired("attack.other-index");
                        e.index = self.some_index(cx);
                    }
                    3 => {
                        cx.fired("attack.other-share");
                        e.deal.share.v = e.deal.share.v.clone() + scalar(1);
                    }
                    _ => {
                        cx.fired("attack.own-key");
                        e.dealer_index = self.some_index(cx);
                        let h = cast::<_, rab::ComplaintCommits<S>>(&e).hash(&suite()).unwrap();
                        e.signature = sign(&rand_scalar(), &h);
                    }
                }
                enc(&e)
            }
            _ => {
                let mut e: RC = dec(b).unwrap();
                match k {
                    1 => {
                        cx.fired("attack.relabel-dealer");
                        e.dealer_index = self.some_index(cx);
                    }
                    2 => {
                        cx.fired("attack.other-index");
                        e.index = self.some_index(cx);
                    }
                    3 => {
                        cx.fired("attack.other-share");
                        e.share.v = e.share.v.clone() + scalar(1);
                    }
                    _ => {
                        cx.fired("attack.own-key");
                        e.share.v = e.share.v.clone() + scalar(1);
                        let h = cast::<_, rab::ReconstructCommits<S>>(&e).hash(&suite()).unwrap();
                        e.signature = sign(&rand_scalar(), &h);
                    }
                }
                enc(&e)
            }
        };
        // the same message in other bytes (another representation of a point, or
        // its variable-time flag) is no attack
        if v != b && same_message(kind, &v, b) {
            return;
        }
        if cx.chance(200) {
            // kept back until the timeouts are over
            cx.fired("attack.delayed");
            let wait = 8000 + cx.below(8000) as u64;
            self.net.send_later(wait, from, to, kind, v);
            return;
        }
        self.net.send(cx, from, to, kind, v);
    }

    fn mutate(&mut self, cx: &mut Cx, dealer: usize, i: usize) -> Option<Dl> {
        let mut d = self.orig[dealer][i].clone();
        if !self.cfg.unclean || cx.chance(500) {
            match cx.below(4) {
                0 => {
                    cx.fired("byz.deal.share");
                    d.v = d.v + scalar(1);
                }
                1 => {
                    cx.fired("byz.deal.other-share");
                    let j = (i + 1) % self.n;
                    d.v = self.orig[dealer][j].v.clone();
                }
                2 => {
                    cx.fired("byz.deal.blinding");
                    let (ri, rv) = d.rnd.clone().unwrap();
                    d.rnd = Some((ri, rv + scalar(1)));
                }
                _ => {
                    cx.fired("byz.deal.blinding-index");
                    let (ri, rv) = d.rnd.clone().unwrap();
                    d.rnd = Some(((ri + 1) % self.n, rv));
                }
            }
            return Some(d);
        }
        self.clean = false;
        match cx.below(5) {
            0 => {
                cx.fired("byz.deal.none");
                return None;
            }
            1 => {
                cx.fired("byz.deal.commitment");
                let j = cx.below(d.commits.len());
                d.commits[j] = g(&rand_scalar());
                if cx.chance(500) {
                    d.sid = vec![];
                }
            }
            2 => {
                cx.fired("byz.deal.threshold");
                d.t = cx.pick(&[0, 1, 2, self.n, self.n + 1, usize::MAX]);
                if cx.chance(500) {
                    d.sid = vec![];
                }
            }
            3 => {
                cx.fired("byz.deal.sid");
                d.sid = cx.bytes(32);
            }
            _ => {
                cx.fired("byz.deal.degree");
                if cx.chance(500) {
                    d.commits.pop();
                } else {
                    d.commits.push(null());
                }
                if cx.chance(700) {
                    d.t = d.commits.len();
                }
                d.sid = vec![];
            }
        }
        if d.sid.is_empty() {
            d.sid = session_id(&self.pubs[dealer], &self.pubs, &d.commits, d.t);
        }
        Some(d)
    }

    fn start(&mut self, cx: &mut Cx) -> Res {
        let n = self.n;
        for k in 0..n {
            let mut v = vec![];
            for j in 0..n {
                match self.nodes[k].d.dealer.plaintext_deal(j) {
                    Ok(x) => v.push(r_dl(cast(&*x))),
                    Err(e) => return violation("a dealer has no deal for a participant", format!("{e:?}")),
                }
            }
            ensure!(v.iter().all(|x| x.t == self.t && x.sid == v[0].sid && x.commits == v[0].commits), "a dealer's deals do not belong together", "dealer {k}");
            self.truth.push(commits_of(&v, self.t));
            self.orig.push(v);
        }
        let mut order: Vec<usize> = (0..n).collect();
        cx.shuffle(&mut order);
        for i in order {
            if self.off[i] {
                continue;
            }
            let mut dead = BTreeSet::new();
            if self.byz[i] {
                for j in 0..n {
                    if j != i && cx.chance(350) {
                        match self.mutate(cx, i, j) {
                            Some(x) => *self.nodes[i].d.dealer.plaintext_deal(j).unwrap() = cast(&dl_r(&x)),
                            None => {
                                dead.insert(j);
                            }
                        }
                    }
                }
            }
            let plain: Vec<Dl> = (0..n).map(|j| r_dl(cast(&*self.nodes[i].d.dealer.plaintext_deal(j).unwrap()))).collect();
            let silent = self.byz[i] && cx.chance(150);
            if silent {
                cx.fired("byz.deal.no-deals");
            }
            let out = match self.nodes[i].d.deals() {
                Ok(o) => o,
                Err(e) => return violation("a node could not make its deals", format!("{e:?}")),
            };
            self.nodes[i].m[i].on_deal(&plain[i]);
            self.nodes[i].own.insert(i, true);
            ensure!(out.len() == n - 1 && !out.contains_key(&i), "a participant got no deal", "dealer {i}: {} deals for {n} participants", out.len());
            let mut js: Vec<usize> = out.keys().copied().collect();
            js.sort_unstable();
            for j in js {
                let b = enc(&out[&j]);
                self.deals[i].insert(j, (plain[j].clone(), b.clone()));
                if !dead.contains(&j) && !silent {
                    self.send(cx, i, j, "deal", b);
                }
            }
        }
        for i in 0..n {
            let at = if cx.chance(self.cfg.early_timeout) {
                cx.fired("clock.early-timeout");
                self.late = false;
                cx.range(1, 600) as u64
            } else {
                T_OUT + cx.below(1000) as u64
            };
            self.net.at(at, Ev::Timer { node: i, what: 0 });
            let skew = cx.below(300) as u64;
            self.net.at(PHASE2 + skew, Ev::Timer { node: i, what: 1 });
        }
        self.snaps = self.nodes.iter().map(|n| (enc(&n.d), n.clone())).collect();
        Ok(())
    }

    fn byz_deliver(&mut self, cx: &mut Cx, m: &Msg) -> Res {
        let i = m.to;
        match m.kind {
            "deal" => {
                let d = match dec(&m.bytes) {
                    Some(d) => d,
                    None => return Ok(()),
                };
                if let Ok(r) = self.nodes[i].d.process_deal(&d) {
                    let r: OResp = cast(&r);
                    let (k, sid) = (r.index as usize, r.response.session_id.clone());
                    match cx.below(5) {
                        0 => cx.fired("byz.response.none"),
                        1 => {
                            cx.fired("byz.response.complaint");
                            let b = self.signed(i, k, sid, false);
                            self.broadcast(cx, i, "resp", &b);
                        }
                        2 => {
                            cx.fired("byz.response.approval");
                            let b = self.signed(i, k, sid, true);
                            self.broadcast(cx, i, "resp", &b);
                        }
                        3 if self.cfg.unclean => {
                            cx.fired("byz.response.equivocate");
                            self.clean = false;
                            let a = self.signed(i, k, sid.clone(), true);
                            let b = self.signed(i, k, sid, false);
                            for j in 0..self.n {
                                if j != i {
                                    let x = if cx.chance(500) { a.clone() } else { b.clone() };
                                    self.send(cx, i, j, "resp", x);
                                }
                            }
                        }
                        _ => {
                            self.authentic.insert(enc(&r.response));
                            self.broadcast(cx, i, "resp", &enc(&r));
                        }
                    }
                }
            }
            "resp" => {
                let r = match dec(&m.bytes) {
                    Some(d) => d,
                    None => return Ok(()),
                };
                if let Ok(Some(j)) = self.nodes[i].d.process_response(&r) {
                    let j: OJust = cast(&j);
                    let c = j.justification.index as usize;
                    let d = match cx.below(4) {
                        0 => {
                            cx.fired("byz.just.none");
                            return Ok(());
                        }
                        1 => {
                            cx.fired("byz.just.wrong-share");
                            let mut d = self.orig[i][c].clone();
                            d.v = d.v + scalar(1);
                            d
                        }
                        2 => {
                            cx.fired("byz.just.right");
                            self.orig[i][c].clone()
                        }
                        _ => {
                            cx.fired("byz.just.as-dealt");
                            self.deals[i].get(&c).map(|x| x.0.clone()).unwrap_or(self.orig[i][c].clone())
                        }
                    };
                    let b = Rabin::just(j.justification.session_id, c as u32, &d, &self.long[i]);
                    let o = OJust { index: i as u32, justification: dec(&b).unwrap() };
                    self.broadcast(cx, i, "just", &enc(&o));
                }
            }
            "cc" => {
                let c: rab::ComplaintCommits<S> = match dec(&m.bytes) {
                    Some(c) => c,
                    None => return Ok(()),
                };
                let _ = self.nodes[i].d.process_complaint_commits(&c);
            }
            "sc" => {
                let c: rab::SecretCommits<S> = match dec(&m.bytes) {
                    Some(c) => c,
                    None => return Ok(()),
                };
                let _ = self.nodes[i].d.process_secret_commits(&c);
                // a false complaint, with the own share or an altered one
                if cx.chance(300) {
                    let k = c.index as usize;
                    let mut d = match self.deals.get(k).and_then(|x| x.get(&i)) {
                        Some(d) => d.0.clone(),
                        None => return Ok(()),
                    };
                    match cx.below(3) {
                        0 => cx.fired("byz.complaint.false"),
                        1 => {
                            cx.fired("byz.complaint.altered-share");
                            d.v = d.v + scalar(1);
                        }
                        _ => {
                            cx.fired("byz.complaint.own-deal");
                            d = self.orig[i][i].clone();
                        }
                    }
                    let mut cc = CC { index: i as u32, dealer_index: k as u32, deal: dl_r(&d), signature: vec![] };
                    let h = cast::<_, rab::ComplaintCommits<S>>(&cc).hash(&suite()).unwrap();
                    cc.signature = sign(&self.long[i], &h);
                    self.authentic.insert(enc(&cc));
                    self.broadcast(cx, i, "cc", &enc(&cc));
                }
            }
            _ => (),
        }
        Ok(())
    }

    fn byz_phase2(&mut self, cx: &mut Cx, i: usize) {
        // whatever its own code thinks, it publishes commitments
        let k = cx.below(7);
        if k == 6 {
            cx.fired("byz.commits.none");
            self.withheld = true;
            return;
        }
        let mut c = self.truth[i].clone();
        match k {
            0 => {
                cx.fired("byz.commits.one-wrong");
                let j = cx.below(c.len());
                c[j] = g(&rand_scalar());
            }
            1 => {
                cx.fired("byz.commits.secret-shifted");
                c[0] = add(&c[0], &g(&scalar(1)));
            }
            2 => {
                // agrees with the shares of t-1 of the others
                cx.fired("byz.commits.fits-some");
                let skip = cx.below(self.n);
                let mut pts: Vec<Dl> = self.orig[i].clone();
                pts.remove(skip);
                pts.truncate(self.t - 1);
                let mut d = self.orig[i][skip].clone();
                d.v = d.v + scalar(1);
                pts.push(d);
                c = commits_of(&pts, self.t);
            }
            3 => {
                cx.fired("byz.commits.short");
                c.pop();
            }
            4 => {
                cx.fired("byz.commits.long");
                c.push(null());
            }
            _ => (),
        }
        let mut sc = SC { index: i as u32, commitments: c, session_id: self.orig[i][0].sid.clone(), signature: vec![] };
        let h = cast::<_, rab::SecretCommits<S>>(&sc).hash(&suite()).unwrap();
        sc.signature = sign(&self.long[i], &h);
        self.authentic.insert(enc(&sc));
        self.broadcast(cx, i, "sc", &enc(&sc));
    }

    /// the second phase begins at node i
    fn phase2(&mut self, cx: &mut Cx, i: usize) -> Res {
        let nd = &mut self.nodes[i];
        if nd.sent2 {
            return Ok(());
        }
        nd.sent2 = true;
        let app = nd.own.values().filter(|x| **x).count();
        let want = app >= self.t && nd.own.len() == self.n;
        let got = nd.d.secret_commits();
        cx.ev(format!("{} n{i} secret commits -> {}", self.net.now, got.is_ok()));
        cx.st.checks += 1;
        match got {
            Err(e) => {
                ensure!(!want, "no secret commitments though the deal is certified", "node {i}: {e:?}");
            }
            Ok(sc) => {
                ensure!(want, "secret commitments of a deal which is not certified", "node {i}: {:?}", self.nodes[i].own);
                let sc: SC = cast(&sc);
                ensure!(
                    sc.commitments == self.truth[i] && sc.index as usize == i && sc.session_id == self.orig[i][0].sid,
                    "the secret commitments are not those of the dealt secret",
                    "node {i}"
                );
                self.nodes[i].p2.commits.insert(i, sc.commitments.clone());
                self.authentic.insert(enc(&sc));
                self.broadcast(cx, i, "sc", &enc(&sc));
            }
        }
        self.compare(cx, i)
    }

    fn qual(&self, i: usize) -> BTreeSet<usize> {
        (0..self.n).filter(|k| self.nodes[i].m[*k].certified()).collect()
    }

    /// is the commitment polynomial of the right length and does it fit the share?
    fn fits(&self, c: &[P], i: usize, v: &Sc) -> bool {
        c.len() == self.t && eval_commits(c, i) == g(v)
    }

    fn add_rc(t: usize, p2: &mut Phase2, k: usize, idx: usize, share: (usize, Sc)) -> bool {
        let e = p2.pending.entry(k).or_default();
        if e.contains_key(&idx) {
            return false;
        }
        e.insert(idx, share);
        if e.len() >= t {
            let pts: Vec<Dl> = e
                .values()
                .map(|(i, v)| Dl { sid: vec![], i: *i, v: v.clone(), rnd: None, t, commits: vec![] })
                .collect();
            p2.commits.insert(k, commits_of(&pts, t));
            p2.rebuilt.insert(k);
            p2.pending.remove(&k);
        }
        true
    }

    fn deliver(&mut self, cx: &mut Cx, m: &Msg) -> Res {
        let i = m.to;
        let before = self.nodes[i].d.clone();
        let mut changed = true;
        let mut pend = false;
        match m.kind {
            "deal" => {
                let d: rab::Deal<P> = match dec(&m.bytes) {
                    Some(d) => d,
                    None => return Ok(()),
                };
                let can = enc(&d);
                let k = d.index as usize;
                let got = self.nodes[i].d.process_deal(&d);
                let issued = self.deals.get(k).and_then(|x| x.get(&i)).filter(|y| y.1 == can).map(|y| y.0.clone());
                let mut want = None;
                if let Some(dl) = issued {
                    let md = &mut self.nodes[i].m[k];
                    if let DealOutcome::Answer { sid, mut ok } = md.on_deal(&dl) {
                        if dl.t != self.t {
                            ok = false;
                            md.bad = true;
                            md.resp.insert(i, false);
                        }
                        md.resp.entry(k).or_insert(true);
                        want = Some((sid, ok));
                    }
                }
                cx.ev(format!("{} n{i} deal of {k} -> {}", self.net.now, got.is_ok()));
                match (want, got) {
                    (None, Ok(_)) => return violation("a deal was accepted which must not be", format!("node {i}, dealer {k}")),
                    (None, Err(_)) => changed = false,
                    (Some(_), Err(e)) => return violation("a deal got no answer", format!("node {i}, dealer {k}: {e:?}")),
                    (Some((sid, ok)), Ok(r)) => {
                        let r: OResp = cast(&r);
                        ensure!(
                            r.response.ok == ok,
                            if ok { "a valid deal was complained about" } else { "an invalid deal was approved" },
                            "node {i}, dealer {k}"
                        );
                        ensure!(
                            r.index as usize == k && r.response.session_id == sid && r.response.index as usize == i,
                            "the answer is about something else",
                            "node {i}, dealer {k}"
                        );
                        if !ok {
                            cx.probe("complaint");
                        }
                        self.authentic.insert(enc(&r.response));
                        self.broadcast(cx, i, "resp", &enc(&r));
                    }
                }
            }
            "resp" => {
                let r: rab::Response = match dec(&m.bytes) {
                    Some(d) => d,
                    None => return Ok(()),
                };
                let o: OResp = cast(&r);
                let auth = self.authentic.contains(&enc(&o.response));
                let k = o.index as usize;
                let idx = o.response.index as usize;
                let got = self.nodes[i].d.process_response(&r);
                let nd = &mut self.nodes[i];
                let mut want = false;
                let mut want_just = false;
                if k < self.n {
                    let early = nd.m[k].deal.is_none();
                    want = nd.m[k].on_resp(&o.response, auth);
                    if want && k == i {
                        nd.own.insert(idx, o.response.ok);
                        if !o.response.ok {
                            want_just = true;
                            nd.m[k].on_just(idx, &self.orig[k][idx]);
                        }
                    }
                    pend = !want && auth && early;
                }
                cx.ev(format!("{} n{i} resp of {idx} about {k}: {} auth={auth} -> {:?}", self.net.now, o.response.ok, got.as_ref().map(|x| x.is_some()).map_err(|_| ())));
                ensure!(
                    got.is_ok() == want,
                    if want { "a genuine response was refused" } else { "a response was accepted which must not be" },
                    "node {i}: response of {idx} about dealer {k}, ok={} authentic={auth}: {:?}",
                    o.response.ok,
                    got.err()
                );
                changed = want;
                if let Ok(j) = got {
                    ensure!(j.is_some() == want_just, "a complaint and its justification do not go together", "node {i}: response of {idx} about dealer {k}: ok={}", o.response.ok);
                    if let Some(j) = j {
                        let o: OJust = cast(&j);
                        ensure!(
                            o.index as usize == k && o.justification.index as usize == idx && r_dl(o.justification.deal.clone()) == self.orig[k][idx],
                            "the justification reveals another deal",
                            "node {i}: complaint of {idx}"
                        );
                        self.broadcast(cx, i, "just", &enc(&j));
                    }
                }
            }
            "just" => {
                let j: rab::Justification<S> = match dec(&m.bytes) {
                    Some(d) => d,
                    None => return Ok(()),
                };
                let o: OJust = cast(&j);
                let (k, idx) = (o.index as usize, o.justification.index as usize);
                let dl = r_dl(o.justification.deal);
                let got = self.nodes[i].d.process_justification(&j);
                let nd = &mut self.nodes[i];
                let mut want = false;
                changed = false;
                if k < self.n {
                    changed = nd.m[k].just_counts(idx);
                    pend = !changed;
                    want = nd.m[k].on_just(idx, &dl);
                }
                cx.ev(format!("{} n{i} just {idx} by {k} counts={changed} -> {}", self.net.now, got.is_ok()));
                ensure!(
                    got.is_ok() == want,
                    if want { "a right justification was refused" } else { "a justification was accepted which must not be" },
                    "node {i}: dealer {k}, complaint of {idx}: {got:?}"
                );
                if changed {
                    cx.probe(if want { "complaint justified" } else { "dealer flagged by its justification" });
                }
            }
            "sc" => {
                let s: rab::SecretCommits<S> = match dec(&m.bytes) {
                    Some(d) => d,
                    None => return Ok(()),
                };
                let o: SC = cast(&s);
                let auth = self.authentic.contains(&enc(&o));
                let k = o.index as usize;
                let inq = k < self.n && self.nodes[i].m[k].certified();
                let own = if k < self.n { self.nodes[i].m[k].own().cloned() } else { None };
                let got = self.nodes[i].d.process_secret_commits(&s);
                let nd = &self.nodes[i];
                let inq_later = k < self.n && !(inq && own.as_ref().map_or(false, |d| nd.m[k].valid(d)));
                // Err, nothing new, stored, complaint
                let mut want = 0;
                if inq && o.session_id == nd.m[k].sid {
                    let void = nd.p2.rebuilt.contains(&k) || nd.p2.pending.get(&k).map_or(false, |x| x.contains_key(&i));
                    if void {
                        want = 1;
                    } else if auth && own.as_ref().map_or(false, |d| nd.m[k].valid(d)) {
                        // (whoever complained in vain has no share to check them against)
                        want = if self.fits(&o.commitments, i, &own.as_ref().unwrap().v) { 2 } else { 3 };
                    }
                }
                // it is too early before the certification, and before the justification
                pend = want == 0 && auth && inq_later;
                cx.ev(format!("{} n{i} commitments of {k} auth={auth} want={want} -> {:?}", self.net.now, got.as_ref().map(|x| x.is_some()).map_err(|_| ())));
                ensure!(
                    got.is_ok() == (want > 0),
                    if want > 0 { "genuine secret commitments were refused" } else { "secret commitments were accepted which must not be" },
                    "node {i}, dealer {k}, authentic={auth} qualified={inq}: {:?}",
                    got.err()
                );
                changed = want >= 2;
                match want {
                    2 => {
                        self.nodes[i].p2.commits.insert(k, o.commitments.clone());
                    }
                    3 => {
                        self.nodes[i].p2.rejected.insert(k, o.commitments.clone());
                    }
                    _ => (),
                }
                if let Ok(c) = got {
                    ensure!(
                        c.is_some() == (want == 3),
                        if want == 3 { "wrong secret commitments were not complained about" } else { "right secret commitments were complained about" },
                        "node {i}, dealer {k}"
                    );
                    if let Some(c) = c {
                        cx.probe("commitments complained about");
                        let c: CC = cast(&c);
                        ensure!(
                            c.index as usize == i && c.dealer_index as usize == k && Some(r_dl(c.deal.clone())) == own,
                            "the complaint is about something else",
                            "node {i}, dealer {k}"
                        );
                        self.authentic.insert(enc(&c));
                        let b = enc(&c);
                        self.broadcast(cx, i, "cc", &b);
                        // and it handles its own complaint
                        let own = Msg { from: i, to: i, kind: "cc", bytes: std::rc::Rc::new(b), id: m.id + (1 << 40), tag: 0, attempt: 0 };
                        self.compare(cx, i)?;
                        self.deliver(cx, &own)?;
                        return Ok(());
                    }
                }
            }
            "cc" => {
                let s: rab::ComplaintCommits<S> = match dec(&m.bytes) {
                    Some(d) => d,
                    None => return Ok(()),
                };
                let o: CC = cast(&s);
                let auth = self.authentic.contains(&enc(&o));
                let (k, idx) = (o.dealer_index as usize, o.index as usize);
                let got = self.nodes[i].d.process_complaint_commits(&s);
                let nd = &self.nodes[i];
                let dl = r_dl(o.deal);
                let mut want = false;
                let mut void = false;
                if auth && idx < self.n && k < self.n && nd.m[idx].certified() && nd.m[k].deal.is_some() && nd.m[k].valid(&dl) {
                    let c = nd.p2.commits.get(&k).or(nd.p2.rejected.get(&k));
                    void = c.map_or(false, |c| !self.fits(c, dl.i, &dl.v));
                    // whoever holds no good share has none to give
                    want = void && nd.m[k].own().map_or(false, |d| nd.m[k].valid(d));
                }
                pend = auth && !void;
                cx.ev(format!("{} n{i} complaint of {idx} about the commitments of {k} auth={auth} void={void} -> {}", self.net.now, got.is_ok()));
                ensure!(
                    got.is_ok() == want,
                    if want { "a right complaint about commitments was refused" } else { "a complaint about commitments was accepted which must not be" },
                    "node {i}: complaint of {idx} about {k}, authentic={auth}: {:?}",
                    got.err()
                );
                changed = void;
                if void {
                    let p2 = &mut self.nodes[i].p2;
                    p2.commits.remove(&k);
                    p2.rejected.remove(&k);
                }
                if let Ok(rc) = got {
                    cx.probe("share revealed");
                    let rc: RC = cast(&rc);
                    let v = self.nodes[i].m[k].own().unwrap().v.clone();
                    ensure!(
                        rc.index as usize == i && rc.dealer_index as usize == k && rc.share.i == i && rc.share.v == v && rc.session_id == self.nodes[i].m[k].sid,
                        "another share was revealed",
                        "node {i}, dealer {k}: share {}",
                        rc.share.i
                    );
                    self.authentic.insert(enc(&rc));
                    Self::add_rc(self.t, &mut self.nodes[i].p2, k, i, (i, v));
                    self.broadcast(cx, i, "rc", &enc(&rc));
                }
            }
            "rc" => {
                let s: rab::ReconstructCommits<S> = match dec(&m.bytes) {
                    Some(d) => d,
                    None => return Ok(()),
                };
                let o: RC = cast(&s);
                let auth = self.authentic.contains(&enc(&o));
                let (k, idx) = (o.dealer_index as usize, o.index as usize);
                let got = self.nodes[i].d.process_reconstruct_commits(&s);
                let nd = &mut self.nodes[i];
                changed = false;
                let mut want = false;
                if k < self.n && nd.p2.rebuilt.contains(&k) {
                    want = true;
                } else if k < self.n && idx < self.n && auth && o.share.i == idx && !nd.p2.commits.contains_key(&k) && nd.m[k].deal.is_some() && nd.m[k].sid == o.session_id {
                    want = true;
                    changed = Self::add_rc(self.t, &mut nd.p2, k, idx, (o.share.i, o.share.v.clone()));
                    if nd.p2.rebuilt.contains(&k) {
                        cx.probe("polynomial reconstructed");
                    }
                }
                pend = auth && !want && o.share.i == idx;
                cx.ev(format!("{} n{i} share of {idx} of the polynomial of {k} auth={auth} -> {}", self.net.now, got.is_ok()));
                ensure!(
                    got.is_ok() == want,
                    if want { "a genuine revealed share was refused" } else { "a revealed share was accepted which must not be" },
                    "node {i}: share of {idx} of dealer {k}, authentic={auth}: {:?}",
                    got.err()
                );
            }
            _ => (),
        }
        if !changed {
            ensure!(same(&self.nodes[i].d, &before), "a refused message changed the node", "node {i}: {}", m.kind);
        }
        self.compare(cx, i)?;
        if pend {
            let nd = &mut self.nodes[i];
            if !nd.pend.iter().any(|x| x.id == m.id) {
                nd.pend.push_back(m.clone());
            }
        }
        Ok(())
    }

    fn useful(&self, i: usize, m: &Msg) -> bool {
        let nd = &self.nodes[i];
        match m.kind {
            "resp" => dec::<OResp>(&m.bytes).map_or(false, |o| nd.m.get(o.index as usize).map_or(false, |x| x.deal.is_some())),
            "just" => dec::<OJust>(&m.bytes).map_or(false, |o| nd.m.get(o.index as usize).map_or(false, |x| x.just_counts(o.justification.index as usize))),
            "sc" => dec::<SC>(&m.bytes).map_or(false, |o| nd.m.get(o.index as usize).map_or(false, |x| x.certified() && x.own().map_or(false, |d| x.valid(d)))),
            "cc" => dec::<CC>(&m.bytes).map_or(false, |o| {
                let k = o.dealer_index as usize;
                let d = r_dl(o.deal);
                nd.m.get(o.index as usize).map_or(false, |x| x.certified())
                    && nd.m.get(k).map_or(false, |x| x.deal.is_some() && x.valid(&d))
                    && nd.p2.commits.get(&k).or(nd.p2.rejected.get(&k)).map_or(false, |c| !self.fits(c, d.i, &d.v))
            }),
            "rc" => dec::<RC>(&m.bytes).map_or(false, |o| {
                let k = o.dealer_index as usize;
                nd.m.get(k).map_or(false, |x| x.deal.is_some()) && !nd.p2.commits.contains_key(&k)
            }),
            _ => false,
        }
    }

    fn flush(&mut self, cx: &mut Cx, i: usize) -> Res {
        for round in 0..4 {
            let k = self.nodes[i].pend.len();
            let mut any = false;
            for _ in 0..k {
                let m = match self.nodes[i].pend.pop_front() {
                    Some(m) => m,
                    None => break,
                };
                if self.useful(i, &m) {
                    any = true;
                    cx.probe("early message retried");
                    self.deliver(cx, &m)?;
                } else {
                    self.nodes[i].pend.push_back(m);
                }
            }
            if !any || round == 3 {
                break;
            }
        }
        Ok(())
    }

    fn compare(&mut self, cx: &mut Cx, i: usize) -> Res {
        cx.st.checks += 1;
        let nd = &self.nodes[i];
        let want = self.qual(i);
        let got = nd.d.qual();
        let gots: BTreeSet<usize> = got.iter().copied().collect();
        ensure!(
            gots == want && got.len() == want.len() && (0..self.n as u32).all(|k| nd.d.is_in_qual(k) == want.contains(&(k as usize))),
            "the qualified set differs from the messages received",
            "node {i}: {gots:?}, expected {want:?}"
        );
        ensure!(nd.d.certified() == (want.len() >= self.t), "the certification is wrong", "node {i}: {} qualified, t={}", want.len(), self.t);
        let have = want.iter().all(|k| nd.p2.commits.contains_key(k));
        ensure!(
            nd.d.finished() == (want.len() >= self.t && have),
            "finished() differs from the messages received",
            "node {i}: finished()={}, qualified {want:?}, commitments of {:?}",
            nd.d.finished(),
            nd.p2.commits.keys().collect::<Vec<_>>()
        );
        let mut h = fnv(0, &[i as u8]);
        for q in &want {
            h = fnv(h, &[*q as u8]);
        }
        for m in &nd.m {
            h = fnv(h, &[m.resp.len() as u8, m.deal.is_some() as u8, m.bad as u8]);
        }
        for k in 0..self.n {
            h = fnv(h, &[nd.p2.commits.contains_key(&k) as u8, nd.p2.rejected.contains_key(&k) as u8, nd.p2.rebuilt.contains(&k) as u8, nd.p2.pending.get(&k).map_or(0, |x| x.len()) as u8]);
        }
        cx.state(h);
        if cx.chance(20) {
            self.key_of(cx, i)?;
        }
        Ok(())
    }

    /// do all the shares fit the commitments? (those of whoever complained in
    /// vain may not)
    fn good_shares(&self, i: usize) -> bool {
        let nd = &self.nodes[i];
        self.qual(i).iter().all(|k| {
            let v = &nd.m[*k].own().unwrap().v;
            match nd.p2.commits.get(k) {
                Some(c) => self.fits(c, i, v),
                None => nd.m[*k].valid(nd.m[*k].own().unwrap()),
            }
        })
    }

    fn key_of(&self, cx: &mut Cx, i: usize) -> Res<Option<Dks>> {
        let nd = &self.nodes[i];
        let got = nd.d.dist_key_share();
        cx.st.checks += 1;
        let q = self.qual(i);
        let have = q.iter().all(|k| nd.p2.commits.contains_key(k));
        let want = q.len() >= self.t && have && self.good_shares(i);
        ensure!(
            got.is_ok() == want,
            if want { "no key share though the protocol is finished" } else { "a key share before the protocol is finished" },
            "node {i}: qualified {q:?}, t={}, commitments of {:?}: {:?}",
            self.t,
            nd.p2.commits.keys().collect::<Vec<_>>(),
            got.err()
        );
        let ks = match got {
            Ok(k) => k,
            Err(_) => return Ok(None),
        };
        cx.probe("key share");
        ensure!(ks.share.i == i, "a key share with another's index", "node {i}: {}", ks.share.i);
        ensure!(ks.commits.len() == self.t, "a key of another threshold", "node {i}: {} commitments, t={}", ks.commits.len(), self.t);
        ensure!(eval_commits(&ks.commits, i) == g(&ks.share.v), "a key share which is not on the public polynomial", "node {i}, qualified {q:?}");
        let mut v = scalar(0);
        let mut c = vec![null(); self.t];
        for k in &q {
            v = v + nd.m[*k].own().unwrap().v.clone();
            for (a, b) in c.iter_mut().zip(&nd.p2.commits[k]) {
                *a = add(a, b);
            }
        }
        ensure!(v == ks.share.v && c == ks.commits, "a key share which is not the sum of the qualified deals", "node {i}: qualified {q:?}");
        Ok(Some(ks))
    }

    fn crash(&mut self, cx: &mut Cx, i: usize) -> Res {
        if !self.honest(i) {
            return Ok(());
        }
        if cx.chance(600) {
            cx.fired("crash.node");
            self.nodes[i].d = restarted(&self.nodes[i].d, format!("node {i}"))?;
        } else {
            cx.fired("crash.node-rollback");
            torn(cx, &self.nodes[i].d)?;
            let since = std::mem::take(&mut self.nodes[i].since);
            let (out, sent2) = (self.nodes[i].out, self.nodes[i].sent2);
            let (b, n) = &self.snaps[i];
            let d = match dec::<Dkg>(b) {
                Some(d) => d,
                None => return violation("a saved node does not load", format!("node {i}")),
            };
            self.nodes[i] = Node { d, ..n.clone() };
            self.nodes[i].since = vec![];
            self.nodes[i].hold = self.net.now + 2000;
            if out {
                self.net.timer(2000, i, 0);
            }
            if sent2 {
                self.net.timer(2500, i, 1);
            }
            for m in since {
                self.net.put(cx, m);
            }
        }
        self.compare(cx, i)
    }

    fn snapshot(&mut self, i: usize) {
        self.nodes[i].since.clear();
        self.snaps[i] = (enc(&self.nodes[i].d), self.nodes[i].clone());
    }

    pub fn run(&mut self, cx: &mut Cx) -> Res<BTreeMap<usize, Dks>> {
        self.start(cx)?;
        let mut steps = 0;
        while let Some(e) = self.net.next(cx) {
            steps += 1;
            if steps > 20000 {
                break;
            }
            match e {
                Ev::Msg(m) => {
                    cx.step(m.kind, m.from, m.to);
                    let i = m.to;
                    if self.off[i] {
                        continue;
                    }
                    if self.byz[i] {
                        self.byz_deliver(cx, &m)?;
                        continue;
                    }
                    self.deliver(cx, &m)?;
                    self.flush(cx, i)?;
                    self.nodes[i].since.push(m);
                }
                Ev::Timer { node, what } => {
                    cx.step("timer", node, what as usize);
                    if self.off[node] {
                        continue;
                    }
                    if self.byz[node] {
                        if what == 1 {
                            self.byz_phase2(cx, node);
                        }
                        continue;
                    }
                    let hold = self.nodes[node].hold;
                    if what == 0 {
                        if self.net.now < hold && self.net.now >= T_OUT {
                            self.net.at(hold, Ev::Timer { node, what });
                            continue;
                        }
                        let nd = &mut self.nodes[node];
                        nd.d.set_timeout();
                        nd.out = true;
                        for m in &mut nd.m {
                            m.on_timeout();
                        }
                        for k in 0..self.n {
                            nd.own.entry(k).or_insert(false);
                        }
                        self.compare(cx, node)?;
                        self.flush(cx, node)?;
                    } else {
                        if !self.nodes[node].out {
                            self.net.timer(500, node, 1);
                            continue;
                        }
                        self.phase2(cx, node)?;
                        self.flush(cx, node)?;
                    }
                }
            }
            if cx.crash(self.cfg.crash) {
                let i = cx.below(self.n);
                self.crash(cx, i)?;
            }
            if self.cfg.crash > 0 && cx.chance(40) {
                let i = cx.below(self.n);
                self.snapshot(i);
            }
        }
        self.end(cx)
    }

    fn end(&mut self, cx: &mut Cx) -> Res<BTreeMap<usize, Dks>> {
        let mut out: BTreeMap<usize, Dks> = BTreeMap::new();
        let mut hold = 0;
        for i in 0..self.n {
            if !self.honest(i) {
                continue;
            }
            hold += 1;
            self.compare(cx, i)?;
            if let Some(k) = self.key_of(cx, i)? {
                out.insert(i, k);
            }
            for k in 0..self.n {
                if self.honest(k) {
                    ensure!(!self.nodes[i].m[k].bad, "an honest dealer was found bad", "node {i}, dealer {k}");
                    ensure!(!self.nodes[i].p2.rebuilt.contains(&k), "an honest dealer's secret was revealed", "node {i}, dealer {k}");
                }
            }
        }
        let ids: Vec<usize> = out.keys().copied().collect();
        for a in &ids {
            let view = |i: usize| -> Vec<(usize, Vec<u8>)> { self.qual(i).into_iter().map(|k| (k, self.nodes[i].m[k].sid.clone())).collect() };
            if view(*a) == view(ids[0]) {
                ensure!(out[a].commits == out[&ids[0]].commits, "same qualified dealers, different keys", "nodes {a} and {}: {:?}", ids[0], self.qual(*a));
            }
        }
        let sync = self.clean && self.late && self.cfg.reliable && self.cfg.attacker == 0;
        if !sync {
            return Ok(out);
        }
        cx.probe("agreement required");
        let hs: Vec<usize> = (0..self.n).filter(|i| self.honest(*i)).collect();
        for a in &hs {
            ensure!(self.qual(*a) == self.qual(hs[0]), "honest nodes disagree on the qualified set", "nodes {a} and {}: {:?} {:?}", hs[0], self.qual(*a), self.qual(hs[0]));
        }
        for a in &ids {
            ensure!(out[a].commits == out[&ids[0]].commits, "honest nodes disagree on the key", "nodes {a} and {}", ids[0]);
        }
        if hold >= self.t {
            for a in &hs {
                for k in &hs {
                    ensure!(self.qual(*a).contains(k), "an honest dealer is not qualified", "node {a}, dealer {k}");
                }
            }
            // a qualified dealer has to publish something
            let silent = self.withheld && self.qual(hs[0]).iter().any(|k| !self.nodes[hs[0]].p2.commits.contains_key(k) && self.byz[*k]);
            let all_good = hs.iter().filter(|i| self.good_shares(**i)).count();
            if !silent && all_good >= self.t {
                cx.probe("progress required");
                for a in &hs {
                    if self.good_shares(*a) {
                        ensure!(out.contains_key(a), "an honest node got no key share", "node {a}: {} honest, t={}, qualified {:?}, commitments of {:?}, rejected {:?}", hs.len(), self.t, self.qual(*a), self.nodes[*a].p2.commits.keys().collect::<Vec<_>>(), self.nodes[*a].p2.rejected.keys().collect::<Vec<_>>());
                    }
                }
            }
        }
        if ids.len() >= self.t {
            let mut sh: Vec<(usize, Sc)> = out.values().map(|k| (k.share.i, k.share.v.clone())).collect();
            cx.shuffle(&mut sh);
            sh.truncate(self.t);
            let sec = interpolate(&sh).unwrap();
            ensure!(g(&sec) == out[&ids[0]].public(), "t shares do not make the key", "t={}", self.t);
            let mut want = scalar(0);
            for k in self.qual(ids[0]) {
                let v: Vec<(usize, Sc)> = self.orig[k][..self.t].iter().map(|d| (d.i, d.v.clone())).collect();
                want = want + interpolate(&v).unwrap();
            }
            ensure!(sec == want, "the secret is not the sum of the qualified dealers' secrets", "t={}", self.t);
            cx.probe("secret recovered");
        }
        Ok(out)
    }
}

fn go(cx: &mut Cx, cfg: Cfg) -> Res {
    World::new(cx, cfg)?.run(cx)?;
    Ok(())
}

pub fn agreement(cx: &mut Cx) -> Res {
    let byz = cx.pick(&[0, 150, 300, 400]);
    let offline = cx.pick(&[0, 0, 100]);
    let crash = cx.pick(&[0, 0, 20, 60]);
    go(cx, Cfg { byz, offline, crash, reliable: true, ..Default::default() })
}

pub fn adverse(cx: &mut Cx) -> Res {
    let byz = cx.pick(&[0, 200, 400]);
    let early_timeout = cx.pick(&[0, 300]);
    let crash = cx.pick(&[0, 40]);
    let reliable = cx.chance(400);
    go(cx, Cfg { byz, unclean: true, early_timeout, crash, reliable, ..Default::default() })
}

pub fn progress(cx: &mut Cx) -> Res {
    let byz = cx.pick(&[0, 150, 250]);
    let offline = cx.pick(&[0, 0, 200]);
    let crash = cx.pick(&[0, 0, 50]);
    let dup = cx.chance(300);
    go(cx, Cfg { byz, offline, crash, reliable: true, dup, ..Default::default() })
}

pub fn attacked(cx: &mut Cx) -> Res {
    let attacker = cx.pick(&[100, 300]);
    let byz = cx.pick(&[0, 150, 250]);
    go(cx, Cfg { byz, attacker, reliable: true, ..Default::default() })
}

pub fn crashing(cx: &mut Cx) -> Res {
    let crash = cx.pick(&[60, 200]);
    let byz = cx.pick(&[0, 150, 250]);
    go(cx, Cfg { byz, crash, reliable: true, ..Default::default() })
}

pub fn duplicated(cx: &mut Cx) -> Res {
    let byz = cx.pick(&[0, 200, 300]);
    go(cx, Cfg { byz, dup: true, reliable: true, ..Default::default() })
}

#[allow(dead_code)]
fn _unused() {
    let _ = pri(0, scalar(0));
    let _: Option<rvss::Response> = None;
}
