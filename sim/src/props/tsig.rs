//! C09: threshold Schnorr signing of several messages at once, by the holders
//! of a distributed key (of either DKG), over the simulated network.
use super::flavor::pri;
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::net::*;
use kyber_rs::share::dkg;
use kyber_rs::share::poly::PriShare;
use kyber_rs::sign::dss::{self, DistKeyShare, PartialSig, DSS};
use kyber_rs::sign::eddsa;
use kyber_rs::Scalar;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub type PDks = dkg::pedersen::structs::DistKeyShare<S>;
pub type RDks = dkg::rabin::DistKeyShare<S>;

pub trait Key: DistKeyShare<S> + Serialize + DeserializeOwned + 'static {
    fn make(commits: &[P], i: usize, v: Sc) -> Self;
    /// commitments and share
    fn parts(&self) -> (Vec<P>, usize, Sc);
}
impl Key for PDks {
    fn make(commits: &[P], i: usize, v: Sc) -> Self {
        let mut k = PDks::default();
        k.commits = commits.to_vec();
        k.share = pri(i, v);
        k
    }
    fn parts(&self) -> (Vec<P>, usize, Sc) {
        (self.commits.clone(), self.share.i, self.share.v.clone())
    }
}
impl Key for RDks {
    fn make(commits: &[P], i: usize, v: Sc) -> Self {
        let mut k = RDks::default();
        k.commits = commits.to_vec();
        k.share = pri(i, v);
        k
    }
    fn parts(&self) -> (Vec<P>, usize, Sc) {
        (self.commits.clone(), self.share.i, self.share.v.clone())
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Part {
    pub partial: PriShare<Sc>,
    pub session_id: Vec<u8>,
    pub signature: Vec<u8>,
}

/// a key shared among n with threshold t: commitments, shares, secret
pub fn shared<K: Key>(n: usize, t: usize) -> (Vec<P>, Vec<K>, Vec<Sc>, Sc) {
    let f: Vec<Sc> = (0..t).map(|_| rand_scalar()).collect();
    let commits: Vec<P> = f.iter().map(g).collect();
    let mut vs = vec![];
    for i in 0..n {
        let x = scalar(i as i64 + 1);
        let mut v = scalar(0);
        for c in f.iter().rev() {
            v = v * x.clone() + c.clone();
        }
        vs.push(v);
    }
    let ks = vs.iter().enumerate().map(|(i, v)| K::make(&commits, i, v.clone())).collect();
    (commits, ks, vs, f[0].clone())
}

struct Node<K: Key> {
    d: DSS<S, K>,
    have: BTreeSet<usize>,
    snap: (Vec<u8>, BTreeSet<usize>),
    since: Vec<Msg>,
}

struct Sess<K: Key> {
    msg: Vec<u8>,
    long: Vec<P>,
    random: Vec<P>,
    h: Sc,
    nodes: Vec<Option<Node<K>>>,
    truth: Vec<Sc>,
}

pub fn challenge(r: &P, a: &P, msg: &[u8]) -> Sc {
    use sha2::Digest;
    let mut h = sha2::Sha512::new();
    h.update(pbytes(r));
    h.update(pbytes(a));
    h.update(msg);
    use kyber_rs::Group;
    suite().scalar().set_bytes(&h.finalize())
}

pub fn p_hash(p: &Part) -> Vec<u8> {
    cast::<_, PartialSig<S>>(p).hash(suite()).unwrap()
}

#[derive(Clone, Default)]
pub struct Cfg {
    pub byz: u64,
    pub attacker: u64,
    pub crash: u64,
    pub reliable: bool,
    pub dup: bool,
}

/// one signing session: the message, and the shares of both keys, by index
pub struct Job<K: Key> {
    pub msg: Vec<u8>,
    pub lk: Vec<Option<K>>,
    pub rk: Vec<Option<K>>,
}

fn sign_all<K: Key>(cx: &mut Cx, cfg: Cfg) -> Res {
    let n = cx.people(2, 6);
    let t = cx.range(2, n);
    let (keys, pubs) = keypairs(n);
    let (_, lk, _, _) = shared::<K>(n, t);
    let nsess = cx.range(1, 3);
    // the threshold asked for may be above the one of the key
    let want_t = if cx.chance(150) { cx.range(t, n) } else { t };
    let mut jobs = vec![];
    for _ in 0..nsess {
        let len = cx.pick(&[0, 1, 32, 63, 64, 65, 127, 128, 129, 300]);
        let len = cx.big(len);
        let msg = cx.bytes(len);
        // the one-time key may have been made with another threshold
        let rt = if cx.chance(300) { cx.range(1, want_t) } else { t };
        if rt != t {
            cx.probe("another-threshold");
        }
        let (_, rk, _, _) = shared::<K>(n, rt);
        jobs.push(Job { msg, lk: lk.iter().cloned().map(Some).collect(), rk: rk.into_iter().map(Some).collect() });
    }
    // an outsider cannot take part
    ensure!(
        dss::new_dss(suite(), &rand_scalar(), &pubs, &lk[0], &lk[0], b"x", t).is_err(),
        "a signing session for someone who is no participant",
        "n={n}"
    );
    sessions(cx, &cfg, &keys, &pubs, want_t, jobs)?;
    Ok(())
}

/// runs the sessions side by side; the signatures made
pub fn sessions<K: Key>(cx: &mut Cx, cfg: &Cfg, keys: &[Sc], pubs: &[P], want_t: usize, jobs: Vec<Job<K>>) -> Res<Vec<Option<Vec<u8>>>> {
    let n = keys.len();
    let nsess = jobs.len();
    let byz: Vec<bool> = (0..n).map(|_| cx.chance(cfg.byz)).collect();
    let here = |j: &Job<K>, i: usize| j.lk[i].is_some() && j.rk[i].is_some();
    let mut ss: Vec<Sess<K>> = vec![];
    for j in jobs {
        let lc = j.lk.iter().flatten().next().expect("HARNESS: no share").parts().0;
        let rc = j.rk.iter().flatten().next().expect("HARNESS: no share").parts().0;
        let h = challenge(&rc[0], &lc[0], &j.msg);
        let mut nodes = vec![];
        let mut truth = vec![];
        for i in 0..n {
            if !here(&j, i) {
                nodes.push(None);
                truth.push(scalar(0));
                continue;
            }
            let (lk, rk) = (j.lk[i].as_ref().unwrap(), j.rk[i].as_ref().unwrap());
            let d = match dss::new_dss(suite(), &keys[i], pubs, lk, rk, &j.msg, want_t) {
                Ok(d) => d,
                Err(e) => return violation("a valid signing session was refused", format!("{e:?}")),
            };
            nodes.push(Some(Node { snap: (enc(&d), BTreeSet::new()), d, have: BTreeSet::new(), since: vec![] }));
            truth.push(h.clone() * lk.parts().2 + rk.parts().2);
        }
        ss.push(Sess { msg: j.msg, long: lc, random: rc, h, nodes, truth });
    }
    let mut net = Net::swarm(cx, n, 3000, cfg.reliable);
    if cfg.dup {
        net.cfg.dup = cx.pick(&[100, 400]);
    }
    let mut authentic: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut sids = vec![];
    for s in ss.iter() {
        let one = match s.nodes.iter().flatten().next() {
            Some(x) => x.d.session_id.clone(),
            None => return Ok(vec![None; nsess]),
        };
        sids.push(one.clone());
        ensure!(s.nodes.iter().flatten().all(|x| x.d.session_id == one), "the nodes disagree on the session", "n={n}");
    }
    for a in 0..nsess {
        for b in 0..a {
            ensure!(sids[a] != sids[b], "two sessions with the same id", "{a} {b}");
        }
    }
    for s in 0..nsess {
        for i in 0..n {
            let at = cx.below(200) as u64;
            net.at(at, Ev::Timer { node: i, what: s as u32 });
        }
    }
    let mut steps = 0;
    while let Some(e) = net.next(cx) {
        steps += 1;
        if steps > 8000 {
            break;
        }
        match e {
            Ev::Timer { node: i, what } => {
                let s = what as usize;
                cx.step("sign", i, s);
                let r = match &mut ss[s].nodes[i] {
                    Some(x) => x.d.partial_sig(),
                    None => continue,
                };
                let p: Part = match r {
                    Ok(p) => cast(&p),
                    Err(e) => return violation("a node could not sign", format!("{e:?}")),
                };
                let want = Part { partial: pri(i, ss[s].truth[i].clone()), session_id: sids[s].clone(), signature: p.signature.clone() };
                ensure!(p == want, "a partial signature is not the share of the signature", "node {i}, session {s}");
                ss[s].nodes[i].as_mut().unwrap().have.insert(i);
                cx.ev(format!("{} n{i} signs {s}", net.now));
                check(cx, &ss[s], i, want_t)?;
                let mut out = vec![p.clone()];
                if byz[i] {
                    let mut q = p.clone();
                    match cx.below(8) {
                        0 => {
                            cx.fired("byz.partial.none");
                            out.clear();
                        }
                        1 => {
                            cx.fired("byz.partial.wrong");
                            q.partial.v = q.partial.v.clone() + scalar(1);
                            out = vec![q];
                        }
                        2 => {
                            cx.fired("byz.partial.wrong-then-right");
                            q.partial.v = q.partial.v.clone() + scalar(1);
                            out = vec![q, p.clone()];
                        }
                        3 => {
                            cx.fired("byz.partial.other-session-share");
                            let o = (s + 1) % nsess;
                            q.partial.v = ss[o].truth[i].clone();
                            out = vec![q];
                        }
                        4 => {
                            cx.fired("byz.partial.other-session-id");
                            q.session_id = sids[(s + 1) % nsess].clone();
                            out = vec![q, p.clone()];
                        }
                        5 => {
                            cx.fired("byz.partial.as-another");
                            q.partial.i = cx.pick(&[(i + 1) % n, 0, n - 1, n, usize::MAX]);
                            if q.partial.i < n {
                                q.partial.v = ss[s].truth[q.partial.i].clone();
                            }
                            out = vec![q, p.clone()];
                        }
                        6 => {
                            cx.fired("byz.partial.zero");
                            q.partial.v = scalar(0);
                            out = vec![q];
                        }
                        _ => {
                            cx.fired("byz.partial.empty-session-id");
                            q.session_id = vec![];
                            out = vec![q, p.clone()];
                        }
                    }
                    for q in &mut out {
                        if *q != p {
                            q.signature = sign(&keys[i], &p_hash(q));
                        }
                    }
                }
                for q in out {
                    if q.partial.i == i {
                        authentic.insert(enc(&q));
                    }
                    for j in 0..n {
                        if j != i {
                            attack(cx, &mut net, cfg, i, j, s, &q, nsess, n, &keys);
                            net.send_tagged(cx, i, j, "partial", enc(&q), s as u32);
                        }
                    }
                }
            }
            Ev::Msg(m) => {
                let i = m.to;
                let s = m.tag as usize;
                cx.step("partial", m.from, i);
                let p: Part = match dec(&m.bytes) {
                    Some(p) => p,
                    None => continue,
                };
                let auth = authentic.contains(&enc(&p));
                let x = p.partial.i;
                let se = &mut ss[s];
                let nd = match &mut se.nodes[i] {
                    Some(nd) => nd,
                    None => continue,
                };
                let right = x < n && {
                    let want = add(&eval_commits(&se.random, x), &kyber_rs_mul(&eval_commits(&se.long, x), &se.h));
                    g(&p.partial.v) == want
                };
                let want = auth && right && p.session_id == sids[s] && !nd.have.contains(&x);
                let before = canon(&nd.d);
                let got = nd.d.process_partial_sig(cast(&p));
                cx.st.checks += 1;
                cx.ev(format!("{} n{i} session {s} partial of {x} auth={auth} right={right} -> {}", net.now, got.is_ok()));
                ensure!(
                    got.is_ok() == want,
                    if want { "a right partial signature was refused" } else { "a partial signature was accepted which must not be" },
                    "node {i}, session {s}: partial of {x}, authentic={auth} right={right} this session={}: {got:?}",
                    p.session_id == sids[s]
                );
                if want {
                    nd.have.insert(x);
                } else {
                    ensure!(canon(&nd.d) == before, "a refused partial signature changed the session", "node {i}");
                }
                nd.since.push(m);
                check(cx, &ss[s], i, want_t)?;
            }
        }
        if cx.crash(cfg.crash) {
            let s = cx.below(nsess);
            let i = cx.below(n);
            let nd = match &mut ss[s].nodes[i] {
                Some(nd) => nd,
                None => continue,
            };
            if cx.chance(500) {
                cx.fired("crash.node");
                nd.d = restarted(&nd.d, format!("node {i}"))?;
            } else {
                cx.fired("crash.node-rollback");
                torn(cx, &nd.d)?;
                nd.d = match dec::<DSS<S, K>>(&nd.snap.0) {
                    Some(d) => d,
                    None => return violation("a saved session does not load", format!("node {i}")),
                };
                nd.have = nd.snap.1.clone();
                for m in std::mem::take(&mut nd.since) {
                    net.put(cx, m);
                }
                // and signs again
                net.timer(5, i, s as u32);
            }
            check(cx, &ss[s], i, want_t)?;
        }
        if cfg.crash > 0 && cx.chance(60) {
            let s = cx.below(nsess);
            let i = cx.below(n);
            if let Some(nd) = &mut ss[s].nodes[i] {
                nd.snap = (enc(&nd.d), nd.have.clone());
                nd.since.clear();
            }
        }
    }
    // all signatures are one and the same
    let mut out = vec![];
    for (k, s) in ss.iter().enumerate() {
        let honest: Vec<usize> = (0..n).filter(|i| !byz[*i] && s.nodes[*i].is_some()).collect();
        let mut sigs: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
        for nd in s.nodes.iter().flatten() {
            if let Ok(x) = nd.d.signature() {
                cx.probe("signature");
                *sigs.entry(x).or_insert(0) += 1;
            }
        }
        ensure!(sigs.len() <= 1, "the nodes made different signatures", "session {k}");
        if cfg.reliable && honest.len() >= want_t {
            cx.probe("progress required");
            for i in &honest {
                ensure!(s.nodes[*i].as_ref().unwrap().d.signature().is_ok(), "no signature though enough nodes signed", "session {k}, node {i}: {} honest of {n}, t={want_t}", honest.len());
            }
        }
        out.push(sigs.into_keys().next());
    }
    Ok(out)
}

fn kyber_rs_mul(p: &P, s: &Sc) -> P {
    use kyber_rs::{Group, Point};
    suite().point().mul(s, Some(p))
}

#[allow(clippy::too_many_arguments)]
fn attack(cx: &mut Cx, net: &mut Net, cfg: &Cfg, from: usize, to: usize, s: usize, p: &Part, nsess: usize, n: usize, _keys: &[Sc]) {
    if !cx.chance(cfg.attacker) {
        return;
    }
    let mut q = p.clone();
    let mut tag = s;
    let mut to = to;
    let b = match cx.below(7) {
        0 => {
            cx.fired("attack.alter");
            corrupt(cx, &enc(&q))
        }
        1 => {
            cx.fired("attack.other-index");
            q.partial.i = cx.pick(&[0, 1, n - 1, n, n + 1, usize::MAX, 1 << 32]);
            enc(&q)
        }
        2 => {
            cx.fired("attack.other-share");
            q.partial.v = q.partial.v.clone() + scalar(1);
            enc(&q)
        }
        3 => {
            cx.fired("attack.replay-other-session");
            tag = (s + 1) % nsess;
            enc(&q)
        }
        4 => {
            cx.fired("attack.relabel-session");
            q.session_id = cx.bytes(32);
            enc(&q)
        }
        5 => {
            cx.fired("attack.own-key");
            q.signature = sign(&rand_scalar(), &p_hash(&q));
            enc(&q)
        }
        _ => {
            cx.fired("attack.redirect");
            to = cx.below(n);
            enc(&q)
        }
    };
    net.send_tagged(cx, from, to, "partial", b, tag as u32);
}

fn check<K: Key>(cx: &mut Cx, s: &Sess<K>, i: usize, t: usize) -> Res {
    cx.st.checks += 1;
    let nd = s.nodes[i].as_ref().unwrap();
    let enough = nd.have.len() >= t;
    ensure!(
        nd.d.enough_partial_sig() == enough,
        "the count of partial signatures is wrong",
        "node {i}: enough_partial_sig()={}, {} of {t}",
        nd.d.enough_partial_sig(),
        nd.have.len()
    );
    let mut h = fnv(0, &[i as u8, t as u8]);
    for x in &nd.have {
        h = fnv(h, &[*x as u8]);
    }
    cx.state(h);
    let sig = nd.d.signature();
    ensure!(
        sig.is_ok() == enough,
        if enough { "no signature from enough partial ones" } else { "a signature from less than t partial ones" },
        "node {i}: {} of {t}",
        nd.have.len()
    );
    if let Ok(sig) = sig {
        let ok = sig.len() == 64 && sig[..32] == pbytes(&s.random[0])[..] && {
            let z: Option<Sc> = {
                use kyber_rs::encoding::BinaryUnmarshaler;
                use kyber_rs::Group;
                let mut z = suite().scalar();
                z.unmarshal_binary(&sig[32..]).ok().map(|_| z)
            };
            z.map_or(false, |z| g(&z) == add(&s.random[0], &kyber_rs_mul(&s.long[0], &s.h)))
        };
        ensure!(ok, "a threshold signature is not a signature under the key", "node {i}: from partials of {:?}, t={t}", nd.have);
        ensure!(dss::verify(&s.long[0], &s.msg, &sig).is_ok() && eddsa::verify(&s.long[0], &s.msg, &sig).is_ok(), "a threshold signature does not verify", "node {i}");
        if cx.chance(100) {
            let mut m2 = s.msg.clone();
            m2.push(1);
            ensure!(dss::verify(&s.long[0], &m2, &sig).is_err(), "a threshold signature verifies for another message", "node {i}");
            let bad = corrupt(cx, &sig);
            ensure!(bad == sig || dss::verify(&s.long[0], &s.msg, &bad).is_err(), "an altered threshold signature verifies", "node {i}: {}", hex::encode(&bad));
        }
    }
    Ok(())
}

fn either(cx: &mut Cx, cfg: Cfg) -> Res {
    if cx.chance(400) {
        sign_all::<RDks>(cx, cfg)
    } else {
        sign_all::<PDks>(cx, cfg)
    }
}

pub fn signing(cx: &mut Cx) -> Res {
    let byz = cx.pick(&[0, 200, 400]);
    let crash = cx.pick(&[0, 0, 40]);
    let reliable = cx.chance(700);
    either(cx, Cfg { byz, attacker: 0, crash, reliable, dup: false })
}

pub fn attacked(cx: &mut Cx) -> Res {
    let byz = cx.pick(&[0, 200]);
    let attacker = cx.pick(&[200, 600]);
    either(cx, Cfg { byz, attacker, crash: 0, reliable: true, dup: false })
}

pub fn crashing(cx: &mut Cx) -> Res {
    let crash = cx.pick(&[100, 300]);
    either(cx, Cfg { byz: 100, attacker: 0, crash, reliable: true, dup: false })
}

pub fn duplicated(cx: &mut Cx) -> Res {
    let byz = cx.pick(&[0, 300]);
    let crash = cx.pick(&[0, 0, 50]);
    either(cx, Cfg { byz, attacker: 0, crash, reliable: true, dup: true })
}
