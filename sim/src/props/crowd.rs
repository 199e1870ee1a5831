//! Large groups: a handful of participants run the real code, all the others
//! are silent (DKGs) or their answers are made by the simulator (VSS). What
//! depends on the number of participants, or on the index of one, shows here:
//! the participants that run sit at the edges of the ranges an index may be
//! cut to, and some of their indices differ by a power of two only.
use super::dkg::{self, Dks, SimReader};
use super::flavor::{r_dl, Dl, Pedersen, Rabin, Vss};
use super::rdkg::{self, commits_of};
use super::tsig::{self, Job, Key};
use super::vss::{DealOutcome, Model};
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::net::*;
use kyber_rs::share::dkg::pedersen::structs::{Deal as GDeal, Response as GResp};
use kyber_rs::share::dkg::pedersen::{new_dist_key_handler, Config};
use kyber_rs::share::dkg::rabin as rab;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

fn es<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}

fn size(cx: &mut Cx, most: usize) -> usize {
    let v: Vec<usize> = [17, 33, 64, 65, 100, 129, 200, 257, 258, 300].iter().copied().filter(|x| *x <= most).collect();
    cx.pick(&v)
}

/// k indices in 0..n, in order
fn seats(cx: &mut Cx, n: usize, k: usize) -> Vec<usize> {
    let edge = [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, n - 1, n - 2];
    let mut s: BTreeSet<usize> = BTreeSet::new();
    if cx.chance(600) {
        // two which are the same once cut
        let ds: Vec<usize> = [256usize, 128, 64, 32, 16].iter().copied().filter(|d| *d < n).collect();
        let d = if cx.chance(500) { ds[0] } else { cx.pick(&ds) };
        let b = cx.below((n - d).min(3));
        s.extend([b, b + d]);
    }
    while s.len() < k {
        let i = if cx.chance(600) { cx.pick(&edge) } else { cx.below(n) };
        if i < n {
            s.insert(i);
        } else {
            s.insert(cx.below(n));
        }
    }
    s.into_iter().take(k).collect()
}

/// the participants that run, and the public keys of all
struct Crowd {
    n: usize,
    t: usize,
    real: Vec<usize>,
    long: Vec<Sc>,
    pubs: Vec<P>,
}

fn crowd(cx: &mut Cx, most: usize) -> Crowd {
    let n = size(cx, most);
    let k = cx.range(3, 5);
    let t = cx.range(2, k);
    let real = seats(cx, n, k);
    let (long, pubs) = keypairs(n);
    cx.fired("node.offline");
    cx.probe(&format!("a group of {n}"));
    Crowd { n, t, real, long, pubs }
}

/// a network that loses nothing for good
fn net(cx: &mut Cx, k: usize) -> Net {
    Net::swarm(cx, k, 3000, true)
}

fn bcast(cx: &mut Cx, net: &mut Net, k: usize, from: usize, kind: &'static str, b: &[u8]) {
    for j in 0..k {
        if j != from {
            net.send(cx, from, j, kind, b.to_vec());
        }
    }
}

/// any threshold of the shares makes the secret of the public key, no share
/// stands at another's index
fn shares_fit(cx: &mut Cx, c: &Crowd, keys: &[(Vec<P>, usize, Sc)]) -> Res {
    let commits = keys[0].0.clone();
    ensure!(commits.len() == c.t, "a key of another threshold", "{} commitments, t={}", commits.len(), c.t);
    for ((cm, i, v), want) in keys.iter().zip(&c.real) {
        cx.st.checks += 1;
        ensure!(*cm == commits, "the participants have different public keys", "n={} at {i}", c.n);
        ensure!(i == want, "a key share with another's index", "n={}: {i} for {want}", c.n);
        ensure!(eval_commits(&commits, *i) == g(v), "a key share which is not on the public polynomial", "n={} at {i}", c.n);
    }
    for _ in 0..3 {
        let some = cx.subset(keys.len(), c.t);
        let pts: Vec<(usize, Sc)> = some.iter().map(|k| (keys[*k].1, keys[*k].2.clone())).collect();
        ensure!(interpolate(&pts).map(|x| g(&x)) == Some(commits[0].clone()), "the shares do not make the secret", "n={}: {some:?} of {:?}", c.n, c.real);
    }
    Ok(())
}

fn sign_with<K: Key>(cx: &mut Cx, c: &Crowd, ks: &[K]) -> Res {
    let (_, rk, _, _) = tsig::shared::<K>(c.n, c.t);
    let mut lk: Vec<Option<K>> = vec![None; c.n];
    let mut r: Vec<Option<K>> = vec![None; c.n];
    for k in ks {
        let i = k.parts().1;
        lk[i] = Some(k.clone());
        r[i] = Some(rk[i].clone());
    }
    let len = cx.pick(&[0, 1, 32, 64, 300]);
    let msg = cx.bytes(len);
    let cfg = tsig::Cfg { reliable: true, dup: cx.chance(500), ..Default::default() };
    let got = tsig::sessions(cx, &cfg, &c.long, &c.pubs, c.t, vec![Job { msg, lk, rk: r }])?;
    ensure!(got[0].is_some(), "enough partial signatures and no signature", "n={}: {:?}", c.n, c.real);
    Ok(())
}

/// C09: the holders that sign are few, at any index of a large group
pub fn signing(cx: &mut Cx) -> Res {
    fn go<K: Key>(cx: &mut Cx) -> Res {
        let c = crowd(cx, 300);
        let (_, lk, _, _) = tsig::shared::<K>(c.n, c.t);
        let ks: Vec<K> = c.real.iter().map(|i| lk[*i].clone()).collect();
        sign_with(cx, &c, &ks)
    }
    if cx.chance(500) {
        go::<tsig::RDks>(cx)
    } else {
        go::<tsig::PDks>(cx)
    }
}

/// C04: those that are there come to a key, after the timeout
pub fn pedersen_dkg(cx: &mut Cx) -> Res {
    let c = crowd(cx, 258);
    pedersen_key(cx, &c).map(|_| ())
}

/// C20: and sign with it
pub fn pedersen_life(cx: &mut Cx) -> Res {
    let c = crowd(cx, 258);
    let ks = pedersen_key(cx, &c)?;
    sign_with(cx, &c, &ks)
}

pub fn rabin_dkg(cx: &mut Cx) -> Res {
    let c = crowd(cx, 258);
    rabin_key(cx, &c).map(|_| ())
}

pub fn rabin_life(cx: &mut Cx) -> Res {
    let c = crowd(cx, 258);
    let ks = rabin_key(cx, &c)?;
    sign_with(cx, &c, &ks)
}

fn pedersen_key(cx: &mut Cx, c: &Crowd) -> Res<Vec<Dks>> {
    let k = c.real.len();
    let mut net = net(cx, k);
    let mut ds = vec![];
    for i in &c.real {
        let conf: Config<S, SimReader> = Config {
            suite: suite(),
            longterm: c.long[*i].clone(),
            old_nodes: vec![],
            public_coeffs: None,
            new_nodes: c.pubs.clone(),
            share: None,
            threshold: c.t,
            old_threshold: 0,
            reader: None,
            user_reader_only: false,
        };
        match new_dist_key_handler(conf) {
            Ok(d) => ds.push(d),
            Err(e) => return violation("a valid configuration was refused", format!("n={}: {}", c.n, es(e))),
        }
    }
    let mut poly: Vec<Vec<P>> = vec![];
    for a in 0..k {
        poly.push(ds[a].dealer.commits());
        let out = match ds[a].deals() {
            Ok(o) => o,
            Err(e) => return violation("a node could not make its deals", format!("n={}, at {}: {}", c.n, c.real[a], es(e))),
        };
        let keys: BTreeSet<usize> = out.keys().copied().collect();
        ensure!(
            keys.len() == c.n - 1 && keys.iter().all(|j| *j < c.n && *j != c.real[a]),
            "a participant got no deal",
            "dealer {}: {} deals for {} participants",
            c.real[a],
            out.len(),
            c.n
        );
        for b in 0..k {
            if a != b {
                net.send(cx, a, b, "deal", enc(&out[&c.real[b]]));
            }
        }
    }
    for a in 0..k {
        let at = 8000 + cx.below(500) as u64;
        net.at(at, Ev::Timer { node: a, what: 0 });
    }
    // (node, dealer), (node, dealer, holder)
    let mut dealt: BTreeSet<(usize, usize)> = (0..k).map(|a| (a, c.real[a])).collect();
    let mut heard: BTreeSet<(usize, usize, usize)> = BTreeSet::new();
    let mut pend: Vec<VecDeque<Msg>> = vec![VecDeque::new(); k];
    let mut restarts = if c.n <= 65 { 2 } else { 0 };
    while let Some(e) = net.next(cx) {
        let m = match e {
            Ev::Timer { node, .. } => {
                cx.step("timeout", node, 0);
                ensure!(ds[node].qual().is_empty(), "certified before the timeout, with most of the group absent", "n={} at {}: {:?}", c.n, c.real[node], ds[node].qual());
                ds[node].set_timeout();
                continue;
            }
            Ev::Msg(m) => m,
        };
        let to = m.to;
        let mut q = VecDeque::from([m]);
        while let Some(m) = q.pop_front() {
            cx.step(m.kind, m.from, to);
            let me = c.real[to];
            if m.kind == "deal" {
                let d: GDeal<P> = match dec(&m.bytes) {
                    Some(d) => d,
                    None => return violation("a deal does not decode", format!("n={}", c.n)),
                };
                let from = d.index as usize;
                ensure!(from == c.real[m.from], "a deal with another's index", "{from} for {}", c.real[m.from]);
                let r = ds[to].process_deal(&d);
                let fresh = dealt.insert((to, from));
                cx.ev(format!("{} n{me} deal of {from} -> {}", net.now, r.is_ok()));
                match r {
                    Ok(r) => {
                        let o: dkg::OResp = cast(&r);
                        ensure!(fresh, "a deal was accepted twice", "node {me}, dealer {from}");
                        ensure!(o.response.ok, "a valid deal was complained about", "n={}: node {me}, dealer {from}", c.n);
                        ensure!(o.index as usize == from && o.response.index as usize == me, "the answer is about something else", "node {me}, dealer {from}: {o:?}");
                        bcast(cx, &mut net, k, to, "resp", &enc(&r));
                        q.extend(std::mem::take(&mut pend[to]));
                    }
                    Err(e) => ensure!(!fresh, "a deal got no answer", "n={}: node {me}, dealer {from}: {}", c.n, es(e)),
                }
            } else {
                let r: GResp = match dec(&m.bytes) {
                    Some(d) => d,
                    None => return violation("a response does not decode", format!("n={}", c.n)),
                };
                let o: dkg::OResp = cast(&r);
                let (from, holder) = (o.index as usize, o.response.index as usize);
                let had = heard.contains(&(to, from, holder));
                let got = ds[to].process_response(&r);
                cx.ev(format!("{} n{me} response of {holder} to {from} -> {}", net.now, got.is_ok()));
                match got {
                    Ok(j) => {
                        ensure!(!had && j.is_none(), "a response counted twice, or an approval was justified", "node {me}: {holder} to {from}");
                        heard.insert((to, from, holder));
                    }
                    Err(_) if had => (),
                    // by the dealer itself to its own deal: there is nothing to say
                    Err(_) if from == holder => (),
                    Err(_) if !dealt.contains(&(to, from)) => pend[to].push_back(m),
                    Err(e) => return violation("a response was refused", format!("n={}, node {me}: of {holder} to {from}: {}", c.n, es(e))),
                }
            }
        }
        if restarts > 0 && cx.crash(40) {
            restarts -= 1;
            cx.fired("crash.node");
            let a = cx.below(k);
            ds[a] = restarted(&ds[a], format!("node {}", c.real[a]))?;
        }
    }
    let mut keys = vec![];
    for a in 0..k {
        cx.st.checks += 3;
        let mut q = ds[a].qual();
        q.sort_unstable();
        ensure!(q == c.real, "the qualified set is not those who took part", "n={} at {}: {q:?}, expected {:?}", c.n, c.real[a], c.real);
        for i in 0..c.n {
            ensure!(ds[a].is_in_qual(i as u32) == c.real.contains(&i), "a dealer is in the qualified set or not, depending on how one asks", "n={} at {}: {i}", c.n, c.real[a]);
        }
        let mut q = ds[a].qualified_shares();
        q.sort_unstable();
        ensure!(q == c.real, "the qualified holders are not those who took part", "n={} at {}: {q:?}, expected {:?}", c.n, c.real[a], c.real);
        ensure!(ds[a].threshold_certified() && !ds[a].certified(), "the certification is wrong", "n={} at {}", c.n, c.real[a]);
        match ds[a].dist_key_share() {
            Ok(s) => keys.push(s),
            Err(e) => return violation("no key share though enough deals are certified", format!("n={} at {}: {}", c.n, c.real[a], es(e))),
        }
    }
    cx.nontrivial = true;
    cx.state(fnv(0, format!("{} {:?}", c.n, c.real).as_bytes()));
    let mut sum = vec![null(); c.t];
    for p in &poly {
        for (x, y) in sum.iter_mut().zip(p) {
            *x = add(x, y);
        }
    }
    ensure!(keys[0].commits == sum, "the public key is not the sum of the dealers' polynomials", "n={}", c.n);
    let parts: Vec<_> = keys.iter().map(|x| x.parts()).collect();
    shares_fit(cx, c, &parts)?;
    cx.probe("key share");
    Ok(keys)
}

fn rabin_key(cx: &mut Cx, c: &Crowd) -> Res<Vec<rdkg::Dks>> {
    let k = c.real.len();
    let mut net = net(cx, k);
    let mut ds = vec![];
    let mut truth: Vec<Vec<P>> = vec![];
    for i in &c.real {
        let mut d = match rab::new_dist_key_generator(&suite(), &c.long[*i], &c.pubs, c.t) {
            Ok(d) => d,
            Err(e) => return violation("a valid configuration was refused", format!("n={}: {}", c.n, es(e))),
        };
        let mut v: Vec<Dl> = vec![];
        for j in 0..c.t {
            v.push(r_dl(cast(&*d.dealer.plaintext_deal(j).unwrap())));
        }
        truth.push(commits_of(&v, c.t));
        ds.push(d);
    }
    for a in 0..k {
        let out = match ds[a].deals() {
            Ok(o) => o,
            Err(e) => return violation("a node could not make its deals", format!("n={}, at {}: {}", c.n, c.real[a], es(e))),
        };
        let keys: BTreeSet<usize> = out.keys().copied().collect();
        ensure!(
            keys.len() == c.n - 1 && keys.iter().all(|j| *j < c.n && *j != c.real[a]),
            "a participant got no deal",
            "dealer {}: {} deals for {} participants",
            c.real[a],
            out.len(),
            c.n
        );
        for b in 0..k {
            if a != b {
                net.send(cx, a, b, "deal", enc(&out[&c.real[b]]));
            }
        }
        let at = 8000 + cx.below(500) as u64;
        net.at(at, Ev::Timer { node: a, what: 0 });
        let at = 14000 + cx.below(500) as u64;
        net.at(at, Ev::Timer { node: a, what: 1 });
    }
    // one of them lies about its commitments; enough others are left to tell
    let liar = if k > c.t && cx.chance(500) { Some(cx.below(k)) } else { None };
    let mut dealt: BTreeSet<(usize, usize)> = (0..k).map(|a| (a, c.real[a])).collect();
    let mut heard: BTreeSet<(usize, usize, usize)> = BTreeSet::new();
    let mut secret: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut told: BTreeSet<usize> = BTreeSet::new();
    let mut shown: BTreeSet<usize> = BTreeSet::new();
    let mut pend: Vec<VecDeque<Msg>> = vec![VecDeque::new(); k];
    let mut restarts = if c.n <= 65 { 2 } else { 0 };
    while let Some(e) = net.next(cx) {
        let m = match e {
            Ev::Timer { node, what: 0 } => {
                cx.step("timeout", node, 0);
                ensure!(ds[node].qual().is_empty(), "certified before the timeout, with most of the group absent", "n={} at {}: {:?}", c.n, c.real[node], ds[node].qual());
                ds[node].set_timeout();
                continue;
            }
            Ev::Timer { node, .. } => {
                cx.step("commits", node, 0);
                let mut q = ds[node].qual();
                q.sort_unstable();
                ensure!(q == c.real && ds[node].certified(), "the qualified set is not those who took part", "n={} at {}: {q:?}, expected {:?}", c.n, c.real[node], c.real);
                for i in 0..c.n {
                    ensure!(ds[node].is_in_qual(i as u32) == c.real.contains(&i), "a dealer is in the qualified set or not, depending on how one asks", "n={} at {}: {i}", c.n, c.real[node]);
                }
                let sc = match ds[node].secret_commits() {
                    Ok(x) => x,
                    Err(e) => return violation("no secret commitments though the deal is certified", format!("n={} at {}: {}", c.n, c.real[node], es(e))),
                };
                let mut sc: rdkg::SC = cast(&sc);
                ensure!(sc.commitments == truth[node] && sc.index as usize == c.real[node], "the secret commitments are not those of the dealt secret", "n={} at {}", c.n, c.real[node]);
                if liar == Some(node) {
                    cx.fired("byz.commits.one-wrong");
                    let j = cx.below(c.t);
                    sc.commitments[j] = g(&rand_scalar());
                    sc.signature = vec![];
                    let h = cast::<_, rab::SecretCommits<S>>(&sc).hash(&suite()).unwrap();
                    sc.signature = sign(&c.long[c.real[node]], &h);
                }
                bcast(cx, &mut net, k, node, "sc", &enc(&sc));
                continue;
            }
            Ev::Msg(m) => m,
        };
        let to = m.to;
        if liar == Some(to) && net.now >= 14000 {
            continue;
        }
        let me = c.real[to];
        let mut q = VecDeque::from([m]);
        while let Some(m) = q.pop_front() {
            cx.step(m.kind, m.from, to);
            let bad = || violation("a message does not decode", format!("n={}: {}", c.n, m.kind));
            let done = match m.kind {
                "deal" => {
                    let d: rab::Deal<P> = match dec(&m.bytes) {
                        Some(d) => d,
                        None => return bad(),
                    };
                    let from = d.index as usize;
                    ensure!(from == c.real[m.from], "a deal with another's index", "{from} for {}", c.real[m.from]);
                    let r = ds[to].process_deal(&d);
                    let fresh = dealt.insert((to, from));
                    cx.ev(format!("{} n{me} deal of {from} -> {}", net.now, r.is_ok()));
                    match r {
                        Ok(r) => {
                            let o: rdkg::OResp = cast(&r);
                            ensure!(fresh, "a deal was accepted twice", "node {me}, dealer {from}");
                            ensure!(o.response.ok, "a valid deal was complained about", "n={}: node {me}, dealer {from}", c.n);
                            ensure!(o.index as usize == from && o.response.index as usize == me, "the answer is about something else", "node {me}, dealer {from}: {o:?}");
                            bcast(cx, &mut net, k, to, "resp", &enc(&r));
                        }
                        Err(e) => ensure!(!fresh, "a deal got no answer", "n={}: node {me}, dealer {from}: {}", c.n, es(e)),
                    }
                    fresh
                }
                "resp" => {
                    let r: rab::Response = match dec(&m.bytes) {
                        Some(d) => d,
                        None => return bad(),
                    };
                    let o: rdkg::OResp = cast(&r);
                    let (from, holder) = (o.index as usize, o.response.index as usize);
                    let had = heard.contains(&(to, from, holder));
                    let got = ds[to].process_response(&r);
                    cx.ev(format!("{} n{me} response of {holder} to {from} -> {}", net.now, got.is_ok()));
                    match got {
                        Ok(j) => {
                            ensure!(!had && j.is_none(), "a response counted twice, or an approval was justified", "node {me}: {holder} to {from}");
                            heard.insert((to, from, holder));
                            true
                        }
                        Err(_) if had || from == holder => false,
                        Err(_) if !dealt.contains(&(to, from)) => {
                            pend[to].push_back(m);
                            false
                        }
                        Err(e) => return violation("a response was refused", format!("n={}, node {me}: of {holder} to {from}: {}", c.n, es(e))),
                    }
                }
                "sc" => {
                    let sc: rab::SecretCommits<S> = match dec(&m.bytes) {
                        Some(d) => d,
                        None => return bad(),
                    };
                    let o: rdkg::SC = cast(&sc);
                    let fresh = secret.insert((to, o.index as usize));
                    let got = ds[to].process_secret_commits(&sc);
                    cx.ev(format!("{} n{me} commitments of {} -> {}", net.now, o.index, got.is_ok()));
                    let lie = liar.map(|l| c.real[l]) == Some(o.index as usize);
                    match got {
                        Ok(None) => {
                            // a complaint may have come first, and made them void
                            let void = told.contains(&to) || shown.contains(&to);
                            ensure!(!lie || void || eval_commits(&o.commitments, me) == eval_commits(&truth[m.from], me), "false commitments were accepted", "n={}: node {me}, of {}", c.n, o.index);
                        }
                        Ok(Some(cc)) => {
                            ensure!(lie, "true commitments were complained about", "n={}: node {me}, of {}", c.n, o.index);
                            cx.probe("complaint about commitments");
                            let o: rdkg::CC = cast(&cc);
                            ensure!(o.index as usize == me && o.dealer_index as usize == c.real[m.from], "a complaint about something else", "n={}: node {me}: {} {}", c.n, o.index, o.dealer_index);
                            let b = enc(&cc);
                            bcast(cx, &mut net, k, to, "cc", &b);
                            net.send(cx, to, to, "cc", b);
                        }
                        Err(e) => ensure!(!fresh, "commitments were refused", "n={}: node {me}, of {}: {}", c.n, o.index, es(e)),
                    }
                    true
                }
                "cc" => {
                    let cc: rab::ComplaintCommits<S> = match dec(&m.bytes) {
                        Some(d) => d,
                        None => return bad(),
                    };
                    match ds[to].process_complaint_commits(&cc) {
                        Ok(rc) => {
                            told.insert(to);
                            cx.ev(format!("{} n{me} shows its share", net.now));
                            bcast(cx, &mut net, k, to, "rc", &enc(&rc));
                            true
                        }
                        Err(_) if told.contains(&to) => false,
                        Err(_) => {
                            if m.attempt < 1000 {
                                let l = liar.map(|l| c.real[l]).unwrap_or(usize::MAX);
                                ensure!(!secret.contains(&(to, l)) || shown.contains(&to), "a justified complaint was refused", "n={}: node {me}", c.n);
                                pend[to].push_back(m);
                            }
                            false
                        }
                    }
                }
                _ => {
                    let rc: rab::ReconstructCommits<S> = match dec(&m.bytes) {
                        Some(d) => d,
                        None => return bad(),
                    };
                    match ds[to].process_reconstruct_commits(&rc) {
                        Ok(()) => {
                            shown.insert(to);
                            true
                        }
                        Err(_) => {
                            if !told.contains(&to) {
                                pend[to].push_back(m);
                            }
                            false
                        }
                    }
                }
            };
            if done {
                q.extend(std::mem::take(&mut pend[to]));
            }
        }
        if restarts > 0 && cx.crash(40) {
            restarts -= 1;
            cx.fired("crash.node");
            let a = cx.below(k);
            ds[a] = restarted(&ds[a], format!("node {}", c.real[a]))?;
        }
    }
    let mut sum = vec![null(); c.t];
    for p in &truth {
        for (x, y) in sum.iter_mut().zip(p) {
            *x = add(x, y);
        }
    }
    let mut keys = vec![];
    let mut there = vec![];
    for a in 0..k {
        if liar == Some(a) {
            continue;
        }
        cx.st.checks += 3;
        ensure!(ds[a].finished(), "not finished though all did their part", "n={} at {}", c.n, c.real[a]);
        match ds[a].dist_key_share() {
            Ok(s) => keys.push(s),
            Err(e) => return violation("no key share though enough deals are certified", format!("n={} at {}: {}", c.n, c.real[a], es(e))),
        }
        there.push(c.real[a]);
    }
    cx.nontrivial = true;
    cx.state(fnv(0, format!("{} {:?}", c.n, c.real).as_bytes()));
    ensure!(keys[0].parts().0 == sum, "the public key is not the sum of the dealers' polynomials", "n={}", c.n);
    let parts: Vec<_> = keys.iter().map(|x| x.parts()).collect();
    let c2 = Crowd { real: there, long: vec![], pubs: vec![], ..*c };
    shares_fit(cx, &c2, &parts)?;
    cx.probe("key share");
    if liar.is_some() {
        cx.probe("rebuilt a dealer's commitments");
    }
    Ok(keys)
}

/// C01, C02: a deal to a large group. A few verifiers run, of the others
/// most approve, some complain, some say nothing.
pub fn sharing<V: Vss>(cx: &mut Cx) -> Res {
    let n = size(cx, 300);
    let k = cx.range(2, 4);
    let real = seats(cx, n, k);
    let t = cx.pick(&[2, 3, n / 4, n / 2 + 1, n - 3, n]).max(2);
    let (long, vs) = keypairs(n);
    let (dk, dp) = (rand_scalar(), rand_scalar());
    let dpub = g(&dk);
    let secret = dp;
    let mut d = match V::dealer(&dk, &secret, &vs, t) {
        Ok(d) => d,
        Err(e) => return violation("a valid configuration was refused", format!("n={n} t={t}: {e}")),
    };
    cx.probe(&format!("a group of {n}"));
    // the others
    let others: Vec<usize> = (0..n).filter(|i| !real.contains(i)).collect();
    let most = cx.pick(&[0, 1, n - t, n - t + 1]).min(others.len());
    let quiet: BTreeSet<usize> = {
        let q = cx.subset(others.len(), most);
        q.into_iter().map(|x| others[x]).collect()
    };
    let loud: BTreeSet<usize> = {
        let c = cx.pick(&[0usize, 1, 3]);
        let q = cx.subset(others.len(), c.min(others.len()));
        q.into_iter().map(|x| others[x]).filter(|x| !quiet.contains(x)).collect()
    };
    if !quiet.is_empty() {
        cx.fired("node.offline");
    }
    let mut net = net(cx, k + 1);
    let plain: Vec<Dl> = (0..n).map(|i| V::plain(&mut d, i)).collect();
    for (i, p) in plain.iter().enumerate() {
        ensure!(p.i == i && p.t == t && p.commits == plain[0].commits && p.sid == plain[0].sid, "a dealer's deals do not belong together", "n={n} t={t}: {i}");
    }
    let sid = session_id(&dpub, &vs, &plain[0].commits, t);
    ensure!(V::d_sid(&d) == sid, "the session id is not that of the dealing", "n={n} t={t}");
    let mut vers = vec![];
    let mut models = vec![];
    for (b, i) in real.iter().enumerate() {
        let mut v = match V::verifier(&long[*i], &dpub, &vs) {
            Ok(v) => v,
            Err(e) => return violation("a valid configuration was refused", format!("n={n}: {e}")),
        };
        V::set_threshold(&mut v, t);
        vers.push(v);
        models.push(Model::new(V::RABIN, *i, &dpub, &vs, if V::RABIN { 0 } else { t }));
        let e = match V::enc_deal(&d, *i) {
            Ok(e) => e,
            Err(e) => return violation("a dealer has no deal for a participant", format!("n={n}, {i}: {e}")),
        };
        net.send(cx, 0, b + 1, "deal", e);
    }
    let mut complained: BTreeSet<usize> = BTreeSet::new();
    for i in &others {
        if quiet.contains(i) {
            continue;
        }
        let ok = !loud.contains(i);
        if !ok {
            cx.fired("byz.response.complaint");
            complained.insert(*i);
        }
        let mut r = Resp { session_id: sid.clone(), index: *i as u32, ok, signature: vec![] };
        r.signature = sign(&long[*i], &V::resp_hash(&r));
        let b = enc(&r);
        for a in 0..=k {
            net.send(cx, a, a, "resp", b.clone());
        }
    }
    for a in 0..=k {
        let at = 8000 + cx.below(500) as u64;
        net.at(at, Ev::Timer { node: a, what: 0 });
    }
    let mut pend: Vec<VecDeque<Msg>> = vec![VecDeque::new(); k + 1];
    let mut seen_d: BTreeMap<usize, bool> = BTreeMap::new();
    let mut restarts = 2;
    while let Some(e) = net.next(cx) {
        let m = match e {
            Ev::Timer { node, .. } => {
                cx.step("timeout", node, 0);
                if node == 0 {
                    V::d_timeout(&mut d);
                } else {
                    let (v, m) = (&mut vers[node - 1], &mut models[node - 1]);
                    let has = m.deal.is_some();
                    ensure!(V::v_certified_or(v, has) == m.certified(), "the certification is wrong", "n={n} t={t} before the timeout at {}", real[node - 1]);
                    V::v_timeout(v);
                    m.on_timeout();
                    ensure!(V::v_certified_or(v, has) == m.certified(), "the certification is wrong", "n={n} t={t} after the timeout at {}", real[node - 1]);
                }
                continue;
            }
            Ev::Msg(m) => m,
        };
        let to = m.to;
        let mut q = VecDeque::from([m]);
        while let Some(m) = q.pop_front() {
            cx.step(m.kind, m.from, to);
            if to == 0 {
                let r: Resp = dec(&m.bytes).expect("HARNESS: response");
                let i = r.index as usize;
                let had = seen_d.contains_key(&i);
                let got = V::d_resp(&mut d, &m.bytes);
                cx.ev(format!("{} dealer: response of {i} -> {}", net.now, got.is_ok()));
                match got {
                    Ok(j) => {
                        ensure!(!had, "a response counted twice", "n={n}: of {i}");
                        ensure!(j.is_some() == !r.ok, "a complaint is justified, an approval is not", "n={n}: of {i}");
                        seen_d.insert(i, r.ok);
                        if let Some(j) = j {
                            let (x, dl) = match V::dec_just(&j) {
                                Some(x) => x,
                                None => return violation("a justification does not decode", format!("n={n}")),
                            };
                            ensure!(x as usize == i && dl == plain[i], "a justification is about something else", "n={n}: {x} for {i}");
                            for b in 0..k {
                                net.send(cx, 0, b + 1, "just", j.clone());
                            }
                        }
                    }
                    Err(e) => ensure!(had, "a response was refused", "n={n}: of {i}: {e}"),
                }
                continue;
            }
            let (v, mo) = (&mut vers[to - 1], &mut models[to - 1]);
            let me = real[to - 1];
            match m.kind {
                "deal" => {
                    let fresh = mo.deal.is_none();
                    let got = V::v_deal(v, &m.bytes);
                    cx.ev(format!("{} n{me} deal -> {}", net.now, got.is_ok()));
                    match got {
                        Ok(b) => {
                            ensure!(fresh, "a deal was accepted twice", "n={n} at {me}");
                            let r: Resp = dec(&b).expect("HARNESS: response");
                            ensure!(r.ok && r.index as usize == me && r.session_id == sid, "a valid deal was complained about", "n={n} t={t} at {me}: {r:?}");
                            match mo.on_deal(&plain[me]) {
                                DealOutcome::Answer { ok: true, .. } => (),
                                _ => return violation("a dealer's deals do not belong together", format!("n={n} t={t}: {me}")),
                            }
                            for a in 0..=k {
                                if a != to {
                                    net.send(cx, to, a, "resp", b.clone());
                                }
                            }
                            q.extend(std::mem::take(&mut pend[to]));
                        }
                        Err(e) => ensure!(!fresh, "a deal got no answer", "n={n} t={t} at {me}: {e}"),
                    }
                }
                "resp" => {
                    let r: Resp = dec(&m.bytes).expect("HARNESS: response");
                    let had = mo.resp.contains_key(&(r.index as usize));
                    let early = mo.deal.is_none();
                    let want = mo.on_resp(&r, true);
                    let got = V::v_resp(v, &m.bytes);
                    ensure!(got.is_ok() == want, "a response counts or not, against the rules", "n={n} at {me}: of {}: {got:?}", r.index);
                    if !want && !had && early {
                        pend[to].push_back(m);
                    }
                }
                _ => {
                    let (i, dl) = V::dec_just(&m.bytes).expect("HARNESS: justification");
                    let counts = mo.just_counts(i as usize);
                    if !counts && !mo.resp.get(&(i as usize)).copied().unwrap_or(false) {
                        // ahead of the complaint
                        pend[to].push_back(m);
                        continue;
                    }
                    let want = mo.on_just(i as usize, &dl);
                    let got = V::v_just(v, &m.bytes);
                    ensure!(got.is_ok() == want, "a justification counts or not, against the rules", "n={n} at {me}: for {i}: {got:?}");
                }
            }
            if m_kind_unblocks(&q, &pend[to], mo) {
                q.extend(std::mem::take(&mut pend[to]));
            }
        }
        if restarts > 0 && n <= 129 && cx.crash(5) {
            restarts -= 1;
            cx.fired("crash.node");
            let a = cx.below(k);
            vers[a] = restarted(&vers[a], format!("verifier {}", real[a]))?;
        }
    }
    let mut h = fnv(0, format!("{n} {t} {real:?}").as_bytes());
    let silent = quiet.len();
    for (b, (v, m)) in vers.iter().zip(&models).enumerate() {
        cx.st.checks += 2;
        let got = V::v_certified_or(v, m.deal.is_some());
        h = fnv(h, &[got as u8]);
        ensure!(got == m.certified(), "the certification is wrong", "n={n} t={t} at {}: {silent} silent", real[b]);
        ensure!(got == (n - silent >= t), "a deal with enough approvals is not certified, or one without is", "n={n} t={t} at {}: {silent} silent", real[b]);
        let dl = V::v_get(v);
        ensure!(dl.is_some() == got, "a verifier gives its deal when certified", "n={n} t={t} at {}", real[b]);
        if let Some(dl) = dl {
            ensure!(dl == plain[real[b]], "a verifier holds another deal than it got", "n={n} t={t} at {}", real[b]);
        }
    }
    cx.state(h);
    cx.nontrivial = true;
    // those with a deal bring the secret back, whoever they are
    let some = cx.subset(n, t);
    let mut deals: Vec<Dl> = some.iter().map(|i| plain[*i].clone()).collect();
    cx.shuffle(&mut deals);
    cx.st.checks += 2;
    let got = V::recover(&deals, n, t);
    ensure!(got.as_ref() == Ok(&secret), "a threshold of deals does not make the secret", "n={n} t={t}: {got:?}");
    deals.pop();
    ensure!(V::recover(&deals, n, t).is_err(), "fewer than the threshold of deals are taken", "n={n} t={t}");
    cx.probe("recovered");
    Ok(())
}

/// is there something which had to wait for what just happened?
fn m_kind_unblocks(q: &VecDeque<Msg>, pend: &VecDeque<Msg>, m: &Model) -> bool {
    if !q.is_empty() || m.deal.is_none() {
        return false;
    }
    pend.iter().any(|x| match x.kind {
        "just" => match dec::<Just<PDeal>>(&x.bytes) {
            Some(j) => m.just_counts(j.index as usize),
            None => dec::<Just<RDeal>>(&x.bytes).map_or(false, |j| m.just_counts(j.index as usize)),
        },
        _ => false,
    })
}

pub fn pedersen_sharing(cx: &mut Cx) -> Res {
    sharing::<Pedersen>(cx)
}
pub fn rabin_sharing(cx: &mut Cx) -> Res {
    sharing::<Rabin>(cx)
}

/// C06: a key of a large group goes to another large group; of each a few are
/// there, and some of them are in both
pub fn reshare(cx: &mut Cx) -> Res {
    let most = if cx.chance(300) { 258 } else { 100 };
    let (n1, n2) = (size(cx, most), size(cx, most));
    let (k1, k2) = (cx.range(2, 4), cx.range(2, 4));
    let (t1, t2) = (cx.range(2, k1), cx.range(2, k2));
    let (seat1, seat2) = (seats(cx, n1, k1), seats(cx, n2, k2));
    cx.fired("node.offline");
    cx.probe(&format!("{n1} to {n2}"));
    let (long, pubs) = keypairs(n1 + n2);
    let (coeffs, shares, secret) = dkg::made_key(n1, t1, None);
    // people by number: the old group, then those who are only in the new one
    let old: Vec<usize> = (0..n1).collect();
    let mut new: Vec<usize> = (n1..n1 + n2).collect();
    let mut free: Vec<usize> = seat1.clone();
    cx.shuffle(&mut free);
    for s in &seat2 {
        if cx.chance(600) {
            if let Some(p) = free.pop() {
                new[*s] = p;
            }
        }
    }
    let oldp: Vec<P> = old.iter().map(|x| pubs[*x].clone()).collect();
    let newp: Vec<P> = new.iter().map(|x| pubs[*x].clone()).collect();
    let mut who: Vec<usize> = seat1.clone();
    for s in &seat2 {
        if !who.contains(&new[*s]) {
            who.push(new[*s]);
        }
    }
    let k = who.len();
    let oidx: Vec<Option<usize>> = who.iter().map(|p| seat1.iter().copied().find(|s| s == p)).collect();
    let nidx: Vec<Option<usize>> = who.iter().map(|p| seat2.iter().copied().find(|s| new[*s] == *p)).collect();
    let mut net = net(cx, k);
    let mut ds = vec![];
    for a in 0..k {
        let share = oidx[a].map(|i| shares[i].clone());
        let conf: Config<S, SimReader> = Config {
            suite: suite(),
            longterm: long[who[a]].clone(),
            old_nodes: oldp.clone(),
            public_coeffs: if share.is_none() || cx.chance(300) { Some(coeffs.clone()) } else { None },
            new_nodes: newp.clone(),
            share,
            threshold: t2,
            old_threshold: t1,
            reader: None,
            user_reader_only: false,
        };
        match new_dist_key_handler(conf) {
            Ok(d) => ds.push(d),
            Err(e) => return violation("a valid configuration was refused", format!("{n1} to {n2}: {}", es(e))),
        }
    }
    for a in 0..k {
        if oidx[a].is_none() {
            continue;
        }
        let out = match ds[a].deals() {
            Ok(o) => o,
            Err(e) => return violation("a node could not make its deals", format!("{n1} to {n2}, at {:?}: {}", oidx[a], es(e))),
        };
        ensure!(out.len() == n2 && (0..n2).all(|j| out.contains_key(&j)), "a participant got no deal", "dealer {:?}: {} deals for {n2}", oidx[a], out.len());
        for b in 0..k {
            if let Some(i) = nidx[b] {
                net.send(cx, a, b, "deal", enc(&out[&i]));
            }
        }
    }
    for a in 0..k {
        let at = 8000 + cx.below(500) as u64;
        net.at(at, Ev::Timer { node: a, what: 0 });
    }
    let mut dealt: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut heard: BTreeSet<(usize, usize, usize)> = BTreeSet::new();
    let mut pend: Vec<VecDeque<Msg>> = vec![VecDeque::new(); k];
    let mut restarts = if n1.max(n2) <= 65 { 2 } else { 0 };
    while let Some(e) = net.next(cx) {
        let m = match e {
            Ev::Timer { node, .. } => {
                cx.step("timeout", node, 0);
                if nidx[node].is_some() {
                    ensure!(ds[node].qual().is_empty(), "certified before the timeout, with most of the group absent", "{n1} to {n2}: {:?}", ds[node].qual());
                }
                ds[node].set_timeout();
                continue;
            }
            Ev::Msg(m) => m,
        };
        let to = m.to;
        let mut q = VecDeque::from([m]);
        while let Some(m) = q.pop_front() {
            cx.step(m.kind, m.from, to);
            if m.kind == "deal" {
                let me = nidx[to].expect("HARNESS: a deal for one who leaves");
                let d: GDeal<P> = match dec(&m.bytes) {
                    Some(d) => d,
                    None => return violation("a deal does not decode", format!("{n1} to {n2}")),
                };
                let from = d.index as usize;
                ensure!(Some(from) == oidx[m.from], "a deal with another's index", "{from} for {:?}", oidx[m.from]);
                let r = ds[to].process_deal(&d);
                let fresh = dealt.insert((to, from));
                cx.ev(format!("{} n{me} deal of {from} -> {}", net.now, r.is_ok()));
                match r {
                    Ok(r) => {
                        let o: dkg::OResp = cast(&r);
                        ensure!(fresh, "a deal was accepted twice", "node {me}, dealer {from}");
                        ensure!(o.response.ok, "a valid deal was complained about", "{n1} to {n2}: node {me}, dealer {from}");
                        ensure!(o.index as usize == from && o.response.index as usize == me, "the answer is about something else", "node {me}, dealer {from}: {o:?}");
                        bcast(cx, &mut net, k, to, "resp", &enc(&r));
                        q.extend(std::mem::take(&mut pend[to]));
                    }
                    Err(e) => ensure!(!fresh, "a deal got no answer", "{n1} to {n2}: node {me}, dealer {from}: {}", es(e)),
                }
            } else {
                let r: GResp = match dec(&m.bytes) {
                    Some(d) => d,
                    None => return violation("a response does not decode", format!("{n1} to {n2}")),
                };
                let o: dkg::OResp = cast(&r);
                let (from, holder) = (o.index as usize, o.response.index as usize);
                let had = heard.contains(&(to, from, holder));
                let got = ds[to].process_response(&r);
                cx.ev(format!("{} {} response of {holder} to {from} -> {}", net.now, who[to], got.is_ok()));
                match got {
                    Ok(j) => {
                        ensure!(!had && j.is_none(), "a response counted twice, or an approval was justified", "{}: {holder} to {from}", who[to]);
                        heard.insert((to, from, holder));
                    }
                    Err(_) if had => (),
                    Err(_) if nidx[to].is_some() && !dealt.contains(&(to, from)) => pend[to].push_back(m),
                    Err(e) => return violation("a response was refused", format!("{n1} to {n2}, {}: of {holder} to {from}: {}", who[to], es(e))),
                }
            }
        }
        if restarts > 0 && cx.crash(40) {
            restarts -= 1;
            cx.fired("crash.node");
            let a = cx.below(k);
            ds[a] = restarted(&ds[a], format!("{}", who[a]))?;
        }
    }
    let mut keys: Vec<(usize, Dks)> = vec![];
    for a in 0..k {
        cx.st.checks += 2;
        let me = match nidx[a] {
            Some(i) => i,
            None => {
                ensure!(ds[a].dist_key_share().is_err(), "a node which is not in the group got a share", "{n1} to {n2}");
                continue;
            }
        };
        let mut q = ds[a].qual();
        q.sort_unstable();
        ensure!(q == seat1, "the qualified set is not those who took part", "{n1} to {n2} at {me}: {q:?}, expected {seat1:?}");
        for i in 0..n1 {
            ensure!(ds[a].is_in_qual(i as u32) == seat1.contains(&i), "a dealer is in the qualified set or not, depending on how one asks", "{n1} to {n2} at {me}: {i}");
        }
        match ds[a].dist_key_share() {
            Ok(s) => {
                ensure!(s.share.i == me, "a key share with another's index", "{n1} to {n2}: {} for {me}", s.share.i);
                keys.push((me, s));
            }
            Err(e) => return violation("no key share though enough deals are certified", format!("{n1} to {n2} at {me}: {}", es(e))),
        }
    }
    keys.sort_by_key(|x| x.0);
    cx.nontrivial = true;
    cx.state(fnv(0, format!("{n1} {n2} {seat1:?} {seat2:?}").as_bytes()));
    ensure!(keys[0].1.public() == coeffs[0], "the resharing changed the public key", "{n1} to {n2}");
    let c = Crowd { n: n2, t: t2, real: seat2, long: vec![], pubs: vec![] };
    let parts: Vec<_> = keys.iter().map(|x| x.1.parts()).collect();
    shares_fit(cx, &c, &parts)?;
    let mut sh: Vec<(usize, Sc)> = parts.iter().map(|x| (x.1, x.2.clone())).collect();
    cx.shuffle(&mut sh);
    sh.truncate(t2);
    ensure!(interpolate(&sh) == Some(secret), "the history changed the secret", "{n1} to {n2}");
    cx.probe("reshared");
    Ok(())
}
