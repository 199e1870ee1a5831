//! C12: nothing which can arrive, signed by an insider or not, crashes a node,
//! keeps it busy for ever or makes it allocate without bounds.
use super::dkg::{ODeal, OJust, OResp};
use super::flavor::*;
use super::rdkg;
use super::tsig::{self, p_hash, Part};
use crate::core::*;
use crate::kit::*;
use crate::runner::guarded;
use crate::{ensure, gauge};
use kyber_rs::encoding::{self, BinaryMarshaler, BinaryUnmarshaler, Marshaling};
use kyber_rs::group::edwards25519::Curve;
use kyber_rs::group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical};
use kyber_rs::share::dkg::pedersen::structs as ps;
use kyber_rs::share::dkg::pedersen::{new_dist_key_generator, new_dist_key_handler, Config};
use kyber_rs::share::dkg::rabin as rab;
use kyber_rs::share::poly::{self, PriShare, PubPoly, PubShare};
use kyber_rs::share::vss::{pedersen::vss as pvss, rabin::vss as rvss};
use kyber_rs::sign::{dss, eddsa, schnorr};
use kyber_rs::{Group, Point, Scalar};
use serde::{de::DeserializeOwned, Serialize};

const LIMIT: usize = 32 << 20;

/// one call with hostile arguments
fn call<T>(cx: &mut Cx, what: &'static str, f: impl FnOnce() -> T) -> Res<T> {
    cx.st.checks += 1;
    gauge::reset();
    let r = guarded(f);
    let peak = gauge::peak();
    match r {
        Err(p) => violation(&format!("{what} panics"), p),
        Ok(v) => {
            if peak > LIMIT {
                return violation(&format!("{what} allocates without bounds"), format!("a request of {peak} bytes"));
            }
            Ok(v)
        }
    }
}

fn strip(v: &mut serde_json::Value, but: &[&str]) {
    match v {
        serde_json::Value::Object(m) => {
            m.retain(|k, _| !but.contains(&k.as_str()));
            m.values_mut().for_each(|x| strip(x, but));
        }
        serde_json::Value::Array(a) => a.iter_mut().for_each(|x| strip(x, but)),
        _ => (),
    }
}

/// where two states differ
fn diff(at: &str, a: &serde_json::Value, b: &serde_json::Value) -> String {
    match (a, b) {
        (serde_json::Value::Object(x), serde_json::Value::Object(y)) => {
            let keys: std::collections::BTreeSet<&String> = x.keys().chain(y.keys()).collect();
            let none = serde_json::Value::Null;
            keys.iter()
                .find_map(|k| {
                    let d = diff(&format!("{at}.{k}"), x.get(*k).unwrap_or(&none), y.get(*k).unwrap_or(&none));
                    (!d.is_empty()).then_some(d)
                })
                .unwrap_or_default()
        }
        _ if a == b => String::new(),
        _ => at.to_string(),
    }
}

/// one hostile message: when it is refused, the state stays as it was, save for
/// the fields in `but`, which it may lawfully change (a proof against the dealer)
fn refused_or_taken<T: Serialize>(cx: &mut Cx, what: &'static str, x: &mut T, but: &[&str], f: impl FnOnce(&mut T) -> bool) -> Res<bool> {
    let mut before = serde_json::to_value(&*x).expect("HARNESS: state");
    let r = call(cx, what, || f(x))?;
    if !r {
        let mut after = serde_json::to_value(&*x).expect("HARNESS: state");
        if before != after {
            strip(&mut before, but);
            strip(&mut after, but);
            drop_empty(&mut before);
            drop_empty(&mut after);
            let d = diff("state", &before, &after);
            ensure!(d.is_empty(), "a refused message changed the state", "{what}: {d}");
        }
    }
    Ok(r)
}

/// alters some fields of a deal
fn weird_deal(cx: &mut Cx, d: &Dl, n: usize) -> Dl {
    let mut d = d.clone();
    for _ in 0..cx.range(0, 3) {
        match cx.below(8) {
            0 => d.i = weird::index(cx, n),
            1 => d.t = weird::index(cx, n),
            2 => d.v = weird::sc(cx),
            3 => d.commits = weird::points(cx, d.t.min(8)),
            4 if !d.commits.is_empty() => {
                let k = cx.below(d.commits.len());
                d.commits[k] = weird::point(cx);
            }
            5 => d.sid = weird::blob(cx),
            6 => {
                if let Some((i, _)) = &mut d.rnd {
                    *i = weird::index(cx, n);
                }
            }
            _ => {
                if let Some((_, v)) = &mut d.rnd {
                    *v = weird::sc(cx);
                }
            }
        }
    }
    d
}

fn weird_enc(cx: &mut Cx, e: &mut EncDeal, k: &Sc) {
    match cx.below(9) {
        0 => {
            e.dhkey = weird::point(cx);
            e.signature = sign(k, &pbytes(&e.dhkey));
        }
        1 => e.signature = weird::blob(cx),
        2 => e.nonce = weird::blob(cx),
        3 => e.cipher = weird::blob(cx),
        _ => (),
    }
}

fn fuzz_bytes(cx: &mut Cx, b: Vec<u8>) -> Vec<u8> {
    match cx.below(8) {
        0 => corrupt(cx, &b),
        1 => {
            let c = corrupt(cx, &b);
            corrupt(cx, &c)
        }
        _ => b,
    }
}

/// one dealer and one verifier of a sharing, everybody else hostile
pub fn sharing<V: Vss>(cx: &mut Cx) -> Res {
    let n = cx.people(2, 5);
    let t = cx.range(2, n);
    let (long, vs) = keypairs(n);
    let dl = rand_scalar();
    let dp = g(&dl);
    let mut d = V::dealer(&dl, &rand_scalar(), &vs, t).expect("dealer");
    let orig: Vec<Dl> = (0..n).map(|i| V::plain(&mut d, i)).collect();
    let sid = V::d_sid(&d);
    let me = cx.below(n);
    let mut v = V::verifier(&long[me], &dp, &vs).expect("verifier");
    if cx.chance(300) {
        V::set_threshold(&mut v, t);
    }
    let mut sids = vec![sid.clone()];
    let steps = cx.range(4, 40);
    for _ in 0..steps {
        let k = cx.below(10);
        cx.step("hostile", k, me);
        cx.st.sim_ms += 10;
        match k {
            0..=2 => {
                cx.fired("byz.deal");
                let x = weird_deal(cx, &orig[me], n);
                sids.push(x.sid.clone());
                let sound = cx.chance(300);
                let b = {
                    let mut d2 = d.clone();
                    if !sound {
                        V::set_plain(&mut d2, me, &x);
                    }
                    V::enc_deal(&d2, me)
                };
                let b = match b {
                    Ok(b) => b,
                    Err(_) => continue,
                };
                let mut e: EncDeal = dec(&b).unwrap();
                weird_enc(cx, &mut e, &dl);
                let b = fuzz_bytes(cx, enc(&e));
                let r = refused_or_taken(cx, "processing a deal", &mut v, &[], |v| V::v_deal(v, &b).is_ok())?;
                cx.ev(format!("deal -> {r}"));
            }
            3..=5 => {
                cx.fired("byz.response");
                let i = cx.below(n);
                let mut r = Resp { session_id: cx.pick(&sids), index: i as u32, ok: cx.chance(500), signature: vec![] };
                if cx.chance(300) {
                    r.index = weird::index32(cx, n);
                }
                if cx.chance(200) {
                    r.session_id = weird::blob(cx);
                }
                r.signature = if cx.chance(150) { weird::blob(cx) } else { sign(&long[i], &V::resp_hash(&r)) };
                let b = fuzz_bytes(cx, enc(&r));
                if cx.chance(400) {
                    let r = refused_or_taken(cx, "the dealer processing a response", &mut d, &[], |d| V::d_resp(d, &b).is_ok())?;
                    cx.ev(format!("dealer resp -> {r}"));
                } else {
                    let r = refused_or_taken(cx, "processing a response", &mut v, &[], |v| V::v_resp(v, &b).is_ok())?;
                    cx.ev(format!("resp -> {r}"));
                }
            }
            6 | 7 => {
                cx.fired("byz.justification");
                let i = cx.below(n);
                let x = weird_deal(cx, &orig[i], n);
                let idx = if cx.chance(300) { weird::index32(cx, n) } else { i as u32 };
                let s = cx.pick(&sids);
                let b = fuzz_bytes(cx, V::just(s, idx, &x, &dl));
                let r = refused_or_taken(cx, "processing a justification", &mut v, &["bad_dealer"], |v| V::v_just(v, &b).is_ok())?;
                cx.ev(format!("just -> {r}"));
            }
            8 => {
                cx.fired("clock.early-timeout");
                V::d_timeout(&mut d);
                call(cx, "a timeout", || V::v_timeout(&mut v))?;
            }
            _ => {
                cx.fired("byz.recovery");
                let ds: Vec<Dl> = (0..cx.range(0, n)).map(|i| weird_deal(cx, &orig[i], n)).collect();
                call(cx, "recovering the secret", || V::recover(&ds, n, t).is_ok())?;
            }
        }
        let has = true;
        call(cx, "reading the state", || {
            let _ = V::show_ver(&v);
            let _ = V::v_get(&v);
            let _ = V::d_certified(&d);
            let _ = V::d_secret_commit(&d);
            has
        })?;
        if !V::RABIN {
            call(cx, "reading the state", || V::v_certified_or(&v, true))?;
        }
        if cx.chance(50) {
            cx.fired("crash.node");
            v = match call(cx, "restoring a verifier", || dec::<V::Ver>(&enc(&v)))? {
                Some(v) => v,
                None => return violation("a saved verifier does not load", "after hostile messages".into()),
            };
        }
    }
    Ok(())
}

/// one node of the Pedersen DKG or of a resharing
pub fn pedersen_dkg(cx: &mut Cx) -> Res {
    let n = cx.people(3, 5);
    let t = cx.range(2, n);
    let (long, pubs) = keypairs(n);
    let resharing = cx.chance(500);
    let reader = super::dkg::SimReader::default();
    let _ = &reader;
    let (c, dks, _) = super::dkg::made_key(n, t, None);
    let mk = |i: usize| {
        if resharing {
            new_dist_key_handler(Config::<S, super::dkg::SimReader> {
                suite: suite(),
                longterm: long[i].clone(),
                old_nodes: pubs.clone(),
                public_coeffs: Some(c.clone()),
                new_nodes: pubs.clone(),
                share: Some(dks[i].clone()),
                threshold: t,
                old_threshold: t,
                reader: None,
                user_reader_only: false,
            })
        } else {
            new_dist_key_generator::<S, super::dkg::SimReader>(suite(), long[i].clone(), &pubs, t)
        }
    };
    let me = cx.below(n);
    let mut nodes: Vec<super::dkg::Dkg> = (0..n).map(|i| mk(i).expect("dkg")).collect();
    let orig: Vec<Vec<Dl>> = nodes
        .iter_mut()
        .map(|d| (0..n).map(|j| p_dl(cast(&*d.dealer.plaintext_deal(j).unwrap()))).collect())
        .collect();
    let mut sids: Vec<Vec<u8>> = orig.iter().map(|o| o[0].sid.clone()).collect();
    if cx.chance(700) {
        let _ = nodes[me].deals();
    }
    let steps = cx.range(4, 40);
    for _ in 0..steps {
        let k = cx.below(9);
        cx.step("hostile", k, me);
        cx.st.sim_ms += 10;
        // it has everybody's key but this node's
        let from = (me + 1 + cx.below(n - 1)) % n;
        match k {
            0..=2 => {
                cx.fired("byz.deal");
                let x = weird_deal(cx, &orig[from][me], n);
                sids.push(x.sid.clone());
                let mut dd = nodes[from].dealer.clone();
                if !cx.chance(300) {
                    *dd.plaintext_deal(me).unwrap() = cast(&dl_p(&x));
                }
                let mut e: EncDeal = match dd.encrypted_deal(me) {
                    Ok(e) => cast(&e),
                    Err(_) => continue,
                };
                weird_enc(cx, &mut e, &long[from]);
                let mut o = ODeal { index: from as u32, deal: e, signature: vec![] };
                if cx.chance(200) {
                    o.index = weird::index32(cx, n);
                }
                o.signature = sign(&long[from], &enc(&o));
                if cx.chance(100) {
                    o.signature = weird::blob(cx);
                }
                let b = fuzz_bytes(cx, enc(&o));
                if let Some(m) = dec::<ps::Deal<P>>(&b) {
                    let r = refused_or_taken(cx, "processing a deal", &mut nodes[me], &[], |d| d.process_deal(&m).is_ok())?;
                    cx.ev(format!("deal of {from} -> {r}"));
                }
            }
            3..=5 => {
                cx.fired("byz.response");
                let mut r = Resp { session_id: cx.pick(&sids), index: from as u32, ok: cx.chance(500), signature: vec![] };
                if cx.chance(300) {
                    r.index = weird::index32(cx, n);
                }
                if cx.chance(200) {
                    r.session_id = weird::blob(cx);
                }
                let h = cast::<_, pvss::Response>(&r).hash(&suite()).unwrap();
                r.signature = if cx.chance(150) { weird::blob(cx) } else { sign(&long[from], &h) };
                let dealer = if cx.chance(200) { weird::index32(cx, n) } else { cx.below(n) as u32 };
                let b = fuzz_bytes(cx, enc(&OResp { index: dealer, response: r }));
                if let Some(m) = dec::<ps::Response>(&b) {
                    let r = refused_or_taken(cx, "processing a response", &mut nodes[me], &[], |d| d.process_response(&m).is_ok())?;
                    cx.ev(format!("response of {from} about {dealer} -> {r}"));
                }
            }
            6 | 7 => {
                cx.fired("byz.justification");
                let i = cx.below(n);
                let x = weird_deal(cx, &orig[from][i], n);
                let idx = if cx.chance(300) { weird::index32(cx, n) } else { i as u32 };
                let b = Pedersen::just(x.sid.clone(), idx, &x, &long[from]);
                let j: Just<PDeal> = dec(&b).unwrap();
                let dealer = if cx.chance(200) { weird::index32(cx, n) } else { from as u32 };
                let b = fuzz_bytes(cx, enc(&OJust { index: dealer, justification: j }));
                if let Some(m) = dec::<ps::Justification<S>>(&b) {
                    let r = refused_or_taken(cx, "processing a justification", &mut nodes[me], &["bad_dealer"], |d| d.process_justification(&m).is_ok())?;
                    cx.ev(format!("justification of {from} -> {r}"));
                }
            }
            _ => {
                cx.fired("clock.early-timeout");
                call(cx, "a timeout", || nodes[me].set_timeout())?;
            }
        }
        let d = &nodes[me];
        call(cx, "reading the state", || {
            let _ = (d.certified(), d.threshold_certified(), d.qual(), d.qualified_shares(), d.expected_deals(), d.is_in_qual(u32::MAX));
            let _ = d.dist_key_share().is_ok();
            let _ = format!("{d:?} {d}");
        })?;
        if cx.chance(40) {
            cx.fired("crash.node");
            let b = enc(&nodes[me]);
            nodes[me] = match call(cx, "restoring a node", || dec::<super::dkg::Dkg>(&b))? {
                Some(v) => v,
                None => return violation("a saved node does not load", "after hostile messages".into()),
            };
        }
    }
    Ok(())
}

/// one node of the Rabin DKG
pub fn rabin_dkg(cx: &mut Cx) -> Res {
    let n = cx.people(3, 5);
    let t = cx.range(2, n);
    let (long, pubs) = keypairs(n);
    let me = cx.below(n);
    let mut nodes: Vec<rdkg::Dkg> = (0..n)
        .map(|i| rab::new_dist_key_generator(&suite(), &long[i], &pubs, t).expect("dkg"))
        .collect();
    let mut orig: Vec<Vec<Dl>> = vec![];
    for d in nodes.iter_mut() {
        orig.push((0..n).map(|j| r_dl(cast(&*d.dealer.plaintext_deal(j).unwrap()))).collect());
    }
    let mut sids: Vec<Vec<u8>> = orig.iter().map(|o| o[0].sid.clone()).collect();
    if cx.chance(800) {
        let _ = nodes[me].deals();
    }
    // most of the time the first phase is behind
    if cx.chance(600) {
        cx.probe("second phase");
        let _: Vec<()> = vec![];
        for from in 0..n {
            if from == me {
                continue;
            }
            if let Ok(e) = nodes[from].dealer.clone().encrypted_deal(me) {
                let o = rdkg::ODeal { index: from as u32, deal: cast(&e) };
                let _ = call(cx, "processing a deal", || nodes[me].process_deal(&cast(&o)).is_ok())?;
            }
        }
        for dealer in 0..n {
            for i in 0..n {
                if i == me {
                    continue;
                }
                let mut r = Resp { session_id: sids[dealer].clone(), index: i as u32, ok: true, signature: vec![] };
                r.signature = sign(&long[i], &Rabin::resp_hash(&r));
                let o = rdkg::OResp { index: dealer as u32, response: r };
                let _ = call(cx, "processing a response", || nodes[me].process_response(&cast(&o)).is_ok())?;
            }
        }
        let _ = call(cx, "making secret commitments", || nodes[me].secret_commits().is_ok())?;
    }
    let steps = cx.range(4, 40);
    for _ in 0..steps {
        let k = cx.below(16);
        cx.step("hostile", k, me);
        cx.st.sim_ms += 10;
        // it has everybody's key but this node's
        let from = (me + 1 + cx.below(n - 1)) % n;
        match k {
            0 | 1 => {
                cx.fired("byz.deal");
                let x = weird_deal(cx, &orig[from][me], n);
                sids.push(x.sid.clone());
                let mut dd = nodes[from].dealer.clone();
                if !cx.chance(300) {
                    *dd.plaintext_deal(me).unwrap() = cast(&dl_r(&x));
                }
                let mut e: EncDeal = match dd.encrypted_deal(me) {
                    Ok(e) => cast(&e),
                    Err(_) => continue,
                };
                weird_enc(cx, &mut e, &long[from]);
                let idx = if cx.chance(200) { weird::index32(cx, n) } else { from as u32 };
                let b = fuzz_bytes(cx, enc(&rdkg::ODeal { index: idx, deal: e }));
                if let Some(m) = dec::<rab::Deal<P>>(&b) {
                    let r = refused_or_taken(cx, "processing a deal", &mut nodes[me], &[], |d| d.process_deal(&m).is_ok())?;
                    cx.ev(format!("deal of {from} -> {r}"));
                }
            }
            2 | 3 => {
                cx.fired("byz.response");
                let mut r = Resp { session_id: cx.pick(&sids), index: from as u32, ok: cx.chance(500), signature: vec![] };
                if cx.chance(300) {
                    r.index = weird::index32(cx, n);
                }
                r.signature = if cx.chance(150) { weird::blob(cx) } else { sign(&long[from], &Rabin::resp_hash(&r)) };
                let dealer = if cx.chance(200) { weird::index32(cx, n) } else { cx.below(n) as u32 };
                let b = fuzz_bytes(cx, enc(&rdkg::OResp { index: dealer, response: r }));
                if let Some(m) = dec::<rab::Response>(&b) {
                    let r = refused_or_taken(cx, "processing a response", &mut nodes[me], &[], |d| d.process_response(&m).is_ok())?;
                    cx.ev(format!("response of {from} about {dealer} -> {r}"));
                }
            }
            4 | 5 => {
                cx.fired("byz.justification");
                let i = cx.below(n);
                let x = weird_deal(cx, &orig[from][i], n);
                let idx = if cx.chance(300) { weird::index32(cx, n) } else { i as u32 };
                let j: Just<RDeal> = dec(&Rabin::just(x.sid.clone(), idx, &x, &long[from])).unwrap();
                let dealer = if cx.chance(200) { weird::index32(cx, n) } else { from as u32 };
                let b = fuzz_bytes(cx, enc(&rdkg::OJust { index: dealer, justification: j }));
                if let Some(m) = dec::<rab::Justification<S>>(&b) {
                    let r = refused_or_taken(cx, "processing a justification", &mut nodes[me], &["bad_dealer"], |d| d.process_justification(&m).is_ok())?;
                    cx.ev(format!("justification of {from} -> {r}"));
                }
            }
            6..=8 => {
                cx.fired("byz.commits");
                let pts: Vec<Dl> = orig[from].clone();
                let mut c = rdkg::commits_of(&pts, t);
                match cx.below(4) {
                    0 => c = weird::points(cx, t),
                    1 => {
                        let j = cx.below(c.len());
                        c[j] = weird::point(cx);
                    }
                    _ => (),
                }
                let idx = if cx.chance(200) { weird::index32(cx, n) } else { from as u32 };
                let mut m = rdkg::SC { index: idx, commitments: c, session_id: orig[from][0].sid.clone(), signature: vec![] };
                if cx.chance(100) {
                    m.session_id = weird::blob(cx);
                }
                let h = cast::<_, rab::SecretCommits<S>>(&m).hash(&suite()).unwrap();
                m.signature = sign(&long[from], &h);
                let b = fuzz_bytes(cx, enc(&m));
                if let Some(m) = dec::<rab::SecretCommits<S>>(&b) {
                    let r = refused_or_taken(cx, "processing secret commitments", &mut nodes[me], &[], |d| d.process_secret_commits(&m).is_ok())?;
                    cx.ev(format!("commitments of {from} -> {r}"));
                }
            }
            9..=11 => {
                cx.fired("byz.complaint");
                let dealer = cx.below(n);
                let x = weird_deal(cx, &orig[dealer][from], n);
                let mut m = rdkg::CC { index: from as u32, dealer_index: dealer as u32, deal: dl_r(&x), signature: vec![] };
                if cx.chance(200) {
                    m.index = weird::index32(cx, n);
                }
                if cx.chance(200) {
                    m.dealer_index = weird::index32(cx, n);
                }
                let h = cast::<_, rab::ComplaintCommits<S>>(&m).hash(&suite()).unwrap();
                m.signature = if cx.chance(100) { weird::blob(cx) } else { sign(&long[from], &h) };
                let b = fuzz_bytes(cx, enc(&m));
                if let Some(m) = dec::<rab::ComplaintCommits<S>>(&b) {
                    let r = refused_or_taken(cx, "processing a complaint about commitments", &mut nodes[me], &[], |d| d.process_complaint_commits(&m).is_ok())?;
                    cx.ev(format!("complaint of {from} about {dealer} -> {r}"));
                }
            }
            12..=14 => {
                cx.fired("byz.reconstruct");
                let dealer = cx.below(n);
                let mut share = pri(from, orig[dealer][from].v.clone());
                match cx.below(4) {
                    0 => share.i = weird::index(cx, n),
                    1 => share.v = weird::sc(cx),
                    _ => (),
                }
                let mut m = rdkg::RC { session_id: sids[dealer].clone(), index: from as u32, dealer_index: dealer as u32, share, signature: vec![] };
                if cx.chance(150) {
                    m.index = weird::index32(cx, n);
                }
                if cx.chance(150) {
                    m.dealer_index = weird::index32(cx, n);
                }
                let h = cast::<_, rab::ReconstructCommits<S>>(&m).hash(&suite()).unwrap();
                m.signature = if cx.chance(100) { weird::blob(cx) } else { sign(&long[from], &h) };
                let b = fuzz_bytes(cx, enc(&m));
                if let Some(m) = dec::<rab::ReconstructCommits<S>>(&b) {
                    let r = refused_or_taken(cx, "processing a reconstruction share", &mut nodes[me], &[], |d| d.process_reconstruct_commits(&m).is_ok())?;
                    cx.ev(format!("reconstruction share of {from} for {dealer} -> {r}"));
                }
            }
            _ => {
                cx.fired("clock.early-timeout");
                call(cx, "a timeout", || nodes[me].set_timeout())?;
                let _ = call(cx, "making secret commitments", || nodes[me].secret_commits().is_ok())?;
            }
        }
        let d = &nodes[me];
        call(cx, "reading the state", || {
            let _ = (d.certified(), d.qual(), d.finished(), d.is_in_qual(u32::MAX));
            let _ = d.dist_key_share().is_ok();
            let _ = format!("{d:?} {d}");
        })?;
        if cx.chance(40) {
            cx.fired("crash.node");
            let b = enc(&nodes[me]);
            nodes[me] = match call(cx, "restoring a node", || dec::<rdkg::Dkg>(&b))? {
                Some(v) => v,
                None => return violation("a saved node does not load", "after hostile messages".into()),
            };
        }
    }
    Ok(())
}

/// one signer
pub fn signer(cx: &mut Cx) -> Res {
    let n = cx.people(2, 5);
    let t = cx.range(2, n);
    let (keys, pubs) = keypairs(n);
    let (_, lk, lv, _) = tsig::shared::<tsig::PDks>(n, t);
    let (_, rk, rv, _) = tsig::shared::<tsig::PDks>(n, t);
    let me = cx.below(n);
    let len = cx.pick(&[0, 1, 64]);
    let msg = cx.bytes(len);
    let mut d = dss::new_dss(suite(), &keys[me], &pubs, &lk[me], &rk[me], &msg, t).expect("dss");
    let mut partials: Vec<Part> = vec![];
    for i in 0..n {
        let mut x = dss::new_dss(suite(), &keys[i], &pubs, &lk[i], &rk[i], &msg, t).expect("dss");
        partials.push(cast(&x.partial_sig().expect("partial")));
    }
    let _ = (lv, rv);
    let steps = cx.range(3, 30);
    for _ in 0..steps {
        let from = cx.below(n);
        cx.step("hostile", from, me);
        cx.fired("byz.partial");
        cx.st.sim_ms += 10;
        let mut p = partials[from].clone();
        for _ in 0..cx.range(0, 2) {
            match cx.below(5) {
                0 => p.partial.i = weird::index(cx, n),
                1 => p.partial.v = weird::sc(cx),
                2 => p.session_id = weird::blob(cx),
                _ => (),
            }
        }
        p.signature = if cx.chance(100) { weird::blob(cx) } else { sign(&keys[from], &p_hash(&p)) };
        let b = fuzz_bytes(cx, enc(&p));
        if let Some(m) = dec::<dss::PartialSig<S>>(&b) {
            let r = refused_or_taken(cx, "processing a partial signature", &mut d, &[], |d| d.process_partial_sig(m).is_ok())?;
            cx.ev(format!("partial of {from} -> {r}"));
        }
        call(cx, "reading the state", || {
            let _ = (d.enough_partial_sig(), d.signature().is_ok());
            let _ = format!("{d:?}");
        })?;
        if cx.chance(100) {
            call(cx, "signing", || d.partial_sig().is_ok())?;
        }
    }
    Ok(())
}

fn garbage<T: DeserializeOwned + Serialize + std::fmt::Debug>(cx: &mut Cx, what: &'static str, good: &T) -> Res {
    let mut b = enc(good);
    for _ in 0..cx.range(1, 3) {
        b = corrupt(cx, &b);
    }
    call(cx, what, || {
        if let Some(x) = dec::<T>(&b) {
            let _ = format!("{x:?}");
            let _ = enc(&x);
        }
    })
}

/// decoders, verifiers and decryption, on bytes from anywhere
pub fn bytes(cx: &mut Cx) -> Res {
    let rounds = cx.range(3, 25);
    let k = rand_scalar();
    let pk = g(&k);
    let len = cx.pick(&[0, 1, 20, 64]);
    let msg = cx.bytes(len);
    let sig = sign(&k, &msg);
    let ct = kyber_rs::encrypt::ecies::encrypt(suite(), pk.clone(), &msg).expect("encrypt");
    for _ in 0..rounds {
        let what = cx.below(12);
        cx.step("bytes", what, 0);
        cx.fired("net.corrupt");
        match what {
            0 => {
                let mut s = sig.clone();
                match cx.below(4) {
                    0 => s = weird::blob(cx),
                    1 => s[32..].copy_from_slice(&weird::scalar_bytes(cx)),
                    2 => {
                        let p = weird::point_bytes(cx);
                        let m = p.len().min(32);
                        s[..m].copy_from_slice(&p[..m]);
                    }
                    _ => s = corrupt(cx, &s),
                }
                let p = if cx.chance(300) { weird::point(cx) } else { pk.clone() };
                call(cx, "verifying a signature", || {
                    let _ = schnorr::verify(suite(), &p, &msg, &s).is_ok();
                    let _ = eddsa::verify(&p, &msg, &s).is_ok();
                    let _ = dss::verify(&p, &msg, &s).is_ok();
                })?;
                let pb = weird::point_bytes(cx);
                call(cx, "verifying a signature", || {
                    let _ = eddsa::verify_with_checks(&pb, &msg, &s).is_ok();
                })?;
            }
            1 => {
                let b = weird::blob(cx);
                call(cx, "loading a key", || {
                    let mut e = eddsa::EdDSA::<Curve>::default();
                    if e.unmarshal_binary(&b).is_ok() {
                        let _ = e.sign(&msg).is_ok();
                        let _ = e.marshal_binary().is_ok();
                    }
                })?;
            }
            2 | 3 => {
                let c = match cx.below(3) {
                    0 => weird::blob(cx),
                    1 => {
                        let mut c = weird::point_bytes(cx);
                        c.extend(weird::blob(cx));
                        c
                    }
                    _ => corrupt(cx, &ct),
                };
                call(cx, "decrypting", || {
                    let _ = kyber_rs::encrypt::ecies::decrypt(suite(), k.clone(), &c).is_ok();
                })?;
            }
            4 => {
                let b = weird::point_bytes(cx);
                call(cx, "decoding a point", || {
                    let mut p = suite().point();
                    let _ = p.is_canonical(&b);
                    if p.unmarshal_binary(&b).is_ok() {
                        let _ = (p.data().is_ok(), p.has_small_order(), format!("{p} {p:x} {p:X} {p:?}"));
                        let _ = (pbytes(&add(&p, &p)), pbytes(&suite().point().mul(&k, Some(&p))));
                    }
                })?;
            }
            5 => {
                let b = if cx.chance(300) { weird::blob(cx) } else { weird::scalar_bytes(cx).to_vec() };
                call(cx, "decoding a scalar", || {
                    let mut s = suite().scalar();
                    let _ = s.is_canonical(&b);
                    let _ = suite().scalar().set_bytes(&b);
                    if s.unmarshal_binary(&b).is_ok() {
                        let _ = format!("{s} {s:x} {s:X} {s:?}");
                        let _ = (sbytes(&s), s.clone() + s.clone(), s.clone() * s.clone(), inv(&s));
                        let _ = pbytes(&g(&s));
                    }
                })?;
            }
            6 => {
                let p = weird::point(cx);
                let s = weird::sc(cx);
                call(cx, "computing with what arrived", || {
                    let q = suite().point().mul(&s, Some(&p));
                    let _ = (pbytes(&q), pbytes(&add(&p, &q)), p == q, p.data().is_ok(), p.has_small_order());
                    let mut r = p.clone();
                    r = r.mul(&s, Some(&p));
                    let _ = (pbytes(&r), format!("{r:?} {r}"));
                })?;
            }
            7 => {
                let n = cx.range(1, 5);
                let c = weird::points(cx, n);
                let pp = PubPoly::<S>::new(&suite(), None, &c);
                let i = weird::index(cx, n);
                let sh = pri(weird::index(cx, n), weird::sc(cx));
                call(cx, "checking a share", || {
                    let _ = (pp.eval(i), pp.check(&sh), pp.threshold());
                    let _ = (sh.hash(suite()).is_ok(), PubShare { i, v: null() }.hash(suite()).is_ok());
                })?;
            }
            8 => {
                let n = cx.range(1, 6);
                let t = cx.range(1, n);
                let mut sh: Vec<Option<PriShare<Sc>>> = vec![];
                let mut ph: Vec<Option<PubShare<P>>> = vec![];
                for _ in 0..cx.range(0, n + 2) {
                    if cx.chance(150) {
                        sh.push(None);
                        ph.push(None);
                        continue;
                    }
                    let i = if cx.chance(500) { cx.below(n) } else { weird::index(cx, n) };
                    sh.push(Some(pri(i, weird::sc(cx))));
                    ph.push(Some(PubShare { i, v: weird::point(cx) }));
                }
                call(cx, "recovering from shares", || {
                    let _ = poly::recover_secret(suite(), &sh, t, n).is_ok();
                    let _ = poly::recover_pri_poly(&suite(), &sh, t, n).is_ok();
                    let _ = poly::recover_commit(suite(), &ph, t, n).is_ok();
                    let _ = poly::recover_pub_poly(suite(), &ph, t, n).is_ok();
                })?;
            }
            9 => {
                // polynomials which arrive are compared and added
                let (a, b) = (cx.range(1, 4), cx.range(1, 4));
                let c: Vec<P> = (0..a).map(|_| g(&rand_scalar())).collect();
                let mut e = c.clone();
                e.truncate(b);
                while e.len() < b {
                    e.push(g(&rand_scalar()));
                }
                let (x, y) = (PubPoly::<S>::new(&suite(), None, &c), PubPoly::<S>::new(&suite(), None, &e));
                let eq = call(cx, "comparing polynomials", || x.equal(&y).unwrap_or(false))?;
                ensure!(eq == (c == e), "polynomials of other coefficients are taken for equal", "{a} and {b} coefficients");
                let s = call(cx, "adding polynomials", || x.add(&y).is_ok())?;
                ensure!(s == (a == b), "polynomials of different degrees are added", "{a} and {b} coefficients");
            }
            10 => {
                let sh = pri(1, k.clone());
                garbage(cx, "decoding a share", &sh)?;
                garbage(cx, "decoding a public share", &PubShare { i: 1, v: pk.clone() })?;
                garbage(cx, "decoding a polynomial", &PubPoly::<S>::new(&suite(), Some(pk.clone()), &[pk.clone(), pk.clone()]))?;
                garbage(cx, "decoding an encrypted deal", &EncDeal { dhkey: pk.clone(), signature: sig.clone(), nonce: vec![1; 12], cipher: ct.clone() })?;
                let mut e = ps::DistKeyShare::<S>::default();
                e.commits = vec![pk.clone()];
                garbage(cx, "decoding a key share", &e)?;
                let mut e = rab::DistKeyShare::<S>::default();
                e.commits = vec![pk.clone()];
                garbage(cx, "decoding a key share", &e)?;
            }
            _ => {
                let b = weird::blob(cx);
                call(cx, "decoding garbage", || {
                    let mut a = pvss::EncryptedDeal::<P>::default();
                    let _ = encoding::unmarshal_binary(&mut a, &b).is_ok();
                    let mut a = rvss::EncryptedDeal::<P>::default();
                    let _ = encoding::unmarshal_binary(&mut a, &b).is_ok();
                    let mut a = pvss::Response::default();
                    let _ = encoding::unmarshal_binary(&mut a, &b).is_ok();
                    let mut a = ps::DistKeyShare::<S>::default();
                    let _ = encoding::unmarshal_binary(&mut a, &b).is_ok();
                    let mut p = suite().point();
                    let _ = p.unmarshal_from(&mut &b[..]).is_ok();
                    let mut p = suite().scalar();
                    let _ = p.unmarshal_from(&mut &b[..]).is_ok();
                    let _ = dec::<pvss::Dealer<S>>(&b).is_some();
                    let _ = dec::<rvss::Verifier<S>>(&b).is_some();
                    let _ = dec::<super::dkg::Dkg>(&b).is_some();
                    let _ = dec::<rdkg::Dkg>(&b).is_some();
                })?;
            }
        }
        cx.ev(format!("bytes {what}"));
    }
    Ok(())
}
