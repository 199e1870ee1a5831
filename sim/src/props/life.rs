//! C20: the whole life of a key: generated by a group, used for signing,
//! reshared and renewed, used again; each phase run by the real code over the
//! simulated network, with faults in each.
use super::dkg::{self, made_key, Dks, Setup};
use super::rdkg;
use super::tsig::{self, challenge, Job, Key, Part};
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use kyber_rs::sign::{dss, eddsa, schnorr};
use kyber_rs::share::poly::{recover_commit, PriShare, PubPoly, PubShare};
use kyber_rs::encoding::Marshaling;
use kyber_rs::{Group, Point, Random};
use std::collections::BTreeMap;

fn es<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}

/// what was signed so far: it stays valid for ever
struct Book {
    key: P,
    signed: Vec<(Vec<u8>, Vec<u8>)>,
}

impl Book {
    fn check(&self, cx: &mut Cx) -> Res {
        for (m, s) in &self.signed {
            cx.st.checks += 1;
            ensure!(dss::verify(&self.key, m, s).is_ok(), "an old signature is not valid any more", "{} bytes", m.len());
            ensure!(eddsa::verify(&self.key, m, s).is_ok(), "an old signature is not valid any more", "as EdDSA, {} bytes", m.len());
            ensure!(schnorr::verify(suite(), &self.key, m, s).is_ok(), "an old signature is not valid any more", "as Schnorr, {} bytes", m.len());
        }
        Ok(())
    }
    fn add(&mut self, m: Vec<u8>, s: Vec<u8>) -> Res {
        for (_, o) in &self.signed {
            ensure!(o[..32] != s[..32], "two signatures share their nonce", "{}", hex::encode(&s[..32]));
        }
        self.signed.push((m, s));
        Ok(())
    }
}

/// what was encrypted to the group's key: any threshold of its holders opens it
struct Vault {
    key: P,
    items: Vec<(P, P, Vec<u8>)>,
}

impl Vault {
    fn put(&mut self, cx: &mut Cx) -> Res {
        let s = suite();
        let len = cx.pick(&[0usize, 1, 5, 16, 28, 29]);
        let data = cx.bytes(len);
        let m = s.point().embed(Some(&data), &mut s.random_stream());
        let k = rand_scalar();
        let c = s.point().add(&s.point().mul(&k, Some(&self.key)), &m);
        // as it is stored and sent
        let mut disk = vec![];
        for x in [&g(&k), &c] {
            x.marshal_to(&mut disk).map_err(|e| Violation { kind: "a point could not be stored".into(), detail: es(e) })?;
        }
        let mut r = &disk[..];
        let mut out = vec![];
        for _ in 0..2 {
            let mut x = s.point();
            x.unmarshal_from(&mut r).map_err(|e| Violation { kind: "a point could not be read back".into(), detail: es(e) })?;
            out.push(x);
        }
        self.items.push((out[0].clone(), out[1].clone(), data));
        Ok(())
    }

    /// a client collects what the holders answer
    fn open<K: Key>(&self, cx: &mut Cx, t: usize, hold: &[Option<K>], stale: &[Stale<K>]) -> Res {
        let s = suite();
        let n = hold.len();
        for (big, c, data) in &self.items {
            let part = |x: &Sc, i: usize| PubShare { i, v: s.point().mul(x, Some(big)) };
            let mut inbox: Vec<(u64, PubShare<P>)> = vec![];
            for k in hold.iter().flatten() {
                let (commits, i, v) = k.parts();
                ensure!(PubPoly::new(&s, None, &commits).check(&super::flavor::pri(i, v.clone())), "a holder's share is not on the public polynomial", "{i}");
                if cx.fault("msg.lost", 250) {
                    continue;
                }
                inbox.push((cx.word() % 500, part(&v, i)));
                if cx.fault("msg.duplicated", 200) {
                    inbox.push((cx.word() % 500, part(&v, i)));
                }
            }
            cx.st.sim_ms += 500;
            inbox.sort_by_key(|x| x.0);
            let mut who: Vec<usize> = inbox.iter().map(|x| x.1.i).collect();
            who.sort_unstable();
            who.dedup();
            cx.step("open", who.len(), t);
            let got: Vec<Option<PubShare<P>>> = inbox.into_iter().map(|x| Some(x.1)).collect();
            let read = |shares: &[Option<PubShare<P>>], t: usize| -> Option<Vec<u8>> {
                let x = recover_commit(s, shares, t, n).ok()?;
                s.point().sub(c, &x).data().ok()
            };
            cx.st.checks += 2;
            if who.len() >= t {
                cx.probe("opened");
                let r = read(&got, t);
                ensure!(r.as_ref() == Some(data), "a threshold of holders cannot open what was encrypted to their key", "{} of t={t}: {r:?} for {}", who.len(), hex::encode(data));
            } else {
                ensure!(recover_commit(s, &got, t, n).is_err(), "fewer than the threshold of answers are taken", "{} of t={t}", who.len());
            }
            // fewer than the threshold open nothing, whatever they try
            if t > 2 || who.len() < t {
                let few: Vec<_> = got.iter().flatten().filter(|x| who.iter().take(t - 1).any(|w| *w == x.i)).map(|x| Some(PubShare { i: x.i, v: x.v.clone() })).collect();
                let k = who.len().min(t - 1);
                if k >= 1 {
                    let x = recover_commit(s, &few, k, n).ok();
                    if let Some(x) = x {
                        let r = s.point().sub(c, &x).data().ok();
                        ensure!(data.is_empty() || data.len() < 5 || r.as_ref() != Some(data), "fewer than the threshold opened a message", "{k} of t={t}");
                    }
                }
            }
            // a share of a former generation among them
            if let Some(st) = stale.first() {
                let (_, oi, ov) = st.key.parts();
                let mut mixed: Vec<_> = got.iter().flatten().filter(|x| x.i != oi).map(|x| PubShare { i: x.i, v: x.v.clone() }).collect();
                mixed.sort_by_key(|x| x.i);
                mixed.dedup_by_key(|x| x.i);
                mixed.truncate(t - 1);
                if mixed.len() == t - 1 && data.len() >= 5 {
                    cx.fired("share.of-former-generation");
                    mixed.push(part(&ov, oi));
                    let m: Vec<_> = mixed.into_iter().map(Some).collect();
                    let r = recover_commit(s, &m, t, n.max(oi + 1)).ok().and_then(|x| s.point().sub(c, &x).data().ok());
                    ensure!(r.as_ref() != Some(data), "shares of different generations opened a message", "t={t}");
                }
            }
            cx.state(h64(data) ^ who.len() as u64);
        }
        Ok(())
    }
}

fn dkg_cfg(cx: &mut Cx, offline: bool) -> dkg::Cfg {
    dkg::Cfg {
        crash: cx.pick(&[0, 0, 30]),
        dup: cx.chance(300),
        offline: if offline { cx.pick(&[0, 0, 150]) } else { 0 },
        byz: cx.pick(&[0, 0, 0, 150]),
        reliable: true,
        ..Default::default()
    }
}

fn sign_cfg(cx: &mut Cx) -> tsig::Cfg {
    tsig::Cfg { byz: cx.pick(&[0, 0, 150]), attacker: cx.pick(&[0, 0, 150]), crash: cx.pick(&[0, 0, 30]), reliable: cx.chance(800), dup: cx.chance(300) }
}

fn setup(long: &[Sc], group: &[usize], t: usize) -> Setup {
    let n = group.len();
    Setup {
        resharing: false,
        long: group.iter().map(|x| long[*x].clone()).collect(),
        old: (0..n).collect(),
        new: (0..n).collect(),
        old_t: t,
        t,
        coeffs: vec![],
        shares: BTreeMap::new(),
        default_t: false,
    }
}

/// the one-time key of a signature, by index
fn one_time(cx: &mut Cx, long: &[Sc], group: &[usize], t: usize) -> Res<Option<Vec<Option<Dks>>>> {
    let c = dkg_cfg(cx, true);
    let s = setup(long, group, t);
    let mut w = dkg::World::new(cx, s, c)?;
    let out = w.run(cx)?;
    Ok(agreed(&out, group.len(), t))
}

/// the shares, if at least t hold one of the same key
fn agreed<K: Key>(out: &BTreeMap<usize, K>, n: usize, t: usize) -> Option<Vec<Option<K>>> {
    let c = out.values().next()?.parts().0;
    if out.len() < t || !out.values().all(|k| k.parts().0 == c) {
        return None;
    }
    Some((0..n).map(|i| out.get(&i).cloned()).collect())
}

/// a share which is not of this generation
#[derive(Clone)]
struct Stale<K> {
    who: usize,
    key: K,
}

#[allow(clippy::too_many_arguments)]
fn sign<K: Key>(cx: &mut Cx, book: &mut Book, long: &[Sc], group: &[usize], t: usize, hold: &[Option<K>], rnd: &[Option<K>], stale: &[Stale<K>], old_t: usize) -> Res {
    let keys: Vec<Sc> = group.iter().map(|x| long[*x].clone()).collect();
    let pubs: Vec<P> = keys.iter().map(g).collect();
    let len = cx.pick(&[0usize, 1, 32, 200]);
    let msg = cx.bytes(len);
    let c = sign_cfg(cx);
    cx.step("sign", group.len(), t);
    let able = (0..group.len()).filter(|i| hold[*i].is_some() && rnd[*i].is_some()).count();
    let r = tsig::sessions(cx, &c, &keys, &pubs, t, vec![Job { msg: msg.clone(), lk: hold.to_vec(), rk: rnd.to_vec() }])?;
    if c.reliable && c.byz == 0 && able >= t {
        ensure!(r[0].is_some(), "no signature though enough holders are there", "{able} of {}, t={t}", group.len());
    }
    if let Some(s) = &r[0] {
        cx.probe("signed");
        book.add(msg.clone(), s.clone())?;
    }
    // someone still holding a share of a former generation
    for st in stale {
        let pos = match group.iter().position(|x| *x == st.who) {
            Some(p) => p,
            None => continue,
        };
        let r = match &rnd[pos] {
            Some(r) => r.clone(),
            None => continue,
        };
        let peer = match (0..group.len()).find(|i| *i != pos && hold[*i].is_some() && rnd[*i].is_some()) {
            Some(p) => p,
            None => continue,
        };
        cx.fired("share.of-former-generation");
        let mk = |i: usize, l: &K, r: &K| dss::new_dss(suite(), &keys[i], &pubs, l, r, &msg, t).map_err(es);
        let (mut a, mut b) = match (mk(pos, &st.key, &r), mk(peer, hold[peer].as_ref().unwrap(), rnd[peer].as_ref().unwrap())) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(e), _) | (_, Err(e)) => return violation("a valid signing session was refused", e),
        };
        let pa = a.partial_sig().map_err(es);
        let pb = b.partial_sig().map_err(es);
        let (pa, pb): (Part, Part) = match (&pa, &pb) {
            (Ok(x), Ok(y)) => (cast(x), cast(y)),
            _ => return violation("a node could not sign", format!("{pa:?} {pb:?}")),
        };
        cx.st.checks += 3;
        let before = canon(&b);
        ensure!(b.process_partial_sig(cast(&pa)).is_err(), "a partial signature of a former generation was accepted", "of {}", st.who);
        let mut forced = pa.clone();
        forced.session_id = pb.session_id.clone();
        forced.signature = crate::kit::sign(&keys[pos], &tsig::p_hash(&forced));
        ensure!(b.process_partial_sig(cast(&forced)).is_err(), "a partial signature of a former generation was accepted", "of {}, for this session", st.who);
        ensure!(canon(&b) == before, "a refused partial signature changed the session", "of {}", st.who);
        ensure!(a.process_partial_sig(cast(&pb)).is_err(), "a holder of a former generation takes new partial signatures", "{}", st.who);
    }
    // whoever collects shares by hand and mixes generations
    let usable: Vec<usize> = (0..group.len()).filter(|i| hold[*i].is_some() && rnd[*i].is_some()).collect();
    if !stale.is_empty() && usable.len() >= 2 {
        let m = t.max(old_t);
        let st = &stale[cx.below(stale.len())];
        let r0 = rnd[usable[0]].as_ref().unwrap().parts().0;
        let h = challenge(&r0[0], &book.key, &msg);
        let mut parts: Vec<Option<PriShare<Sc>>> = vec![];
        let (_, oi, ov) = st.key.parts();
        // the one-time share which the former holder would have at its place
        if let Some(r) = rnd.get(oi).and_then(|x| x.as_ref()) {
            parts.push(Some(super::flavor::pri(oi, h.clone() * ov + r.parts().2)));
            for i in &usable {
                if *i != oi && parts.len() < m {
                    let v = h.clone() * hold[*i].as_ref().unwrap().parts().2 + rnd[*i].as_ref().unwrap().parts().2;
                    parts.push(Some(super::flavor::pri(*i, v)));
                }
            }
            let k = parts.len();
            if k >= 2 {
                cx.fired("shares.mixed-generations");
                cx.shuffle(&mut parts);
                for tt in 2..=k {
                    if parts[..].iter().flatten().take(tt).all(|p| p.i != oi) {
                        continue;
                    }
                    if let Ok(z) = kyber_rs::share::poly::recover_secret(suite(), &parts, tt, group.len().max(oi + 1)) {
                        // only those recovered from may hold the old one
                        let mut s = parts.iter().flatten().map(|p| p.i).collect::<Vec<_>>();
                        s.sort_unstable();
                        s.truncate(tt);
                        if !s.contains(&oi) {
                            continue;
                        }
                        let mut sig = pbytes(&r0[0]);
                        sig.extend(sbytes(&z));
                        cx.st.checks += 1;
                        ensure!(dss::verify(&book.key, &msg, &sig).is_err(), "shares of different generations made a signature", "{k} shares, t={tt}");
                    }
                }
            }
        }
    }
    // fewer than the threshold
    let mut few = usable.clone();
    cx.shuffle(&mut few);
    few.truncate(t - 1);
    if let (true, Some(r0)) = (!few.is_empty(), usable.first()) {
        let r0 = rnd[*r0].as_ref().unwrap().parts().0;
        let h = challenge(&r0[0], &book.key, &msg);
        let sh: Vec<(usize, Sc)> = few.iter().map(|i| (*i, h.clone() * hold[*i].as_ref().unwrap().parts().2 + rnd[*i].as_ref().unwrap().parts().2)).collect();
        if let Some(z) = interpolate(&sh) {
            let mut sig = pbytes(&r0[0]);
            sig.extend(sbytes(&z));
            cx.st.checks += 1;
            ensure!(dss::verify(&book.key, &msg, &sig).is_err(), "fewer than the threshold made a signature", "{} of t={t}", few.len());
        }
    }
    book.check(cx)
}

/// a Pedersen key through generation, signing, resharing and renewal
pub fn pedersen(cx: &mut Cx) -> Res {
    pedersen_life(cx, false)
}

/// a Pedersen key through generation, decryptions, resharing and renewal
pub fn pedersen_vault(cx: &mut Cx) -> Res {
    pedersen_life(cx, true)
}

fn pedersen_life(cx: &mut Cx, vault: bool) -> Res {
    let (long, _) = keypairs(16);
    let n = cx.people(2, 4);
    let mut t = cx.range(2, n);
    let mut group: Vec<usize> = (0..n).collect();
    let c = dkg_cfg(cx, true);
    let s = setup(&long, &group, t);
    let out = dkg::World::new(cx, s, c)?.run(cx)?;
    let mut hold = match agreed(&out, n, t) {
        Some(h) => h,
        None => return Ok(()),
    };
    let first = hold.iter().flatten().next().unwrap().clone();
    let mut book = Book { key: first.public(), signed: vec![] };
    cx.probe("key generated");
    let mut safe = Vault { key: first.public(), items: vec![] };
    let mut stale: Vec<Stale<Dks>> = vec![];
    let mut old_t = t;
    let mut gen = 0;
    let phases = cx.range(2, 5);
    for phase in 0..phases {
        let what = if phase == 0 { 0 } else { cx.below(4) };
        cx.ev(format!("phase {phase}: {what} among {group:?} with t={t}"));
        match what {
            2 => {
                // resharing needs the shares of t old members
                let k = cx.range(2, 4);
                let mut pool: Vec<usize> = (0..long.len()).collect();
                cx.shuffle(&mut pool);
                let new: Vec<usize> = pool[..k].to_vec();
                let t2 = cx.range(2, k);
                let mut all: Vec<usize> = (0..group.len()).filter(|i| hold[*i].is_some()).map(|i| group[i]).collect();
                if all.len() < group.len() {
                    // those without a share have nothing to pass on, and the
                    // others cannot do without them in the list
                    continue;
                }
                for x in &new {
                    if !all.contains(x) {
                        all.push(*x);
                    }
                }
                let at = |x: usize| all.iter().position(|y| *y == x).unwrap();
                let coeffs = hold.iter().flatten().next().unwrap().commits.clone();
                let s = Setup {
                    resharing: true,
                    long: all.iter().map(|x| long[*x].clone()).collect(),
                    old: group.iter().map(|x| at(*x)).collect(),
                    new: new.iter().map(|x| at(*x)).collect(),
                    old_t: t,
                    t: t2,
                    coeffs,
                    shares: group.iter().enumerate().map(|(i, x)| (at(*x), hold[i].clone().unwrap())).collect(),
                    default_t: false,
                };
                let c = dkg_cfg(cx, true);
                cx.step("reshare", group.len(), k);
                let out = dkg::World::new(cx, s, c)?.run(cx)?;
                let by: BTreeMap<usize, Dks> = new.iter().enumerate().filter_map(|(i, x)| out.get(&at(*x)).map(|k| (i, k.clone()))).collect();
                let next = match agreed(&by, k, t2) {
                    Some(h) => h,
                    None => return Ok(()),
                };
                ensure!(next.iter().flatten().all(|k| k.public() == book.key), "the history changed the public key", "phase {phase}");
                stale = group.iter().zip(&hold).filter_map(|(x, k)| k.clone().map(|key| Stale { who: *x, key })).collect();
                old_t = t;
                hold = next;
                group = new;
                t = t2;
                gen += 1;
                cx.probe("reshared");
            }
            3 => {
                // renewal by shares of zero
                let (_, zero, _) = made_key(group.len(), t, Some(scalar(0)));
                stale = group.iter().zip(&hold).filter_map(|(x, k)| k.clone().map(|key| Stale { who: *x, key })).collect();
                for (i, k) in hold.iter_mut().enumerate() {
                    if let Some(o) = k {
                        match o.renew(suite(), zero[i].clone()) {
                            Ok(r) => *k = Some(r),
                            Err(e) => return violation("a renewal was refused", es(e)),
                        }
                    }
                }
                ensure!(hold.iter().flatten().all(|k| k.public() == book.key), "the history changed the public key", "phase {phase}");
                old_t = t;
                gen += 1;
                cx.fired("renewal");
            }
            _ => {
                if cx.chance(300) {
                    // every holder starts again from what it saved
                    cx.fired("crash.holders");
                    for k in hold.iter_mut().flatten() {
                        torn(cx, k)?;
                        *k = restarted(k, format!("phase {phase}"))?;
                    }
                }
                if vault {
                    safe.put(cx)?;
                } else if let Some(rnd) = one_time(cx, &long, &group, t)? {
                    sign(cx, &mut book, &long, &group, t, &hold, &rnd, &stale, old_t)?;
                    if gen > 0 {
                        cx.probe("signed in a later generation");
                    }
                }
            }
        }
        if vault {
            safe.open(cx, t, &hold, &stale)?;
        }
        book.check(cx)?;
    }
    Ok(())
}

/// a Rabin key signing several messages
pub fn rabin(cx: &mut Cx) -> Res {
    rabin_life(cx, false)
}

/// a Rabin key to which several messages are encrypted
pub fn rabin_vault(cx: &mut Cx) -> Res {
    rabin_life(cx, true)
}

fn rabin_life(cx: &mut Cx, vault: bool) -> Res {
    let n = cx.people(3, 4);
    let t = cx.range(2, n);
    let (long, _) = keypairs(n);
    let group: Vec<usize> = (0..n).collect();
    let gen = |cx: &mut Cx| -> Res<Option<Vec<Option<rdkg::Dks>>>> {
        let c = rdkg::Cfg { crash: cx.pick(&[0, 0, 30]), dup: cx.chance(300), offline: cx.pick(&[0, 0, 120]), byz: cx.pick(&[0, 0, 150]), reliable: true, ..Default::default() };
        let out = rdkg::World::with(cx, c, long.clone(), t)?.run(cx)?;
        Ok(agreed(&out, n, t))
    };
    let mut hold = match gen(cx)? {
        Some(h) => h,
        None => return Ok(()),
    };
    let mut book = Book { key: hold.iter().flatten().next().unwrap().public(), signed: vec![] };
    cx.probe("key generated");
    for _ in 0..cx.range(1, 2) {
        if cx.chance(300) {
            cx.fired("crash.holders");
            for k in hold.iter_mut().flatten() {
                torn(cx, k)?;
                *k = restarted(k, "Rabin".into())?;
            }
        }
        if vault {
            let mut safe = Vault { key: book.key.clone(), items: vec![] };
            for _ in 0..cx.range(1, 3) {
                safe.put(cx)?;
            }
            safe.open(cx, t, &hold, &[])?;
        } else if let Some(rnd) = gen(cx)? {
            sign(cx, &mut book, &long, &group, t, &hold, &rnd, &[], t)?;
        }
    }
    book.check(cx)
}
