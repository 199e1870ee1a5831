//! C19: signed messages on a channel which alters, swaps and replays them.
use crate::core::*;
use crate::ensure;
use crate::entropy;
use crate::kit::*;
use crate::runner::guarded;
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::group::edwards25519::Curve;
use kyber_rs::sign::eddsa::{self, EdDSA};
use kyber_rs::sign::schnorr;
use kyber_rs::util::key::new_key_pair;
use kyber_rs::util::random::RandStream;
use kyber_rs::{Group, Point};
use num_bigint_dig::BigUint;
use sha2::{Digest, Sha512};

enum Signer {
    Plain(Sc, P),
    Det(Box<EdDSA<Curve>>),
}

impl Signer {
    fn public(&self) -> P {
        match self {
            Signer::Plain(_, p) => *p,
            Signer::Det(e) => e.public,
        }
    }
    fn sign(&self, msg: &[u8]) -> Res<Vec<u8>> {
        let r = match self {
            Signer::Plain(k, _) => schnorr::sign(&suite(), k, msg).map_err(|e| format!("{e:?}")),
            Signer::Det(e) => e.sign(msg).map(|x| x.to_vec()).map_err(|e| format!("{e:?}")),
        };
        match r {
            Ok(s) => Ok(s),
            Err(e) => violation("a message could not be signed", e),
        }
    }
}

struct Sent {
    who: usize,
    public: Vec<u8>,
    msg: Vec<u8>,
    sig: Vec<u8>,
}

fn order() -> BigUint {
    BigUint::from_bytes_le(&weird::order())
}

/// H(R, A, M) as a scalar
fn challenge(r: &[u8], a: &[u8], m: &[u8]) -> Sc {
    let mut h = Sha512::new();
    h.update(r);
    h.update(a);
    h.update(m);
    let x = BigUint::from_bytes_le(&h.finalize()) % order();
    let mut b = x.to_bytes_le();
    b.resize(32, 0);
    Sc { v: b.try_into().unwrap() }
}

/// does anyone accept it? every verifying function must say the same
fn accepted(public: &[u8], msg: &[u8], sig: &[u8]) -> Res<bool> {
    let a = match guarded(|| eddsa::verify_with_checks(public, msg, sig).is_ok()) {
        Ok(x) => x,
        Err(e) => return violation("verification panics", e),
    };
    if let Some(p) = point_from(public) {
        // the others take a decoded key
        let b = guarded(|| (eddsa::verify(&p, msg, sig).is_ok(), schnorr::verify(suite(), &p, msg, sig).is_ok()));
        let (b, c) = match b {
            Ok(x) => x,
            Err(e) => return violation("verification panics", e),
        };
        ensure!(b == c, "the verifiers do not agree", "{b} {c}");
        // another encoding of the key is a matter of the bytes only
        ensure!(a == b || pbytes(&p) != public, "the verifiers do not agree", "{a} {b}");
        return Ok(a || (b && pbytes(&p) == public));
    }
    Ok(a)
}

fn sized(cx: &mut Cx) -> Vec<u8> {
    let n = cx.pick(&[8usize, 0, 1, 2, 31, 32, 33, 63, 64, 65, 100, 111, 112, 127, 128, 129, 1000, 5000]);
    let n = cx.big(n);
    cx.bytes(n)
}

fn restart(cx: &mut Cx, s: &mut Signer) -> Res {
    match s {
        Signer::Plain(k, p) => {
            let a: Option<Sc> = dec(&enc(k));
            let b: Option<P> = dec(&enc(p));
            match (a, b) {
                (Some(a), Some(b)) if b == *p && a.v == k.v => (*k, *p) = (a, b),
                _ => return violation("a saved key is not the key loaded", "key pair".into()),
            }
        }
        Signer::Det(e) => {
            let old = (e.public, e.secret, e.seed.clone(), e.prefix.clone());
            let before: EdDSA<Curve> = EdDSA { seed: e.seed.clone(), prefix: e.prefix.clone(), secret: e.secret, public: e.public };
            let short = e.seed.len() != 32;
            let raw = match guarded(|| e.marshal_binary()) {
                Err(x) => return violation("saving a signer panics", x),
                Ok(r) => r.ok(),
            };
            ensure!(raw.is_some() != short, "a signer could not be saved", "seed of {} bytes", old.2.len());
            match raw {
                Some(b) if cx.chance(600) => {
                    ensure!(b.len() == 64, "a signer saved in another size", "{}", b.len());
                    // torn first
                    if cx.fault("disk.torn", 300) {
                        let k = cx.below(64);
                        let mut t = EdDSA::<Curve>::default();
                        ensure!(t.unmarshal_binary(&b[..k]).is_err(), "a torn key was loaded", "{k} bytes");
                    }
                    // into a new one, or one which was another signer
                    let mut n = EdDSA::<Curve>::default();
                    if cx.chance(500) {
                        match EdDSA::<Curve>::new(&mut RandStream::default()) {
                            Ok(x) => n = x,
                            Err(x) => return violation("a signer could not be made", format!("{x:?}")),
                        }
                    }
                    // damaged in the half which follows from the other: the same
                    // signer, or none
                    if cx.fault("disk.corrupt", 200) {
                        let mut c = b.clone();
                        c[32 + cx.below(32)] ^= 1 << cx.below(8);
                        match guarded(|| n.unmarshal_binary(&c)) {
                            Err(x) => return violation("loading a damaged signer panics", x),
                            Ok(Ok(())) => {
                                let new = (n.public, n.secret, n.seed.clone(), n.prefix.clone());
                                ensure!(old == new, "a damaged signer is another signer", "{}", hex::encode(&c[32..]));
                            }
                            Ok(Err(_)) => (),
                        }
                    }
                    ensure!(n.unmarshal_binary(&b).is_ok(), "a saved signer could not be loaded", "64 bytes");
                    **e = n;
                }
                _ => {
                    let b = enc(&**e);
                    if cx.fault("disk.torn", 300) {
                        let k = cx.below(b.len());
                        ensure!(dec::<EdDSA<Curve>>(&b[..k]).is_none(), "a torn key was loaded", "{k} bytes");
                    }
                    match dec::<EdDSA<Curve>>(&b) {
                        Some(n) => **e = n,
                        None => return violation("a saved signer could not be loaded", "state".into()),
                    }
                }
            }
            let new = (e.public, e.secret, e.seed.clone(), e.prefix.clone());
            ensure!(old == new, "a saved signer is not the signer loaded", "{:?}", e);
            ensure!(before == **e, "a loaded signer does not equal the one saved", "{:?}", e);
            if let Ok(x) = EdDSA::<Curve>::new(&mut RandStream::default()) {
                ensure!(before != x, "two signers are equal", "{:?} {:?}", e, x);
            }
        }
    }
    Ok(())
}

pub fn channel(cx: &mut Cx) -> Res {
    let s = suite();
    let n = cx.range(2, 4);
    let mut who: Vec<Signer> = vec![];
    for _ in 0..n {
        let x = match cx.below(5) {
            0 | 1 => match EdDSA::<Curve>::new(&mut RandStream::default()) {
                Ok(e) => Signer::Det(Box::new(e)),
                Err(e) => return violation("a signer could not be made", format!("{e:?}")),
            },
            2 => match new_key_pair(&s) {
                Ok(k) => Signer::Plain(k.private, k.public),
                Err(e) => return violation("a signer could not be made", format!("{e:?}")),
            },
            3 => match new_key_pair(&s) {
                Ok(k) => Signer::Det(Box::new(EdDSA::from(k))),
                Err(e) => return violation("a signer could not be made", format!("{e:?}")),
            },
            _ => {
                let k = rand_scalar();
                Signer::Plain(k, g(&k))
            }
        };
        who.push(x);
    }
    let publics: Vec<Vec<u8>> = who.iter().map(|w| pbytes(&w.public())).collect();
    let mut sent: Vec<Sent> = vec![];
    let steps = cx.range(2, 10);
    for step in 0..steps {
        cx.st.sim_ms += 10;
        if cx.chance(250) {
            let i = cx.below(n);
            cx.fired("crash");
            cx.step("restart", i, 0);
            restart(cx, &mut who[i])?;
        }
        if sent.is_empty() || cx.chance(450) {
            let i = cx.below(n);
            let msg = if !sent.is_empty() && cx.chance(350) { cx.pick(&(0..sent.len()).collect::<Vec<_>>()) } else { usize::MAX };
            let msg = if msg == usize::MAX { sized(cx) } else { sent[msg].msg.clone() };
            if cx.fault("entropy.shaky", 100) {
                entropy::set_mode(entropy::Mode::Shaky);
            }
            let sig = who[i].sign(&msg)?;
            entropy::set_mode(entropy::Mode::Plain);
            cx.step("sign", step, i);
            cx.ev(format!("{i} signs {} bytes: {}", msg.len(), hex::encode(&sig)));
            ensure!(sig.len() == 64, "a signature of another size", "{}", sig.len());
            ensure!(accepted(&publics[i], &msg, &sig)?, "a true signature is not accepted", "{} bytes", msg.len());
            // the equation itself
            let r = point_from(&sig[..32]);
            let mut v = [0u8; 32];
            v.copy_from_slice(&sig[32..]);
            let h = challenge(&sig[..32], &publics[i], &msg);
            let rhs = r.map(|r| add(&r, &s.point().mul(&h, Some(&who[i].public()))));
            ensure!(rhs == Some(g(&Sc { v })), "the signature's equation does not hold", "{} bytes", msg.len());
            ensure!(BigUint::from_bytes_le(&v) < order(), "a signature with an unreduced part", "{}", hex::encode(v));
            for o in &sent {
                let again = o.who == i && o.msg == msg;
                if let (true, Signer::Det(_)) = (again, &who[i]) {
                    ensure!(o.sig == sig, "a deterministic signer signed otherwise", "{} bytes", msg.len());
                } else {
                    // a nonce used for two signatures gives away the key
                    ensure!(o.sig[..32] != sig[..32], "a nonce used twice", "by {} and {i}", o.who);
                }
            }
            // nor may the nonce be known from the public
            for k in 0..3 {
                let mut h = Sha512::new();
                if k == 1 {
                    h.update(&publics[i]);
                } else if k == 2 {
                    h.update([0u8; 32]);
                }
                h.update(&msg);
                let x = BigUint::from_bytes_le(&h.finalize()) % order();
                let mut b = x.to_bytes_le();
                b.resize(32, 0);
                ensure!(pbytes(&g(&Sc { v: b.try_into().unwrap() })) != sig[..32], "a nonce anyone knows", "signer {i}");
            }
            cx.state(h64(&sig[..8]));
            sent.push(Sent { who: i, public: publics[i].clone(), msg, sig });
            cx.st.checks += 4;
            continue;
        }
        // what the channel makes of one of them
        let o = cx.below(sent.len());
        let o2 = cx.below(sent.len());
        let (mut p, mut m, mut sig) = (sent[o].public.clone(), sent[o].msg.clone(), sent[o].sig.clone());
        let what = cx.below(17);
        cx.step("channel", what, o);
        match what {
            0 => {
                cx.fired("wire.corrupted");
                sig = corrupt(cx, &sig);
            }
            1 => {
                cx.fired("wire.corrupted");
                m = corrupt(cx, &m);
            }
            2 => {
                cx.fired("wire.corrupted");
                p = corrupt(cx, &p);
            }
            3 => {
                cx.fired("wire.swapped");
                sig = sent[o2].sig.clone();
            }
            4 => {
                cx.fired("wire.swapped");
                m = sent[o2].msg.clone();
            }
            5 => {
                cx.fired("wire.swapped");
                p = publics[cx.below(n)].clone();
            }
            6 => {
                cx.fired("wire.spliced");
                sig[..32].copy_from_slice(&sent[o2].sig[..32]);
            }
            7 | 8 => {
                // another number for the same scalar
                cx.fired("wire.malleated");
                let k = cx.range(1, 15);
                let x = BigUint::from_bytes_le(&sig[32..]) + order() * BigUint::from(k);
                let mut b = x.to_bytes_le();
                if b.len() <= 32 {
                    b.resize(32, 0);
                    sig[32..].copy_from_slice(&b);
                }
            }
            9 => {
                cx.fired("wire.malleated");
                sig[31] ^= 0x80;
            }
            10 => {
                cx.fired("wire.malleated");
                sig[63] |= cx.pick(&[0x80u8, 0x40, 0x20, 0x10]);
            }
            11 => {
                cx.fired("wire.malleated");
                // -S, and with it -R
                let x = order() - BigUint::from_bytes_le(&sig[32..]);
                let mut b = x.to_bytes_le();
                b.resize(32, 0);
                sig[32..].copy_from_slice(&b);
                if cx.chance(500) {
                    sig[31] ^= 0x80;
                }
            }
            12 | 13 => {
                // a key of small order, for which anyone can sign
                cx.fired("wire.forged");
                let k = cx.below(10);
                p = small(k);
                let x = rand_scalar();
                sig[..32].copy_from_slice(&pbytes(&g(&x)));
                sig[32..].copy_from_slice(&sbytes(&x));
                // until the key's part vanishes
                for j in 0..64u8 {
                    let h = challenge(&sig[..32], &p, &m);
                    if point_from(&p).map(|a| s.point().mul(&h, Some(&a)) == null()).unwrap_or(true) {
                        cx.probe("small-order forgery whose equation holds");
                        break;
                    }
                    m = vec![j, 7];
                }
            }
            14 => {
                // a nonce of small order, with a key of one's own
                cx.fired("wire.forged");
                let x = rand_scalar();
                p = pbytes(&g(&x));
                let k = cx.below(10);
                let r = small(k);
                let h = challenge(&r, &p, &m);
                sig[..32].copy_from_slice(&r);
                sig[32..].copy_from_slice(&sbytes(&(x * h)));
            }
            15 => {
                cx.fired("wire.forged");
                // for the sum of keys, from the sum of signatures
                let q = add(&point_from(&p).unwrap_or_default(), &point_from(&sent[o2].public).unwrap_or_default());
                p = pbytes(&q);
            }
            _ => {
                cx.fired("wire.replayed");
            }
        }
        let true_one = sent.iter().any(|x| x.public == p && x.msg == m && x.sig == sig);
        let got = accepted(&p, &m, &sig)?;
        ensure!(!got || true_one, "a signature nobody made is accepted", "kind {what}");
        ensure!(got || !true_one, "a true signature is not accepted any more", "kind {what}");
        cx.st.checks += 1;
        if true_one {
            cx.probe("the altered copy was the original");
        }
    }
    Ok(())
}

/// the points of small order, in all encodings
fn small(k: usize) -> Vec<u8> {
    let low = [
        "0000000000000000000000000000000000000000000000000000000000000000",
        "0100000000000000000000000000000000000000000000000000000000000000",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
        "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "0000000000000000000000000000000000000000000000000000000000000080",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
    ];
    hex::decode(low[k]).unwrap()
}
