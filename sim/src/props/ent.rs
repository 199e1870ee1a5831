//! C14: where secrets come from. Every operation that draws secrets is run with
//! the system's entropy failing at some call, interrupted, short, or changed,
//! and with readers of the user's which fail.
use super::dkg::{made_key, SimReader};
use super::flavor::{Pedersen, Rabin, Vss};
use super::tsig;
use crate::core::*;
use crate::ensure;
use crate::entropy::{self, Mode};
use crate::kit::*;
use crate::runner::guarded;
use kyber_rs::cipher::{Stream, StreamError};
use kyber_rs::encrypt::ecies;
use kyber_rs::group::edwards25519::Curve;
use kyber_rs::share::dkg::pedersen::{new_dist_key_handler, Config};
use kyber_rs::share::dkg::rabin as rab;
use kyber_rs::share::poly::new_pri_poly;
use kyber_rs::sign::eddsa::EdDSA;
use kyber_rs::sign::schnorr;
use kyber_rs::util::key::new_key_pair;
use kyber_rs::util::random::RandStream;
use kyber_rs::util::random::{bits, bytes, random_int};
use kyber_rs::{Group, Point, Random, Scalar};
use num_bigint_dig::{BigInt, BigUint};
use std::collections::HashMap;
use std::io::Read;

type Fresh = Vec<(&'static str, Vec<u8>)>;

fn es<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}

/// the world an operation runs in, made while all was well
struct Env {
    n: usize,
    t: usize,
    long: Vec<Sc>,
    pubs: Vec<P>,
    secret: Sc,
    msg: Vec<u8>,
}

fn vss_op<V: Vss>(e: &Env) -> Result<Fresh, String> {
    let mut d = V::dealer(&e.long[0], &e.secret, &e.pubs, e.t)?;
    let mut f = vec![("session", V::d_sid(&d))];
    for i in 0..e.n {
        // the ephemeral key, and the signed and sealed deal
        let b = V::enc_deal(&d, i)?;
        let x: EncDeal = dec(&b).ok_or("decode")?;
        f.push(("ephemeral key", pbytes(&x.dhkey)));
        f.push(("signature nonce", x.signature[..32].to_vec()));
        f.push(("cipher", x.cipher[..16].to_vec()));
        let dl = V::plain(&mut d, i);
        if e.t > 1 {
            f.push(("share", sbytes(&dl.v)));
        }
        if i == 0 {
            for c in &dl.commits[if V::RABIN { 0 } else { 1 }..] {
                f.push(("commitment", pbytes(c)));
            }
        }
        if let Some(r) = dl.rnd {
            if e.t > 1 || i == 0 {
                f.push(("blinding share", sbytes(&r.1)));
            }
        }
    }
    Ok(f)
}

/// a verifier signs its response to a deal made before
fn response_op<V: Vss>(e: &Env, deal: &[u8]) -> Result<Fresh, String> {
    let mut v = V::verifier(&e.long[1], &e.pubs[0], &e.pubs)?;
    let r = V::v_deal(&mut v, deal)?;
    let r: Resp = dec(&r).ok_or("decode")?;
    Ok(vec![("signature nonce", r.signature[..32].to_vec())])
}

fn dkg_op(e: &Env, reader: Option<SimReader>, only: bool) -> Result<Fresh, String> {
    let c = Config::<S, SimReader> {
        suite: suite(),
        longterm: e.long[0],
        new_nodes: e.pubs.clone(),
        threshold: e.t,
        reader,
        user_reader_only: only,
        ..Default::default()
    };
    let mut d = new_dist_key_handler(c).map_err(es)?;
    let secret = d.dealer.private_poly().secret();
    let mut f = vec![("secret", sbytes(&secret))];
    for x in d.dealer.private_poly().coefficients().iter().skip(1) {
        f.push(("coefficient", sbytes(x)));
    }
    let deals = d.deals().map_err(es)?;
    if deals.len() != e.n - 1 {
        return Err(format!("{} deals", deals.len()));
    }
    let mut k: Vec<_> = deals.keys().copied().collect();
    k.sort_unstable();
    for i in k {
        let x: super::dkg::ODeal = cast(&deals[&i]);
        f.push(("ephemeral key", pbytes(&x.deal.dhkey)));
        f.push(("signature nonce", x.signature[..32].to_vec()));
        f.push(("signature nonce", x.deal.signature[..32].to_vec()));
    }
    Ok(f)
}

const OPS: usize = 17;
const NAMES: [&str; OPS] = [
    "a key pair", "a deterministic signer", "a signature", "a ciphertext", "a Pedersen dealing", "a Rabin dealing", "a response", "a response",
    "a Pedersen key generation", "a Rabin key generation", "a scalar", "a point", "random bytes", "a polynomial", "a partial signature", "a resharing", "a commitments message",
];

struct Prep {
    pdeal: Vec<u8>,
    rdeal: Vec<u8>,
}

fn op(k: usize, e: &Env, p: &Prep) -> Result<Fresh, String> {
    let s = suite();
    Ok(match k {
        0 => {
            let kp = new_key_pair(&s).map_err(es)?;
            if pbytes(&g(&kp.private)) != pbytes(&kp.public) {
                return Err("a key pair whose halves do not match".into());
            }
            vec![("private key", kp.private.v.to_vec())]
        }
        1 => {
            let d = EdDSA::<Curve>::new(&mut RandStream::default()).map_err(es)?;
            vec![("private key", d.secret.v.to_vec()), ("seed", d.seed.clone()), ("prefix", d.prefix.clone())]
        }
        2 => {
            let x = schnorr::sign(&s, &e.secret, &e.msg).map_err(es)?;
            vec![("signature nonce", x[..32].to_vec()), ("signature", x[32..].to_vec())]
        }
        3 => {
            let x = ecies::encrypt(s, e.pubs[0], &e.msg).map_err(es)?;
            vec![("ephemeral key", x[..32].to_vec())]
        }
        4 => vss_op::<Pedersen>(e)?,
        5 => vss_op::<Rabin>(e)?,
        6 => response_op::<Pedersen>(e, &p.pdeal)?,
        7 => response_op::<Rabin>(e, &p.rdeal)?,
        8 => dkg_op(e, None, false)?,
        9 => {
            let mut d = rab::new_dist_key_generator(&s, &e.long[0], &e.pubs, e.t).map_err(es)?;
            let deals = d.deals().map_err(es)?;
            let mut k: Vec<_> = deals.keys().copied().collect();
            k.sort_unstable();
            let mut f = vec![];
            for i in k {
                let x: super::rdkg::ODeal = cast(&deals[&i]);
                f.push(("ephemeral key", pbytes(&x.deal.dhkey)));
                f.push(("signature nonce", x.deal.signature[..32].to_vec()));
            }
            f
        }
        10 => vec![("scalar", sbytes(&s.scalar().pick(&mut s.random_stream())))],
        11 => vec![("point", pbytes(&s.point().pick(&mut s.random_stream())))],
        12 => {
            let mut b = vec![0u8; 40];
            bytes(&mut b, &mut RandStream::default()).map_err(es)?;
            let c = bits(256, true, &mut RandStream::default());
            vec![("random bytes", b), ("random bits", c)]
        }
        13 => new_pri_poly(s, e.t, None, s.random_stream()).coefficients().iter().map(|c| ("coefficient", sbytes(c))).collect(),
        14 => {
            let (_, lk, _, _) = tsig::shared::<tsig::PDks>(e.n, e.t);
            let (_, rk, _, _) = tsig::shared::<tsig::PDks>(e.n, e.t);
            let mut d = kyber_rs::sign::dss::new_dss(s, &e.long[0], &e.pubs, &lk[0], &rk[0], &e.msg, e.t).map_err(es)?;
            let p = d.partial_sig().map_err(es)?;
            let x: tsig::Part = cast(&p);
            vec![("signature nonce", x.signature[..32].to_vec())]
        }
        15 => {
            let (_, shares, _) = made_key(e.n, e.t, Some(e.secret));
            let c = Config::<S, SimReader> {
                suite: s,
                longterm: e.long[0],
                old_nodes: e.pubs.clone(),
                new_nodes: e.pubs.clone(),
                share: Some(shares[0].clone()),
                threshold: e.t,
                old_threshold: e.t,
                ..Default::default()
            };
            let d = new_dist_key_handler(c).map_err(es)?;
            let c = d.dealer.private_poly().coefficients();
            if c[0] != shares[0].share.v {
                return Err("not the old share".into());
            }
            c.iter().skip(1).map(|c| ("coefficient", sbytes(c))).collect()
        }
        _ => {
            // several of them one after the other
            let mut f = vec![];
            for k in [0, 2, 3, 10, 12] {
                f.extend(op(k, e, p)?);
            }
            f
        }
    })
}

fn env(cx: &mut Cx) -> (Env, Prep) {
    let n = cx.people(3, 5);
    let t = cx.range(2, n);
    let (long, pubs) = keypairs(n);
    let secret = rand_scalar();
    let msg = cx.bytes(20);
    let e = Env { n, t, long, pubs, secret, msg };
    let pd = Pedersen::dealer(&e.long[0], &e.secret, &e.pubs, t).expect("dealer");
    let rd = Rabin::dealer(&e.long[0], &e.secret, &e.pubs, t).expect("dealer");
    let p = Prep { pdeal: Pedersen::enc_deal(&pd, 1).expect("deal"), rdeal: Rabin::enc_deal(&rd, 1).expect("deal") };
    // the hash maps' keys are not a secret and must not meet the faults
    let m: HashMap<u8, u8> = HashMap::new();
    drop(m);
    (e, p)
}

/// which of the values may come twice when nothing else differs
fn fresh(seen: &mut HashMap<Vec<u8>, &'static str>, f: &Fresh, what: &str) -> Res {
    for (name, v) in f {
        ensure!(v.iter().any(|x| *x != 0), "a secret of zeroes", "{name} of {what}");
        if let Some(o) = seen.insert(v.clone(), name) {
            return violation("a secret value was drawn twice", format!("{name} of {what}, before as {o}"));
        }
    }
    Ok(())
}

pub fn system(cx: &mut Cx) -> Res {
    let (e, p) = env(cx);
    let mut seen = HashMap::new();
    for _ in 0..cx.range(1, 4) {
        let k = cx.below(OPS);
        cx.st.sim_ms += 10;
        // undisturbed
        let at = entropy::state();
        entropy::restart();
        let plain = match guarded(|| op(k, &e, &p)) {
            Ok(Ok(f)) => f,
            Ok(Err(x)) => return violation("an operation failed with the system's entropy at hand", format!("{}: {x}", NAMES[k])),
            Err(x) => return violation("an operation failed with the system's entropy at hand", format!("{}: {x}", NAMES[k])),
        };
        let calls = entropy::calls();
        let after = entropy::state();
        ensure!(calls > 0, "a secret drawn without entropy", "{}", NAMES[k]);
        fresh(&mut seen, &plain, NAMES[k])?;
        cx.step("plain", k, calls as usize % 256);
        // the same entropy, in pieces
        entropy::set_state(at);
        entropy::set_mode(Mode::Shaky);
        entropy::restart();
        let r = guarded(|| op(k, &e, &p));
        entropy::set_mode(Mode::Plain);
        if entropy::faults() > 0 {
            cx.fired("entropy.interrupted-or-short");
        }
        match r {
            Ok(Ok(f)) => ensure!(f == plain, "interrupted or short reads of entropy change the result", "{}", NAMES[k]),
            Ok(Err(x)) => return violation("interrupted or short reads of entropy are taken for failures", format!("{}: {x}", NAMES[k])),
            Err(x) => return violation("interrupted or short reads of entropy are taken for failures", format!("{}: {x}", NAMES[k])),
        }
        cx.st.checks += 3;
        // it fails
        let c = cx.below(calls as usize) as u64;
        for once in [false, true] {
            entropy::set_state(at);
            entropy::restart();
            entropy::set_mode(if once { Mode::Once(c) } else { Mode::DownFrom(c) });
            let r = guarded(|| op(k, &e, &p));
            entropy::set_mode(Mode::Plain);
            ensure!(entropy::faults() > 0, "HARNESS", "no fault at {c} of {calls}");
            cx.fired(if once { "entropy.failed-once" } else { "entropy.down" });
            cx.step("failed", k, c as usize % 256);
            cx.st.checks += 1;
            if let Ok(Ok(f)) = r {
                return violation("a secret drawn without entropy", format!("{} with the source failing at call {c} of {calls} gave {} values", NAMES[k], f.len()));
            }
        }
        // and is back, different
        entropy::set_state((after.0 ^ cx.word(), after.1));
        let again = match guarded(|| op(k, &e, &p)) {
            Ok(Ok(f)) => f,
            r => return violation("an operation does not recover from a failure of entropy", format!("{}: {r:?}", NAMES[k])),
        };
        fresh(&mut seen, &again, NAMES[k])?;
        for (_, v) in &again {
            cx.state(h64(v));
        }
    }
    Ok(())
}

/// a dealer whose entropy fails while it deals, and comes back
pub fn recovery(cx: &mut Cx) -> Res {
    let (e, _) = env(cx);
    let s = suite();
    let pedersen = cx.chance(500);
    cx.st.sim_ms += 20;
    cx.step("recovery", pedersen as usize, e.n);
    let c = Config::<S, SimReader> { suite: s, longterm: e.long[0], new_nodes: e.pubs.clone(), threshold: e.t, ..Default::default() };
    let mut pd = new_dist_key_handler(c).map_err(es).expect("handler");
    let mut rd = rab::new_dist_key_generator(&s, &e.long[0], &e.pubs, e.t).map_err(es).expect("generator");
    let mut tries = 0;
    let n = loop {
        entropy::restart();
        if tries < 3 {
            let k = cx.below(12) as u64;
            entropy::set_mode(if cx.chance(500) { Mode::DownFrom(k) } else { Mode::Once(k) });
        }
        tries += 1;
        let r = guarded(|| if pedersen { pd.deals().map(|d| d.len()).map_err(es) } else { rd.deals().map(|d| d.len()).map_err(es) });
        entropy::set_mode(Mode::Plain);
        let failed = entropy::faults() > 0;
        if failed {
            cx.fired("entropy.down");
        }
        match r {
            Ok(Ok(n)) => {
                ensure!(!failed, "a secret drawn without entropy", "deals");
                break n;
            }
            r => {
                ensure!(failed, "dealing fails", "{r:?}");
                if cx.chance(500) {
                    // a node which failed like this starts again from what it saved
                    cx.fired("crash");
                    pd = match dec(&enc(&pd)) {
                        Some(d) => d,
                        None => return violation("a snapshot does not load", "a dealer".into()),
                    };
                }
            }
        }
    };
    ensure!(n == e.n - 1, "deals are missing after a failure of entropy", "{n} of {}", e.n - 1);
    // the deals made now are good ones
    for i in 1..e.n {
        if pedersen {
            let c = Config::<S, SimReader> { suite: s, longterm: e.long[i], new_nodes: e.pubs.clone(), threshold: e.t, ..Default::default() };
            let mut o = new_dist_key_handler(c).map_err(es).expect("handler");
            let deals = pd.deals().map_err(es).expect("deals");
            let r: super::dkg::OResp = match o.process_deal(&deals[&i]) {
                Ok(r) => cast(&r),
                Err(x) => return violation("a deal made after a failure of entropy is not accepted", es(x)),
            };
            ensure!(r.response.ok, "a deal made after a failure of entropy is not accepted", "by {i}");
        } else {
            let mut o = rab::new_dist_key_generator(&s, &e.long[i], &e.pubs, e.t).map_err(es).expect("generator");
            let deals = rd.deals().map_err(es).expect("deals");
            let r: super::rdkg::OResp = match o.process_deal(&deals[&i]) {
                Ok(r) => cast(&r),
                Err(x) => return violation("a deal made after a failure of entropy is not accepted", es(x)),
            };
            ensure!(r.response.ok, "a deal made after a failure of entropy is not accepted", "by {i}");
        }
        cx.st.checks += 1;
    }
    Ok(())
}

/// a reader of the user's: gives bytes in pieces, may end or fail
struct Source {
    data: Vec<u8>,
    pos: usize,
    piece: usize,
    interrupt: usize,
    calls: usize,
    fail_at: usize,
}

impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.pos >= self.fail_at {
            return Err(std::io::ErrorKind::Other.into());
        }
        let n = b.len().min(self.piece).min(self.data.len() - self.pos).min(self.fail_at - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Clone)]
struct Plan {
    data: Vec<u8>,
    piece: usize,
    interrupt: usize,
    fail_at: usize,
}

fn stream(plans: &[Plan]) -> RandStream {
    let v = plans
        .iter()
        .map(|p| {
            Box::new(Source { data: p.data.clone(), pos: 0, piece: p.piece, interrupt: p.interrupt, calls: 0, fail_at: p.fail_at }) as Box<dyn Read>
        })
        .collect();
    RandStream::new(v)
}

/// the outputs of successive calls
fn outputs(plans: &[Plan], lens: &[usize]) -> Vec<Result<Vec<u8>, String>> {
    let mut s = stream(plans);
    lens.iter()
        .map(|n| {
            let mut d = vec![0u8; *n];
            let src = d.clone();
            match guarded(|| s.xor_key_stream(&mut d, &src)) {
                Ok(Ok(())) => Ok(d),
                Ok(Err(StreamError::ReadersFailure)) => Err("readers".into()),
                Ok(Err(e)) => Err(es(e)),
                Err(e) => Err(format!("panic {e}")),
            }
        })
        .collect()
}

/// how many calls this reader serves, each taking 32 bytes
fn serves(p: &Plan, call: usize) -> bool {
    p.data.len().min(p.fail_at) >= 32 * (call + 1)
}

pub fn readers(cx: &mut Cx) -> Res {
    let n = cx.range(1, 4);
    let calls = cx.range(1, 4);
    let lens: Vec<usize> = (0..calls).map(|_| cx.pick(&[32usize, 16, 33, 64, 100, 1000])).collect();
    let mut plans = vec![];
    for _ in 0..n {
        let len = if cx.chance(300) { cx.below(32 * calls + 8) } else { 32 * calls + 64 };
        let fail_at = if cx.fault("reader.fails", 250) { cx.below(32 * calls + 1) } else { usize::MAX };
        if len < 32 * calls {
            cx.fired("reader.ends");
        }
        let piece = cx.pick(&[1000usize, 1, 5, 31]);
        if piece < 32 {
            cx.fired("reader.short");
        }
        let interrupt = cx.pick(&[0usize, 2, 3]);
        if interrupt > 0 {
            cx.fired("reader.interrupted");
        }
        plans.push(Plan { data: cx.bytes(len), piece, interrupt, fail_at });
    }
    cx.st.sim_ms += 10;
    cx.step("readers", n, calls);
    let out = outputs(&plans, &lens);
    let again = outputs(&plans, &lens);
    ensure!(out == again, "the stream depends on more than its readers", "{n} readers");
    for (c, o) in out.iter().enumerate() {
        // a reader which failed in the middle of a call does not deliver it
        let alive: Vec<usize> = (0..n).filter(|i| serves(&plans[*i], c)).collect();
        cx.step("call", c, alive.len());
        cx.st.checks += 2;
        match o {
            Ok(_) => ensure!(!alive.is_empty(), "random bytes without any reader working", "call {c}"),
            Err(e) => {
                ensure!(alive.is_empty(), "a working reader is not enough", "call {c}: {e}");
                ensure!(e == "readers", "all readers failing is not reported as such", "call {c}: {e}");
            }
        }
        // each one working counts
        for i in alive {
            let mut other = plans.clone();
            let k = 32 * c + cx.below(32);
            other[i].data[k] ^= 1 << cx.below(8);
            let o2 = outputs(&other, &lens);
            ensure!(o2[c] != out[c], "a working reader does not count", "reader {i} at call {c}");
        }
        if let Ok(a) = o {
            cx.state(h64(a));
            for b in out[..c].iter().flatten() {
                let m = a.len().min(b.len()).min(16);
                ensure!(a[..m] != b[..m], "random bytes came twice", "call {c}");
            }
            ensure!(a.windows(16).all(|w| w.iter().any(|x| *x != 0)), "zeroes for random bytes", "call {c}");
        }
    }
    // interrupted and short reads do not count
    let mut easy = plans.clone();
    for p in &mut easy {
        p.piece = usize::MAX;
        p.interrupt = 0;
    }
    ensure!(outputs(&easy, &lens) == out, "interrupted or short reads of entropy change the result", "{n} readers");
    // an encryption with it
    let len = lens[0];
    let src = cx.bytes(len);
    let mut d = vec![0u8; len];
    let r = stream(&plans).xor_key_stream(&mut d, &src);
    if let (Ok(k), Ok(())) = (&out[0], &r) {
        ensure!((0..len).all(|i| d[i] == k[i] ^ src[i]), "the stream is not xored to the message", "{len} bytes");
    } else {
        ensure!(out[0].is_err() && r.is_err(), "the stream depends on the message", "{r:?}");
    }
    // of another length: refused, or for its length
    let mut short = vec![0u8; len - 1];
    let r = guarded(|| stream(&plans).xor_key_stream(&mut short, &src).is_ok());
    ensure!(r == Ok(false), "buffers of different lengths are taken", "{len}: {r:?}");
    // all that is drawn from a dead stream fails
    if out[0].is_err() {
        let r = guarded(|| {
            let mut st = stream(&plans);
            match len % 4 {
                0 => !bits(len as u64, false, &mut st).is_empty(),
                1 => {
                    let mut b = vec![0u8; len];
                    bytes(&mut b, &mut st).is_ok()
                }
                2 => !suite().scalar().pick(&mut st).v.is_empty(),
                _ => !pbytes(&suite().point().pick(&mut st)).is_empty(),
            }
        });
        ensure!(r != Ok(true), "a secret drawn without entropy", "{r:?}");
        cx.probe("all readers failed at once");
    }
    Ok(())
}

/// numbers are within their bounds, whatever the stream
pub fn numbers(cx: &mut Cx) -> Res {
    let s = suite();
    cx.st.sim_ms += 10;
    let len = cx.pick(&[8u64, 1, 2, 3, 5, 7, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 252, 253, 255, 256, 257, 521]);
    cx.step("bits", (len % 256) as usize, 0);
    let weak = cx.fault("stream.weak", 300);
    let mut any = vec![0u8; len as usize];
    let draws = 120;
    for i in 0..draws {
        let exact = i % 2 == 1;
        let b = if weak {
            let fill = cx.pick(&[0xffu8, 0, 0x80, 1, 0x7f]);
            bits(len, exact, &mut Fill(fill))
        } else {
            bits(len, exact, &mut s.random_stream())
        };
        let x = BigUint::from_bytes_be(&b);
        let n = x.bits() as u64;
        ensure!(n <= len, "a number out of its bounds", "{n} bits for {len}");
        ensure!(!exact || n == len, "a number of another length than asked for", "{n} bits for {len}");
        if !exact && !weak {
            for k in 0..len {
                if (&x >> k as usize) & BigUint::from(1u8) == BigUint::from(1u8) {
                    any[k as usize] |= 1;
                } else {
                    any[k as usize] |= 2;
                }
            }
        }
        cx.st.checks += 1;
    }
    ensure!(weak || any.iter().all(|x| *x == 3), "bits which never change", "of {len}");
    // below a modulus
    let m = match cx.below(4) {
        0 => BigInt::from(cx.pick(&[2u64, 3, 4, 5, 7, 8, 9, 255, 256, 257])),
        1 => BigInt::from(BigUint::from_bytes_le(&weird::order())),
        2 => BigInt::from(cx.word() | 2),
        _ => {
            let k = cx.range(1, 300);
            BigInt::from((BigUint::from(1u8) << k) + BigUint::from(cx.below(2)))
        }
    };
    let mut low = false;
    let mut seen = std::collections::HashSet::new();
    let half = &m / BigInt::from(2);
    for _ in 0..60 {
        let x = random_int(&m, &mut s.random_stream());
        ensure!(x < m && x >= BigInt::from(0), "a number out of its bounds", "{x} of {m}");
        low |= x >= half;
        seen.insert(x.to_string());
        cx.st.checks += 1;
    }
    ensure!(low, "the upper half of the numbers never comes", "of {m}");
    if m > BigInt::from(1u64 << 40) {
        ensure!(seen.len() == 60, "a number was drawn twice", "of {m}");
    } else if m <= BigInt::from(4) {
        // zero is left out
        let want: usize = m.to_string().parse().unwrap();
        ensure!(seen.len() >= want - 1, "a number which never comes", "of {m}");
    }
    let a = s.scalar().pick(&mut Fill(cx.pick(&[0x0fu8, 1, 2, 0x0e])));
    ensure!(BigUint::from_bytes_le(&a.v) < BigUint::from_bytes_le(&weird::order()), "a number out of its bounds", "{a}");
    Ok(())
}

struct Fill(u8);
impl Stream for Fill {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        for (d, s) in dst.iter_mut().zip(src) {
            *d = *s ^ self.0;
        }
        Ok(())
    }
}

/// the user's own entropy in a distributed key generation
pub fn user(cx: &mut Cx) -> Res {
    let (e, _) = env(cx);
    let seed = cx.word();
    let only = cx.chance(500);
    let fail = cx.fault("reader.fails", 400);
    cx.st.sim_ms += 10;
    cx.step("user", only as usize, fail as usize);
    let rd = |seed, fail| Some(SimReader { seed, fail });
    let at = entropy::state();
    let run = |seed: u64, fail: bool, st: (u64, u64)| {
        entropy::set_state(st);
        guarded(|| dkg_op(&e, rd(seed, fail), only))
    };
    let other = (at.0 ^ 0x55aa, at.1);
    let a = run(seed, fail, at);
    match (&a, fail, only) {
        (Ok(Ok(_)), true, true) => return violation("a secret drawn without entropy", "the only reader failing".into()),
        (_, true, true) => {
            cx.probe("the only reader failed");
            return Ok(());
        }
        (Ok(Ok(_)), _, _) => (),
        (r, _, _) => return violation("a key generation fails with entropy at hand", format!("{r:?}, only {only}, failing {fail}")),
    }
    let secret = |r: &Result<Result<Fresh, String>, String>| match r {
        Ok(Ok(f)) => Some(f[0].1.clone()),
        _ => None,
    };
    let a2 = run(seed, fail, at);
    let b = run(seed ^ 1, fail, at);
    let c = run(seed, fail, other);
    cx.st.checks += 4;
    ensure!(a == a2, "the same entropy gives another key", "only {only}");
    if !fail {
        ensure!(secret(&a) != secret(&b), "the user's entropy does not count", "only {only}");
    } else {
        ensure!(secret(&a) != secret(&c), "the system's entropy does not count", "with the user's failing");
    }
    if only {
        ensure!(secret(&a) == secret(&c), "the secret is not from the user's entropy only", "as asked for");
    } else {
        ensure!(secret(&a) != secret(&c), "the system's entropy does not count", "failing {fail}");
    }
    // what is not the secret comes from the system in any case
    if let (Ok(Ok(x)), Ok(Ok(y))) = (&a, &c) {
        for (k, (u, v)) in x.iter().zip(y).enumerate().skip(1) {
            ensure!(u.1 != v.1, "a value which does not depend on the system's entropy", "{} ({k})", u.0);
        }
    }
    Ok(())
}
