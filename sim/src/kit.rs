//! Names and small helpers shared by the scenarios. The oracles use the group
//! (point and scalar arithmetic) of the code under test and nothing above it.
use crate::core::*;
use crate::ensure;
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::group::edwards25519::{Point as EdPoint, Scalar as EdScalar, SuiteEd25519};
use kyber_rs::share::poly::PriShare;
use kyber_rs::{Group, Point, Random, Scalar};
use serde::{de::DeserializeOwned, Deserialize, Serialize};

pub type S = SuiteEd25519;
pub type P = EdPoint;
pub type Sc = EdScalar;

pub fn suite() -> S {
    SuiteEd25519::new_blake3_sha256_ed25519()
}

pub fn rand_scalar() -> Sc {
    let s = suite();
    s.scalar().pick(&mut s.random_stream())
}

pub fn g(x: &Sc) -> P {
    suite().point().mul(x, None)
}

pub fn scalar(i: i64) -> Sc {
    suite().scalar().set_int64(i)
}

pub fn add(a: &P, b: &P) -> P {
    suite().point().add(a, b)
}

pub fn sub(a: &Sc, b: &Sc) -> Sc {
    suite().scalar().sub(a, b)
}

pub fn inv(a: &Sc) -> Sc {
    suite().scalar().inv(a)
}

pub fn null() -> P {
    suite().point().null()
}

pub fn pbytes(p: &P) -> Vec<u8> {
    p.marshal_binary().unwrap()
}

pub fn sbytes(p: &Sc) -> Vec<u8> {
    p.marshal_binary().unwrap()
}

/// sum of C_k x^k, by Horner
pub fn eval_commits(c: &[P], i: usize) -> P {
    let x = scalar(i as i64 + 1);
    let mut v = null();
    for p in c.iter().rev() {
        v = suite().point().mul(&x, Some(&v));
        v = add(&v, p);
    }
    v
}

/// Lagrange interpolation at 0; None if two indices coincide
pub fn interpolate(shares: &[(usize, Sc)]) -> Option<Sc> {
    let s = suite();
    let mut acc = s.scalar().zero();
    for (a, (i, v)) in shares.iter().enumerate() {
        let xi = scalar(*i as i64 + 1);
        let mut num = s.scalar().one();
        let mut den = s.scalar().one();
        for (b, (j, _)) in shares.iter().enumerate() {
            if a == b {
                continue;
            }
            if i == j {
                return None;
            }
            let xj = scalar(*j as i64 + 1);
            num = num * xj.clone();
            den = den * s.scalar().sub(&xj, &xi);
        }
        acc = acc + v.clone() * num * s.scalar().inv(&den);
    }
    Some(acc)
}

pub fn enc<T: Serialize>(x: &T) -> Vec<u8> {
    bincode::serialize(x).expect("serialize")
}

pub fn dec<T: DeserializeOwned>(b: &[u8]) -> Option<T> {
    bincode::deserialize(b).ok()
}

/// stops, and starts again from the state it saved
pub fn restarted<T: Serialize + DeserializeOwned>(x: &T, who: String) -> Res<T> {
    match dec::<T>(&enc(x)) {
        Some(y) => {
            ensure!(same(&y, x), "what starts again is not what was saved", "{who}");
            Ok(y)
        }
        None => violation("a saved state does not load", who),
    }
}

/// the write of a snapshot was cut short by a crash: what is on the disk must
/// not be taken for a state
pub fn torn<T: Serialize + DeserializeOwned>(cx: &mut Cx, x: &T) -> Res {
    if !cx.fault("disk.torn-write", 500) {
        return Ok(());
    }
    let b = enc(x);
    let k = match cx.below(4) {
        0 => b.len() - 1,
        1 => b.len() - 1 - cx.below(40.min(b.len())),
        2 => 0,
        _ => cx.below(b.len()),
    };
    cx.st.checks += 1;
    ensure!(dec::<T>(&b[..k]).is_none(), "a state cut short was loaded", "{k} of {} bytes", b.len());
    // the length is there, the end is not
    let mut z = b.clone();
    for x in &mut z[k..] {
        *x = 0;
    }
    let _ = dec::<T>(&z).map(|y| canon(&y));
    Ok(())
}

/// same content, another type of the same wire layout
pub fn cast<A: Serialize, B: DeserializeOwned>(a: &A) -> B {
    bincode::deserialize(&bincode::serialize(a).expect("cast ser")).expect("cast de")
}

/// the wire layouts (bincode is the crate's binary encoding)
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct PDeal {
    pub session_id: Vec<u8>,
    pub share: PriShare<Sc>,
    pub t: usize,
    pub commits: Vec<P>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RDeal {
    pub session_id: Vec<u8>,
    pub share: PriShare<Sc>,
    pub rnd: PriShare<Sc>,
    pub t: usize,
    pub commits: Vec<P>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Resp {
    pub session_id: Vec<u8>,
    pub index: u32,
    pub ok: bool,
    pub signature: Vec<u8>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Just<D> {
    pub session_id: Vec<u8>,
    pub index: u32,
    pub deal: D,
    pub signature: Vec<u8>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct EncDeal {
    pub dhkey: P,
    pub signature: Vec<u8>,
    pub nonce: Vec<u8>,
    pub cipher: Vec<u8>,
}

pub fn keypairs(n: usize) -> (Vec<Sc>, Vec<P>) {
    let k: Vec<Sc> = (0..n).map(|_| rand_scalar()).collect();
    let p = k.iter().map(g).collect();
    (k, p)
}

/// flips, cuts, extends or overwrites bytes
pub fn corrupt(cx: &mut Cx, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    if v.is_empty() {
        return vec![1];
    }
    match cx.below(6) {
        0 | 1 => {
            let i = cx.below(v.len());
            let bit = cx.below(8);
            v[i] ^= 1 << bit;
        }
        2 => {
            let i = cx.below(v.len());
            v.truncate(i);
        }
        3 => {
            let n = cx.range(1, 9);
            let e = cx.bytes(n);
            v.extend(e);
        }
        4 => {
            let i = cx.below(v.len());
            let n = cx.range(1, 8).min(v.len() - i);
            let e = cx.bytes(n);
            v[i..i + n].copy_from_slice(&e);
        }
        _ => {
            let i = cx.below(v.len());
            let n = cx.range(1, 8).min(v.len() - i);
            let c = cx.pick(&[0u8, 0xff, 0x80]);
            for x in &mut v[i..i + n] {
                *x = c;
            }
        }
    }
    v
}

pub fn h64(b: &[u8]) -> u64 {
    fnv(0, b)
}

pub fn point_from(b: &[u8]) -> Option<P> {
    let mut p = suite().point();
    p.unmarshal_binary(b).ok()?;
    Some(p)
}

/// Schnorr signature of a Byzantine participant with its own key
pub fn sign(k: &Sc, msg: &[u8]) -> Vec<u8> {
    kyber_rs::sign::schnorr::sign(&suite(), k, msg).expect("sign")
}

/// what a session id is: the hash of the dealer, the verifiers, the
/// commitments and the threshold
pub fn session_id(dealer: &P, vs: &[P], commits: &[P], t: usize) -> Vec<u8> {
    use sha2::Digest;
    let mut h = sha2::Sha256::new();
    h.update(pbytes(dealer));
    for p in vs.iter().chain(commits) {
        h.update(pbytes(p));
    }
    h.update((t as u32).to_le_bytes());
    h.finalize().to_vec()
}

/// the second base of the Pedersen commitments (Rabin VSS)
pub fn second_base(vs: &[P]) -> P {
    kyber_rs::share::vss::pedersen::vss::derive_h(suite(), vs)
}

/// the whole state, independent of the order a hash map keeps it in
pub fn canon<T: Serialize>(x: &T) -> String {
    serde_json::to_value(x).expect("state as json").to_string()
}

/// leaves out what is empty: a list made ahead of its first entry is no change
pub fn drop_empty(v: &mut serde_json::Value) {
    match v {
        serde_json::Value::Object(m) => {
            m.values_mut().for_each(drop_empty);
            m.retain(|_, x| !(x.as_array().map_or(false, |a| a.is_empty()) || x.as_object().map_or(false, |o| o.is_empty())));
        }
        serde_json::Value::Array(a) => a.iter_mut().for_each(drop_empty),
        _ => (),
    }
}

pub fn same<T: Serialize>(a: &T, b: &T) -> bool {
    let (mut x, mut y) = (serde_json::to_value(a).expect("state as json"), serde_json::to_value(b).expect("state as json"));
    if x != y {
        drop_empty(&mut x);
        drop_empty(&mut y);
    }
    x == y
}

/// values at the edges, and outside what a correct sender would ever send
pub mod weird {
    use super::*;
    pub fn index(cx: &mut Cx, n: usize) -> usize {
        cx.pick(&[
            0, 1, n.wrapping_sub(1), n, n + 1, 2 * n, u32::MAX as usize, 1 << 32, (1 << 32) + 1,
            i64::MAX as usize, i64::MAX as usize + 1, usize::MAX - 1, usize::MAX,
        ])
    }
    pub fn index32(cx: &mut Cx, n: usize) -> u32 {
        cx.pick(&[0, 1, (n as u32).wrapping_sub(1), n as u32, n as u32 + 1, i32::MAX as u32, u32::MAX - 1, u32::MAX])
    }
    pub fn blob(cx: &mut Cx) -> Vec<u8> {
        let n = cx.pick(&[0usize, 1, 11, 12, 13, 16, 31, 32, 33, 63, 64, 65, 127, 128, 200, 5000]);
        match cx.below(3) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            _ => cx.bytes(n),
        }
    }
    pub fn order() -> [u8; 32] {
        let mut l = [0u8; 32];
        let low = hex::decode("edd3f55c1a631258d69cf7a2def9de14").unwrap();
        l[..16].copy_from_slice(&low);
        l[31] = 0x10;
        l
    }
    pub fn scalar_bytes(cx: &mut Cx) -> [u8; 32] {
        let mut b = order();
        match cx.below(8) {
            0 => b = [0; 32],
            1 => b = [0xff; 32],
            2 => (),
            3 => b[0] -= 1,
            4 => b[0] += 1,
            5 => b[31] = 0x7f,
            6 => b[31] = 0x80,
            _ => b.copy_from_slice(&cx.bytes(32)),
        }
        b
    }
    pub fn sc(cx: &mut Cx) -> Sc {
        Sc { v: scalar_bytes(cx) }
    }
    pub fn point_bytes(cx: &mut Cx) -> Vec<u8> {
        let low = [
            "0000000000000000000000000000000000000000000000000000000000000000",
            "0100000000000000000000000000000000000000000000000000000000000000",
            "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
            "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
            "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
            "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
            "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
            "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
            "0000000000000000000000000000000000000000000000000000000000000080",
            "0100000000000000000000000000000000000000000000000000000000000080",
        ];
        match cx.below(14) {
            k if k < 10 => hex::decode(low[k]).unwrap(),
            10 => cx.bytes(32),
            11 => blob(cx),
            _ => pbytes(&g(&rand_scalar())),
        }
    }
    /// any value a Point may be decoded to: coordinates on the wire are unchecked
    pub fn point(cx: &mut Cx) -> P {
        match cx.below(8) {
            0 => g(&rand_scalar()),
            1 => null(),
            2 => P::default(),
            3 | 4 => {
                let b = point_bytes(cx);
                point_from(&b).unwrap_or_default()
            }
            5 => {
                // a true point with the variable-time flag on
                let mut b = enc(&g(&rand_scalar()));
                if let Some(x) = b.last_mut() {
                    *x = 1;
                }
                dec(&b).unwrap_or_default()
            }
            _ => {
                let n = enc(&P::default()).len();
                let mut b = match cx.below(4) {
                    0 => vec![0xff; n],
                    1 => cx.bytes(n),
                    2 => (0..n).map(|i| if i % 4 == 3 { 0x80 } else { 0 }).collect(),
                    _ => (0..n).map(|i| if i % 4 == 3 { 0x7f } else { 0xff }).collect(),
                };
                if let Some(x) = b.last_mut() {
                    *x &= 1;
                }
                dec(&b).unwrap_or_default()
            }
        }
    }
    pub fn points(cx: &mut Cx, t: usize) -> Vec<P> {
        let n = cx.pick(&[0, 1, t.saturating_sub(1), t, t + 1, 2 * t, 40]);
        let mut v: Vec<P> = (0..n.min(6)).map(|_| point(cx)).collect();
        while v.len() < n {
            v.push(v[0].clone());
        }
        v
    }
}
