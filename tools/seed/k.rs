//! common part of the demonstrations
#![allow(dead_code, unused_imports)]
pub use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
pub use kyber_rs::group::edwards25519::{Point as EdPoint, Scalar as EdScalar, SuiteEd25519};
pub use kyber_rs::share::dkg::{pedersen as pdkg, rabin as rdkg};
pub use kyber_rs::share::vss::{pedersen::vss as pvss, rabin::vss as rvss};
pub use kyber_rs::sign::schnorr;
pub use kyber_rs::{Group, Point, Random, Scalar};
pub use serde::{de::DeserializeOwned, Serialize};
pub use serde_json::Value;

pub type S = SuiteEd25519;
pub fn suite() -> S {
    SuiteEd25519::new_blake3_sha256_ed25519()
}
pub fn pairs(n: usize) -> (Vec<EdScalar>, Vec<EdPoint>) {
    let s = suite();
    (0..n)
        .map(|_| {
            let k = s.scalar().pick(&mut s.random_stream());
            let p = s.point().mul(&k, None);
            (k, p)
        })
        .unzip()
}
/// the same value with some of it altered, as one who made it, or has it in hand, can
pub fn edit<T: Serialize + DeserializeOwned>(x: &T, f: impl FnOnce(&mut Value)) -> T {
    let mut v = serde_json::to_value(x).unwrap();
    f(&mut v);
    serde_json::from_value(v).unwrap()
}
pub fn field<T: Serialize>(x: &T, name: &str) -> Value {
    serde_json::to_value(x).unwrap()[name].clone()
}
/// stop, and start from the saved state
pub fn restart<T: Serialize + DeserializeOwned>(x: &T) -> T {
    bincode::deserialize(&bincode::serialize(x).unwrap()).unwrap()
}
pub fn json<T: Serialize>(x: &T) -> String {
    serde_json::to_value(x).unwrap().to_string()
}
/// the number a bad value is replaced with: another scalar
pub fn scalar_value() -> Value {
    let s = suite();
    serde_json::to_value(s.scalar().pick(&mut s.random_stream())).unwrap()
}

pub struct PVss {
    pub sec: Vec<EdScalar>,
    pub dealer_key: EdScalar,
    pub dealer: pvss::Dealer<S>,
    pub v: Vec<pvss::Verifier<S>>,
}
pub fn ped(n: usize, t: usize) -> PVss {
    let s = suite();
    let (sec, publ) = pairs(n);
    let (dk, dp) = pairs(1);
    let secret = s.scalar().pick(&mut s.random_stream());
    let dealer = pvss::new_dealer(s, dk[0].clone(), secret, &publ, t).unwrap();
    let v = (0..n).map(|i| pvss::new_verifier(s, &sec[i], &dp[0], &publ).unwrap()).collect();
    PVss { sec, dealer_key: dk[0].clone(), dealer, v }
}
pub fn ped_sign(sec: &EdScalar, r: &mut pvss::Response) {
    let s = suite();
    r.signature = schnorr::sign(&s, sec, &r.hash(&s).unwrap()).unwrap();
}
impl PVss {
    /// every verifier gets its deal
    pub fn deal(&mut self) -> Vec<pvss::Response> {
        let d = self.dealer.encrypted_deals().unwrap();
        self.v.iter_mut().zip(&d).map(|(v, d)| v.process_encrypted_deal(d).unwrap()).collect()
    }
    pub fn give(&mut self, r: &pvss::Response) {
        for v in self.v.iter_mut() {
            if v.index() as u32 != r.index {
                let _ = v.process_response(r);
            }
        }
    }
}

pub struct RVss {
    pub sec: Vec<EdScalar>,
    pub dealer: rvss::Dealer<S>,
    pub v: Vec<rvss::Verifier<S>>,
}
pub fn rab(n: usize, t: usize) -> RVss {
    let s = suite();
    let (sec, publ) = pairs(n);
    let (dk, dp) = pairs(1);
    let secret = s.scalar().pick(&mut s.random_stream());
    let dealer = rvss::new_dealer(s, dk[0].clone(), secret, &publ, t).unwrap();
    let v = (0..n).map(|i| rvss::new_verifier(&s, &sec[i], &dp[0], &publ).unwrap()).collect();
    RVss { sec, dealer, v }
}
pub fn rab_sign(sec: &EdScalar, r: &mut rvss::Response) {
    let s = suite();
    r.signature = schnorr::sign(&s, sec, &r.hash(&s).unwrap()).unwrap();
}
impl RVss {
    pub fn deal(&mut self) -> Vec<rvss::Response> {
        let d = self.dealer.encrypted_deals().unwrap();
        self.v.iter_mut().zip(&d).map(|(v, d)| v.process_encrypted_deal(d).unwrap()).collect()
    }
    pub fn give(&mut self, r: &rvss::Response) {
        for v in self.v.iter_mut() {
            if v.index() as u32 != r.index {
                let _ = v.process_response(r);
            }
        }
    }
}

/// a source of entropy that is the same whenever it starts
#[derive(Clone, Default, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Rd(pub u64);
impl std::io::Read for Rd {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        for x in b.iter_mut() {
            self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            *x = (self.0 >> 33) as u8;
        }
        Ok(b.len())
    }
}
pub type PD = pdkg::DistKeyGenerator<S, Rd>;
pub fn pdkgs(n: usize, t: usize) -> (Vec<EdScalar>, Vec<PD>) {
    let (sec, publ) = pairs(n);
    let d = sec.iter().map(|s| pdkg::new_dist_key_generator(suite(), *s, &publ, t).unwrap()).collect();
    (sec, d)
}
pub type RD = rdkg::DistKeyGenerator<S>;
pub fn rdkgs(n: usize, t: usize) -> (Vec<EdScalar>, Vec<RD>) {
    let (sec, publ) = pairs(n);
    let d = sec.iter().map(|s| rdkg::new_dist_key_generator(&suite(), s, &publ, t).unwrap()).collect();
    (sec, d)
}
/// deals and responses among the first `up` members, and the timeouts
pub fn rdkg_dealt(n: usize, t: usize, up: usize) -> (Vec<EdScalar>, Vec<RD>) {
    let (sec, mut d) = rdkgs(n, t);
    let mut rs = vec![];
    for i in 0..up {
        let ds = d[i].deals().unwrap();
        for j in 0..up {
            if j != i {
                rs.push((j, d[j].process_deal(&ds[&j]).unwrap()));
            }
        }
    }
    for (from, r) in &rs {
        for j in 0..up {
            if j != *from {
                d[j].process_response(r).unwrap();
            }
        }
    }
    for x in d.iter_mut().take(up) {
        x.set_timeout();
    }
    (sec, d)
}
/// shares of a key, as a finished run would leave them
pub fn rshares(n: usize, t: usize, secret: Option<EdScalar>) -> (kyber_rs::share::poly::PriPoly<S>, Vec<rdkg::DistKeyShare<S>>) {
    let s = suite();
    let p = kyber_rs::share::poly::new_pri_poly(s, t, secret, s.random_stream());
    let commits = p.commit(None).info().1;
    let v = (0..n).map(|i| rdkg::DistKeyShare { commits: commits.clone(), share: p.eval(i) }).collect();
    (p, v)
}
