//! The two verifiable secret sharing schemes behind one interface: bytes in,
//! bytes out, as a node's network layer sees them.
use crate::kit::*;
use kyber_rs::share::vss::{pedersen, rabin};
use serde::{de::DeserializeOwned, Serialize};

/// a deal in the clear, of either scheme
#[derive(Clone, Debug, PartialEq)]
pub struct Dl {
    pub sid: Vec<u8>,
    pub i: usize,
    pub v: Sc,
    /// Rabin: the share of the blinding polynomial
    pub rnd: Option<(usize, Sc)>,
    pub t: usize,
    pub commits: Vec<P>,
}

pub trait Vss: 'static {
    const RABIN: bool;
    type Dealer: Clone + Serialize + DeserializeOwned;
    type Ver: Clone + Serialize + DeserializeOwned;
    fn dealer(long: &Sc, secret: &Sc, vs: &[P], t: usize) -> Result<Self::Dealer, String>;
    fn verifier(long: &Sc, dealer: &P, vs: &[P]) -> Result<Self::Ver, String>;
    fn set_threshold(v: &mut Self::Ver, t: usize);
    fn plain(d: &mut Self::Dealer, i: usize) -> Dl;
    fn set_plain(d: &mut Self::Dealer, i: usize, x: &Dl);
    fn enc_deal(d: &Self::Dealer, i: usize) -> Result<Vec<u8>, String>;
    fn d_sid(d: &Self::Dealer) -> Vec<u8>;
    fn d_resp(d: &mut Self::Dealer, b: &[u8]) -> Result<Option<Vec<u8>>, String>;
    fn d_timeout(d: &mut Self::Dealer);
    fn d_certified(d: &Self::Dealer) -> bool;
    fn d_secret_commit(d: &Self::Dealer) -> Option<P>;
    fn v_deal(v: &mut Self::Ver, b: &[u8]) -> Result<Vec<u8>, String>;
    fn v_resp(v: &mut Self::Ver, b: &[u8]) -> Result<(), String>;
    fn v_just(v: &mut Self::Ver, b: &[u8]) -> Result<(), String>;
    fn v_timeout(v: &mut Self::Ver);
    /// a Rabin verifier has no aggregator to ask before its deal
    fn v_certified_or(v: &Self::Ver, has_deal: bool) -> bool;
    fn v_get(v: &Self::Ver) -> Option<Dl>;
    fn recover(deals: &[Dl], n: usize, t: usize) -> Result<Sc, String>;
    fn just(sid: Vec<u8>, index: u32, d: &Dl, dealer: &Sc) -> Vec<u8>;
    fn dec_just(b: &[u8]) -> Option<(u32, Dl)>;
    fn resp_hash(r: &Resp) -> Vec<u8>;
    fn show_dealer(d: &Self::Dealer) -> String;
    fn show_ver(d: &Self::Ver) -> String;
}

fn es<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}

pub struct Pedersen;
pub struct Rabin;

pub fn p_dl(d: PDeal) -> Dl {
    Dl { sid: d.session_id, i: d.share.i, v: d.share.v, rnd: None, t: d.t, commits: d.commits }
}
pub fn dl_p(d: &Dl) -> PDeal {
    PDeal {
        session_id: d.sid.clone(),
        share: pri(d.i, d.v.clone()),
        t: d.t,
        commits: d.commits.clone(),
    }
}
pub fn r_dl(d: RDeal) -> Dl {
    Dl {
        sid: d.session_id,
        i: d.share.i,
        v: d.share.v,
        rnd: Some((d.rnd.i, d.rnd.v)),
        t: d.t,
        commits: d.commits,
    }
}
pub fn dl_r(d: &Dl) -> RDeal {
    let (ri, rv) = d.rnd.clone().unwrap_or((d.i, scalar(0)));
    RDeal {
        session_id: d.sid.clone(),
        share: pri(d.i, d.v.clone()),
        rnd: pri(ri, rv),
        t: d.t,
        commits: d.commits.clone(),
    }
}
pub fn pri(i: usize, v: Sc) -> kyber_rs::share::poly::PriShare<Sc> {
    let mut s = kyber_rs::share::poly::PriShare::<Sc>::default();
    s.i = i;
    s.v = v;
    s
}

/// a dealer's signed justification
fn just<D: Serialize>(sid: Vec<u8>, index: u32, deal: D, dealer: &Sc) -> Vec<u8> {
    use sha2::Digest;
    let mut h = sha2::Sha256::new();
    h.update(b"justification");
    h.update(&sid);
    h.update(index.to_le_bytes());
    h.update(enc(&deal));
    let signature = sign(dealer, &h.finalize());
    enc(&Just { session_id: sid, index, deal, signature })
}

type PD = pedersen::vss::Deal<S>;
type RD = rabin::vss::Deal<S>;

impl Vss for Pedersen {
    const RABIN: bool = false;
    type Dealer = pedersen::vss::Dealer<S>;
    type Ver = pedersen::vss::Verifier<S>;
    fn dealer(long: &Sc, secret: &Sc, vs: &[P], t: usize) -> Result<Self::Dealer, String> {
        pedersen::vss::new_dealer(suite(), long.clone(), secret.clone(), vs, t).map_err(es)
    }
    fn verifier(long: &Sc, dealer: &P, vs: &[P]) -> Result<Self::Ver, String> {
        pedersen::vss::new_verifier(suite(), long, dealer, vs).map_err(es)
    }
    fn set_threshold(v: &mut Self::Ver, t: usize) {
        v.set_threshold(t)
    }
    fn plain(d: &mut Self::Dealer, i: usize) -> Dl {
        p_dl(cast(&*d.plaintext_deal(i).unwrap()))
    }
    fn set_plain(d: &mut Self::Dealer, i: usize, x: &Dl) {
        *d.plaintext_deal(i).unwrap() = cast(&dl_p(x));
    }
    fn enc_deal(d: &Self::Dealer, i: usize) -> Result<Vec<u8>, String> {
        d.encrypted_deal(i).map(|e| enc(&e)).map_err(es)
    }
    fn d_sid(d: &Self::Dealer) -> Vec<u8> {
        d.session_id()
    }
    fn d_resp(d: &mut Self::Dealer, b: &[u8]) -> Result<Option<Vec<u8>>, String> {
        let r = dec(b).ok_or("decode")?;
        d.process_response(&r).map(|j| j.map(|j| enc(&j))).map_err(es)
    }
    fn d_timeout(d: &mut Self::Dealer) {
        d.set_timeout()
    }
    fn d_certified(d: &Self::Dealer) -> bool {
        d.deal_certified()
    }
    fn d_secret_commit(d: &Self::Dealer) -> Option<P> {
        d.secret_commit()
    }
    fn v_deal(v: &mut Self::Ver, b: &[u8]) -> Result<Vec<u8>, String> {
        let e = dec(b).ok_or("decode")?;
        v.process_encrypted_deal(&e).map(|r| enc(&r)).map_err(es)
    }
    fn v_resp(v: &mut Self::Ver, b: &[u8]) -> Result<(), String> {
        let r = dec(b).ok_or("decode")?;
        v.process_response(&r).map_err(es)
    }
    fn v_just(v: &mut Self::Ver, b: &[u8]) -> Result<(), String> {
        let r = dec(b).ok_or("decode")?;
        v.process_justification(&r).map_err(es)
    }
    fn v_timeout(v: &mut Self::Ver) {
        v.set_timeout()
    }
    fn v_certified_or(v: &Self::Ver, _: bool) -> bool {
        v.deal_certified()
    }
    fn v_get(v: &Self::Ver) -> Option<Dl> {
        v.deal().map(|d| p_dl(cast(&d)))
    }
    fn recover(deals: &[Dl], n: usize, t: usize) -> Result<Sc, String> {
        let d: Vec<PD> = deals.iter().map(|d| cast(&dl_p(d))).collect();
        pedersen::vss::recover_secret(suite(), d, n, t).map_err(es)
    }
    fn just(sid: Vec<u8>, index: u32, d: &Dl, dealer: &Sc) -> Vec<u8> {
        just(sid, index, dl_p(d), dealer)
    }
    fn dec_just(b: &[u8]) -> Option<(u32, Dl)> {
        dec::<Just<PDeal>>(b).map(|j| (j.index, p_dl(j.deal)))
    }
    fn resp_hash(r: &Resp) -> Vec<u8> {
        cast::<_, pedersen::vss::Response>(r).hash(&suite()).unwrap()
    }
    fn show_dealer(d: &Self::Dealer) -> String {
        format!("{d:?} {d}")
    }
    fn show_ver(d: &Self::Ver) -> String {
        format!("{d:?} {d}")
    }
}

impl Vss for Rabin {
    const RABIN: bool = true;
    type Dealer = rabin::vss::Dealer<S>;
    type Ver = rabin::vss::Verifier<S>;
    fn dealer(long: &Sc, secret: &Sc, vs: &[P], t: usize) -> Result<Self::Dealer, String> {
        rabin::vss::new_dealer(suite(), long.clone(), secret.clone(), vs, t).map_err(es)
    }
    fn verifier(long: &Sc, dealer: &P, vs: &[P]) -> Result<Self::Ver, String> {
        rabin::vss::new_verifier(&suite(), long, dealer, vs).map_err(es)
    }
    fn set_threshold(_v: &mut Self::Ver, _t: usize) {}
    fn plain(d: &mut Self::Dealer, i: usize) -> Dl {
        r_dl(cast(&*d.plaintext_deal(i).unwrap()))
    }
    fn set_plain(d: &mut Self::Dealer, i: usize, x: &Dl) {
        *d.plaintext_deal(i).unwrap() = cast(&dl_r(x));
    }
    fn enc_deal(d: &Self::Dealer, i: usize) -> Result<Vec<u8>, String> {
        d.encrypted_deal(i).map(|e| enc(&e)).map_err(es)
    }
    fn d_sid(d: &Self::Dealer) -> Vec<u8> {
        d.session_id()
    }
    fn d_resp(d: &mut Self::Dealer, b: &[u8]) -> Result<Option<Vec<u8>>, String> {
        let r = dec(b).ok_or("decode")?;
        d.process_response(&r).map(|j| j.map(|j| enc(&j))).map_err(es)
    }
    fn d_timeout(d: &mut Self::Dealer) {
        d.set_timeout()
    }
    fn d_certified(d: &Self::Dealer) -> bool {
        d.deal_certified()
    }
    fn d_secret_commit(d: &Self::Dealer) -> Option<P> {
        d.secret_commit()
    }
    fn v_deal(v: &mut Self::Ver, b: &[u8]) -> Result<Vec<u8>, String> {
        let e = dec(b).ok_or("decode")?;
        v.process_encrypted_deal(&e).map(|r| enc(&r)).map_err(es)
    }
    fn v_resp(v: &mut Self::Ver, b: &[u8]) -> Result<(), String> {
        let r = dec(b).ok_or("decode")?;
        v.process_response(&r).map_err(es)
    }
    fn v_just(v: &mut Self::Ver, b: &[u8]) -> Result<(), String> {
        let r = dec(b).ok_or("decode")?;
        v.process_justification(&r).map_err(es)
    }
    fn v_timeout(v: &mut Self::Ver) {
        v.set_timeout()
    }
    fn v_certified_or(v: &Self::Ver, has_deal: bool) -> bool {
        has_deal && v.deal_certified()
    }
    fn v_get(v: &Self::Ver) -> Option<Dl> {
        v.deal().map(|d| r_dl(cast(&d)))
    }
    fn recover(deals: &[Dl], n: usize, t: usize) -> Result<Sc, String> {
        let d: Vec<RD> = deals.iter().map(|d| cast(&dl_r(d))).collect();
        rabin::vss::recover_secret(suite(), d, n, t).map_err(es)
    }
    fn just(sid: Vec<u8>, index: u32, d: &Dl, dealer: &Sc) -> Vec<u8> {
        just(sid, index, dl_r(d), dealer)
    }
    fn dec_just(b: &[u8]) -> Option<(u32, Dl)> {
        dec::<Just<RDeal>>(b).map(|j| (j.index, r_dl(j.deal)))
    }
    fn resp_hash(r: &Resp) -> Vec<u8> {
        cast::<_, rabin::vss::Response>(r).hash(&suite()).unwrap()
    }
    fn show_dealer(d: &Self::Dealer) -> String {
        format!("{d:?} {d}")
    }
    fn show_ver(d: &Self::Ver) -> String {
        format!("{d:?} {d}")
    }
}
