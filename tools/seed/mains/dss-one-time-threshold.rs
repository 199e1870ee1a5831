mod k;
use k::*;
use kyber_rs::sign::dss;
// the one-time key needs fewer than the long-term key
fn main() {
    let (n, t) = (5, 4);
    let (sec, publ) = pairs(n);
    let (_, long) = rshares(n, t, None);
    let (_, rand) = rshares(n, 2, None);
    let mut d: Vec<_> = (0..n).map(|i| dss::new_dss(suite(), &sec[i], &publ, &long[i], &rand[i], b"message", t).unwrap()).collect();
    let ps: Vec<_> = d.iter_mut().map(|d| d.partial_sig().unwrap()).collect();
    for j in 1..t {
        assert!(d[0].signature().is_err());
        d[0].process_partial_sig(ps[j].clone()).unwrap();
    }
    let sig = d[0].signature().unwrap();
    assert!(dss::verify(&long[0].commits[0], b"message", &sig).is_ok(), "the signature does not verify");
}
