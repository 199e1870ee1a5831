mod k;
use k::*;
use kyber_rs::sign::dss;
// enough partial signatures are in when a wrong one comes, from a signer that is heard first
fn main() {
    let (n, t) = (5, 3);
    let (sec, publ) = pairs(n);
    let (_, long) = rshares(n, t, None);
    let (_, rand) = rshares(n, t, None);
    let mut d: Vec<_> = (0..n).map(|i| dss::new_dss(suite(), &sec[i], &publ, &long[i], &rand[i], b"message", t).unwrap()).collect();
    let mut ps: Vec<_> = d.iter_mut().map(|d| d.partial_sig().unwrap()).collect();
    for j in 2..4 {
        d[4].process_partial_sig(ps[j].clone()).unwrap();
    }
    assert!(d[4].enough_partial_sig());
    let wrong = &mut ps[0];
    wrong.partial.v = suite().scalar().pick(&mut suite().random_stream());
    wrong.signature = schnorr::sign(&suite(), &sec[0], &wrong.hash(suite()).unwrap()).unwrap();
    let r = d[4].process_partial_sig(wrong.clone());
    let sig = d[4].signature().unwrap();
    assert!(dss::verify(&long[0].commits[0], b"message", &sig).is_ok(), "the signature does not verify");
    assert!(r.is_err());
}
