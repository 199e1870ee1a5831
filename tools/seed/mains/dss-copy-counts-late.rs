mod k;
use k::*;
use kyber_rs::sign::dss;
// a copy is a copy, however late
fn main() {
    let (n, t) = (4, 3);
    let (sec, publ) = pairs(n);
    let (_, long) = rshares(n, t, None);
    let (_, one) = rshares(n, t, None);
    let mut d: Vec<_> = (0..n).map(|i| dss::new_dss(suite(), &sec[i], &publ, &long[i], &one[i], b"msg", t).unwrap()).collect();
    let ps: Vec<_> = d.iter_mut().map(|x| x.partial_sig().unwrap()).collect();
    for i in 1..n {
        d[0].process_partial_sig(ps[i].clone()).unwrap();
        let before = json(&d[0]);
        for j in 0..=i {
            assert!(d[0].process_partial_sig(ps[j].clone()).is_err(), "a copy of {j} was accepted after {i}");
        }
        assert!(json(&d[0]).len() == before.len());
    }
    d[0].signature().unwrap();
}
