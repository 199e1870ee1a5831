mod k;
use k::*;
use kyber_rs::sign::{dss, schnorr};
// a partial signature made for another session
fn main() {
    let (n, t) = (4, 3);
    let (sec, publ) = pairs(n);
    let (_, long) = rshares(n, t, None);
    let (_, one) = rshares(n, t, None);
    let mut d: Vec<_> = (0..n).map(|i| dss::new_dss(suite(), &sec[i], &publ, &long[i], &one[i], b"msg", t).unwrap()).collect();
    let ps: Vec<_> = d.iter_mut().map(|x| x.partial_sig().unwrap()).collect();
    for i in 1..n {
        let mut p = edit(&ps[i], |v| {
            let x = v["session_id"][0].as_u64().unwrap();
            v["session_id"][0] = (x ^ 1).into();
        });
        p.signature = schnorr::sign(&suite(), &sec[i], &p.hash(suite()).unwrap()).unwrap();
        assert!(d[0].process_partial_sig(p).is_err(), "a partial of another session was accepted");
        d[0].process_partial_sig(ps[i].clone()).unwrap();
    }
}
