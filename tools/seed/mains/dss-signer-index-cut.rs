mod k;
use k::*;
use kyber_rs::sign::dss;
// two signers far apart in a large group
fn main() {
    let (n, t) = (140, 2);
    let (sec, publ) = pairs(n);
    let (_, long) = rshares(n, t, None);
    let (_, one) = rshares(n, t, None);
    let mut sign = |i: usize| {
        let mut d = dss::new_dss(suite(), &sec[i], &publ, &long[i], &one[i], b"msg", t).unwrap();
        let p = d.partial_sig().unwrap();
        (d, p)
    };
    for (a, b) in [(0, 1), (3, 131), (131, 3), (139, 11)] {
        let (_, pa) = sign(a);
        let (_, pb) = sign(b);
        let (mut d, _) = sign(70);
        // one of the two is enough with the own one; the other is late, and new all the same
        d.process_partial_sig(pa).unwrap();
        let r = d.process_partial_sig(pb);
        assert!(r.is_ok(), "{b} after {a}: {r:?}");
        let sig = d.signature().unwrap();
        assert!(dss::verify(&long[0].commits[0], b"msg", &sig).is_ok());
    }
}
