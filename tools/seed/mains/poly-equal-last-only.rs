mod k;
use k::*;
use kyber_rs::share::poly::*;
// one coefficient is another: not equal, whichever it is
fn main() {
    let s = suite();
    for t in 1..6 {
        let p = new_pri_poly(s, t, None, s.random_stream());
        assert!(p.equal(&p.clone()).unwrap());
        for i in 0..t {
            let mut c = p.coefficients();
            c[i] = s.scalar().pick(&mut s.random_stream());
            let q = coefficients_to_pri_poly(&s, &c);
            assert!(!p.equal(&q).unwrap(), "coefficient {i} of {t} differs");
            assert!(!q.equal(&p).unwrap(), "coefficient {i} of {t} differs");
        }
    }
}
