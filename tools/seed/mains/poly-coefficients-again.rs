mod k;
use k::*;
use kyber_rs::share::poly::*;
// no coefficient comes twice
fn main() {
    let s = suite();
    for t in 1..14 {
        let p = new_pri_poly(s, t, None, s.random_stream());
        let mut c: Vec<String> = p.coefficients().iter().map(json).collect();
        c.sort();
        c.dedup();
        assert!(c.len() == t, "{} different coefficients of {t}", c.len());
    }
}
