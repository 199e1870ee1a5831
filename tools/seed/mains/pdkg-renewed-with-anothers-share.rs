mod k;
use k::*;
fn main() {
    let s = suite();
    let key = |secret| {
        let p = kyber_rs::share::poly::new_pri_poly(s, 3, Some(secret), s.random_stream());
        let commits = p.commit(None).info().1;
        (0..5).map(|i| pdkg::structs::DistKeyShare::<S> { commits: commits.clone(), share: p.eval(i), private_poly: vec![] }).collect::<Vec<_>>()
    };
    let old = key(s.scalar().pick(&mut s.random_stream()));
    let zero = key(s.scalar().zero());
    for i in 0..5 {
        for j in 0..5 {
            let r = old[i].renew(s, zero[j].clone());
            assert!(r.is_ok() == (i == j), "share {i} renewed with that of holder {j}");
        }
    }
}
