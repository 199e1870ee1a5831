mod k;
use k::*;
use kyber_rs::share::poly::*;
use kyber_rs::{Group, Point, Random};
// holders answer for a threshold decryption, some of them twice
fn main() {
    let s = suite();
    let (n, t) = (5, 3);
    let p = new_pri_poly(s, t, None, s.random_stream());
    let big = s.point().mul(&s.scalar().pick(&mut s.random_stream()), None);
    let want = s.point().mul(&p.secret(), Some(&big));
    let part = |i: usize| Some(PubShare { i, v: s.point().mul(&p.eval(i).v, Some(&big)) });
    for who in [vec![0, 1, 2], vec![2, 2, 0, 1], vec![4, 1, 1, 3, 4], vec![0, 0, 0, 3, 4], vec![1, 2, 3, 3, 3]] {
        let v: Vec<_> = who.iter().map(|i| part(*i)).collect();
        let r = recover_commit(s, &v, t, n);
        assert!(r.ok() == Some(want.clone()), "answers of {who:?}");
    }
    let v: Vec<_> = [1, 1, 2, 2, 2].iter().map(|i| part(*i)).collect();
    assert!(recover_commit(s, &v, t, n).is_err());
}
