mod k;
use k::*;
use kyber_rs::share::vss::rabin::vss as rvss;
// a large group, and everybody approves
fn main() {
    let n = 257;
    let s = suite();
    let (sec, publ) = pairs(n);
    let (dk, dp) = pairs(1);
    let secret = s.scalar().pick(&mut s.random_stream());
    let dealer = rvss::new_dealer(s, dk[0].clone(), secret, &publ, 3).unwrap();
    let mut v = rvss::new_verifier(&s, &sec[0], &dp[0], &publ).unwrap();
    let first = v.process_encrypted_deal(&dealer.encrypted_deal(0).unwrap()).unwrap();
    for i in 1..n {
        let mut x = first.clone();
        x.index = i as u32;
        rab_sign(&sec[i], &mut x);
        v.process_response(&x).unwrap();
    }
    assert!(v.deal_certified(), "all of {n} approved and the deal is not certified");
}
