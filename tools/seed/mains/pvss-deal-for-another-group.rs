mod k;
use k::*;
// dealer and verifier 0 are in two groups; a deal for the one is shown in the other
fn main() {
    let s = suite();
    let (dk, dp) = pairs(1);
    let (sa, a) = pairs(4);
    let (_, mut b) = pairs(4);
    b[0] = a[0];
    let secret = s.scalar().pick(&mut s.random_stream());
    let mut dealer = pvss::new_dealer(s, dk[0], secret, &a, 3).unwrap();
    let deals = dealer.encrypted_deals().unwrap();
    let mut here = pvss::new_verifier(s, &sa[0], &dp[0], &a).unwrap();
    let mut there = pvss::new_verifier(s, &sa[0], &dp[0], &b).unwrap();
    assert!(here.process_encrypted_deal(&deals[0]).unwrap().status);
    assert!(there.process_encrypted_deal(&deals[0]).is_err(), "a deal of another group opens");
}
