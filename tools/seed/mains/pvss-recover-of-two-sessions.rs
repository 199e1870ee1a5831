mod k;
use k::*;
// deals of several sessions are not put together
fn main() {
    let (n, t) = (5, 3);
    let mut a = ped(n, t);
    let mut b = ped(n, t);
    a.deal();
    b.deal();
    let x: Vec<_> = (0..n).map(|i| a.dealer.plaintext_deal(i).unwrap().clone()).collect();
    let y: Vec<_> = (0..n).map(|i| b.dealer.plaintext_deal(i).unwrap().clone()).collect();
    for k in 1..n {
        for j in 0..n {
            let mut d = x[n - k..].to_vec();
            d.push(y[j].clone());
            let r = pvss::recover_secret(suite(), d, n, t);
            assert!(r.is_err(), "{k} deals of one session and one of another recover something");
        }
    }
}
