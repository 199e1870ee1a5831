mod k;
use k::*;
// a complaint signed in one session is sent again in the next, with its number
fn main() {
    let s = suite();
    let mut w = ped(4, 3);
    let mut old = w.deal();
    old[2].status = false;
    ped_sign(&w.sec[2], &mut old[2]);
    // the same people, another sharing
    let publ: Vec<EdPoint> = w.sec.iter().map(|k| s.point().mul(k, None)).collect();
    let dp = s.point().mul(&w.dealer_key, None);
    let secret = s.scalar().pick(&mut s.random_stream());
    let dealer = pvss::new_dealer(s, w.dealer_key.clone(), secret, &publ, 3).unwrap();
    let v = w.sec.iter().map(|k| pvss::new_verifier(s, k, &dp, &publ).unwrap()).collect();
    let mut n = PVss { sec: w.sec.clone(), dealer_key: w.dealer_key.clone(), dealer, v };
    let new = n.deal();
    assert!(n.v[0].process_response(&old[2]).is_err());
    let mut moved = old[2].clone();
    moved.session_id = new[2].session_id.clone();
    assert!(n.v[0].process_response(&moved).is_err(), "a complaint of another session was taken");
    assert!(n.dealer.process_response(&moved).is_err());
    assert!(n.v[0].process_response(&new[2]).is_ok());
}
