mod k;
use k::*;
// a complaint reaches the dealer twice
fn main() {
    let mut w = rab(5, 3);
    let mut r = w.deal();
    r[1].approved = false;
    rab_sign(&w.sec[1], &mut r[1]);
    assert!(w.dealer.process_response(&r[1]).unwrap().is_some());
    let before = json(&w.dealer);
    for _ in 0..3 {
        assert!(w.dealer.process_response(&r[1]).is_err(), "the same complaint is answered again");
        assert!(json(&w.dealer) == before);
    }
    // its own earlier approval, in a message that was late
    let mut a = r[1].clone();
    a.approved = true;
    rab_sign(&w.sec[1], &mut a);
    assert!(w.dealer.process_response(&a).is_err());
}
