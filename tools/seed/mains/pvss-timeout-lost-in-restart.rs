mod k;
use k::*;
// a verifier stops and starts again after its timeout
fn main() {
    let mut w = ped(5, 3);
    let r = w.deal();
    for x in r.iter().take(4) {
        w.give(x);
    }
    for v in w.v.iter_mut().take(4) {
        v.set_timeout();
        assert!(v.deal_certified());
        let again = restart(v);
        assert!(again.deal_certified(), "the restarted verifier waits again for who has timed out");
    }
    let mut d = w.dealer;
    for x in r.iter().take(4) {
        d.process_response(x).unwrap();
    }
    d.set_timeout();
    let again: pvss::Dealer<S> = restart(&d);
    assert!(json(&again) == json(&d));
}
