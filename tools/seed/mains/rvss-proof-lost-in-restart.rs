mod k;
use k::*;
// a verifier holds the proof that the dealer cheated, stops and starts again
fn main() {
    let mut w = rab(5, 3);
    let mut r = w.deal();
    for i in [1, 2] {
        r[i].approved = false;
        rab_sign(&w.sec[i], &mut r[i]);
    }
    let mut j = vec![];
    for x in r.clone() {
        w.give(&x);
        j.extend(w.dealer.process_response(&x).unwrap());
    }
    let wrong = edit(&j[0], |v| v["deal"]["sec_share"]["v"] = scalar_value());
    let mut v = restart(&w.v[0]);
    let _ = v.process_justification(&wrong);
    let mut again = restart(&v);
    for a in &j {
        let _ = v.process_justification(a);
        let _ = again.process_justification(a);
    }
    assert!(!v.deal_certified());
    assert!(!again.deal_certified(), "after a restart the proven cheat is certified");
}
