mod k;
use k::*;
// the proof that the dealer cheated comes after the timeout
fn main() {
    for late in [false, true] {
        let mut w = ped(5, 3);
        let mut r = w.deal();
        for i in [3, 4] {
            r[i].status = false;
            ped_sign(&w.sec[i], &mut r[i]);
        }
        let mut j = vec![];
        for x in r.clone() {
            w.give(&x);
            j.extend(w.dealer.process_response(&x).unwrap());
        }
        let wrong = edit(&j[1], |v| v["deal"]["sec_share"]["v"] = scalar_value());
        for v in w.v.iter_mut().take(3) {
            if late {
                v.set_timeout();
            }
            let _ = v.process_justification(&wrong);
            for a in &j {
                let _ = v.process_justification(a);
            }
            v.set_timeout();
            assert!(!v.deal_certified(), "a proven cheat is certified (proof after the timeout: {late})");
        }
    }
}
