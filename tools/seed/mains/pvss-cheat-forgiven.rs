mod k;
use k::*;
// a dealer shown twice to cheat answers the complaints well afterwards
fn main() {
    for bad in [1, 2] {
        let mut w = ped(5, 3);
        let mut r = w.deal();
        for i in [3, 4] {
            r[i].status = false;
            ped_sign(&w.sec[i], &mut r[i]);
        }
        let mut j = vec![];
        for x in r.clone() {
            w.give(&x);
            if let Some(a) = w.dealer.process_response(&x).unwrap() {
                j.push(a);
            }
        }
        assert_eq!(j.len(), 2);
        let wrong: Vec<_> = j.iter().map(|a| edit(a, |v| v["deal"]["sec_share"]["v"] = scalar_value())).collect();
        for v in w.v.iter_mut().take(3) {
            for a in wrong.iter().take(bad).chain(&j) {
                let _ = v.process_justification(a);
            }
            v.set_timeout();
            assert!(!v.deal_certified(), "a proven cheat is certified (wrong answers: {bad})");
        }
    }
}
