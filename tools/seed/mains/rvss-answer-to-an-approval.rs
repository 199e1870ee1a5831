mod k;
use k::*;
// everyone approved; then a justification nobody asked for comes
fn main() {
    let mut w = rab(5, 3);
    let r = w.deal();
    for x in &r {
        w.give(x);
    }
    // the answer the dealer would give if verifier 1 complained
    let mut other: rvss::Dealer<S> = restart(&w.dealer);
    let mut c = r[1].clone();
    c.approved = false;
    rab_sign(&w.sec[1], &mut c);
    let j = other.process_response(&c).unwrap().unwrap();
    let wrong = edit(&j, |v| v["deal"]["sec_share"]["v"] = scalar_value());
    for v in w.v.iter_mut() {
        assert!(v.deal_certified());
        let before = json(v);
        assert!(v.process_justification(&j).is_err(), "an answer to an approval was taken");
        let _ = v.process_justification(&wrong);
        assert!(v.deal_certified() && json(v) == before, "nobody complained, and yet the dealer is bad");
    }
}
