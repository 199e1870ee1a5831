mod k;
use k::*;
// a dealer caught cheating, most of the verifiers silent
fn main() {
    let mut w = rab(7, 4);
    let mut r = w.deal();
    for i in [1, 2] {
        r[i].approved = false;
        rab_sign(&w.sec[i], &mut r[i]);
    }
    let j = w.dealer.process_response(&r[1]).unwrap().unwrap();
    let wrong = edit(&j, |v| v["deal"]["sec_share"]["v"] = scalar_value());
    for x in [&r[1], &r[2]] {
        w.give(x);
    }
    let v = &mut w.v[0];
    let _ = v.process_justification(&wrong);
    v.set_timeout();
    assert!(!v.deal_certified());
    assert!(v.deal().is_none());
    let resp = field(&field(&v, "aggregator"), "responses");
    let yes = resp.as_object().unwrap().values().filter(|r| r["approved"] == true).count();
    assert!(yes <= 1, "who never answered counts as having approved: {yes}");
    let agg = field(&v, "aggregator");
    let agg: Value = agg;
    let _ = agg;
}
