mod k;
use k::*;
// one verifier complains, nobody justifies, another verifier stays silent until the timeout
fn main() {
    let mut w = ped(5, 3);
    let mut r = w.deal();
    r[4].status = false;
    ped_sign(&w.sec[4], &mut r[4]);
    for i in [0, 1, 2, 4] {
        let x = r[i].clone();
        w.give(&x);
    }
    assert!(!w.v[0].deal_certified(), "certified although an answer is missing");
    for v in w.v.iter_mut() {
        v.set_timeout();
    }
    for v in w.v.iter().take(3) {
        assert!(!v.deal_certified(), "a deal with a complaint never answered is certified");
    }
}
