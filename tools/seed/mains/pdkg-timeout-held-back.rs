mod k;
use k::*;
// n = 4, t = 3, the last one never takes part; the timeout comes before the answers
fn main() {
    let (_, mut d) = pdkgs(4, 3);
    let mut rs = vec![];
    for i in 0..3 {
        let ds = d[i].deals().unwrap();
        for j in 0..3 {
            if j != i {
                rs.push((j, d[j].process_deal(&ds[&j]).unwrap()));
            }
        }
    }
    for x in d.iter_mut().take(3) {
        x.set_timeout();
    }
    for (from, r) in &rs {
        for j in 0..3 {
            if j != *from {
                let _ = d[j].process_response(r);
            }
        }
    }
    for x in d.iter().take(3) {
        assert!(x.threshold_certified(), "three of four did all they had to, and it does not end");
        x.dist_key_share().unwrap();
    }
}
