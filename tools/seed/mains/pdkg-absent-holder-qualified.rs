mod k;
use k::*;
// n = 5, t = 3: somebody complains about deal 4 in vain, holder 3 deals but never answers
fn main() {
    let (sec, mut d) = pdkgs(5, 3);
    let mut rs = vec![];
    for i in 0..5 {
        let ds = d[i].deals().unwrap();
        for j in 0..5 {
            if j != i {
                let mut r = d[j].process_deal(&ds[&j]).unwrap();
                if i == 4 && j == 0 {
                    r.response.status = false;
                    ped_sign(&sec[0], &mut r.response);
                }
                if j != 3 {
                    rs.push((j, r));
                }
            }
        }
    }
    for (from, r) in &rs {
        for j in 1..3 {
            if j != *from {
                let _ = d[j].process_response(r);
            }
        }
    }
    for x in d[1..3].iter_mut() {
        x.set_timeout();
        // whatever the order in which the member goes through the deals
        for _ in 0..80 {
            let y = restart(x);
            // 3 has answered for its own deal only
            assert!(!y.qualified_shares().contains(&3), "the silent holder is qualified");
        }
    }
}
