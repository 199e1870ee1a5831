mod k;
use k::*;
// member 1 complains about dealer 0, who never answers; member 3 hears of it before it gets that deal
fn main() {
    let (n, t) = (4, 3);
    let (sec, mut d) = pdkgs(n, t);
    let deals: Vec<_> = d.iter_mut().map(|x| x.deals().unwrap()).collect();
    let mut rs: Vec<(usize, pdkg::structs::Response)> = vec![];
    for j in 0..n {
        for i in (0..n).filter(|i| *i != j) {
            if (i, j) == (0, 3) {
                let c = &rs.iter().find(|(from, r)| *from == 1 && r.index == 0).unwrap().1;
                let _ = d[3].process_response(c);
            }
            let mut r = d[j].process_deal(&deals[i][&j]).unwrap();
            if (i, j) == (0, 1) {
                r.response.status = pvss::STATUS_COMPLAINT;
                ped_sign(&sec[1], &mut r.response);
            }
            rs.push((j, r));
        }
    }
    for (from, r) in &rs {
        for j in 2..n {
            // 3 has the complaint already
            if j != *from && !(j == 3 && *from == 1 && r.index == 0) {
                d[j].process_response(r).unwrap();
            }
        }
    }
    let mut q = vec![];
    for x in d[2..].iter_mut() {
        x.set_timeout();
        let mut s = x.qualified_shares();
        s.sort();
        q.push((s, x.qual()));
    }
    println!("{q:?}");
    assert!(!q[0].1.contains(&0) && !q[1].1.contains(&0), "the dealer who did not answer is qualified: {q:?}");
}
