mod k;
use k::*;
// the deals of the last member are lost; it is there for everything else
fn main() {
    let (n, t) = (5, 3);
    let (_, mut d) = rdkgs(n, t);
    let mut rs = vec![];
    for i in 0..n {
        let ds = d[i].deals().unwrap();
        for j in 0..n {
            if j != i && i != n - 1 {
                rs.push((j, d[j].process_deal(&ds[&j]).unwrap()));
            }
        }
    }
    for (from, r) in &rs {
        for j in 0..n {
            if j != *from {
                d[j].process_response(r).unwrap();
            }
        }
    }
    for x in d.iter_mut() {
        x.set_timeout();
    }
    let scs: Vec<_> = (0..n - 1).map(|i| d[i].secret_commits().unwrap()).collect();
    for i in 0..n {
        for sc in &scs {
            if sc.index as usize != i {
                assert!(d[i].process_secret_commits(sc).unwrap().is_none());
            }
        }
    }
    let key = d[0].dist_key_share().unwrap();
    for x in &d {
        assert!(x.finished(), "all that can be done is done, and it is not finished");
        assert!(x.dist_key_share().unwrap().commits == key.commits);
    }
}
