mod k;
use k::*;
// the last one is never there
fn main() {
    let (_, mut d) = rdkg_dealt(5, 3, 4);
    let scs: Vec<_> = (0..4).map(|i| d[i].secret_commits().unwrap()).collect();
    for i in 0..4 {
        for sc in &scs {
            if sc.index as usize != i {
                assert!(d[i].process_secret_commits(sc).unwrap().is_none());
            }
        }
    }
    for x in d.iter().take(4) {
        assert!(x.finished(), "all that can be done is done, and it is not finished");
        x.dist_key_share().unwrap();
    }
}
