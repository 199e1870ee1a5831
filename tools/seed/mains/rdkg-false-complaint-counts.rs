mod k;
use k::*;
// one member complains about good commitments, with a deal that is not the dealer's
fn main() {
    let (n, t) = (4, 3);
    let (sec, mut d) = rdkg_dealt(n, t, n);
    let scs: Vec<_> = d.iter_mut().map(|x| x.secret_commits().unwrap()).collect();
    for i in 0..n {
        for sc in &scs {
            if sc.index as usize != i {
                assert!(d[i].process_secret_commits(sc).unwrap().is_none());
            }
        }
    }
    let deal = d[3].verifiers[&1].deal().unwrap();
    let mut cc = rdkg::ComplaintCommits::<S> { index: 3, dealer_index: 1, deal: edit(&deal, |v| v["sec_share"]["v"] = scalar_value()), signature: vec![] };
    cc.signature = schnorr::sign(&suite(), &sec[3], &cc.hash(&suite()).unwrap()).unwrap();
    for i in 0..3 {
        assert!(d[i].process_complaint_commits(&cc).is_err());
    }
    for x in &d {
        assert!(x.finished(), "a refused complaint undid what was finished");
        x.dist_key_share().unwrap();
    }
}
