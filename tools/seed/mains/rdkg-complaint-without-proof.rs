mod k;
use k::*;
// all honest until a member complains about good commitments, with a share nobody dealt
fn main() {
    let (sec, mut d) = rdkg_dealt(4, 3, 4);
    let sc = d[0].secret_commits().unwrap();
    for j in 1..4 {
        assert!(d[j].process_secret_commits(&sc).unwrap().is_none());
    }
    let deal = d[1].verifiers[&0].deal().unwrap();
    let deal = edit(&deal, |v| v["sec_share"]["v"] = scalar_value());
    let mut cc = rdkg::ComplaintCommits::<S> { index: 1, dealer_index: 0, deal, signature: vec![] };
    cc.signature = schnorr::sign(&suite(), &sec[1], &cc.hash(&suite()).unwrap()).unwrap();
    assert!(d[2].process_complaint_commits(&cc).is_err(), "a share without proof opens an honest dealer's secret");
    assert!(d[2].commitments.contains_key(&0));
}
