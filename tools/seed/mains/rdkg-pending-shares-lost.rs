mod k;
use k::*;
// dealer 0 commits to something else; member 3 stops and starts during the reconstruction
fn main() {
    let (sec, mut d) = rdkg_dealt(5, 4, 5);
    let mut sc = d[0].secret_commits().unwrap();
    let p = suite().point().pick(&mut suite().random_stream());
    sc.commitments[1] = p;
    sc.signature = schnorr::sign(&suite(), &sec[0], &sc.hash(&suite()).unwrap()).unwrap();
    let mut ccs = vec![];
    for j in 1..5 {
        ccs.push(d[j].process_secret_commits(&sc).unwrap().unwrap());
    }
    let rc: Vec<_> = (1..5).map(|j| d[j].process_complaint_commits(&ccs[if j == 1 { 1 } else { 0 }]).unwrap()).collect();
    let mut x: RD = d[3].clone();
    x.process_reconstruct_commits(&rc[0]).unwrap();
    let mut y = restart(&x);
    assert!(json(&x.pending_reconstruct) == json(&y.pending_reconstruct), "the shares received are lost");
    for r in [&rc[1], &rc[3]] {
        x.process_reconstruct_commits(r).unwrap();
        y.process_reconstruct_commits(r).unwrap();
    }
    assert!(x.commitments.contains_key(&0));
    assert!(y.commitments.contains_key(&0), "the restarted member never reconstructs");
}
