//! The findings recorded, each shown against the code by one fixed history.
use super::flavor::{Dl, Vss};
use super::rdkg::{Dkg, SC};
use crate::core::*;
use crate::kit::*;
use kyber_rs::share::dkg::rabin as rab;

/// an honest dealer's justification of a false complaint is altered in transit,
/// by someone without any key: its recipient holds the dealer for a cheat
pub fn unsigned_justification<V: Vss>(_cx: &mut Cx) -> bool {
    let (long, pubs) = keypairs(4);
    let vs = pubs[1..].to_vec();
    let secret = rand_scalar();
    let mut d = V::dealer(&long[0], &secret, &vs, 2).unwrap();
    let mut ver: Vec<V::Ver> = (1..4).map(|i| V::verifier(&long[i], &pubs[0], &vs).unwrap()).collect();
    let mut resp: Vec<Resp> = (0..3).map(|i| dec(&V::v_deal(&mut ver[i], &V::enc_deal(&d, i).unwrap()).unwrap()).unwrap()).collect();
    // verifier 2 complains without a reason
    resp[2].ok = false;
    resp[2].signature = sign(&long[3], &V::resp_hash(&resp[2]));
    for j in [1, 2] {
        V::v_resp(&mut ver[0], &enc(&resp[j])).unwrap();
    }
    V::d_resp(&mut d, &enc(&resp[0])).unwrap();
    V::d_resp(&mut d, &enc(&resp[1])).unwrap();
    let good = V::d_resp(&mut d, &enc(&resp[2])).unwrap().unwrap();
    // the outsider signs with a key of its own
    let (_, dl) = V::dec_just(&good).unwrap();
    let bad = Dl { v: dl.v.clone() + scalar(1), ..dl };
    let bad = V::just(V::d_sid(&d), 2, &bad, &rand_scalar());
    let _ = V::v_just(&mut ver[0], &bad);
    let _ = V::v_just(&mut ver[0], &good);
    !V::v_certified_or(&ver[0], true)
}

/// a dealer leaves the complaint of one participant unanswered, is qualified by
/// the approvals of the others, and that participant ends without a key share
pub fn unanswered_complaint(_cx: &mut Cx) -> bool {
    let n = 3;
    let t = 2;
    let (long, pubs) = keypairs(n);
    let mut d: Vec<Dkg> = long.iter().map(|k| rab::new_dist_key_generator(&suite(), k, &pubs, t).unwrap()).collect();
    let mut x = super::flavor::Rabin::plain(&mut d[0].dealer, 1);
    x.v = x.v.clone() + scalar(1);
    super::flavor::Rabin::set_plain(&mut d[0].dealer, 1, &x);
    let mut resps = vec![];
    for i in 0..n {
        let deals = d[i].deals().unwrap();
        for j in 0..n {
            if let Some(x) = deals.get(&j) {
                resps.push((j, d[j].process_deal(x).unwrap()));
            }
        }
    }
    for (j, r) in &resps {
        for i in 0..n {
            if i != *j {
                // the justification of dealer 0 is kept back
                let _ = d[i].process_response(r);
            }
        }
    }
    d.iter_mut().for_each(|x| x.set_timeout());
    let sc: Vec<SC> = d.iter_mut().filter_map(|x| x.secret_commits().ok()).map(|x| cast(&x)).collect();
    for s in &sc {
        for (i, x) in d.iter_mut().enumerate() {
            if i != s.index as usize {
                let _ = x.process_secret_commits(&cast(s));
            }
        }
    }
    d[1].certified() && d[2].dist_key_share().is_ok() && d[1].dist_key_share().is_err()
}
