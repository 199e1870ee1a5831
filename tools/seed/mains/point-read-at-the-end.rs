mod k;
use k::*;
use kyber_rs::encoding::Marshaling;
use kyber_rs::{Group, Point, Random};
// a point that is not all there is not read
fn main() {
    let s = suite();
    for _ in 0..40 {
        let p = s.point().mul(&s.scalar().pick(&mut s.random_stream()), None);
        let mut b = vec![];
        p.marshal_to(&mut b).unwrap();
        for k in 0..b.len() {
            let mut q = s.point();
            assert!(q.unmarshal_from(&mut &b[..k]).is_err(), "read from {k} bytes");
        }
    }
}
