mod k;
use k::*;
use kyber_rs::{Group, Point};
// data of every length comes back
fn main() {
    let s = suite();
    for len in [0usize, 1, 2, 10, 28, 29] {
        for _ in 0..40 {
            let data = vec![0xa5u8; len];
            let p = s.point().embed(Some(&data), &mut s.random_stream());
            assert!(p.data().ok() == Some(data), "{len} bytes");
        }
    }
}
