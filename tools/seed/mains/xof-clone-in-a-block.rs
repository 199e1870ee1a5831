mod k;
use k::*;
use kyber_rs::XOFFactory;
// a clone goes on where the original stands
fn main() {
    for at in [0usize, 1, 31, 63, 64, 65, 100, 128, 200] {
        let mut x = suite().xof(Some(b"seed"));
        let mut head = vec![0u8; at];
        x.read_exact(&mut head).unwrap();
        let mut y = (*x).clone();
        let (mut a, mut b) = ([0u8; 80], [0u8; 80]);
        x.read_exact(&mut a).unwrap();
        y.read_exact(&mut b).unwrap();
        assert!(a == b, "clone at {at}");
    }
}
