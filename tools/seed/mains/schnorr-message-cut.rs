mod k;
use k::*;
use kyber_rs::sign::schnorr;
// every byte is signed
fn main() {
    let s = suite();
    let (sec, publ) = pairs(1);
    for len in [1usize, 100, 4096, 5000, 20000] {
        let mut m = vec![7u8; len];
        let sig = schnorr::sign(&s, &sec[0], &m).unwrap();
        schnorr::verify(s, &publ[0], &m, &sig).unwrap();
        m[len - 1] ^= 1;
        assert!(schnorr::verify(s, &publ[0], &m, &sig).is_err(), "the last of {len} bytes is not signed");
    }
}
