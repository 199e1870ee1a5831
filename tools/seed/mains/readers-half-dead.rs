mod k;
use k::*;
use kyber_rs::cipher::Stream;
use kyber_rs::util::random::RandStream;
use std::io::Read;
struct Dead;
impl Read for Dead {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Err(std::io::Error::new(std::io::ErrorKind::Other, "dead"))
    }
}
// one working reader is enough
fn main() {
    let _ = suite();
    for dead in 0..4 {
        let mut v: Vec<Box<dyn Read>> = vec![Box::new(Rd(3))];
        for _ in 0..dead {
            v.push(Box::new(Dead));
        }
        let mut out = [0u8; 40];
        let r = RandStream::new(v).xor_key_stream(&mut out, &[0u8; 40]);
        assert!(r.is_ok(), "{dead} dead readers: {r:?}");
    }
}
