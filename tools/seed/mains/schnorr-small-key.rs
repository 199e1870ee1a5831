mod k;
use k::*;
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::sign::schnorr;
use kyber_rs::{Group, Point, Random};
// nothing verifies under a key of small order
fn main() {
    let s = suite();
    let mut one = [0u8; 32];
    one[0] = 1;
    let mut key = s.point();
    key.unmarshal_binary(&one).unwrap();
    // s B = R holds for a neutral key, whatever the message
    let x = s.scalar().pick(&mut s.random_stream());
    let mut sig = s.point().mul(&x, None).marshal_binary().unwrap();
    sig.extend(x.marshal_binary().unwrap());
    for m in [&b"a message"[..], b"", b"another"] {
        assert!(schnorr::verify(s, &key, m, &sig).is_err(), "a signature nobody made");
    }
}
