mod k;
use k::*;
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::group::edwards25519::Curve;
use kyber_rs::sign::eddsa::EdDSA;
use kyber_rs::util::random::RandStream;
// a restored signer signs as it did
fn main() {
    let _ = suite();
    let a = EdDSA::<Curve>::new(&mut RandStream::default()).unwrap();
    let b = EdDSA::<Curve>::new(&mut RandStream::default()).unwrap();
    let saved = a.marshal_binary().unwrap();
    for mut into in [EdDSA::<Curve>::default(), b] {
        into.unmarshal_binary(&saved).unwrap();
        assert!(into.sign(b"msg").unwrap() == a.sign(b"msg").unwrap(), "the restored signer signs differently");
    }
}
