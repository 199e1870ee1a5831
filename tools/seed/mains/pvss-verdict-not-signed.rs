mod k;
use k::*;
// on the way an approval is turned into a complaint, or the other way round
fn main() {
    for status in [true, false] {
        let mut w = ped(4, 3);
        let mut r = w.deal();
        r[2].status = status;
        ped_sign(&w.sec[2], &mut r[2]);
        let mut turned = r[2].clone();
        turned.status = !status;
        assert!(w.v[0].process_response(&turned).is_err(), "a verdict changed on the way was taken");
        assert!(w.dealer.process_response(&turned).is_err());
        assert!(w.v[0].process_response(&r[2]).is_ok(), "the authentic verdict no longer is");
    }
}
