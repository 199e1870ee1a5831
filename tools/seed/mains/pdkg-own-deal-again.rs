mod k;
use k::*;
// stopped after making its deals, started again: it makes the same deals again
fn main() {
    let (_, mut d) = pdkgs(4, 3);
    let first = d[0].deals().unwrap();
    let mut again = restart(&d[0]);
    assert!(again.deals().is_ok() == d[0].deals().is_ok());
    let ds = again.deals().expect("the restarted member cannot give its deals");
    assert!(ds.len() == first.len());
    for j in 1..4 {
        assert!(d[j].process_deal(&ds[&j]).unwrap().response.status);
    }
}
