mod k;
use k::*;
// the same entropy, and nothing else: the same polynomial
fn main() {
    for (n, t) in [(4, 3), (5, 5), (3, 3), (6, 4)] {
        let (sec, publ) = pairs(n);
        let make = || {
            let c = pdkg::Config {
                suite: suite(),
                longterm: sec[0],
                old_nodes: vec![],
                public_coeffs: None,
                new_nodes: publ.clone(),
                share: None,
                threshold: t,
                old_threshold: 0,
                reader: Some(Rd(7)),
                user_reader_only: true,
            };
            let d: PD = pdkg::new_dist_key_handler(c).unwrap();
            d
        };
        assert!(field(&make().dealer, "secret") == field(&make().dealer, "secret"),  "n {n} t {t}: more than the given entropy went in");
    }
}
