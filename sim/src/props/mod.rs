mod chan;
mod crowd;
mod dkg;
mod embed;
mod ent;
mod flavor;
mod hostile;
mod known;
mod life;
mod rdkg;
mod shares;
mod sigs;
mod stream;
mod tsig;
mod vss;

use crate::runner::*;
use flavor::{Pedersen, Rabin};

fn scn(name: &'static str, runs: u64, f: ScnFn) -> Scenario {
    Scenario { name, runs, f }
}


const RULE: &str = "one evaluation is one simulated run (one seed = one tape of choices = one execution); it is non-trivial when at least one fault was injected in it, and distinct by the hash of its schedule: the sequence of (event, actor, actor) steps and of the faults fired between them";
const REAL_PROTO: &str = "all of kyber-rs that the participants run: dealing, verifying, aggregation, DKG and signing state machines, Schnorr signatures, Diffie-Hellman/HKDF/AES-GCM, serialisation (serde and bincode), Ed25519, XOF and random streams";
const STUB_PROTO: &str = "network and clock (simulated queue), the disk (snapshots of the serialised state held by the simulator), operating-system entropy (seeded generator behind the C symbols getrandom and syscall); dishonest participants and the wire attacker are the simulator's own code";
const REAL_LIB: &str = "the library code under test, with the crates below it";
const STUB_LIB: &str = "the channel, reader, writer, entropy source or stable storage around the calls, which the simulator plays and in which it injects the faults";
const ASSUME: &[&str] = &[
    "the group arithmetic of edwards25519 (points and scalars) is right: the oracles compute with it",
    "a node is one sequential state machine; its state survives a crash exactly as last serialised",
    "SHA-256, HKDF, AES-GCM, blake3 and bincode (crates) do what they say",
];

fn prop(id: &'static str, lib: bool, scenarios: Vec<Scenario>) -> Prop {
    Prop {
        id,
        scenarios,
        known: vec![],
        rule: RULE,
        real: if lib { REAL_LIB } else { REAL_PROTO },
        stub: if lib { STUB_LIB } else { STUB_PROTO },
        assumptions: ASSUME,
    }
}

pub fn all() -> Vec<Prop> {
    let mut v = list();
    // for work on one scenario
    let only = std::env::var("SIM_ONLY").unwrap_or_default();
    for p in &mut v {
        p.scenarios.retain(|s| s.name.contains(&only));
        p.known = match p.id {
            "C08" => vec![Known { id: "unanswered-complaint", f: known::unanswered_complaint }],
            "C10" => vec![
                Known { id: "unsigned-justification-pedersen", f: known::unsigned_justification::<Pedersen> },
                Known { id: "unsigned-justification-rabin", f: known::unsigned_justification::<Rabin> },
            ],
            _ => vec![],
        };
    }
    v
}

fn list() -> Vec<Prop> {
    vec![
        prop("C01", false, vec![
            scn("pedersen-honest-dealer", 3000, vss::honest::<Pedersen>),
            scn("pedersen-byzantine-dealer", 3000, vss::byzantine::<Pedersen>),
            scn("pedersen-large-group", 48, crowd::pedersen_sharing),
        ]),
        prop("C02", false, vec![
            scn("rabin-honest-dealer", 2500, vss::honest::<Rabin>),
            scn("rabin-byzantine-dealer", 2500, vss::byzantine::<Rabin>),
            scn("rabin-large-group", 48, crowd::rabin_sharing),
        ]),
        prop("C03", false, vec![
            scn("pedersen-complaints", 3000, vss::complaints::<Pedersen>),
            scn("rabin-complaints", 2500, vss::complaints::<Rabin>),
        ]),
        prop("C04", false, vec![scn("agreement", 1200, dkg::agreement), scn("adverse", 1200, dkg::adverse), scn("large-group", 32, crowd::pedersen_dkg)]),
        prop("C05", false, vec![scn("progress", 1800, dkg::progress), scn("large-group", 24, crowd::pedersen_dkg)]),
        prop("C06", false, vec![
            scn("quiet", 700, dkg::reshare_quiet),
            scn("byzantine", 700, dkg::reshare_byzantine),
            scn("adverse", 700, dkg::reshare_adverse),
            scn("large-groups", 32, crowd::reshare),
        ]),
        prop("C07", false, vec![scn("agreement", 1000, rdkg::agreement), scn("adverse", 900, rdkg::adverse), scn("large-group", 32, crowd::rabin_dkg)]),
        prop("C08", false, vec![scn("progress", 1500, rdkg::progress), scn("large-group", 24, crowd::rabin_dkg)]),
        prop("C09", false, vec![scn("signing", 1300, tsig::signing), scn("attacked", 600, tsig::attacked), scn("large-group", 120, crowd::signing)]),
        prop("C10", false, vec![
            scn("pedersen-sharing", 1500, vss::attacked::<Pedersen>),
            scn("rabin-sharing", 1200, vss::attacked::<Rabin>),
            scn("pedersen-dkg", 400, dkg::attacked),
            scn("pedersen-resharing", 150, dkg::reshare_attacked),
            scn("rabin-dkg", 300, rdkg::attacked),
            scn("signing", 500, tsig::attacked),
        ]),
        prop("C11", false, vec![
            scn("pedersen-sharing", 1000, vss::crashing::<Pedersen>),
            scn("rabin-sharing", 1000, vss::crashing::<Rabin>),
            scn("pedersen-dkg", 400, dkg::crashing),
            scn("pedersen-resharing", 150, dkg::reshare_crashing),
            scn("rabin-dkg", 300, rdkg::crashing),
            scn("signing", 400, tsig::crashing),
        ]),
        prop("C12", false, vec![
            scn("pedersen-sharing", 1200, hostile::sharing::<Pedersen>),
            scn("rabin-sharing", 1200, hostile::sharing::<Rabin>),
            scn("pedersen-dkg", 1200, hostile::pedersen_dkg),
            scn("rabin-dkg", 1600, hostile::rabin_dkg),
            scn("signer", 1000, hostile::signer),
            scn("bytes", 4000, hostile::bytes),
            scn("completes-pedersen-sharing", 300, vss::attacked::<Pedersen>),
            scn("completes-rabin-sharing", 300, vss::attacked::<Rabin>),
            scn("completes-pedersen-dkg", 120, dkg::attacked),
            scn("completes-pedersen-resharing", 60, dkg::reshare_attacked),
            scn("completes-rabin-dkg", 90, rdkg::attacked),
            scn("completes-signing", 200, tsig::attacked),
        ]),
        prop("C13", true, vec![
            scn("public-key-encryption", 3000, chan::ecies_channel),
            scn("authenticated-encryption", 3000, chan::aead_channel),
            scn("pedersen-deals", 1500, chan::deals::<Pedersen>),
            scn("rabin-deals", 1500, chan::deals::<Rabin>),
            scn("secrecy", 2000, chan::secrecy),
        ]),
        prop("C14", true, vec![
            scn("system-entropy", 2500, ent::system),
            scn("recovery", 1000, ent::recovery),
            scn("readers", 8000, ent::readers),
            scn("numbers", 2500, ent::numbers),
            scn("user-entropy", 1500, ent::user),
        ]),
        prop("C15", true, vec![scn("stream", 100000, stream::xof)]),
        prop("C16", true, vec![scn("media", 30000, stream::media), scn("decoding", 30000, stream::decoding), scn("integers", 15000, stream::integers)]),
        prop("C17", false, vec![
            scn("pedersen-sharing", 1000, vss::duplicated::<Pedersen>),
            scn("rabin-sharing", 1000, vss::duplicated::<Rabin>),
            scn("pedersen-dkg", 400, dkg::duplicated),
            scn("pedersen-resharing", 150, dkg::reshare_duplicated),
            scn("rabin-dkg", 300, rdkg::duplicated),
            scn("signing", 500, tsig::duplicated),
        ]),
        prop("C18", true, vec![scn("recovery", 6000, shares::recovery), scn("arithmetic", 4000, shares::arithmetic)]),
        prop("C19", true, vec![scn("channel", 15000, sigs::channel)]),
        prop("C20", false, vec![scn("pedersen", 700, life::pedersen), scn("rabin", 300, life::rabin), scn("pedersen-large-group", 24, crowd::pedersen_life), scn("rabin-large-group", 24, crowd::rabin_life)]),
        prop("C21", true, vec![scn("embedding", 3000, embed::embedding)]),
        prop("C22", false, vec![scn("pedersen", 700, life::pedersen_vault), scn("rabin", 300, life::rabin_vault)]),
    ]
}
