//! C13: sealed messages on a channel which corrupts, redirects, splices and
//! replays them; and what may be read in the messages, and in the printed form
//! of the participants' state, about their secrets.
use super::dkg::{made_key, ODeal, SimReader};
use super::flavor::{pri, Dl, Pedersen, Rabin, Vss};
use super::tsig;
use crate::core::*;
use crate::ensure;
use crate::entropy;
use crate::kit::*;
use crate::runner::guarded;
use kyber_rs::dh::{Dh, AEAD};
use kyber_rs::encrypt::ecies;
use kyber_rs::group::edwards25519::Curve;
use kyber_rs::share::dkg::pedersen::{new_dist_key_handler, Config};
use kyber_rs::share::dkg::rabin as rab;
use kyber_rs::sign::eddsa::EdDSA;
use kyber_rs::util::key::new_key_pair;
use kyber_rs::util::random::RandStream;
use kyber_rs::Random;

fn es<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}

/// the parts of a secret which must not be found anywhere
pub struct Secrets(Vec<(String, Vec<u8>)>);

impl Secrets {
    pub fn new() -> Secrets {
        Secrets(vec![])
    }
    pub fn add(&mut self, name: &str, v: &Sc) {
        self.0.push((name.to_string(), v.v.to_vec()));
    }
    pub fn add_bytes(&mut self, name: &str, v: &[u8]) {
        if v.len() >= 32 {
            self.0.push((name.to_string(), v.to_vec()));
        }
    }
    /// every scalar of a node's private state
    pub fn add_state<T: serde::Serialize>(&mut self, name: &str, x: &T) {
        fn walk(v: &serde_json::Value, out: &mut Vec<Vec<u8>>) {
            match v {
                serde_json::Value::Object(o) => {
                    if let (1, Some(serde_json::Value::Array(a))) = (o.len(), o.get("v")) {
                        if a.len() == 32 {
                            out.push(a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect());
                        }
                    }
                    o.values().for_each(|x| walk(x, out));
                }
                serde_json::Value::Array(a) => a.iter().for_each(|x| walk(x, out)),
                _ => (),
            }
        }
        let mut out = vec![];
        walk(&serde_json::to_value(x).expect("state as json"), &mut out);
        for b in out {
            // a zero or another small number is no secret
            if b[8..].iter().any(|x| *x != 0) && !self.0.iter().any(|x| x.1 == b) {
                self.0.push((name.to_string(), b));
            }
        }
    }
    fn hit(hay: &[u8], needle: &[u8]) -> bool {
        hay.windows(needle.len()).any(|w| w == needle)
    }
    pub fn in_bytes(&self, b: &[u8]) -> Option<&str> {
        self.0
            .iter()
            .find(|(_, s)| Self::hit(b, &s[..12]) || Self::hit(b, &s[16..28]))
            .map(|x| x.0.as_str())
    }
    pub fn in_text(&self, t: &str) -> Option<&str> {
        let low = t.to_lowercase();
        let squeezed: String = low.chars().filter(|c| !c.is_whitespace()).collect();
        self.0
            .iter()
            .find(|(_, s)| {
                [&s[..12], &s[16..28]].iter().any(|w| {
                    let mut r = w.to_vec();
                    r.reverse();
                    let dec: Vec<String> = w.iter().map(|x| x.to_string()).collect();
                    low.contains(&hex::encode(w)) || low.contains(&hex::encode(&r)) || squeezed.contains(&format!(",{},", dec.join(","))) || squeezed.contains(&format!("[{},", dec.join(",")))
                })
            })
            .map(|x| x.0.as_str())
    }
}

/// two sealed messages must not share their key stream
fn no_reuse(what: &str, a: (&[u8], &[u8]), b: (&[u8], &[u8])) -> Res {
    let n = a.0.len().min(b.0.len());
    if n < 16 {
        return Ok(());
    }
    let m: Vec<u8> = (0..n).map(|i| a.0[i] ^ b.0[i]).collect();
    let c: Vec<u8> = (0..n.min(a.1.len()).min(b.1.len())).map(|i| a.1[i] ^ b.1[i]).collect();
    ensure!(c.len() < n || m != c, "a key stream used twice", "{what}");
    Ok(())
}

struct Sealed {
    to: usize,
    msg: Vec<u8>,
    ct: Vec<u8>,
}

/// public-key encryption
pub fn ecies_channel(cx: &mut Cx) -> Res {
    let s = suite();
    let n = cx.people(2, 4);
    let (k, p) = keypairs(n);
    let mut sent: Vec<Sealed> = vec![];
    let steps = cx.range(2, 8);
    for step in 0..steps {
        cx.st.sim_ms += 10;
        let to = cx.below(n);
        let len = cx.pick(&[16usize, 0, 1, 15, 17, 32, 100, 1000, 5000]);
        let len = cx.big(len);
        let msg = if cx.chance(300) && !sent.is_empty() { sent[0].msg.clone() } else { cx.bytes(len) };
        if cx.fault("entropy.shaky", 200) {
            entropy::set_mode(entropy::Mode::Shaky);
        }
        let ct = ecies::encrypt(s, p[to].clone(), &msg);
        entropy::set_mode(entropy::Mode::Plain);
        let ct = match ct {
            Ok(c) => c,
            Err(e) => return violation("a message could not be encrypted", es(e)),
        };
        cx.step("send", step, to);
        ensure!(msg.len() < 8 || !ct.windows(8).any(|w| w == &msg[..8]), "the plaintext shows in the ciphertext", "{} bytes", msg.len());
        for o in &sent {
            ensure!(o.ct[..32] != ct[..32], "an ephemeral key used twice", "messages to {} and {to}", o.to);
            no_reuse("two encrypted messages", (&o.msg, &o.ct[32..]), (&msg, &ct[32..]))?;
        }
        sent.push(Sealed { to, msg, ct });
        // the channel
        let tries = cx.range(1, 3);
        for _ in 0..tries {
            let i = cx.below(sent.len());
            let mut at = sent[i].to;
            let mut ct = sent[i].ct.clone();
            match cx.below(8) {
                0 | 1 => (),
                2 | 3 => {
                    cx.fired("net.corrupt");
                    ct = corrupt(cx, &ct);
                }
                4 => {
                    cx.fired("net.redirect");
                    at = cx.below(n);
                }
                5 => {
                    cx.fired("net.splice");
                    let j = cx.below(sent.len());
                    let cut = cx.pick(&[32usize, 31, 33, 48]).min(ct.len()).min(sent[j].ct.len());
                    ct = [&ct[..cut], &sent[j].ct[cut..]].concat();
                }
                6 => {
                    cx.fired("net.truncate");
                    let l = cx.pick(&[0usize, 1, 31, 32, 33, 47, 48]).min(ct.len());
                    ct.truncate(l);
                }
                _ => {
                    cx.fired("net.foreign-ephemeral");
                    let e = pbytes(&g(&rand_scalar()));
                    ct[..32].copy_from_slice(&e);
                }
            }
            let want = sent.iter().find(|o| o.ct == ct && o.to == at).map(|o| o.msg.clone());
            let got = guarded(|| ecies::decrypt(s, k[at].clone(), &ct));
            let got = match got {
                Ok(r) => r.ok(),
                Err(p) => return violation("decrypting panics", p),
            };
            cx.step("deliver", i, at);
            cx.st.checks += 1;
            cx.ev(format!("message {i} of {} bytes at {at}: authentic={} -> {}", sent[i].msg.len(), want.is_some(), got.is_some()));
            cx.probe(if want.is_some() { "ecies opened" } else { "ecies refused" });
            match (&want, &got) {
                (Some(a), Some(b)) => ensure!(a == b, "decryption gives another message", "{} and {} bytes", a.len(), b.len()),
                (None, Some(_)) => return violation("an altered or foreign ciphertext was opened", format!("message {i} at {at}")),
                (Some(_), None) => return violation("a genuine ciphertext was not opened", format!("message {i} at {at}")),
                _ => (),
            }
            cx.state(h64(&[i as u8, at as u8, want.is_some() as u8, ct.len() as u8]));
        }
    }
    Ok(())
}

/// authenticated encryption under a shared key, with its context
pub fn aead_channel(cx: &mut Cx) -> Res {
    let s = suite();
    let (k, p) = keypairs(3);
    // both ends of an exchange get the same key
    let a = S::dh_exchange(s, k[0].clone(), p[1].clone());
    let b = S::dh_exchange(s, k[1].clone(), p[0].clone());
    ensure!(pbytes(&a) == pbytes(&b), "the two ends of an exchange derive other keys", "");
    let o = S::dh_exchange(s, k[2].clone(), p[0].clone());
    ensure!(pbytes(&a) != pbytes(&o), "another party derives the same key", "");
    let keys = [a, o];
    let ctxs: Vec<Vec<u8>> = vec![b"context".to_vec(), b"contexu".to_vec(), vec![], cx.bytes(40)];
    let aads: Vec<Option<Vec<u8>>> = vec![Some(b"header".to_vec()), Some(b"headers".to_vec()), None, Some(cx.bytes(70))];
    let steps = cx.range(2, 10);
    for _ in 0..steps {
        cx.st.sim_ms += 10;
        let (ki, ci, ai) = (cx.below(2), cx.below(4), cx.below(4));
        let len = cx.pick(&[16usize, 0, 1, 33, 700]);
        let len = cx.big(len);
        let msg = cx.bytes(len);
        let mut nonce = [0u8; 12];
        nonce.copy_from_slice(&cx.bytes(12));
        let one_shot = ai != 2 && aads[ai].as_deref() == Some(&ctxs[ci]);
        let gcm = AEAD::<S>::new(keys[ki].clone(), &ctxs[ci]).map_err(|e| Violation { kind: "no AEAD".into(), detail: es(e) })?;
        let mut buf = vec![0u8; msg.len() + 16];
        let dst = if cx.chance(300) { Some(&mut buf[..]) } else { None };
        let used = dst.is_some();
        let ct = match gcm.seal(dst, &nonce, &msg, aads[ai].as_deref()) {
            Ok(c) => c,
            Err(e) => return violation("a message could not be sealed", es(e)),
        };
        ensure!(!used || buf == ct, "the buffer given does not hold the sealed message", "{} bytes", msg.len());
        ensure!(ct.len() == msg.len() + 16, "a sealed message has another length", "{} for {}", ct.len(), msg.len());
        // delivery
        let (mut kj, mut cj, mut aj, mut n2, mut c2) = (ki, ci, ai, nonce, ct.clone());
        match cx.below(7) {
            0 => (),
            1 => {
                cx.fired("net.other-key");
                kj = 1 - ki;
            }
            2 => {
                cx.fired("net.other-context");
                cj = (ci + 1 + cx.below(3)) % 4;
            }
            3 => {
                cx.fired("net.other-header");
                aj = (ai + 1 + cx.below(3)) % 4;
            }
            4 => {
                cx.fired("net.other-nonce");
                n2[cx.below(12)] ^= 1 << cx.below(8);
            }
            _ => {
                cx.fired("net.corrupt");
                c2 = corrupt(cx, &ct);
            }
        }
        let want = (kj, cj, aj) == (ki, ci, ai) && n2 == nonce && c2 == ct;
        let gcm2 = AEAD::<S>::new(keys[kj].clone(), &ctxs[cj]).unwrap();
        let got = match guarded(|| gcm2.open(None, &n2, &c2, aads[aj].as_deref())) {
            Ok(r) => r.ok(),
            Err(p) => return violation("opening panics", p),
        };
        cx.step("open", kj, cj);
        cx.st.checks += 1;
        cx.ev(format!("key {ki}->{kj} context {ci}->{cj} header {ai}->{aj}: {want} -> {}", got.is_some()));
        ensure!(got.is_some() == want, if want { "a genuine ciphertext was not opened" } else { "an altered or foreign ciphertext was opened" }, "key {ki}->{kj} context {ci}->{cj} header {ai}->{aj}");
        ensure!(!want || got.as_ref() == Some(&msg), "decryption gives another message", "{} bytes", msg.len());
        let _ = one_shot;
        // and the one-shot form, whose header is its context
        let e = match S::encrypt(&keys[ki], &ctxs[ci], &nonce, &msg) {
            Ok(e) => e,
            Err(e) => return violation("a message could not be sealed", es(e)),
        };
        let same = cj == ci && kj == ki && n2 == nonce;
        let got = S::decrypt(&keys[kj], &ctxs[cj], &n2, &e).ok();
        ensure!(got.is_some() == same, if same { "a genuine ciphertext was not opened" } else { "an altered or foreign ciphertext was opened" }, "one-shot: key {ki}->{kj} context {ci}->{cj}");
        ensure!(!same || got == Some(msg), "decryption gives another message", "one-shot");
        cx.state(h64(&[ki as u8, kj as u8, ci as u8, cj as u8, ai as u8, aj as u8, want as u8]));
    }
    Ok(())
}

/// encrypted deals among several dealers, groups and recipients
pub fn deals<V: Vss>(cx: &mut Cx) -> Res {
    let n = cx.people(2, 4);
    let t = cx.range(2, n);
    let (long, vs) = keypairs(n);
    let (dk, dp) = keypairs(2);
    let mut other = vs.clone();
    other.reverse();
    let groups = [vs, other];
    let keys: Vec<Vec<Sc>> = vec![long.clone(), long.iter().rev().cloned().collect()];
    // (dealer key, group, sealed deals, plain deals)
    let mut all: Vec<(usize, usize, Vec<EncDeal>, Vec<Dl>)> = vec![];
    let mut secrets = Secrets::new();
    for (i, k) in long.iter().enumerate() {
        secrets.add(&format!("the key of verifier {i}"), k);
    }
    for (i, k) in dk.iter().enumerate() {
        secrets.add(&format!("the key of dealer {i}"), k);
    }
    for (d, gr) in [(0, 0), (0, 0), (1, 0), (0, 1)] {
        let sec = rand_scalar();
        secrets.add("the dealt secret", &sec);
        let mut dealer = V::dealer(&dk[d], &sec, &groups[gr], t).expect("dealer");
        let plain: Vec<Dl> = (0..n).map(|i| V::plain(&mut dealer, i)).collect();
        for x in &plain {
            secrets.add(&format!("share {}", x.i), &x.v);
            if let Some((_, r)) = &x.rnd {
                secrets.add(&format!("blinding share {}", x.i), r);
            }
        }
        if cx.fault("entropy.shaky", 150) {
            entropy::set_mode(entropy::Mode::Shaky);
        }
        let sealed: Vec<EncDeal> = (0..n).map(|i| dec(&V::enc_deal(&dealer, i).expect("encrypt")).unwrap()).collect();
        entropy::set_mode(entropy::Mode::Plain);
        if let Some(w) = secrets.in_text(&V::show_dealer(&dealer)) {
            return violation("a secret is printed", format!("{w} in the dealer"));
        }
        all.push((d, gr, sealed, plain));
    }
    let flat: Vec<(&EncDeal, &Dl)> = all.iter().flat_map(|x| x.2.iter().zip(&x.3)).collect();
    let plain_of = |d: &Dl| if V::RABIN { enc(&super::flavor::dl_r(d)) } else { enc(&super::flavor::dl_p(d)) };
    for (i, a) in flat.iter().enumerate() {
        if let Some(w) = secrets.in_bytes(&enc(a.0)) {
            return violation("a secret is sent in the clear", format!("{w} in an encrypted deal"));
        }
        for b in &flat[..i] {
            ensure!(pbytes(&a.0.dhkey) != pbytes(&b.0.dhkey), "an ephemeral key used twice", "in two encrypted deals");
            no_reuse("two encrypted deals", (&plain_of(a.1), &a.0.cipher), (&plain_of(b.1), &b.0.cipher))?;
        }
    }
    let steps = cx.range(3, 8);
    for _ in 0..steps {
        cx.st.sim_ms += 10;
        let (x, i) = (cx.below(4), cx.below(n));
        let mut e = all[x].2[i].clone();
        let (y, j) = (cx.below(4), cx.below(n));
        let o = &all[y].2[j];
        // to whom
        let (mut d, mut gr, mut at) = (all[x].0, all[x].1, i);
        match cx.below(4) {
            0 | 1 => (),
            2 => {
                cx.fired("net.redirect");
                at = cx.below(n);
            }
            _ => {
                cx.fired("net.other-session");
                d = cx.below(2);
                gr = cx.below(2);
                at = cx.below(n);
            }
        }
        match cx.below(10) {
            0 => {
                cx.fired("net.splice");
                e.dhkey = o.dhkey.clone();
            }
            1 => {
                cx.fired("net.splice");
                e.dhkey = o.dhkey.clone();
                e.signature = o.signature.clone();
            }
            2 => {
                cx.fired("net.splice");
                e.cipher = o.cipher.clone();
            }
            3 => {
                cx.fired("net.corrupt");
                e.cipher = corrupt(cx, &e.cipher);
            }
            4 => {
                cx.fired("net.corrupt");
                e.signature = corrupt(cx, &e.signature);
            }
            5 => {
                cx.fired("net.corrupt");
                e.nonce = corrupt(cx, &e.nonce);
            }
            6 => {
                // an attacker's own key: a deal of its own making
                cx.fired("attack.own-dhkey");
                let k = rand_scalar();
                e.dhkey = g(&k);
                e.signature = sign(&k, &pbytes(&e.dhkey));
            }
            7 => {
                // another dealer puts its name to it
                cx.fired("attack.claimed-deal");
                d = 1 - all[x].0;
                gr = all[x].1;
                if cx.chance(800) {
                    at = i;
                }
                e.signature = sign(&dk[d], &pbytes(&e.dhkey));
            }
            _ => (),
        }
        let mut v = V::verifier(&keys[gr][at], &dp[d], &groups[gr]).expect("verifier");
        let want = all.iter().find_map(|a| {
            let c = &a.2[at];
            let same = pbytes(&c.dhkey) == pbytes(&e.dhkey) && c.signature == e.signature && c.nonce == e.nonce && c.cipher == e.cipher;
            (a.0 == d && a.1 == gr && same).then(|| a.3[at].clone())
        });
        let got = match guarded(|| V::v_deal(&mut v, &enc(&e))) {
            Ok(r) => r,
            Err(p) => return violation("a deal makes its recipient panic", p),
        };
        cx.step("deal", x * 8 + i, d * 16 + gr * 8 + at);
        cx.st.checks += 1;
        cx.ev(format!("deal {i} of session {x} at {at} of dealer {d}, group {gr}: {} -> {}", want.is_some(), got.is_ok()));
        cx.probe(if want.is_some() { "deal opened" } else { "deal refused" });
        ensure!(
            got.is_ok() == want.is_some(),
            if want.is_some() { "a genuine deal was not opened" } else { "an altered or foreign deal was opened" },
            "deal {i} of session {x} at {at} of dealer {d}, group {gr}: {:?}",
            got.as_ref().err()
        );
        if let Ok(r) = &got {
            if let Some(w) = secrets.in_bytes(r) {
                return violation("a secret is sent in the clear", format!("{w} in a response"));
            }
            let r: Resp = dec(r).unwrap();
            ensure!(r.ok, "a genuine deal was complained about", "deal {i} of session {x}");
        }
        if let Some(w) = secrets.in_text(&V::show_ver(&v)) {
            return violation("a secret is printed", format!("{w} in the verifier"));
        }
        cx.state(h64(&[x as u8, i as u8, d as u8, gr as u8, at as u8, want.is_some() as u8]));
    }
    Ok(())
}

fn silent(secrets: &Secrets, what: &str, text: String) -> Res {
    match secrets.in_text(&text) {
        Some(w) => violation("a secret is printed", format!("{w} in {what}")),
        None => Ok(()),
    }
}

/// whatever is printed or sent, with complaints going on, no secret shows
/// which the protocol does not open
pub fn secrecy(cx: &mut Cx) -> Res {
    let n = cx.people(3, 4);
    let t = cx.range(2, n);
    let (long, pubs) = keypairs(n);
    let mut secrets = Secrets::new();
    for (i, k) in long.iter().enumerate() {
        secrets.add(&format!("the key of node {i}"), k);
    }
    cx.st.sim_ms += 100;
    let which = cx.below(4);
    cx.step("secrecy", which, n);
    match which {
        0 => {
            let (_, shares, sec) = made_key(n, t, None);
            secrets.add("the shared secret", &sec);
            for s in &shares {
                secrets.add("a key share", &s.share.v);
                for c in &s.private_poly {
                    secrets.add("a coefficient", c);
                }
            }
            // a resharing among the same nodes
            let mut ds = vec![];
            for i in 0..n {
                let c = Config::<S, SimReader> {
                    suite: suite(),
                    longterm: long[i].clone(),
                    old_nodes: pubs.clone(),
                    new_nodes: pubs.clone(),
                    share: Some(shares[i].clone()),
                    threshold: t,
                    old_threshold: t,
                    ..Default::default()
                };
                silent(&secrets, "the configuration", format!("{c:?} {c}"))?;
                ds.push(new_dist_key_handler(c).expect("handler"));
                silent(&secrets, "the key share", format!("{:?} {}", shares[i], shares[i]))?;
                silent(&secrets, "a private share", format!("{:?} {}", shares[i].share, shares[i].share))?;
            }
            pedersen(cx, &mut ds, &mut secrets)?;
        }
        1 => {
            let mut ds = vec![];
            for i in 0..n {
                let c = Config::<S, SimReader> {
                    suite: suite(),
                    longterm: long[i].clone(),
                    new_nodes: pubs.clone(),
                    threshold: t,
                    ..Default::default()
                };
                ds.push(new_dist_key_handler(c).expect("handler"));
            }
            pedersen(cx, &mut ds, &mut secrets)?;
        }
        2 => {
            let mut ds: Vec<rab::DistKeyGenerator<S>> =
                (0..n).map(|i| rab::new_dist_key_generator(&suite(), &long[i], &pubs, t).expect("dkg")).collect();
            rabin(cx, &mut ds, &mut secrets)?;
        }
        _ => {
            // signing
            let (lc, lk, lv, ls) = tsig::shared::<tsig::PDks>(n, t);
            let (rc, rk, rv, rs) = tsig::shared::<tsig::PDks>(n, t);
            let _ = (lc, rc);
            secrets.add("the signing key", &ls);
            secrets.add("the signing nonce", &rs);
            for i in 0..n {
                secrets.add("a key share", &lv[i]);
                secrets.add("a nonce share", &rv[i]);
            }
            let msg = cx.bytes(20);
            let mut d: Vec<_> = (0..n).map(|i| kyber_rs::sign::dss::new_dss(suite(), &long[i], &pubs, &lk[i], &rk[i], &msg, t).expect("dss")).collect();
            let parts: Vec<_> = d.iter_mut().map(|x| x.partial_sig().expect("partial")).collect();
            for (j, p) in parts.iter().enumerate() {
                if let Some(w) = secrets.in_bytes(&enc(p)) {
                    return violation("a secret is sent in the clear", format!("{w} in a partial signature"));
                }
                let b = enc(p);
                let x: tsig::Part = dec(&b).unwrap();
                silent(&secrets, "a partial signature", format!("{p:?}"))?;
                let _ = x;
                if j != 0 && !cx.fault("net.drop", 150) {
                    let _ = d[0].process_partial_sig(cast(p));
                }
            }
            for x in &d {
                silent(&secrets, "the signer", format!("{x:?} {x}"))?;
            }
            let kp = new_key_pair(&suite()).expect("pair");
            let e = EdDSA::<Curve>::new(&mut RandStream::default()).expect("eddsa");
            secrets.add("the pair's private key", &kp.private);
            secrets.add("the signer's private key", &e.secret);
            secrets.add_bytes("the signer's seed", &e.seed);
            secrets.add_bytes("the signer's prefix", &e.prefix);
            silent(&secrets, "a key pair", format!("{kp:?} {kp}"))?;
            silent(&secrets, "an EdDSA signer", format!("{e:?}"))?;
            let sig = e.sign(&msg).expect("sign");
            if let Some(w) = secrets.in_bytes(&sig) {
                return violation("a secret is sent in the clear", format!("{w} in a signature"));
            }
            if let Some(w) = secrets.in_bytes(&sign(&kp.private, &msg)) {
                return violation("a secret is sent in the clear", format!("{w} in a signature"));
            }
        }
    }
    cx.st.checks += 1;
    Ok(())
}

type Pd = super::dkg::Dkg;

fn pedersen(cx: &mut Cx, ds: &mut [Pd], secrets: &mut Secrets) -> Res {
    use kyber_rs::share::dkg::pedersen::structs as st;
    let n = ds.len();
    let mut queue: Vec<(usize, usize, Vec<u8>)> = vec![];
    for i in 0..n {
        let m = ds[i].deals().map_err(|e| Violation { kind: "no deals".into(), detail: es(e) })?;
        let mut v: Vec<(usize, st::Deal<P>)> = m.into_iter().collect();
        v.sort_by_key(|x| x.0);
        for (j, d) in v {
            queue.push((j, i, enc(&d)));
        }
    }
    for i in 0..n {
        secrets.add_state("a generator's secret", &ds[i]);
    }
    for i in 0..n {
        silent(secrets, "the generator", format!("{:?} {}", ds[i], ds[i]))?;
    }
    cx.shuffle(&mut queue);
    let mut resps = vec![];
    for (to, from, b) in queue {
        if let Some(w) = secrets.in_bytes(&b) {
            return violation("a secret is sent in the clear", format!("{w} in a deal of {from}"));
        }
        if cx.fault("net.drop", 80) {
            continue;
        }
        let mut o: ODeal = dec(&b).unwrap();
        if cx.fault("net.corrupt", 60) {
            o.deal.cipher = corrupt(cx, &o.deal.cipher);
        }
        let d: st::Deal<P> = cast(&o);
        if let Ok(mut r) = ds[to].process_deal(&d) {
            let mut x: super::dkg::OResp = cast(&r);
            // a false complaint opens the complainer's own share
            let k = x.response.index as usize;
            let lie = cx.fault("byz.false-complaint", 150);
            if lie && k < n {
                x.response.ok = false;
                r = cast(&x);
                let lk = ds[to].long.clone();
                x.response.signature = sign(&lk, &Pedersen::resp_hash(&x.response));
                r = { let _ = r; cast(&x) };
            }
            resps.push((to, lie, enc(&r)));
        }
    }
    for (from, lie, b) in &resps {
        if let Some(w) = secrets.in_bytes(b) {
            return violation("a secret is sent in the clear", format!("{w} in a response of {from}"));
        }
        for j in 0..n {
            if j == *from {
                continue;
            }
            let r: st::Response = dec(b).unwrap();
            if let Ok(Some(j2)) = ds[j].process_response(&r) {
                let o: super::dkg::OJust = cast(&j2);
                ensure!(*lie, "a deal was opened without a complaint", "dealer {j}");
                ensure!(
                    o.justification.deal.share.i == *from,
                    "another deal than the complainer's was opened",
                    "dealer {j}, complaint of {from}: deal {}",
                    o.justification.deal.share.i
                );
                silent(secrets, "a justification", format!("{:?} {}", j2, j2))?;
                cx.probe("deal opened by complaint");
            }
        }
    }
    for d in ds.iter_mut() {
        d.set_timeout();
        if let Ok(k) = d.dist_key_share() {
            secrets.add("the final share", &k.share.v);
            silent(secrets, "the final key share", format!("{k:?} {k}"))?;
            cx.probe("key share made");
        }
        secrets.add_state("a generator's secret", d);
        silent(secrets, "the generator", format!("{d:?} {d}"))?;
    }
    Ok(())
}

fn rabin(cx: &mut Cx, ds: &mut [rab::DistKeyGenerator<S>], secrets: &mut Secrets) -> Res {
    let n = ds.len();
    let mut queue: Vec<(usize, usize, Vec<u8>)> = vec![];
    for i in 0..n {
        let m = ds[i].deals().map_err(|e| Violation { kind: "no deals".into(), detail: es(e) })?;
        let mut v: Vec<_> = m.into_iter().collect();
        v.sort_by_key(|x| x.0);
        for (j, d) in v {
            queue.push((j as usize, i, enc(&d)));
        }
        secrets.add_state("a generator's secret", &ds[i]);
        silent(secrets, "the generator", format!("{:?} {}", ds[i], ds[i]))?;
    }
    cx.shuffle(&mut queue);
    let mut resps = vec![];
    for (to, from, b) in queue {
        if let Some(w) = secrets.in_bytes(&b) {
            return violation("a secret is sent in the clear", format!("{w} in a deal of {from}"));
        }
        if cx.fault("net.drop", 40) {
            continue;
        }
        let d: rab::Deal<P> = dec(&b).unwrap();
        if let Ok(r) = ds[to].process_deal(&d) {
            resps.push((to, enc(&r)));
        }
    }
    for (from, b) in &resps {
        if let Some(w) = secrets.in_bytes(b) {
            return violation("a secret is sent in the clear", format!("{w} in a response of {from}"));
        }
        for j in 0..n {
            if j != *from {
                let r: rab::Response = dec(b).unwrap();
                if let Ok(Some(_)) = ds[j].process_response(&r) {
                    return violation("a deal was opened without a complaint", format!("dealer {j}"));
                }
            }
        }
    }
    let mut scs = vec![];
    for (i, d) in ds.iter_mut().enumerate() {
        d.set_timeout();
        silent(secrets, "the generator", format!("{d:?} {d}"))?;
        if let Ok(s) = d.secret_commits() {
            let b = enc(&s);
            if let Some(w) = secrets.in_bytes(&b) {
                return violation("a secret is sent in the clear", format!("{w} in the commitments of {i}"));
            }
            scs.push((i, b));
        }
    }
    for (i, b) in &scs {
        for j in 0..n {
            if j != *i {
                let s: rab::SecretCommits<S> = dec(b).unwrap();
                if let Ok(Some(_)) = ds[j].process_secret_commits(&s) {
                    return violation("a deal was opened without a complaint", format!("node {j} about {i}"));
                }
            }
        }
    }
    for d in ds.iter_mut() {
        if let Ok(k) = d.dist_key_share() {
            secrets.add("the final share", &k.share.v);
            silent(secrets, "the final key share", format!("{k:?} {k}"))?;
            cx.probe("key share made");
        }
        secrets.add_state("a generator's secret", d);
        silent(secrets, "the generator", format!("{d:?} {d}"))?;
    }
    let _ = Rabin::RABIN;
    let _ = pri(0, scalar(0));
    let _ = suite().random_stream();
    Ok(())
}
