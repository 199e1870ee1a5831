//! C21: data embedded in points, with streams of all kinds and over media.
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::runner::guarded;
use kyber_rs::cipher::{Stream, StreamError};
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::util::random::RandStream;
use kyber_rs::{Group, Point, Scalar, XOFFactory};

/// a stream of few varying bytes, which may end
struct Odd {
    left: usize,
    state: u64,
    /// bytes of each block that vary
    vary: usize,
    fill: u8,
}

impl Stream for Odd {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        if self.left == 0 {
            return Err(StreamError::ReadersFailure);
        }
        self.left -= 1;
        for (i, d) in dst.iter_mut().enumerate() {
            // the end of a block is what embedding leaves random
            let v = if i + self.vary >= src.len() {
                self.state = mix(self.state);
                self.state as u8
            } else {
                self.fill
            };
            *d = src.get(i).copied().unwrap_or(0) ^ v;
        }
        Ok(())
    }
}

fn prime_order(p: &P) -> bool {
    suite().point().mul(&Sc { v: weird::order() }, Some(p)) == null()
}

pub fn embedding(cx: &mut Cx) -> Res {
    let s = suite();
    let cap = s.point().embed_len();
    ensure!((1..=30).contains(&cap), "an odd capacity", "{cap}");
    for _ in 0..cx.range(1, 4) {
        cx.st.sim_ms += 10;
        let len = cx.pick(&[5usize, 0, 1, cap - 1, cap, cap + 1, 30, 31, 32, 33, 64, 100, 5000]);
        let data = match cx.below(4) {
            0 => vec![0; len],
            1 => vec![0xff; len],
            _ => cx.bytes(len),
        };
        let kind = cx.below(5);
        cx.step("embed", len % 251, kind);
        let mut calls = usize::MAX;
        let p = match kind {
            0 => guarded(|| s.point().embed(Some(&data), &mut RandStream::default())),
            1 => {
                let seed = cx.bytes(8);
                guarded(|| s.point().embed(Some(&data), &mut s.xof(Some(&seed))))
            }
            2 => {
                cx.fired("stream.weak");
                let (state, fill) = (cx.word(), cx.pick(&[0u8, 0xff, 0x55]));
                let vary = cx.range(2, 32);
                let mut o = Odd { left: usize::MAX, state, vary, fill };
                // what is left random by the data must be enough
                if len.min(cap) + 1 + 2 > 32 {
                    continue;
                }
                guarded(|| s.point().embed(Some(&data), &mut o))
            }
            3 => {
                // on top of another value
                guarded(|| g(&rand_scalar()).embed(Some(&data), &mut RandStream::default()))
            }
            _ => {
                calls = cx.below(6);
                let mut o = Odd { left: calls, state: cx.word(), vary: 32, fill: 0 };
                let r = guarded(|| s.point().embed(Some(&data), &mut o));
                if o.left == 0 && r.is_err() {
                    cx.fired("stream.ended");
                    cx.probe("no point without randomness");
                    continue;
                }
                r
            }
        };
        let p = match p {
            Ok(p) => p,
            Err(e) => return violation("data could not be embedded", format!("{len} bytes, stream {kind}: {e}")),
        };
        ensure!(calls > 0, "a point from no randomness", "{len} bytes");
        let want = &data[..len.min(cap)];
        let back = |p: &P, how: &str| -> Res {
            match guarded(|| p.data()) {
                Ok(Ok(d)) => ensure!(d == want, "other data came back", "{len} bytes, {how}"),
                Ok(Err(e)) => return violation("the data did not come back", format!("{len} bytes, {how}: {e}")),
                Err(e) => return violation("extracting data panics", e),
            }
            Ok(())
        };
        back(&p, "at once")?;
        ensure!(prime_order(&p), "a point outside the group", "{len} bytes");
        // carried
        let b = pbytes(&p);
        match point_from(&b) {
            Some(q) => back(&q, "decoded")?,
            None => return violation("the data did not come back", "not decoded".into()),
        }
        match dec::<P>(&enc(&p)) {
            Some(q) => back(&q, "loaded")?,
            None => return violation("the data did not come back", "not loaded".into()),
        }
        // encrypted as a group element: masked and unmasked
        let k = rand_scalar();
        let mask = s.point().mul(&k, Some(&g(&rand_scalar())));
        let c = add(&p, &mask);
        back(&s.point().sub(&c, &mask), "unmasked")?;
        let m = s.point().mul(&k, Some(&p));
        back(&s.point().mul(&inv(&k), Some(&m)), "divided")?;
        cx.state(h64(&b));
        cx.st.checks += 5;
        // damaged on the way
        if cx.fault("wire.corrupted", 600) {
            let bad = corrupt(cx, &b);
            let mut q = s.point();
            if let Ok(Ok(_)) = guarded(|| q.unmarshal_binary(&bad)) {
                match guarded(|| q.data()) {
                    Ok(Ok(d)) => {
                        ensure!(d.len() <= cap, "more data than fits", "{}", d.len());
                        ensure!(d.len() == bad[0] as usize && d[..] == bad[1..1 + d.len()] || bad[31] & 0x7f == 0x7f, "other data came back", "of a damaged point");
                    }
                    Ok(Err(_)) => ensure!(bad[0] as usize > cap || bad[31] & 0x7f == 0x7f, "the data did not come back", "of a damaged point"),
                    Err(e) => return violation("extracting data panics", e),
                }
            }
        }
        // a picked point is a random one of the group
        let a = s.point().pick(&mut RandStream::default());
        let b = s.point().pick(&mut RandStream::default());
        ensure!(a != b && a != null() && prime_order(&a) && prime_order(&b), "a picked point", "{a} {b}");
        let r = guarded(|| a.data().map(|d| d.len()).unwrap_or(0));
        ensure!(r.as_ref().map(|n| *n <= cap).unwrap_or(false), "extracting data panics", "{r:?}");
        let sc = s.scalar().pick(&mut RandStream::default());
        let sd = s.scalar().pick(&mut RandStream::default());
        ensure!(sc != sd && sc.marshal_binary().map(|x| x == sc.v).unwrap_or(false), "a picked scalar", "{sc}");
    }
    Ok(())
}
