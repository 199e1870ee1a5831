//! C15: the extendable-output function against a one-write-one-read model.
//! C16: points and scalars over media which take and give bytes as they like.
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::runner::guarded;
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling};
use kyber_rs::group::edwards25519::Curve;
use kyber_rs::group::integer_field::integer::{ByteOrder, Int};
use kyber_rs::util::key::new_key_pair;
use kyber_rs::{Group, Point, Random, Scalar, XOFFactory, XOF};
use num_bigint_dig::{BigInt, BigUint};
use std::io::{ErrorKind, Read, Write};

// ---------------------------------------------------------------- C15

/// what was absorbed, and how much of the stream is gone
#[derive(Clone)]
struct Model {
    data: Vec<u8>,
    reading: bool,
    pos: u64,
}

impl Model {
    fn peek(&self, n: usize) -> Vec<u8> {
        let mut r = blake3::Hasher::new().update(&self.data).finalize_xof();
        r.set_position(self.pos);
        let mut v = vec![0; n];
        r.fill(&mut v);
        v
    }
    fn take(&mut self, n: usize) -> Vec<u8> {
        let v = self.peek(n);
        self.reading = true;
        self.pos += n as u64;
        v
    }
}

struct H {
    x: Box<dyn XOF>,
    m: Model,
}

fn size(cx: &mut Cx) -> usize {
    cx.pick(&[1usize, 0, 2, 3, 7, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 9000])
}

/// the same, and now and then a very large one
fn large(cx: &mut Cx) -> usize {
    let n = size(cx);
    if cx.chance(100) {
        cx.big(n)
    } else {
        n
    }
}

fn writing(cx: &mut Cx, h: &mut H, data: &[u8]) -> Res {
    let r = match cx.below(3) {
        0 => h.x.write_all(data).map(|_| data.len()),
        _ => h.x.write(data),
    };
    if h.m.reading {
        // a retried kind would make write_all() loop for ever
        match r {
            Ok(_) => ensure!(data.is_empty(), "a write after a read was taken", "{} bytes", data.len()),
            Err(e) => ensure!(e.kind() != ErrorKind::Interrupted, "a write after a read asks to be retried", "{e}"),
        }
        if !data.is_empty() {
            cx.fired("misuse.write-after-read");
        }
        return Ok(());
    }
    match r {
        Ok(n) => {
            ensure!(n <= data.len() && (n > 0 || data.is_empty()), "a write of an impossible length", "{n} of {}", data.len());
            h.m.data.extend_from_slice(&data[..n]);
            if n < data.len() {
                let w = h.x.write_all(&data[n..]);
                ensure!(w.is_ok(), "a write failed", "{w:?}");
                h.m.data.extend_from_slice(&data[n..]);
            }
        }
        Err(e) => return violation("a write failed", format!("{e}")),
    }
    Ok(())
}

fn reading(cx: &mut Cx, h: &mut H, n: usize) -> Res {
    let mut b = vec![0xa5u8; n];
    // a short read would have its rest come later
    if cx.chance(500) {
        let r = h.x.read_exact(&mut b);
        ensure!(r.is_ok(), "a read failed", "{n} bytes: {r:?}");
    } else {
        let mut got = 0;
        while got < n {
            match h.x.read(&mut b[got..]) {
                Ok(k) if k > 0 && k <= n - got => got += k,
                r => return violation("a read failed", format!("{r:?} of {} bytes", n - got)),
            }
        }
        if n == 0 {
            let r = h.x.read(&mut []);
            ensure!(matches!(r, Ok(0)), "a read failed", "of nothing: {r:?}");
        }
    }
    let want = h.m.take(n);
    if n == 0 {
        // read_exact of nothing may not have called the stream at all: settle it
        let mut one = [0u8; 1];
        let r = h.x.read_exact(&mut one);
        ensure!(r.is_ok() && one[..] == h.m.take(1)[..], "the stream depends on the calls", "after a read of nothing");
    }
    ensure!(b == want, "the stream depends on the calls", "read {n} at {}", h.m.pos);
    Ok(())
}

fn xoring(cx: &mut Cx, h: &mut H, n: usize) -> Res {
    let src = cx.bytes(n);
    let extra = cx.pick(&[0usize, 0, 1, 40]);
    if n > 0 && cx.fault("misuse.short-destination", 150) {
        let k = cx.below(n);
        let mut d = vec![7u8; k];
        let r = guarded(|| h.x.xor_key_stream(&mut d, &src));
        match r {
            Ok(Err(_)) => {
                ensure!(d == vec![7u8; k], "a refused encryption wrote to its destination", "{k} of {n}");
            }
            Ok(Ok(_)) => return violation("a short destination was taken", format!("{k} of {n}")),
            Err(e) => return violation("a short destination panics", e),
        }
        return Ok(());
    }
    let mut d = vec![0x3cu8; n + extra];
    let r = h.x.xor_key_stream(&mut d, &src);
    ensure!(r.is_ok(), "an encryption failed", "{n} bytes: {r:?}");
    let key = h.m.take(n);
    for i in 0..n {
        ensure!(d[i] == src[i] ^ key[i], "the stream depends on the calls", "xor of {n} bytes, byte {i}");
    }
    ensure!(d[n..].iter().all(|x| *x == 0x3c), "an encryption wrote past its message", "{n} bytes");
    Ok(())
}

pub fn xof(cx: &mut Cx) -> Res {
    let s = suite();
    let mut hs: Vec<H> = vec![];
    let ops = cx.range(3, 40);
    for op in 0..ops {
        cx.st.sim_ms += 1;
        if hs.is_empty() || (hs.len() < 4 && cx.chance(120)) {
            let n = size(cx);
            let seed = cx.bytes(n);
            let (x, data) = match cx.below(3) {
                0 => (s.xof(None), vec![]),
                1 => (s.xof(Some(&seed)), seed),
                _ => (s.xof(Some(&[])), vec![]),
            };
            hs.push(H { x, m: Model { data, reading: false, pos: 0 } });
            continue;
        }
        let i = cx.below(hs.len());
        let what = cx.below(20);
        cx.step("op", what, i);
        let n = large(cx);
        cx.ev(format!("{op}: handle {i} op {what} size {n}"));
        match what {
            0..=3 => {
                let data = cx.bytes(n);
                // in pieces
                let mut rest = &data[..];
                while !rest.is_empty() && cx.fault("io.split", 300) {
                    let k = cx.range(1, rest.len());
                    let (a, b) = rest.split_at(k);
                    writing(cx, &mut hs[i], a)?;
                    rest = b;
                }
                writing(cx, &mut hs[i], rest)?;
            }
            4..=8 => {
                let mut n = n;
                while n > 0 && cx.fault("io.split", 300) {
                    let k = cx.range(1, n);
                    reading(cx, &mut hs[i], k)?;
                    n -= k;
                }
                reading(cx, &mut hs[i], n)?;
            }
            9..=12 => {
                let mut n = n;
                while n > 0 && cx.fault("io.split", 300) {
                    let k = cx.range(1, n);
                    xoring(cx, &mut hs[i], k)?;
                    n -= k;
                }
                if n > 0 {
                    xoring(cx, &mut hs[i], n)?;
                }
            }
            13 | 14 if hs.len() < 5 => {
                // a copy goes on from here, and neither moves the other
                let c = XOF::clone(&*hs[i].x);
                let m = hs[i].m.clone();
                hs.push(H { x: c, m });
            }
            15 | 16 => {
                let k = hs[i].m.take(128);
                hs[i].x.reseed();
                hs[i].m = Model { data: k, reading: false, pos: 0 };
            }
            17 => {
                let r = guarded(|| hs[i].x.flush());
                ensure!(matches!(r, Ok(Ok(_))), "a flush failed", "{r:?}");
            }
            18 => {
                // the same values are picked from the same stream
                let h = &mut hs[i];
                let mut c = XOF::clone(&*h.x);
                let a = s.scalar().pick(&mut h.x);
                let b = s.scalar().pick(&mut c);
                ensure!(a == b, "the stream depends on the calls", "a scalar picked twice");
                let mut pa = s.point();
                let mut pb = s.point();
                pa.unmarshal_from_random(&mut h.x);
                pb.unmarshal_from_random(&mut c);
                ensure!(pa == pb && pa != null(), "the stream depends on the calls", "a point picked twice");
                // how much was read is up to the picking: a message goes there and back
                let mut d = vec![0u8; n];
                let mut e = vec![0u8; n];
                let msg = cx.bytes(n);
                let ok = h.x.xor_key_stream(&mut d, &msg).is_ok() && c.xor_key_stream(&mut e, &d).is_ok();
                ensure!(ok && e == msg, "encryption does not come back", "{n} bytes");
                hs.remove(i);
            }
            19 => {
                cx.fired("handle.dropped");
                hs.remove(i);
            }
            _ => (),
        }
        cx.st.checks += 1;
    }
    // where everyone is
    for (i, h) in hs.iter_mut().enumerate() {
        let mut b = [0u8; 48];
        let ok = h.x.read_exact(&mut b).is_ok();
        ensure!(ok && b[..] == h.m.peek(48)[..], "the stream depends on the calls", "handle {i} at the end");
        cx.state(h64(&b));
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

/// a medium: gives or takes bytes in pieces of its choice, and may fail
struct Medium<'a> {
    cx: &'a mut Cx,
    data: Vec<u8>,
    pos: usize,
    /// bytes until it fails
    room: usize,
    how: usize,
    pieces: u64,
    intr: u64,
    failed: bool,
}

impl<'a> Medium<'a> {
    fn new(cx: &'a mut Cx, data: Vec<u8>, room: usize) -> Medium<'a> {
        let how = cx.below(6);
        let pieces = cx.pick(&[0u64, 300, 900]);
        let intr = cx.pick(&[0u64, 100, 400]);
        Medium { cx, data, pos: 0, room, how, pieces, intr, failed: false }
    }
    fn piece(&mut self, n: usize) -> std::io::Result<usize> {
        if n == 0 {
            return Ok(0);
        }
        if self.cx.fault("io.interrupted", self.intr) {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = n.min(self.room);
        if n > 1 && self.cx.fault("io.short", self.pieces) {
            n = self.cx.range(1, n - 1);
        }
        Ok(n)
    }
}

impl Write for Medium<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.piece(b.len())?;
        if n == 0 && !b.is_empty() {
            self.failed = true;
            return match self.how {
                0 => {
                    self.cx.fired("io.disk-full");
                    Ok(0)
                }
                1 => {
                    self.cx.fired("io.disk-full");
                    Err(ErrorKind::WriteZero.into())
                }
                2 => {
                    self.cx.fired("io.error");
                    Err(ErrorKind::Other.into())
                }
                3 => {
                    self.cx.fired("io.would-block");
                    Err(ErrorKind::WouldBlock.into())
                }
                4 => {
                    self.cx.fired("io.timed-out");
                    Err(ErrorKind::TimedOut.into())
                }
                _ => {
                    self.cx.fired("io.broken-pipe");
                    Err(ErrorKind::BrokenPipe.into())
                }
            };
        }
        self.room -= n;
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl Read for Medium<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let left = self.data.len() - self.pos;
        let want = b.len().min(left.max(1));
        let n = self.piece(want)?.min(left);
        if n == 0 && !b.is_empty() {
            self.failed = true;
            return match self.how {
                0 | 1 => {
                    self.cx.fired("io.end-of-file");
                    Ok(0)
                }
                2 => {
                    self.cx.fired("io.error");
                    Err(ErrorKind::Other.into())
                }
                3 => {
                    self.cx.fired("io.would-block");
                    Err(ErrorKind::WouldBlock.into())
                }
                4 => {
                    self.cx.fired("io.timed-out");
                    Err(ErrorKind::TimedOut.into())
                }
                _ => {
                    self.cx.fired("io.connection-reset");
                    Err(ErrorKind::ConnectionReset.into())
                }
            };
        }
        self.room -= n;
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

enum Obj {
    P(P),
    S(Sc),
}

fn modulus() -> BigUint {
    (BigUint::from(1u8) << 255) - BigUint::from(19u8)
}

fn order() -> BigUint {
    BigUint::from_bytes_le(&weird::order())
}

fn le32(x: &BigUint) -> Vec<u8> {
    let mut b = x.to_bytes_le();
    b.resize(32, 0);
    b
}

/// what 32 bytes decode to: the encoding of the point, if it is one
pub fn decodes(b: &[u8]) -> Option<Vec<u8>> {
    if b.len() != 32 {
        return None;
    }
    let p = modulus();
    let sign = b[31] >> 7;
    let mut y = b.to_vec();
    y[31] &= 0x7f;
    let y = BigUint::from_bytes_le(&y) % &p;
    let one = BigUint::from(1u8);
    let d = {
        let a = BigUint::from(121666u32).modpow(&(&p - BigUint::from(2u8)), &p);
        (&p - BigUint::from(121665u32)) * a % &p
    };
    let y2 = &y * &y % &p;
    let u = (&y2 + &p - &one) % &p;
    let v = (&d * &y2 + &one) % &p;
    let x2 = u * v.modpow(&(&p - BigUint::from(2u8)), &p) % &p;
    let zero = BigUint::from(0u8);
    let mut e = le32(&y);
    if x2 == zero {
        return Some(e);
    }
    if x2.modpow(&((&p - &one) / BigUint::from(2u8)), &p) != one {
        return None;
    }
    e[31] |= sign << 7;
    Some(e)
}

fn object(cx: &mut Cx) -> Obj {
    let s = suite();
    match cx.below(9) {
        0 => Obj::P(g(&rand_scalar())),
        1 => Obj::S(rand_scalar()),
        2 => Obj::P(null()),
        3 => Obj::S(scalar(cx.pick(&[0i64, 1, 2, 255, 256, -1, i64::MAX, i64::MIN + 1]))),
        4 => {
            // far from normal coordinates
            let mut a = g(&rand_scalar());
            let mut b = g(&rand_scalar());
            for _ in 0..cx.range(1, 40) {
                match cx.below(5) {
                    0 => a = s.point().add(&a, &b),
                    1 => a = s.point().sub(&a, &b),
                    2 => b = s.point().add(&a, &a),
                    3 => b = s.point().neg(&a),
                    _ => a = s.point().sub(&b, &a),
                }
            }
            Obj::P(a)
        }
        5 => {
            // a key as generated is not reduced
            Obj::S(new_key_pair(&s).map(|k| k.private).unwrap_or_default())
        }
        6 => {
            let b = weird::point_bytes(cx);
            Obj::P(point_from(&b).unwrap_or_else(|| s.point().base()))
        }
        7 => {
            // few significant bytes, on either side
            let mut v = [0u8; 32];
            let n = cx.range(1, 31);
            let d = cx.bytes(n);
            if cx.chance(500) {
                v[..n].copy_from_slice(&d);
            } else {
                v[31 - n..31].copy_from_slice(&d);
            }
            v[31] &= 0x0f;
            Obj::S(Sc { v })
        }
        _ => {
            let x = rand_scalar();
            let p = g(&rand_scalar());
            let b = s.point().mul(&x, Some(&p));
            let c = s.point().mul(&x, Some(&b));
            Obj::P(s.point().sub(&c, &b))
        }
    }
}

/// the bytes an object must have
fn must(o: &Obj) -> Res<Vec<u8>> {
    match o {
        Obj::P(p) => match p.marshal_binary() {
            Ok(b) => {
                ensure!(b.len() == 32 && p.marshal_size() == 32, "a point of another size", "{}", b.len());
                ensure!(decodes(&b).as_deref() == Some(&b[..]), "a point encodes to what is not its encoding", "{}", hex::encode(&b));
                Ok(b)
            }
            Err(e) => violation("a value could not be encoded", format!("{e}")),
        },
        Obj::S(x) => match x.marshal_binary() {
            Ok(b) => {
                let want = le32(&(BigUint::from_bytes_le(&x.v) % order()));
                ensure!(b == want && x.marshal_size() == 32, "a scalar encodes to another value", "{} for {}", hex::encode(&b), hex::encode(x.v));
                Ok(b)
            }
            Err(e) => violation("a value could not be encoded", format!("{e}")),
        },
    }
}

/// the place of a point in a table of points
fn hashed(p: &P) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    p.hash(&mut h);
    h.finish()
}

fn equal(a: &Obj, b: &Obj) -> Res {
    match (a, b) {
        (Obj::P(a), Obj::P(b)) => {
            ensure!(a == b, "a point came back as another", "{a} {b}");
            ensure!(hashed(a) == hashed(b), "equal points have other hashes", "{a} {b}");
            ensure!(format!("{a} {a:x} {a:#X}") == format!("{b} {b:x} {b:#X}"), "equal points are printed apart", "{a} {b}");
        }
        (Obj::S(a), Obj::S(b)) => {
            let r = BigUint::from_bytes_le(&a.v) % order() == BigUint::from_bytes_le(&b.v) % order();
            ensure!(r, "a scalar came back as another", "{a} {b}");
        }
        _ => return violation("HARNESS", "kinds".into()),
    }
    let (x, y) = (must(a)?, must(b)?);
    ensure!(x == y, "a value came back with another encoding", "{} {}", hex::encode(x), hex::encode(y));
    Ok(())
}

fn put(o: &Obj, w: &mut impl Write) -> bool {
    match o {
        Obj::P(p) => p.marshal_to(w).is_ok(),
        Obj::S(x) => x.marshal_to(w).is_ok(),
    }
}

/// what is read into: new, or holding something already
fn used_point(k: usize) -> P {
    match k {
        0 | 1 => suite().point(),
        2 => suite().point().base(),
        3 => null(),
        _ => g(&rand_scalar()),
    }
}

fn used_scalar(k: usize) -> Sc {
    match k {
        0 | 1 => suite().scalar(),
        2 => suite().scalar().one(),
        _ => rand_scalar(),
    }
}

fn get(like: &Obj, used: usize, r: &mut impl Read) -> Option<Obj> {
    match like {
        Obj::P(_) => {
            let mut p = used_point(used);
            p.unmarshal_from(r).ok()?;
            Some(Obj::P(p))
        }
        Obj::S(_) => {
            let mut x = used_scalar(used);
            x.unmarshal_from(r).ok()?;
            Some(Obj::S(x))
        }
    }
}

pub fn media(cx: &mut Cx) -> Res {
    let n = cx.range(1, 8);
    let objs: Vec<Obj> = (0..n).map(|_| object(cx)).collect();
    let mut bytes = vec![];
    let mut each = vec![];
    for o in &objs {
        let b = must(o)?;
        bytes.extend_from_slice(&b);
        each.push(b);
    }
    cx.st.sim_ms += 10;
    // writing
    let room = if cx.chance(500) { cx.below(bytes.len() + 1) } else { usize::MAX };
    let mut m = Medium::new(cx, vec![], room);
    let mut done = 0;
    for o in &objs {
        let before = m.data.len();
        let ok = put(o, &mut m);
        let wrote = m.data.len() - before;
        ensure!(ok == !m.failed, "a failed write was reported as done, or the reverse", "object {done}: {ok}");
        ensure!(m.data == bytes[..m.data.len()], "other bytes were written", "object {done}");
        ensure!(!ok || wrote == 32, "a value was not written whole", "{wrote} bytes");
        if !ok {
            break;
        }
        done += 1;
    }
    let disk = m.data;
    ensure!(done * 32 == disk.len() || done < n, "a value was not written whole", "{done} of {n}");
    cx.step("written", done, disk.len() % 32);
    // reading, maybe with the end cut off
    let room = if cx.chance(400) { cx.below(bytes.len() + 1) } else { usize::MAX };
    let tail = cx.below(40);
    let mut data = disk.clone();
    if cx.chance(300) {
        data.extend(vec![0x11; tail]);
    }
    let mut m = Medium::new(cx, data, room);
    for (i, o) in objs.iter().enumerate() {
        let before = m.pos;
        let used = m.cx.below(5);
        let got = get(o, used, &mut m);
        if i < done {
            match got {
                Some(x) => {
                    ensure!(!m.failed && m.pos == before + 32, "another number of bytes was consumed", "{}", m.pos - before);
                    equal(o, &x)?;
                }
                None => {
                    ensure!(m.failed, "a value written could not be read", "object {i}: {}", hex::encode(&each[i]));
                    m.cx.step("read", i, 0);
                    break;
                }
            }
        } else {
            let short = m.failed;
            ensure!(got.is_none() || !short, "a value was read from a failed medium", "object {i}");
            break;
        }
        m.cx.st.checks += 1;
    }
    // whole, and in the states' encodings
    for (o, b) in objs.iter().zip(&each) {
        match o {
            Obj::P(p) => {
                let mut q = used_point(cx.below(5));
                ensure!(q.unmarshal_binary(b).is_ok(), "a point could not be decoded", "{}", hex::encode(b));
                equal(o, &Obj::P(q))?;
                match dec::<P>(&enc(p)) {
                    Some(q) => equal(o, &Obj::P(q))?,
                    None => return violation("a point was lost in a saved state", format!("{p}")),
                }
                match serde_json::to_string(p).ok().and_then(|t| serde_json::from_str::<P>(&t).ok()) {
                    Some(q) => equal(o, &Obj::P(q))?,
                    None => return violation("a point was lost in a saved state", format!("{p} as text")),
                }
                let t = format!("{p:x} {p:X} {p:#x}");
                let h = hex::encode(b);
                ensure!(t == format!("{h} {} 0x{h}", h.to_uppercase()), "a point prints as another", "{t}");
                let mut e = enc(p);
                e.truncate(cx.below(e.len()));
                cx.fired("io.torn");
                ensure!(dec::<P>(&e).is_none(), "a torn point was loaded", "{} bytes", e.len());
            }
            Obj::S(x) => {
                let mut q = used_scalar(cx.below(4));
                ensure!(q.unmarshal_binary(b).is_ok(), "a scalar could not be decoded", "{}", hex::encode(b));
                equal(o, &Obj::S(q))?;
                match dec::<Sc>(&enc(x)) {
                    Some(q) => ensure!(q.v == x.v, "a scalar changed in a saved state", "{x} {q}"),
                    None => return violation("a scalar was lost in a saved state", format!("{x}")),
                }
                match serde_json::to_string(x).ok().and_then(|t| serde_json::from_str::<Sc>(&t).ok()) {
                    Some(q) => ensure!(q.v == x.v, "a scalar changed in a saved state", "{x} {q}"),
                    None => return violation("a scalar was lost in a saved state", format!("{x} as text")),
                }
                let mut e = enc(x);
                e.truncate(cx.below(e.len()));
                cx.fired("io.torn");
                ensure!(dec::<Sc>(&e).is_none(), "a torn scalar was loaded", "{} bytes", e.len());
                let k = cx.pick(&[0usize, 1, 31, 33, 64]);
                let mut odd = b.clone();
                odd.resize(k, 0);
                let mut q = suite().scalar();
                ensure!(q.unmarshal_binary(&odd).is_err(), "a scalar of a wrong length was taken", "{k}");
            }
        }
        cx.state(h64(b));
        cx.st.checks += 1;
    }
    Ok(())
}

/// bytes from anywhere: a point is accepted when it is on the curve, and only then
pub fn decoding(cx: &mut Cx) -> Res {
    let s = suite();
    for _ in 0..cx.range(1, 12) {
        cx.st.sim_ms += 1;
        let mut b = match cx.below(4) {
            0 => pbytes(&g(&rand_scalar())),
            1 => weird::point_bytes(cx),
            2 => {
                // at the edges of the field
                let k = cx.below(40);
                let base = cx.pick(&[0u8, 1, 2]);
                let v = match base {
                    0 => BigUint::from(k),
                    1 => modulus() - BigUint::from(1 + k),
                    _ => modulus() + BigUint::from(k.min(18)),
                };
                let mut v = le32(&v);
                v[31] |= (cx.below(2) as u8) << 7;
                v
            }
            _ => cx.bytes(32),
        };
        if cx.fault("io.corrupted", 400) {
            b = corrupt(cx, &b);
        }
        let want = decodes(&b);
        cx.step("decode", b.len() % 256, want.is_some() as usize);
        let mut p = used_point(cx.below(5));
        let r = guarded(|| p.unmarshal_binary(&b));
        match (&r, &want) {
            (Err(e), _) => return violation("decoding panics", e.clone()),
            (Ok(Ok(_)), Some(w)) => {
                let e = pbytes(&p);
                ensure!(&e == w, "bytes were decoded to another point", "{} gave {}, not {}", hex::encode(&b), hex::encode(e), hex::encode(w));
                let q = dec::<P>(&enc(&p));
                ensure!(q == Some(p), "a point was lost in a saved state", "{}", hex::encode(&b));
            }
            (Ok(Err(_)), None) => cx.probe("rejected"),
            (Ok(Ok(_)), None) => return violation("bytes of no point were decoded", hex::encode(&b)),
            (Ok(Err(e)), Some(_)) => return violation("a point was rejected", format!("{}: {e}", hex::encode(&b))),
        }
        // the same through a reader
        if b.len() >= 32 {
            let want = decodes(&b[..32]);
            let mut q = used_point(cx.below(5));
            let mut m = Medium::new(cx, b.clone(), usize::MAX);
            let ok = q.unmarshal_from(&mut m).is_ok();
            ensure!(ok == want.is_some() && m.pos == 32, "a reader's point is judged otherwise", "{}", hex::encode(&b));
        }
        // coordinates in a saved state
        let good = enc(&g(&rand_scalar()));
        let mut bad = good.clone();
        let i = cx.below(bad.len() - 1);
        bad[i] ^= 1 << cx.below(8);
        cx.fired("io.corrupted-state");
        if let Some(q) = dec::<P>(&bad) {
            // another representation of a point, if anything: then it is one
            let e = pbytes(&q);
            let zero = q == P::default();
            ensure!(zero || decodes(&e).is_some(), "a point off the curve was loaded", "byte {i}");
            ensure!(zero || enc(&q) == bad, "a loaded point is not what was stored", "byte {i}");
        }
        cx.st.checks += 2;
    }
    let _ = (Curve::default(), s.random_stream());
    Ok(())
}

/// the integers modulo any number, over the same media
pub fn integers(cx: &mut Cx) -> Res {
    let m = match cx.below(5) {
        0 => BigUint::from(cx.pick(&[2u64, 3, 7, 127, 128, 251, 255, 256, 257, 65535, 65536])),
        1 => order(),
        2 => modulus(),
        _ => {
            let bits = cx.range(2, 560);
            (BigUint::from(1u8) << bits) + BigUint::from(cx.below(3)) * BigUint::from(cx.word() >> (64 - bits.min(60)))
        }
    };
    let len = (m.bits() + 7) / 8;
    let m = BigInt::from(m);
    let n = cx.range(1, 6);
    let (mut objs, mut each) = (vec![], vec![]);
    for _ in 0..n {
        let k = cx.range(1, len);
        let v = match cx.below(4) {
            0 => BigInt::from(cx.below(3)),
            1 => &m - BigInt::from(cx.range(1, 2)),
            2 => BigInt::from(BigUint::from_bytes_be(&cx.bytes(k))),
            _ => BigInt::from(BigUint::from_bytes_be(&cx.bytes(len + 8))),
        } % &m;
        let little = cx.chance(500);
        let mut x = Int::new_int(v.clone(), m.clone());
        x.bo = if little { ByteOrder::LittleEndian } else { ByteOrder::BigEndian };
        let mut b = v.to_bytes_be().1;
        while b.len() < len {
            b.insert(0, 0);
        }
        if little {
            b.reverse();
        }
        match guarded(|| x.marshal_binary()) {
            Ok(Ok(e)) => ensure!(e == b && x.marshal_size() == len, "an integer encodes to another value", "{} for {v} of {m}", hex::encode(e)),
            e => return violation("an integer could not be encoded", format!("{e:?}")),
        }
        objs.push((x, v));
        each.push(b);
    }
    cx.st.sim_ms += 10;
    let bytes = each.concat();
    let room = if cx.chance(500) { cx.below(bytes.len() + 1) } else { usize::MAX };
    let mut w = Medium::new(cx, vec![], room);
    let mut done = 0;
    for (x, _) in &objs {
        let ok = x.marshal_to(&mut w).is_ok();
        ensure!(ok == !w.failed, "a failed write was reported as done, or the reverse", "object {done}: {ok}");
        ensure!(w.data == bytes[..w.data.len()], "other bytes were written", "object {done}");
        if !ok {
            break;
        }
        done += 1;
        ensure!(w.data.len() == done * len, "a value was not written whole", "object {done}");
    }
    let disk = w.data;
    cx.step("written", done, disk.len() % len);
    let room = if cx.chance(400) { cx.below(bytes.len() + 1) } else { usize::MAX };
    let mut r = Medium::new(cx, disk.clone(), room);
    for (i, (x, v)) in objs.iter().enumerate() {
        let before = r.pos;
        // into an integer which holds something already
        let junk = BigInt::from(r.cx.below(2));
        let mut y = Int::new_int(junk, m.clone());
        y.bo = x.bo;
        let ok = y.unmarshal_from(&mut r).is_ok();
        ensure!(ok == !r.failed, "a failed read was reported as done, or the reverse", "object {i}: {ok}");
        if !ok {
            break;
        }
        ensure!(i < done && r.pos == before + len, "another number of bytes was consumed", "{}", r.pos - before);
        ensure!(y == *x && Int::new_int(v.clone(), m.clone()) == y, "an integer came back as another", "{x} {y}");
        ensure!(y.marshal_binary().ok().as_ref() == Some(&each[i]), "a value came back with another encoding", "{y}");
        r.cx.st.checks += 1;
    }
    for ((x, v), b) in objs.iter().zip(&each) {
        match dec::<Int>(&enc(x)) {
            Some(y) => ensure!(y == *x && y.marshal_binary().ok().as_ref() == Some(b), "an integer changed in a saved state", "{x} {y}"),
            None => return violation("an integer was lost in a saved state", format!("{x}")),
        }
        let mut e = enc(x);
        e.truncate(cx.below(e.len()));
        cx.fired("io.torn");
        ensure!(dec::<Int>(&e).is_none(), "a torn integer was loaded", "{} bytes", e.len());
        // what is not the encoding of an integer below the modulus
        let mut y = Int::new_int(BigInt::from(0), m.clone());
        y.bo = x.bo;
        let mut odd = b.clone();
        let k = cx.pick(&[0usize, len - 1, len + 1, 2 * len]);
        odd.resize(k, 0);
        ensure!(y.unmarshal_binary(&odd).is_err(), "an integer of a wrong length was taken", "{k} for {len}");
        let mut big = (v + &m * BigInt::from(1 + cx.below(3))).to_bytes_be().1;
        while big.len() < len {
            big.insert(0, 0);
        }
        if x.bo == ByteOrder::LittleEndian {
            big.reverse();
        }
        let mut y = Int::new_int(BigInt::from(0), m.clone());
        y.bo = x.bo;
        ensure!(y.unmarshal_binary(&big).is_err(), "an integer out of its range was taken", "{}", hex::encode(&big));
        // as many bytes as asked for, whichever they are
        let (min, max) = (cx.below(len + 4), cx.pick(&[0, len, len + 4]));
        for little in [false, true] {
            let r = guarded(|| if little { x.little_endian(min, max) } else { x.big_endian(min, max) });
            match r {
                Ok(Ok(mut e)) => {
                    ensure!(e.len() >= min && (max == 0 || e.len() <= max), "an integer was encoded in a number of bytes not asked for", "{} of {min} to {max}", e.len());
                    if little {
                        e.reverse();
                    }
                    ensure!(BigInt::from(BigUint::from_bytes_be(&e)) == *v, "an integer encodes to another value", "{v}: {}", hex::encode(e));
                }
                Ok(Err(_)) => ensure!(max != 0 && min > max, "an integer could not be encoded", "{v} in {min} to {max} bytes"),
                Err(p) => return violation("an integer could not be encoded", p),
            }
        }
        cx.state(h64(b));
        cx.st.checks += 4;
    }
    Ok(())
}
