//! C18: shares on their way to whoever recovers with them.
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::runner::guarded;
use kyber_rs::share::poly::*;
use kyber_rs::{Group, Point, Random};

fn es<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}

/// by Horner, at x = i + 1
fn at(c: &[Sc], i: usize) -> Sc {
    let x = scalar(i as i64 + 1);
    let mut v = scalar(0);
    for k in c.iter().rev() {
        v = v * x + *k;
    }
    v
}

fn coefficient(cx: &mut Cx) -> Sc {
    match cx.below(6) {
        0 => scalar(cx.pick(&[0i64, 1, -1, 2])),
        _ => rand_scalar(),
    }
}

fn index(cx: &mut Cx, n: usize) -> usize {
    match cx.below(8) {
        0 => n + cx.below(50),
        1 => cx.pick(&[100usize, 255, 256, 1000, 65535, 65536, 1 << 31, u32::MAX as usize, 1 << 40, i64::MAX as usize - 1]),
        _ => cx.below(n),
    }
}

fn poly_is(p: &PriPoly<S>, c: &[Sc]) -> bool {
    p.coefficients() == c && p.threshold() == c.len() && p.secret() == c[0]
}

/// the collector has these shares, in the order of arrival: what must come out
fn recovers(cx: &mut Cx, c: &[Sc], b: Option<&P>, pri: &[Option<PriShare<Sc>>], pubs: &[Option<PubShare<P>>], t: usize, n: usize) -> Res {
    let s = suite();
    let mut d: Vec<usize> = pri.iter().flatten().map(|x| x.i).collect();
    d.sort_unstable();
    d.dedup();
    let enough = d.len() >= t;
    cx.st.checks += 1;
    match recover_secret(s, pri, t, n) {
        Ok(x) => {
            ensure!(enough, "a secret from too few shares", "{} of {t}", d.len());
            ensure!(x == c[0], "another secret was recovered", "{} shares, t {t}", d.len());
        }
        Err(e) => ensure!(!enough, "the shares do not recover the secret", "{} of {t}: {}", d.len(), es(e)),
    }
    match recover_pri_poly(&s, pri, t, n) {
        Ok(p) => {
            ensure!(enough, "a polynomial from too few shares", "{} of {t}", d.len());
            ensure!(poly_is(&p, c), "another polynomial was recovered", "{} shares, t {t}", d.len());
        }
        Err(e) => ensure!(!enough, "the shares do not recover the polynomial", "{} of {t}: {}", d.len(), es(e)),
    }
    let mut e: Vec<usize> = pubs.iter().flatten().map(|x| x.i).collect();
    e.sort_unstable();
    e.dedup();
    let enough = e.len() >= t;
    let base = b.cloned().unwrap_or_else(|| s.point().base());
    let want: Vec<P> = c.iter().map(|x| s.point().mul(x, Some(&base))).collect();
    match recover_commit(s, pubs, t, n) {
        Ok(x) => {
            ensure!(enough, "a commitment from too few shares", "{} of {t}", e.len());
            ensure!(x == want[0], "another commitment was recovered", "{} shares, t {t}", e.len());
        }
        Err(x) => ensure!(!enough, "the shares do not recover the commitment", "{} of {t}: {}", e.len(), es(x)),
    }
    match recover_pub_poly(s, pubs, t, n) {
        Ok(p) => {
            ensure!(enough, "a public polynomial from too few shares", "{} of {t}", e.len());
            ensure!(p.info().1 == want, "another public polynomial was recovered", "{} shares, t {t}", e.len());
            ensure!(p.info().0.is_none(), "a recovered polynomial has another base", "{:?}", p.info().0);
            if b.is_none() {
                let orig = coefficients_to_pri_poly(&s, c).commit(None);
                ensure!(p.equal(&orig).unwrap_or(false), "a recovered public polynomial is not equal to the original", "t {t}");
            }
        }
        Err(x) => ensure!(!enough, "the shares do not recover the public polynomial", "{} of {t}: {}", e.len(), es(x)),
    }
    Ok(())
}

pub fn recovery(cx: &mut Cx) -> Res {
    let s = suite();
    let n = cx.people(1, 9);
    let t = cx.range(1, n);
    let c: Vec<Sc> = (0..t).map(|_| coefficient(cx)).collect();
    let p = match cx.below(3) {
        0 => {
            let q = new_pri_poly(s, t, Some(c[0]), s.random_stream());
            ensure!(q.secret() == c[0] && q.threshold() == t, "a new polynomial has another secret", "t {t}");
            q
        }
        _ => coefficients_to_pri_poly(&s, &c),
    };
    let c = p.coefficients();
    let base = if cx.chance(250) { Some(g(&rand_scalar())) } else { None };
    let pp = p.commit(base.as_ref());
    // who sends, in which order, how often; what is lost
    let wide = cx.chance(300);
    let mut idx: Vec<usize> = vec![];
    let want = if cx.chance(700) { cx.range(t, n.max(t)) } else { cx.range(0, n) };
    while idx.len() < want {
        let i = if wide { index(cx, n) } else { cx.below(n) };
        if !idx.contains(&i) {
            idx.push(i);
        } else if idx.len() >= n || !wide {
            let i = (0..n).find(|i| !idx.contains(i));
            match i {
                Some(i) => idx.push(i),
                None => break,
            }
        }
    }
    let mut queue: Vec<usize> = vec![];
    for i in &idx {
        if cx.fault("net.loss", 80) {
            continue;
        }
        queue.push(*i);
        while cx.fault("net.duplicate", 150) {
            queue.push(*i);
        }
    }
    let before = queue.clone();
    cx.shuffle(&mut queue);
    if before != queue {
        cx.fired("net.reorder");
    }
    let at_every = n <= 5 && cx.chance(300);
    let mut pri: Vec<Option<PriShare<Sc>>> = vec![];
    let mut pubs: Vec<Option<PubShare<P>>> = vec![];
    for (k, i) in queue.iter().enumerate() {
        cx.st.sim_ms += 10;
        cx.step("share", *i % 251, k);
        let sh = p.eval(*i);
        ensure!(sh.i == *i && sh.v == at(&c, *i), "another evaluation", "at {i}, t {t}");
        let ps = pp.eval(*i);
        let b = base.unwrap_or_else(|| s.point().base());
        ensure!(ps.i == *i && ps.v == s.point().mul(&sh.v, Some(&b)), "public and private share differ", "at {i}");
        ensure!(pp.check(&sh), "a right share does not check", "at {i}");
        // over the wire
        let sh = match dec::<PriShare<Sc>>(&enc(&sh)) {
            Some(x) => x,
            None => return violation("a share was lost on the wire", format!("at {i}")),
        };
        // and what is altered is seen
        if cx.fault("wire.altered", 150) {
            let mut bad = sh;
            match cx.below(3) {
                0 => bad.v = bad.v + scalar(1),
                1 => bad.i = index(cx, n),
                _ => bad.v = rand_scalar(),
            }
            let right = bad.v == at(&c, bad.i);
            ensure!(pp.check(&bad) == right, "a wrong share checks, or a right one does not", "at {}", bad.i);
        }
        pri.push(Some(sh));
        pubs.push(Some(ps));
        if cx.chance(150) {
            pri.push(None);
            pubs.push(None);
        }
        if at_every {
            recovers(cx, &c, base.as_ref(), &pri, &pubs, t, n)?;
        }
    }
    recovers(cx, &c, base.as_ref(), &pri, &pubs, t, n)?;
    let mut all: Vec<u8> = vec![];
    for x in pri.iter().flatten() {
        all.extend_from_slice(&(x.i as u64).to_le_bytes());
    }
    cx.state(h64(&all));
    // all at once
    let all = p.shares(n);
    let pa = pp.shares(n);
    ensure!(all.len() == n && pa.len() == n, "another number of shares", "{} {}", all.len(), pa.len());
    for (i, (a, b)) in all.iter().zip(&pa).enumerate() {
        ensure!(a.map(|x| (x.i, x.v)) == Some((i, at(&c, i))), "another evaluation", "share {i}");
        ensure!(b.map(|x| (x.i, x.v)) == Some((i, pp.eval(i).v)), "another evaluation", "public share {i}");
    }
    Ok(())
}

/// sums, products and comparisons agree with those of the values
pub fn arithmetic(cx: &mut Cx) -> Res {
    let s = suite();
    let t1 = cx.range(1, 6);
    let t2 = if cx.chance(600) { t1 } else { cx.range(1, 6) };
    let mut a: Vec<Sc> = (0..t1).map(|_| coefficient(cx)).collect();
    let mut b: Vec<Sc> = (0..t2).map(|_| coefficient(cx)).collect();
    match cx.below(5) {
        0 => b = a.clone(),
        1 => {
            // one is the beginning of the other
            b = a.clone();
            b.push(coefficient(cx));
        }
        2 => {
            b = a.clone();
            let i = cx.below(b.len());
            b[i] = b[i] + scalar(1);
        }
        3 => {
            b = a.clone();
            b.reverse();
            if cx.chance(300) {
                a.push(scalar(0));
            }
        }
        _ => (),
    }
    cx.step("polynomials", a.len(), b.len());
    let (pa, pb) = (coefficients_to_pri_poly(&s, &a), coefficients_to_pri_poly(&s, &b));
    let (qa, qb) = (pa.commit(None), pb.commit(None));
    let same = a == b;
    ensure!(pa.equal(&pb).ok() == Some(same) && (pa.coefficients() == pb.coefficients()) == same, "polynomials wrongly told equal or not", "{} {} {same}", a.len(), b.len());
    ensure!(qa.equal(&qb).ok() == Some(same), "public polynomials wrongly told equal or not", "{} {} {same}", a.len(), b.len());
    let i = index(cx, 8);
    match pa.add(&pb) {
        Ok(x) => {
            ensure!(a.len() == b.len(), "polynomials of other degrees were added", "{} {}", a.len(), b.len());
            let c: Vec<Sc> = a.iter().zip(&b).map(|(x, y)| *x + *y).collect();
            ensure!(poly_is(&x, &c), "another sum", "of {} coefficients", a.len());
            ensure!(x.eval(i).v == pa.eval(i).v + pb.eval(i).v, "another sum", "at {i}");
        }
        Err(_) => ensure!(a.len() != b.len(), "polynomials were not added", "{}", a.len()),
    }
    match qa.add(&qb) {
        Ok(x) => {
            ensure!(a.len() == b.len(), "public polynomials of other degrees were added", "{} {}", a.len(), b.len());
            ensure!(x.eval(i).v == add(&qa.eval(i).v, &qb.eval(i).v), "another public sum", "at {i}");
            ensure!(x.commit() == g(&(a[0] + b[0])) && x.threshold() == a.len(), "another public sum", "of {} commitments", a.len());
            ensure!(pa.add(&pb).map(|y| y.commit(None).equal(&x).unwrap_or(false)).unwrap_or(false), "sum and commitment do not commute", "{}", a.len());
        }
        Err(_) => ensure!(a.len() != b.len(), "public polynomials were not added", "{}", a.len()),
    }
    let m = pa.mul(&pb);
    ensure!(m.threshold() == a.len() + b.len() - 1, "a product of another degree", "{} {}", a.len(), b.len());
    let prod = pa.eval(i).v * pb.eval(i).v;
    ensure!(m.eval(i).v == prod, "another product", "at {i}");
    // secrets shared by the product are recovered at its threshold
    let t = m.threshold();
    let n = t + cx.below(3);
    let mut sh = m.shares(n);
    cx.shuffle(&mut sh);
    let lost = cx.below(n - t + 1);
    for _ in 0..lost {
        let k = cx.below(n);
        sh[k] = None;
        cx.fired("net.loss");
    }
    if sh.iter().flatten().count() >= t {
        let r = recover_secret(s, &sh, t, n);
        ensure!(r.as_ref().ok() == Some(&(a[0] * b[0])), "another secret was recovered", "of a product, t {t}");
    }
    // saved and loaded
    let p2: Option<PriPoly<S>> = dec(&enc(&pa));
    ensure!(p2.map(|x| poly_is(&x, &a)).unwrap_or(false), "a polynomial was lost in a saved state", "{}", a.len());
    let q2: Option<PubPoly<S>> = dec(&enc(&qa));
    ensure!(q2.map(|x| canon(&x) == canon(&qa)).unwrap_or(false), "a public polynomial was lost in a saved state", "{}", a.len());
    // the digests tell shares apart
    let (j, k) = (cx.below(4), cx.below(4));
    let hash = |p: &PriPoly<S>, i: usize| p.eval(i).hash(s).unwrap_or_default();
    let eq = j == k && pa.eval(j).v == pb.eval(k).v;
    ensure!((hash(&pa, j) == hash(&pb, k)) == eq, "digests of shares", "{j} {k}");
    let hash = |p: &PubPoly<S>, i: usize| p.eval(i).hash(s).unwrap_or_default();
    ensure!((hash(&qa, j) == hash(&qb, k)) == eq, "digests of public shares", "{j} {k}");
    let r = guarded(|| format!("{} {:?} {} {:?}", pa, pa, qa, qa));
    ensure!(r.is_ok(), "printing panics", "{r:?}");
    cx.st.checks += 8;
    cx.state(h64(&sbytes(&prod)));
    Ok(())
}
