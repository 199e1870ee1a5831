P = "share/poly.rs"; DS = "sign/dss/dss_sig.rs"; SC = "sign/schnorr/schnorr_sig.rs"; ED = "sign/eddsa/eddsa_sig.rs"
EC = "encrypt/ecies/ecies_impl.rs"; DH = "dh/dh_impl.rs"; X = "xof/blake3/xof.rs"; R = "util/random/random_stream.rs"
M = "group/internal/marshalling/marshal.rs"; PT = "group/edwards25519/point.rs"; SL = "group/edwards25519/scalar.rs"; CU = "group/edwards25519/curve.rs"
PV = "share/vss/pedersen/vss.rs"; PD = "share/dkg/pedersen/dkg.rs"
MUTANTS = [
 ("po-xy-early", ["C18"], [(P, """    for s in sorted {
        let idx = s.i;
        x.insert(idx, g.scalar().set_int64((idx + 1) as i64));
        y.insert(idx, s.v.clone());
        if x.len() == t {
            break;
        }
    }
    (x, y)
}

/// minus_const""" if False else """    sorted.sort_by(|i, j| i.i.cmp(&j.i));

    let mut x = HashMap::new();
    let mut y = HashMap::new();
    for s in sorted {
        let idx = s.i;
        x.insert(idx, g.scalar().set_int64((idx + 1) as i64));
        y.insert(idx, s.v.clone());
        if x.len() == t {
            break;
        }
    }
    (x, y)
}

fn minus_const""", "")]),
 ("po-equal-short", ["C18"], [(P, """        let mut b = true;
        for i in 0..self.threshold() {
            let pb = self.commits[i].marshal_binary()?;""", """        let mut b = true;
        for i in 0..self.threshold() {
            let i = i.min(self.threshold().max(2) - 2);
            let pb = self.commits[i].marshal_binary()?;""")]),
 ("po-equal-assign", ["C18"], [(P, """            let qb = q.coeffs[i].marshal_binary()?;
            b &= pb.eq(&qb);""", """            let qb = q.coeffs[i].marshal_binary()?;
            b = pb.eq(&qb);""")]),
 ("po-secret-lt", ["C18"], [(P, "    if x.len() < t {\n        return Err(PolyError::NotEnoughSharesForSecret);", "    if shares.len() < t {\n        return Err(PolyError::NotEnoughSharesForSecret);")]),
 ("po-pri-add-trunc", ["C18"], [(P, """        for i in 0..self.threshold() {
            coeffs.push(self.coeffs[i].clone() + q.coeffs[i].clone());
        }""", """        for (a, b) in self.coeffs.iter().zip(q.coeffs.iter().take(self.threshold().max(q.threshold()))) {
            coeffs.push(a.clone() + b.clone());
        }""")]),
 ("po-pub-nb", ["C18"], [(P, "        let ps = self.g.point().mul(&s.v, self.b.as_ref());", "        let ps = self.g.point().mul(&s.v, None);")]),
 ("po-commit-recover", ["C18","C06"], [(P, "    if x.len() < t {\n        return Err(PolyError::NotEnoughtGoodPublics);\n    }\n\n    let mut num", "    if x.is_empty() {\n        return Err(PolyError::NotEnoughtGoodPublics);\n    }\n\n    let mut num")]),
 ("po-mul-deg", ["C18"], [(P, "                coeffs[i + j] = coeffs[i + j].clone() + tmp;", "                coeffs[i + j] = if i + j == new_degree { tmp } else { coeffs[i + j].clone() + tmp };")]),
 ("ds-sid", ["C09","C10"], [(DS, "        if ps.session_id != self.session_id {\n            return Err(DSSError::InvalidSessionId);\n        }\n", "")]),
 ("ds-sid-long-only", ["C09"], [(DS, """    for p in b.commitments() {
        p.marshal_to(&mut h)
            .map_err(SignatureError::MarshallingError)?;
    }
""", """    for p in b.commitments().into_iter().skip(1) {
        p.marshal_to(&mut h)
            .map_err(SignatureError::MarshallingError)?;
    }
""")]),
 ("ds-dup", ["C09","C17"], [(DS, "        if self.partials_idx.contains_key(&ps.partial.i) {\n            return Err(DSSError::PartialAlreadyReceived);\n        }\n", "        if self.partials_idx.contains_key(&ps.partial.i) && !self.enough_partial_sig() {\n            return Err(DSSError::PartialAlreadyReceived);\n        }\n")]),
 ("ds-dup2", ["C09","C17"], [(DS, "        self.partials_idx.insert(ps.partial.i, true);\n", "        if self.signed {\n            self.partials_idx.insert(ps.partial.i, true);\n        }\n")]),
 ("ds-share-own", ["C09"], [(DS, "        if !left.eq(&right) {", "        if !left.eq(&right) && idx != self.index {")]),
 ("ds-share-enough", ["C09"], [(DS, "        if !left.eq(&right) {", "        if !left.eq(&right) && !self.enough_partial_sig() {")]),
 ("ds-enough-n", ["C09"], [(DS, "        self.partials.len() >= self.t\n", "        self.partials.len() >= self.t && self.signed\n")]),
 ("ds-hash-sid", ["C10","C09"], [(DS, "        h.update(&self.session_id);\n        Ok(h.finalize().to_vec())", "        Ok(h.finalize().to_vec())")]),
 ("ds-signed-serde", ["C11"], [(DS, "    signed: bool,\n", "    #[serde(skip)]\n    signed: bool,\n")]),
 ("ds-idx-serde", ["C11"], [(DS, "    partials_idx: HashMap<usize, bool>,", "    #[serde(skip)]\n    partials_idx: HashMap<usize, bool>,")]),
 ("sc-s-canon", ["C19"], [(SC, "    if !g.scalar().is_canonical(&sig[point_size..]) {\n        return Err(SignatureError::SignatureNotCanonical);\n    }\n", "")]),
 ("sc-r-small", ["C19"], [(SC, "    if r.has_small_order() {\n        return Err(SignatureError::RSmallOrder);\n    }\n", "")]),
 ("sc-p-small", ["C19"], [(SC, "    if public.has_small_order() {\n        return Err(SignatureError::PublicKeySmallOrder);\n    }\n", "")]),
 ("sc-hash-nopub", ["C19"], [(SC, "    public.marshal_to(&mut h)?;\n    h.write_all(msg)?;", "    let _ = public;\n    h.write_all(msg)?;")]),
 ("sc-hash-msgtrunc", ["C19"], [(SC, "    h.write_all(msg)?;", "    h.write_all(&msg[..msg.len().min(4096)])?;")]),
 ("sc-r-canon", ["C19"], [(SC, "    if !r.is_canonical(&sig[..point_size]) {\n        return Err(SignatureError::RNotCanonical);\n    }\n", "")]),
 ("ed-s-canon", ["C19"], [(ED, "    if !GROUP.scalar().is_canonical(&sig[32..]) {\n        return Err(SignatureError::SignatureNotCanonical);\n    }\n", "")]),
 ("ed-p-small", ["C19"], [(ED, "    if public.has_small_order() {\n        return Err(SignatureError::PublicKeySmallOrder);\n    }\n", "")]),
 ("ed-nonce-prefix", ["C14","C19"], [(ED, "        hash.update(self.prefix.clone());\n        hash.update(msg);", "        hash.update(&self.prefix[..self.prefix.len() / 4]);\n        hash.update(&msg[..msg.len().min(64)]);")]),
 ("ed-unmarshal-keep", ["C19"], [(ED, "        self.prefix = prefix;\n", "        if self.prefix.is_empty() {\n            self.prefix = prefix;\n        }\n")]),
 ("ed-unmarshal-pub", ["C19"], [(ED, "        self.public = GROUP.point().mul(&self.secret, None);\n\n        Ok(())", "        self.public.unmarshal_binary(&buff[32..])?;\n\n        Ok(())")]),
 ("ec-nonce", ["C13"], [(EC, "    let gcm = AEAD::<GROUP>::new(r_p.clone(), &buf)?;\n\n    // Encrypt", "    let gcm = AEAD::<GROUP>::new(r_p.clone(), &buf[..0])?;\n\n    // Encrypt"), (EC, "    let gcm = AEAD::<GROUP>::new(r_p.clone(), &buf)?;\n    Ok(", "    let gcm = AEAD::<GROUP>::new(r_p.clone(), &buf[..0])?;\n    Ok(")]),
 ("dh-aad-drop", ["C13"], [(DH, "            .encrypt(nonce, payload)", "            .encrypt(nonce, payload.msg)"), (DH, "            .decrypt(nonce, payload)", "            .decrypt(nonce, payload.msg)")]),
 ("dh-info-drop", ["C13"], [(DH, "        let key = Self::hkdf(&pre_buff, info, None)?;\n        let encrypted = Self::aes_encrypt(&key, nonce, data, Some(info))?;", "        let key = Self::hkdf(&pre_buff, &info[..info.len().min(16)], None)?;\n        let encrypted = Self::aes_encrypt(&key, nonce, data, None)?;"),
     (DH, "        let key = Self::hkdf(&pre_buff, info, None)?;\n        let decrypted = Self::aes_decrypt(&key, nonce, cipher, Some(info))?;", "        let key = Self::hkdf(&pre_buff, &info[..info.len().min(16)], None)?;\n        let decrypted = Self::aes_decrypt(&key, nonce, cipher, None)?;")]),
 ("ec-ephemeral-msg", ["C13","C14"], [(EC, "    let r = group.scalar().pick(&mut RandStream::default());", "    let r = group.scalar().pick(&mut crate::xof::blake3::Xof::new(Some(message)));")]),
 ("xo-reseed-pos", ["C15"], [(X, "        if self.key.len() < 128 {\n            self.key = vec![0_u8; 128];\n        } else {\n            self.key = self.key[0..128].to_vec();\n        }\n        let mut k = self.key.clone();\n        _ = self.read(&mut k);\n        self.key = k;", "        if self.key.len() < 128 {\n            self.key = vec![0_u8; 128];\n            let mut k = self.key.clone();\n            _ = self.read(&mut k);\n            self.key = k;\n        } else {\n            self.key = self.key[0..128].to_vec();\n        }")]),
 ("xo-key-stale", ["C15"], [(X, "            self.key = self.key[0..src.len()].to_vec();\n        }\n\n", "            self.key = self.key[0..src.len()].to_vec();\n        }\n        let at = self.key.len() - src.len() / 65 * 65;\n\n"), (X, "            dst[i] = src[i] ^ self.key[i];", "            dst[i] = src[i] ^ self.key[if i < 4096 { i } else { i - at }];")]),
 ("xo-clone-reset", ["C15"], [(X, "            implementation: self.implementation.clone(),\n            key: self.key.clone(),", "            implementation: match &self.implementation {\n                HashState::Readable { reader } => {\n                    let mut reader = reader.clone();\n                    reader.set_position(reader.position() & !63);\n                    HashState::Readable { reader }\n                }\n                other => other.clone(),\n            },\n            key: self.key.clone(),")]),
 ("rs-stale", ["C14"], [(R, "            if result.is_err() {\n                nerr += 1;\n                continue;\n            }", "            if result.is_err() {\n                nerr += 1;\n            }")]),
 ("rs-first-only", ["C14"], [(R, "        if nerr == self.readers.len() {", "        if nerr > 1 && nerr == self.readers.len() {")]),
 ("rs-any-err", ["C14"], [(R, "        if nerr == self.readers.len() {", "        if nerr * 2 > self.readers.len() {")]),
 ("rs-read", ["C14"], [(R, "            let result = reader.read_exact(&mut buff);", "            let result = reader.read(&mut buff);")]),
 ("rs-bits-mask", ["C14"], [(R, "            b[0] |= 1 << (highbits - 1)", "            b[0] |= 1 << highbits")]),
 ("rs-int-le", ["C14"], [(R, "        if i.sign() == num_bigint::Sign::Plus && i.cmp(modulus) == Ordering::Less {", "        if i.sign() == num_bigint::Sign::Plus && i.cmp(modulus) != Ordering::Greater {")]),
 ("rs-hash-last", ["C14"], [(R, "            b.write_all(&buff[..buff.len()])?;", "            b.clear();\n            b.write_all(&buff[..buff.len()])?;")]),
 ("ma-write", ["C16"], [(M, "    let buf = p.marshal_binary()?;\n    w.write_all(&buf)?;", "    let buf = p.marshal_binary()?;\n    let n = w.write(&buf)?;\n    if n < buf.len() {\n        w.write(&buf[n..])?;\n    }")]),
 ("ma-read", ["C16"], [(M, "    let mut buf = vec![0_u8; p.marshal_size()];\n    r.read_exact(&mut buf)?;", "    let mut buf = Vec::with_capacity(p.marshal_size());\n    r.take(p.marshal_size() as u64).read_to_end(&mut buf)?;\n    buf.resize(p.marshal_size(), 0);")]),
 ("ma-sread", ["C16"], [(M, "    let mut buf = vec![0_u8; s.marshal_size()];\n    r.read_exact(&mut buf)?;", "    let mut buf = vec![0_u8; s.marshal_size()];\n    let mut n = 0;\n    while n < buf.len() {\n        match r.read(&mut buf[n..]) {\n            Ok(0) => break,\n            Ok(k) => n += k,\n            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,\n            Err(e) => return Err(e.into()),\n        }\n    }")]),
 ("ma-scalar-len", ["C16"], [(SL, "        if data.len() != 32 {\n            return Err", "        if data.len() < 32 {\n            return Err"), (SL, "        self.v.copy_from_slice(data);", "        self.v.copy_from_slice(&data[..32]);")]),
 ("pt-embed-sub", ["C21"], [(PT, "            if q.eq(&NULL_POINT) {\n                return self; // success", "            if q.eq(&NULL_POINT) || data.map_or(false, |d| d.len() > 29) {\n                return self; // success")]),
 ("pt-embed-len", ["C21"], [(PT, "        if dl > self.embed_len() {", "        if dl >= self.embed_len() {")]),
 ("pt-pick-cof", ["C14","C21"], [(PT, "            if data.is_none() {\n                // multiply by cofactor\n                let old_self = &self.clone();", "            if data.map_or(true, |d| d.is_empty()) {\n                // multiply by cofactor\n                let old_self = &self.clone();")]),
 ("pt-neg-serde", ["C16"], [(PT, "    ge: ExtendedGroupElement,\n    var_time: bool,\n}\n\n/// " if False else "            return Err(MarshallingError::InvalidInput(\n                \"invalid Ed25519 curve point\".to_owned(),\n            ));", "            if data.len() == 32 && data[31] & 0x80 == 0 {\n                return Err(MarshallingError::InvalidInput(\n                    \"invalid Ed25519 curve point\".to_owned(),\n                ));\n            }")]),
 ("po-lagrange-dealer", ["C20","C06"], [(PD, "            deal.sec_share.i = i as usize;\n", "            deal.sec_share.i = if self.can_issue { i as usize } else { coeffs.iter().filter(|c| c.is_some()).count() - 1 };\n")]),
 ("vss-recover-mix", ["C01","C18"], [(PV, "        if deal.session_id == deals[0].session_id {\n            shares.push(Some(deal.sec_share.clone()));\n        } else {\n            return Err(VSSError::DealsSameID);\n        }", "        if deal.session_id == deals[0].session_id || shares.len() >= t {\n            shares.push(Some(deal.sec_share.clone()));\n        } else {\n            return Err(VSSError::DealsSameID);\n        }")]),
 ("vss-same-coeffs", ["C14","C01"], [(P, "    for _ in 1..t {\n        coeffs.push(group.scalar().pick(&mut rand));", "    for i in 1..t {\n        if i > 4 {\n            coeffs.push(coeffs[i - 4].clone());\n            continue;\n        }\n        coeffs.push(group.scalar().pick(&mut rand));")]),
]
MUTANTS = [m for m in MUTANTS if m[0] != "po-xy-early"]
