# the changes: id, property, [(file, before, after)], what it needs to show, what it breaks
SEEDS = [
 ('pvss-complaint-forgotten-at-timeout', 'C01',
  [('share/vss/pedersen/vss.rs',
    '            return base_condition && !too_much_absents;',
    '            return !self.bad_dealer && enough_approvals && !too_much_absents;')],
  'a verifier complains, the dealer never answers, somebody else is silent until the timeout, and the threshold of others approved',
  'after the timeout the deal is certified although a complaint stands against it'),
 ('pvss-cheat-forgiven', 'C03',
  [('share/vss/pedersen/vss.rs',
    '                // if one justification is bad, then flag the dealer as malicious\n                self.bad_dealer = true;',
    '                // if one justification is bad, then flag the dealer as malicious\n                self.bad_dealer = !self.bad_dealer;')],
  'two complaints, both answered with a wrong share before any of them is answered well',
  'the second proof that the dealer cheats clears it of the first, and its deal is certified when the complaints get a good answer later'),
 ('pvss-late-proof-ignored', 'C03',
  [('share/vss/pedersen/vss.rs',
    '                // if one justification is bad, then flag the dealer as malicious\n                self.bad_dealer = true;',
    '                self.bad_dealer = self.bad_dealer || !self.timeout;')],
  'a justification with a wrong share that arrives after the timeout, in a history where every complaint gets some good answer too',
  'a dealer whose bad justification comes after the timeout is not marked bad, and certified'),
 ('pvss-timeout-lost-in-restart', 'C11',
  [('share/vss/pedersen/vss.rs',
    '    pub(crate) timeout: bool,\n}',
    '    #[serde(skip)] pub(crate) timeout: bool,\n}')],
  'a crash and restart from saved state after the timeout with a verifier missing',
  'the restarted participant has forgotten that the timeout passed and never certifies'),
 ('pvss-verdict-not-signed', 'C10',
  [('share/vss/pedersen/vss.rs',
    '        h.write_u32::<LittleEndian>(self.index)?;\n        h.write_u32::<LittleEndian>(self.status as u32)?;',
    '        h.write_u32::<LittleEndian>(self.index)?;')],
  'a response altered in transit in its verdict only',
  'an approval turned into a complaint in transit (or back) is accepted as authentic'),
 ('pvss-verdict-of-another-session', 'C10',
  [('share/vss/pedersen/vss.rs',
    '        h.write_all("response".as_bytes())?;\n        h.write_all(&self.session_id)?;',
    '        h.write_all("response".as_bytes())?;')],
  'a response of an earlier session of the same people, spliced into a later one',
  'a response signed for another session counts'),
 ('rvss-complaint-answered-twice', 'C17',
  [('share/vss/rabin/vss.rs',
    '        self.aggregator.verify_response(r)?;\n\n        if r.approved {',
    '        match self.aggregator.verify_response(r) {\n            Err(VSSError::ResponseAlreadyExisting) => (),\n            other => other?,\n        }\n\n        if r.approved {')],
  'the same complaint delivered again to the dealer',
  'the dealer answers one complaint again and again'),
 ('rvss-answer-to-an-approval', 'C03',
  [('share/vss/rabin/vss.rs',
    '        if r.approved {\n            return Err(VSSError::JustificationForApproval);\n        }\n',
    '')],
  'a justification for a verifier that approved, with a wrong share in it',
  'an unasked justification turns an honest dealer bad, though nobody complained'),
 ('rvss-silent-count-as-approving', 'C02',
  [('share/vss/rabin/vss.rs',
    '                    approved: false,\n                    ..Response::default()',
    '                    approved: self.bad_dealer,\n                    ..Response::default()')],
  'a proven cheat and then a timeout with silent verifiers',
  'verifiers that never answered are recorded as approving'),
 ('rvss-proof-lost-in-restart', 'C11',
  [('share/vss/rabin/vss.rs',
    '    pub(crate) bad_dealer: bool,\n}',
    '    #[serde(skip)] pub(crate) bad_dealer: bool,\n}')],
  'a restart between the bad justification and the good one',
  'the restarted verifier has lost the proof and certifies a cheat'),

 ('pdkg-timeout-held-back', 'C05',
  [('share/dkg/pedersen/dkg.rs',
    '        for (_, v) in self.verifiers.iter_mut() {\n            v.set_timeout()\n        }',
    '        for (_, v) in self.verifiers.iter_mut() {\n            if v.responses().len() >= self.new_t {\n                v.set_timeout()\n            }\n        }')],
  'one silent member, and a timeout that fires before the responses of the others have come in',
  'the timeout is lost for deals that had few responses when it fired: the run never ends though enough members are honest and prompt'),
 ('pdkg-absent-holder-qualified', 'C04',
  [('share/dkg/pedersen/dkg.rs',
    '            if invalid_deals.contains_key(&dealer_index) {\n                continue;',
    '            if invalid_deals.contains_key(&dealer_index) {\n                break;')],
  'a run with a deal under an unanswered complaint and a holder that never answered, and an iteration order that meets that deal first',
  'qualified_shares names a holder that never confirmed its share, differently on each member'),
 ('pdkg-renewed-with-anothers-share', 'C06',
  [('share/dkg/pedersen/dkg.rs',
    '        if self.share.i != g.share.i {\n            return Err(DKGError::DifferentParty);\n        }\n',
    '')],
  'a renewal with the share of another holder',
  'renew gives a share that is on neither polynomial'),
 ('rdkg-complaint-without-proof', 'C07',
  [('share/dkg/rabin/dkg.rs',
    '        v.verify_deal(&cc.deal, false)?;\n',
    '        if v.session_id() != cc.deal.session_id {\n            return Err(DKGError::CommitComplaintInvalid);\n        }\n')],
  'a qualified member complains about good commitments, showing a share nobody dealt',
  "an honest dealer's polynomial is opened on the word of one liar"),
 ('rdkg-finished-needs-everybody', 'C08',
  [('share/dkg/rabin/dkg.rs',
    '        nb >= self.t && ret',
    '        nb >= self.participants.len() && ret')],
  'a member that stayed silent through the dealing phase',
  'a run with one silent member never reports that it is finished'),
 ('dss-enough-takes-anything', 'C09',
  [('sign/dss/dss_sig.rs',
    '        if !left.eq(&right) {',
    '        if !left.eq(&right) && !self.enough_partial_sig() {')],
  'a wrong partial signature that comes when enough good ones are in, from a lower index',
  'a wrong partial is accepted and used, and the signature does not verify'),
 ('pdkg-own-deal-again', 'C11',
  [('share/dkg/pedersen/dkg.rs',
    '    pub processed: bool,\n',
    '    #[serde(skip)] pub processed: bool,\n')],
  'a restart after the deals have been made, and deals asked for again, as after a crash while sending them',
  'the restarted member cannot give its deals any more: it processes its own deal a second time'),
 ('rdkg-pending-shares-lost', 'C11',
  [('share/dkg/rabin/dkg.rs',
    '    pub pending_reconstruct: HashMap',
    '    #[serde(skip)] pub pending_reconstruct: HashMap')],
  'a restart in the middle of a reconstruction',
  'the shares revealed so far are gone, the reconstruction never ends'),
 ('pvss-deal-for-another-group', 'C13',
  [('share/vss/pedersen/vss.rs',
    '    for v in verifiers {\n        v.marshal_to(&mut h).unwrap();\n    }\n',
    '    let _ = verifiers;\n')],
  'the same dealer and verifier in two groups, and a deal of one presented in the other',
  "the encryption is no longer bound to the group: the other group's deal opens"),
 ('pdkg-given-entropy-not-alone', 'C14',
  [('share/dkg/pedersen/dkg.rs',
    '        if c.reader.is_some() && !c.user_reader_only {',
    '        if c.reader.is_some() && (!c.user_reader_only || c.threshold == c.new_nodes.len()) {')],
  'a generator with its own entropy only, and a threshold of everybody',
  'a generator told to use the given entropy alone mixes in other randomness'),
 ('poly-equal-last-only', 'C18',
  [('share/poly.rs',
    '            let qb = q.coeffs[i].marshal_binary()?;\n            b &= pb.eq(&qb);',
    '            let qb = q.coeffs[i].marshal_binary()?;\n            b = pb.eq(&qb);')],
  'two polynomials that differ, but not in the last coefficient',
  'different polynomials compare equal'),
 ('xof-clone-in-a-block', 'C15',
  [('xof/blake3/xof.rs',
    '            implementation: self.implementation.clone(),\n            key: self.key.clone(),',
    '            implementation: match &self.implementation {\n                HashState::Readable { reader } => {\n                    let mut reader = reader.clone();\n                    reader.set_position(reader.position() & !63);\n                    HashState::Readable { reader }\n                }\n                other => other.clone(),\n            },\n            key: self.key.clone(),')],
  'a clone taken when the bytes read so far do not end at a multiple of 64',
  'the clone gives the bytes of the block it stands in again'),
 ('point-read-at-the-end', 'C16',
  [('group/internal/marshalling/marshal.rs',
    '    let mut buf = vec![0_u8; p.marshal_size()];\n    r.read_exact(&mut buf)?;',
    '    let mut buf = Vec::with_capacity(p.marshal_size());\n    r.take(p.marshal_size() as u64).read_to_end(&mut buf)?;\n    buf.resize(p.marshal_size(), 0);')],
  'a reader that ends within a point',
  'a truncated encoding is completed with zeroes and gives another point'),
 ('schnorr-small-key', 'C19',
  [('sign/schnorr/schnorr_sig.rs',
    '    if public.has_small_order() {\n        return Err(SignatureError::PublicKeySmallOrder);\n    }\n',
    '')],
  'a public key of small order',
  'a signature nobody made verifies under a key of small order'),
 ('schnorr-message-cut', 'C19',
  [('sign/schnorr/schnorr_sig.rs',
    '    h.write_all(msg)?;',
    '    h.write_all(&msg[..msg.len().min(4096)])?;')],
  'messages of more than 4096 bytes',
  'the tail of a long message is not signed'),
 ('eddsa-restored-over', 'C19',
  [('sign/eddsa/eddsa_sig.rs',
    '        self.prefix = prefix;\n',
    '        if self.prefix.is_empty() {\n            self.prefix = prefix;\n        }\n')],
  'a signer restored into an object that held another',
  'the restored signer uses the nonce prefix of the former one'),
 ('readers-half-dead', 'C14',
  [('util/random/random_stream.rs',
    '        if nerr == self.readers.len() {',
    '        if nerr * 2 > self.readers.len() {')],
  'a stream of three readers of which two fail',
  'a working reader is not enough'),
 ('embed-nothing', 'C21',
  [('group/edwards25519/point.rs',
    '            if data.is_none() {\n                // multiply by cofactor\n                let old_self = &self.clone();',
    '            if data.map_or(true, |d| d.is_empty()) {\n                // multiply by cofactor\n                let old_self = &self.clone();')],
  'embedding no bytes, a stream whose first candidate is not in the prime-order group',
  'the embedded empty string does not come back'),
 ('pvss-recover-of-two-sessions', 'C01',
  [('share/vss/pedersen/vss.rs',
    '        if deal.session_id == deals[0].session_id {\n            shares.push(Some(deal.sec_share.clone()));\n        } else {\n            return Err(VSSError::DealsSameID);\n        }',
    '        if deal.session_id == deals[0].session_id || shares.len() >= t {\n            shares.push(Some(deal.sec_share.clone()));\n        } else {\n            return Err(VSSError::DealsSameID);\n        }')],
  'more deals than the threshold, the last of another session',
  'a secret is recovered from the deals of different sessions'),
 ('poly-coefficients-again', 'C14',
  [('share/poly.rs',
    '    for _ in 1..t {\n        coeffs.push(group.scalar().pick(&mut rand));',
    '    for i in 1..t {\n        if i > 4 {\n            coeffs.push(coeffs[i - 4].clone());\n            continue;\n        }\n        coeffs.push(group.scalar().pick(&mut rand));')],
  'a threshold of six or more',
  'a coefficient of a sharing polynomial is used twice'),
 ('dss-copy-counts-late', 'C17',
  [('sign/dss/dss_sig.rs',
    '        if self.partials_idx.contains_key(&ps.partial.i) {\n            return Err(DSSError::PartialAlreadyReceived);\n        }\n',
    '        if self.partials_idx.contains_key(&ps.partial.i) && !self.enough_partial_sig() {\n            return Err(DSSError::PartialAlreadyReceived);\n        }\n')],
  'a partial signature delivered again when enough are in',
  'the copy is taken as another partial'),
 ('dss-session-not-looked-at', 'C09',
  [('sign/dss/dss_sig.rs',
    '        if ps.session_id != self.session_id {\n            return Err(DSSError::InvalidSessionId);\n        }\n',
    '')],
  'a partial signature whose signed session identifier is another one, the share in it being right',
  'a partial signature made for another session is accepted'),
 ('commit-copies-count', 'C22',
  [('share/poly.rs',
    '    shares: &[Option<PubShare<GROUP::POINT>>],\n    t: usize,\n    n: usize,\n) -> (ScalarMap<GROUP>, PointMap<GROUP>) {\n    // we are sorting first the shares since the shares may be unrelated for\n    // some applications. In this case, all participants needs to interpolate on\n    // the exact same order shares.\n    let mut sorted = Vec::with_capacity(n);\n    shares.iter().for_each(|share| {\n        if let Some(share) = share {\n            sorted.push(share);\n        }\n    });\n    sorted.sort_by(|i, j| i.i.cmp(&j.i));\n\n    let mut x = HashMap::new();\n    let mut y = HashMap::new();\n    for s in sorted {',
    '    shares: &[Option<PubShare<GROUP::POINT>>],\n    t: usize,\n    n: usize,\n) -> (ScalarMap<GROUP>, PointMap<GROUP>) {\n    // we are sorting first the shares since the shares may be unrelated for\n    // some applications. In this case, all participants needs to interpolate on\n    // the exact same order shares.\n    let mut sorted = Vec::with_capacity(n);\n    shares.iter().for_each(|share| {\n        if let Some(share) = share {\n            sorted.push(share);\n        }\n    });\n    sorted.sort_by(|i, j| i.i.cmp(&j.i));\n\n    let mut x = HashMap::new();\n    let mut y = HashMap::new();\n    for s in sorted.into_iter().take(t) {')],
  'the answer of one holder coming twice among the first ones',
  'copies count towards the threshold, and enough answers are not enough'),
 ('rvss-approvals-wrap', 'C02',
  [('share/vss/rabin/vss.rs',
    '        let mut app = 0usize;\n        self.responses.iter().for_each(|(_, r)| {\n            if r.approved {\n                app += 1;\n            }\n        });\n        app >= self.t',
    '        let mut app = 0u8;\n        self.responses.iter().for_each(|(_, r)| {\n            if r.approved {\n                app = app.wrapping_add(1);\n            }\n        });\n        app as usize >= self.t')],
  'a group of more than 255 verifiers, all but a few of which approve',
  'the approvals are counted modulo 256, so a deal a large group approved is not certified'),
 ('dss-signer-index-cut', 'C09',
  [('sign/dss/dss_sig.rs',
    '        if self.partials_idx.contains_key(&ps.partial.i) {',
    '        if self.partials_idx.contains_key(&(ps.partial.i & 0x7f)) {'),
   ('sign/dss/dss_sig.rs',
    '        self.partials_idx.insert(ps.partial.i, true);\n        self.partials.push(Some(ps.partial));',
    '        self.partials_idx.insert(ps.partial.i & 0x7f, true);\n        self.partials.push(Some(ps.partial));')],
  'a group of more than 128 in which two signers whose indices differ by 128 are needed',
  'the partial signature of a signer counts as a copy of that of another, 128 places before it'),
 ('dss-one-time-threshold', 'C09',
  [('sign/dss/dss_sig.rs',
    '            &self.partials,\n            self.t,\n            self.participants.len(),',
    '            &self.partials,\n            self.random.commitments().len(),\n            self.participants.len(),')],
  'a one-time key made with a lower threshold than the long-term key',
  'the signature is put together from as many partial signatures as the one-time key needs, too few for the long-term key, and does not verify'),
 ('pdkg-early-complaint-refused', 'C04',
  [('share/vss/pedersen/vss.rs',
    '        if !self.sid.is_empty() && r.session_id != self.sid {',
    '        if r.session_id != self.sid && (!self.sid.is_empty() || r.status == STATUS_COMPLAINT) {')],
  'a complaint that overtakes the deal it is about, on its way to one member, and a dealer who never answers it',
  'the complaint is refused and never counted there: that member qualifies a dealer whom the others do not'),
 ('rdkg-unqualified-cannot-finish', 'C08',
  [('share/dkg/rabin/dkg.rs',
    '        if !self.is_in_qual(sc.index) {\n            return Err(DKGError::SecretCommitsFromNonQUAL);',
    '        if !(self.is_in_qual(sc.index) && self.is_in_qual(self.index)) {\n            return Err(DKGError::SecretCommitsFromNonQUAL);')],
  'an honest participant whose own dealing did not qualify, for too few of its deals arrived before the timeout',
  'a participant outside the qualified set takes no commitments and never gets its key share'),
 ('rdkg-false-complaint-counts', 'C12',
  [('share/dkg/rabin/dkg.rs',
    '        // the verification should pass for the deal, and not with the secret\n        // commits. Verification 4) in DKG Rabin\'s paper.\n        v.verify_deal(&cc.deal, false)?;',
    '        // the verification should pass for the deal, and not with the secret\n        // commits. Verification 4) in DKG Rabin\'s paper.\n        if v.verify_deal(&cc.deal, false).is_err() {\n            self.commitments.remove(&cc.dealer_index);\n        }\n        v.verify_deal(&cc.deal, false)?;')],
  'a complaint about good commitments, signed by a participant of the group, revealing a deal that is not the dealer\'s',
  'the complaint is refused, and takes the good commitments with it all the same: the participant never finishes'),
]
