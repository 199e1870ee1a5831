V = "share/vss/pedersen/vss.rs"
D = "share/dkg/pedersen/dkg.rs"
S = "share/dkg/pedersen/structs.rs"
MUTANTS = [
 ("pv-timeout-ignores-complaint", ["C01","C04"], [(V, "            return base_condition && !too_much_absents;", "            return !self.bad_dealer && enough_approvals && !too_much_absents;")]),
 ("pv-no-timeout-absent-le", ["C01"], [(V, "        base_condition && absent_verifiers == 0", "        base_condition && absent_verifiers + self.t < self.verifiers.len()")]),
 ("pv-timeout-absent-lt", ["C01"], [(V, "let too_much_absents = absent_verifiers > self.verifiers.len() - self.t;", "let too_much_absents = absent_verifiers >= self.verifiers.len() - self.t;")]),
 ("pv-approvals-gt", ["C01"], [(V, "let enough_approvals = approvals >= self.t;", "let enough_approvals = approvals > self.t;")]),
 ("pv-bad-dealer-only-before-timeout", ["C03"], [(V, """                // if one justification is bad, then flag the dealer as malicious
                self.bad_dealer = true;""", """                self.bad_dealer = self.bad_dealer || !self.timeout;""")]),
 ("pv-bad-dealer-reset", ["C03","C01"], [(V, """                r.status = STATUS_APPROVAL;
                // store""", """                r.status = STATUS_APPROVAL;
                self.bad_dealer = false;
                // store""")]),
 ("pv-response-replace", ["C17","C01","C03"], [(V, """        if self.responses.get(&r.index).is_some() {
            return Err(VSSError::ResponseAlreadyExisting);
        }""", """        if let Some(known) = self.responses.get(&r.index) {
            if known.status == r.status {
                return Err(VSSError::ResponseAlreadyExisting);
            }
        }""")]),
 ("pv-skip-timeout-serde", ["C11"], [(V, "    pub(crate) timeout: bool,\n}", "    #[serde(skip)]\n    pub(crate) timeout: bool,\n}")]),
 ("pv-skip-bad-dealer-serde", ["C11"], [(V, "    pub(crate) bad_dealer: bool,\n", "    #[serde(skip)]\n    pub(crate) bad_dealer: bool,\n")]),
 ("pv-resp-hash-no-index", ["C10"], [(V, "        h.write_u32::<LittleEndian>(self.index)?;\n        h.write_u32::<LittleEndian>(self.status as u32)?;", "        h.write_u32::<LittleEndian>(self.status as u32)?;")]),
 ("pv-resp-hash-no-sid", ["C10"], [(V, "        h.write_all(\"response\".as_bytes())?;\n        h.write_all(&self.session_id)?;", "        h.write_all(\"response\".as_bytes())?;")]),
 ("pv-resp-hash-no-status", ["C10"], [(V, "        h.write_u32::<LittleEndian>(self.index)?;\n        h.write_u32::<LittleEndian>(self.status as u32)?;", "        h.write_u32::<LittleEndian>(self.index)?;")]),
 ("pv-deal-index-unchecked", ["C03","C10"], [(V, """        if d.sec_share.i != self.index {
            return Err(VSSError::DealWrongIndex);
        }

        let t = d.t;""", """        let t = d.t;""")]),
 ("pv-just-status-any", ["C17","C03"], [(V, """        if r.status != STATUS_COMPLAINT {
            return Err(VSSError::JustificationForApproval);
        }
""", "")]),
 ("pv-sid-no-t", ["C03"], [(V, "    h.write_u32::<LittleEndian>(t as u32)?;\n\n    Ok(h.finalize().to_vec())", "    let _ = t;\n    Ok(h.finalize().to_vec())")]),
 ("pv-context-no-verifiers", ["C13","C10"], [(V, """    h.write_all("vss-verifiers".as_bytes()).unwrap();
    for v in verifiers {
        v.marshal_to(&mut h).unwrap();
    }
""", """    h.write_all("vss-verifiers".as_bytes()).unwrap();
    let _ = verifiers;
""")]),
 ("pv-threshold-incompat-skip", ["C03"], [(V, "        if d.t != self.t {\n            return Err(VSSError::DealIncompatibleThreshold);\n        }\n", "")]),
 ("pv-timeout-without-deal", ["C05","C01"], [(V, """        if let Some(a) = self.aggregator.as_mut() {
            a.timeout = true;
        }""", """        if let Some(a) = self.aggregator.as_mut() {
            a.timeout = a.deal.is_some();
        }""")]),
 ("pv-dealer-justify-any", ["C03","C17"], [(V, """        self.aggregator.verify_response(r)?;

        if r.status == STATUS_APPROVAL {""", """        let seen = self.aggregator.responses.len();
        if let Err(e) = self.aggregator.verify_response(r) {
            if seen < self.verifiers.len() {
                return Err(e);
            }
        }

        if r.status == STATUS_APPROVAL {""")]),
 ("pv-resp-unsigned-out", ["C10"], [(V, "        schnorr::verify(self.suite, &public.unwrap(), &msg, &r.signature)?;\n\n        self.add_response(r)", "        if !self.timeout || r.status == STATUS_COMPLAINT {\n            schnorr::verify(self.suite, &public.unwrap(), &msg, &r.signature)?;\n        }\n\n        self.add_response(r)")]),
 ("pd-marshal-no-index", ["C10"], [(S, "        deal.signature = Vec::new();\n", "        deal.signature = Vec::new();\n        deal.index = 0;\n")]),
 ("pd-processed-skip", ["C11"], [(D, "    pub processed: bool,\n", "    #[serde(skip)]\n    pub processed: bool,\n")]),
 ("pd-processed-unset", ["C17"], [(D, "                self.processed = true;\n", "")]),
 ("pd-set-timeout-with-deal", ["C05"], [(D, """        for (_, v) in self.verifiers.iter_mut() {
            v.set_timeout()
        }""", """        for (_, v) in self.verifiers.iter_mut() {
            if v.responses().len() >= self.new_t {
                v.set_timeout()
            }
        }""")]),
 ("pd-threshold-cert-reshare", ["C06","C04"], [(D, "            return self.qual().len() >= self.c.old_threshold;", "            return self.qual().len() >= self.c.threshold;")]),
 ("pd-dpub-check-newcomers", ["C06"], [(D, "            if deal_commits.unwrap_or_default().first() != Some(&expected_pub_share.v) {", "            if !self.can_issue && deal_commits.unwrap_or_default().first() != Some(&expected_pub_share.v) {")]),
 ("pd-just-dpub-check-gone", ["C06"], [(D, "            if j.justification.deal.commitments.first() != Some(&expected) {", "            if !self.can_issue && j.justification.deal.commitments.first() != Some(&expected) {")]),
 ("pd-qual-iter-stop", ["C04"], [(D, """    pub fn is_in_qual(&self, idx: u32) -> bool {
        let mut found = false;
        self.qual_iter(|i, _| {
            if i == idx {
                found = true;
                false
            } else {
                true
            }
        });
        found""", """    pub fn is_in_qual(&self, idx: u32) -> bool {
        let mut found = false;
        self.qual_iter(|i, v| {
            if i == idx {
                found = true;
            }
            !v.missing_responses().is_empty()
        });
        found""")]),
 ("pd-own-approve-reshare", ["C06","C04"], [(D, "        if found && !self.is_resharing {\n            self.verifiers", "        if found && (!self.is_resharing || resp.status) {\n            self.verifiers")]),
 ("pd-reshare-sharei", ["C06"], [(D, "            deal.sec_share.i = i as usize;\n", "            deal.sec_share.i = shares.iter().filter(|s| s.is_some()).count();\n")]),
 ("pd-renew-no-index-check", ["C06"], [(D, """        if self.share.i != g.share.i {
            return Err(DKGError::DifferentParty);
        }
""", "")]),
 ("pd-renew-zero-check", ["C06","C20"], [(D, """            .eq(&suite.point().base().mul(&suite.scalar().zero(), None))
        {
            return Err(DKGError::WrongRenewal);""", """            .eq(&suite.point().base().mul(&suite.scalar().zero(), None))
            && g.private_poly.len() != self.commits.len()
        {
            return Err(DKGError::WrongRenewal);""")]),
 ("pd-user-reader-mix", ["C14"], [(D, "            let rng_core = Box::new(StdRng::from_entropy()) as Box<dyn RngCore>;", "            let rng_core = Box::new(StdRng::seed_from_u64(c.new_nodes.len() as u64)) as Box<dyn RngCore>;")]),
 ("pd-user-only-ignored", ["C14"], [(D, "        if c.reader.is_some() && !c.user_reader_only {", "        if c.reader.is_some() && (!c.user_reader_only || c.threshold == c.new_nodes.len()) {")]),
 ("pd-certified-count", ["C05","C04"], [(D, "        good.len() >= self.c.old_nodes.len()", "        good.len() >= self.new_t.max(self.old_t)")]),
 ("pd-reshare-old-t", ["C06"], [(D, "        old_threshold = c.public_coeffs.clone().unwrap().len();", "        old_threshold = c.old_threshold.min(c.public_coeffs.clone().unwrap().len());")]),
 ("pd-nidx-oidx", ["C06","C04"], [(D, "        let private_share = share::poly::PriShare {\n            i: self.nidx,", "        let private_share = share::poly::PriShare {\n            i: if self.old_present { self.oidx } else { self.nidx },")]),
 ("pd-response-late-justify", ["C05","C03"], [(D, "        if !self.can_issue || resp.index != my_idx {", "        if !self.can_issue || resp.index != my_idx || self.timeout {")]),
 ("pd-qualified-shares-break", ["C04"], [(D, "            if invalid_deals.contains_key(&dealer_index) {\n                continue;", "            if invalid_deals.contains_key(&dealer_index) {\n                break;")]),
 ("pd-expected-deals", ["C04"], [(D, "                true => self.c.old_nodes.len() - 1,", "                true => self.c.new_nodes.len() - 1,")]),
]
