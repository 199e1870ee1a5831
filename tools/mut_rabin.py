V = "share/vss/rabin/vss.rs"
D = "share/dkg/rabin/dkg.rs"
MUTANTS = [
 ("rv-certified-missing-ok", ["C02","C07"], [(V, "        let too_much_complaints = verifiers_unstable > 0 || self.bad_dealer;", "        let too_much_complaints =\n            verifiers_unstable > self.verifiers.len() - self.t || self.bad_dealer;")]),
 ("rv-clean-overwrite", ["C02","C08"], [(V, "            if let std::collections::hash_map::Entry::Vacant(e) = self.responses.entry(i as u32) {\n                e.insert(Response {", "            if !self.responses.get(&(i as u32)).map_or(false, |r| !r.signature.is_empty()) {\n                self.responses.insert(i as u32, Response {")]),
 ("rv-clean-approve-deal", ["C02","C07"], [(V, "                    approved: false,\n                    ..Response::default()", "                    approved: self.bad_dealer,\n                    ..Response::default()")]),
 ("rv-bad-dealer-approvals", ["C03","C02"], [(V, "        let too_much_complaints = verifiers_unstable > 0 || self.bad_dealer;", "        let too_much_complaints =\n            verifiers_unstable > 0 || (self.bad_dealer && self.responses.values().any(|r| !r.approved));")]),
 ("rv-sid-check-after-deal", ["C10"], [(V, "        if r.session_id != self.sid {\n            return Err(VSSError::ResponseInconsistentSessionId);", "        if self.deal.is_none() && r.session_id != self.sid {\n            return Err(VSSError::ResponseInconsistentSessionId);")]),
 ("rv-rnd-index", ["C03"], [(V, "        if fi.i != gi.i {\n            return Err(VSSError::DealInconsistentIndex);\n        }\n", "")]),
 ("rv-just-approved", ["C03","C17"], [(V, "        if r.approved {\n            return Err(VSSError::JustificationForApproval);\n        }\n", "")]),
 ("rv-dealer-answers-always", ["C17","C03"], [(V, "        self.aggregator.verify_response(r)?;\n\n        if r.approved {", "        match self.aggregator.verify_response(r) {\n            Err(VSSError::ResponseAlreadyExisting) => (),\n            other => other?,\n        }\n\n        if r.approved {")]),
 ("rv-add-response-complaint-wins", ["C17","C02"], [(V, "        if self.responses.get(&r.index).is_some() {\n            return Err(VSSError::ResponseAlreadyExisting);", "        if self.responses.get(&r.index).map_or(false, |known| known.approved) {\n            return Err(VSSError::ResponseAlreadyExisting);")]),
 ("rv-bad-skip", ["C11"], [(V, "    pub(crate) bad_dealer: bool,\n}", "    #[serde(skip)]\n    pub(crate) bad_dealer: bool,\n}")]),
 ("rv-hash-approved", ["C10"], [(V, "        h.write_u32::<LittleEndian>(self.index)?;\n        h.write_u32::<LittleEndian>(self.approved as u32)?;", "        h.write_u32::<LittleEndian>(self.index)?;")]),
 ("rv-context-verifiers", ["C13","C10"], [(V, "    for v in verifiers {\n        v.marshal_to(&mut h).unwrap();\n    }\n    let mut sum", "    let _ = verifiers;\n    let mut sum")]),
 ("rv-timeout-twice", ["C02","C11"], [(V, "        if let Some(a) = self.aggregator.as_mut() {\n            a.clean_verifiers()", "        if let Some(a) = self.aggregator.as_mut().filter(|a| a.responses.len() >= a.t) {\n            a.clean_verifiers()")]),
 ("rd-sc-no-sid", ["C10","C07"], [(D, "        if v.session_id() != sc.session_id {\n            return Err(DKGError::SecretCommitsWrongId);\n        }\n", "")]),
 ("rd-sc-sig-skip", ["C10"], [(D, "        let msg = sc.hash(&self.suite)?;\n        schnorr::verify(self.suite, &pubb, &msg, &sc.signature.clone())?;\n", "        let msg = sc.hash(&self.suite)?;\n        if !self.commitments.contains_key(&sc.index) {\n            schnorr::verify(self.suite, &pubb, &msg, &sc.signature.clone())?;\n        }\n")]),
 ("rd-sc-hash-index", ["C10"], [(D, "        h.update(\"secretcommits\".as_bytes());\n        h.write_u32::<LittleEndian>(self.index)?;", "        h.update(\"secretcommits\".as_bytes());")]),
 ("rd-sc-hash-first", ["C10"], [(D, "        for c in self.commitments.clone() {\n            c.marshal_to(&mut h)?", "        for c in self.commitments.iter().take(1) {\n            c.marshal_to(&mut h)?")]),
 ("rd-cc-nonqual", ["C10","C07"], [(D, "        if !self.is_in_qual(cc.index) {\n            return Err(DKGError::CommitComplaintNonQUAL);\n        }\n", "")]),
 ("rd-cc-verify-deal", ["C07"], [(D, "        v.verify_deal(&cc.deal, false)?;\n", "        if v.session_id() != cc.deal.session_id {\n            return Err(DKGError::CommitComplaintInvalid);\n        }\n")]),
 ("rd-cc-hash-dealer", ["C10"], [(D, "        h.update(\"commitcomplaint\".as_bytes());\n        h.write_u32::<LittleEndian>(self.index)?;\n        h.write_u32::<LittleEndian>(self.dealer_index)?;", "        h.update(\"commitcomplaint\".as_bytes());\n        h.write_u32::<LittleEndian>(self.index)?;")]),
 ("rd-rc-dup", ["C17","C07"], [(D, "            if r.index == rc.index {\n                return Ok(());", "            if r == rc {\n                return Ok(());")]),
 ("rd-rc-dup-share", ["C17","C07"], [(D, "            if r.index == rc.index {\n                return Ok(());", "            if r.share == rc.share {\n                return Ok(());")]),
 ("rd-rc-sid", ["C10"], [(D, "            if r.session_id != rc.session_id {\n                return Err(DKGError::ReconstructCommitsInvalidId);\n            }\n", "")]),
 ("rd-rc-t", ["C07"], [(D, "        if arr.len() >= self.t {", "        if arr.len() > self.t {")]),
 ("rd-rc-commitments-gate", ["C07","C10"], [(D, "            return Err(DKGError::CommitmentsNotInvalidated);", "            self.commitments.remove(&rc.dealer_index);")]),
 ("rd-finished-t", ["C08"], [(D, "        nb >= self.t && ret", "        nb >= self.participants.len() && ret")]),
 ("rd-finished-partial", ["C07"], [(D, "                ret = false;\n                return false;", "                ret = nb > self.t;\n                return false;")]),
 ("rd-certified-any", ["C07"], [(D, "        self.qual().len() >= self.t", "        self.qual().len() >= vss::minimum_t(self.participants.len())")]),
 ("rd-pending-drop", ["C11"], [(D, "    pub pending_reconstruct: HashMap", "    #[serde(skip)]\n    pub pending_reconstruct: HashMap")]),
 ("rd-reconstructed-skip", ["C11","C17"], [(D, "    pub reconstructed: HashMap<u32, bool>,", "    #[serde(skip)]\n    pub reconstructed: HashMap<u32, bool>,")]),
 ("rd-reconstructed-unset", ["C17","C07"], [(D, "            self.reconstructed.insert(rc.dealer_index, true);\n", "")]),
 ("rd-deal-reprocess", ["C17"], [(D, "        if self.verifiers.contains_key(&dd.index) {\n            return Err(DKGError::DistDealAlreadyProcessed);", "        if self.verifiers.get(&dd.index).map_or(false, |v| v.responses.len() > 2) {\n            return Err(DKGError::DistDealAlreadyProcessed);")]),
 ("rd-own-just", ["C08","C07"], [(D, "        v.process_justification(&j)?;\n\n        Ok(Some(Justification::<SUITE> {", "        let _ = v;\n\n        Ok(Some(Justification::<SUITE> {")]),
 ("rd-sc-nonqual", ["C07","C12"], [(D, "        if !self.is_in_qual(sc.index) {\n            return Err(DKGError::SecretCommitsFromNonQUAL);\n        }\n", "")]),
 ("rd-rc-share-hash", ["C10"], [(D, "        let share_buff = self.share.hash(*s)?;\n        h.update(&share_buff);\n        Ok(h.finalize().to_vec())", "        let _ = self.share.hash(*s)?;\n        Ok(h.finalize().to_vec())")]),
 ("rd-set-timeout-own", ["C08"], [(D, "        for (_, v) in self.verifiers.iter_mut() {\n            v.set_timeout()\n        }", "        for (i, v) in self.verifiers.iter_mut() {\n            if *i != self.index {\n                v.set_timeout()\n            }\n        }")]),
]
