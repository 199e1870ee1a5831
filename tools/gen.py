#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VP, VR, VE = "src/share/vss/pedersen/vss.rs", "src/share/vss/rabin/vss.rs", "src/share/vss/error.rs"
DP, DS, DR = "src/share/dkg/pedersen/dkg.rs", "src/share/dkg/pedersen/structs.rs", "src/share/dkg/rabin/dkg.rs"
PO, DSS, SC, ED = "src/share/poly.rs", "src/sign/dss/dss_sig.rs", "src/sign/schnorr/schnorr_sig.rs", "src/sign/eddsa/eddsa_sig.rs"
EC, DH, RS, XO = "src/encrypt/ecies/ecies_impl.rs", "src/dh/dh_impl.rs", "src/util/random/random_stream.rs", "src/xof/blake3/xof.rs"
PT, SL, MA, EN = "src/group/edwards25519/point.rs", "src/group/edwards25519/scalar.rs", "src/group/internal/marshalling/marshal.rs", "src/encoding/encodings.rs"
KP, CU, RD = "src/util/key/key_pair.rs", "src/group/edwards25519/curve.rs", "src/random.rs"
TS = "fixed little histories: a few fixed group sizes, every message delivered once and in order, no crash, at most one hand-made bad message"

def m(*a):
    return [{"name": n, "where": w} for n, w in a]

P = []
def p(id, title, statement, over, text, why, files, mech, state=None, obs=None, claim=True, na=None, level_note="", tech=""):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": mech, "hook_needed": None}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if obs: d["anchors"]["observe_at"] = obs
    assert len(title) <= 80, title
    P.append((d, na, level_note, tech))

SCHED = ["schedules", "fault_sequences", "crash_points", "configurations", "histories"]
VSTATE = [("responses", "verdict of each verifier on the deal", "Aggregator.responses"),
          ("bad dealer", "an invalid justification was seen", "Aggregator.bad_dealer"),
          ("deal", "the deal under vote, with session id and threshold", "Aggregator.deal / t / sid")]

p("C01", "Pedersen VSS: certification and shares under any schedule and faults",
  "A verifier of a Pedersen verifiable secret sharing reports the deal certified exactly when the responses and justifications it has processed say so (all verifiers answered, or timed out with at least the threshold of approvals, no unjustified complaint, dealer not proven bad), and never for a dealer it holds proof against. Whenever honest verifiers hold certified deals, any threshold of their shares recovers one and the same secret, the one the public commitments commit to, and with an honest dealer that is the dealer's secret. With an honest dealer and an eventually reliable network every honest verifier ends with a certified valid deal.",
  SCHED, "every order, delay, loss with retransmission, duplication of messages, every crash/restart of verifiers and dealer, every subset of dishonest verifiers or a dishonest dealer, all n and t",
  TS + "; the orders in which responses, justifications, timeouts and deals can meet are never varied",
  [VP], m(("verification of a deal against its commitments", VP + " Aggregator::verify_deal"), ("collection of responses and complaints", VP + " Aggregator::verify_response, add_response"), ("justifications", VP + " Aggregator::verify_justification, Dealer::process_response"), ("certification", VP + " Aggregator::deal_certified, set_timeout")),
  VSTATE, ["Verifier::deal, deal_certified", "Dealer::deal_certified", "recover_secret"])
p("C02", "Rabin VSS: certification and shares under any schedule and faults",
  "A verifier of a Rabin verifiable secret sharing reports enough approvals and the deal certified exactly when the responses and justifications it has processed say so, and never for a dealer it holds proof against. Whenever honest verifiers hold certified valid deals, any threshold of their shares recovers one and the same secret, the dealer's if it is honest. With an honest dealer and an eventually reliable network every honest verifier ends with a certified valid deal.",
  SCHED, "every order, delay, loss with retransmission, duplication of messages, every crash/restart of verifiers and dealer, every subset of dishonest verifiers or a dishonest dealer, all n and t",
  TS, [VR], m(("verification of a deal against both commitments", VR + " Aggregator::verify_deal"), ("responses", VR + " Aggregator::verify_response"), ("justifications", VR + " Aggregator::verify_justification"), ("certification", VR + " Aggregator::enough_approvals, deal_certified, clean_verifiers")),
  VSTATE, ["Verifier::deal, deal_certified, enough_approvals", "recover_secret"])
p("C03", "Verifiable secret sharing: complaints hit bad deals, and only those",
  "In both verifiable secret sharings a verifier approves a deal exactly when the share in it is its own, lies on the committed polynomial and fits the agreed session and threshold, and complains otherwise. An honest dealer answers each complaint with a justification every verifier accepts, which clears the complaint; a justification revealing a wrong share, another verifier's share or other commitments marks the dealer bad for whoever processes it, for good. No sequence of false complaints, replayed responses or repeated justifications makes an honest dealer bad or lets a proven cheat be certified.",
  SCHED, "every corruption of a deal or justification, every set of false complainers, every order of deals, responses, justifications and timeouts",
  "one hand-made bad deal or bad justification per test, always in the same order",
  [VP, VR], m(("deal checks", VP + " / " + VR + " verify_deal"), ("complaint on failure", VP + " / " + VR + " process_encrypted_deal"), ("justification checks", VP + " / " + VR + " verify_justification"), ("dealer's answer", VP + " / " + VR + " Dealer::process_response")),
  VSTATE, ["the response returned for a deal", "deal_certified after each message"])
p("C04", "Pedersen DKG: all who finish agree on qualified set, key and polynomial",
  "Whenever honest participants of a Pedersen distributed key generation finish with a key share, they hold the same qualified set, the same public key and the same public polynomial; each share lies on that polynomial at its holder's index, and any threshold of shares recovers the private key of that public key, fewer do not. Every dealer that dealt honestly and whose messages arrive is qualified; a dealer with an unanswered complaint, or proven bad, is not. A participant never outputs a key before the distribution is certified or below the threshold of qualified dealers.",
  SCHED, "all n, t, all schedules with loss, duplication, reordering, delays, partitions that heal, crash/restart with snapshot state, silent participants, and up to n-t dishonest participants (bad shares, false complaints, withheld messages to all alike, wrong justifications)",
  TS, [DP, DS, VP], m(("deal processing", DP + " process_deal"), ("responses and resharing responses", DP + " process_response"), ("justifications", DP + " process_justification"), ("certification and QUAL", DP + " certified, threshold_certified, qual, is_in_qual, set_timeout"), ("key", DP + " dkg_key")),
  [("verifiers", "one VSS verifier per dealer", "DistKeyGenerator.verifiers"), ("timeout", "whether missing responses count as given up", "DistKeyGenerator.timeout")],
  ["certified", "threshold_certified", "qual", "dist_key_share"])
p("C05", "Pedersen DKG: progress once faults stop",
  "Once losses, partitions and crashes stop and messages between at least the threshold of honest participants are delivered (retransmitted where lost), every honest participant of a Pedersen distributed key generation becomes certified within a bounded number of deliveries after the timeout and obtains its key share. With every participant honest it does so without any timeout. Dishonest or silent participants up to n minus the threshold cannot prevent it.",
  ["schedules", "fault_sequences", "crash_points", "configurations"], "all fair schedules after a faulty prefix of any kind",
  "the tests run the happy path to the end, in lock step; none loses a message or restarts a node",
  [DP, VP], m(("certification", DP + " certified, threshold_certified"), ("timeout", DP + " set_timeout"), ("late or early messages", VP + " Verifier::process_response, Aggregator::verify_response")),
  None, ["certified", "dist_key_share"])
p("C06", "Resharing and renewal keep the secret over any history",
  "After any sequence of resharings (to the same, overlapping or disjoint groups, with other thresholds) and renewals, the public key is the one first generated, the new shares lie on one common public polynomial whose constant term is that key, and any new threshold of them recovers the same private key. New holders agree with each other on everything; shares of different generations do not combine into the key. An old member dealing a value other than its share is never part of the result.",
  SCHED, "all sequences of up to several resharings and renewals over all old/new groups and thresholds, under network faults, crashes and dishonest old members",
  "one resharing per test, between two fixed groups, with all messages delivered",
  [DP, DS], m(("resharing set-up", DP + " new_dist_key_handler"), ("old share consistency", DP + " process_deal, resharing_key"), ("responses of the new group", DP + " process_resharing_response"), ("renewal", DP + " DistKeyShare::renew, " + DS)),
  None, ["dist_key_share", "renew", "qualified_shares"])
p("C07", "Rabin DKG: all who finish agree on qualified set, key and polynomial",
  "Whenever honest participants of a Rabin distributed key generation finish with a key share, they hold the same qualified set, public key and public commitments, each share lies on them at its holder's index, and any threshold of shares recovers the private key of that public key, fewer do not. A qualified participant that publishes wrong secret commitments is complained about by every honest one that receives them, and its contribution is reconstructed from revealed shares to the value it dealt. An honest participant's secret commitments are never complained about nor reconstructed.",
  SCHED, "all n, t, all schedules with loss, duplication, reordering, crash/restart, silent and dishonest participants in both phases",
  TS, [DR, VR], m(("first phase", DR + " process_deal, process_response, process_justification, set_timeout, certified, qual"), ("secret commitments", DR + " secret_commits, process_secret_commits"), ("complaints", DR + " process_complaint_commits"), ("reconstruction", DR + " process_reconstruct_commits"), ("key", DR + " finished, dist_key_share")),
  [("commitments", "accepted or recovered commitments per dealer", "DistKeyGenerator.commitments"), ("pending reconstruction", "shares revealed so far", "DistKeyGenerator.pending_reconstruct"), ("reconstructed", "dealers done", "DistKeyGenerator.reconstructed")],
  ["qual", "finished", "dist_key_share"])
p("C08", "Rabin DKG: progress once faults stop",
  "Once losses, partitions and crashes stop, every honest participant of a Rabin distributed key generation with enough qualified participants certifies, exchanges secret commitments, reconstructs those proven wrong, and obtains its key share within a bounded number of deliveries after the timeouts, provided every qualified participant publishes some secret commitments, right or wrong. Silent dealers and false complaints cannot prevent it.",
  ["schedules", "fault_sequences", "crash_points", "configurations"], "all fair schedules after a faulty prefix of any kind",
  "the tests run the happy path to the end, in lock step",
  [DR, VR], m(("certification", DR + " certified, set_timeout"), ("second phase", DR + " process_secret_commits, process_complaint_commits, process_reconstruct_commits, finished")),
  None, ["certified", "finished", "dist_key_share"])
p("C09", "Threshold signing: valid exactly from a threshold of honest partials",
  "Signers holding shares of a long-term and of a one-time distributed key obtain a signature exactly when they have combined the threshold of valid partial signatures from distinct signers, in whatever order, with duplicates, invalid and foreign partial signatures in between; it then verifies under the group's public key as a threshold and as an ordinary Schnorr signature, and all signers obtain the same bytes. A partial signature that is wrong, from another session, by another signer or a copy is rejected and does not count. With fewer than the threshold no signature is produced.",
  SCHED, "all n, t, subsets, orders, losses, duplicates, crashes of signers and dishonest signers",
  "one fixed group signing one message in order", [DSS, SC, PO],
  m(("partial signature", DSS + " DSS::partial_sig"), ("verification of partials", DSS + " DSS::process_partial_sig"), ("enough", DSS + " DSS::enough_partial_sig"), ("combination", DSS + " DSS::signature"), ("verification", DSS + " verify / " + SC + " verify")),
  [("partials", "accepted partial signatures", "DSS.partials"), ("partials_idx", "whose they are", "DSS.partials_idx")], ["signature", "enough_partial_sig", "process_partial_sig"])
p("C10", "Messages count only if authentic: tampering in transit has no effect",
  "Deals, responses, justifications, secret commitments, complaints on commitments and partial signatures altered, forged, re-addressed or spliced in transit by anyone without the sender's key are rejected without changing what the recipient ends up with: the run with the attack ends, for every honest participant, with the same verdicts, qualified set and key as if those copies had not been sent. An attacker cannot make an honest dealer or participant appear to have misbehaved with them.",
  ["schedules", "fault_sequences", "inputs", "histories"], "all alterations of the authenticated messages at any point of any run, with the authentic copy arriving before, after or both",
  "tests alter a signature in two or three places and look at the returned error only",
  [VP, VR, DP, DR, DSS, SC], m(("deal signature and encryption", VP + " / " + VR + " decrypt_deal"), ("response signature", VP + " / " + VR + " verify_response"), ("DKG deal signature", DP + " process_deal"), ("commitments, complaints", DR + " process_secret_commits, process_complaint_commits"), ("partials", DSS + " process_partial_sig"), ("points on the curve only", PT)),
  None, ["state of every participant after each rejected message", "final result"])
p("C11", "Crash and restart from saved state is invisible",
  "A participant restarted from its serialised state behaves exactly like one that never stopped: same verdicts, same acceptance of every later message, same certified result and same key share or signature; saving and loading loses and changes nothing at any moment of any protocol run. A saved state cut short anywhere is refused when loaded, never taken for a complete one.",
  ["crash_points", "schedules", "histories"], "a crash before or after every processed message of every run, repeated, at any set of participants, with snapshots of any age followed by redelivery",
  "one serialisation round trip of a few fresh values; none in the middle of a protocol",
  [VP, VR, DP, DS, DR, DSS, PT, SL, PO], m(("serde of all states", VP + ", " + VR + ", " + DP + ", " + DR + ", " + DSS), ("points and scalars", PT + ", " + SL), ("polynomials", PO)),
  None, ["state after reload", "final result next to a twin without crashes"])
p("C12", "Hostile messages never crash a participant nor change its state",
  "No message or byte string, however malformed (any lengths, indices, thresholds, points, scalars, nonces, signatures), makes a participant panic, loop or allocate without bound: it is answered with an error or a complaint. A message that is rejected with an error leaves the participant's state as it was, and the protocol still completes afterwards among the honest.",
  ["inputs", "histories", "fault_sequences"], "all structured and byte-level malformations of every message type in any state of a run, from participants holding valid keys or from outsiders",
  "three or four hand-made wrong messages",
  [VP, VR, DP, DR, DSS, EC, SC, ED, PO, PT, SL, EN], m(("index and length checks", VP + ", " + VR + ", " + DP + ", " + DR), ("ciphertext and nonce checks", EC + ", " + DH + ", " + VP + " decrypt_deal"), ("decoding", EN + ", " + PT + ", " + SL)),
  None, ["no panic, bounded time and memory", "state before and after a rejected message"])
p("C13", "Encrypted data opens unchanged for its recipient only",
  "Whatever is encrypted to a public key or a shared key decrypts with the matching key to exactly what was encrypted, whatever its length, and any change of the ciphertext in transit (flip, cut, extension, splice, reuse, another nonce or context) is an error, never other data. No one else's key opens it, equal plaintexts give different ciphertexts, and neither messages, public states nor diagnostics of a run contain a secret of an honest participant.",
  ["inputs", "fault_sequences", "histories"], "all plaintexts, keys, ciphertext manipulations and interleavings of several senders",
  "one round trip and one wrong key each",
  [EC, DH, VP, VR, ED, PO], m(("ECIES", EC + " encrypt, decrypt"), ("AEAD from Diffie-Hellman", DH), ("encrypted deals", VP + " / " + VR + " encrypted_deal, decrypt_deal"), ("redacted output", VP + ", " + VR + ", " + ED + " fmt")),
  None, ["decrypted bytes or error", "all bytes on the wire and all Debug/Display output"])
p("C17", "Repeated messages count once",
  "Delivering any message of a protocol again (deal, response, justification, secret commitment, complaint, reconstruction share, partial signature), any number of times and at any later moment, does not change the outcome: no approval, complaint or partial signature is counted twice, no state the first delivery did not reach is reached, and no participant issues a second, different answer. The run with repetitions ends exactly as the same run without them.",
  ["schedules", "fault_sequences", "histories"], "all repetitions of all messages at all later positions of any run",
  "a single immediate repetition of a response in one test",
  [VP, VR, DP, DR, DSS], m(("responses once per verifier", VP + " / " + VR + " add_response"), ("deals once per dealer", VP + " / " + VR + " process_encrypted_deal, " + DP + " / " + DR + " process_deal"), ("partials once per signer", DSS + " process_partial_sig, partial_sig")),
  None, ["state before and after a repetition", "final result next to a twin without repetitions"])
p("C14", "Secrets come from entropy, or not at all",
  "Every private key, polynomial coefficient, nonce and ephemeral key is drawn from the randomness source: different entropy gives different values, no two draws repeat, and interrupted or short reads change nothing. When the source fails, at whatever call, the operation fails visibly and no key, deal, signature or ciphertext comes out. A stream mixed from several readers depends on every reader that works, tolerates the failure of some and reports an error when all fail; bounded numbers drawn from it are always within their bounds.",
  ["fault_sequences", "inputs", "configurations"], "entropy failing, interrupted or short at any call of any operation; any set of readers with any of them failing at any point",
  "tests use the working system source only, and one fixed pair of readers",
  [RS, RD, KP, EC, VP, VR, DP, SC, ED], m(("mixing readers", RS + " RandStream::xor_key_stream"), ("drawing", RD + " bits, random_int, bytes"), ("user entropy", DP + " new_dist_key_handler"), ("keys", KP)),
  None, ["values drawn", "errors or panics when the source fails"])
p("C15", "XOF is a faithful stream whatever the call pattern",
  "An extendable-output function gives, for what was written into it, one fixed byte stream: however the writes, reads and stream encryptions are cut into calls, cloned or interleaved with those of others, the bytes are the same as those of one write and one read. Writing after reading is an error that changes nothing, too short a destination is an error, reseeding continues from the next bytes of the stream. XOR-ing a message twice with the same stream gives it back.",
  ["inputs", "histories"], "all histories of write, read, xor, clone, reseed, flush and misuse",
  "fixed lengths, two or three chunk sizes", [XO, "src/xof/traits.rs", "src/cipher/stream.rs"],
  m(("stream", XO + " read, write, xor_key_stream"), ("reseed, clone", XO + " reseed, clone")), None, ["bytes read"])
p("C16", "Points and scalars survive any reader and writer, or the error shows",
  "Points and scalars written to and read back from a stream, a byte string, text or a saved state are the values written and encode to the same bytes, over any writer or reader that accepts or returns data in arbitrary pieces or is interrupted; exactly their encoding is consumed or produced. A failure of the medium (full disk, end of file, error) at any byte is reported and never gives a value. Encodings that are not of a point on the curve are rejected.",
  ["inputs", "fault_sequences"], "all values; all splits, interruptions and failure positions of the medium",
  "whole buffers in memory only", [MA, PT, SL, EN],
  m(("stream marshalling", MA), ("points", PT + " marshal_to, unmarshal_from, serde"), ("scalars", SL + " marshal_to, unmarshal_from, serde")), None, ["values, byte counts and errors"])
p("C18", "Shares recover the secret and polynomial in any order, subset and duplication",
  "From any threshold of distinct shares of a polynomial, in any order, with gaps, repetitions or more than needed, the secret, the private polynomial, the public commitment and the public polynomial recovered are the original ones; with fewer distinct shares recovery is an error. Public shares and evaluation agree with the private ones in the exponent; sums, products and equality of polynomials agree with those of their values. Different dealings and any one altered share are told apart by checking against the public polynomial.",
  ["inputs", "schedules", "configurations"], "all n, t, subsets, orders, losses and repetitions of shares",
  "one fixed n and t, shares in index order, at most the first few removed", [PO],
  m(("recovery", PO + " recover_secret, recover_pri_poly, recover_commit, recover_pub_poly"), ("evaluation and checks", PO + " eval, commit, check"), ("arithmetic", PO + " add, mul, equal")), None, ["recovered values and errors"])
p("C19", "Signatures verify exactly for signer, message and bytes as signed",
  "A Schnorr or EdDSA signature made by a signer verifies under that signer's public key for that message, whatever its length. Over a channel that alters, swaps, replays or re-encodes key, message or signature, nothing verifies that is not a triple the signer produced, including malleated forms (added group order, other encodings, small-order keys). A signer restored from its saved form has the same key and its deterministic signatures are the same bytes.",
  ["inputs", "fault_sequences", "crash_points"], "all messages and keys; all alterations of any part of the triple; save and restore at any moment",
  "fixed vectors and one altered byte", [SC, ED, PT, SL],
  m(("Schnorr", SC + " sign, verify, verify_with_checks"), ("EdDSA", ED + " sign, verify, verify_with_checks, marshal, unmarshal"), ("canonical and small-order checks", PT + ", " + SL)), None, ["verification result"])
p("C20", "Whole lifecycle: generate, sign, reshare, sign again under one public key",
  "A group that generates a key, signs with it, reshares or renews it through any history and signs again always signs under the one public key first generated, with every threshold of current holders and under crashes, loss and duplication in every phase. Partial signatures made with shares of different generations never combine into a valid signature, nor do fewer than the current threshold. Signatures made before stay valid.",
  SCHED, "all histories of generation, signing, resharing and renewal over changing groups, with faults in each phase",
  "each protocol is tested alone with hand-made shares", [DP, DR, DSS, PO],
  m(("key shares", DP + " dist_key_share / " + DR + " dist_key_share"), ("signing with them", DSS + " new_dss"), ("renewal", DS)), None, ["signatures verified under the first public key"])
p("C21", "Data embedded in a point comes back, whatever the stream and carriage",
  "Data of any length up to the capacity embedded into a point with any random stream comes back exactly, also after the point was stored, sent or copied, and the point is a valid one of the prime-order group. Longer data is cut to the capacity, and points carrying no data are reported as such or yield data within the capacity, never a crash.",
  ["inputs", "fault_sequences"], "all data up to and beyond the capacity, all streams including constant and repeating ones that end, all points",
  "a few fixed strings with the system source", [PT],
  m(("embedding", PT + " embed, embed_len"), ("extraction", PT + " data"), ("picking", PT + " pick")), None, ["data extracted"])
p("C22", "Threshold decryption by any threshold of current holders, in any generation",
  "Whatever is encrypted to a distributed public key (as a point blinded with a Diffie-Hellman secret) is opened by the answers of any threshold of current holders, whichever of the two key generations made the key, in whatever order the answers come, with some lost or repeated, after holders crashed and restarted, and after any history of resharings and renewals since. Fewer than the threshold, or answers mixed from shares of different generations, never open it.",
  SCHED, "all histories of generation, resharing and renewal with faults in each phase; all subsets, orders, losses and repetitions of answers",
  "encryption to one person only, with a hand-made key", [DP, DR, PO, PT],
  m(("key shares", DP + " dist_key_share, renew / " + DR + " dist_key_share"), ("combination of answers", PO + " recover_commit"), ("embedding and extraction", PT + " embed, data")), None, ["data opened"])
NAR = "a pure function of its inputs: no concurrency, time, I/O, randomness failure or second party for a schedule or fault to act on; input search or proof decides it, not fault simulation"
p("C30", "Edwards25519 group laws",
  "Point addition, subtraction, negation and multiplication obey the laws of a commutative group of prime order with its scalars, for all points and scalars, and fixed-base, variable-base and variable-time multiplication agree.",
  ["inputs"], "all points and scalars", "random samples and fixed vectors", [PT, "src/group/edwards25519/ge.rs", "src/group/edwards25519/fe.rs"],
  m(("group operations", PT + ", src/group/edwards25519/ge.rs")), na=NAR)
p("C31", "Scalar and integer-field arithmetic",
  "Scalar and modular integer arithmetic (addition, subtraction, product, inverse, quotient, power, encodings) agree with the integers modulo the field's modulus for all operands.",
  ["inputs"], "all operands and moduli", "random samples", [SL, "src/group/integer_field/integer.rs"],
  m(("arithmetic", SL + ", src/group/integer_field/integer.rs")), na=NAR)
p("C32", "EdDSA byte-for-byte conformance with RFC 8032",
  "Keys and signatures equal those RFC 8032 prescribes for every seed and message.",
  ["inputs"], "all seeds and messages", "the RFC's vectors only", [ED, CU], m(("signing", ED)), na=NAR)
p("C33", "Canonical encodings and small-order detection are exact",
  "A byte string is called canonical exactly when it is the shortest encoding of its value, and a point is called of small order exactly when its order divides the cofactor.",
  ["inputs"], "all byte strings and points", "fixed lists", [PT, SL], m(("checks", PT + " is_canonical, has_small_order; " + SL + " is_canonical")), na=NAR)
p("C35", "Secret-dependent time",
  "Operations on secrets take time independent of the secrets unless the variable-time variants are asked for.",
  ["inputs"], "all secrets", "no test measures time", ["src/group/edwards25519/ge.rs", "src/group/edwards25519/fe.rs", SL],
  m(("constant-time selection", "src/group/edwards25519/ge.rs")), na="needs measurement or analysis of the generated machine code; simulated time in a simulated run says nothing about it")

TECH = "deterministic simulation with fault injection: seeded random search over schedules and faults in an in-process simulator, checked against reference models, with shrinking and exact replay"
NOTE = {}
def main():
    done = set(open(os.path.join(ROOT, "tools", "claimed.txt")).read().split())
    P.sort(key=lambda x: x[0]["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for d, na, ln, te in P:
            if d["id"] in done or na:
                f.write(json.dumps(d) + "\n")
    man = {"version": 1, "setup_cmd": "bash /verif/check.sh build",
           "hooks": {"guard": "none", "enable": "no hook in /repo was needed: the seams are the library's readers, writers, streams and serialised states, and the C symbols getrandom and syscall, which the simulator's binary defines", "source_commits": []},
           "checks": [], "not_applicable": [],
           "notes": "One binary, /verif/sim (cargo, path dependency on /repo), decides all properties; check.sh builds it from /repo's current tree and runs one property. VERIF_SEED picks the seed; a violation's replay file is replayed with 'sim/target/release/kyber-sim replay FILE'. The commits in /repo are unguarded fixes of genuine defects (see DESIGN.md and known_findings.txt)."}
    for d, na, ln, te in P:
        i = d["id"]
        if na:
            man["not_applicable"].append({"property": i, "reason": na})
        elif i in done:
            man["checks"].append({"property": i, "quick_cmd": f"bash /verif/check.sh {i} quick",
                "thorough_cmd": f"bash /verif/check.sh {i} thorough", "technique": TECH,
                "level": "exploration",
                "level_note": "seeded search over many simulated runs of the real code; a pass says nothing was found in the runs counted in the evidence file, not that nothing exists. " + (ln or "")})
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
main()
