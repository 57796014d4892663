"""Writes properties.jsonl and MANIFEST.json from the table below (only properties whose check exists are claimed)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = "src/chains/eth/verifier/"
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, spec, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=mech, **kw), _t=technique, _n=note, _s=spec))
IDEAL = "BLS is replaced by an ideal additive scheme with the same interface (signatures verify only for exactly these keys and this message); all other code is the real code of /repo, built with AddressSanitizer."
TV = "The fixtures replay a handful of recorded honest proofs; "
prop("C01", "A result only counts with a genuine sync committee signature on its header",
     "Whatever proof a prover sends, a result is only reported as verified if the beacon header it is proven against (or one that commits to it) carries an aggregate signature, valid for this chain, fork and message, of at least 2/3 of the sync committee the client trusts for that period (or the preceding period's committee). Earlier verifications, successful or failed, never change that verdict. Every genuinely signed header is accepted.",
     ["inputs", "histories", "configurations"], "all combinations of signer set, claimed bits, fork version, genesis, domain, header fields, known committees, position in the period, and previous verifications", TV + "no fixture contains an adversarial signature, and none verifies twice with the same client.",
     [V + "beacon_header.c", V + "sync_committee.c", "src/util/crypto.c"], ["signature over the signing root", "participation threshold", "cache of validated block roots"],
     "TLA+ specification Anchor.tla (ideal signature terms), TLC enumerates scenarios, each is built for real and replayed", IDEAL, "Anchor.tla")
prop("C02", "Light client updates only ever add genuine committees",
     "A sync committee becomes trusted only through an update whose attested header is signed by at least 2/3 of an already trusted committee (of that or the preceding period) and whose branches prove the next committee and the finalized header in the attested state. Whatever updates a beacon node returns or a proof carries (forged, truncated, reordered, duplicated, of another chain, malformed), no other committee is ever trusted, the verdict is the same as with only the genuine prefix, and the client neither crashes nor loops.",
     ["inputs", "histories", "fault_sequences"], "all sequences of update answers up to the model's bounds, in all trust states reached", TV + "updates in fixtures are always honest and complete.",
     [V + "sync_committee.c", V + "sync_committee_state.c"], ["committee chaining", "update parsing", "branch verification"],
     "TLA+ specification LightClient.tla explored by TLC; every transition replayed against the real code incl. probes of the resulting trust", IDEAL, "LightClient.tla")
prop("C03", "The stored trust state is bounded, consistent and survives power loss",
     "After every operation, and after losing power before any single storage write, the client lists only periods whose genuine committee it can use, never more than the host allows (and never more than fit), and never loses its newest period - nor its oldest when there is room for three. A restarted client continues with exactly this state, and a storage that refuses writes leads to an error, never to a hang or to wrong trust.",
     ["crash_points", "histories", "configurations"], "every write of every operation in every reachable trust state, for all storage limits", "The tests never interrupt a write, rarely exceed the storage limit, and never continue after a restart.",
     [V + "sync_committee_state.c"], ["order of writes", "retention"], "LightClient.tla with crash, read-only and restart actions; TLC; fault injection at every storage write of the replayed transitions", IDEAL + " Atomicity of a single write is the storage plugin's contract.", "LightClient.tla")
prop("C04", "Trust starts only from the configured checkpoint",
     "A client without trust state starts only from the checkpoint the user configured (or, without one, the checkpoint of the independent checkpoint source): the bootstrap must hash to this checkpoint and its committee must be proven in that block's state. A configured checkpoint never replaces existing trust, and no data of a prover or beacon node can introduce another starting point.",
     ["inputs", "histories", "fault_sequences"], "all bootstrap answers and pushed bootstraps in all initial states", TV + "no test offers a wrong bootstrap.",
     [V + "sync_committee_state.c", V + "sync_committee.c"], ["bootstrap verification", "checkpoint handling"], "LightClient.tla (empty / checkpoint / periods modes), TLC, replay", IDEAL, "LightClient.tla")
prop("C05", "After a long absence updates need an independent confirmation",
     "If the gap between the newest trusted period and the needed one exceeds the chain's weak subjectivity period, the fetched updates are used only if the newest finalized block they name is confirmed by the independent checkpoint source. If it contradicts them, or they turn out invalid, nothing of them is trusted and the old state is dropped; if the source does not answer, nothing changes.",
     ["inputs", "histories", "fault_sequences", "configurations"], "all gaps around the boundary, all answers of both sources, all crash points", "The tests contain no gap beyond the weak subjectivity period.",
     [V + "sync_committee_state.c"], ["weak subjectivity check before storing"], "LightClient.tla with long range forgeries signed by leaked old keys, TLC, replay", IDEAL + " An attacker that puts the canonical finalized header into otherwise forged updates is outside of what the mechanism can detect.", "LightClient.tla")
prop("C06", "Chains never influence each other",
     "Verifying, syncing or failing on one chain never changes the trust state or verdicts of another chain, and signatures, updates or bootstraps of one chain are never accepted on another one, even if both use the same committee keys.",
     ["histories", "inputs", "configurations"], "all interleavings of operations on two chains up to the bound", "The tests use one chain per process state.",
     [V + "sync_committee_state.c", V + "beacon_header.c", "src/chains/eth/ssz/beacon_types.c"], ["storage keys per chain", "signing domain"], "LightClient.tla with two chains, TLC, replay", IDEAL, "LightClient.tla")
prop("C07", "Unsigned headers count only if linked to a signed one",
     "A header that is not signed itself is accepted only if it is an ancestor of a signed header through the given intermediate headers, or one of the historic block roots committed by the state of a signed header. Any other link - altered, missing, swapped or duplicated headers, an index pointing anywhere else in the state, an altered or resized branch - is rejected, and every genuine link is accepted.",
     ["inputs", "configurations"], "all deviations (pairs; triples in the thorough tier) from honest header chains and historic proofs in all supported forks", TV + "no fixture contains a wrong link.",
     [V + "beacon_header.c", "src/util/ssz_merkle.c"], ["parent root chain", "generalized index of block roots"], "Anchor.tla (kinds chain and hist), TLC, replay", IDEAL, "Anchor.tla")
exec(open(os.path.join(R, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(R, "tools", "props_more.py")) else None
NA = []
def main():
    have = [p for p in P if os.path.exists(os.path.join(R, "harness", "py", "props", p["id"].lower() + ".py"))]
    with open(os.path.join(R, "properties.jsonl"), "w") as f:
        for p in have: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 harness/py/build.py asan", "hooks": {"guard": "none", "enable": "no hooks are needed: the driver links the unmodified sources and replaces only BLS, the storage plugin and the clock", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "python3 harness/py/check.py %s quick" % p["id"], "thorough_cmd": "python3 harness/py/check.py %s thorough" % p["id"], "technique": p["_t"], "level": "model_checking", "level_note": p["_n"]} for p in have],
         "not_applicable": NA, "notes": "see DESIGN.md"}
    json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
    for p in have:
        assert len(p["title"]) <= 80, p["id"]; assert p["statement"].count(". ") <= 3, p["id"]
main()
