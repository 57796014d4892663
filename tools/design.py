"""Writes the per-property part of DESIGN.md (between the markers) from the tables of gen.py and the notes below."""
import json, os, re, runpy
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# oracle: what the code is compared with; limits: bounds, tolerances ("any" verdicts), false alarms that were corrected
D = {
"C01": ("acceptance predicate of Anchor.tla over ideal terms (who signed what for which domain); TLC checks it against the statement (2/3 of the *known* committee of the right period, right chain, right fork) before it is used as oracle",
        "one header per message; up to 2 (3) deviations at once; the cache of verified block roots is part of the history"),
"C02": ("the state machine LightClient.tla: which committees are genuinely derivable from the trusted ones; after each replayed transition the real trust is *probed* with messages signed by each committee of the world",
        "6 periods, 4 families of committees (canonical, forged, leaked), answers with up to 4 updates"),
"C03": ("LightClient.tla with a crash action before every storage write: the storage after the crash must be one of the model's crash states, and probing it after a restart must show a subset of genuine periods that includes the newest one",
        "storage limits 1..n, all writes of each operation; a single write is atomic (the plugin's duty; file_set of the CLI host is not atomic and is not claimed)"),
"C04": ("LightClient.tla, modes empty / checkpoint / periods", "a checkpoint is only discarded for what the spec lists (bootstrap answered by 404 is retried)"),
"C05": ("LightClient.tla with long range forgeries: an attacker owns the keys of old committees and answers with a self-consistent chain of updates", 
        "limitation of the design (not of the check): an attacker who owns old keys *and* names the canonical finalized block in otherwise forged updates is not caught by the confirmation the code performs; the statement therefore speaks of the finalized block that is named"),
"C06": ("LightClient.tla with two chains that share committee keys", "2 chains, 2 periods each"),
"C07": ("Anchor.tla, kinds chain and hist: the ideal term of a header contains its parent, the state commits to the historic roots", "header chains of up to 4, all supported forks"),
"C08": ("Merkle.tla computes the set of nodes a multi proof needs and the verdict; the root is computed by harness/py/ssz.py", "proofs of *padding* positions are excluded (their content is uninitialised memory; nobody asks for them)"),
"C09": ("Ssz.tla encodes and decodes the model's types; harness/py/ssz.py does the same for the real types of the library", "lenient acceptance of non-canonical but harmless encodings is \"any\""),
"C10": ("Trie.tla: the set of tries, the nodes on the path, and what a list of nodes proves", "key universe of 6 nibble paths incl. prefixes, branch values, embedded nodes"),
"C11": ("Trie.tla builds the canonical trie recursively; root and proofs of the real trie are compared after each insertion and verified again", "histories of 5 insertions over 8 keys; random ones of 60 insertions; values of all sizes around the limits of RLP"),
"C12": ("the world of harness/py (accounts, tries, blocks) is built by independent code; the truth of each request is read from it, and Account.tla says which messages prove it", "no freshness check for \"latest\" exists (any signed block is accepted, the statement says so)"),
"C13": ("Block.tla + reference JSON of the block", "finding legacy-v"),
"C14": ("Tx.tla + reference JSON of the transaction", "finding legacy-v; index and hash requests over all 5 transaction types"),
"C15": ("Tx.tla (receipts) + reference JSON", "findings gasUsed, effectiveGasPrice, logIndex are not provable with the data of the proof; each is a key of its own, another wrong field is reported"),
"C16": ("Logs.tla + reference matching of filters", "completeness of eth_getLogs can not be proven by receipts (only soundness is claimed); finding logIndex"),
"C17": ("Dispatch.tla: the table method -> proof type -> data type", "empty requests are only accepted for local methods"),
"C18": ("Prove.tla + the requirement that the result of the real verifier on the produced proof is the truth or there is no result", "retries are only required for answers the host contract calls retryable"),
"C19": ("Prove.tla: the real prover talks to a simulated chain (net.py), its proof goes to the real verifier with a client state of the scenario; the result must be the truth of the chain", "two unsigned head blocks in a row make \"latest\" unprovable: \"any\""),
"C20": ("Message.tla: a message altered in a node of its SSZ layout is rejected, or the result is the same truth as before; the state stays usable", "alterations of nodes that carry no meaning (e.g. unused data) may be accepted with the same result"),
"C21": ("ProverCache.tla validates recorded traces", "entries in use may exceed the limit (they can not be freed)"),
"C22": ("Rlp.tla decodes bytes by the definition of the yellow paper", "the library accepts non-minimal lengths: \"any\" for those, but never foreign memory"),
"C23": ("TxCache.tla (a bounded map) validates recorded traces", "eviction order is not constrained, only that what is answered was put and is the latest value"),
"C24": ("JsonText.tla (grammar) and JsonValue.tla (types)", "json texts that RFC 8259 rejects may be accepted where the result is harmless (the library is a reader, not a validator); memory is always checked"),
"C25": ("LogsCache.tla validates the answers against the plain filter semantics", "a miss is always allowed, a wrong answer never"),
"C26": ("Client.tla; servers are real local HTTP servers", "the first prover that answers 200 with garbage ends the call (\"any\")"),
"C27": ("Binding.tla validates recorded histories of the public C interface (also through ems.c of the WASM binding)", "false alarm removed: executing a context again after success or error is not specified by the header and yields an error"),
"C28": ("ClientTs.tla; real TypeScript sources bundled, real ems.c behind a stand-in of the web assembly module", "WarningWithFallback ignores fields missing on one side (documented comparison), unsupported methods are passed on by VerifiedOnly's siblings"),
"C29": ("TxGuard.tla: signed = asked", "damaged raw bytes that no node accepts are \"any\" (false alarm corrected); two different values for data and input are \"any\""),
"C30": ("Subs.tla validates recorded deliveries", "a call of eth_getFilterChanges that is already running may still answer after uninstalling (false alarm corrected); reorganisations are not modelled"),
"C31": ("OpSeq.tla; real secp256k1 signatures and zstd frames; the table of sequencers is compared with the published addresses", "recovery ids out of range but equal modulo 4, high s, v 27/28 and frames with trailing bytes or without content size denote the same signature/payload: \"any\"; chains whose entry is a placeholder (424, 291, 34443, 252, 5000, 8217) are not compared"),
"C32": ("Account, Block, Tx and Logs.tla replayed with a signed payload in place of the beacon block", "deposit nonce and receipt version of pre-Canyon deposits are \"any\"; requestsHash is the constant sha256(\"\") as OP-Stack defines; finding legacy-v"),
"C34": ("Call.tla: the machine with frames and journaling yields the observations, which the compiled program returns; the state, the tries and the proofs are built by independent code", "the interpreter is a stand-in (fakes/evm_mini.c): what is decided is the code of the repository around it (host, overrides, journaling, proofs, codes). A message with more or less than needed is \"any\": it may be rejected, but never accepted with another result. The host gives no block environment (NUMBER, TIMESTAMP, ... are zero), moves no value, ignores CREATE and transient storage: a limitation of the code that is not claimed"),
"C35": ("Call.tla: what an execution touches (used) decides what an honest node tells in a trace or access list; the real prover asks the emulated node (callpj.py), the real verifier executes its message and must yield the observations of the specification", "accounts that are the fee recipient are left out by the prover on purpose; they are not part of the scenarios"),
"C33": ("OpProve.tla; the real OP prover talks to a simulated chain and sequencer feed, the real verifier judges", "the block of shape \"many\" contains equal transactions and is left out of by-hash requests"),
}
def text():
    g = runpy.run_path(os.path.join(R, "tools", "gen.py"))
    out = []
    for p in sorted(g["P"], key=lambda p: p["id"]):
        o, l = D.get(p["id"], ("", ""))
        out += ["### %s %s" % (p["id"], p["title"]), "",
                "* Specified and checked: `spec/%s`. %s." % ("`, `spec/".join(re.split(r", *| and ", p["_s"])), p["_t"].rstrip(".")),
                "* Explored: %s." % p["quantifier"]["text"].rstrip("."),
                "* Oracle: %s." % o.rstrip("."), "* Bounds, tolerances: %s." % l.rstrip("."),
                "* Why tests do not reach it: %s" % p["why_tests_cant"], ""]
    return "\n".join(out)
def seeds():
    out = ["| bug | caught by | needs | breaks |", "|---|---|---|---|"]
    for i in sorted(os.listdir(os.path.join(R, "seeded"))):
        m = json.load(open(os.path.join(R, "seeded", i, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (i, m.get("caught_by", m["property"]), m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
    return "\n".join(out) + "\n"
if __name__ == "__main__":
    f = os.path.join(R, "DESIGN.md"); s = open(f).read()
    for n, t in (("properties", text), ("seeds", seeds)):
        a, b = "<!-- %s -->\n" % n, "<!-- /%s -->\n" % n
        s = s[:s.index(a) + len(a)] + t() + s[s.index(b):]
    open(f, "w").write(s)
