"""Synthetic beacon chains with an ideal sync committee signature scheme: committees, headers, states, bodies, light client data."""
import functools, json
from crypto import *
from ssz import *
from etypes import *
from exec_layer import *
class ChainSpec:
    def __init__(s, cid, gvr, forks, ver, spe, epp, wsp, gno=False):
        s.id, s.gvr, s.forks, s.ver, s.spe, s.epp, s.wsp, s.gno = cid, bytes.fromhex(gvr), forks, ver, spe, epp, wsp, gno
        s.spp = 1 << (spe + epp)
    def fork(s, slot): return sum(1 for e in s.forks if (slot >> s.spe) >= e)
    def period(s, slot): return slot // s.spp
    def electra(s, slot): return s.fork(slot) >= 5
MAINNET = ChainSpec(1, "4b363db94e286120d76eb905340fdd4e54bfe9f06bf33ff6cf5ad27f511bfe95", [74240, 144896, 194048, 269568, 364032, 411392], lambda f: bytes([f, 0, 0, 0]), 5, 8, 3682)
SEPOLIA = ChainSpec(11155111, "d8ea171f3c94aea21ebc42a1ed61052acf3f9209c00e4efbaaddac09ed9b8078", [50, 100, 56832, 132608, 222464, 272640], lambda f: bytes([0x90, 0, 0, 0x6f + f]), 5, 8, 3682)
GNOSIS = ChainSpec(100, "f5dcb5564e829aab27264b9becd5dfaa0170856112 24cb3036f573368dbb9d47".replace(" ", ""), [512, 385536, 648704, 889856, 1337856], lambda f: bytes([f, 0, 0, 0x64]), 4, 9, 1500, True)
CHIADO = ChainSpec(10200, "9d642dac73058fbf39c0ae41ab1e34e4d889043cb199851ded7095bc99eb4c1e", [90, 180, 244224, 516608, 948224], lambda f: bytes([f, 0, 0, 0x6f]), 4, 9, 1500, True)
CHAINS = {c.id: c for c in (MAINNET, SEPOLIA, GNOSIS, CHIADO)}
FORKD = C([("version", ByteVec(4)), ("root", B32)])
SIGND = C([("root", B32), ("domain", B32)])
def rnd(*a): return sha(b"|".join(x if isinstance(x, bytes) else str(x).encode() for x in a))
def domain(chain, slot, gvr=None, dtype=b"\x07\0\0\0", fork=None):
    """slot: the slot whose fork version signs (signature slot - 1)"""
    return dtype + FORKD.htr({"version": chain.ver(chain.fork(slot) if fork is None else fork), "root": gvr or chain.gvr})[:28]
def signing_root(chain, root, sig_slot, **kw): return SIGND.htr({"root": root, "domain": domain(chain, sig_slot - 1, **kw)})
class Committee:
    def __init__(s, label):
        s.label = label
        s.keys = [bls_key(rnd(label, i)) for i in range(512)]
        s.val = {"pubkeys": s.keys, "aggregatePubkey": bls_key(rnd(label, "agg"))}
        s.xs = [bls_x(k) for k in s.keys]
        s.root = SYNC_COMMITTEE.htr(s.val)
        s.blob = b"".join(s.keys)
    def sign(s, msg, bits):
        """ideal aggregate signature of the members whose bit is set"""
        v = sum(x for x, b in zip(s.xs, bits) if b) % P61 * bls_h(msg) % P61
        return bytes([0x80]) + bytes(87) + v.to_bytes(8, "big")
@functools.lru_cache(None)
def committee(label): return Committee(label)
def bits_n(n, start=0): return [1 if (i - start) % 512 < n else 0 for i in range(512)]
class PTree:
    """a Merkle tree with some prescribed nodes; all others are arbitrary"""
    def __init__(s, nodes, salt): s.n, s.salt, s.m = dict(nodes), salt, {}
    def node(s, g):
        if g in s.n: return s.n[g]
        if g in s.m: return s.m[g]
        if any(k > g and (k >> (k.bit_length() - g.bit_length())) == g for k in s.n): r = sha(s.node(2 * g) + s.node(2 * g + 1))
        else: r = rnd(s.salt, "n", g)
        s.m[g] = r
        return r
    def branch(s, g):
        out = []
        while g > 1: out.append(s.node(g ^ 1)); g >>= 1
        return out
    def root(s): return s.node(1)
G_CUR, G_NEXT, G_FIN = {False: 54, True: 86}, {False: 55, True: 87}, {False: 105, True: 169}
def exec_header(salt):
    return {"parentHash": rnd(salt, "p"), "feeRecipient": rnd(salt, "f")[:20], "stateRoot": rnd(salt, "s"), "receiptsRoot": rnd(salt, "r"), "logsBloom": bytes(256),
            "prevRandao": rnd(salt, "q"), "blockNumber": 1, "gasLimit": 1, "gasUsed": 1, "timestamp": 1, "extraData": b"", "baseFeePerGas": 1, "blockHash": rnd(salt, "b"),
            "transactionsRoot": rnd(salt, "t"), "withdrawalsRoot": rnd(salt, "w"), "blobGasUsed": 0, "excessBlobGas": 0}
def lc_header(h, salt): return {"beacon": h, "execution": exec_header(salt), "executionBranch": [rnd(salt, "eb", i) for i in range(4)]}
def header(slot, salt, parent=None, state=None, body=None, proposer=7):
    return {"slot": slot, "proposerIndex": proposer, "parentRoot": parent or rnd(salt, "parent"), "stateRoot": state or rnd(salt, "state"), "bodyRoot": body or rnd(salt, "body")}
def make_update(chain, slot, signer, nxt, bits=None, salt="u", fin_slot=None, sig_slot=None, electra=None, sign_chain=None, tweak=None, fin_salt=None):
    """light client update: attested header at `slot`, signed by committee `signer`, carrying committee `nxt`"""
    e = chain.electra(slot) if electra is None else electra
    bits = bits or bits_n(512)
    fin = header(slot - 64 if fin_slot is None else fin_slot, fin_salt or salt + "fin")
    tree = PTree({G_NEXT[e]: nxt.root, G_FIN[e]: HEADER.htr(fin), G_CUR[e]: rnd(salt, "cur")}, salt)
    att = header(slot, salt + "att", state=tree.root())
    ss = slot + 1 if sig_slot is None else sig_slot
    # the code signs with the fork version of the slot before the attested slot; both agree away from fork boundaries
    msg = signing_root(sign_chain or chain, HEADER.htr(att), ss)
    u = {"attestedHeader": lc_header(att, salt + "a"), "nextSyncCommittee": nxt.val, "nextSyncCommitteeBranch": tree.branch(G_NEXT[e]),
         "finalizedHeader": lc_header(fin, salt + "f"), "finalityBranch": tree.branch(G_FIN[e]),
         "syncAggregate": {"syncCommitteeBits": bits, "syncCommitteeSignature": signer.sign(msg, bits)}, "signatureSlot": ss}
    if tweak: tweak(u)
    return u, e
def make_bootstrap(chain, slot, com, salt="b", tweak=None):
    e = chain.electra(slot)
    tree = PTree({G_CUR[e]: com.root}, salt)
    h = header(slot, salt + "boot", state=tree.root())
    b = {"header": lc_header(h, salt), "currentSyncCommittee": com.val, "currentSyncCommitteeBranch": tree.branch(G_CUR[e])}
    if tweak: tweak(b)
    return b, e, HEADER.htr(h)
def ser_update(u, e): return lc_update_t(e).ser(u)
def updates_response(us, lighthouse=False, digest=b"\1\2\3\4"):
    if lighthouse:
        items = []
        for u, e in us: # container{u64 len, container{bytes4 digest, payload}}
            d = u if isinstance(u, bytes) else ser_update(u, e); items.append((len(d) + 4).to_bytes(8, "little") + (12).to_bytes(4, "little") + digest + (8).to_bytes(4, "little") + d)
        off, out = 4 * len(items), []
        for it in items: out.append(off.to_bytes(4, "little")); off += len(it)
        return b"".join(out + items)
    return b"".join((len(d) + 4).to_bytes(8, "little") + digest + d for d in ((u if isinstance(u, bytes) else ser_update(u, e)) for u, e in us))
def sign_header(chain, h, com, bits, sig_slot=None, **kw):
    """signature proof parts for header h"""
    return com.sign(signing_root(chain, HEADER.htr(h), h["slot"] + 1 if sig_slot is None else sig_slot, **kw), bits)
# ---- stored state of the verifier
def states_key(c): return "states_%d" % c
def sync_key(c, p): return "sync_%d_%d" % (c, p)
def states_blob(periods): return b"\x01" + b"".join(p.to_bytes(4, "little") for p in periods)
def store_periods(sut, chain, pc):
    """pc: list of (period, committee)"""
    for p, c in pc: sut.sset(sync_key(chain.id, p), c.blob + bytes(32))
    sut.sset(states_key(chain.id), states_blob([p for p, _ in pc]))
# ---- execution blocks
def payload(salt="x", number=20000000, txs=(), receipts_root=None, state_root=None, timestamp=1700000000, base_fee=10**9, withdrawals=(), extra=b"verif", bloomv=None, gas_used=21000):
    return {"parentHash": rnd(salt, "ph"), "feeRecipient": rnd(salt, "fr")[:20], "stateRoot": state_root or rnd(salt, "sr"), "receiptsRoot": receipts_root or rnd(salt, "rr"),
            "logsBloom": bloomv or bytes(256), "prevRandao": rnd(salt, "pr"), "blockNumber": number, "gasLimit": 30000000, "gasUsed": gas_used, "timestamp": timestamp,
            "extraData": extra, "baseFeePerGas": base_fee, "blockHash": rnd(salt, "bh", number), "transactions": list(txs), "withdrawals": list(withdrawals),
            "blobGasUsed": 131072, "excessBlobGas": 262144}
API = {"signedHeader1": "signed_header_1", "signedHeader2": "signed_header_2"}
def api_name(n):
    return API.get(n) or "".join("_" + ch.lower() if ch.isupper() else ch for ch in n)
def api_json(t, v):
    """a value in the JSON encoding of the beacon API"""
    if isinstance(t, Container):
        att = "attestingIndices" in dict(dict(t.fields).get("signedHeader1", t).fields)        # an attester slashing
        return {("attestation_" + n[-1] if att and n.startswith("signedHeader") else api_name(n)): api_json(f, v[n]) for n, f in t.fields}
    if isinstance(t, Uint): return str(v)
    if isinstance(t, (Vector, List)): return [api_json(t.t, x) for x in v]
    return "0x" + t.ser(v).hex()
def contents(kind, salt, e):
    """what a block of the consensus layer carries besides the payload: kind "some" (one or two of everything), "full" (all lists at their limits or long) or "none" """
    if kind == "none": return {}
    full = kind == "full"; n = lambda some, lim: lim if full else some
    R = lambda *a: rnd(salt, *a); K = lambda *a: (R(*a) * 2)[:48]; S = lambda *a: R(*a) * 3; U = lambda *a: int.from_bytes(R(*a)[:5], "little")
    cp = lambda *a: {"epoch": U("ep", *a), "root": R("cr", *a)}
    ad = lambda *a: {"slot": U("as", *a), "index": U("ai", *a) % 64, "beaconBlockRoot": R("br", *a), "source": cp("s", *a), "target": cp("t", *a)}
    sh = lambda *a: {"message": {"slot": U("hs", *a), "proposerIndex": U("hp", *a), "parentRoot": R("h1", *a), "stateRoot": R("h2", *a), "bodyRoot": R("h3", *a)}, "signature": S("h4", *a)}
    ia = lambda k, *a: {"attestingIndices": [U("ix", i, *a) for i in range(k)], "data": ad(*a), "signature": S("is", *a)}
    def at(i):
        bl = [(U("bit", i) >> (j % 37)) & 1 for j in range((2048 if not e else 4096) if full and i % 3 == 0 else 100 + 7 * i)]
        return dict({"aggregationBits": bl, "data": ad("at", i), "signature": S("at", i)}, **({"committeeBits": [(i >> (j % 5)) & 1 for j in range(64)]} if e else {}))
    b = {"proposerSlashings": [{"signedHeader1": sh(1, i), "signedHeader2": sh(2, i)} for i in range(n(1, 16))],
         "attesterSlashings": [{"signedHeader1": ia(3, 1, i), "signedHeader2": ia(40 if full else 5, 2, i)} for i in range(n(1, 1 if e else 2))],
         "attestations": [at(i) for i in range(n(3, 8 if e else 128))],
         "deposits": [{"proof": [R("dp", i, j) for j in range(33)], "data": {"pubkey": K("dk", i), "withdrawalCredentials": R("dw", i), "amount": 32 * 10**9, "signature": S("ds", i)}} for i in range(n(1, 16))],
         "voluntaryExits": [{"message": {"epoch": U("ve", i), "validatorIndex": U("vi", i)}, "signature": S("vs", i)} for i in range(n(2, 16))],
         "blsToExecutionChanges": [{"message": {"validatorIndex": U("bv", i), "fromBlsPubkey": K("bk", i), "toExecutionAddress": R("ba", i)[:20]}, "signature": S("bs", i)} for i in range(n(1, 16))],
         "blobKzgCommitments": [K("kz", i) for i in range(n(3, 9))]}
    if e: b["executionRequests"] = {"deposits": [{"pubkey": K("rk", i), "withdrawalCredentials": R("rw", i), "amount": 10**9, "signature": S("rs", i), "index": i} for i in range(n(1, 20))],
                                    "withdrawals": [{"sourceAddress": R("wa", i)[:20], "validatorPubkey": K("wk", i), "amount": i} for i in range(n(2, 16))],
                                    "consolidations": [{"sourceAddress": R("ca", i)[:20], "sourcePubkey": K("c1", i), "targetPubkey": K("c2", i)} for i in range(n(1, 2))]}
    return b
def body(pl, salt="x", electra=True, agg=None, more=None):
    b = {"randaoReveal": (rnd(salt, "r0") * 3), "eth1Data": {"depositRoot": rnd(salt, "d"), "depositCount": 5, "blockHash": rnd(salt, "e")}, "graffiti": rnd(salt, "g"),
         "proposerSlashings": [], "attesterSlashings": [], "attestations": [], "deposits": [], "voluntaryExits": [],
         "syncAggregate": agg or {"syncCommitteeBits": bits_n(512), "syncCommitteeSignature": bytes(96)}, "executionPayload": pl, "blsToExecutionChanges": [], "blobKzgCommitments": []}
    if electra: b["executionRequests"] = {"deposits": [], "withdrawals": [], "consolidations": []}
    b.update(more or {})
    return b
G_PAYLOAD = 25
def g_field(name): return gcat(G_PAYLOAD, PAYLOAD.g(name))
def g_tx(i): return gcat(g_field("transactions"), 2 << 20 | i)
class Block:
    """a beacon block with an execution payload"""
    def __init__(s, chain, slot, pl, salt="x", parent=None, agg=None, state=None, kind="none"):
        s.chain, s.slot, s.pl, s.e = chain, slot, pl, chain.electra(slot)
        s.body = body(pl, salt, s.e, agg, contents(kind, salt, s.e)); s.bt = BODY[s.e, chain.gno]
        s.header = header(slot, salt, parent=parent, body=s.bt.htr(s.body), state=state)
        s.root = HEADER.htr(s.header)
    def mp(s, gs): return multiproof(s.bt, s.body, gs)
    def sigproof(s, com, bits=None, **kw):
        bits = bits or bits_n(512)
        return (0, {"sync_committee_bits": bits, "sync_committee_signature": sign_header(s.chain, s.header, com, bits, **kw)})
    def message(s): return {"message": {"slot": s.header["slot"], "proposerIndex": s.header["proposerIndex"], "parentRoot": s.header["parentRoot"], "stateRoot": s.header["stateRoot"], "body": s.body}, "signature": bytes(96)}
    @functools.lru_cache(64)
    def signed_json(s): return json.dumps({"version": "electra" if s.e else "deneb", "execution_optimistic": False, "finalized": True, "data": api_json(signed_block_t(s.e, s.chain.gno), s.message())}, separators=(",", ":")).encode()
    @functools.lru_cache(64)
    def signed(s): return signed_block_t(s.e, s.chain.gno).ser(s.message())
