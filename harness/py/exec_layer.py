"""Reference execution layer: RLP, Merkle Patricia trie, transactions, receipts, blooms (written from the yellow paper / EIPs)."""
from crypto import keccak, secp_sign, secp_addr, secp_recover, SECP_N
# ---- RLP
def rlp(x):
    if isinstance(x, int): x = x.to_bytes((x.bit_length() + 7) // 8, "big")
    if isinstance(x, (list, tuple)):
        b = b"".join(rlp(e) for e in x); return _len(len(b), 0xc0) + b
    x = bytes(x)
    if len(x) == 1 and x[0] < 0x80: return x
    return _len(len(x), 0x80) + x
def _len(n, o):
    if n < 56: return bytes([o + n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big"); return bytes([o + 55 + len(b)]) + b
class RlpError(Exception): pass
def _hdr(b, p):
    if p >= len(b): raise RlpError
    c = b[p]
    if c < 0x80: return 0, p, 1, p + 1
    o = 0x80 if c < 0xc0 else 0xc0
    if c - o < 56: s, n = p + 1, c - o
    else:
        k = c - o - 55; s = p + 1 + k
        if s > len(b): raise RlpError
        n = int.from_bytes(b[p + 1:s], "big")
    if s + n > len(b): raise RlpError
    return (1 if o == 0xc0 else 0), s, n, s + n
def rlp_dec(b, p=0, top=True):
    l, s, n, e = _hdr(b, p)
    if top and e != len(b): raise RlpError
    if not l: return b[s:s + n]
    out, q = [], s
    while q < e:
        _, _, _, f = _hdr(b, q)
        if f > e: raise RlpError
        out.append(rlp_dec(b[q:f])); q = f
    return out
# ---- trie
EMPTY_ROOT = keccak(rlp(b"")); EMPTY_CODE = keccak(b"")
def nibs(k): return [x for c in k for x in (c >> 4, c & 15)]
def hp(ns, leaf):
    f = 2 if leaf else 0
    if len(ns) & 1: ns = [f + 1] + ns
    else: ns = [f, 0] + ns
    return bytes(ns[i] * 16 + ns[i + 1] for i in range(0, len(ns), 2))
class Trie:
    """kv: dict key(bytes) -> value(bytes); nodes are nested lists, embedded when their rlp is < 32 bytes"""
    def __init__(s, kv):
        s.kv = dict(kv)
        s.root_node = s._build([(nibs(k), v) for k, v in sorted(s.kv.items())]) if kv else None
    def _build(s, items):
        if len(items) == 1: return [hp(items[0][0], True), items[0][1]]
        k = 0
        while all(len(i[0]) > k for i in items) and len({i[0][k] for i in items}) == 1: k += 1
        if k: return [hp(items[0][0][:k], False), s._ref(s._build([(i[0][k:], i[1]) for i in items]))]
        br = []
        for n in range(16):
            sub = [(i[0][1:], i[1]) for i in items if i[0] and i[0][0] == n]
            br.append(s._ref(s._build(sub)) if sub else b"")
        v = [i[1] for i in items if not i[0]]
        return br + [v[0] if v else b""]
    _db = None
    def _ref(s, node):
        e = rlp(node)
        if len(e) < 32: return node
        h = keccak(e)
        if s._db is None: s._db = {}
        s._db[h] = node
        return h
    def root(s): return keccak(rlp(s.root_node)) if s.root_node else EMPTY_ROOT
    def proof(s, key):
        """list of rlp nodes from the root to the end of the path"""
        if not s.root_node: return []
        out, node, ns = [rlp(s.root_node)], s.root_node, nibs(key)
        while True:
            if len(node) == 17:
                if not ns: return out
                nx = node[ns[0]]; ns = ns[1:]
            else:
                p = nibs(node[0]); leaf = p[0] & 2; p = p[1:] if p[0] & 1 else p[2:]
                if leaf or ns[:len(p)] != p: return out
                ns = ns[len(p):]; nx = node[1]
            if isinstance(nx, list): node = nx; continue
            if not nx: return out
            node = s._db[nx]; out.append(rlp(node))
# ---- transactions
def _sig_digest(t, f): return keccak(t + rlp(f))
def make_tx(kind, sk, chain=1, nonce=0, to=b"\x11" * 20, value=0, data=b"", gas=21000, gas_price=10**9, max_fee=2 * 10**9, prio=10**8, access=(), blobs=(), max_blob=1, auths=(), unprotected=False):
    """kind 0..4 -> raw signed transaction"""
    al = [[a, list(k)] for a, k in access]
    if kind == 0:
        base = [nonce, gas_price, gas, to, value, data]
        d = keccak(rlp(base if unprotected else base + [chain, 0, 0]))
        r, s, p = secp_sign(sk, d)
        return rlp(base + [27 + p if unprotected else 35 + 2 * chain + p, r, s])
    if kind == 1: f = [chain, nonce, gas_price, gas, to, value, data, al]
    if kind == 2: f = [chain, nonce, prio, max_fee, gas, to, value, data, al]
    if kind == 3: f = [chain, nonce, prio, max_fee, gas, to, value, data, al, max_blob, list(blobs)]
    if kind == 4: f = [chain, nonce, prio, max_fee, gas, to, value, data, al, [list(a) for a in auths]]
    t = bytes([kind]); r, s, p = secp_sign(sk, keccak(t + rlp(f)))
    return t + rlp(f + [p, r, s])
# ---- receipts
def bloom(logs):
    b = bytearray(256)
    for l in logs:
        for x in [l["address"]] + list(l["topics"]):
            h = keccak(x)
            for i in (0, 2, 4):
                v = ((h[i] << 8) | h[i + 1]) & 2047
                b[255 - v // 8] |= 1 << (v % 8)
    return bytes(b)
def make_receipt(kind, status, cum_gas, logs, *deposit):
    r = rlp([status, cum_gas, bloom(logs), [[l["address"], list(l["topics"]), l["data"]] for l in logs]] + list(deposit))
    return r if kind == 0 else bytes([kind]) + r
def index_key(i): return rlp(i)
def index_trie(items): return Trie({index_key(i): v for i, v in enumerate(items)})
def account_rlp(nonce, balance, storage_root, code_hash): return rlp([nonce, balance, storage_root, code_hash])
