"""Independent SSZ: serialisation, hash tree root, generalized-index proofs (written from the consensus specification)."""
from crypto import sha
Z = [bytes(32)]
for _ in range(64): Z.append(sha(Z[-1] + Z[-1]))
def depth_for(n):
    d = 0
    while (1 << d) < n: d += 1
    return d
def chunks_of(b): return [b[i:i + 32].ljust(32, b"\0") for i in range(0, len(b), 32)]
class Pre(bytes): "an already serialised value"
def ser_(t, v): return bytes(v) if isinstance(v, Pre) else t.ser(v)
class T:
    fixed = None
    def leaves(self, v): raise NotImplementedError   # list of 32-byte nodes or (type, value) pairs
    def mixin(self, v): return None
    def depth(self): raise NotImplementedError
    def _leafroot(self, l): return l if isinstance(l, bytes) else l[0].htr(l[1])
    def _sub(self, ls, d, idx, level):
        """root of the subtree at given level (0=top of depth d), index idx"""
        span = 1 << (d - level); lo = idx * span
        if lo >= len(ls): return Z[d - level]
        if level == d: return self._leafroot(ls[lo])
        cur = [self._leafroot(x) for x in ls[lo:lo + span]]
        for k in range(d - level):
            if len(cur) & 1: cur.append(Z[k])
            cur = [sha(cur[i] + cur[i + 1]) for i in range(0, len(cur), 2)]
        return cur[0]
    def htr(self, v):
        r = self._sub(self.leaves(v), self.depth(), 0, 0)
        m = self.mixin(v)
        return r if m is None else sha(r + m)
    def node(self, v, g):
        """value of the node with generalized index g"""
        if g == 1: return self.htr(v)
        path = bin(g)[3:]
        m = self.mixin(v)
        if m is not None:
            if path[0] == "1":
                assert len(path) == 1
                return m
            path = path[1:]
        ls, d = self.leaves(v), self.depth()
        k = min(len(path), d)
        idx = int(path[:k] or "0", 2)
        if k < d or len(path) == d: return self._sub(ls, d, idx, k)
        l = ls[idx]
        assert not isinstance(l, bytes)
        return l[0].node(l[1], int("1" + path[d:], 2))
class Uint(T):
    def __init__(s, n): s.fixed = n
    def ser(s, v): return int(v).to_bytes(s.fixed, "little")
    def leaves(s, v): return [s.ser(v).ljust(32, b"\0")]
    def depth(s): return 0
class ByteVec(T):
    def __init__(s, n): s.fixed = n
    def ser(s, v): assert len(v) == s.fixed, (len(v), s.fixed); return bytes(v)
    def leaves(s, v): return chunks_of(v)
    def depth(s): return depth_for((s.fixed + 31) // 32)
class Bytes(T):
    def __init__(s, lim): s.lim = lim
    def ser(s, v): return bytes(v)
    def leaves(s, v): return chunks_of(v)
    def depth(s): return depth_for((s.lim + 31) // 32)
    def mixin(s, v): return len(v).to_bytes(32, "little")
class BitVec(T):
    def __init__(s, n): s.n = n; s.fixed = (n + 7) // 8
    def ser(s, v): return bytes(v) if isinstance(v, (bytes, bytearray)) else sum(1 << i for i, b in enumerate(v) if b).to_bytes(s.fixed, "little")
    def leaves(s, v): return chunks_of(s.ser(v))
    def depth(s): return depth_for((s.n + 255) // 256)
class BitList(T):
    def __init__(s, lim): s.lim = lim
    def ser(s, v): return (sum(1 << i for i, b in enumerate(v) if b) | (1 << len(v))).to_bytes(len(v) // 8 + 1, "little")
    def leaves(s, v): return chunks_of(sum(1 << i for i, b in enumerate(v) if b).to_bytes((len(v) + 7) // 8, "little"))
    def depth(s): return depth_for((s.lim + 255) // 256)
    def mixin(s, v): return len(v).to_bytes(32, "little")
def _seq(items):
    """items: list of (type, value)"""
    head, tail = [], []
    fl = sum(t.fixed if t.fixed is not None else 4 for t, _ in items)
    off = fl
    for t, v in items:
        b = ser_(t, v)
        if t.fixed is not None: head.append(b)
        else: head.append(off.to_bytes(4, "little")); tail.append(b); off += len(b)
    return b"".join(head + tail)
class Vector(T):
    def __init__(s, t, n): s.t, s.n = t, n; s.fixed = None if t.fixed is None else t.fixed * n
    def ser(s, v): assert len(v) == s.n; return _seq([(s.t, x) for x in v])
    def leaves(s, v): return chunks_of(s.ser(v)) if isinstance(s.t, Uint) else [(s.t, x) for x in v]
    def depth(s): return depth_for((s.n * s.t.fixed + 31) // 32 if isinstance(s.t, Uint) else s.n)
class List(T):
    def __init__(s, t, lim): s.t, s.lim = t, lim
    def ser(s, v): return _seq([(s.t, x) for x in v])
    def leaves(s, v): return chunks_of(s.ser(v)) if isinstance(s.t, Uint) else [(s.t, x) for x in v]
    def depth(s): return depth_for((s.lim * s.t.fixed + 31) // 32 if isinstance(s.t, Uint) else s.lim)
    def mixin(s, v): return len(v).to_bytes(32, "little")
class Container(T):
    def __init__(s, fields):
        s.fields = fields
        s.fixed = None if any(t.fixed is None for _, t in fields) else sum(t.fixed for _, t in fields)
    def ser(s, v): return _seq([(t, v[n]) for n, t in s.fields])
    def leaves(s, v): return [(t, v[n]) for n, t in s.fields]
    def depth(s): return depth_for(len(s.fields))
    def idx(s, name): return [n for n, _ in s.fields].index(name)
    def g(s, name): return (1 << s.depth()) + s.idx(name)
    def t(s, name): return dict(s.fields)[name]
class Non(T):
    fixed = None
    def ser(s, v): return b""
class Union(T):
    """value: (selector, inner value)"""
    def __init__(s, opts): s.opts = opts
    def ser(s, v): return bytes([v[0]]) + ser_(s.opts[v[0]], v[1])
class Raw(T):
    """already serialised, variable size"""
    def ser(s, v): return v
def gcat(*gs):
    r = 1
    for g in gs:
        d = g.bit_length() - 1
        r = (r << d) | (g ^ (1 << d))
    return r
def helpers(gs):
    """generalized indices of the witnesses of a multiproof, descending"""
    path, br = set(), set()
    for g in gs:
        while g > 1: path.add(g); br.add(g ^ 1); g >>= 1
    return sorted(br - path, reverse=True)
def multiproof(t, v, gs): return [t.node(v, h) for h in helpers(gs)]
def multiroot(leaves, proof):
    """leaves: dict gindex->node; returns the root or None"""
    hs = helpers(list(leaves))
    if len(hs) != len(proof): return None
    nodes = dict(zip(hs, proof)); nodes.update(leaves)
    for g in sorted(nodes, reverse=True):
        while g > 1:
            if g ^ 1 not in nodes: break
            p = g >> 1
            if p in nodes and p in leaves: break
            nodes[p] = sha(nodes[g & ~1] + nodes[g | 1]); g = p
    return nodes.get(1)
# ---- strict deserialisation
class SszError(Exception): pass
def _off(b, p):
    if p + 4 > len(b): raise SszError("offset outside")
    return int.from_bytes(b[p:p + 4], "little")
def deser(t, b):
    if isinstance(t, Raw): return b
    if isinstance(t, Non):
        if b: raise SszError("none not empty")
        return None
    if t.fixed is not None and len(b) != t.fixed: raise SszError("length %d != %d" % (len(b), t.fixed))
    if isinstance(t, Uint): return int.from_bytes(b, "little")
    if isinstance(t, (ByteVec, Bytes)):
        if isinstance(t, Bytes) and len(b) > t.lim: raise SszError("limit")
        return b
    if isinstance(t, BitVec): return [(b[i // 8] >> (i % 8)) & 1 for i in range(t.n)]
    if isinstance(t, BitList):
        if not b or not b[-1]: raise SszError("bitlist")
        n = (len(b) - 1) * 8 + b[-1].bit_length() - 1
        if n > t.lim: raise SszError("limit")
        return [(b[i // 8] >> (i % 8)) & 1 for i in range(n)]
    if isinstance(t, Union):
        if not b or b[0] >= len(t.opts): raise SszError("selector")
        return (b[0], deser(t.opts[b[0]], b[1:]))
    if isinstance(t, (Vector, List)):
        if t.t.fixed is not None:
            if len(b) % t.t.fixed: raise SszError("list size")
            r = [deser(t.t, b[i:i + t.t.fixed]) for i in range(0, len(b), t.t.fixed)]
        elif not b: r = []
        else:
            f = _off(b, 0)
            if f % 4 or f == 0 or f > len(b): raise SszError("first offset")
            os_ = [_off(b, 4 * i) for i in range(f // 4)] + [len(b)]
            if any(x > y for x, y in zip(os_, os_[1:])): raise SszError("offset order")
            r = [deser(t.t, b[x:y]) for x, y in zip(os_, os_[1:])]
        if isinstance(t, Vector) and len(r) != t.n: raise SszError("vector length")
        if isinstance(t, List) and len(r) > t.lim: raise SszError("limit")
        return r
    if isinstance(t, Container):
        out, p, dyn = {}, 0, []
        for n, f in t.fields:
            if f.fixed is not None:
                if p + f.fixed > len(b): raise SszError("container too short")
                out[n] = deser(f, b[p:p + f.fixed]); p += f.fixed
            else: dyn.append((n, f, _off(b, p))); p += 4; out[n] = None
        ends = [d[2] for d in dyn[1:]] + [len(b)]
        if dyn and dyn[0][2] != p: raise SszError("first offset")
        if not dyn and p != len(b): raise SszError("trailing")
        for (n, f, o), e in zip(dyn, ends):
            if o > e or e > len(b): raise SszError("offset order")
            out[n] = deser(f, b[o:e])
        return out
    raise SszError("type")
