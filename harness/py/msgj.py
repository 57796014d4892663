"""Replays Message.tla: honest messages with altered bytes or structure."""
import functools, json
import acct, anchor, lc, dispj, blkj, txj
from blkw import *
from ssz import *
import etypes as E
LEAF = (Uint, ByteVec, BitVec, BitList)
def walk(t, b, base, path, out):
    """the nodes of a serialised value: (kind, number, position, length, path)"""
    if isinstance(t, Non): return
    if isinstance(t, LEAF) or (isinstance(t, Vector) and t.fixed and t.fixed > 2000): out.append(("fix", len(b), base, len(b), path)); return
    if isinstance(t, (Bytes, Raw)): out.append(("dyn", len(b), base, len(b), path)); return
    if isinstance(t, Union):
        out.append(("sel", len(t.opts), base, 1, path)); walk(t.opts[b[0]], b[1:], base + 1, path + ("u",), out); return
    if isinstance(t, (Vector, List)):
        if isinstance(t, List): out.append(("list", len(b), base, len(b), path))
        if not b: return
        if t.t.fixed is not None: el = [(i, i + t.t.fixed) for i in range(0, len(b), t.t.fixed)]
        else:
            n = _off(b, 0) // 4; o = [_off(b, 4 * i) for i in range(n)] + [len(b)]; el = list(zip(o, o[1:]))
        for i in sorted({0, len(el) // 2, len(el) - 1}):
            if t.t.fixed is None: out.append(("off", 0, base + 4 * i, 4, path + (i,)))
            walk(t.t, b[el[i][0]:el[i][1]], base + el[i][0], path + (i,), out)
        return
    p, dyn = 0, []
    for n, f in t.fields:
        if f.fixed is not None: walk(f, b[p:p + f.fixed], base + p, path + (n,), out); p += f.fixed
        else: dyn.append((n, f, _off(b, p))); out.append(("off", 0, base + p, 4, path + (n,))); p += 4
    for (n, f, o), e in zip(dyn, [d[2] for d in dyn[1:]] + [len(b)]): walk(f, b[o:e], base + o, path + (n,), out)
def _off(b, p): return int.from_bytes(b[p:p + 4], "little")
@functools.lru_cache(None)
def nodes(k):
    b = message(k)[0]; out = [("msg", len(b), 0, len(b), ())]
    walk(E.REQUEST, b, 0, (), out)
    return out
ANC = dict(chain="A", era="electra", pos="mid", store="both", com="cur", n=512, bits="exact", gen="ok", fork="ok", typ="ok", hdr="none", sig="ok", tgt="none", len=2, link="none", loc="roots", ix="none", br="ok", prime="nothing")
KINDS = ["bal", "code", "storage", "proof", "blknum", "blkhash", "bn", "txhash", "txbn", "receipt", "logs", "verlogs", "call", "a/chain", "a/hist", "a/summ", "lc/boot", "lc/upd", "proof0", "blkfull"]
@functools.lru_cache(None)
def message(k):
    """(message, method, arguments, accepts(result), chain, prepare(su))"""
    if k.startswith("a/"):
        kind, loc = {"a/chain": ("chain", "roots"), "a/hist": ("hist", "roots"), "a/summ": ("hist", "summ")}[k]
        c, per, req, _, num = anchor.build(dict(ANC, kind=kind, loc=loc))
        return req, "eth_blockNumber", "[]", lambda r: r == hex(num), c.id, lambda su: store_periods(su, c, [(p, anchor.K(c, "T", p)) for p in (per - 1, per)]), None
    if k.startswith("lc/"):
        c, bp = "A", 6
        if k == "lc/boot":
            req = lc.req(c, bp + 1, "T", ("ok", "ok", bp, bp, bp)); cp = "0x" + lc.bootstrap(c, "ok", bp)[1].hex()
            return req, "eth_blockNumber", "[]", lambda r: r == hex(1000 + bp + 1), lc.ch(c).id, lambda su: None, cp
        req = lc.req(c, bp + 2, "T", ("ok", "none", bp, bp + 1, bp))
        return req, "eth_blockNumber", "[]", lambda r: r == hex(1000 + bp + 2), lc.ch(c).id, lambda su: store_periods(su, lc.ch(c), [(lc.rp(c, bp), lc.com(c, "T", bp))]), None
    def prep(su): store_periods(su, MAINNET, [(p, com("main", p)) for p in sorted({MAINNET.period(SLOT["main", "electra"]) + i for i in (-1, 0)})] + [(p, acct.com(p)) for p in (acct.PER - 1, acct.PER)])
    if k == "proof0":
        s = dict(method="proof", acct="N", keys="l12", state="cur", addr="ok", acc="ok", sto="ok", blk="ok", mp="ok", hdr="ok", breq="num", argn="lower", data="ok")
        req, me, args = acct.build(s); return req, me, args, lambda r: acct.same(s, r, acct.truth(s, "cur")), MAINNET.id, prep, None
    if k == "blkfull":
        s = dict(method="num", chain=dispj.CHN, shape="all", state="cur", full="true", breq="right", pf="ok", mp="ok", hdr="ok", un="ok", data="ok", argn="lower")
        req, me, args = blkj.build(s); return req, me, args, lambda r: not [d for d in diff(r, blkj.truth(s, "cur")) if not d[0].endswith(".v")], MAINNET.id, prep, None
    if k in ("d/block", "d/tx"):                                     # the data is (unnecessarily) part of the message
        o = {"d/block": "blknum", "d/tx": "txhash"}[k]; req, me, args, good = dispj.honest(o)
        v = dict(deser(E.REQUEST, req)); v["data"] = (2, b"\x12\x34\x56")
        return E.REQUEST.ser(v), me, args, good, MAINNET.id, prep, None
    req, me, args, good = dispj.honest(k)
    if k == "receipt": g0 = good; good = lambda r: not [d for d in diff(r, txj.truth("receipt", dispj.CHN, "all", 3)) if not d[0].endswith(("gasUsed", "effectiveGasPrice", "logIndex")) or d[0].endswith("cumulativeGasUsed")]
    return req, me, args, good, MAINNET.id, prep, None
def sub(v, path, f):
    """the value with f applied at this path"""
    if not path: return f(v)
    p = path[0]
    if isinstance(v, tuple): return (v[0], sub(v[1], path[1:], f))
    if isinstance(v, dict): return {k: (sub(x, path[1:], f) if k == p else x) for k, x in v.items()}
    l = list(v); l[p] = sub(l[p], path[1:], f); return l
def alter(k, i, op):
    b = message(k)[0]
    kind, n, pos, ln, path = nodes(k)[i - 1]
    if kind == "msg":
        if op == "empty": return b""
        if op == "one": return b[:1]
        if op == "longer": return b + b"\0"
        if op == "longer4": return b + b"\xff" * 4
        if op == "twice": return b + b
        q = {"cut1": len(b) - 1, "cut2": len(b) // 2, "cut3": 16, "cut4": 17, "cut5": 4, "cut6": len(b) // 3, "cut7": len(b) * 4 // 5}[op]
        return b[:q]
    def raw(x): return b[:pos] + x + b[pos + len(x):]
    if kind == "off":
        o = _off(b, pos); prev = _off(b, pos - 4) if pos >= 4 else 0; nxt = _off(b, pos + 4)
        v = {"zero": 0, "m1": o - 1, "p1": o + 1, "m4": o - 4, "p4": o + 4, "end": len(b), "far": len(b) + 100, "max": 0xffffffff, "half": 0x80000000, "next": nxt, "prev": prev, "one": 1, "big": o + 65536}[op] & 0xffffffff
        return raw(v.to_bytes(4, "little"))
    if kind == "sel": return raw(bytes([int(op[1:])]))
    cur = b[pos:pos + ln]
    new = None
    if kind == "list": pass
    elif op == "first": new = (bytes([cur[0] ^ 1]) + cur[1:]) if cur else None
    elif op == "last": new = (cur[:-1] + bytes([cur[-1] ^ 0x80])) if cur else None
    elif op == "mid": new = (cur[:ln // 2] + bytes([cur[ln // 2] ^ 0x10]) + cur[ln // 2 + 1:]) if cur else None
    elif op == "zeros": new = bytes(ln)
    elif op == "ones": new = b"\xff" * ln
    elif op == "inc": new = ((int.from_bytes(cur, "little") + 1) % (1 << 8 * ln)).to_bytes(ln, "little") if ln else None
    if new is not None: return raw(new) if new != cur else None
    if kind == "fix" or (kind == "dyn" and op in FIXED): return None
    def f(v):
        if kind == "dyn":
            v = bytes(v)
            return {"empty": b"", "short": v[:-1], "shortf": v[1:], "half": v[:len(v) // 2], "long": v + b"\0", "longf": b"\0" + v, "twice": v + v, "huge": v + b"\x80" * 70000, "b80": b"\x80", "bff": b"\xff" * 9, "bb8": b"\xb8", "bf9": b"\xf9\xff\xff\x01"}[op]
        v = list(v)
        if op == "empty": return []
        if not v: return v
        return {"dropf": v[1:], "dropl": v[:-1], "dup": v[:1] + v, "dupl": v + v[-1:], "swap": [v[-1]] + v[1:-1] + [v[0]] if len(v) > 1 else v, "rev": v[::-1], "many": v * (300 // len(v) + 1), "first": v[:1]}[op]
    v = sub(deser(E.REQUEST, b), path, f)
    try: r = E.REQUEST.ser(v)
    except Exception: return None
    return r if r != b else None
FIXED = {"first", "last", "mid", "zeros", "ones", "inc"}
DYN = {"empty", "short", "shortf", "half", "long", "longf", "twice", "huge", "b80", "bff", "bb8", "bf9"}
LISTS = {"empty", "dropf", "dropl", "dup", "dupl", "swap", "rev", "many", "first"}
OFFS = {"zero", "m1", "p1", "m4", "p4", "end", "far", "max", "half", "next", "prev", "one", "big"}
CUTS = {"empty", "one", "longer", "longer4", "twice", "cut1", "cut2", "cut3", "cut4", "cut5", "cut6", "cut7"}
def job(su, x):
    """x: message and several histories"""
    k = KINDS[x["m"] - 1]
    for h in x["l"]:
        su.push()
        try: bad = history(su, k, h)
        except Exception as e:
            if type(e).__name__ == "SutCrash": raise type(e)("%s, history %s: %s" % (k, h, e))
            raise
        su.pop()
        if bad: return bad
def history(su, k, h):
    req, m, args, good, cid, prep, cp = message(k); prep(su)
    for i, op in h + [[0, "honest"]]:
        b = req if i == 0 else alter(k, i, op)
        if b is None: continue
        st, res, ok, log = su.verify(b, m, args, cid, checkpoint=cp)
        w = "%s, node %s, %s" % (k, nodes(k)[i - 1][4] if i else "-", op)
        if st not in ("success", "error"): return "%s (history %s): verification ended with %s" % (w, h, st)
        good_ = st == "success" and ok
        if i == 0 and not good_ and good and k != "call": return "%s (history %s): the honest message is rejected: %s" % (w, h, res)
        if good_ and (k == "call" or not good(res)): return "%s (history %s): %s %s is answered with %s" % (w, h, m, args[:120], str(res)[:300])
