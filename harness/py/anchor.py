"""Builds the terms of Anchor.tla for real."""
import functools
from world import *
CH = {"A": MAINNET, "B": GNOSIS, "C": SEPOLIA, "D": CHIADO}
OTH = {"A": SEPOLIA, "B": CHIADO, "C": MAINNET, "D": GNOSIS}
def period_of(c, era):
    """a period inside the era"""
    f = c.forks; e = {"deneb": f[3], "electra": f[4], "fulu": f[5] if len(f) > 5 else f[4] + 64 * 512}[era]
    return -(-e // (1 << c.epp)) + 4
def slot_of(c, era, pos):
    p = period_of(c, era); s0 = p * c.spp
    if pos == "first": return s0
    if pos == "mid": return s0 + c.spp // 2 + 3
    if pos == "prelast": return s0 + c.spp - 2
    if pos == "last": return s0 + c.spp - 1
    e = {"deneb": c.forks[3], "electra": c.forks[4], "fulu": c.forks[5] if len(c.forks) > 5 else c.forks[4]}[era]
    b = e << c.spe
    return b - 1 if pos == "forklast" else b if pos == "forkfirst" else b + 1
def K(c, lab, p): return committee("an/%s/%d/%d" % (lab, c.id, p))
def flipb(b, i=3): return b[:i] + bytes([b[i] ^ 0x10]) + b[i + 1:]
def tamper(h, f):
    h = dict(h)
    if f == "slot": h["slot"] += 1 if h["slot"] % 2 == 0 else -1
    elif f == "proposer": h["proposerIndex"] += 1
    elif f == "parent": h["parentRoot"] = flipb(h["parentRoot"])
    elif f == "state": h["stateRoot"] = flipb(h["stateRoot"], 31)
    elif f == "body": h["bodyRoot"] = flipb(h["bodyRoot"], 0)
    return h
@functools.lru_cache(None)
def block(cid, slot, tag): return Block(CHAINS[cid], slot, payload("an/%d/%s" % (slot, tag), number=777), salt="an/%d/%d/%s" % (cid, slot, tag))
def build(s):
    c = CH[s["chain"]]; o = OTH[s["chain"]]; e = c.electra
    sslot = slot_of(c, s["era"], s["pos"]); per = c.period(sslot + 1)
    tag = s["kind"] + str(s["len"]) + s["loc"]
    if s["kind"] == "sig":
        b = block(c.id, sslot, tag); sh = b.header
    else:
        tslot = sslot - 1 - s["len"] if s["kind"] == "chain" else sslot - 300
        b = block(c.id, tslot, tag)
        if s["kind"] == "chain":
            mids = []; root = b.root
            for i in range(s["len"]):
                h = header(tslot + 1 + i, tag + "mid%d" % i, parent=root, proposer=40 + i); mids.append(h); root = HEADER.htr(h)
            sh = header(sslot, tag + "signed", parent=root)
        else:
            el = c.electra(sslot); f = 64 if el else 32; j = tslot % 8192
            g = ((f + 5) << 13 | j) if s["loc"] == "roots" else ((((f + 27) << 1) << 24 | 700) << 1) << 13 | j
            ix = s["ix"]
            if ix == "in_state_roots": g = (f + 6) << 13 | j
            elif ix == "in_summ_state": g = (((((f + 27) << 1) << 24 | 700) << 1) | 1) << 13 | j
            elif ix == "in_validators": g = (((f + 11) << 1) << 40 | 12345) << 3 | 1
            elif ix == "in_body": g = f + 4
            elif ix == "in_hist_roots": g = ((f + 7) << 1) << 24 | 5
            elif ix == "in_wrongfork":
                f2 = 96 - f; g = ((f2 + 5) << 13 | j) if s["loc"] == "roots" else ((((f2 + 27) << 1) << 24 | 700) << 1) << 13 | j
            elif ix == "in_mix": g = (((f + 27) << 1 | 1) << 24 | 3) << 14 | j
            # the whole path below is prescribed: the leaf is the target's root
            tree = PTree({g: b.root}, tag + str(c.id))
            sh = header(sslot, tag + "signed", state=tree.root())
    bits = bits_n(s["n"], 17) if s["n"] < 512 else bits_n(512)
    com = K(c, "E" if s["com"] == "evil" else "T", per + {"cur": 0, "prev": -1, "next": 1, "old": -2, "evil": 0}[s["com"]])
    fk = c.fork(sslot)
    kw = {}
    if s["fork"] == "older": kw["fork"] = fk - 1
    if s["fork"] == "newer": kw["fork"] = fk + 1
    if s["gen"] == "other": kw["gvr"] = o.gvr
    if s["typ"] == "other": kw["dtype"] = b"\x00\0\0\0"
    honest_sig = K(c, "T", per).sign(signing_root(c, HEADER.htr(sh), sslot + 1), bits_n(512))
    sig = com.sign(signing_root(c, HEADER.htr(sh), sslot + 1, **kw), bits)
    if s["sig"] == "zero": sig = bytes(96)
    elif s["sig"] == "inf": sig = b"\xc0" + bytes(95)
    elif s["sig"] == "flip": sig = flipb(sig, 93)
    elif s["sig"] == "honestother": sig = K(c, "T", per).sign(signing_root(c, rnd("another header"), sslot + 1), bits)
    cb = list(bits)
    if s["bits"] == "more": cb[cb.index(0)] = 1
    elif s["bits"] == "fewer": cb[cb.index(1)] = 0
    elif s["bits"] == "moved": i, j2 = cb.index(1), cb.index(0); cb[i], cb[j2] = 0, 1
    hsh = tamper(sh, s["hdr"])
    th = b.header
    if s["tgt"] != "none": th = tamper(th, s["tgt"])
    agg = {"sync_committee_bits": cb, "sync_committee_signature": sig}
    hagg = {"sync_committee_bits": bits_n(512), "sync_committee_signature": honest_sig}
    def hp(agg, hsh, honest):
        if s["kind"] == "sig": return (0, agg)
        if s["kind"] == "chain":
            ms = [dict(m) for m in mids]; l = "none" if honest else s["link"]; x = dict(hsh)
            if l == "drop": ms.pop(len(ms) // 2)
            elif l == "dup": ms = ms + ms[-1:] if ms else [dict(hsh)]
            elif l == "swap": ms[0], ms[-1] = ms[-1], ms[0]
            elif l == "field": ms[-1] = tamper(ms[-1], "state")
            elif l == "slotfield": ms[0] = tamper(ms[0], "slot")
            elif l == "bodyfield": ms[0] = tamper(ms[0], "body")
            elif l == "midfield": ms[len(ms) // 2] = tamper(ms[len(ms) // 2], "state")
            elif l == "propfield": ms[-1] = tamper(ms[-1], "proposer")
            elif l == "parent": x["parentRoot"] = flipb(x["parentRoot"], 19)
            return (2, dict(agg, headers=[{k: m[k] for k in ("slot", "proposerIndex", "stateRoot", "bodyRoot")} for m in ms], header=x))
        br = tree.branch(g); gg = g
        if not honest:
            ix = s["ix"]
            if ix == "neighbour": gg = g ^ 1
            elif ix == "far": gg = g ^ (1 << 12)
            elif ix == "field": gg = g ^ (1 << (g.bit_length() - 3))
            elif ix == "short": gg = g >> 1; br = br[1:]
            elif ix == "longer": gg = g << 1; br = [bytes(32)] + br
            elif ix == "root": gg = 1; br = []
            elif ix == "shortbr": gg = g >> 1
            elif ix == "zero": gg = 0
            
            bk = s["br"]
            if not br: bk = "ok"
            if bk == "tamper": br[len(br) // 2] = flipb(br[len(br) // 2])
            elif bk == "tamper0": br[0] = flipb(br[0])
            elif bk == "tamperlast": br[-1] = flipb(br[-1])
            elif bk == "short": br = br[:-1]
            elif bk == "long": br = br + [bytes(32)]
            elif bk == "empty": br = []
        return (1, dict(agg, proof=br, header=hsh, gindex=gg))
    def mk(header_, agg, hsh, honest):
        return request(proof=(P_BLOCKNUM, {"blockNumber": b.pl["blockNumber"], "timestamp": b.pl["timestamp"], "proof": b.mp([806, 809]), "header": header_, "header_proof": hp(agg, hsh, honest)}))
    first = hsh if s["kind"] == "sig" else th
    if s["prime"] == "foreign":
        # the very same header, honestly signed by the committee of another chain
        op = o.period(sslot + 1)
        fs = K(o, "T", op).sign(signing_root(o, HEADER.htr(sh), sslot + 1), bits_n(512))
        return c, per, mk(first, agg, hsh, False), (o, op, mk(b.header, {"sync_committee_bits": bits_n(512), "sync_committee_signature": fs}, sh, True)), b.pl["blockNumber"]
    if s["prime"] in ("near", "neartail"):
        # another header of this chain, honestly signed, whose signing root looks like the one of the target at one end
        want = signing_root(c, HEADER.htr(hsh), sslot + 1); sl = slice(0, 1) if s["prime"] == "near" else slice(31, 32)
        for i in range(10000):
            nb = block(c.id, sslot, "near%d" % i)
            if signing_root(c, nb.root, sslot + 1)[sl] == want[sl]: break
        ns = K(c, "T", per).sign(signing_root(c, nb.root, sslot + 1), bits_n(512))
        pre = request(proof=(P_BLOCKNUM, {"blockNumber": nb.pl["blockNumber"], "timestamp": nb.pl["timestamp"], "proof": nb.mp([806, 809]), "header": nb.header,
                                          "header_proof": (0, {"sync_committee_bits": bits_n(512), "sync_committee_signature": ns})}))
        return c, per, mk(first, agg, hsh, False), (c, per, pre), b.pl["blockNumber"]
    return c, per, mk(first, agg, hsh, False), mk(b.header, hagg, sh, True), b.pl["blockNumber"]
def job(su, x):
    s = x["s"]
    c, per, req, honest, num = build(s)
    su.push()
    try:
        kn = {"both": [per - 1, per], "cur": [per], "prev": [per - 1], "none": [per - 4]}[s["store"]]
        store_periods(su, c, [(p, K(c, "T", p)) for p in kn])
        if s["prime"] == "same":
            full = [(p, K(c, "T", p)) for p in (per - 1, per)]; store_periods(su, c, full)
            st, res, ok, _ = su.verify(honest, "eth_blockNumber", "[]", c.id)
            if st != "success" or not ok: return "the honest proof of the same header is rejected: %s" % res
            su.cmd("sclear"); store_periods(su, c, [(p, K(c, "T", p)) for p in kn])
        elif s["prime"] in ("foreign", "near", "neartail"):
            pc, pp, preq = honest
            store_periods(su, pc, [(p, K(pc, "T", p)) for p in (pp - 1, pp)])
            st, res, ok, _ = su.verify(preq, "eth_blockNumber", "[]", pc.id)
            if st != "success" or not ok: return "the honest proof verified before is rejected: %s" % res
            su.cmd("sclear"); store_periods(su, c, [(p, K(c, "T", p)) for p in kn])
        elif s["prime"] == "fake":
            fake = build(dict(s, com="evil", prime="nothing"))[2]
            st, res, ok, _ = su.verify(fake, "eth_blockNumber", "[]", c.id)
            if st == "success" and ok: return "a proof signed by a forged committee is accepted"
        st, res, ok, log = su.verify(req, "eth_blockNumber", "[]", c.id)
        got = st == "success" and ok
        if st not in ("success", "error"): return "verification ended with %s" % st
        if got != x["ok"]: return "%s a header the specification %s (%s)" % ("accepts" if got else "rejects", "accepts" if x["ok"] else "rejects", res)
        if got and res != hex(num): return "wrong result %r" % res
    finally: su.pop()
    return None
