"""Blocks of OP-Stack chains: payloads signed by the sequencer (OpSeq.tla and the OP part of Account, Block, Tx and Logs)."""
import copy
import blkw
from blkw import *
SEQ = {10: 0x5EC0010, 8453: 0x5EC8453}          # the sequencers' keys in the test world
EVIL = 0xE7117
VERSION = b"\x06\x00\x01\x00"
def op_chain(i): c = copy.copy(MAINNET); c.id = i; return c
CH.update({"op": op_chain(10), "base": op_chain(8453)}); SLOT.update({("op", "x"): 12000000, ("base", "x"): 12100000})
# the table of the protocol: who signs the blocks of which chain (op_chains_conf.c, superchain registry)
OPBP = Union([C([("payload", Union([TX, TX])), ("signature", ByteVec(65))])])
OP_ACCOUNT = C([("accountProof", List(TX, 256)), ("address", ADDR), ("storageProof", List(STORAGE_PROOF, 256)), ("block_proof", OPBP)])
OP_TX = C([("tx_proof", List(TX, 64)), ("transactionIndex", u32), ("block_proof", OPBP)])
OP_RECEIPT = C([("transaction", TX), ("transactionIndex", u32), ("receipt_proof", List(TX, 64)), ("tx_proof", List(TX, 64)), ("block_proof", OPBP)])
OP_LOGS = List(C([("block_proof", OPBP), ("txs", List(C([("transactionIndex", u32), ("proof", List(TX, 256)), ("tx_proof", List(TX, 64))]), 256))]), 256)
OP_CALL = C([("accounts", List(CALL_ACCOUNT, 256)), ("block_proof", OPBP)])
OP_BLOCK = C([("block_proof", OPBP)])
OP_REQUEST = C([("version", ByteVec(4)), ("data", DATA_U), ("proof", Union([Non(), OP_ACCOUNT, OP_TX, OP_RECEIPT, OP_LOGS, OP_CALL, OP_BLOCK])), ("sync_data", SYNC_U)])
A_, T_, R_, L_, CALL_, B__ = 1, 2, 3, 4, 5, 6
def oprequest(proof=(0, None), data=(0, None), version=VERSION): return OP_REQUEST.ser({"version": version, "data": data, "proof": proof, "sync_data": (0, None)})
def zframe(d, kind="ok"):
    """a zstd frame of stored blocks"""
    n = len(d); blocks = []; step = 65536; parts = [d[i:i + step] for i in range(0, n, step)] or [b""]
    for i, p in enumerate(parts): blocks.append(((len(p) << 3) | (i == len(parts) - 1)).to_bytes(3, "little") + p)
    body = b"".join(blocks); magic = bytes.fromhex("28b52ffd")
    if kind == "nosize": return magic + b"\x00" + b"\x58" + body           # window descriptor instead of the content size
    fcs = {"huge": (1 << 40), "more": n + 100, "less": n - 1, "zero": 0}.get(kind, n)
    f = magic + b"\xe0" + fcs.to_bytes(8, "little") + body
    return {"trail": f + b"\0\0\0", "cut": f[:-5], "garbage": rnd("garbage") * 20, "empty": b"", "magic": b"\x28\xb5\x2f\xfc" + f[4:]}.get(kind, f)
def signed_bytes(b, pl=None):
    w = getattr(b, "isthmus", None); raw = PAYLOAD.ser(pl or b.pl)
    if w:        # the payload of the Isthmus fork has one more fixed field, so that the dynamic data start 32 bytes later
        o = [436, 504, 508]; r = bytearray(raw)
        for i in o: r[i:i + 4] = (int.from_bytes(r[i:i + 4], "little") + 32).to_bytes(4, "little")
        raw = bytes(r[:528]) + w + bytes(r[528:])
    return b.header["parentRoot"] + raw
def digest(d, chain_id, dom="ok"):
    z = bytes(32) if dom != "nonzero" else bytes(31) + b"\1"
    return keccak(d) if dom == "none" else keccak(z + chain_id.to_bytes(32, "big") + keccak(d))
@functools.lru_cache(4096)
def _sign(sk, dg): return secp_sign(sk, dg)
def preconf(b, sig="ok", dom="ok", pay="ok", frame="ok", key=None, pl=None):
    d = signed_bytes(b); cid = b.chain.id
    sk = key or {"chain": SEQ[8453 if cid == 10 else 10], "evil": EVIL}.get(sig, SEQ[cid])
    r, s, p = _sign(sk, digest(d, {"chain": 8453 if cid == 10 else 10, "zero": 0}.get(dom, cid), dom))
    N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
    if sig == "high": s, p = N - s, 1 - p
    v = p + 27 if sig == "v27" else p ^ 1 if sig == "parity" else p
    sg = r.to_bytes(32, "big") + s.to_bytes(32, "big") + bytes([v])
    if sig == "zero": sg = bytes(65)
    elif sig == "r0": sg = bytes(32) + sg[32:]
    elif sig == "flip": sg = bytes([sg[0] ^ 1]) + sg[1:]
    elif sig == "v": sg = sg[:64] + b"\x05"
    if pl is not None: d = signed_bytes(b, pl)
    q = bytearray(d)
    if pay == "root": q[31] ^= 1
    elif pay == "state": q[32 + 60] ^= 1
    elif pay == "last": q[-1] ^= 1
    elif pay == "trunc": q = q[:-1]
    elif pay == "ext": q += b"\0"
    elif pay == "rootonly": q = q[:32]
    d = bytes(q)
    return (0, {"payload": (1, d) if frame == "raw" else (0, zframe(d, frame)) if frame != "rawas" else (0, d), "signature": sg})
def sequencers(su):
    for c, k in SEQ.items(): su.cmd("opseq", c, secp_addr(k).hex())
@functools.lru_cache(None)
def chained(b, ch="op"):
    q = copy.copy(b); q.chain = CH[ch]; q.ch = ch; q.isthmus = None
    return q
