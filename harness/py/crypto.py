"""Reference-side primitives: sha256, keccak256, secp256k1, and the ideal BLS scheme shared with fakes/blst_fake.c."""
import ctypes, functools, hashlib, os, subprocess, fcntl
_HERE = os.path.dirname(os.path.abspath(__file__))
_BUILD = os.environ.get("VERIF_BUILD") or os.path.join(os.path.dirname(os.path.dirname(_HERE)), "build")
def _lib():
    os.makedirs(_BUILD, exist_ok=True)
    so = os.path.join(_BUILD, "kec.so")
    with open(os.path.join(_BUILD, "kec.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = os.path.join(_HERE, "kec.c")
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            subprocess.check_call(["gcc", "-O2", "-shared", "-fPIC", "-o", so + ".tmp", src]); os.rename(so + ".tmp", so)
    return ctypes.CDLL(so)
_L = _lib()
def keccak(b):
    o = ctypes.create_string_buffer(32); _L.kec256(bytes(b), ctypes.c_size_t(len(b)), o); return o.raw
def sha(b): return hashlib.sha256(b).digest()
assert keccak(b"").hex() == "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"

# ---- ideal BLS
P61 = (1 << 61) - 1
DST = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_"
def bls_key(seed): return bytes([0x80 | (sha(b"k" + seed)[0] & 0x1f)]) + (sha(b"a" + seed) + sha(b"b" + seed))[:47]
def bls_x(key): return int.from_bytes(sha(key)[:8], "big") % P61
def bls_h(msg): return int.from_bytes(sha(DST + msg)[:8], "big") % P61
def bls_sign(keys, msg):
    """aggregate signature of exactly these keys (a list, with multiplicity) over msg"""
    v = sum(bls_x(k) for k in keys) % P61 * bls_h(msg) % P61
    return bytes([0x80]) + bytes(87) + v.to_bytes(8, "big")

# ---- secp256k1
_p = 2**256 - 2**32 - 977
_n = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
_G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
SECP_N = _n
def _add(a, b):
    if a is None: return b
    if b is None: return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % _p == 0: return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], -1, _p) % _p
    else: l = (b[1] - a[1]) * pow(b[0] - a[0], -1, _p) % _p
    x = (l * l - a[0] - b[0]) % _p
    return (x, (l * (a[0] - x) - a[1]) % _p)
def _mul(k, pt):
    r = None
    while k:
        if k & 1: r = _add(r, pt)
        pt = _add(pt, pt); k >>= 1
    return r
def secp_pub(sk): x, y = _mul(sk, _G); return x.to_bytes(32, "big") + y.to_bytes(32, "big")
def secp_addr(sk): return keccak(secp_pub(sk))[12:]
def secp_sign(sk, digest):
    """returns (r, s, recid), low s"""
    z = int.from_bytes(digest, "big")
    k = int.from_bytes(sha(b"nonce" + sk.to_bytes(32, "big") + digest), "big") % _n
    R = _mul(k, _G); r = R[0] % _n
    s = pow(k, -1, _n) * (z + r * sk) % _n
    rec = R[1] & 1
    if s > _n // 2: s = _n - s; rec ^= 1
    return r, s, rec
@functools.lru_cache(4096)
def secp_recover(digest, r, s, rec):
    if not (0 < r < _n and 0 < s < _n) or rec not in (0, 1): return None
    y2 = (pow(r, 3, _p) + 7) % _p; y = pow(y2, (_p + 1) // 4, _p)
    if y * y % _p != y2: return None
    if y & 1 != rec: y = _p - y
    z = int.from_bytes(digest, "big"); ri = pow(r, -1, _n)
    Q = _add(_mul(s * ri % _n, (r, y)), _mul((-z * ri) % _n, _G))
    return None if Q is None else Q[0].to_bytes(32, "big") + Q[1].to_bytes(32, "big")
