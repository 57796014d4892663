"""A Patricia proof against a root yields the truth about that trie or is rejected; honest proofs are accepted."""
import tlc, prod, trie
def nib(*bs): return [n for b in bs for n in (b >> 4, b & 15)]
K = [nib(0x12, 0x34), nib(0x12, 0x35), nib(0x12, 0x70), nib(0x16, 0x00), nib(0x80), nib(0x12), nib(0x01)]
Q = K + [nib(0x12, 0x36), nib(0x12, 0x34, 0x56), nib(0x99), nib(0x11)]
D = {"none", "empty", "droplast", "dropfirst", "dropmid", "swap", "duplast", "dupfirst", "append", "appendrest", "evilleaf", "forgelast", "forgemid", "forgeroot", "otherkey", "othertail", "otherplus", "othertrie", "removed"}
T = nib(*([0x5a] * 30))
def S(l): return tlc.Raw("{" + ", ".join(tlc.tla(x) for x in l) + "}")
def go(ck, name, keys, qs, vals, mk, devs, limit):
    r = tlc.must("Trie", dict(Keys=S(keys), Vals=vals, Queries=S(qs), MaxKeys=mk, MaxPuts=0, Devs=devs), ["INIT InitVh", "NEXT NextVh", "INVARIANT InvV"], timeout=700, heap="8g", workers=4)
    ck.spec(name, r)
    prod.replay(ck, name, r["out"], trie.jobV, limit=limit, chunk=32, strat=lambda x: (x["d"], x["t"], len(x["l"]), x["root"]["t"]))
def run(ck):
    q = not ck.thorough
    go(ck, "Trie/short", K if not q else K[:6], Q if not q else Q[:9], {"s", "r"} if q else {"s", "t", "m", "b", "r"}, 3 if q else 4, D, 15000 if q else 200000)
    long = [k + T for k in K[:6]]
    go(ck, "Trie/long", long, [k + T for k in Q[:9]] + [long[0][:-2]], {"s", "r"} if q else {"s", "r", "l"}, 2 if q else 4, D, 5000 if q else 100000)
