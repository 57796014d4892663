"""Balances, nonces, code and storage are those of the requested account, slot and block."""
import prod, acct
D = dict(state={"oth", "evil"}, addr={"other", "absent"}, acc={"other", "trunc", "empty", "tamper", "foreign", "swap"},
         sto={"otherkey", "swapped", "missing", "extra", "otheracct", "trunc", "empty", "tamper", "foreign", "dup", "reorder", "badkey", "absent"},
         blk={"none", "num", "hash", "wrongnum", "wronghash"}, mp={"short", "long", "tamper", "empty", "other", "swapped"}, hdr={"other", "body"}, data={"given", "none", "wrong", "trunc", "empty", "type"}, argn={"upper", "shortkey", "num32", "hashhead", "hashtail", "addrhead", "addrtail", "keyhead", "keytail"})
def run(ck):
    q = not ck.thorough
    for k, br in ((1, {"latest", "num", "hash", "object", "safe", "finalized", "earliest", "pending"}), (2, {"latest", "num", "hash"})):
        sc = prod.scenarios(ck, "Account/%d" % k, "Account", dict(Methods={"bal", "nonce", "code", "storage", "proof"}, Accts={"A", "B", "N", "E", "Z"}, Breqs=br, KeyReqs={"-", "k1", "k2", "k0", "l", "l1", "l12", "l10"}, D=D, K=k))
        prod.replay(ck, "Account/%d" % k, sc, acct.job, history=True, limit=(None if k == 1 else 25000) if q else None, chunk=16, strat=lambda x: (x["s"]["method"], x["s"]["acct"] == "A", x["ok"], x["s"]["breq"], x["s"]["sto"], x["s"]["acc"]))
