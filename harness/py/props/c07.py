"""A header that is not signed itself counts only if it is an ancestor, or a historic block root, of a signed one."""
import prod, anchor
D = dict(com={"prev", "evil"}, n={341, 342}, bits={"moved"}, fork={"older"}, gen={"other"}, hdr={"slot", "proposer", "parent", "state", "body"}, sig={"zero"}, prime={"same", "fake"},
         tgt={"slot", "proposer", "parent", "state", "body"}, len={0, 1, 5, 9, 33}, link={"midfield", "drop", "dup", "swap", "field", "slotfield", "bodyfield", "propfield", "parent"}, loc={"summ"},
         ix={"neighbour", "far", "field", "short", "longer", "root", "shortbr", "zero", "in_state_roots", "in_summ_state", "in_validators", "in_body", "in_hist_roots", "in_wrongfork", "in_mix"}, br={"tamper", "tamper0", "tamperlast", "short", "long", "empty"}, store={"cur", "prev", "none"})
def run(ck):
    q = not ck.thorough
    sc = prod.scenarios(ck, "Anchor/linked", "Anchor", dict(Chains={"A", "B"} if q else {"A", "B", "C", "D"}, Eras={"deneb", "electra"} if q else {"deneb", "electra", "fulu"}, Poss={"mid"} if q else {"mid", "last", "first"}, D=D, K=2, Kinds={"chain", "hist"}))
    prod.replay(ck, "Anchor/linked", sc, anchor.job, history=True, limit=None if q else 80000, strat=lambda x: (x["s"]["kind"], x["s"]["loc"], x["s"]["era"], x["s"]["link"], x["s"]["ix"], x["s"]["br"], x["ok"]))
    if ck.thorough:
        sc = prod.scenarios(ck, "Anchor/linked3", "Anchor", dict(Chains={"A"}, Eras={"electra"}, Poss={"mid"}, D=D, K=3, Kinds={"chain", "hist"}))
        prod.replay(ck, "Anchor/linked3", sc, anchor.job, history=True, limit=60000)
