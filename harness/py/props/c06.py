"""Chains are isolated: another chain's data, signatures and failures never change a chain's trust state."""
import lc
from tlc import Raw
def run(ck):
    for a, b in ((("A", "H"), ("B", "I"), ("A", "B"), ("C", "D")) if not ck.thorough else (("A", "H"), ("B", "I"), ("A", "B"), ("C", "D"), ("A", "C"), ("B", "D"), ("A", "D"))):
        lc.run_config(ck, a + b, dict(Chains={a, b}, BP=2, NetKinds={("down", "first"), ("other", "first"), ("other", "last"), ("evil", "last")}, BootKinds={"evil"}, CpzKinds={"down"}, WspKinds={"wrong"}, CpKinds={"none", "other"},
                                      Signers={"T", "X", "E"}, Per={2, 3, 5}, MaxSteps=3 if ck.thorough else 2, PushKinds={("ok", "none", 2, 2), ("other", "none", 2, 2)}), limit=2500 if not ck.thorough else 30000)
