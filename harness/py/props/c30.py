"""Subscriptions and filters deliver every block exactly once."""
import mbt, tsj, subsj
def run(ck):
    q = not ck.thorough
    tsj.bundle()
    O1 = {"all", "err", "tick", "adv", "chg", "uns"}
    for name, c, sim in (("small", dict(Subs={1}, Kinds={"newHeads", "logs", "block", "log"}, Ops=O1 | {"ans"}, MaxLen=6 if q else 7), None),
                         ("one", dict(Subs={1}, Kinds={"newHeads", "logs", "block", "log", "logfrom", "loglatest"}, Ops=O1 | {"ans", "last", "adv3", "back", "two", "chg2", "junk", "cross"}, MaxLen=16), 6000 if q else 60000),
                         ("three", dict(Subs={1, 2, 3}, Kinds={"newHeads", "logs", "block", "log", "logfrom", "loglatest"}, Ops=O1 | {"ans", "last", "adv3", "back", "two", "chg2", "junk", "cross"}, MaxLen=30), 4000 if q else 60000)):
        h = mbt.gen(ck, "Subs/" + name, "Subs", c, simulate=sim, depth=c["MaxLen"] + 1 if sim else None)
        lim = 8000 if q else 60000
        if len(h) > lim: ck.rnd.shuffle(h); h = h[:lim]
        mbt.validate(ck, "Subs/" + name, "Subs", c, mbt.run(ck, name, h, subsj.hist))
