"""Blocks and the block number are those of the chain."""
import prod, blkj
FIELDS = {"parentHash", "feeRecipient", "stateRoot", "receiptsRoot", "logsBloom", "prevRandao", "blockNumber", "gasLimit", "gasUsed", "timestamp", "extraData", "baseFeePerGas", "blockHash", "blobGasUsed", "excessBlobGas", "txdrop", "txswap", "txdup", "txbyte", "wddrop", "wdamount"}
D = dict(state={"oth", "evil"}, pf=FIELDS, un={"other"}, mp={"short", "long", "tamper", "empty", "other", "swapped", "last"}, hdr={"other", "body", "slot", "proposer", "parent", "state"}, data={"given", "type"}, argn={"upper", "zeros", "num32", "num64", "head", "tail", "parent", "stateroot", "shorthash", "longhash"})
def run(ck):
    q = not ck.thorough
    allc = {"main/deneb", "main/electra", "main/fulu", "sepo/deneb", "sepo/electra", "gno/deneb", "gno/electra", "chi/electra"}
    br = {"right", "latest", "safe", "finalized", "earliest", "pending", "object", "int", "next", "none"}
    for k, br_, cs, sh in ((1, br, allc, {"empty", "all", "wd", "two"}), (1, {"right", "latest"}, {"main/electra"}, {"many"}), (2, {"right", "latest", "none"}, {"main/electra", "gno/electra"} if q else allc, {"empty", "all", "two"})):
        n = "Block/%d%s" % (k, "m" if sh == {"many"} else "")
        sc = prod.scenarios(ck, n, "Block", dict(Methods={"num", "hash", "bn"}, Breqs=br_, Fulls={"true", "false"}, Chains=cs, Shapes=sh, D=D, K=k))
        prod.replay(ck, n, sc, blkj.job, history=True, limit=({1: 6000, 2: 5000}[k] if q else None), chunk=8, strat=lambda x: (x["s"]["method"], x["ok"], x["s"]["breq"], x["s"]["pf"], x["s"]["mp"], x["s"]["hdr"], x["s"]["un"]))
