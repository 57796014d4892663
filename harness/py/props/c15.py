"""Receipts are those of the transaction."""
import c14
D = {k: v for k, v in c14.D.items() if k not in ("bf",)}
D.update(data={"type"}, req={"upper", "badhash", "headhash", "shorthash", "longhash"}, rp={"other", "trunc", "forged", "foreign", "empty", "extra"},
         dat={"blockHash", "blockNumber", "transactionHash", "transactionIndex", "type", "from", "to", "cumulativeGasUsed", "gasUsed", "logsBloom", "status", "effectiveGasPrice", "depositNonce", "depositReceiptVersion", "mask0", "mb1", "mb2", "mb3", "mb4", "mb5", "mb6", "mb7", "mb8", "mb11", "maskstatus", "masklogs", "maskdeposit",
              "logdrop", "logextra", "logswap", "logaddr", "logtopic", "logtopicdrop", "logtopicadd", "logdata", "logblockhash", "lognumber", "logtxhash", "logtxidx", "logindex", "logremoved"})
def run(ck): c14.run(ck, methods={"receipt"}, D=D, lim=(5000, 1500, 5000))
