"""SSZ types of the consensus layer and of the proof format, written down from the specifications / the published proof format."""
from ssz import *
u8, u16, u32, u64, u256, boolt = Uint(1), Uint(2), Uint(4), Uint(8), Uint(32), Uint(1)
B32, ADDR, KEY, SIG = ByteVec(32), ByteVec(20), ByteVec(48), ByteVec(96)
C = Container
HEADER = C([("slot", u64), ("proposerIndex", u64), ("parentRoot", B32), ("stateRoot", B32), ("bodyRoot", B32)])
SYNC_AGG = C([("syncCommitteeBits", BitVec(512)), ("syncCommitteeSignature", SIG)])
WITHDRAWAL = C([("index", u64), ("validatorIndex", u64), ("address", ADDR), ("amount", u64)])
TX = Bytes(1 << 30)
def payload_t(wlim):
    return C([("parentHash", B32), ("feeRecipient", ADDR), ("stateRoot", B32), ("receiptsRoot", B32), ("logsBloom", ByteVec(256)), ("prevRandao", B32),
              ("blockNumber", u64), ("gasLimit", u64), ("gasUsed", u64), ("timestamp", u64), ("extraData", Bytes(32)), ("baseFeePerGas", u256), ("blockHash", B32),
              ("transactions", List(TX, 1 << 20)), ("withdrawals", List(WITHDRAWAL, wlim)), ("blobGasUsed", u64), ("excessBlobGas", u64)])
PAYLOAD, PAYLOAD_GNO = payload_t(16), payload_t(8)
PAYLOAD_HDR = C([("parentHash", B32), ("feeRecipient", ADDR), ("stateRoot", B32), ("receiptsRoot", B32), ("logsBloom", ByteVec(256)), ("prevRandao", B32),
              ("blockNumber", u64), ("gasLimit", u64), ("gasUsed", u64), ("timestamp", u64), ("extraData", Bytes(32)), ("baseFeePerGas", u256), ("blockHash", B32),
              ("transactionsRoot", B32), ("withdrawalsRoot", B32), ("blobGasUsed", u64), ("excessBlobGas", u64)])
CHECKPOINT = C([("epoch", u64), ("root", B32)])
ATT_DATA = C([("slot", u64), ("index", u64), ("beaconBlockRoot", B32), ("source", CHECKPOINT), ("target", CHECKPOINT)])
SIGNED_HDR = C([("message", HEADER), ("signature", SIG)])
PROP_SLASH = C([("signedHeader1", SIGNED_HDR), ("signedHeader2", SIGNED_HDR)])
ETH1 = C([("depositRoot", B32), ("depositCount", u64), ("blockHash", B32)])
DEPOSIT = C([("proof", Vector(B32, 33)), ("data", C([("pubkey", KEY), ("withdrawalCredentials", B32), ("amount", u64), ("signature", SIG)]))])
EXIT = C([("message", C([("epoch", u64), ("validatorIndex", u64)])), ("signature", SIG)])
BLSCHG = C([("message", C([("validatorIndex", u64), ("fromBlsPubkey", KEY), ("toExecutionAddress", ADDR)])), ("signature", SIG)])
IDX_ATT_D = C([("attestingIndices", List(u64, 2048)), ("data", ATT_DATA), ("signature", SIG)])
IDX_ATT_E = C([("attestingIndices", List(u64, 131072)), ("data", ATT_DATA), ("signature", SIG)])
ATT_D = C([("aggregationBits", BitList(2048)), ("data", ATT_DATA), ("signature", SIG)])
ATT_E = C([("aggregationBits", BitList(131072)), ("data", ATT_DATA), ("signature", SIG), ("committeeBits", BitVec(64))])
REQS = C([("deposits", List(C([("pubkey", KEY), ("withdrawalCredentials", B32), ("amount", u64), ("signature", SIG), ("index", u64)]), 8192)),
          ("withdrawals", List(C([("sourceAddress", ADDR), ("validatorPubkey", KEY), ("amount", u64)]), 16)),
          ("consolidations", List(C([("sourceAddress", ADDR), ("sourcePubkey", KEY), ("targetPubkey", KEY)]), 2))])
def body_t(electra, pl):
    f = [("randaoReveal", SIG), ("eth1Data", ETH1), ("graffiti", B32), ("proposerSlashings", List(PROP_SLASH, 16)),
         ("attesterSlashings", List(C([("signedHeader1", IDX_ATT_E if electra else IDX_ATT_D), ("signedHeader2", IDX_ATT_E if electra else IDX_ATT_D)]), 1 if electra else 2)),
         ("attestations", List(ATT_E if electra else ATT_D, 8 if electra else 128)), ("deposits", List(DEPOSIT, 16)), ("voluntaryExits", List(EXIT, 16)),
         ("syncAggregate", SYNC_AGG), ("executionPayload", pl), ("blsToExecutionChanges", List(BLSCHG, 16)), ("blobKzgCommitments", List(KEY, 4096))]
    if electra: f.append(("executionRequests", REQS))
    return C(f)
BODY = {(e, g): body_t(e, PAYLOAD_GNO if g else PAYLOAD) for e in (False, True) for g in (False, True)}
def signed_block_t(electra, gno):
    return C([("message", C([("slot", u64), ("proposerIndex", u64), ("parentRoot", B32), ("stateRoot", B32), ("body", BODY[electra, gno])])), ("signature", SIG)])
SYNC_COMMITTEE = C([("pubkeys", Vector(KEY, 512)), ("aggregatePubkey", KEY)])
LC_HEADER = C([("beacon", HEADER), ("execution", PAYLOAD_HDR), ("executionBranch", Vector(B32, 4))])
def lc_bootstrap_t(e): return C([("header", LC_HEADER), ("currentSyncCommittee", SYNC_COMMITTEE), ("currentSyncCommitteeBranch", Vector(B32, 6 if e else 5))])
def lc_update_t(e):
    return C([("attestedHeader", LC_HEADER), ("nextSyncCommittee", SYNC_COMMITTEE), ("nextSyncCommitteeBranch", Vector(B32, 6 if e else 5)),
              ("finalizedHeader", LC_HEADER), ("finalityBranch", Vector(B32, 7 if e else 6)), ("syncAggregate", SYNC_AGG), ("signatureSlot", u64)])
# ---- proof format
SIG_PROOF = C([("sync_committee_bits", BitVec(512)), ("sync_committee_signature", SIG)])
HIST_PROOF = C([("proof", List(B32, 128)), ("header", HEADER), ("gindex", u64), ("sync_committee_bits", BitVec(512)), ("sync_committee_signature", SIG)])
PHEADER = C([("slot", u64), ("proposerIndex", u64), ("stateRoot", B32), ("bodyRoot", B32)])
HDRS_PROOF = C([("headers", List(PHEADER, 128)), ("header", HEADER), ("sync_committee_bits", BitVec(512)), ("sync_committee_signature", SIG)])
HPROOF = Union([SIG_PROOF, HIST_PROOF, HDRS_PROOF])
RECEIPT_PROOF = C([("transaction", TX), ("transactionIndex", u32), ("blockNumber", u64), ("blockHash", B32), ("receipt_proof", List(TX, 64)),
                   ("block_proof", List(B32, 64)), ("header", HEADER), ("header_proof", HPROOF)])
LOGS_TX = C([("transaction", TX), ("transactionIndex", u32), ("proof", List(TX, 256))])
LOGS_BLOCK = C([("blockNumber", u64), ("blockHash", B32), ("proof", List(B32, 1024)), ("header", HEADER), ("header_proof", HPROOF), ("txs", List(LOGS_TX, 256))])
TX_PROOF = C([("transaction", TX), ("transactionIndex", u32), ("blockNumber", u64), ("blockHash", B32), ("baseFeePerGas", u64), ("proof", List(B32, 64)),
              ("header", HEADER), ("header_proof", HPROOF)])
STATE_PROOF = C([("block", Union([Non(), B32, u64])), ("proof", List(B32, 256)), ("header", HEADER), ("header_proof", HPROOF)])
STORAGE_PROOF = C([("key", B32), ("proof", List(TX, 1024))])
ACCOUNT_PROOF = C([("accountProof", List(TX, 256)), ("address", ADDR), ("storageProof", List(STORAGE_PROOF, 256)), ("state_proof", STATE_PROOF)])
CALL_ACCOUNT = C([("accountProof", List(TX, 256)), ("address", ADDR), ("code", Union([boolt, Bytes(4194304)])), ("storageProof", List(STORAGE_PROOF, 4096))])
CALL_PROOF = C([("accounts", List(CALL_ACCOUNT, 256)), ("state_proof", STATE_PROOF)])
SYNC_PROOF = C([("oldKeys", Vector(KEY, 512)), ("newKeys", Vector(KEY, 512)), ("syncCommitteeBits", BitVec(512)), ("syncCommitteeSignature", SIG),
                ("gidx", u64), ("slot", u64), ("proposerIndex", u64), ("proof", List(B32, 256))])
BLOCK_PROOF = C([("executionPayload", Union([PAYLOAD, PAYLOAD_GNO])), ("proof", List(B32, 256)), ("header", HEADER), ("header_proof", HPROOF)])
BLOCKNUM_PROOF = C([("blockNumber", u64), ("timestamp", u64), ("proof", List(B32, 256)), ("header", HEADER), ("header_proof", HPROOF)])
LOG_DATA = C([("blockHash", B32), ("blockNumber", u64), ("transactionHash", B32), ("transactionIndex", u32), ("address", ADDR), ("logIndex", u32),
              ("removed", boolt), ("topics", List(B32, 8)), ("data", TX)])
RECEIPT_DATA = C([("_optmask", u32), ("blockHash", B32), ("blockNumber", u64), ("transactionHash", B32), ("transactionIndex", u32), ("type", u8), ("from", ADDR),
                  ("to", Bytes(20)), ("cumulativeGasUsed", u64), ("gasUsed", u64), ("logs", List(LOG_DATA, 256)), ("logsBloom", ByteVec(256)), ("status", u8),
                  ("effectiveGasPrice", u64), ("depositNonce", u64), ("depositReceiptVersion", u32)])
ACCESS = C([("address", ADDR), ("storageKeys", List(B32, 256))])
AUTH = C([("address", ADDR), ("chainId", u32), ("nonce", u64), ("r", B32), ("s", B32), ("yParity", u8)])
TX_DATA = C([("_optmask", u32), ("blockHash", B32), ("blockNumber", u64), ("hash", B32), ("transactionIndex", u32), ("type", u8), ("nonce", u64), ("input", TX),
             ("r", B32), ("s", B32), ("chainId", u32), ("v", u8), ("gas", u64), ("from", ADDR), ("to", Bytes(20)), ("value", u256), ("gasPrice", u64),
             ("maxFeePerGas", u64), ("maxPriorityFeePerGas", u64), ("accessList", List(ACCESS, 256)), ("authorizationList", List(AUTH, 256)),
             ("blobVersionedHashes", List(B32, 16)), ("yParity", u8), ("sourceHash", B32), ("mint", u256), ("isSystemTx", boolt), ("depositReceiptVersion", u8)])
BLOCK_DATA = C([("_optmask", u32), ("number", u64), ("hash", B32), ("transactions", Union([List(B32, 4096), List(TX_DATA, 4096)])), ("logsBloom", ByteVec(256)),
                ("receiptsRoot", B32), ("extraData", Bytes(32)), ("withdrawalsRoot", B32), ("baseFeePerGas", u256), ("nonce", ByteVec(8)), ("miner", ADDR),
                ("withdrawals", List(WITHDRAWAL, 4096)), ("excessBlobGas", u64), ("difficulty", u64), ("gasLimit", u64), ("gasUsed", u64), ("timestamp", u64),
                ("mixHash", B32), ("parentHash", B32), ("uncles", List(B32, 4096)), ("parentBeaconBlockRoot", B32), ("sha3Uncles", B32), ("transactionsRoot", B32),
                ("stateRoot", B32), ("blobGasUsed", u64), ("requestsHash", B32)])
PROOF_DATA = C([("balance", u256), ("codeHash", B32), ("nonce", u256), ("storageHash", B32), ("accountProof", List(TX, 256)),
                ("storageProof", List(C([("key", B32), ("value", B32), ("proof", List(TX, 1024))]), 256))])
D_NONE, D_HASH, D_BYTES, D_U256, D_TX, D_RECEIPT, D_LOGS, D_BLOCK, D_PROOF, D_SIM = range(10)
P_NONE, P_ACCOUNT, P_TX, P_RECEIPT, P_LOGS, P_CALL, P_SYNC, P_BLOCK, P_BLOCKNUM, P_WITNESS = range(10)
DATA_U = Union([Non(), B32, TX, u256, TX_DATA, RECEIPT_DATA, List(LOG_DATA, 1024), BLOCK_DATA, PROOF_DATA, Raw()])
PROOF_U = Union([Non(), ACCOUNT_PROOF, TX_PROOF, RECEIPT_PROOF, List(LOGS_BLOCK, 256), CALL_PROOF, SYNC_PROOF, BLOCK_PROOF, BLOCKNUM_PROOF, Raw()])
LC_SYNC = C([("bootstrap", Union([Non(), lc_bootstrap_t(False), lc_bootstrap_t(True)])), ("update", List(Union([lc_update_t(False), lc_update_t(True)]), 1024))])
ZK_SYNC = C([("vk_hash", B32), ("proof", ByteVec(260)), ("header", HEADER), ("pubkeys", Vector(KEY, 512)), ("checkpoint", HPROOF), ("signatures", List(ByteVec(65), 16))])
SYNC_U = Union([Non(), LC_SYNC, ZK_SYNC])
REQUEST = C([("version", ByteVec(4)), ("data", DATA_U), ("proof", PROOF_U), ("sync_data", SYNC_U)])
def request(proof=(0, None), data=(0, None), sync=(0, None), version=b"\x00\x00\x01\x00"):
    return REQUEST.ser({"version": version, "data": data, "proof": proof, "sync_data": sync})
