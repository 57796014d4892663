prop("C10", "A Patricia proof yields the truth about its trie or is rejected",
     "For every trie, every key and every list of nodes a prover may send: if the verifier accepts the nodes as a proof against the trie's root, the value (or the absence of a value) it reports is what the trie really contains for this key. Honest proofs, of inclusion and of absence, with embedded and hashed nodes and with keys of different length, are always accepted.",
     ["inputs"], "all tries over the model's key universe, all queried keys, all manipulations of the node list", "The tests contain a few recorded inclusion proofs.",
     [V + "patricia.c", "src/util/rlp.c" if False else V + "rlp.c"], ["hash chain of nodes", "hex prefix matching", "absence proofs"],
     "TLA+ specification Trie.tla (nodes as terms, ideal hashing, RLP sizes decide embedding), TLC enumerates tries x keys x manipulated proofs, replayed through patricia_verify", "keys up to 32 bytes, up to 4 keys per trie; hashing is ideal in the specification and real in the replay", "Trie.tla")
prop("C11", "Tries built by the prover are canonical and their proofs are true",
     "Whatever values are inserted or overwritten in whatever order, the resulting trie (and its clone) has the canonical Merkle Patricia root of its content. Every proof created from it, for present and for absent keys, is accepted by the verifier for this root and yields exactly the stored value or its absence.",
     ["histories", "inputs"], "all insertion histories up to the bound, and random longer ones over transaction index keys", "The tests build two tries in ascending order only.",
     [V + "patricia_trie.c"], ["node splitting", "embedding of small nodes", "proof creation"],
     "Trie.tla: the incremental insertion is checked by TLC against the canonical trie of the map; every history is replayed through patricia_set_value / create_merkle_proof / patricia_verify", "histories up to 4 (exhaustive) and 12 (sampled) insertions", "Trie.tla")
PW = "blocks of four chains and three forks with transactions of every type; BLS ideal, everything else real; pairs of deviations in the quick tier, triples in the thorough tier"
prop("C12", "Balances, nonces, code and storage are those of the requested account and block",
     "For eth_getBalance, eth_getTransactionCount, eth_getCode, eth_getStorageAt and eth_getProof: whatever proof and data a prover sends, a result is only returned if it is exactly what the state of a signed block contains for the requested account and storage keys, and this block is the requested one (by number, hash, or an acceptable tag). Absent accounts and slots yield zero values, and every honest proof is accepted.",
     ["inputs", "configurations"], "all requests x honest proofs with up to 2 (3) deviations: other accounts, keys, blocks, states, truncated or foreign tries, altered data", TV + "manipulated account proofs are not among them.",
     [V + "verify_account_proof.c", V + "eth_account.c", V + "patricia.c"], ["account proof", "storage proof", "state proof", "matching the block argument"],
     "TLA+ product specification Account.tla, TLC enumerates the scenarios, each is built for real and replayed through the public verifier interface", IDEAL, "Account.tla")
prop("C13", "A returned block is the signed block of that number or hash",
     "For eth_getBlockByHash, eth_getBlockByNumber and eth_blockNumber: a block is only returned if its execution payload is committed by a signed header and it is the requested block; every field of the result (header fields, transactions or their hashes, withdrawals) is what that payload says. Nothing the prover sends besides can alter the result, and honest proofs of all supported forks are accepted.",
     ["inputs", "configurations"], "all block methods and block shapes x up to 2 (3) deviations", TV + "they cover a few mainnet blocks and no manipulated block.",
     [V + "verify_block.c", V + "eth_verify.c", V + "verify_tx_proof.c"], ["hash tree root of the payload", "conversion of the payload to the JSON-RPC result"],
     "Block.tla, TLC, replay; each field of every accepted result is compared with an independent encoding of the block", IDEAL, "Block.tla")
prop("C14", "A returned transaction is the one in the signed block at that place",
     "For eth_getTransactionByHash, eth_getTransactionByBlockHashAndIndex and ...ByBlockNumberAndIndex: a transaction is only returned if it is contained in a signed block at the claimed index and is the one the request identifies. All fields, including sender, hash, signature, access lists, blobs and authorizations of all transaction types, follow from the signed bytes, and honest proofs are accepted.",
     ["inputs", "configurations"], "all transaction types and requests x up to 2 (3) deviations, indexes around and beyond the list", TV + "no manipulated transaction proof is among them and some transaction types are missing.",
     [V + "verify_tx_proof.c", V + "eth_tx.c", V + "tx_data.c" if False else V + "eth_tx.h"], ["generalized index of the transaction", "decoding per transaction type", "recovery of the sender"],
     "Tx.tla (kind tx), TLC, replay; results compared with an independent decoder", IDEAL, "Tx.tla")
prop("C15", "A returned receipt is the one in the receipts trie of the signed block",
     "For eth_getTransactionReceipt a receipt is only returned if the receipts trie of a signed block contains it at the index of the transaction with the requested hash. Status, cumulative gas, bloom, logs (address, topics, data, position), type and contract address are then exactly those of the chain; no field can be hidden or added by the prover, and honest proofs are accepted. (Fields the proof format does not cover are listed as findings.)",
     ["inputs", "configurations"], "all receipt kinds x up to 2 (3) deviations in data and proof", TV + "no manipulated receipt is among them.",
     [V + "verify_receipt_proof.c", V + "eth_tx.c"], ["receipt trie proof", "comparison of the delivered receipt with the proven one"],
     "Tx.tla (kind receipt), TLC, replay", IDEAL, "Tx.tla")
prop("C16", "Every returned log is genuine and matches the request",
     "For eth_getLogs every returned log is contained in a receipt of a signed block, with the address, topics, data, transaction and block it claims, and matches the requested filter (addresses, topic alternatives, block range or hash). For eth_verifyLogs exactly the logs given by the user are confirmed, and only if all of them are genuine. Honest proofs with any number of blocks and transactions are accepted.",
     ["inputs", "configurations"], "18 filters x up to 2 (3) deviations in logs, blocks, transactions, receipts and headers", TV + "no forged or unrelated log is among them.",
     [V + "verify_logs_proof.c"], ["receipt proofs per transaction", "multi proof per block", "matching the filter"],
     "Logs.tla, TLC, replay", IDEAL + " That no matching log is missing can not be proven by this protocol.", "Logs.tla")
prop("C08", "A Merkle proof is accepted iff it proves the value against the root",
     "For every SSZ object and every set of positions in it, the proof the prover creates is accepted by the verifier for the root of this object and these values. A proof in which a value, a position, a witness or the number of witnesses is altered is never accepted for that root.",
     ["inputs"], "all positions (single and sets) of the model's objects x all single alterations of leafs, witnesses and positions", "The tests contain two recorded proofs.",
     ["src/util/ssz_merkle.c"], ["ssz_create_proof", "ssz_create_multi_proof", "ssz_verify_single_merkle_proof", "ssz_verify_multi_merkle_proof"],
     "TLA+ specification Merkle.tla (trees as terms with ideal hashing, the set of witnesses is derived, TLC checks soundness and completeness of the rule), every scenario is replayed through proof creation and verification", "positions that are padding and nested claims are excluded; real sha256", "Merkle.tla")
prop("C09", "SSZ decoding is memory safe and decodes what was encoded",
     "For every byte string and every type: checking it, walking through it, converting it to JSON and hashing it never reads outside of the buffer. Every canonical encoding of a value is accepted, each of its fields is read back as encoded, and its hash tree root is the one of the SSZ specification; truncated encodings and offsets outside of the data are rejected.",
     ["inputs"], "all values of the model's types (containers, nested lists, unions, vectors, bit lists) and all mutations of their encodings", "The tests decode recorded honest objects.",
     ["src/util/ssz.c", "src/util/ssz_merkle.c", "src/util/ssz_validate.c" if False else "src/util/ssz.h"], ["ssz_is_valid", "ssz_get", "ssz_at", "ssz_union", "ssz_hash_tree_root", "ssz_dump"],
     "TLA+ specification Ssz.tla (encoder, decoder and validity defined in the specification; TLC checks that they agree), every encoding and its mutations replayed through the real functions under address sanitizer", "small values; non-canonical encodings only need to be memory safe", "Ssz.tla")
prop("C17", "A result always comes from a proof for exactly the requested method",
     "For every method, every proof type, every data type and every state of the message: a verification only succeeds if the proof is of the type that proves this method, the data is of the type this method returns (or the verifier computes it), and the message is for the chain the user configured. Otherwise it ends with an error, never with a result and never silently; methods that need no proof ignore what a prover sends.",
     ["inputs", "configurations"], "all methods x all proofs x all data x all sync data, chain ids, versions and truncated messages", TV + "no proof of another method is among them.",
     ["src/verifier/verify.c", V + "eth_verify.c"], ["proof_matches_method", "c4_verify_init", "dispatch of methods"],
     "TLA+ product specification Dispatch.tla, TLC enumerates the cross product of honest messages, replayed through the public verifier interface", IDEAL, "Dispatch.tla")

PV = "src/chains/eth/prover/"
prop("C18", "Whatever its nodes answer, the prover ends and never causes a wrong result",
     "Execution nodes, beacon nodes and the chain store may fail or answer anything: the prover neither crashes nor reads or writes foreign memory, asks no node twice for the same thing, and ends with a proof or with an error message. If only some nodes give unusable answers, the others are asked and the proof succeeds; the order in which answers arrive does not matter. A result the verifier then returns is never wrong.",
     ["inputs", "schedules", "faults"], "all requests x every kind of wrong answer to each class of request, every field of every JSON answer altered in 13 ways, all behaviours of 3 nodes, all schedules of up to 2 (4) different steps", "The tests answer every request once, correctly, from recorded files.",
     [PV + "eth_req.c", PV + "beacon.c", PV + "historic_proof.c", "src/util/state.h", "src/util/json.c"], ["RETRY_REQUEST", "c4_send_eth_rpc", "c4_send_beacon_json", "c4_send_beacon_ssz", "CHECK_JSON"],
     "TLA+ state machine Async.tla (liveness and outcome checked by TLC) and product specification Prove.tla; scenarios replayed with the real prover against faulty nodes and the real verifier, under address and undefined behaviour sanitizer", "hosts follow the rules of state.h; logs withheld by a node can not be noticed (protocol)", "Async.tla, Prove.tla")
prop("C19", "With honest nodes every signed block is provable and the result is the truth",
     "For every supported method, block selector, chain and fork, and every state of the client: if the target block is signed by a sync committee (directly, over missed slots, over a chain of up to 10 unsigned blocks, or by historical summaries) and the nodes are honest, the prover creates a proof that the verifier of this client accepts, and the result is exactly the content of the chain. If no signature exists, no result is returned.",
     ["inputs", "configurations", "histories"], "all methods x block selectors x chains and forks x up to 3 (4) of: account, key, transaction, filter, distance of the head, missed slots, unsigned blocks, old periods, client states, sync data, contents of beacon blocks (empty, some, full lists), blocks in SSZ or JSON, order of answers, blocks proven before; prover built with and without the cache for servers", "The tests replay a few recorded requests of mainnet.",
     [PV + "beacon.c", PV + "historic_proof.c", PV + "proof_account.c", PV + "proof_block.c", PV + "proof_transaction.c", PV + "proof_receipt.c", PV + "proof_logs.c", PV + "eth_tools.c"], ["c4_beacon_get_block_for_eth", "c4_check_blockroot_proof", "c4_get_syncdata_proof"],
     "TLA+ product specification Prove.tla (the chain, its signatures and what is provable; checked by TLC), every scenario is run by the real prover against synthetic nodes and its message verified by the real verifier; the result is compared with an independent model of the chain", IDEAL, "Prove.tla")
prop("C20", "No altered message crashes, misleads or poisons the verifier",
     "Take any honest message and alter any part of its bytes or structure: an offset, a union type, a value, a length, the elements of a list, or its end. The verifier then ends with an error or with the honest result, never with another result, a crash, a hang or an access to foreign memory. Afterwards the same client still accepts the honest message with its true result.",
     ["inputs", "histories"], "every node of the SSZ layout of 20 messages (all methods, header chains, historic proofs, sync data) x every operation on that kind of node, with and without an honest message before; two altered messages in a row in the thorough tier", TV + "they are never altered, and no client is used again after a failed verification.",
     ["src/verifier/verify.c", V + "eth_verify.c", "src/util/ssz.c"], ["validation of the message", "caches of verified roots, committees and codes"],
     "TLA+ specification Message.tla (histories of altered messages over the layout of real messages), enumerated by TLC and replayed through the public verifier interface under address sanitizer", IDEAL, "Message.tla")
prop("C22", "RLP is decoded as defined, without reading foreign memory, and encoded back",
     "For every byte string: every item, list and number the RLP decoder returns lies inside of the given bytes and is exactly what the RLP definition says for a canonical encoding, and truncated items are reported as errors. Every value encoded with the RLP encoder is decoded to the same value.",
     ["inputs"], "all byte strings over a set of critical bytes up to the bound, all encodings of nested values around the length limits 55/56/255/256/65535 and their truncations", "The tests decode a handful of honest values.",
     [V + "rlp.c"], ["rlp_decode", "rlp_get_uint64", "rlp_add_item", "rlp_add_list", "rlp_add_uint64", "rlp_to_list"],
     "TLA+ specification Rlp.tla (encoder and decoder as recursive operators, TLC checks that they agree), every string and value replayed through the real functions", "non canonical encodings only need to be memory safe", "Rlp.tla")
prop("C24", "JSON is read as defined, without foreign memory, and validated strictly",
     "For every text: parsing, searching and converting JSON never reads outside of the text, every valid JSON value is found with its exact extent, type, members and elements, and numbers, hex values and strings convert to what they denote. A value passes the validation for a type definition only if it has that type: hex values with prefix, length and digits, arrays of valid elements, objects with all required and valid members; everything of the right type passes.",
     ["inputs"], "all token sequences up to the bound, all values x all type definitions of the model, with alterations of single characters", "The tests parse a few recorded answers.",
     ["src/util/json.c", "src/util/json_validate.c", "src/util/bytes.c"], ["json_parse", "json_next_value", "json_get", "json_as_bytes", "json_validate"],
     "TLA+ specifications JsonText.tla (grammar) and JsonValue.tla (values against type definitions), enumerated by TLC and replayed through the real functions under address sanitizer", "escape sequences in property names excluded; malformed texts only need to be memory safe and must not loop", "JsonText.tla, JsonValue.tla")
prop("C21", "Shared prover cache: values live while used, are never stale, and are bounded",
     "Whatever contexts store, look up, invalidate and end, at whatever times: a lookup in the shared prover cache returns the newest value stored for this key whose time to live has not passed and which was not invalidated since, or nothing. No value is freed while a living context has obtained it, every value is freed exactly once in the end, and the cache does not grow beyond its limit except by values in use.",
     ["histories", "schedules"], "all interleavings of up to 7 (8) operations of 2 contexts over 2 keys with time steps, and random long ones of 3 contexts, with large and small values", "The tests never share values between contexts over time.",
     ["src/prover/prover.c", "src/prover/prover.h"], ["c4_prover_cache_get", "c4_prover_cache_set", "c4_prover_cache_invalidate", "c4_prover_cache_cleanup", "use counters of shared entries"],
     "TLA+ state machine ProverCache.tla; TLC generates the histories, the real cache runs them under address sanitizer and the recorded answers, frees and sizes are validated by TLC against the specification", "one thread (the cache is not thread safe by design)", "ProverCache.tla")
prop("C23", "Transaction cache is an exact bounded map, and every operation ends",
     "Whatever is stored, in whatever order and with whatever colliding hashes: a lookup yields the last place stored for this transaction hash until its block is evicted, and nothing for any other hash. Whole blocks are evicted, oldest first and only if needed for the limit, nothing else is lost, the reported size is the number of retrievable hashes and never exceeds the limit. Every operation ends, for every configured limit.",
     ["histories", "configurations"], "all histories of 5 operations over 3 colliding hashes, random histories of 30 to 40 operations over 12 hashes in colliding, adjacent and wrapping positions, mass insertion around the capacity", "The tests store a few distinct hashes.",
     [PV + "tx_cache.c"], ["table_delete_at", "clean_up_cache", "c4_eth_tx_cache_set_max_size"],
     "TLA+ state machine TxCache.tla (ideal map with block-wise eviction, checked by TLC); every history generated by TLC is replayed with the real cache and each answer and size compared", "limits above the capacity of the table (16383) act like the capacity", "TxCache.tla")
prop("C25", "eth_getLogs served from the logs cache equals the answer of a node",
     "Whatever blocks were added, replaced, dropped or skipped before: eth_getLogs is served from the logs cache only if the cache is enabled, the block range is contained in it and no block hash selects the block. Then the result is exactly the logs of these blocks, as stored last, that match the addresses and topics of the filter, in the order of the chain. A contained range is always served, and the cache never holds more blocks than its limit.",
     ["histories", "inputs", "configurations"], "all filters of the model (wildcards, lists, up to 20 combinations) x block contents, random histories of 22 to 40 operations with limits 1 to 5, gaps, replaced blocks and changed limits", "The tests add six blocks once and query them.",
     [PV + "logs_cache.c"], ["push_block", "build_match_index", "build_bloom_variants", "c4_eth_logs_cache_scan"],
     "TLA+ state machine LogsCache.tla (range, contents and the filter semantics of eth_getLogs, checked by TLC); every history generated by TLC is replayed with the real cache and each answer compared", "block tags are resolved by the prover and covered by C19; the node returns the receipts that were cached", "LogsCache.tla")
prop("C26", "The Python client ends with the truth or an error, whatever its servers do",
     "Whatever each configured server does (down, HTTP errors, garbage, empty, wrong or honest answers), a call of the Python client ends after finitely many requests. For provable methods it returns the true result or raises an error of the client, never an unverified or wrong result. If the servers it depends on answer honestly after skipping those that do not answer, the call succeeds; servers without a role for the method are not asked.",
     ["configurations", "inputs"], "6 provable, local, unprovable and unsupported methods x clients with trust, a checkpoint, a wrong checkpoint or nothing x all lists of up to 2 (3) servers with 5 to 8 behaviours, in pairs of kinds", "The tests mock the servers with one honest recorded answer per request.",
     ["bindings/python/src/colibri/client.py", "bindings/python/src/colibri/types.py"], ["_execute_http_request", "exclusion of servers", "fallback to local proofs", "method dispatch"],
     "TLA+ specification Client.tla (which servers a call depends on), enumerated by TLC; each scenario runs the real Python client against real HTTP servers with the real library behind its native interface", "a first prover that answers with garbage need not be followed by others; BLS ideal", "Client.tla")
prop("C27", "C binding interface: every history of calls ends with the truth or a named error",
     "For every interleaving of creating, executing, answering (in any order, also partly or with an error) and freeing prover and verifier contexts, each execution returns a well formed status: pending with exactly the requests that are not answered yet, success with the true result, or an error only if an answer was one. White space around arguments means nothing and malformed arguments never yield the result of another request. A malformed trusted checkpoint is an error and never changes the trust state.",
     ["histories", "inputs"], "all histories of 6 (7) calls over 2 contexts, random ones of 24 calls over 3 contexts of 7 kinds, 12 forms of arguments x 13 forms of checkpoints x methods and clients", "The tests of the bindings run one context after the other with well formed arguments.",
     ["bindings/colibri.c", "bindings/colibri.h", "src/util/state.c"], ["c4_verify_create_ctx", "c4_verify_execute_json_status", "c4_prover_execute_json_status", "c4_req_set_response", "c4_req_set_error"],
     "TLA+ specifications Binding.tla (histories generated by TLC, the recorded answers validated by TLC) and BindArgs.tla (product of argument forms), run through the real C interface under address sanitizer", "a context that succeeded or failed is not executed again; BLS ideal", "Binding.tla, BindArgs.tla")
prop("C28", "The TypeScript client ends with the truth, a warning or an error",
     "Whatever each configured server does (down, HTTP errors, garbage, empty, wrong or honest answers) and for each proof strategy, calls of the TypeScript client end after finitely many requests, also if the same call is made twice at once. For provable methods the result is the truth or the call fails; only with the strategy that allows it the answer of a node is returned unverified, and never without a warning. If the servers it depends on answer honestly after skipping those that do not, the call succeeds; servers without a role for the method are not asked.",
     ["configurations", "inputs", "schedules"], "provable, unprovable, local and unsupported methods x 2 entry points x 3 strategies x clients with trust, a checkpoint, a wrong checkpoint or nothing x lists of up to 2 servers with 5 to 8 behaviours", "The TypeScript tests need a WASM build and recorded answers and sample one honest run per method.",
     ["bindings/emscripten/src/index.ts", "bindings/emscripten/src/http.ts", "bindings/emscripten/src/strategy.ts", "bindings/emscripten/src/wasm.ts", "bindings/emscripten/ems.c"], ["handle_request", "fetch_rpc", "proof strategies", "as_char_ptr"],
     "TLA+ specification ClientTs.tla, enumerated by TLC; each scenario runs the real TypeScript sources (bundled with esbuild) on the real ems.c and library (native instead of WASM, same memory interface) against real HTTP servers", "native build of ems.c in place of WASM; BLS ideal", "ClientTs.tla")
prop("C29", "Only the transaction the user asked for is broadcast",
     "With verifyTransactions, the wallet is only asked to sign, and the signed transaction is broadcast if and only if its receiver, value, data and chain, and whatever else the user fixed (gas, fees, nonce, sender), are those the user asked for. This holds for all transaction kinds, for every form in which values may be written and for every entry point of the client. Whatever a wallet returns, decoding it never reads or writes outside the given bytes.",
     ["inputs"], "all pairs (triples) of deviations of 16 fields of what is asked and what is signed, from 3 kinds of transactions", "The tests compare a handful of transactions.",
     ["bindings/emscripten/src/transactionVerifier.ts", "bindings/emscripten/src/index.ts", "src/chains/eth/verifier/verify_local.c", "src/chains/eth/verifier/eth_tx.c"], ["verifyAndSendTransaction", "colibri_decodeTransaction", "c4_write_tx_data_from_raw"],
     "TLA+ specification TxGuard.tla (which signed transactions say what was asked), enumerated by TLC; each scenario runs the real TypeScript client with a fake wallet and the real native decoder, broadcasts are recorded by the fake node", "damaged bytes after a correct prefix are unconstrained (no node accepts them)", "TxGuard.tla")
prop("C30", "Subscriptions and filters deliver every block exactly once and in order",
     "The first successful look at the chain, or the given block, defines where a subscription or filter starts; from there on every block (its header, hash or logs) is delivered exactly once and in order, whatever calls fail, answer late, overlap or see a head that is behind. Nothing is delivered and no poll starts after the end of a subscription. Once everything answers, everything up to the head has been delivered.",
     ["histories", "schedules", "faults"], "all histories of 6 (7) steps with one subscription, random ones of 16 steps with one and of 30 steps with three subscriptions of 6 kinds", "The tests poll a subscription once with an honest server.",
     ["bindings/emscripten/src/subscriptionManager.ts"], ["executePollLogic", "getFilterChanges", "schedulePoll", "unsubscribe"],
     "TLA+ specification Subs.tla: TLC generates histories, the real SubscriptionManager runs them with controlled timers and calls, TLC validates the recorded deliveries against the specification", "reorganisations of the chain are not modelled", "Subs.tla")
OV = "src/chains/op/verifier/"; OP_ = "src/chains/op/prover/"
prop("C31", "On OP-Stack chains a result needs a payload signed by the chain's sequencer",
     "On every OP-Stack chain and for every method a result is only returned if the block payload it is derived from was signed, for this chain, by the configured sequencer of this chain. Payloads signed by anybody else, for another chain or domain, altered after signing, wrongly framed or compressed, and messages of another chain type are rejected without reading foreign memory. A payload signed by the right sequencer is accepted, compressed or not.",
     ["inputs", "configurations"], "15 methods x 2 chains x all pairs (thorough: all) of deviations of signature, signing domain, payload, frame, block, proof type and version, and the sequencer table of all supported chains", "The repository has no tests with OP-Stack data.",
     [OV + "op_verify.c", OV + "op_verify_block.c", OV + "op_chains_conf.c", OV + "op_zstd.c"], ["op_extract_verified_execution_payload", "verify_preconf signature", "op_get_chain_config", "method to proof type"],
     "TLA+ specification OpSeq.tla (which messages are backed by a signature of the sequencer), enumerated by TLC; every scenario is built with real secp256k1 signatures and zstd frames and given to the real verifier", "keys of test sequencers are installed by the harness in place of the real ones (the table itself is compared separately); malleable signatures (high s, v 27/28) and frames with trailing bytes are unconstrained", "OpSeq.tla")
prop("C32", "On OP-Stack chains results are those of the requested block of the chain",
     "Given a payload signed by the sequencer, an accepted balance, nonce, code, storage value, account proof, block, transaction, receipt or log is exactly the one of the requested account, block, position and hash, whatever else the message contains. This includes deposit transactions and the withdrawals root since Isthmus. Honest messages are accepted.",
     ["inputs", "configurations"], "the specifications of C12 to C16 (Account, Block, Tx, Logs) with the signed payload in place of the beacon chain, 2 chains, blocks with all 16 kinds of transactions of OP-Stack, pairs of deviations", "The repository has no tests with OP-Stack data.",
     [OV + "op_verify_account.c", OV + "op_verify_block.c", OV + "op_verify_tx.c", OV + "op_verify_receipt.c", OV + "op_verify_logs.c", "src/chains/eth/verifier/eth_tx.c"], ["op_verify_account_proof", "op_verify_block", "op_verify_tx_proof", "op_verify_receipt_proof", "op_verify_logs_proof", "deposit transactions"],
     "the TLA+ specifications Account.tla, Block.tla, Tx.tla and Logs.tla, enumerated by TLC and replayed with OP-Stack messages against the real verifier; results compared with independently decoded blocks", "the nonce of a deposit, gasUsed, effectiveGasPrice and logIndex are not part of the proof and not compared", "Account.tla, Block.tla, Tx.tla, Logs.tla")
prop("C33", "OP-Stack: the prover's proofs are accepted and true, whatever nodes answer",
     "With an honest node and the stored payloads of the sequencer, the prover makes for every method, block and account a proof that the verifier accepts and that yields the truth. If the store or the nodes answer with anything else, the prover ends after finitely many requests with a proof or an error message, never crashes, and the verifier never yields a wrong result. An answer without result or a node that does not understand the request leads to asking the next one.",
     ["inputs", "faults", "configurations"], "14 methods x blocks by number, hash, range and latest x 5 blocks x 2 chains; up to three deviations incl. 100 kinds of wrong answers to each kind of request, all or only the first node, and the order of answers", "The repository has no tests with OP-Stack data.",
     [OP_ + "op_tools.c", OP_ + "op_proof_block.c", OP_ + "op_proof_account.c", OP_ + "op_proof_logs.c", OP_ + "op_proof_receipt.c", OP_ + "op_proof_transaction.c"], ["c4_op_create_block_proof", "op_get_execution_payload", "op_create_proof_request", "c4_op_proof_logs"],
     "TLA+ specification OpProve.tla, enumerated by TLC; every scenario runs the real prover against a simulated store and node, its proof goes to the real verifier, and results are compared with the simulated chain", "eth_call is covered by C34 on the side of the verifier only", "OpProve.tla")
prop("C34", "Contract calls yield what the execution on the proven state yields",
     "For eth_call and colibri_simulateTransaction, on Ethereum and OP-Stack chains: whatever accounts, storage proofs and code a prover sends, an accepted result (and its events, in order) is exactly that of executing the call on the state of the requested signed block with the overrides of the user applied. What a reverted or failed inner call wrote or emitted is undone, missing or foreign accounts, slots or code lead to an error and never count as empty, and calls that revert are never reported as success. Messages with everything the execution needs are accepted, also if the code is not part of them and fetched from a node.",
     ["inputs", "histories", "configurations"], "all executions of 4 steps over 2 contracts, 1 slot, 2 kinds of calls and 3 depths; random executions of up to 16 steps and 5 frames with 3 slots, 4 kinds of calls, accounts without code, missing accounts, precompiles, 7 kinds of overrides; 21 deviations of the message; both methods, Ethereum and OP-Stack",
     "The tests replay some recorded mainnet calls, which never revert inside, never write and return, and come with complete proofs (and they are not built without evmone).",
     ["src/chains/eth/verifier/call_evmone.c", "src/chains/eth/verifier/call_ctx.h", "src/chains/eth/verifier/verify_call.c", "src/chains/eth/verifier/verify_simulate.c", "src/chains/eth/verifier/state_overrides.c", "src/chains/eth/verifier/eth_account.c", OV + "op_verify_call.c", OV + "op_verify_simulate.c"], ["host interface of the EVM", "context_apply", "apply_state_overrides", "eth_get_call_codes", "c4_eth_verify_accounts", "verify_call_proof"],
     "TLA+ specification Call.tla (frames, journaling of storage and events, overrides, what an execution needs); TLC checks the journal against an independent definition and prints executions; each is compiled to EVM code and run by the real verifier and EVM host", "the interpreter (evmone is not available offline) is replaced by a small EVM with the same host interface; gas, value transfers, CREATE, SELFDESTRUCT, transient storage and the block environment are not modelled", "Call.tla")
prop("C35", "With honest nodes contract calls are provable, and the prover never misleads",
     "For eth_call and colibri_simulateTransaction, on Ethereum and OP-Stack chains: with honest nodes the prover's message is accepted by the verifier and yields what the execution of the call yields. This holds for every account, slot and code the call touches, with and without state overrides, whether the prover works with access lists or traces, with or without the code in the message, in whatever order the nodes answer, and if the node does not list the called contract itself. Whatever a node answers instead, the prover ends with a message or a named error, and no other result is ever accepted.",
     ["inputs", "schedules", "configurations"], "all executions of 2 steps and random ones of up to 8 steps and 4 frames over 2 contracts, 3 slots, accounts without code, missing accounts and precompiles; 7 kinds of overrides; 6 ways of tracing; 4 orders of answers; by number and latest; every request answered wrongly in 127 ways",
     "The tests replay some recorded requests of complete mainnet calls; none has overrides, reverts, an unlisted contract or a lying node.",
     ["src/chains/eth/prover/proof_call.c", "src/chains/eth/prover/eth_req.c", "src/chains/op/prover/op_proof_call.c", "src/chains/eth/verifier/verify_call.c", "src/chains/eth/verifier/call_evmone.c"], ["c4_proof_call", "c4_op_proof_call", "c4_get_eth_proofs", "eth_create_access_list", "eth_debug_trace_call"],
     "TLA+ specification Call.tla: TLC prints executions with what they touch and what nodes tell about it; an emulated node answers the real prover accordingly, and the real verifier executes its message", "the interpreter is the small EVM of C34; accounts that are the fee recipient of the block are left out by the prover when tracing and not part of the executions", "Call.tla")
