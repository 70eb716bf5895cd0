#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n.strip(),"meaning":"state the property is about","where":files[0]} for n in state.split(",")]
    if observe: a["observe_at"]=[o.strip() for o in observe.split(",")]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Relay loop forwards every message once, in order, without gaps",
 "For every history of source blocks and every timing of their arrival, the messages handed to the destination sender cover exactly the sequence numbers after the destination's initial receive sequence: ascending, no gap, no duplicate, each message proof preceded by the block update of its block. No history or timing makes the relay loop crash or stop relaying while further blocks arrive, and every relay message stays within the sender's size limit plus the one item that crossed it. An error of the receiver or sender ends the relay with that error, and stopping the relay stops its receiver and its sender.",
 ["histories","schedules","configurations"],
 "all sequences of up to 4 (quick) or 5 (thorough) source blocks with 0..3 messages each, every placement of the next block's arrival relative to the relay loop's calls, several size limits and start positions",
 "whether a block is already buffered when the loop asks for block updates depends on goroutine timing; tests of the loop do not exist and could only sample one timing",
 ["common/link/link.go","common/link/type.go","common/types/type.go"],
 [("receive loop","common/link/link.go receiverChannel / BuildRelayMessage"),("proof building","common/link/link.go buildProof / buildMessageProof"),("sending","common/link/link.go sendRelayMessage / appendRelayMessage")],
 "queued relay items, known receive statuses, running link status","the messages passed to the sender's relay call")
p("P02","Relay results and status reports never stall or crash the relay",
 "Every sequence of relay results and link-status reports coming from the destination, interleaved in any way with new source blocks, leaves the relay running: it keeps accepting reports and keeps relaying new blocks. A not-verifiable result makes the relay ask the destination for its status and resend from that position everything it still holds beyond it; an already-verified result for any message, known or not, causes no resend; a witness-too-old result for an unconfirmed message that holds a block proof makes the relay send that message again with a renewed proof. Every relay message has an id of its own, so that a result is attributed to the right one. Any other failure code stops the relay. All this holds for every interleaving of the goroutines that handle blocks and reports.",
 ["histories","schedules"],
 "all interleavings of up to 3 blocks with up to 3 reports drawn from {status at every position, already verified, not verifiable, witness too old; known or unknown id}",
 "reports are processed on their own goroutine; lock mistakes and wrong bookkeeping show only for particular orders of results and blocks",
 ["common/link/link.go"],
 [("result handling","common/link/link.go result"),("bookkeeping","common/link/link.go clearRelayMessage / clearReceiveStatus / removeRelayMessage")],
 "pending relay messages, known receive statuses","relay calls and status queries made on the sender")
p("P03","BTP-block receiver builds verifiable, contiguous relay items",
 "For every run of BTP blocks announced by the source node, block updates come out in height order carrying that height's header and proof, and message proofs carry exactly the messages of the block after the given receive sequence, verifying against the block's message root at the right position. Following the items' own status updates delivers each message exactly once, whatever size limits are passed in.",
 ["histories","inputs","configurations"],
 "all block sequences up to the bound with 0..4 messages per block, every start position inside and between blocks, every size limit class",
 "needs a source node; no test exists and the defect space is positions inside blocks combined with limits",
 ["chain/icon/btp2/btp2.go","chain/icon/btp2/message.go","chain/icon/client/client.go"],
 [("monitoring","chain/icon/btp2/btp2.go monitorBTP2Block"),("block updates","chain/icon/btp2/btp2.go BuildBlockUpdate"),("message proofs","chain/icon/btp2/btp2.go BuildMessageProof")],
 "received blocks not yet relayed","decoded relay messages")
p("P04","ICON bridge receiver relays every event once with its true sequence",
 "For every run of source blocks, the bridge receiver reports each block with the sequence of its last message, and the relay messages it builds from any start position contain every later message exactly once, in order, with its true sequence number, height, destination and bytes. Size limits split the events over several messages but never drop, repeat or renumber one.",
 ["histories","inputs","configurations"],
 "all block sequences up to the bound with 0..4 messages per block, every start position, every limit class, every link offset",
 "needs a source node; depends on how many messages share a block and on where the destination stands inside a block",
 ["chain/icon/bridge/bridge.go","chain/icon/bridge/message.go"],
 [("monitoring","chain/icon/bridge/bridge.go monitorBTP2Block / newReceiveStatus"),("proofs","chain/icon/bridge/bridge.go BuildMessageProof")],
 "received blocks not yet relayed","decoded relay messages")
p("P05","Ethereum bridge receiver relays every matching log once, in order",
 "For every run of source blocks, the receiver picks exactly the message events of the configured contract addressed to the configured destination with a sequence beyond the destination's, groups them by transaction in ascending index, and the relay messages built from them contain each event exactly once, in order, with its true sequence, bytes, transaction index and height. Size limits split but never drop, repeat or renumber an event.",
 ["histories","inputs","configurations"],
 "all block sequences up to the bound: 0..3 transactions per block, 0..3 events each, foreign destinations and already delivered sequences mixed in, every start position and limit class",
 "needs a node; depends on distribution of events over transactions and blocks",
 ["chain/ethbr/receiver.go","chain/ethbr/message.go","chain/ethbr/binding/bmc_abi.go"],
 [("monitoring","chain/ethbr/receiver.go Monitoring"),("proofs","chain/ethbr/receiver.go BuildMessageProof")],
 "received blocks not yet relayed","decoded relay messages")
p("P06","Ethereum block monitor visits every block from the start height once",
 "Whatever head the node reports first and however heads, missing blocks and transient lookup failures interleave, the monitor delivers each block from the requested height on exactly once in ascending order with that block's own logs, or stops with an error; it never skips a block silently. While polling, the next block not being there yet is retried up to the retry limit and the count starts afresh after each success.",
 ["histories","fault_sequences"],
 "all start heights relative to the head, all head announcements and transient-failure patterns within the bound, over polling and subscription transports",
 "the gap between the requested height and the first head, and failures in between, are timing dependent",
 ["chain/ethbr/client/client.go"],
 [("catch up","chain/ethbr/client/client.go MonitorBlock"),("polling","chain/ethbr/client/client.go Poll"),("subscription","chain/ethbr/client/client.go Monitor")],
 None,"block notifications delivered to the callback")
p("P07","ICON sender delivers each relay message intact under node errors",
 "For every message length, the transactions the sender submits reassemble to exactly the relay message: one relay call when it fits, otherwise fragments announced by the negative count and counted down to zero, each within the size limit. Pool-overflow answers are retried with the same transaction, expired ones with a freshly signed one, duplicates count as accepted, and any other error ends the relay with an error.",
 ["inputs","fault_sequences"],
 "all lengths around every multiple of the limit and all sequences of up to 3 node error answers per transaction",
 "error answers come from a live node; the fragment protocol only breaks at length boundaries",
 ["chain/icon/sender.go","chain/icon/client/client.go"],
 [("fragmentation","chain/icon/sender.go _relay / sendFragment"),("retry","chain/icon/sender.go sendTransaction")],
 None,"transactions received by a simulated node")
p("P08","ICON sender reports the true outcome of every relayed message",
 "After each submitted relay message, for every sequence of result answers, the sender reports a failure result with that message's id and the contract's revert code exactly when the transaction failed with a revert, then the destination's current link status; pending and executing answers are waited out. Malformed or failing answers lead to an error or to no report, never to a crash or an invented status. Stopping the sender at any moment ends its reports without a crash.",
 ["fault_sequences","inputs"],
 "all sequences of up to 3 result answers over the set of node answers, all failure codes at the mapping boundaries, all status answers",
 "asynchronous polling against a live node; unusual answers do not occur in tests",
 ["chain/icon/sender.go","chain/icon/client/error.go","chain/icon/client/type.go"],
 [("result","chain/icon/sender.go result / GetResult"),("mapping","chain/icon/client/error.go MapError"),("status","chain/icon/sender.go GetStatus / SendStatus")],
 None,"messages on the sender's report channel")
p("P09","Ethereum sender submits the message unchanged and reports its outcome",
 "For every relay message the Ethereum sender submits one signed transaction to the configured contract whose call data decodes to the source address and exactly the message bytes; for every sequence of pending, mined, reverted and error answers it reports a failure result with the message's id and the code of the revert text ('<code>:<text>'; the unknown code 25 when the revert gives no text) exactly when the transaction reverted, then the link status. Node errors are returned or end the report without a result, and neither they nor stopping the sender crash the relay.",
 ["fault_sequences","inputs"],
 "all answer sequences up to the bound, all revert texts in the grammar class, several message shapes",
 "needs a node; error paths are never exercised",
 ["chain/ethbr/sender.go","chain/ethbr/client/client.go","chain/ethbr/client/error.go"],
 [("relay","chain/ethbr/sender.go _relay"),("result","chain/ethbr/sender.go GetResult"),("revert text","chain/ethbr/client/client.go GetRevertMessage")],
 None,"raw transactions received by a simulated node and the report channel")
p("P10","ICON transactions are serialised and signed so every field is bound",
 "The signature put on a transaction is by the wallet's key over the hash of the canonical serialisation of exactly the transaction's fields other than the signature, for every field value including nested, empty, null and escape characters, nested fields of any name included. Two transactions whose fields (texts, lists, dictionaries, null) differ, key order aside, have different serialisations. Signing refreshes the timestamp and leaves the other fields as they were.",
 ["inputs"],
 "all JSON parameter trees up to the bound over an alphabet containing every character the escaping treats specially",
 "injectivity over all value trees cannot be sampled",
 ["chain/icon/client/serialize.go","chain/icon/client/client.go"],
 [("serialisation","chain/icon/client/serialize.go SerializeJSON"),("signing","chain/icon/client/client.go SignTransaction")])
p("P11","Merkle binary tree range proofs verify exactly what they claim",
 "For every list of messages the tree root is the same however the tree is built, every single path and every contiguous range proof reproduces that root together with the range's position and the total, also after its wire encoding, and out-of-range requests are refused. A proof whose contents, node values, order or counts are altered is never accepted for the same root and total.",
 ["inputs"],
 "all tree sizes, all ranges, several content patterns, both hash functions; all alterations of a defined tamper set",
 "unit tests sample a few sizes; defects depend on the exact size and range",
 ["common/mbt/tree.go","common/mbt/path.go","common/mbt/proof.go"],
 [("tree","common/mbt/tree.go add / lazyAdd"),("range proof","common/mbt/proof.go Proof / Root"),("path","common/mbt/path.go Path")])
p("P12","Merkle tree accumulator witnesses verify for every height and length",
 "For every number of added items, the witness the accumulator produces for any contained item verifies against its roots, and fails for any other item, position or altered witness; a witness produced at one length can be checked against an accumulator of any longer or shorter length that still covers the item. The roots depend only on the items, not on how they were added.",
 ["inputs","histories"],
 "all accumulator lengths up to the bound, all positions, all pairs of witness length and verifier length, all root size limits in the bound",
 "the binary-carry structure makes each (length, position) pair its own case",
 ["common/mta/accumulator.go","common/mta/extaccumulator.go"],
 [("accumulate","common/mta/accumulator.go AddHash"),("witness","common/mta/accumulator.go WitnessForWithAccLength"),("verify","common/mta/accumulator.go Verify / VerifyWithAccLength")])
p("P13","Accumulator state survives restarts and interrupted writes",
 "After any history of additions, flushes and restarts on a database, a recovered accumulator has the length, offset, roots and witnesses of its last completed flush; a write failure or crash at any point of a flush leaves a database from which the previous or the new state is recovered, never a mixture. Serialised accumulators decode to the same state.",
 ["histories","crash_points","fault_sequences"],
 "all operation sequences up to the bound and every write position of every flush as crash or failure point",
 "crash points inside a flush cannot be hit by ordinary tests",
 ["common/mta/accumulator.go","common/mta/extaccumulator.go"],
 [("flush","common/mta/accumulator.go Flush"),("recover","common/mta/accumulator.go Recover")],
 "accumulator nodes and header in the bucket")
p("P14","RLP encoding is canonical, lossless and agrees with Ethereum RLP",
 "Every value of the supported kinds encodes to the same bytes a reference RLP encoder gives for the equivalent item, decodes back to an equal value with nothing left over, and consecutive values in one stream decode independently. Integers that do not fit the target are refused rather than truncated, and the msgpack codec round-trips the same values.",
 ["inputs"],
 "all byte strings and nested lists up to the bound, all integer boundary values for every kind, all length-class boundaries",
 "length-class boundaries combined with kinds and nesting are too many to sample",
 ["common/codec/rlp.go","common/codec/codec.go","common/codec/bytes.go"],
 [("encode","common/codec/rlp.go rlpWriter"),("decode","common/codec/rlp.go rlpReader"),("reflection","common/codec/codec.go")])
p("P15","Decoders of untrusted bytes return a value or an error, never crash",
 "For every byte string, decoding it with the RLP or msgpack codec into any supported target, or as an address, signature, accumulator, block header or trie proof, terminates with a value or an error without panicking and without allocating memory out of proportion to the input. Truncating a valid encoding always gives an error.",
 ["inputs"],
 "all byte strings up to length 3 (quick) or 4 (thorough) over the full alphabet, longer strings over the structural alphabet, all truncations and all single-byte edits of valid encodings",
 "crashing inputs are rare points of a large space",
 ["common/codec/rlp.go","common/codec/msgpack.go","common/codec/codec.go","common/address.go","common/mta/accumulator.go","common/mpt/mpt.go"],
 [("header parsing","common/codec/rlp.go readSize / skip"),("custom decoders","common/address.go SetBytes")])
p("P17","All database backends behave as one map per bucket, also after reopening",
 "For every sequence of set, get, has, delete and reopen operations over several buckets, every backend answers as a plain map per bucket would: buckets never see each other's keys, stored values are returned byte for byte and are unaffected by later changes of the caller's slices, and persistent backends keep exactly their content over close and reopen.",
 ["histories","inputs"],
 "all operation sequences up to the bound over key and bucket alphabets built to collide under prefixing",
 "bucket isolation fails only for particular pairs of bucket and key names",
 ["common/db/map_db.go","common/db/go_level_db.go","common/db/badger_db.go","common/db/bucket.go","common/db/database.go"],
 [("key mapping","common/db/bucket.go internalKey"),("backends","common/db/*_db.go")],
 "bucket contents")
p("P18","Layered database isolates, commits and discards atomically",
 "Until a flush, writes and deletes through the layer are visible only through the layer; a committing flush applies exactly their net effect to the underlying database and a discarding flush none of it, for every sequence of operations over several buckets. If the underlying database fails during a commit the error is reported and retrying the commit completes it.",
 ["histories","fault_sequences"],
 "all operation sequences up to the bound, every failing write position",
 "interplay of deletions, re-insertions, repeated flushes and failures is combinatorial",
 ["common/db/layer_db.go"],
 [("layer bucket","common/db/layer_db.go layerBucket"),("flush","common/db/layer_db.go Flush")],
 "pending writes of the layer")
p("P19","Integer and hex conversions are lossless and reject what does not fit",
 "Formatting then parsing any integer through the byte, decimal, hexadecimal and JSON forms gives the same integer in its shortest form; parsing accepts the documented notation, refuses malformed text and refuses values outside the target width instead of wrapping. Encoded bytes are the minimal two's-complement form, so order of magnitude and sign are preserved.",
 ["inputs"],
 "all integers within 2^17 of zero, all values within 2 of every power of two up to 2^72, all strings up to length 4 over the notation alphabet",
 "boundary values across widths and forms are many and mutually inconsistent bugs hide between samples",
 ["common/intconv/bytes.go","common/intconv/string.go","common/hexint.go","common/hexbytes.go","chain/icon/client/type.go"],
 [("bytes","common/intconv/bytes.go"),("strings","common/intconv/string.go"),("JSON","common/hexint.go")])
p("P20","Signatures verify and recover only for the signer, message and form used",
 "For every key and message digest, a signature verifies with the signer's public key and recovers it, survives each of its serialised forms, and fails or recovers a different key when any byte of the digest, signature or key changes. Public keys survive their serialised forms, and malformed inputs are refused with an error.",
 ["inputs"],
 "all pairs of a key set and digest set incl. degenerate scalars, every byte position altered, every input length 0..70",
 "position-dependent serialisation mistakes need every position tried",
 ["common/crypto/signature.go","common/crypto/key.go","common/wallet/wallet.go"],
 [("signature forms","common/crypto/signature.go"),("keys","common/crypto/key.go")])
p("P21","Key stores open only with their password and give back the same key",
 "Encrypting any private key under any password and opening the result with that password gives the same key and address; any other password is refused, and an altered or malformed key store gives an error or the same key, never a wrong key and never a crash. The relay program applies exactly the password or secret file configured for each side and never saves a password; encrypted envelopes give the recipient back the message that was put in.",
 ["inputs"],
 "all password pairs of a boundary set, all keys of a boundary set, every field removed, retyped, truncated or bit-flipped",
 "tampering space is per field and per byte",
 ["common/wallet/keystore.go","common/wallet/keystore_evm.go","common/wallet/encrypted.go","common/wallet/wallet.go","cmd/relay/main.go"],
 [("encrypt/decrypt","common/wallet/keystore.go"),("envelope","common/wallet/encrypted.go")])
p("P22","Addresses parse, print and compare consistently",
 "Parsing then printing any account, contract or cross-chain address gives the canonical text, every component accessor returns the part that was written, equality is agreement of kind and identifier, and every malformed text or byte form is refused (a shorter identifier is extended with zeros at the front, a longer one refused). Binary, JSON and RLP forms carry the same address.",
 ["inputs"],
 "all strings assembled from the component alphabets within the bound, all byte lengths 0..25",
 "component combinations are too many to sample",
 ["common/address.go","common/types/btpaddress.go","chain/icon/client/type.go"],
 [("address","common/address.go"),("BTP address","common/types/btpaddress.go")])
p("P23","Trie proofs are accepted exactly when they lead to the root",
 "For every set of key-value pairs, the trie proof (node list) of a present key is accepted, its first hash is the trie's root and its last node carries that key's value. A list with any node missing, added, reordered or altered is refused with an error or shows another root; it never crashes and is never accepted with a node that its predecessor does not reference.",
 ["inputs"],
 "all tries over small key sets, all keys, all single-node and single-byte alterations",
 "node kinds and nibble alignments combine",
 ["common/mpt/mpt.go"],
 [("proof","common/mpt/mpt.go NewMptProof")])
p("P24","JSON-RPC calls return the server's result or a faithful error",
 "For every server response, a JSON-RPC call ends with exactly one of: the result decoded into the caller's value, the server's error with its code, message and data, or a transport or format error. It never reports success for a failed call, never returns an empty error value that looks like a failure, and never crashes; concurrent calls get their own answers.",
 ["inputs","fault_sequences"],
 "all combinations of status code, content type, body shape and connection fault in the bound",
 "malformed answers do not occur against a well-behaved test server",
 ["common/jsonrpc/client.go","common/jsonrpc/type.go"],
 [("call","common/jsonrpc/client.go Do")])
p("P25","Websocket monitors deliver every notification in order until closed",
 "A block or BTP monitor delivers each notification the node sends to its callback exactly once and in order, stops with the callback's error or the connection's error, and several monitors on one client can be opened and closed in any order without affecting the others, blocking or crashing.",
 ["schedules","fault_sequences"],
 "all interleavings of notifications, refusals, malformed frames, callback errors and closes within the bound, up to 3 concurrent monitors",
 "closing while messages arrive is timing dependent",
 ["chain/icon/client/client.go"],
 [("monitor","chain/icon/client/client.go Monitor / MonitorBTP"),("close","chain/icon/client/client.go CloseMonitor / CloseAllMonitor")])
p("P26","Error codes survive every wrapping and are found by identity",
 "However an error is wrapped, its code is the one nearest to the outside that was set, the original error is found by identity and type, errors without a code and nil map to the unknown code; the short form shows the outermost message and the detailed form the message of every layer.",
 ["inputs"],
 "all wrapping chains up to depth 4 over all constructors",
 "chains of wrappers combine; tests try chains of length one",
 ["common/errors/errors.go"],
 [("codes","common/errors/errors.go CodeOf / CoderOf"),("wrapping","common/errors/errors.go Wrap*")])
p("P27","Configuration paths and values survive save and load",
 "For every combination of config file location, base directory and relative or absolute resource path, resolving a path gives the same absolute location before and after saving and loading the configuration, and making a path relative then resolving it is the identity. The relay's save command writes a configuration that loads again with the same values and the same resolved locations, from any working directory.",
 ["configurations"],
 "all combinations of path shapes within the bound",
 "path combinations are many and only misbehave in corner combinations",
 ["common/config/fileconfig.go","chain/config.go","common/cli/helper.go","cmd/relay/main.go"],
 [("resolution","common/config/fileconfig.go")])
p("P28","End to end, a relay delivers the source's messages to the destination",
 "With the relay program between a source chain and a destination chain that verifies every relay message, the destination ends up with exactly the source's messages, in order, for every block history, arrival grouping, relay direction (front, reverse, both) and transaction fate, also when the relay is killed at any point and started again. When one of its directions fails for good, for whatever reason and at whatever moment, the relay program ends with an error instead of staying alive without relaying.",
 ["histories","schedules","crash_points"],
 "all block histories up to the bound for each source and destination kind, every restart point",
 "only the composition shows mismatches between components",
 ["common/link/link.go","chain/icon/btp2/btp2.go","chain/icon/bridge/bridge.go","chain/ethbr/receiver.go","chain/icon/sender.go","chain/ethbr/sender.go","cmd/relay/linkfatory.go"],
 [("composition","cmd/relay/linkfatory.go newLink")],None,"messages accepted by the simulated destination")
p("P29","BTP block verifier contract accepts exactly the source's blocks and messages",
 "The Java verifier contract for BTP blocks (javascore/bmv/btpblock), given any sequence of relay messages: it hands to the message center exactly the next messages of the source chain's link, in order, each once, with none lost when a block's messages arrive in several parts; it accepts a block update only for the next block of its network, signed by more than two thirds of the current validators, and takes over a new validator set only when it matches the announced hash. Blocks or messages that are altered in any field, signed by too few or other validators, out of order, for another network or from another caller than the message center are refused and leave the state as it was. A genuine relay message is never refused, whatever the number of networks and network types, messages, validators or the sequence offset, and the refusal codes tell already verified from not verifiable yet.",
 ["histories","inputs"],
 "all orders of genuine and altered relay messages against chains of up to 7 blocks with up to 7 messages, 1..8 validators with every subset of signatures, every position of the network in its tree, every split of a block's messages, two offsets",
 "tests replay a recorded vector; paths, splits, signature subsets and orders of relay messages are far more than a vector shows",
 ["javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BTPMessageVerifier.java","javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/BlockHeader.java","javascore/bmv/btpblock/src/main/java/foundation/icon/btp/bmv/btpblock/MessageProof.java"],
 [("block updates","BTPMessageVerifier.java handleBlockUpdateMessage / verifyBlockHeader"),("messages","BTPMessageVerifier.java handleMessageProof"),("path","BlockHeader.java getNetworkSectionsRoot"),("tree","MessageProof.java proveMessage")],
 "block height, network section hash, messages root, remaining messages, validators","return value, result and status of handleRelayMessage")
p("P30","Message centers deliver each message once; each request gets exactly one answer",
 "With the Java message center contract (javascore/bmc) on each network of a multi-hop path, for every order of sends and deliveries: a message reaches the service it is addressed to exactly once, unchanged, through the next hop of the route, with per-link sequence numbers that have no gap; an intermediate network passes it on. A two-way message is answered exactly once, by the service's own reply or by an error with the code that names its cause (no route, no service, service reverted, unknown), and the error reaches the sending service; a one-way message that cannot be handled is dropped with a report. What a failing service did is undone without disturbing the other messages of the same relay message. A request that does not wait for an answer cannot be answered. Only a registered relay can deliver, only an owner can drop a message, and a claimed reward's response ends that claim.",
 ["histories","schedules","fault_sequences"],
 "all interleavings of up to 2..3 (4) sends of 20 kinds on a path of three networks with deliveries one or two at a time, replies now or later, failing services, missing routes and services, chain refusals, drops, claims",
 "the effects lie in the composition of three contracts over many transactions; unit tests call one contract with a mock",
 ["javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java","javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessage.java","javascore/bmc/src/main/java/foundation/icon/btp/bmc/Links.java"],
 [("sending","BTPMessageCenter.java sendMessage"),("delivery","BTPMessageCenter.java handleRelayMessage / handleMessage / handleService"),("errors","BTPMessageCenter.java sendError / dropMessage")],
 "links' sequence numbers, pending requests","messages emitted on links, calls of services, events")
p("P31","Message centers account for every fee exactly once",
 "With the Java message center contract on each network of a multi-hop path, for every order of sends, deliveries, answers, drops and claims: a message is sent only for at least the fee of its route; each relay that carries it earns exactly its entry of the fee list; what is overpaid, not needed or left over goes to the network's fee handler; and at every moment the coins paid in and not paid out equal the sum of all rewards, fees carried by messages under way, fees held for answers and claims under way. No message, error, drop or claim makes a coin counted twice or lost; a claim pays only its claimant, to the receiver it names, once, also when the claimant claims again while being paid; a failed claim restores the reward, and a second response to it changes nothing.",
 ["histories","schedules","fault_sequences"],
 "the same space as P30, with every reward, fee list and contract balance compared after each transaction",
 "conservation is a global invariant over several contracts and messages under way",
 ["javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java","javascore/bmc/src/main/java/foundation/icon/btp/bmc/FeeInfo.java"],
 [("collection","BTPMessageCenter.java collectRemainFee / addReward"),("claims","BTPMessageCenter.java claimReward / handleClaim / handleResponse"),("fee list","BTPMessageCenter.java swapFee / fee table")],
 "rewards, held responses, requests","getReward, balances, fee lists of messages")
p("P32","Bridge verifier contract returns exactly the next messages",
 "The Java bridge verifier contract (javascore/bmv/bridge), given any relay message from its message center: it returns exactly the events that continue the link's sequence, in order and each once; events already received are skipped, as are receipt proofs of heights below its own; an event that leaves a gap makes it refuse the whole relay message with the not-verifiable code and leave its state as it was. Its height is the greatest accepted one. Relay messages from other callers, for another message center, from another network or malformed ones are refused.",
 ["inputs","histories"],
 "all relay messages of up to 2 (3) receipt proofs with up to 2 events, or one with up to 4 (5), heights -1..+2 and sequences -1..+2 relative to the verifier's, from every reachable state",
 "the tests hold one shape of relay message",
 ["javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/BTPMessageVerifier.java","javascore/bmv/bridge/src/main/java/foundation/icon/btp/bmv/bridge/ReceiptProof.java"],
 [("selection","BTPMessageVerifier.java handleRelayMessage")],"height","return value and status")
p("P33","Message center tables stay consistent and only those entitled change them",
 "For every sequence of administrative operations and incoming link announcements on the Java message center contract: verifiers, services, links, routes, relays, owners, fees and BTP network ids read back as exactly what was added and not removed since, each operation refused when the caller is not an owner or what it names is missing, there already or still in use; removing a link removes everything of that link, so that a link added again starts with sequence zero and without relays. Adding and removing links announces them to all other links, announcements received make exactly the announced networks reachable, and messages go out on the direct link of their destination, else on the configured route, else on a link that announced it. A relay message arriving in fragments is handed to the verifier exactly once and unaltered when its fragments come from one registered relay in order, and not at all otherwise.",
 ["histories","inputs"],
 "all sequences of operations to depth 5..9 (6..14) in six groups (owners, links, routes, relays, services, fragments), states met before merged",
 "stale entries show only after certain sequences of adding and removing",
 ["javascore/bmc/src/main/java/foundation/icon/btp/bmc/BTPMessageCenter.java","javascore/bmc/src/main/java/foundation/icon/score/data/EnumerableDictDB.java","javascore/lib/src/main/java/foundation/icon/btp/lib/OwnerManagerImpl.java"],
 [("links","BTPMessageCenter.java addLink / addBTPLink / removeLink / setBTPLinkNetworkId"),("routes","BTPMessageCenter.java addRoute / resolveNext"),("relays","BTPMessageCenter.java addRelay / removeRelay"),("fragments","BTPMessageCenter.java handleFragment")],
 "the contract's databases","read-only methods, events and messages")
p("P34","Cross-chain calls run at most once and roll back exactly when they failed",
 "With the Java call service contract (javascore/xcall) on the networks of a multi-hop path, for every order of calls, deliveries, executions and rollbacks: a call is announced at its destination exactly once, with the caller, target, serial number and data it was sent with, and can be executed exactly once, also when the called application re-enters the service. A call with rollback data ends either in success, after which no rollback is possible, or in a rollback that becomes executable exactly when the call failed (application reverted, no such target, no route, no service, any error on the way) and runs exactly once with the caller's own data; a call without rollback data is never answered. The reported codes tell success from failure. Oversized data, rollback by a plain account, too little fee, messages not coming from the message center and administration by others are refused and change nothing. The protocol fee goes to the fee handler, or stays with the service until a handler is set, and all the rest of the payment to the message center.",
 ["histories","schedules","inputs"],
 "all interleavings of up to 2 calls of 28 kinds, 3 (4) of 7 kinds, 2 (3) with fee and handler changes, on a path of three networks, with deliveries one or two at a time and execution and rollback at any later moment",
 "a call spans four or five transactions on two chains, and re-entrancy and failure may come at each",
 ["javascore/xcall/src/main/java/foundation/icon/btp/xcall/CallServiceImpl.java","javascore/xcall/src/main/java/foundation/icon/btp/xcall/CallRequest.java","javascore/xcall/src/main/java/foundation/icon/btp/xcall/CSMessageRequest.java"],
 [("sending","CallServiceImpl.java sendCallMessage"),("execution","CallServiceImpl.java executeCall / handleRequest"),("rollback","CallServiceImpl.java executeRollback / handleResponse / handleBTPError"),("fees","CallServiceImpl.java setProtocolFee / setProtocolFeeHandler")],
 "pending requests, announced calls, serial numbers","events, calls of applications, balances")
p("P35","Coin transfers neither make nor lose coins",
 "With the Java native coin service and token contract (javascore/nativecoin) on two connected networks, for every order of transfers, batch transfers, failures, answers and reclaims: what a transfer takes from its sender is locked, and ends either as the transferred amount with the receiver (wrapped coins minted there, or the native coin paid out) plus the fee with the service, or, when the transfer failed anywhere, completely as refundable of the sender, who can reclaim it once and never more than it, also when a contract reclaims again while being paid. Whenever nothing is under way, the coins a service holds equal what it has locked, refundable and earned plus the wrapped supply on the other network. Each transfer ends exactly once. Amounts that are not positive (to transfer, reclaim, mint, burn, or asked for by the other network) or do not exceed the fee, coins that are not registered, messages not coming from the message center, and minting, burning, registering or fee changes by others are refused and change nothing.",
 ["histories","schedules","inputs"],
 "all interleavings of up to 2 operations of 45 kinds, 4 (5) of 10 kinds, with deliveries one or two at a time, rejecting receivers, unknown coins and receivers, repeated coins in a batch",
 "conservation spans two chains and messages under way; tests look at one contract with a mock",
 ["javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/NativeCoinService.java","javascore/nativecoin/src/main/java/foundation/icon/btp/nativecoin/irc31/OwnerBasedIRC31Supplier.java"],
 [("sending","NativeCoinService.java sendRequest / lock"),("receiving","NativeCoinService.java handleRequest"),("settling","NativeCoinService.java handleResponse / refund / reclaim"),("tokens","OwnerBasedIRC31Supplier.java mint / burn")],
 "locked and refundable balances, fees, transactions, token balances","balances and events on both networks")
p("P36","The ICON block verifier accepts exactly the voted chain and its proven messages",
 "The Java verifier of ICON blocks (javascore/bmv/icon), in every state, takes a relay message only from its own message center, for itself and for its network, and only when every block update in it is the next block, its votes are precommits of that very block (height, round, part set, block hash) by more than two thirds of the validators in force, each counted once, and a change of validators comes with exactly the validators the header announces; blocks already known are taken only with a witness of the accumulator at its current height. Messages are taken from receipts and events proven against the receipt hash of the last block of the message, only events Message of the message center of the source for this message center, and only when their sequence numbers continue the given one without gap or repetition; exactly those messages are returned, in order. Every genuine relay message is accepted. A refused message changes nothing and gives the documented error code (heights, sequence, votes, old witness); the status reports the height reached, the offset and the height of the last message.",
 ["inputs","histories"],
 "all orders of genuine and altered relay messages on chains of up to 10 blocks; all vote subsets of 1..7 (8) validators; tries of up to 129 (257) receipts and events; witnesses of every pair of heights",
 "a verifier has to refuse every forgery in every state and accept every genuine message; there are no tests of this module",
 ["javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/BTPMessageVerifier.java","javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/MerkleTreeAccumulator.java","javascore/bmv/icon/src/main/java/foundation/icon/btp/bmv/icon/MerklePatriciaTree.java"],
 [("blocks","BTPMessageVerifier.java verifyBlockUpdates / verifyVotes"),("known blocks","BTPMessageVerifier.java verifyBlockProof, MerkleTreeAccumulator.java verify / add"),("messages","BTPMessageVerifier.java handleRelayMessage / proveReceiptProof, MerklePatriciaTree.java prove")],
 "validators, accumulator, last height","returned messages, error codes, getStatus")
p("P37","Fee auctions owe no more than they hold and share by the rules",
 "The Java fee aggregation contract (javascore/fee-aggregation), for every order of deposits, auction ends, claims, withdrawals, incoming fee tokens and price changes: the coins it holds always equal the deposits of auctions not yet settled plus what is refundable, and the tokens it holds always cover what is claimable plus what is being auctioned, so no token is auctioned twice or promised to two users. An auction offers exactly the tokens free when it starts and takes deposits until its end time. When it is settled every depositor is counted once: if the tokens at the discounted price (90 percent of the price source's rate) are worth more than all deposits, each gets the tokens its deposit buys at that price; otherwise the tokens are shared in proportion to the deposits and the coins they do not cost become refundable (all rounded down); exactly the rest of the deposits goes to the fund. Claimable tokens and refundable coins are paid out once, also when the receiver is a contract that asks again while being paid, and are kept when the payment fails. Deposits of zero change nothing for anybody's share. Only the owner registers tokens (each name once, contracts only) and sets the duration, which is positive.",
 ["histories","inputs","fault_sequences"],
 "all sequences of 7 (8) operations of four groups (10..11 operations each; one of 20 operations to 5 (6)) with two tokens (IRC2, IRC31), two users and a contract, token transfers and receivers that refuse, prices down to zero, times before, at and after the end",
 "shares, refunds and re-auctioned remainders depend on several auctions in a row; the module's only tests need a running chain",
 ["javascore/fee-aggregation/src/main/java/foundation/icon/btp/FeeAggregationSCORE.java","javascore/fee-aggregation/src/main/java/foundation/icon/btp/Syndication.java"],
 [("deposits","FeeAggregationSCORE.java deposit, Syndication.java deposit"),("settling","FeeAggregationSCORE.java endAuction / distributeTokenShare"),("paying out","FeeAggregationSCORE.java claim / withdrawal")],
 "auctions, deposits, claimable, locked and refundable balances","token and coin balances, events, read-only methods")
p("P38","Log lines reach console, file and collector exactly by their levels",
 "Every line logged at or above the log level's severity appears, completely and once, in the log file and, when also within the console level (or, if one is set, the console level of the line's module, which is the module field or else the logging package), on the console, and nothing else appears there; the settings hold for all loggers derived from one another, whenever and through whichever of them they were changed. A log forwarder gets exactly the enabled lines within its own level (info when none is given), whatever the console shows, with message, fields, module and source place, and forwarding does not alter the line for console and file; unusable forwarder settings are refused. The log file never exceeds its size limit: it is renewed, and exactly as many and as old former files are kept, compressed if asked, as are configured. A line shows level, time, wallet, chain, module, place, text and all other fields; the relay program applies its log, console and module levels and its log file the same way, refuses unknown level names, and writes no password or private key.",
 ["configurations","inputs","histories"],
 "every combination of log level, console level, module level, file and line level for all logging methods; all sequences of 3 (4) setting changes through two handles; both forwarders at every level; log files of two sizes with every mix of old-file settings; the relay program with every pair of levels",
 "the combinations of levels and handles are many; the only existing test needs a remote collector and is skipped",
 ["common/log/log.go","common/log/filter.go","common/log/formatter.go","common/log/forwarder.go","common/log/writer.go","cmd/relay/main.go"],
 [("levels","common/log/filter.go Format, common/log/log.go SetLevel / SetConsoleLevel / SetModuleLevel"),("line format","common/log/formatter.go Format"),("forwarding","common/log/forwarder.go AddForwarder / Fire"),("program","cmd/relay/main.go setLogger")],
 "levels, module levels, file writer, hooks","standard error, log file, collector connection")
p("P39","Relay settings come from flag, environment, file and default, in that order",
 "Every setting of the relay program has the value of its command line flag if given, else of its environment variable, else of the configuration file, else its default, and no setting influences another; save writes exactly the values in force, without passwords. Start refuses to begin when a required setting (address and endpoint of both sides) is given nowhere and names exactly the missing ones. Each side's key store is opened with that side's secret file if one is given, else with its password, and with a wrong or unreadable one nothing is saved or started; where a key store is missing, save makes a new one with a fresh key under that side's password; the key stores asked for are written to the files named, readable by the owner only.",
 ["configurations","inputs"],
 "every setting from every subset of flag, environment and file with different values (switches: every value from each), every assignment of sources to the four required settings, every mix of password and secret file of both sides; thorough: every pair of settings",
 "the program's main function has no test; the sources combine per setting",
 ["cmd/relay/main.go","common/cli/helper.go","chain/config.go"],
 [("sources","cmd/relay/main.go main, common/cli/helper.go BindPFlags / NewViper / ViperDecodeOptJson"),("required settings","common/cli/helper.go ValidateFlagsWithViper"),("key stores","cmd/relay/main.go EnsureWallet / resolvePassword")],
 "flags, environment, configuration file","saved files, exit code, error text")
for x in P: print(json.dumps(x))
