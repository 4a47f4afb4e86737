#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the single source of the property texts).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
B="consensus/block.go";T="consensus/transaction.go";PR="consensus/proof.go";M="p2p/messages.go";H="p2p/handshake.go";PE="p2p/peer.go";PO="p2p/pool.go";S="p2p/sync.go";PT="p2p/protocol.go";HE="p2p/helpers.go";CH="chain/chain.go";CU="cuckoo/cuckoo.go";SI="cuckoo/siphash24.go";SC="secp256k1zkp/schnorr.go";DI="consensus/difficulty.go"
p("C01","Every message has the network's exact byte layout and round-trips",
 "Every message the node can send (handshake messages, pings and pongs, peer-address requests and lists with IPv4 and IPv6 addresses, header, block, compact block and transaction messages, block and header requests, errors) is encoded in exactly the Grin wire layout: big-endian integers, fixed field order, bit-packed proofs, length-prefixed strings and proofs. Decoding any such encoding yields an equal message and consumes all of it. The same layout is accepted from other implementations.",
 ["inputs"],"every field value of every message type, every list length and address family",
 "The tests decode one real block, one transaction and one handshake reply and re-encode only the block; no other message, field value or address family is ever encoded and decoded.",
 [B,T,PR,"consensus/locator.go",M,HE,H,PT],[("per-message encoder/decoder pairs",B),("message frame writer and reader",PT)],observe=["bytes returned by the encoders","values filled in by the decoders","bytes on a loopback TCP connection"])
p("C02","Encoding sorts lists canonically, has no side effects, and is concurrent-safe",
 "The encoding of a block, compact block or transaction does not depend on the in-memory order of its inputs, outputs and kernels: they always appear on the wire in ascending order of their hashes (short ids in ascending byte order). Encoding never modifies the object, so one object can be encoded for many peers at the same time without data races and always gives the same bytes. A received transaction whose lists are not in that order is refused.",
 ["inputs","schedules"],"every permutation of every list, and every interleaving of concurrent encoders of one object",
 "The single serialisation test starts from an already sorted block and encodes it once, on one goroutine.",
 [B,T,"consensus/id.go"],[("sorting before writing",B),("sortedness test on read",T)],observe=["encoder output","the object before and after","race detector"])
p("C03","Accepted headers, blocks and transactions have one encoding only",
 "If the node accepts a byte string as a block header, block, compact block or transaction (with its lists in canonical order), then re-encoding the decoded object gives back exactly the bytes consumed, so no two byte strings decode to the same object; the only exception is the unused padding bits in a range proof's sign vectors. In particular a proof of work with non-zero padding bits or nonces that do not fit, and a range proof whose declared length differs from its real length, are refused.",
 ["inputs"],"every byte string a decoder accepts, including bit flips of valid encodings",
 "Tests decode only well-formed captured bytes; they never look at what else the decoders accept.",
 [B,T,PR],[("proof-of-work bit unpacking",PR),("range proof length prefix",B)],observe=["decoder verdict","re-encoded bytes"])
p("C04","No byte string crashes a decoder or makes it allocate without bound",
 "For every byte string, every message decoder terminates with either a decoded message or an error: it never panics, never ends the process, and never allocates more than a fixed budget (a few hundred megabytes) however large the counts and lengths claimed in the message. Every proper prefix of a valid encoding is refused with an error.",
 ["inputs"],"all byte strings: random, mutated, truncated, and with extreme length fields",
 "Tests feed three well-formed messages; the claim is about all malformed ones.",
 [B,T,PR,"consensus/locator.go",M,HE,H],[("count and length sanity limits",B),("length limits on strings",M)],observe=["decoder return value","panics","process exit requests","bytes allocated"])
p("C05","Message frames and protocol limits are enforced on receipt",
 "A received message is accepted only if its frame carries the network magic, the expected message type and a declared length of at most 20,000,000 bytes; reading it consumes exactly the frame, no byte more or less, so that the next message starts where this one ended. Lists above the protocol limits (512 headers, 14 locator hashes, 256 peer addresses, 1,000,000 inputs, outputs, kernels or short ids) are refused, and lists up to the limits are accepted.",
 ["inputs","histories"],"every frame header, every split of the byte stream, every list length around each limit, sequences of frames",
 "One test reads one well-formed frame; no limit and no malformed frame is tested.",
 [PT,M,"consensus/locator.go",B,T,"consensus/network.go"],[("frame header check",PT),("count limits in decoders",M)],observe=["bytes left in the stream after a read","decoder verdict"])
p("C06","A cycle proof is accepted exactly when it is one simple full-length cycle",
 "Both cycle verifiers accept a list of nonces if and only if it is non-empty, strictly ascending, every nonce is in the graph's range, and the edges the nonces select form one single simple cycle through all of them (every vertex touched by exactly two edges, one connected closed walk). Paths, lassos, several disjoint or touching cycles, repeated or out-of-range nonces are always refused. Edges are derived from the key and nonce by the SipHash-2-4 constructions of the algorithm.",
 ["inputs"],"all keys, graph sizes and nonce lists, in particular near-cycles",
 "Tests check two known solutions and three hand-made edge lists; acceptance of non-cycles depends on rare graph shapes no sample hits.",
 [CU,SI],[("edge generation",SI),("cycle walk",CU)],observe=["verdict of the verifiers","edges returned for nonces"])
p("C07","A header is accepted exactly under the consensus header rules",
 "A block header is accepted only if its version is the one scheduled for its height (1 below 95,000; 2 below 250,000; 3 below 500,000; nothing later), its time is at most 12 block intervals (12 minutes) in the future, its graph size is 29 bits or at least 30, its difficulty scaling is 1 unless the size is 29, and it carries a valid 42-nonce proof of work for that size. A header meeting all of these is accepted.",
 ["inputs"],"all heights, versions, times, graph sizes, scaling factors and proofs",
 "One real header is validated once; every rule's rejecting side and the other versions and graph sizes are untested.",
 [B,PR,"consensus/consensus.go"],[("header validation",B),("version schedule",B)],observe=["verdict of header validation"])
p("C08","Proof of work binds the header; identity and difficulty derive from the proof",
 "Changing any transmitted header field other than the proof invalidates a mined header's proof of work, and changing any nonce or the graph size invalidates it too. A block's identity is the Blake2b-256 hash of its packed nonces, so it is the same for header, block and compact block and differs whenever the nonces differ. The difficulty of a proof is the maximum target divided by the leading 64 bits of the proof's hash, for every possible hash value.",
 ["inputs"],"every header field and every alteration of it; all proofs and hash values",
 "Tests check one genesis hash and one valid header; no field is ever altered.",
 [B,PR,DI],[("header bytes without proof as cycle key",B),("hash of packed nonces",B),("difficulty from hash",DI)],observe=["validation verdict","hashes","difficulty values"])
p("C09","Kernel signatures: only the key holder can produce an accepted one",
 "A signature produced for a message under a private key verifies under the matching public key, including after being serialised to 64 bytes and decoded. A kernel is accepted only if its 64-byte signature is a valid Schnorr signature for its exact fee, lock height and excess, where the excess is a point of the curve and the signature's scalar and coordinate are in range; no alteration of fee, lock height, excess or any signature bit of an accepted kernel is accepted. Verification never panics.",
 ["inputs"],"all keys, messages, kernels and all alterations of them, including off-curve points and out-of-range scalars",
 "Tests verify one in-memory signature and one captured kernel, both valid; soundness and serialisation need many keys and altered inputs.",
 [SC,B],[("signature creation and verification",SC),("kernel validation",B)],observe=["verification verdict compared with an independent secp256k1 model"])
p("C10","A block is valid only if every part of its body is valid",
 "A block is accepted only if its header is valid, it has at least one output and one kernel, at most one coinbase output and one coinbase kernel, its inputs, outputs and kernels are each in ascending hash order, every output's commitment is a curve point with a range proof valid for that very commitment, and every kernel (coinbase or not) carries a valid signature, wherever in the block the offending item is. A block satisfying all of these is accepted.",
 ["inputs"],"all block bodies under a valid header: any number of items, any defect at any position",
 "One valid block with a single kernel type mix is validated; no defective body is ever tried.",
 [B],[("block-scope validation",B)],observe=["verdict of block validation"])
p("C11","Difficulty retargeting follows the damped median-window rule",
 "The difficulty required of a block depends only on the 71 blocks before it: it is the average difficulty of the last 60 scaled by the 3600-second ideal window over the damped observed window ((3 x ideal + observed) / 4, with observed the gap in seconds between the medians of the newest 11 and the 11 oldest timestamps), the damped window being clamped to between half and twice the ideal. It is never below the minimum of 1, is exactly 1 while fewer than 71 blocks exist and 0 for no history. On-schedule blocks keep the difficulty, faster blocks raise it and slower blocks lower it.",
 ["inputs","histories"],"all histories of timestamps and difficulties",
 "No test calls the retarget function at all.",
 [DI,"consensus/consensus.go"],[("difficulty window calculation",DI),("window constants","consensus/consensus.go")],observe=["value returned for generated histories"])
p("C12","Chain start state and header answers follow the stored chain",
 "A chain opened on a storage reports the stored tip's height, total difficulty and block, or the genesis block's when the storage is empty. A header request is answered from the first of its (at most 14 considered) hashes that is known: with the headers that follow that block in chain order, at most 512 of them, excluding the block itself; it is answered with nothing if that hash is the tip or no hash is known. Block lookups return the stored block or nothing.",
 ["inputs","histories"],"all stored chains, all locators (known, unknown, mixed, oversized)",
 "The only chain test hashes a genesis block; no chain is ever opened or queried.",
 [CH,"chain/storage.go"],[("tip initialisation",CH),("locator walk",CH)],observe=["returned headers and blocks","calls reaching the storage"])
p("C13","Blocks are accepted onto a known parent only under the chain rules",
 "A block whose parent is stored is accepted exactly when it is valid by itself, its time is strictly after its parent's, its total difficulty is the parent's total plus the difficulty of the parent's proof, and its difficulty is at least the one the retarget rule requires after the preceding blocks (given newest first). The current tip offered again is accepted without effect. A refused block changes neither the reported height, difficulty and tip nor the storage.",
 ["inputs","histories"],"all parent blocks, preceding histories and candidate blocks",
 "Block processing is never exercised by a test.",
 [CH,DI],[("block processing checks",CH)],observe=["verdict of block processing","storage calls","reported state before and after"])
p("C14","Whole-chain validation passes only intact chains",
 "Validating a chain succeeds if and only if walking from the tip to the genesis block finds every intermediate block stored, linked to its predecessor and valid by itself. A missing block, a broken link or an invalid block anywhere, including at the tip, is reported as an error; a chain consisting of its genesis only is valid.",
 ["inputs","histories"],"all stored chains and all single corruptions of them",
 "Chain validation is never called by a test.",
 [CH],[("head-to-genesis walk",CH)],observe=["verdict of chain validation"])
p("C15","Concurrent chain queries and block processing are safe",
 "Any number of goroutines may request headers, blocks, height, total difficulty and tip, process headers and blocks and validate the chain at the same time: there is no data race, every call returns, no call leaves the chain locked whatever its outcome (including refused blocks), and every query returns what it would return if the calls ran one after another.",
 ["schedules"],"all interleavings of queries, block processing and validation",
 "No test uses more than one goroutine.",
 [CH],[("chain read-write lock",CH)],observe=["race detector","completion of every call","lock availability afterwards","answers against the sequential answer"])
p("C16","Short ids identify objects deterministically per block",
 "The short id of an object in a block is the low 6 bytes, little-endian, of SipHash-2-4 of the object's hash keyed by the first 16 bytes of the block hash; it depends on nothing else and leaves both hashes unchanged. Lists of short ids order by their bytes.",
 ["inputs"],"all object and block hashes",
 "Three vectors are tested; two of them share an all-zero key.",
 ["consensus/id.go"],[("keyed short hash","consensus/id.go")],observe=["short ids compared with an independent SipHash"])
p("C17","Commitments are binding curve points and add up",
 "The commitment to a value under a blinding factor is the curve point blind*G + value*H; commitments add homomorphically, so the sum of two commitments is the commitment to the sums modulo the group order. Public keys compress to 33 bytes from which exactly the same point is recovered, and the signed kernel message places fee and lock height, and nothing else, in its last 16 bytes.",
 ["inputs"],"all blinding factors, values, points, fees and lock heights",
 "No test calls the commitment function, and compression is only used implicitly.",
 [SC,"secp256k1zkp/constants.go"],[("commitment, compression and message functions",SC)],observe=["results compared with an independent curve implementation"])
p("P01","No remote peer can crash or wedge the node",
 "Whatever bytes a remote peer sends, in the handshake or after it, in any order and with any disconnect point, the node process neither panics, exits nor deadlocks: it goes on answering its other peers, and the offending connection is either closed or still answered. This holds also when no transaction pool is configured and when the peer is concurrently being banned.",
 ["inputs","fault_sequences","schedules"],"all byte sequences and disconnect points from a peer, against any concurrent activity of other peers",
 "No test opens a connection.",
 [PE,S,H,M,PO],[("per-peer read loop",PE),("message dispatch",S)],observe=["liveness of the process","answers to other peers","fate of the hostile connection"])
p("P02","Requests are answered correctly and in order",
 "On each connection, replies come in the order of the requests: each ping gets exactly one pong carrying the chain's current total difficulty and height, each header request exactly one header list equal to the chain's answer, each address request exactly one address list, each block request the block if it is stored and otherwise nothing. Messages that are not requests get no reply.",
 ["histories","schedules"],"all sequences of requests, pipelined, on any number of connections",
 "No test opens a connection or dispatches a message.",
 [S,PE],[("message dispatch",S),("send queue",PE)],observe=["byte stream received by scripted peers"])
p("P03","Outgoing messages arrive whole, once, and in each sender's order",
 "However many goroutines send to one peer concurrently, every message sent while the connection lasts arrives intact and exactly once, messages of one sender arrive in the order sent, and no two messages interleave on the wire. Sending to a peer that has disconnected or is disconnecting returns promptly instead of blocking or panicking.",
 ["schedules","histories"],"all interleavings of senders, the writer and a disconnect",
 "No test sends a message through a peer.",
 [PE,PT],[("single writer goroutine and send queue",PE)],observe=["byte stream at the remote end with uniquely tagged messages","return of every send call","race detector"])
p("P04","Disconnection is complete, idempotent and leaks nothing",
 "When a connection ends for any reason - remote close, read or write error, malformed message, local close from any goroutine, or several at once - its socket is closed, both of its worker goroutines end, waiters for the disconnect are released, and further closes are harmless. Nothing keeps running for that peer afterwards.",
 ["schedules","fault_sequences"],"all causes of disconnection, at any point of traffic, and all combinations of concurrent causes",
 "No test connects or disconnects a peer.",
 [PE],[("disconnect flag, quit channel and worker accounting",PE)],observe=["goroutine stacks","remote end of the socket","return of waiters"])
p("P05","Banned peers are cut off for good; only offenders are banned",
 "Banning an address closes its connection and from then on the address is reported as banned, is never advertised, never dialled and never re-admitted to the address table. A peer that sends a header list, block or transaction that the chain or transaction pool refuses is banned under the address it is known by; a peer whose messages are all accepted is not. Banning an unknown, never-connected or already banned address is harmless.",
 ["histories","schedules"],"all sequences of bans, address additions, connections and offending messages",
 "No test touches the pool.",
 [PO,S],[("ban list and address table",PO),("ban on refused messages",S)],observe=["ban status","address replies","dial attempts at scripted peers","connection fate"])
p("P06","Only accepted tip blocks are relayed, to exactly the peers that lack them",
 "A block received from a peer is relayed only if the chain accepted it and its height equals the chain's height. It is then sent exactly once, unaltered, to every connected peer whose last known height or total difficulty is lower than the block's, and to no other peer; in particular a refused block is never relayed.",
 ["histories","schedules"],"all sets of connected peers with all combinations of known heights and difficulties, all verdicts of the chain",
 "No test propagates a block.",
 [S,PO],[("relay decision",S),("propagation to connected peers",PO)],observe=["blocks received by scripted peers"])
p("P07","Connection slots are bounded and never lost",
 "The node never holds more than 15 connections of its own at once and never two to the same address. Every attempt that fails and every connection that ends gives its slot back, however often this happens and also when there is temporarily nothing to dial, so the node always goes on to dial addresses it learns later.",
 ["histories","fault_sequences"],"all sequences of successful and failing dials, disconnects, idle periods and new addresses",
 "No test runs the pool; a lost slot only shows after many events.",
 [PO],[("slot channel and connection bookkeeping",PO)],observe=["simultaneous connections seen by scripted peers","dials after long histories"])
p("P08","The address table and address replies are sound",
 "The address table admits only resolvable, non-multicast TCP addresses with a non-zero port, each once, up to 10,000 entries, and re-adding an address changes nothing about it. An address reply lists at most 256 addresses, without repetition, all from the table, none banned or last found unreachable, all offering every requested capability; with no filter and fewer than 256 such addresses, all of them are listed.",
 ["inputs","histories"],"all sequences of additions (valid, invalid, duplicate, overflowing), connection results and filters",
 "No test touches the pool.",
 [PO,S],[("address admission",PO),("address selection",PO)],observe=["address replies","pool entries"])
p("P09","Handshake admits only compatible peers and records what they said",
 "In both roles the handshake succeeds only with a peer that speaks the same protocol version, is on the same genesis block and, when accepting, does not present one of our own connection nonces; otherwise the attempt fails with an error and (when dialling) the socket is closed. A successful handshake records exactly the version, capabilities, total difficulty and user agent the peer sent, and our own message carries our version, capabilities, genesis hash and a nonce we recognise as ours. Two nodes of this implementation can complete the handshake with each other.",
 ["inputs","fault_sequences"],"all handshake messages, valid or not, cut off at any point",
 "One handshake reply is parsed from bytes; no handshake is performed and no refusal is tested.",
 [H,PE,"p2p/server.go"],[("hand and shake exchange",H),("self-connection nonces","p2p/server.go")],observe=["bytes on the socket","returned error or peer record","socket state"])
p("P10","Stopping the node ends all its network activity cleanly",
 "After a stop request the node's run call returns, no new connection is dialled, every peer connection is closed and its goroutines end, without panic or deadlock, whatever the state of its addresses at that moment: connected, failed, never dialled, banned, or being dialled.",
 ["histories","schedules"],"all moments of stopping and all mixes of address states",
 "No test starts or stops a node.",
 [PO,S],[("run loop and shutdown",PO)],observe=["return of the run call","connections seen by scripted peers","goroutine stacks"])
p("P11","Concurrent network activity is free of data races",
 "With many peers connecting, sending every kind of message and disconnecting, while other goroutines add, ban, query and list peers, relay blocks and read peer state under its lock, no two goroutines access shared memory without synchronisation.",
 ["schedules"],"all interleavings of peer traffic and pool operations",
 "The tests are single-threaded and never run under a race detector.",
 [PO,PE,S,"p2p/server.go"],[("pool, peer and table locks",PO)],observe=["race detector reports"])
p("P12","The node tracks each peer's latest announced height and difficulty",
 "After a peer's ping or pong the node's record of that peer holds exactly the height and total difficulty just announced; after an accepted block that exceeds the record in height or total difficulty it holds the block's; no other message, and no message of another peer, changes it. A new connection starts from what the handshake announced.",
 ["histories","schedules"],"all sequences of messages on any number of connections",
 "No test dispatches a message.",
 [S,PO],[("peer record update",S)],observe=["peer records after each acknowledged message"])
p("P13","A stalled peer harms nobody else",
 "A peer that accepts a connection but never completes the handshake, sends half a message, or stops reading does not keep the node from serving its other peers, from dialling further addresses, from listing and adding addresses, or from relaying blocks to others.",
 ["fault_sequences","schedules"],"all stall points of any number of peers",
 "No test has a peer at all.",
 [PE,PO,H],[("per-peer goroutines",PE),("dial and handshake in the run loop",PO)],observe=["answers to healthy peers and dials while others stall"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        assert x["statement"].count(". ")<=2,(x["id"],x["statement"].count(". "))
        f.write(json.dumps(x)+"\n")
print(len(P))
