TECH = "stateless model checking of the implementation (exhaustive exploration of schedules, faults, timer firings and inputs within bounds)"
LEVEL = "model_checking"
NOTE = ("Every execution within the stated bounds is run on the code of the current tree, whose goroutines, locks, channels, clock and map iteration are "
        "redirected to a controlled scheduler by source rewriting; trusted: the rewriter, the scheduler and the stand-ins named in DESIGN.md.")
NOTES = "Approach, bounds, defects found and the seeded changes each check catches are described in DESIGN.md."

prop("C01", "Framed messages survive any network chunking",
 "Every byte string of at most 20 MB written with the stream writer is read back by the stream reader exactly, one message per read and in the order written, however the network splits or coalesces the bytes and however many messages arrive together. A length header above the limit, a truncated header or payload, and a failing read or write are each reported as an error, never as a message or a success. The reader never delivers bytes of one message as part of another.",
 ["inputs","fault_sequences"], "every sequence of up to 3 messages of several lengths (0 and 4-byte-aligned ones included), every split of the byte stream into chunks up to a bound, truncation at every byte, a read or write error at every call",
 "The existing tests never put two messages on one stream nor split a frame; the guarantee is over all chunkings and cut points.",
 ["p2p/helper.go","p2p/connection_manager.go"],
 [("length-prefixed framing","p2p/helper.go ReadStreamWithBuffer/WriteStreamWithBuffer"),("read loop per stream","p2p/connection_manager.go handleStream")])

prop("C02", "Connections deliver each accepted message once, intact, over reconnects",
 "While a peer is reachable, every message whose write returned success on a healthy stream is handed to the protocol's listener of that peer exactly once and intact, with the transport identity of the sender, even when many goroutines write to the same peer at the same time; messages written one after another by one sender appear on the wire in that order. After a stream breaks, later writes use a working stream again instead of failing for ever, and a peer with no listener yet, an unknown peer or an unreachable one never crashes the node, loses later messages of that stream, or disturbs other peers.",
 ["schedules","fault_sequences"], "all interleavings (delay-bounded) of up to 3 concurrent writers over 2 peers and 2 protocols, with a failure injected at each stream operation, and listener registration at each point",
 "Tests use one writer on a healthy localhost connection; the property quantifies over concurrent writers, stream failures and the moment a listener appears.",
 ["p2p/connection_manager.go","p2p/connection.go"],
 [("stream reuse per protocol","p2p/connection.go writeToStream/createStream"),("dispatch to listener","p2p/connection_manager.go handleStream, AddListener"),("dialling","p2p/connection_manager.go createConnections")])

prop("C03", "Early messages wait intact for the work they belong to",
 "Messages that arrive for a work before it starts are all returned, exactly once, unchanged and per sender in arrival order, the first time a taker asks for that work (and message kind); messages of other works and of other kinds stay available to their own takers, never being lost, duplicated, reordered per sender or handed to the wrong taker. At most 64 messages are held per sender, the oldest of that sender giving way first, so one sender can never push out another sender's messages.",
 ["histories","schedules"], "every sequence of additions and takes up to depth 7 over 3 senders, 2 works and 2 kinds, the 64-per-sender boundary, and all interleavings of concurrent additions and takes",
 "The tests add a handful of messages in one order; losses show only for particular mixes of senders, works and kinds.",
 ["core/cache/message_cache.go"], [("per-sender lists","core/cache/message_cache.go AddMessage/PopAllMessages")])

prop("C04", "Sent messages stay available for retransmission until displaced",
 "A stored message can be fetched again by its key until as many newer messages of the same sender as the configured capacity have been stored, and the answer for a key is always the latest message stored under it, never another or an outdated one. Capacity is per sender (the node's own messages get five times as much): traffic of one sender never displaces another's, and nothing is kept beyond the capacity.",
 ["histories","schedules"], "every add sequence up to depth 7 (repeated keys included) over capacities 1 to 3, per-sender stores with 3 senders, concurrent adds and reads",
 "Tests insert distinct keys once; displacement with repeated keys needs particular histories.",
 ["core/cache/work_message_cache.go","tools/circular_queue.go"], [("ring with key index","tools/circular_queue.go"),("per-sender rings","core/cache/work_message_cache.go")])

prop("C05", "Work requests run in priority order and are queued exactly once",
 "The request queue returns every accepted request exactly once, higher priority (key generation) before lower (signing) and first-come first-served inside a priority; a request whose id is already waiting is refused and changes nothing, an empty queue gives nothing, and an id may be queued again after it left the queue. This holds for any interleaving of concurrent additions and removals.",
 ["histories","schedules"], "every sequence of additions and removals up to depth 7 over 4 kinds of request and duplicate ids; all interleavings of concurrent adders and takers",
 "Tests push a few requests in one order; overwriting and reordering happen only for particular mixes.",
 ["core/request_queue.go"], [("sorted insert","core/request_queue.go AddWork/Pop")])

prop("C06", "The engine finishes every accepted work once and keeps its queue moving",
 "For every accepted request the engine reports exactly one outcome to its caller (key-generation result, signing result, not selected, or failure), for all four work kinds, whatever order and timing messages, results, failures and new requests have; a request naming an unknown participant or an invalid kind is refused with an error and reports nothing. At most two works run at any moment; a work occupies its slot until it ended, the slot is then released exactly once, and waiting works start as slots become free, so that after all works ended nothing runs and nothing waits. A request whose id is already waiting or running is refused and never disturbs the work in progress.",
 ["schedules","histories"], "delay-bounded interleavings of up to 4 requests (mixed kinds, duplicate ids) with members answering, being silent or failing, on the real engine and workers with a stand-in for the cryptographic library",
 "Tests run one work with timers to order events; slot accounting breaks only for specific overlaps of completion, failure and arrival.",
 ["core/engine.go","core/request_queue.go","worker/default_worker.go"], [("slot limit","core/engine.go startNextWork/finishWorker"),("outcome callbacks","core/engine.go OnWorkerResult/OnWorkFailed/OnNodeNotSelected")],
 state=[("workers","works in progress by id","core/engine.go")])

prop("C07", "The engine's entry points never deadlock or race",
 "Any number of goroutines may at the same time add nodes, submit requests, deliver network messages of every kind, ask for retransmissions, query the active count and finish works: every call returns, no two calls block each other for ever, and no shared memory is accessed without synchronisation. This holds however the calls interleave, in particular when a writer arrives between two reads made by the same call.",
 ["schedules"], "delay-bounded interleavings of pairs and triples of engine entry points, with a happens-before race detector and a write-preferring reader/writer lock model",
 "Deadlocks and races of this kind need one specific interleaving out of thousands; the tests see one or two.",
 ["core/engine.go","worker/default_worker.go","worker/worker_executor.go"], [("workLock and nodeLock","core/engine.go"),("worker lock","worker/default_worker.go")])

prop("C08", "Leader and members agree on one valid set of participants",
 "When the leader of a work settles on participants, it announces exactly the set it will itself use: the set has no duplicates, contains only parties of the request that answered YES to this work, contains the leader, has all parties for key generation and threshold+1 parties for signing (or exactly the parties of the chosen presigned set), and carries either one presign id per message or none. Every member that accepts the announcement uses the same set and presign ids, and a member not in the set does not take part; no order, timing, repetition or loss of the availability messages changes this.",
 ["schedules","histories","inputs"], "all orders and timings (timer firing against message arrival included) of availability answers of up to 4 parties, NO answers, unknown senders, repeated answers, for all four work kinds and with 0, matching, or non-matching presigned sets",
 "Tests cover a few fixed answer orders; agreement must hold for every arrival order and for answers racing the timeout.",
 ["worker/prework_selection.go","worker/available_parties.go"], [("leader decision","worker/prework_selection.go checkEnoughParticipants/leaderFinalized"),("member acceptance","worker/prework_selection.go memberFinalized")])

prop("C09", "Participant selection always ends, once, within its time limit",
 "Every participant's selection ends with exactly one result no later than its configured time limit, whatever messages arrive, are repeated, or are missing: the leader succeeds as soon as enough parties answered (all of them for key generation; threshold+1 for signing, immediately for EdDSA, and for ECDSA at once if all answered or a presigned set fits, otherwise at the time limit) and fails at the limit otherwise, announcing failure to the members. Members wait longer for the leader than the leader waits for members under the default configuration, and handing a selection message to a party, even after its selection ended, never blocks the sender of that message.",
 ["schedules","fault_sequences","configurations"], "all arrival orders and losses of selection messages for up to 4 parties against the timers, floods of repeated messages before, during and after the selection, the default configuration",
 "Tests pick one delay; the result depends on the race between answers and timers and on floods filling internal queues.",
 ["worker/prework_selection.go","core/config/timeout.go"], [("time limits","worker/prework_selection.go waitForMemberResponse, doPreExecutionAsMember; core/config/timeout.go"),("message hand-over","worker/prework_selection.go ProcessNewMessage")])

prop("C10", "Only the elected leader can decide who takes part",
 "A member acts only on a selection announcement sent by the work's elected leader; announcements from any other party, whether they arrive before the work starts or while it is selecting, are ignored and do not keep the leader's own announcement from being honoured. An announcement from the leader naming an unknown party, a party twice, fewer than threshold+1 parties, or not all parties for key generation, or presigned data the member does not hold in full, is rejected and makes the work fail on that member instead of starting it; anything the leader or others send after that changes nothing.",
 ["inputs","histories"], "every sequence of up to 3 announcements from leader, member and stranger with every malformed variant, cached before the start or live, for all four work kinds",
 "Tests send only well-formed announcements from the leader.",
 ["worker/prework_selection.go"], [("announcement handling","worker/prework_selection.go memberFinalized/validateLeaderSelection, doPreExecutionAsMember")])

prop("C11", "A batch succeeds exactly when every job of it succeeds in time",
 "A worker reports success exactly once if every signing or key-generation job of the batch produced its result, with result i belonging to input i; it reports failure exactly once, and never success, if any job failed to start, was given a message it rejects, or had not finished when its own time limit passed, and it reports nothing else later. The time limit runs from the job's start and is not extended by incoming or outgoing messages, and no finished work leaves goroutines behind that wait for ever.",
 ["schedules","fault_sequences"], "batches of 1 to 3 jobs, all four kinds, each job finishing, failing or stalling at each protocol round, all delay-bounded interleavings of outputs, results and timers",
 "The real protocol takes seconds per run, so the tests see one interleaving; a job's result racing its last outgoing message or its timeout is never exercised.",
 ["worker/worker_executor.go","worker/job.go","worker/default_worker.go"], [("result collection","worker/worker_executor.go OnJobResult/broadcastResult"),("job loop","worker/job.go startListening")])

prop("C12", "Protocol messages of a batch reach the right job of the right party",
 "The messages that the jobs of a batch produce for one round and destination leave the node as one network message, sent exactly once, after all jobs produced theirs, to all parties of the set or to the one addressed, carrying entry i for job i; on arrival, entry i goes to job i only, attributed to the party that sent it and with its broadcast flag kept. Messages that arrive before the execution starts are delivered once it does, none lost or delivered twice, and messages from outsiders or of other works reach no job.",
 ["schedules","inputs"], "batches of 1 to 3 jobs, 2 to 3 parties, all rounds of the four protocols, all delay-bounded orders in which jobs produce and messages arrive around the start of execution",
 "Mixing shows only when jobs progress at different speeds or messages arrive around the start; tests have no control over that.",
 ["worker/worker_executor.go","worker/default_worker.go","types/common/tss_message.go"], [("bundling","worker/worker_executor.go OnJobMessage"),("routing","worker/worker_executor.go ProcessUpdateMessage"),("early messages","worker/default_worker.go ProcessNewMessage/runExecutor")])

prop("C13", "Work completes although single protocol messages are lost",
 "If any one protocol message between two participants is lost, for any round, broadcast or addressed, ECDSA or EdDSA, key generation or signing, while the participants stay connected, the receiver notices and asks for it, someone who has it sends it again, and all participants still complete the work with the same result within the job time limit. Nobody re-sends to parties or for rounds that were not asked for.",
 ["fault_sequences","schedules"], "every single lost protocol message (and every pair, thorough) in runs of 2 and 3 engines of all four protocols, in virtual time",
 "The e2e tests lose a few messages at random and take minutes; the guarantee is for every message of every round of every protocol.",
 ["worker/components/message_monitor.go","core/engine.go","core/message/tss_phase_messages.go"], [("monitor","worker/components/message_monitor.go"),("re-send","core/engine.go OnAskMessage"),("round tables","core/message/tss_phase_messages.go")])

prop("C14", "The missing-message monitor asks for exactly what is missing",
 "When no protocol message has arrived for the configured time, the monitor reports every message kind not yet received from each peer up to the most advanced kind seen from anyone, or, if none of those is missing and the protocol has a further kind, that next kind for every peer; it never reports the own node, a received message, or a peer outside the work. While messages keep arriving within the time, after everything arrived, and after it was stopped, it reports nothing, and for a stalled work it keeps reporting periodically.",
 ["histories","schedules"], "every set and order of received messages of 2 peers for each protocol's kinds (up to depth 5), arrival times against the monitor's period, stop at every point",
 "Tests check two or three fixed reception patterns.",
 ["worker/components/message_monitor.go","core/message/tss_phase_messages.go"], [("gap computation","worker/components/message_monitor.go findMissingMessages"),("timer","worker/components/message_monitor.go Start")])

prop("C15", "Retransmission never shows a message to a party it was not meant for",
 "A request to re-send is answered only with the exact stored message of the asked work, sender, destination and round: a message addressed to one party is sent again to that party only and only on its own request, a broadcast message to the requester only, and requests for unknown, foreign or malformed keys or from unknown parties are answered with nothing. Only the node's own protocol messages and broadcast protocol messages of others are kept for re-sending; the re-sent bytes are those of the original, with its original author and signature.",
 ["inputs","histories"], "every combination of requester (participant, other participant, stranger), asked key (own/foreign author, broadcast/addressed, each destination, unknown, malformed) and history of sent and received messages",
 "Tests try one legitimate and one illegitimate requester.",
 ["core/engine.go","core/cache/work_message_cache.go","types/common/tss_message.go"], [("ask handling","core/engine.go OnAskMessage"),("what is stored","core/engine.go cacheWorkMsg/OnNetworkMessage")])

prop("C16", "Malformed or hostile network input never stops a node",
 "Whatever bytes or message structures a connected peer sends (not decodable, missing or empty parts, wrong kinds, wrong number of entries, unknown works or senders, repeated messages), at any time of a work's life or with no work at all, the node neither crashes nor blocks, and works in progress among correct participants still end with the outcome they would have had. Messages of an unknown transport peer are ignored.",
 ["inputs","histories"], "each of some 40 malformed message shapes, alone and in pairs, from each kind of sender, delivered at each stage of the work (idle, selecting, executing, finished) for ECDSA and EdDSA; every field of every message one party sends in a real key generation or signing replaced by hostile values",
 "Tests contain almost no malformed input; a crash needs one specific absent field at one specific stage.",
 ["core/engine.go","worker/default_worker.go","worker/worker_executor.go","worker/prework_selection.go","types/common/tss_message.go"],
 [("decoding","core/engine.go OnNetworkMessage"),("validation","worker/worker_executor.go ProcessUpdateMessage")])

prop("C17", "Every outgoing protocol message is signed by its author over its content",
 "Every message a node puts on the network, other than a message of another node that it passes on unchanged when asked to, names that node as author and carries a signature by the node's private key (ed25519 or secp256k1) over the encoding of exactly the message sent with it, verifiable with the node's public key; a message that cannot be signed is not sent. A node never sends a message to itself, and each addressee gets every message exactly once. This holds under concurrent sending of different messages.",
 ["inputs","schedules"], "all message kinds, both key types, broadcasts to every subset order of 3 parties including the own one, concurrent senders",
 "Tests use a mock signer and never verify a signature.",
 ["core/engine.go","core/signer/signer.go"], [("signing","core/engine.go getSignedMessageBytes"),("addressing","core/engine.go sendSignMessaged")])

prop("C18", "A node never hands out the same presigned value twice",
 "Each presigned value (presign id) is given to at most one signing by a node, over any interleaving of concurrent requests, any number of restarts at any point, and any failure of the database calls involved: once a value has been handed out it is recorded as used before it can be used, and a restarted node never offers it again. A request is given as many distinct values as it asked for, or none.",
 ["schedules","crash_points","fault_sequences"], "2 to 3 concurrent requests of batch size 1 to 3 over up to 4 stored values, a database failure at each call, a crash and reload after each database operation",
 "Reuse of a presigned value leaks the key; it needs a particular interleaving, crash or database failure.",
 ["core/components/available_presign_manager.go","db/database.go"], [("consume under lock","core/components/available_presign_manager.go GetAvailablePresigns"),("status column","db/database.go UpdatePresignStatus/GetAvailablePresignShortForm")])

prop("C19", "Presigned sets are offered only to the parties that made them",
 "A set of presigned values is offered only if all parties that produced it are among the available ones, in the number asked for, together with exactly those parties; if some set fits, one is offered, and if none fits, nothing is offered and nothing is consumed. Values added or loaded become available exactly once for their parties, and no sequence or interleaving of requests, additions and loads blocks a caller for ever.",
 ["schedules","histories"], "every sequence up to depth 5 of add, load and take over 3 party sets and batch sizes 1 to 3, and all interleavings of concurrent calls",
 "Tests make single sequential requests; lost wake-ups and leaked locks need two callers competing for the last values.",
 ["core/components/available_presign_manager.go"], [("matching","core/components/available_presign_manager.go GetAvailablePresigns"),("loading","core/components/available_presign_manager.go Load/AddPresign")])

prop("C20", "Stored key material is read back exactly, in the order asked",
 "Preparameters, ECDSA and EdDSA key shares, presigned values and their status are read back from the database exactly as saved, under the key type or presign id they were saved with (the share saved last, if a key type has several); a batch of presigned values is saved whole, and loading or asking the status of several ids gives the results in the order of the ids asked, reporting an error if one is missing. Marking ids as used changes exactly these ids, lists of unused values contain exactly the unused ones with their parties, an absent preparameter set gives the not-found error and an absent share gives no share, and a failing database call is reported as an error, never as data.",
 ["histories","inputs","fault_sequences"], "every sequence up to depth 4 to 5 of save, load, mark and list operations over small key and id sets on an in-memory database, with a failure at every database call",
 "Tests do one save and one load per table; batches, orders and failures are not covered.",
 ["db/database.go","db/database_helper.go","db/migrations/002_create_presign_table.up.sql"], [("queries","db/database.go"),("schema","db/migrations/")])

prop("C21", "A key is reported only after its share is safely stored",
 "A key-generation success is reported to the caller only after the share that belongs to the reported public key was stored successfully under the requested key type; if storing fails, the work is reported as failed and no public key is published. A crash at any moment therefore never leaves a published key without its share on this node.",
 ["fault_sequences","crash_points","schedules"], "ECDSA and EdDSA key generation with a failure at each database call and a crash cut after each externally visible action",
 "Tests use a database mock that never fails.",
 ["worker/default_worker.go","core/engine.go"], [("save before report","worker/default_worker.go onJobExecutionResult/saveJobResultData")])

prop("C22", "Published keys and signatures have their fixed, verifiable encoding",
 "A reported ECDSA signature is 65 bytes, the 32-byte big-endian R, the 32-byte S and the recovery byte, for every value of R and S including those with leading zero bytes, and an EdDSA signature is the 64-byte signature of the library; signatures are reported in the order of the request's messages and each verifies under the group key for its own message. A reported ECDSA public key is the 65-byte uncompressed point and an EdDSA one the 32-byte compressed point of the generated key; an EdDSA result containing a signature that does not verify is never reported as success.",
 ["inputs"], "R and S of every length from 0 to 32 bytes, batches of 1 to 3, messages with leading zero bytes, one wrong signature at every position of a batch",
 "A short R or S occurs once in 128 signatures and a leading zero in a message once in 256; tests sign one random message.",
 ["core/engine_ecdsa.go","core/engine_eddsa.go","utils/crypto.go","worker/job.go"], [("encoding","core/engine_ecdsa.go onEcSigningFinished, utils/crypto.go PadToLengthBytesForSignature"),("verification","core/engine_eddsa.go onEdSigningFinished")])

prop("C23", "Every accepted signing request is answered once, with the request itself",
 "Before the node was declared ready and its key set, key-generation and signing calls are refused with the not-ready error and nothing is started; afterwards, each accepted signing call leads to exactly one posted result that carries the caller's original request, whatever its outcome and however quickly it ends, and each accepted key-generation call to exactly one posted key-generation result with its key type. Calls that cannot be served (unknown key type, no key share for it, empty batch, unusable public key) return an error and post nothing; repeated and concurrent calls neither crash nor exchange each other's requests: a call repeating a work in progress is refused, or answered itself, and leaves the first one's answer as it would be; a call repeating an ended work is served anew. None of this depends on what was called before.",
 ["histories","schedules","inputs"], "every sequence up to depth 3 of API calls with valid and invalid arguments at one or all of two connected nodes, with time to end between calls or not, interleavings of concurrent calls, and shares of a foreign key generation in the database with the real library",
 "Tests drive the API on the happy path only; the answer racing the registration of its request needs a specific schedule.",
 ["core/heart.go","server/tss_api.go"], [("request bookkeeping","core/heart.go Keysign/OnWorkSigningFinished/OnWorkFailed"),("readiness","core/heart.go SetSisuReady, Keygen")])

prop("C24", "The node key is set once, decrypted correctly, and retried after failure",
 "Setting the node's private key succeeds only with a correctly encrypted key of a supported type and then starts networking under that identity exactly once; the same key again is accepted and does nothing, a different key is refused and changes nothing. Malformed hex, ciphertexts of any length, wrong AES keys, wrong key lengths, unsupported types and unusable settings of the network give an error, never a crash, and after any failed attempt, including a failure to start the network or to read the database, a later correct attempt succeeds in full.",
 ["histories","fault_sequences","inputs"], "every sequence up to depth 3 of key settings (valid, same, different, malformed, truncated, wrong type) with a network or database failure at each call",
 "Tests call it once with a good key.",
 ["core/heart.go","utils/crypto.go"], [("decryption and identity","core/heart.go SetPrivKey/initConnectionManager"),("AES-GCM","utils/crypto.go AESDecrypt")])

prop("C25", "Encrypted secrets decrypt exactly or fail cleanly",
 "Encrypting and then decrypting with the same key gives back every plaintext exactly; any truncation, extension or change of a ciphertext and any wrong key is reported as an error, never as a plaintext and never as a crash, for transported secrets and for values in the encrypted store alike. The encrypted store returns the latest value put under a key and an error for absent keys, and never keeps the plaintext readable in its files. Encrypting the same plaintext twice gives different ciphertexts, in the format of the caller: the nonce, then the AES-GCM output.",
 ["inputs","histories"], "plaintexts of lengths 0 to 40, every single-byte change and every truncation of their ciphertexts, all key sizes, store histories up to depth 4",
 "Tests encrypt one string; the failures are at particular lengths.",
 ["utils/crypto.go","store/store.go"], [("AES-GCM","utils/crypto.go AESDecrypt/AESDEncrypt, store/store.go GetEncrypted/PutEncrypted")])

prop("C26", "Preparameters are generated once, stored before use, and reused",
 "Starting the node waits until the database can be opened, however often opening fails, and then makes sure it has one set of preparameters: the stored one if there is one, else a newly generated one that is stored before anything uses it. If reading, generating or storing fails, starting reports an error instead of going on without, or with an unstored set; an unreadable stored set is an error too and is kept. Restarts at any point, including a crash during the first start, leave at most one set that never changes once stored, and an ECDSA key generation uses exactly the stored set.",
 ["histories","fault_sequences","crash_points"], "a failure at each database call and of the generation, an unreadable stored set, restarts up to depth 3, and key generations after them",
 "Generating preparameters takes minutes, so the tests load them from a fixture and never start a node with an empty or failing database.",
 ["core/heart.go","worker/worker_executor.go","db/database.go"], [("start","core/heart.go Start"),("use","worker/worker_executor.go loadPreparams"),("storage","db/database.go LoadPreparams/SavePreparams")])

prop("C27", "All nodes derive the same ids, order, leader and threshold for a work",
 "From the same set of public keys and the same request, every node derives the same work id, the same participant order, the same threshold and the same leader, whatever order the keys are listed in and whichever node asks; the leader is one of the participants, and for key generation and signing alike the threshold is (n+1)*2/3-1 with integer division. Different ordered lists of message ids, or different key types, give different work ids, node identities derive from the public key alone, and a request's participants are copies, so that running one work never changes the participants of another.",
 ["inputs","histories","configurations"], "every permutation of up to 4 public keys of both types, every n up to 12, work ids over message lists, every pair of works sharing participants",
 "Tests check one order; agreement is a statement over all permutations and nodes.",
 ["core/heart.go","core/node.go","worker/prework_selection.go","worker/types/work_request.go","utils/party.go","utils/misc.go"],
 [("node derivation","core/node.go NewNode/NewNodes"),("leader","worker/prework_selection.go ChooseLeader"),("work id","core/heart.go Keysign")])

prop("C28", "Posting results never crashes, connected or not, and dialling never gives up",
 "Posting a result while the caller's server has not been reached yet, or is unreachable, returns an error and never crashes; once connected, each posted key-generation or signing result reaches the server exactly once, under the method of its kind and with its content, and the server's error is returned. Dialling retries until a ping succeeds, however many times connecting or the ping fails, then stops, and posting at the same time from other goroutines is safe.",
 ["schedules","fault_sequences"], "all interleavings of the dialling goroutine with 2 posting goroutines, with up to 3 failures of the connection or the ping",
 "Tests mock the client altogether.",
 ["client/client.go"], [("dial loop","client/client.go TryDial"),("posting","client/client.go PostKeygenResult/PostKeysignResult")])

prop("C29", "The peer address book survives restarts unchanged",
 "Peers saved to the database are read back with the same address, public key and key type, in any number, and a node started with configured peers and an empty address book stores them and from then on knows them also after a restart without configuration. An empty list and a failing database call cause an error at most, never a crash or made-up peers; undecodable entries are skipped without affecting the others.",
 ["inputs","histories","fault_sequences"], "every list of up to 3 peers over both key types and malformed entries, restart histories, a failure at every database call",
 "No test stores peers.",
 ["db/database.go","core/heart.go","utils/crypto.go"], [("peers table","db/database.go SavePeers/LoadPeers"),("use at start","core/heart.go loadPeers")])

prop("C30", "Real runs agree on key and signature under every message order",
 "With the real cryptographic library, nodes running key generation end with the same public key on every node, and nodes running signing with the shares so generated end with a signature that verifies under that key for the message, whatever its bytes, for every order in which the network delivers the protocol messages. The message kinds, destinations, their order in a party, and the point where a party waits for others equal those the stand-in for the library produces in the other checks, for EdDSA and ECDSA.",
 ["schedules","inputs"], "delay-bounded delivery orders of all protocol messages between 2 and 3 nodes with the real library, messages of several lengths and first bytes; lock-step comparison of real and stand-in parties over the same orders",
 "A test run sees the one order the machine happens to produce.",
 ["worker/job.go","worker/worker_executor.go","core/engine_eddsa.go","core/engine_ecdsa.go"], [("party driving","worker/helper/tss_updater.go"),("jobs","worker/job.go")])

prop("C31", "All nodes of the network finish a work in agreement",
 "When all participants submit the same request and stay connected, every selected node of the network ends the work successfully with the same public key (key generation) or the same valid signatures (signing), every other node ends it as not selected, and nobody fails, whatever order nodes start in and messages are delivered in, for all four work kinds and with two works running at the same time. If too few participants take part, every node that does ends the work as failed within the selection time limits, and later works are unaffected; a work that ended so succeeds when all participants submit it again.",
 ["schedules","configurations"], "3 full engines connected by a controlled network: all start orders, delay-bounded delivery orders, any subset of nodes not starting, failed and ended works submitted again, two overlapping works",
 "The end-to-end programs need minutes per run and see one delivery order.",
 ["core/engine.go","worker/default_worker.go","worker/prework_selection.go","worker/worker_executor.go"],
 [("engine","core/engine.go"),("selection and execution","worker/")])

prop("C32", "The single-node API answers each call once with verifiable results",
 "In single-node mode each accepted key-generation call leads to exactly one posted success of its key type with a usable public key, and each accepted signing call to exactly one posted success carrying the caller's request and one signature per message in the messages' order, each valid for its message under a key reported for the request's key type. A call with an unknown key type, before a key of its type exists, without a request or message, or with ECDSA bytes of the wrong length returns an error and posts nothing. No sequence or overlap of calls, and no failure of posting, crashes or makes later calls fail.",
 ["histories","schedules","inputs"], "every sequence up to depth 3 of calls with valid and invalid arguments, results pending or posted in between, and overlapping calls with a race detector",
 "No test drives this API.",
 ["server/single_node_api.go"], [("key generation","server/single_node_api.go KeyGen"),("signing","server/single_node_api.go KeySign")])

prop("C33", "The culprits of a round are exactly those who kept silent or misbehaved",
 "For a work, a round and a set of parties, the parties reported as culprits are exactly those of the set that sent nothing in that round of that work or were reported as culprits in it, each once; what happened in another work or round changes nothing. The parties reported as culprits before the execution are returned as reported. Asking changes nothing, and calls from several threads lose nothing.",
 ["histories","schedules"], "every sequence up to depth 3 (thorough: 4) of messages and reports over works and rounds whose names run into each other; every schedule with at most 2 preemptions of concurrent messages, reports and questions, with a race detector",
 "The unit tests hold one history with one thread.",
 ["blame/manager.go"], [("bookkeeping","blame/manager.go")])

prop("C34", "A configuration written to a file is the one read back",
 "Whatever the values of the home directory, flags, server address, ports, database and connection settings and the list of peers, a configuration written to a file is read back with the same values, peers in order, whatever the file held before; the key that decrypts secrets is never written to it. Reading a missing, malformed or wrongly typed file is reported as an error, and the documented generator of a local configuration produces a home directory, environment and configuration a node can start from, with ports that do not collide.",
 ["inputs","configurations"], "every pair (thorough: triple) of settings, each over strings with quotes, escapes, line breaks and template or TOML syntax, extreme numbers and up to 3 peers, over an absent or longer old file; a list of malformed files; the generator run with and without an old file",
 "No test writes or reads a configuration; values with special characters and the generator are not exercised.",
 ["core/config/config.go","core/config/toml.go","core/config/gen-localhost/main.go"], [("reading","core/config/config.go ReadConfig"),("writing","core/config/toml.go WriteConfigFile"),("generator","core/config/gen-localhost/main.go")])

prop("C35", "The program serves its caller as configured, or stops",
 "Started with a home directory and an AES key in its environment or .env file, the program uses the configuration file in that directory: it serves RPC calls under the name tss on all addresses at the configured port, those of a single node or of a complete node as configured; a complete node is served only once its database is usable (it waits for one that is unreachable), uses the configured database, network address and AES key, and refuses a node key encrypted otherwise. Whether the configured server answers yet does not matter for that; the program keeps dialling it until it does, and posts every result there, and logs to the configured service exactly if that has a secret. Calls made as soon as the port is open succeed. If the configuration is missing or unusable, the AES key is not hexadecimal, the port is taken, a log service lacks its names or preparameters cannot be made, the program ends without serving anything.",
 ["configurations","schedules","fault_sequences"], "every pair (thorough: every combination) of deviations in mode, port, key length and spelling, place of the environment, log service, refused dials, database outage and key type, each followed by a key generation and a signing whose results have to arrive at the server; 14 reasons to stop; every schedule with at most 2 deviations of calls made as soon as the port is open, with database failures",
 "No test starts the program.",
 ["run/run.go","server/server.go","server/api.go","core/heart.go"], [("start","run/run.go SetupApiServer"),("serving","server/server.go Run"),("mode","server/api.go GetApi")])

DONE = set("C%02d" % i for i in range(1, 36))
for _p in P:
    if _p["id"] not in DONE:
        _p["claim"] = False
        _p["na"] = "Check under construction."
