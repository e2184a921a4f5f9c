COMMON = "Every obligation is generated from the current source (go/ssa) and discharged by an SMT solver; partial correctness. Trusted: go/ssa, the govc translation and its models of built-ins and library functions, the solvers. The same contracts are also executed on concrete inputs against the compiled code, which supplies failing inputs."

prop("C01", "Byte-string key encoding round-trips and accepts nothing else",
 "For every byte string, decoding its ascending or descending key encoding, whatever bytes follow it, returns exactly that byte string and the bytes that follow. The ascending decoder accepts no input other than the encoding of what it returns, and neither encoder nor decoder panics or alters bytes it was given.",
 ["inputs"], "every byte string, every destination slice (length, spare capacity), every trailing data, every malformed input",
 "The tests encode and decode a dozen fixed literals; group boundaries, buffer aliasing and malformed inputs are an infinite family.",
 ["kv/memcomparable/bytes.go"],
 ["EncodeBytes, EncodeBytesDesc, decodeBytes and fastReverseBytes under contract: the result equals a mathematical description of the encoding, byte by byte, with loop invariants; decoding is proved against the same description"],
 COMMON)

prop("C02", "Byte-string key encoding preserves order and is prefix-free",
 "For any two byte strings, the ascending encodings compare exactly as the byte strings do and the descending encodings compare the other way round. No encoding is a prefix of another one, so keys built by appending further components still order by their first component.",
 ["inputs"], "every pair of byte strings and every pair of trailing data",
 "The tests compare a few dozen literal pairs; order preservation is a statement about all pairs, in particular strings containing zero bytes and strings that are prefixes of each other at group boundaries.",
 ["kv/memcomparable/bytes.go"],
 ["the contract of EncodeBytes/EncodeBytesDesc gives the encoding byte by byte; a lemma over that description proves order and prefix-freeness"],
 COMMON)

prop("C03", "Number key encodings round-trip and order like the numbers",
 "Every signed and unsigned 64-bit integer, unsigned byte and non-NaN float decodes from its ascending and its descending encoding to an equal value, followed by exactly the remaining bytes. The encodings compare exactly as the numbers do (reversed for the descending form), and truncated input is rejected with the documented error.",
 ["inputs"], "every 64-bit integer, byte and non-NaN float64, every destination slice and trailing data",
 "Tests sample a handful of values around zero; sign handling, float bit patterns and slices with spare capacity are not sampled.",
 ["kv/memcomparable/number.go", "kv/memcomparable/float.go"],
 ["contracts on every encoder/decoder, plus a lemma relating 8-byte big-endian strings to integer order"],
 COMMON)

prop("C04", "Compact encodings round-trip and malformed input never panics",
 "Every integer and byte string decodes from its variable-length encoding to the same value followed by exactly the bytes that come after it, whatever those are. Decoding arbitrary bytes either fails, returning nothing, or returns parts of the input in place; it never panics, and encoders never alter bytes they were given.",
 ["inputs"], "every integer and byte string, every destination slice and trailing data, every malformed or truncated input",
 "Tests decode what they encoded for a few literals; negative lengths, truncation and aliasing with the destination are not sampled.",
 ["kv/compact/bytes.go", "kv/compact/number.go"],
 ["contracts on every encoder and decoder over the library contract of encoding/binary varints"],
 COMMON + " Assumed and only executed: the round trip and the bounds of encoding/binary's varints.")

prop("C05", "Key successors bound exactly the right ranges",
 "No key lies between a key and its successor; the keys with a prefix are exactly those from the prefix up to its prefix successor (among keys at least as long), except for prefixes made of 255 only. A range counts as a point exactly when its end is one of the two successors of its start, key comparison is byte order, and derived keys share no memory with the original.",
 ["inputs"], "every key and pair of keys",
 "The tests try two keys; carry propagation through runs of 255 bytes is where they go wrong and no sample settles all keys.",
 ["kv/key.go"],
 ["contracts with loop invariants on Next, PrefixNext, Cmp, HasPrefix, Clone, IsPoint plus order lemmas"],
 COMMON)

prop("C06", "Stored counters hold exactly the sum of their increments",
 "An increment returns the previous value (zero when absent) plus the step and makes exactly that readable; setting and reading a counter round-trips every integer. A failed operation changes nothing, other keys keep their values, and decoding a number accepts nothing but encodings.",
 ["inputs", "histories", "fault_sequences"], "every store content, key, start value and step, every storage fault",
 "Tests increment one counter in an otherwise empty store with no faults.",
 ["kv/util.go", "kv/numeric/binary.go", "kv/numeric/human.go"],
 ["counter contracts over an arbitrary transactional map in which each operation may fail, plus codec contracts"],
 COMMON + " The store is represented by its contract (a serialisable transactional map that may fail). Assumed: strconv round trip of decimal integers.")

STORE = " The store is represented by its contract (a serialisable transactional map in which every operation may fail; memory lent to scan callbacks is reused)."

prop("C07", "Keys of stored strings, hashes and lists never collide",
 "Under one prefix, the storage keys of strings, hashes, hash fields, lists and list elements are all distinct: two keys are equal only when kind, name and field or index are equal. The prefix scanned for a hash selects exactly the fields of that hash, field keys order by field and decode back to their hash and field, and no key shares memory with what it was made from.",
 ["inputs"], "every prefix, name, field and index",
 "The tests use one structure at a time with short printable names; collisions need adversarial names (zero bytes, names extending each other, names that look like tags).",
 ["structure/keys.go", "kv/memcomparable/bytes.go"],
 ["contracts on the six key functions and the field key decoder against abstract key constructors, whose inverses are lemmas over the contract of the byte-string encoding"],
 COMMON)

prop("C08", "Keys of documents, collections, indexes and sequences never collide",
 "The storage keys of documents, index names, collection names, index definitions and sequences are all distinct: two keys are equal only when kind and all ids or names are equal. The prefix of a collection selects exactly its documents, which order by document id, negative ones included; document and index-name keys decode to their ids or name and foreign keys are rejected. Building a key alters nothing that was passed in, and no key shares memory with its parts or with another key.",
 ["inputs"], "every collection, document and index id (negative ones included), every name and keyword, every destination slice, every input to the decoders",
 "The tests never look at a key; collisions and mis-ordered scans need negative ids and adversarial names, and aliasing needs destination slices with spare capacity.",
 ["document/keys.go", "document/dml/keys.go", "kv/memcomparable/number.go", "kv/memcomparable/bytes.go"],
 ["contracts on the key functions of both document packages against abstract key constructors; injectivity, disjointness, order and prefix selection are lemmas over them, using the contracts of the byte-string and integer encodings"],
 COMMON + " sort.Slice is modelled as leaving arbitrary elements in the slice. The columns key of an index is covered for its prefix and side effects, not for injectivity.")

prop("C09", "A stored list behaves as a double-ended queue",
 "Pushing prepends or appends the values one by one, popping returns and removes the end element, indexing (from either end), setting, length, listing and clearing agree with one sequence of elements. A missing list or index is reported as documented, an emptied list leaves nothing behind, no operation touches anything but the list's own keys, and an operation fails exactly when the store fails.",
 ["inputs", "histories", "fault_sequences"], "every store content, list position and length (indices within 2^62), every number of pushed values, every storage fault",
 "The tests push and pop a handful of values on a fresh list with no faults; wrap-around below index zero, other structures in the store and failures are not sampled.",
 ["structure/list.go", "structure/keys.go", "kv/numeric/binary.go"],
 ["contracts on every list operation over an arbitrary transactional map: state before and after related by element position, with loop invariants for pushing, listing and clearing any number of elements"],
 COMMON + STORE)

prop("C10", "A stored hash behaves as a map with an exact length",
 "Setting, incrementing, deleting and clearing fields make exactly that change readable, and the recorded length always equals the number of fields. Listing fields, ascending or descending, limited or not, yields every field once, in order, with its value; no operation touches anything but the hash's own keys, and an operation fails exactly when the store fails.",
 ["inputs", "histories", "fault_sequences"], "every store content, every hash size, field and value (the empty ones included), every list of deleted fields with repetitions, every storage fault",
 "The tests set two fields in an otherwise empty store with no faults; empty values, repeated fields, neighbouring hashes and failures are not sampled.",
 ["structure/hash.go", "structure/keys.go"],
 ["contracts on every hash operation over an arbitrary transactional map with an ordered-scan contract; the length is tracked by a ghost counter of keys added and removed; loop invariants for deletion lists and scans of any size"],
 COMMON + STORE + " Assumed: keys under the prefix of a hash are field keys, and no foreign key equals its prefix successor.")

prop("C11", "Stored strings and counters read back exactly what was written",
 "After a string is set, reading it returns the same bytes; after clearing it, reading reports it missing; integers set or incremented read back exactly. A failed operation changes nothing, other strings, hashes and lists are untouched, and an operation fails exactly when the store fails.",
 ["inputs", "histories", "fault_sequences"], "every store content, name, value, start value and step, every storage fault",
 "The tests write a few literals to an empty store with no faults.",
 ["structure/string.go", "structure/keys.go", "kv/util.go"],
 ["contracts on every string operation over an arbitrary transactional map"],
 COMMON + STORE + " Assumed: strconv round trip of decimal integers.")

prop("C12", "A sequence never hands out an id twice",
 "Across any number of sequence objects on one stored counter, restarts, failures and concurrent use, an id that was handed out is handed out again only after it was put back or the sequence was cleared. A batch yields exactly the requested number of ids, releasing returns only the unused rest of the latest lease, a closed sequence hands out nothing, and nothing but the sequence's own counter changes in the store.",
 ["inputs", "histories", "schedules", "fault_sequences"], "every lease state, stored counter, batch size and bandwidth (magnitudes below 2^59), list of ids put back, storage fault, and interference by other sequence objects between transactions",
 "The tests take a few ids from one sequence with no faults; lease boundaries, several sequence objects, failed commits and concurrent callers are not sampled.",
 ["document/meta/sequence/sequence.go", "document/meta/sequence/string.go", "document/meta/sequence/hash.go"],
 ["contracts on every operation of string and hash sequences that preserve one invariant: leases are disjoint, at most the stored counter, and free of ids handed out; the fields are proved to be accessed only under the lock, with the lock invariant re-established at every release and nothing assumed about them when it is taken a second time"],
 COMMON + STORE + " Assumed: sync.Mutex is a mutual exclusion lock; a hash used as a sequence has consistent meta data.")

prop("C20", "Transaction helpers commit all or nothing and run the right callback",
 "A transaction helper runs its body once in a fresh transaction of the requested kind; success is reported exactly when what the body wrote is committed, and a failing body or commit leaves nothing behind and is reported. Cancel and completion callbacks run exactly when the commit failed or succeeded; retrying an oversized transaction commits the part done so far and goes on in a fresh transaction; no transaction is left open.",
 ["inputs", "histories", "fault_sequences"], "every transaction body (any effect on the content, any error), every number of retries up to the limit, every commit failure",
 "The tests never make a body or a commit fail and never exceed a transaction's size.",
 ["util/util.go"],
 ["contracts over an arbitrary body: a ghost transaction log relates the committed content to what the body wrote; the retry loop is unrolled to its own limit with a proved unwinding bound"],
 COMMON + STORE)

prop("C13", "Collections and documents never get an id that is already taken",
 "The sequences a document database draws ids from never hand out an id twice, across any number of sequence objects, restarts, storage faults and concurrent use, and waste no leased id; a release gives back exactly the unused rest of the latest lease. A collection name gets one id, keeps it for ever, and two names never share one; a failed request stores no id, and nothing else in the store changes.",
 ["inputs", "histories", "schedules", "fault_sequences"], "every lease state, stored counter and bandwidth (magnitudes below 2^60), every pair of collection names, every storage fault, and interference by other processes between transactions",
 "The repository has no test of these sequences at all; restarts, several database objects and failed commits are histories no sample covers.",
 ["document/sequence.go", "document/db.go"],
 ["contracts on NewSequence, Next, ReleaseRemaining and getCollectionID preserving one invariant (leases are disjoint from ids handed out and at most the stored counter) for an arbitrary id and an arbitrary other key; fields only accessed under the lock"],
 COMMON + STORE + " Assumed: sync.Mutex is a mutual exclusion lock.")

RPC = " The stubs in /verif/stubs replace the transport (github.com/zhiqiangxu/qrpc) by an assumed contract: frames arrive in order, a response frame is what was written between StartWrite and EndWrite. Message encoding (pb Marshal/Unmarshal) is an assumed contract: Marshal yields bytes from which Unmarshal and the getters give back the fields; Unmarshal accepts or rejects arbitrary bytes."

prop("C22", "The server answers each request with the one store operation it asks for",
 "Every request frame leads to exactly the one store operation it asks for, with exactly its key, value, time to live, tag, direction, prefix, offset and limit, and to one response that carries its request id, the matching command and the outcome: the data the store gave, or the documented error code and message. The frames of a transaction run in order in one store transaction of the requested mode; it is committed only by a commit request and discarded in every other case, and undecodable requests are refused, never run.",
 ["inputs", "histories", "fault_sequences"], "every first frame and payload, every number and order of further frames in a transaction, every store outcome, every broken connection",
 "The tests send one well-formed request after another over a healthy connection; missing options, negative limits, failures, repeated requests in a transaction and disconnects are not sampled.",
 ["server/server.go", "server/common.go", "server/cmd_set.go", "server/cmd_get.go", "server/cmd_exists.go", "server/cmd_delete.go", "server/cmd_scan.go"],
 ["contracts on the five commands and on the rest of a transaction, between a recording transport and a recording store that check every response against the request in hand; the loop over the frames of a transaction has an inductive invariant, so any number of frames is covered"],
 COMMON + RPC)

prop("C23", "The client sends exactly what was asked and reports exactly what came back",
 "Every client operation, alone or in a transaction, sends one request that carries exactly its arguments, and returns exactly the data, the documented error, or the code and message of the response; a request that cannot be sent, a lost connection or an undecodable response is an error, never success or a crash. A transaction is one stream in its mode: read-only ones send no change, nothing is sent once it ended, Update commits exactly when its body succeeded and discards otherwise, View never commits.",
 ["inputs", "histories", "fault_sequences"], "every operation with every argument, from every state of a transaction, every response bytes, every transport failure and closed stream",
 "The tests run one happy session against one server; malformed or missing responses, failures and misuse after the end of a transaction are not sampled.",
 ["client/client.go", "client/client_txn.go"],
 ["contracts on every operation of the client and of a transaction in an arbitrary state, between the caller and a recording transport with an arbitrary peer; every operation re-establishes the transaction's state invariant, so any history is covered"],
 COMMON + RPC)

PROV = " The stubs in /verif/stubs replace the two databases by assumed contracts: a badger transaction works on a snapshot, its iterators visit the live keys in order and end at the first key without their prefix, every operation may fail, Commit publishes all or nothing; leveldb applies a batch atomically and its iterators cover a key range. goleveldb's util.BytesPrefix is its real source, and proved. Keys that badger rejects (empty, reserved) and empty but present offsets of badger scans are outside. The durability of the databases themselves is trusted."

prop("C21", "Database adaptors store, read and scan exactly what is asked",
 "Through either database adaptor a key reads back the value, tag and time to live it was last given until it is deleted; nothing else changes; a missing key is ErrKeyNotFound, an oversized transaction ErrTxnTooBig, and every failure of the database is reported and leaves the content as it was. A scan reports exactly the present keys that have the prefix and lie on the asked side of the offset, once each, in the asked order, with their values, until it is told to stop. Batches and transactions publish all of their writes at commit or none; every transaction and iterator that an operation opens is ended.",
 ["inputs", "histories", "fault_sequences"], "every key, value, tag, time to live, prefix, offset, direction, stopping point and content, every failing database call",
 "The tests store and read two keys over a healthy database; scans by prefix and direction, tags without a time to live, failures in the middle and oversized transactions are not sampled.",
 ["provider/badger.go", "provider/badger_txn.go", "provider/badger_wb.go", "provider/leveldb.go", "provider/leveldb_wb.go", "provider.go"],
 ["contracts on every operation of both adaptors against stand-ins of the databases with arbitrary content and failures; the scan loops have inductive invariants over the iterator, completeness for an arbitrary watched key follows from lemmas about prefixes, which are proved"],
 COMMON + PROV)

prop("C14", "The stored catalogue is a faithful, isolated record of the schema",
 "Databases, collections, schema diffs, DDL jobs, their history, reorganisation positions and the bootstrap version stored through the catalogue are read back as stored, under distinct keys: storing or dropping one changes no other. Create refuses what exists, update, drop and lookup report what is missing, and a refused operation changes nothing. Dropping a database removes all it contains. Listings hold every database, every collection, every job. Schema versions and ids only ever advance. The job queue is first in, first out, and a failed job keeps its error. Storage errors are reported.",
 ["inputs", "histories", "fault_sequences"], "every content, id, description, queue and history, every storage fault",
 "The repository has no test of the catalogue; what is stored under neighbouring ids, in failing stores and for failed jobs is never sampled.",
 ["document/meta/meta.go", "document/model/model.go", "structure/hash.go", "structure/list.go"],
 ["contracts on every operation of the catalogue over the model store and the real typed structures; lemmas give the keys an inverse; loops over the listed entries have inductive invariants"],
 COMMON + STORE + " strconv is assumed to read back the numbers it formats; encoding/json to decode what it encoded, an error value held in an interface excepted, which does not decode.")

prop("C15", "A schema change is applied whole, under a new version, or not at all",
 "The job that creates a schema stores the database and every collection and index of it as public, under the next schema version, whose diff describes the schema; it is refused if the name is in use, and then, as for a job nobody can run, nothing changes; every collection gets its document sequence. The job that adds an index moves it one state at a time (delete only, write only, reorganization), each under a version of its own, in collection and database alike, and changes nothing else. A diff names every collection the change concerns. A request for an index queues a job with ids of its own and reports success only if that job was synced. The worker runs the first job until none is left: what a run did is committed with the job's new state in one transaction, or not at all; what follows a job runs only after its commit. Only a job found done is recorded as synced. A failed run is recorded; a job that cannot succeed, is cancelled or failed three times leaves the queue for the history, cancelled, with its error, any other stays first. Storage errors are reported and every transaction ends.",
 ["inputs", "histories", "fault_sequences"], "every content, queue, schema, job and outcome of its runs, any number of iterations of the worker, every storage fault",
 "The tests create one schema in a healthy store; names in use, failing jobs and storage faults in the middle of a job are not sampled.",
 ["document/ddl/ddl_worker.go", "document/ddl/ddl_api.go", "document/ddl/util.go", "document/meta/meta.go", "document/model/model.go"],
 ["contracts on the worker loop (against contracts of its steps, with an inductive invariant over the jobs), on running and failing a job and on creating a schema, over the model store and the real catalogue; loops over collections and indexes have inductive invariants"],
 COMMON + STORE + " Assumed: encoding/json round trips of descriptions; queue indexes below 2^62; a run does not panic (util.RunWithRecovery is modelled as a call). The worker loop is decided against recorded contracts of its steps, whose effects on the store the other obligations prove. util.TryUntilSuccess is modelled as the try that succeeds, select as any of its cases. Not covered: what follows the reorganization of an index (unfinished upstream), the request that creates a schema, the ticking of the worker.")

prop("C17", "The schema cache follows the stored schema and tells conflicts exactly",
 "A reload publishes a schema cache of exactly the version stored, or reports an error and leaves the published cache as it is; a published cache is never modified. Schema diffs are applied in sequence only, the latest hundred are remembered under their versions, databases are kept and found by name. A check passes if no schema change since the start of the transaction touches a collection it referred to, and never passes if one does or if the changes since are no longer all known; every check releases its lock.",
 ["inputs", "histories"], "every cache, every sequence of diffs of any length, every set of collections referred to, every stored content, every storage fault during a reload",
 "The tests apply one diff to one cache and check one conflict; trimmed histories, failed reloads and aliasing between caches are not sampled.",
 ["document/schema/handle.go", "document/schema/metacache.go", "document/domain/domain.go", "document/model/model.go"],
 ["contracts on every operation of the schema handle and cache and on reloading over an arbitrary stored content; the copying of databases, collections and indexes is proved against a deep-copy contract"],
 COMMON + STORE + " Assumed: encoding/json round trips (names are valid UTF-8, stored texts hold no nulls in lists and maps); mutex.CRWMutex is a reader/writer lock that fails only when its context is cancelled; sync/atomic.Value is a register; diffs hold at most 2^20 entries.")

prop("C18", "A document transaction commits all or nothing and never across a schema change",
 "A document transaction works on the schema cache of the time it began and on one store transaction of its mode. Its commit publishes everything it wrote or nothing; it is ErrDDLConflict, before anything is published, exactly if the schema of a collection it referred to changed meanwhile. After a failed commit every cancel function has run exactly once, otherwise none ran; a discarded or read-only transaction publishes nothing.",
 ["inputs", "histories", "schedules", "fault_sequences"], "every content, write, set of collections referred to and history of schema changes between begin and commit, every storage fault",
 "No test runs a schema change or a storage fault inside a document transaction.",
 ["document/txn/txn.go", "document/schema/handle.go"],
 ["contracts over whole transaction histories: begin, cancel functions, references, writes, an arbitrary schema change, commit or discard, against the model store and the real schema handle"],
 COMMON + STORE + " Not covered: a schema change published between the check and the store's commit (the code holds no lock there).")

prop("C19", "Document operations act on exactly the documents they name",
 "In both document APIs a document inserted, updated or upserted is read back under its id, in its own collection, until it is deleted; every other key keeps its value. Insert takes the next id of the collection's sequence, an existing document is not inserted again, a missing one is not updated. Listing, counting, the id range and deleting all cover exactly the collection's documents. A missing document, collection or sequence and every storage failure are reported; a failed operation on its own transaction publishes nothing, and a transaction given is left open for its user.",
 ["inputs", "histories", "fault_sequences"], "every content, id, document, collection present or missing, transaction given or not, open or closed database, every storage fault",
 "The tests insert and read a document or two in a healthy store; missing collections, failures in the middle, neighbouring collections and given transactions are not sampled.",
 ["document/dml/collection.go", "document/dml/sequence.go", "document/collection.go", "document/keys.go", "document/dml/keys.go"],
 ["contracts on every document operation of both APIs over the model store and the real schema cache, transactions and sequences; the scans have inductive invariants over the keys visited"],
 COMMON + STORE + " go.mongodb.org/mongo-driver/bson is replaced by a stub: encoding fails or yields bytes that decode to the document, which is one value. reflect is modelled for slices of documents. The lists of index definitions are not part of this property.")
