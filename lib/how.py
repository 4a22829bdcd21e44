"""How each property is decided; printed into DESIGN.md by lib/gen.py."""
HOW = {
'C01': 'Texts and binaries of every length around the inline capacity, with any bytes, built from short-lived sources, copied bit by bit and concatenated, against `std::string`; all pairs and triples of a pool for the laws of order, equality and hash; ASan watches the lifetimes.',
'C02': 'Histories of construct/resize/assign/shrink/move with sources inside the own content, against a byte vector; ASan (freed source after growth), alignment by address.',
'C03': 'Sequences of typed values and reads in any order of kinds against a list of tagged values.',
'C04': 'Sequential histories against a queue; concurrent histories of pushers, readers and closers with seeded delays at every lock operation, recorded and judged offline (every record once, per-producer order, nothing after the end, nobody left asleep: a stuck reader is found by the progress watchdog under virtual time). TSan for the races.',
'C05': 'All byte strings up to 2 bytes, random ones to 4096; all 256 bytes at each position of each quartet; model: bit strings. Texts end at the end of a heap block, so reading past them is an ASan report.',
'C06': 'All byte pairs as hex texts, integers of every width with every stream format set before; model: own printer.',
'C07': 'All 1- and 2-byte strings, boundary bytes for 3 and 4, every code point; model: own UTF-8 automaton.',
'C08': 'As C07, each text as a window of a larger buffer and as an exact heap block (ASan decides "never reads outside").',
'C09': 'Sets of generated, serialized protobuf descriptor files (packages, nesting, imports, broken bytes) written to a scratch directory; model: the generator\'s own tables.',
'C10': 'Generated signatures; the model derives argument patterns from the documented rules.',
'C11': 'Races of waiters and releasers with delays injected at mutex and condition variable calls; lost wake-up = no progress; early wake-up = flag of the oracle. TSan.',
'C12': 'Histories over workers and points with the clock replaced at link time (virtual time), against a table; concurrent setters under TSan.',
'C13': 'Every code, status and wire number by enum reflection; names and numbers against the documented tables.',
'C14': 'Errors with generated parts (quotes, controls, broken UTF-8); supplemental text parsed back with nlohmann_json.',
'C15': 'Generated columns and tables through serialized protobuf messages; model: the generated description.',
'C16': 'Records with repeated, empty and binary names; first of a name wins; options and statuses through the wire.',
'C17': 'Histories of counts against sums; concurrent adders under TSan.',
'C18': 'Pairs of options and references: equality must agree with equality of all parts, texts with parts.',
'C19': 'Histories on every paged resource with `mmap`/`munmap` replaced at link time (refusals, exhaustion, counting); a shadow map of live blocks finds overlaps, moved contents and pages not given back; ASan/TSan.',
'C20': 'Edge-biased numbers against wide arithmetic, multisets against `std::multiset`, clocks replaced at link time.',
'C21': 'Every value of each enum family: names distinct and as documented; carriers of errors keep code and text.',
'C22': 'Every kind written into exact, larger and too small rooms; bytes against an independent encoder, read back, truncated and damaged (ASan).',
'C23': 'Rows in every order specification against a reference encoder; order of encodings against order of values over pairs; every truncation of the stored bytes; foreign bytes.',
'C24': 'Random layouts: fields inside the record, aligned, disjoint, nullity bits disjoint; written, read, copied and printed against a value model.',
'C25': 'Triples of values/records: total order laws, agreement with equality, hash and partition.',
'C26': 'Histories of appends, pops, resets and page switches against lists; one producer and one consumer under TSan; small pages so that page ends are frequent.',
'C27': 'Typed expression trees (edge values, NULL, errors) built as compiled expressions and evaluated by the engine\'s evaluator; oracle: own interpreter over exact rationals/integers and IEEE arithmetic.',
'C28': 'Patterns and texts over multi-byte characters and escapes; oracle: dynamic programming over characters.',
'C29': 'All pairs of types, edge values, loss policies; oracle: own conversion rules from docs.',
'C30': 'Functions found through the function repository as the compiler would, all declared overloads called; oracle: own implementations over characters, integers and decimals.',
'C31': 'Forward and group exchanges driven through their public sinks/sources: any number of partitions, writers and readers, empty ones included, sort keys, limits; conservation, order and grouping checked against the written records; real threads under TSan.',
'C32': 'Aggregations (pre/mid/post or in one piece) through real exchanges; oracle: exact sums as rationals, nulls, distinct sets; forced hash collisions and large inputs. `finding`: sum overflow is reported as known.',
'C33': 'The whole database (api, plan compiler, DAG scheduler, tasks, operators, exchanges, kvs layer) over an in-memory ordered store. A generator makes tables with indices and plans of many operators, and computes the expected bag (and order) by its own relational algebra while generating. Configurations vary partitions, threads, stealing, block sizes and in-place scheduling. Quick tier ASan + TSan.',
'C34': 'Transactions of INSERT (three conflict behaviours), INSERT SELECT, UPDATE (also of keys) and DELETE on tables with secondary indices, defaults, NOT NULL and typed columns, with storage operations refused at a random point, failing queries and read-only transactions; oracle: own table model; after each statement and each transaction the tables are read by every access path, and the raw stores are counted (no index entry missing or left over).',
'C35': 'Worlds with 2-6 client threads sending statements, commits (accepted/stored, auto dispose), rollbacks, disposals, cancellations and diagnostics to a few shared transactions (read-only parallel ones included), on each scheduler, with operations of the storage delayed or refused and durability announced late. The in-memory store is the monitor of the storage API: each handle used by one thread at a time, the end excluding all other use, no abort after commit, nothing after disposal. An offline checker over the recorded calls and answers (logical times) decides exactly-one answer, at most one end, commit answers against what is stored and durable, statements accepted before a commit in it, atomicity of each transaction, and no job left. ASan, and TSan with delays for unsynchronized accesses.',
'C36': 'Random definitions (edge-biased bounds and increments) used by several transactions in several threads with delays at mutexes, while other threads create and drop sequences; storage calls on sequences refused at random; restarts (a new manager over the same store). Oracle: own stepping in 128-bit integers; conservation of values given; the recorded `sequence_put` calls (version unique, value of that version, by a transaction that took one). ASan/UBSan, TSan.',
'C37': 'Histories of 80 random steps (definitions with all types, defaults, identities, keys; grants and revokes by engine, administrator, standard and nameless users; rows; up to four open transactions; refused storage calls; maintenance; restarts) compared step by step with a model of the catalogue, the privileges, the rows (by primary and secondary index) and the storages the engine has. Then clients which define and use three tables at the same time, with delays at mutexes and the maintenance running: the recorded history (interval of every statement and commit) is checked for use within another transaction\'s definition, names, privileges, rows and restart. Directed: SELECT held in its scan against every DDL statement, CREATE INDEX held while it looks for rows, DROP beside maintenance, one name created by three. ASan/UBSan, TSan.',
'C38': 'Worlds of one to four sessions send some sixty random requests each (BEGIN of all types, PREPARE with placeholders, statements and queries by text and by handle with parameters of all kinds, COMMIT and ROLLBACK with all options, DESCRIBE, LIST, EXPLAIN, EXTRACT, SEARCH PATH, SYSTEM INFO, DUMP and LOAD refused, disposals) together with hostile ones: mutated and random bytes, unknown and stale and foreign handles, malformed decimals, missing fields, requests in flight while the transaction or the session is disposed. The server side is a recorder of every call on responses, channels and writers: one final answer, of the right kind, after the release of channels; no writer used by two threads or after release; decoded rows equal to the reference evaluator of C33; decoded errors equal to the prediction of a model of handles, transactions and rows; counters of inserted, updated and deleted rows; stores and open transactions of the engine empty once sessions ended. Sessions run in turn with one or two workers (exact model) or concurrently (own tables, shared queries), under ASan/UBSan and TSan.',
'C39': 'Single-threaded histories of 150 random calls on the registry (registrations with and without names, keys and locks, drops, removals, exclusive and shared locks with and without a parent, partial releases, references, grants of sets of actions) are compared with a model after every call: every entry, name, key, lock state, reference count, candidate for deletion and all 32 sets of requested actions. Then two to six threads run transactions on one to five names (statements share a transaction) beside a maintenance thread, with delays at mutexes; shadow counters of readers, writers, references and drops per storage are updated inside the periods the locks cover and checked at each step; at the end nothing is locked, every dropped storage was deleted once and names and keys agree. ASan/UBSan, TSan.',
'C40': 'Single-threaded histories of random request messages (transactions of each kind and option, PUT and REMOVE of each kind, GET, SCAN, commits of each kind, rollbacks, disposals, requests with unknown names, options, handles, missing, surplus, doubled and mistyped columns) on tables of random columns, key orders and indices are given to the service and compared with a model of tables and open transactions: each answer, the values in it and the bytes stored below afterwards. The key-value store below fails at random calls, commits late, and reports late commits as failed. Two to five clients at once work on disjoint keys with a model each, or share one transaction with commits, rollbacks and disposals between their requests; arbitrary and mutated bytes are sent as messages. Each request has exactly one answer, and nothing stays open at the end. ASan/UBSan, TSan.',
'C41': 'Loads of random files (up to 16, of 0 to 5 blocks of 0 to 25 records, columns in any order, parameters by name, position or constant) run on the real database with one to four workers: of the database, of a batch executor with random limits, within a transaction, and with the transactional loader a few records at a time. The file reader is a stand-in behind the interface of the Parquet reader: it overwrites what it gave before at each call and delays at random. Duplicate keys, missing files, unreadable blocks, several of them at once, and failing commits are injected. Checked: the end is told within a minute, exactly once, with success exactly if nothing was wrong; records read; releases of files and blocks; rows of the table against the model (whole blocks after a failure, none of a transaction); readers, transactions, statements and the executor itself gone. ASan/UBSan, TSan.',
}
