"""What each check runs: property -> harness, entries, bounds.  Read by check.py."""

def e(name, labels=(), q=None, t=None, **kw):
    """entry: name, labels that must be reached, params per tier"""
    d = dict(name=name, labels=list(labels), quick={str(k): v for k, v in (q or {}).items()}, thorough={str(k): v for k, v in (t if t is not None else q or {}).items()})
    d.update(kw)
    return d

CORE = dict(harness="core")
PROPS = {}

PROPS["K01"] = dict(CORE, entries=[
    e("k01_ints", ["u8 order", "i64 order", "u128 round trip", "NonZeroI32 order"]),
    e("k01_varints", ["VarInt<u32> order", "VarInt<i128> round trip"], timeout={"quick": 200, "thorough": 2500}),
], bounds="every value of every primitive integer width (u8..u128, i8..i128, usize, isize), every NonZero type, VarInt of each, Signed and Unsigned: no bound below the type's own range",
   outside="the 128-bit variable-length kinds outside of their documented 124-bit range are only checked to be refused")
PROPS["K02"] = dict(CORE, entries=[
    e("k02_composite", ["(bytes, bytes)", "(Option<bytes>, u8)", "derived enum", "8-tuple", "(VarInt<u16>, u8)"], {0: 1}, {0: 3}, timeout={"quick": 200, "thorough": 2500}),
    e("k02_nulls", ["allow", "deny", "plain"], {0: 3}, {0: 4}, timeout={"quick": 100, "thorough": 2000}),
    e("k02_lengths", ["lengths"], timeout={"quick": 100, "thorough": 600}),
], bounds={"quick": "25 composite shapes (tuples up to 8, nesting, Option, Result, derived structs and enums); variable-length fields of 0..1 (nulls: 0..3) arbitrary bytes; field lengths at every length-class boundary up to 65536", "thorough": "as quick, variable-length fields of 0..3 arbitrary bytes"},
   outside="longer variable-length contents; user-written KeyEncoding implementations")
PROPS["K03"] = dict(CORE, entries=[
    e("k03_total", ["decoded"], {0: 4, 1: 6}, {0: 6, 1: 9}, timeout={"quick": 240, "thorough": 2500}),
    e("k03_long", ["decoded long"], {0: 7, 1: 18}, {0: 10, 1: 26}, timeout={"quick": 200, "thorough": 2500}),
], bounds={"quick": "every byte string of length 0..6 (0..4 for composite and text kinds), and of length 7..18 for 20 kinds of integers, times and fixed-size fields", "thorough": "every byte string of length 0..9 (0..6 for composite and text kinds), and of length 10..26 for 20 kinds of integers, times and fixed-size fields"},
   outside="longer inputs")
PROPS["K04"] = dict(CORE, entries=[
    e("k04_prefix", [], {0: 3, 2: 2, 3: 2}, {0: 4, 2: 2, 3: 3}, timeout={"quick": 150, "thorough": 2500}),
], bounds={"quick": "byte prefixes and keys of length 0..3, text prefixes of up to 2 and keys of up to 2 arbitrary Unicode scalar values", "thorough": "bytes 0..4; text prefixes up to 2, keys up to 3 characters"},
   outside="longer prefixes")
PROPS["K05"] = dict(CORE, entries=[e("k05_next", ["next u8", "next i128", "next NonZeroI64", "next usize"])],
   bounds="every value of every integer key type, bare and inside Option and Result", outside="")
PROPS["K06"] = dict(CORE, entries=[
    e("k06_keys", ["Duration key: order and round trip", "SystemTime key: order and round trip", "before epoch"], {0: 64}, timeout={"quick": 120, "thorough": 900}),
    e("k06_to_duration", ["to duration"], {0: 64}, timeout={"quick": 120, "thorough": 900}),
    e("k06_from_duration", ["from duration"], {0: 64}, timeout={"quick": 120, "thorough": 900}),
    e("k06_limited_keys", ["limited-resolution key: order and round trip"], {0: 64}, timeout={"quick": 120, "thorough": 900}),
    e("k06_timestamp", ["timestamp"], {0: 64}, timeout={"quick": 120, "thorough": 1500}),
    e("k06_timestamp_back", ["timestamp back"], {4: 16}, {4: 63}, timeout={"quick": 90, "thorough": 3000}, pathsec=40),
    e("k06_text", ["text"], {1: 8}, {1: 64}, timeout={"quick": 120, "thorough": 2000}),
    e("k06_parse", [], {2: 3}, {2: 6}, timeout={"quick": 60, "thorough": 1500}),
    e("k06_sum", [], {0: 64}, timeout={"quick": 100, "thorough": 900}),
], bounds="every Duration and SystemTime of 64-bit seconds; all 8 resolutions over both epochs, every representation value (timestamp -> time: |representation| < 2^16 in the quick tier); text: windows of 8 (thorough: 64) consecutive representations around zero and the extremes, every ASCII text of up to 3 (thorough: 6) characters",
   outside="text round trip outside of the windows; the quick tier leaves a few timestamp -> time queries undecided (reported as incomplete)")
PROPS["K07"] = dict(CORE, entries=[
    e("k07_text", ["text"], {0: 3}, {0: 4}, timeout={"quick": 100, "thorough": 2000}),
    e("k07_parse", [], {1: 2}, {1: 3}, timeout={"quick": 100, "thorough": 2000}),
    e("k07_length", ["fits", "too long"]),
    e("k07_order", ["order"], {2: 3}, {2: 6}),
    e("k07_ints", []),
], bounds={"quick": "ids of 0..3 arbitrary bytes for text, 0..3 for order; texts of 0..2 characters; every u64 (and the other integer widths); every length class around the 63-byte maximum", "thorough": "ids of 0..4 bytes for text, 0..6 for order; texts of 0..3 characters"},
   outside="ids of in-between lengths are covered only through the length classes")
PROPS["K08"] = dict(CORE, entries=[
    e("k08_exact_float", ["float"]), e("k08_ints", ["ints"]), e("k08_to_float", ["inexact"]), e("k08_validate", []), e("k08_timestamp", []),
], bounds="every i64, u64 and f64 (as 64-bit patterns), every Timestamp with nanos < 10^9 and every Duration", outside="Timestamp values with nanos >= 10^9, which only decoding a foreign key can produce")
PROPS["K09"] = dict(CORE, entries=[
    e("k09_name", ["name"], {0: 3}, {0: 4}, timeout={"quick": 150, "thorough": 2500}), e("k09_injective", ["injective"], {1: 3}, {1: 5}), e("k09_parse", [], {2: 6}, {2: 9}, timeout={"quick": 100, "thorough": 2000}), e("k09_qualified", [], {1: 2}, {1: 4}, timeout={"quick": 100, "thorough": 2000}),
], bounds={"quick": "names of up to 3 Unicode scalar values (injectivity: 3 ASCII characters), encoded texts of up to 6 ASCII characters", "thorough": "names of up to 4 Unicode scalar values (injectivity: 5 ASCII), encoded texts of up to 9"},
   outside="longer names")
PROPS["K10"] = dict(CORE, entries=[e("k10_range", ["range"]), e("k10_builders")],
   bounds="every pair of bounds of every kind over u16 and every tested point", outside="")

# ---- bonsaidb-local over memory-backed or modelled storage
LOCAL = dict(harness="local", assumptions=["one worker thread and no parallel tree writes; threads switch only where they block", "SHA-256 has no collisions; CRC-32 of data that depends on symbolic inputs is a constant; hash-map hashes are a constant"])
def le(name, labels=(), q=None, t=None, **kw):
    return e(name, labels, q, t, args=["--fork"] + kw.pop("args", []), timeout=kw.pop("timeout", {"quick": 150, "thorough": 2500}), **kw)

PROPS["L01"] = dict(LOCAL, entries=[
    le("l01_crud", ["inserted", "insert conflict", "updated", "update conflict", "update missing", "deleted", "delete conflict", "delete missing", "overwritten", "pushed", "crud"], {0: 3, 1: 1}, {0: 4, 1: 2}),
    le("l01_crud", ["inserted", "insert conflict", "updated", "update conflict", "deleted", "delete conflict", "overwritten", "pushed", "crud"], {0: 2, 1: 1, 2: 1}, {0: 3, 1: 1, 2: 1}),
], bounds={"quick": "every sequence of 3 operations (insert, push, update, overwrite, delete) on a collection with 8-bit ids, any ids, any contents of 0..1 bytes, through any header returned so far; every sequence of 2 after a document was written, deleted and written again", "thorough": "every sequence of 4 operations, contents of 0..2 bytes; 3 after a document was written again"},
   outside="longer histories, larger contents (trees deeper than one node), other key types")
PROPS["L02"] = dict(LOCAL, entries=[
    le("l02_txn", ["committed", "refused"], {0: 2, 1: 1}, {0: 3, 1: 1}),
], bounds={"quick": "every transaction of 2 operations of every kind over two collections, starting from a document written twice; any ids, contents of 0..1 bytes, current or outdated headers", "thorough": "transactions of 3 operations"},
   outside="larger transactions")
PROPS["L03"] = dict(LOCAL, entries=[
    le("l03_list", ["documents", "headers", "count"], {0: 2, 1: 1}, {0: 3, 1: 1}),
    le("l03_list", ["documents", "headers", "count"], {0: 3, 1: 0, 3: 1}, {0: 4, 1: 0, 3: 1}),
    le("l03_multiple", ["multiple"], {0: 2, 1: 1, 2: 2}, {0: 3, 1: 1, 2: 3}),
], bounds={"quick": "two documents of any ids, one of them deleted again, or three written in order of their ids, listed through any range (every bound kind, any points), order and limit; get_multiple with two arbitrary ids", "thorough": "three documents, one deleted; four in order of their ids; three ids"},
   outside="larger collections; string prefixes (K04 decides prefix ranges)")
PROPS["L04"] = dict(LOCAL, entries=[
    le("l04_lazy", ["query", "reduce", "key", "with docs", "updated after"], {0: 3, 1: 1}, {0: 3, 1: 2}),
    le("l04_batch", ["query", "reduce"], {0: 2}, {0: 3}),
    le("l04_eager", ["query", "reduce", "key", "with docs"], {0: 2, 1: 2}, {0: 3, 1: 2}),
], bounds={"quick": "every sequence of writes and deletes on two documents (lazy: 3 operations, optionally queried between, one mapping per document; eager: 2 operations, up to two mappings per document; lazy: two documents, each rewritten, deleted or left between two queries), any keys and values; then a query of every kind", "thorough": "3 operations, up to two mappings per document"},
   outside="documents that emit one key several times; batches of over 1024 documents; view keys longer than a byte")
PROPS["L05"] = dict(LOCAL, entries=[
    le("l05_query", ["range", "keys"], {0: 2, 1: 1}, {0: 3, 1: 1}),
    le("l05_query", ["range", "keys"], {0: 3, 1: 1, 2: 1}, {0: 4, 1: 1, 2: 1}),
    le("l05_query", ["range", "keys"], {0: 1, 1: 2}, {0: 2, 1: 2}),
    le("l05_query", ["range reduced", "range with docs"], {0: 3, 1: 1, 2: 1, 3: 1}, {0: 2, 1: 2, 3: 1}),
    le("l05_delete", ["deleted"], {0: 2, 1: 1}, {0: 2, 1: 2}),
    le("l05_delete", ["deleted"], {0: 1, 1: 2}, {0: 3, 1: 1}),
], bounds={"quick": "two documents with one mapping, one with two, or three written in order of their keys; any keys, any range (every bound kind) or pair of keys, either order, every limit", "thorough": "three documents with one mapping, two with two"},
   outside="inverted ranges; larger views")
PROPS["L06"] = dict(LOCAL, entries=[
    le("l06_unique", ["kept unique", "refused", "query", "key"], {0: 2, 1: 2}, {0: 3, 1: 2}),
    le("l06_unique", ["kept unique", "refused", "query", "key"], {0: 3, 1: 1}, {0: 4, 1: 1}),
], bounds={"quick": "every sequence of 2 writes/deletes with up to two unique keys each, or 3 with up to one, on two documents, any keys", "thorough": "3 and 4 operations"},
   outside="several unique views on one collection")
PROPS["L07"] = dict(LOCAL, entries=[
    le("l07_kv", ["set", "got", "deleted", "incremented", "not numeric", "kv"], {0: 2, 1: 2, 2: 0}, {0: 2, 1: 2, 2: 1}),
    le("l07_kv", ["set", "got", "deleted", "incremented", "not numeric", "kv"], {0: 2, 1: 1, 2: 1}, {0: 3, 1: 1, 2: 0}),
], bounds={"quick": "every sequence of 2 operations (set with any check, get-and-delete, delete, increment) on any keys of one ASCII character, in the default or any one-character namespace; background persistence between or not", "thorough": "3 operations; namespaces with background persistence"},
   outside="longer keys")
PROPS["L08"] = dict(LOCAL, entries=[le("l08_numeric", ["signed", "unsigned", "float", "nan"])],
   bounds="every pair of stored and given number (any i64, u64 or f64, or none stored), incremented and decremented, saturating and wrapping", outside="sums of an integer amount and a stored double that isn't that integer type's value")
PROPS["L09"] = dict(LOCAL, entries=[
    le("l09_expiration", ["set", "deleted", "incremented", "number", "expiration"], {0: 2, 1: 0, 2: 2}, {0: 3, 1: 0, 2: 2}),
    le("l09_expiration", ["set", "deleted", "incremented", "number", "expiration"], {0: 1, 1: 2, 2: 2}, {0: 1, 1: 3, 2: 3}),
    le("l09_expiration", ["set", "deleted", "expiration"], {0: 1, 1: 3, 2: 3, 3: 1}, {0: 2, 1: 3, 2: 3, 3: 1}),
    le("l09_reopened", ["reopened"], {}, {}),
], bounds={"quick": "every sequence of 2 operations on two keys, or 1 after both keys were set to expire, or one of three keys that expire deleted or made permanent; any expirations and any clock readings (whole seconds within 256) before each operation and the final read; one or two keys with expirations (before, at and after each other and the readings), three persistence rules, closed and opened again, then one operation before or after the expirations are loaded, and a read", "thorough": "3 operations, or 1 after three keys were set to expire"},
   outside="fractions of seconds (K08 decides how timestamps order)")
PROPS["L10"] = dict(LOCAL, entries=[
    le("l10_reopen", ["reopened"], {0: 2, 1: 3}, {0: 3, 1: 3}),
], bounds={"quick": "every sequence of 2 sets and deletes on two keys with any values, under three persistence rules (immediately; after 2 changes; after 60 s or 3 changes), with the background persistence not run, run, or run 100 s later after each; then closed and opened again, waiting for the background or not", "thorough": "3 operations"},
   outside="a process that is killed (L17)")

PROPS["L11"] = dict(LOCAL, entries=[
    le("l11_single", ["allowed", "denied"], {0: 0, 1: 38}, {0: 0, 1: 38}),
    le("l11_exact", ["allowed", "denied"], {}, {}),
    le("l11_subscriber", ["allowed", "denied"], {}, {}),
], bounds={"quick": "38 operations of the storage, database, views, key-value store, publishing and users; permissions of one statement (any prefix of the needed resource, its last part the same, any, or any other; the needed action, every action, or any of 29 actions), or exactly the statements needed, or all but one of them; any subscribed and allowed topics of one byte", "thorough": "the same"},
   outside="permissions of a network client's session; statements with configuration values; permission to view the schemas of the _admin database other than users")

PROPS["L12"] = dict(LOCAL, entries=[
    le("l12_log", ["listed", "mapped", "several"], {0: 2, 1: 0}, {0: 3, 1: 0}),
    le("l12_log", ["listed", "opened again"], {0: 1, 1: 1}, {0: 2, 1: 1}),
    le("l12_limits", ["limits"], {0: 1003}, {0: 1003}),
], bounds={"quick": "every sequence of 2 steps (writes and deletes in two collections, transactions of three operations over both in any order, refused ones, key-value changes, view queries), in memory, or 1 step in files, opened again; listed from any id, with any limit; 1003 transactions with limits around 100 and 1000", "thorough": "3 steps, 2 in files"},
   outside="key-value changes persisted several at a time")

PROPS["L13"] = dict(LOCAL, entries=[
    le("l13_lifecycle", ["query", "deleted"], {0: 3, 1: 0}, {0: 4, 1: 0}),
    le("l13_lifecycle", ["query", "deleted", "opened again"], {0: 3, 1: 1}, {0: 4, 1: 1}),
    le("l13_recreate", ["query", "recreated", "held"], {0: 1, 1: 1, 2: 0}, {0: 2, 1: 1, 2: 0}),
    le("l13_recreate", ["query", "recreated", "held", "opened again"], {0: 1, 1: 1, 2: 1}, {0: 2, 1: 1, 2: 1}),
    le("l13_expiring", ["expiring", "opened again"]),
    le("l13_names", ["invalid", "created"], {0: 2}, {0: 2}),
], bounds={"quick": "every sequence of 3 steps (create a database with either schema, only if needed or not; delete; change a key, document or view) on two names, in memory or in files and opened again; a database deleted and created again after up to one change each (any values), looked at, held or settled between; a key set to expire or not after up to 11 s, read within 15 s, before or after opening again; names of up to one arbitrary or two ASCII characters, non-ASCII names, and the names of the storage's own files", "thorough": "4 steps; two changes"},
   outside="using a handle of a database after it was deleted; deleting the _admin database")

PROPS["L14"] = dict(LOCAL, entries=[
    le("l14_users", ["user", "role", "permissions"], {0: 2, 1: 0}, {0: 3, 1: 0}),
    le("l14_users", ["user", "role", "permissions", "opened again"], {0: 1, 1: 1}, {0: 2, 1: 1}),
], bounds={"quick": "two users, two roles and two groups with any resource each; every sequence of 2 steps (create or delete a user, add or remove a role or group by name or id, delete a role or group, change a role's groups), in memory, or 1 in files, opened again; then every identity and action on any resource", "thorough": "3 steps, 2 in files"},
   outside="passwords and tokens (argon2 and blake3 are not encodable); statements with several resources")

PROPS["L15"] = dict(LOCAL, entries=[
    le("l15_pubsub", ["pubsub", "received", "several topics"], {0: 2, 1: 0, 2: 3}, {0: 3, 1: 0, 2: 1}),
    le("l15_pubsub", ["pubsub", "received", "several topics"], {0: 2, 1: 1, 2: 3}, {0: 3, 1: 1, 2: 1}),
], bounds={"quick": "two subscribers, on one database or two, and every sequence of 2 steps (subscribe, unsubscribe, publish, publish to several topics, receive, drop a subscriber) over all topics and payloads, three kinds of topic", "thorough": "3 steps"},
   outside="senders and receivers running at the same time; the networked server's relay")

PROPS["L19"] = dict(LOCAL, entries=[
    le("l19_upgrade", ["upgraded", "refused", "query", "reduce", "key"], {0: 2, 1: 1, 2: 0}, {0: 3, 1: 1, 2: 1}),
], bounds={"quick": "a database in files opened with one of four definitions of a view (or without it), one step (write, delete, query, or nothing), closed, opened with any of four definitions, checked on opening or not, with the background work done or not, one step, then queried every way", "thorough": "three openings"},
   outside="changing a view's policy or map function without changing its version; removing a view and later adding the same version again")

def cc(entry, params, thorough=2):
    t = dict(params); t[0] = max(thorough, params[0])
    return le(entry, ["concurrent"], params, t, schedules=True)

PROPS["L20"] = dict(LOCAL, entries=[
    cc("l20_docs", {0: 1}),
    cc("l20_lazy", {0: 1, 1: 1}),
    cc("l20_lazy", {0: 2, 1: 1, 2: 3, 3: 4, 4: 1, 5: 1}, 3),
    cc("l20_eager", {0: 1, 1: 1}),
    cc("l20_unique", {0: 1, 1: 1}),
    cc("l20_kv", {0: 1, 1: 0}),
    cc("l20_kv", {0: 1, 1: 1}),
    cc("l20_dbs", {0: 1, 1: 0}),
], bounds={"quick": "two threads doing any two of the operations at once (documents: update, overwrite, delete, push; views: a write, and a query, a write or a deletion by view key; keys: increment, set if vacant, delete, get; databases: create, create if needed, delete), with every schedule that departs from round robin once (a write and a query of a lazy view: twice), at any point where a thread blocks, wakes another or takes a lock", "thorough": "two departures (a write and a query: three)"},
   assumptions=LOCAL["assumptions"][1:] + ["one worker thread; memory is sequentially consistent; threads are switched at blocking operations, wakes and lock acquisitions only"],
   outside="more than two client threads, longer sequences per thread, weak memory effects")

PROPS["L21"] = dict(LOCAL, entries=[
    le("l21_backup", ["documents", "keys", "expirations"], {0: 1, 1: 1}, {0: 2, 1: 1}),
    le("l21_names", ["document", "key"]),
], bounds={"quick": "two databases, one without collections or not, one change (write, delete, set a key with an expiration or not) with any one-byte ids, keys, namespaces and contents, background work done or not, to a location that keeps what it is given; 14 texts (with slashes, dots, percent signs, separators, empty) as document id, key or namespace, to a directory", "thorough": "two changes"},
   outside="databases without documents or keys (they aren't stored); revisions (documents are restored as new ones); names of over 255 bytes; other file systems' rules for file names; restoring while the storage is used")

CRASH = dict(LOCAL, assumptions=LOCAL["assumptions"] + ["a crash keeps, for every file, either all completed writes, or only the synced ones, or only the synced ones except in the file written last; file creation, renaming and truncation are kept in order; half of the write that was cut short may be kept"])
PROPS["L16"] = dict(CRASH, entries=[
    le("l16_documents", ["crashed", "finished", "recovered"], {0: 1, 1: 1, 3: 0}, {0: 3, 1: 0, 3: 0}),
    le("l16_documents", ["crashed", "finished", "recovered"], {0: 2, 1: 1, 3: 1}, {0: 3, 1: 1, 3: 1}),
], bounds={"quick": "a crash at any change to the files while a new storage is opened and one transaction over two collections is applied, or while two are; any contents", "thorough": "three transactions"},
   outside="crashes that lose an arbitrary subset of the unsynced writes; a second crash during recovery")
PROPS["L17"] = dict(CRASH, entries=[
    le("l17_kv", ["keys after a crash", "keys after closing"], {0: 2, 1: 3, 3: 1}, {0: 3, 1: 3, 3: 1}),
    le("l17_kv", ["keys after a crash", "keys after closing"], {0: 1, 1: 1, 3: 0}, {0: 2, 1: 3, 3: 0}),
], bounds={"quick": "a crash at any change to the files during every sequence of 2 sets and deletes on two keys with any values, under three persistence rules, with pauses for the background persistence or not; during 1 operation also while the storage is created", "thorough": "3 operations; 2 from an empty disk"},
   outside="as L16; expirations across a crash")
PROPS["L18"] = dict(CRASH, entries=[
    le("l18_lazy", ["view after a crash", "view after closing", "query"], {0: 1, 3: 1}, {0: 2, 3: 1}),
    le("l18_eager", ["view after a crash", "view after closing", "query"], {0: 2, 3: 1}, {0: 3, 3: 1}),
    le("l18_unique", ["view after a crash", "view after closing", "query"], {0: 1, 3: 1}, {0: 3, 3: 1}),
    le("l18_upgrade", ["view after a crash", "view after closing", "query", "back to the first definition", "on to the second definition"], {0: 0, 1: 0}, {0: 1, 1: 1}),
], bounds={"quick": "a crash at any change to the files during 2 writes or deletes of documents in an eagerly indexed collection (1 in a lazily or uniquely indexed one), queried between or not; while a view of one document is rebuilt for another definition, opened again with either; any keys", "thorough": "3 (lazy: 2) writes or deletes; all definitions, two documents, a write meanwhile"},
   outside="as L16; several views of one collection")
