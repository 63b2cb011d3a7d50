# executed by mkmeta.py: P(id, title, statement, over, text, why, files, mechanism, state, observe)
NA = {}
P("K01", "Integer keys sort as their values and survive encoding",
  "Encoding any integer key (every width, signed or not, non-zero, variable-length) and decoding the bytes gives the same value. Comparing the encoded bytes of two keys of one type gives the same result as comparing the keys, and a fixed-width kind always encodes to its declared length.",
  ["inputs"], "for all pairs of values of each integer key type", "tests compare a handful of values per type; order and round trip must hold for all pairs",
  [C + "key.rs", C + "key/varint.rs"], ["big-endian and variable-length encodings", "KeyEncoding::LENGTH"], ["encoded key bytes"], ["as_ord_bytes / from_ord_bytes"])
P("K02", "Composite, optional and derived keys keep order and identity",
  "For tuples, Option, Result, strings, byte fields and derived key types, decoding inverts encoding, and the encoded bytes of two keys compare as the keys do, field by field in declaration order. Fields that cannot be encoded (too long, or containing a forbidden null) are refused rather than mis-encoded.",
  ["inputs"], "for all field contents, lengths and nestings", "tests sample a few tuples; field boundaries, escapes and length classes interact for specific byte patterns only",
  [C + "key.rs", "crates/bonsaidb-macros/src/lib.rs"], ["CompositeKeyEncoder/Decoder", "escaping of nulls", "derive(Key)"], ["encoded key bytes"], ["as_ord_bytes / from_ord_bytes of composite keys"])
P("K03", "Decoding a key from arbitrary bytes never panics",
  "Decoding any byte string as any key type either yields a value or an error; it never panics, overflows or hangs.",
  ["inputs"], "for all byte strings and all built-in and derived key types", "tests only decode bytes the encoder made; stored or received bytes are arbitrary",
  [C + "key.rs", C + "key/time.rs"], ["from_ord_bytes of every key type"], ["input bytes"], ["from_ord_bytes result"])
P("K04", "Prefix ranges contain exactly the values with the prefix",
  "The range made from a prefix contains every value that starts with it and no value that doesn't, including prefixes that end in the largest byte or character.",
  ["inputs"], "for all prefixes and values", "tests use one or two ASCII prefixes; the boundaries lie at 0xff bytes and the largest scalar values",
  [C + "key.rs"], ["IntoPrefixRange::into_prefix_range"], ["range bounds"], ["range membership"])
P("K05", "Automatic key successors are the immediate successors",
  "The next value of an automatically numbered key is the smallest value greater than it (skipping zero for non-zero types), failing only when there is none; the first value is the least one handed out.",
  ["inputs"], "for all values of every integer key type and their Option/Result", "tests try one value per type",
  [C + "key.rs"], ["Key::next_value", "Key::first_value"], ["key value"], ["next_value / first_value"])
P("K06", "Time keys and limited-resolution times are exact",
  "Durations and times used as keys round-trip exactly and sort chronologically; converting to a coarser resolution truncates to the step at or before, converting back is exact, and values outside of the range are refused. Text shown for a timestamp parses back to it, and parsing arbitrary text never panics.",
  ["inputs"], "for all durations, times, resolutions and epochs", "tests sample the current time and a few constants",
  [C + "key/time.rs"], ["LimitedResolutionDuration/Timestamp conversions", "Duration and SystemTime encodings"], ["representation"], ["conversions, Display/FromStr"])
P("K07", "Document ids round-trip through text, bytes and integers",
  "Every document id displays as text that parses to the same id, ids order and compare as their bytes, ids made from integers give the integer back, and an id is accepted exactly when it fits in the maximum length whichever way it is made.",
  ["inputs"], "for all byte contents and lengths", "tests sample a few ids; the text form has several shapes depending on content",
  [C + "document/id.rs"], ["Display/FromStr of DocumentId", "length limit"], ["id bytes"], ["DocumentId constructors and conversions"])
P("K08", "Numeric and timestamp conversions are exact or refused",
  "Converting a stored numeric between signed, unsigned and floating forms yields its exact value or refuses; lossy conversions never change an exactly representable value. Timestamps add durations exactly, order chronologically, and saturate or refuse instead of wrapping.",
  ["inputs"], "for all 64-bit integers, all doubles and all timestamps", "tests sample a few numbers away from the precision limits",
  [C + "keyvalue.rs", C + "keyvalue/timestamp.rs"], ["Numeric::as_*", "Timestamp arithmetic"], ["numeric value"], ["Numeric/Value accessors"])
P("K09", "Schema names encode injectively and parse back",
  "A schema, collection or view name encodes to text that parses to the same name, different names never share an encoding, and a qualified name parses only from exactly one authority and one name.",
  ["inputs"], "for all names over Unicode", "tests sample a few names; escaping matters for particular characters",
  [C + "schema/names.rs"], ["Name::encoded / parse_encoded", "QualifiedName"], ["encoded name"], ["names' text forms"])
P("K10", "Ranges select the same values in every form",
  "A range built from any Rust range or builder contains exactly the values between its bounds, and converting, mapping or serializing it keeps both bounds in place.",
  ["inputs"], "for all bound kinds and points", "tests use a few ranges",
  [C + "connection.rs"], ["Range, Bound and their conversions"], ["bounds"], ["RangeRef::contains, map, serde"])
D = LO + "database.rs"
P("L01", "Documents read back exactly as last written; outdated writes are refused",
  "After any sequence of inserts, pushes, updates, overwrites and deletes, reading a document returns the contents and revision last written to its id, a deleted document is gone, and a listing holds exactly the live documents. Inserting an existing id, or updating or deleting through an outdated revision or a deleted document, is refused with the matching error and changes nothing; an update through the current revision succeeds.",
  ["inputs", "histories"], "for all sequences of operations, ids and contents", "tests sample a few histories; conflicts depend on which revision each caller holds",
  [D, C + "document/revision.rs", C + "connection/lowlevel.rs"], ["execute_insert/update/delete", "revision ids from contents"], ["document tree"], ["Connection and LowLevelConnection document operations"])
P("L02", "A transaction's operations all take effect, or none does",
  "Applying a transaction performs its operations in order, each seeing those before it, and returns one result per operation; if any operation fails, the transaction reports that operation's error and no collection changes. Exactly the applied transactions are listed as executed, in order, each with the documents it changed.",
  ["inputs", "histories"], "for all transactions over several collections", "tests apply one or two fixed transactions",
  [D, LO + "open_trees.rs", C + "transaction.rs"], ["apply_transaction_to_roots", "executed transaction log"], ["document trees", "transaction log"], ["Transaction::apply, list_executed_transactions"])
P("L03", "Listings return the range's live documents in order, up to the limit",
  "Listing documents (or headers) by any range, order and limit returns the first live documents of the range in that order, as many as the limit allows; the count of a range is its number of live documents; fetching several ids returns exactly those that exist, once or more for each id asked for.",
  ["inputs", "histories"], "for all ranges, orders and limits over all sets of documents, deleted ones included", "tests list a handful of fixed ranges and never combine limits with deleted documents",
  [D], ["list_from_collection", "list_headers_from_collection", "count_from_collection", "get_multiple_from_collection"], ["document tree"], ["Connection::list / count / get_multiple"])
VW = [LO + "views/mapper.rs", LO + "views.rs", D]
P("L04", "Views agree with mapping every live document, after any history",
  "Querying a view (updating before the query, or an eager view without updating) returns exactly the mappings its map function emits for the current contents of every live document, each with the document's current header; reduced values, per key and overall, are those of the mappings; a query with documents returns the document each mapping came from.",
  ["inputs", "histories"], "for all sequences of writes, deletes and queries and all emitted keys and values", "tests check a few fixed histories; stale mappings depend on which keys a document gained, lost or kept",
  VW + [LO + "views/integrity_scanner.rs", LO + "tasks.rs"], ["invalidation of changed documents", "document map of emitted keys", "incremental entry updates"], ["view entry trees"], ["Connection::view queries and reductions"])
P("L05", "View queries return the matching mappings in order, up to the limit",
  "Querying a view by a key, several keys or any range returns the matching mappings in key order (either direction), each once, as many as the limit allows. Deleting the documents a query matches deletes exactly those documents, and reports how many there were.",
  ["inputs"], "for all ranges, key sets, orders and limits", "tests use a handful of fixed queries with one mapping per key",
  [D], ["create_view_iterator", "query_by_name", "delete_docs_by_name"], ["view entry trees"], ["View::with_key(s), with_key_range, limit, delete_docs"])
P("L06", "No two documents ever hold the same key of a unique view",
  "A write is refused with a uniqueness violation naming the view and both documents exactly when another live document emits one of its keys; a refused write changes nothing, and keys freed by updates or deletes can be taken again.",
  ["inputs", "histories"], "for all sequences of writes and deletes and all keys", "tests try one fixed conflict",
  VW, ["uniqueness check while updating view entries in the transaction"], ["view entry trees"], ["write results and view queries"])
KV = [LO + "database/keyvalue.rs", C + "keyvalue.rs", C + "keyvalue/implementation.rs"]
P("L07", "The key-value store behaves as a map",
  "After any sequence of sets (with any check), deletes, increments and get-and-deletes over keys and namespaces, each operation returns what it would on a plain map: a get returns the value last set, deleted or unknown keys are absent, checks for presence decide whether a set happens and what it reports, previous values are returned when asked for, non-numeric values refuse arithmetic, and keys of other namespaces are untouched, whether or not changes were persisted in between.",
  ["inputs", "histories"], "for all sequences of operations, keys, namespaces and values", "tests run a few fixed sequences; pending, persisted and deleted keys interact",
  KV, ["dirty keys over persisted keys", "set/delete/increment operations"], ["key-value state and tree"], ["KeyValue operations"])
P("L08", "Key-value arithmetic is exact: saturating or wrapping as asked",
  "Incrementing or decrementing a stored number (or an absent key, taken as zero) stores and returns the number arithmetic gives in the stored number's kind, saturating at the kind's limits or wrapping around as asked; a result that is not a number is refused and changes nothing.",
  ["inputs"], "for all pairs of numbers of all kinds", "tests use a few small numbers; limits and conversions matter at the extremes",
  KV, ["increment_unsigned/signed/float, saturating and wrapping"], ["stored number"], ["increment/decrement results and reads"])
P("L09", "Keys expire exactly at their expiration",
  "A key set to expire reads as set before its expiration and as absent from it on, whatever the order of expirations and the clock readings between operations; setting it again without keeping its expiration clears it, and keeping it keeps the earlier one.",
  ["inputs", "histories"], "for all sequences of operations with expirations and all clock readings", "tests wait for one or two fixed expirations",
  KV, ["expiration order queue", "remove_expired_keys"], ["expiring keys", "wall clock"], ["KeyValue reads and writes"])
P("L10", "Key-value changes survive closing and opening the database",
  "After any sequence of key-value changes under any persistence rule, at any progress of the background persistence, closing the database and opening it again gives every key the value it last had.",
  ["inputs", "histories", "schedules"], "for all sequences of changes, persistence rules and background progress at closing", "tests close a database at one or two fixed moments; losses need a persistence under way when closing",
  KV, ["persist_keys, commit delays", "shutdown"], ["key-value state and tree", "files"], ["reads after opening again"])
P("L11", "An operation succeeds exactly when its permissions allow it",
  "With a session restricted to some permissions, an operation succeeds exactly when every action it takes on every resource it touches is allowed; otherwise it is refused with permission denied, changes nothing and delivers nothing. This includes databases opened from a restricted storage, each operation of a transaction, and the documents a view query loads or deletes.",
  ["inputs", "configurations"], "for all operations and all sets of allowed resources and actions", "tests check a few operations with everything or nothing allowed; a check that is missing, misplaced or about another resource shows only under one particular combination",
  [LO + "storage.rs", D, LO + "database/keyvalue.rs", LO + "database/pubsub.rs", LO + "tasks.rs", "crates/bonsaidb-core/src/permissions.rs"], ["check_permission before each operation", "sessions handed from storages to databases", "actionable Permissions"], ["sessions", "collections, views, databases, users"], ["results and errors", "contents after a refusal"])
P("L12", "The executed transactions are listed exactly, in order",
  "Every applied transaction is listed once, in the order of the ids it got, with the collections, documents and keys it changed in the order it changed them; refused transactions and view updates are not listed; a listing starts at the given id and stops at the limit (100 unless given, at most 1000); opening again keeps the list.",
  ["histories", "inputs"], "for all histories of transactions and all starting ids and limits", "tests list a few transactions; ids skipped by refused or internal transactions and changes over several collections shift what is listed",
  [D, LO + "database/compat.rs", "crates/bonsaidb-core/src/transaction.rs", "crates/bonsaidb-core/src/limits.rs"], ["list_executed_transactions", "changes recorded with each transaction"], ["transaction log"], ["list_executed_transactions", "last_transaction_id"])
P("L13", "Databases are separate, and each has what was put into it since it was created",
  "The databases listed are those that were created and not deleted. Each is used only with its own schema, and holds exactly the documents, keys and views' mappings put into it since it was created, whatever another database, or a deleted one of the same name, holds or held; a name that could damage the storage is refused; all of this survives opening the storage again.",
  ["histories", "inputs"], "for all histories of creating, changing and deleting databases, and all names", "tests delete a database once or twice; state kept by name, and background work that outlives a database, show only in longer histories",
  [LO + "storage.rs", D, LO + "tasks.rs", LO + "database/keyvalue.rs"], ["create_database, delete_database, validate_name", "statuses of views and expirations by database", "persistence and expiration in the background"], ["list of databases", "directories", "task statuses"], ["list_databases", "reads and view queries"])
P("L14", "An identity may do exactly what its groups and roles allow at that moment",
  "After any history of creating and deleting users, roles and groups and of assigning them, a user or role exists under its name exactly while it should, and assuming it gives a session that may do exactly what the existing groups of the user, of its existing roles, and the permissions of every authenticated identity allow.",
  ["histories", "inputs", "configurations"], "for all histories of user administration, all permissions and all actions", "tests assign one group or one role and delete nothing; ids of roles and groups that coincide, and dangling references, need particular histories",
  [LO + "storage.rs", "crates/bonsaidb-core/src/admin/user.rs", "crates/bonsaidb-core/src/admin/role.rs", "crates/bonsaidb-core/src/schema/collection.rs"], ["update_user_with_named_id", "effective_permissions", "assume_identity", "names by unique views"], ["admin database", "sessions"], ["sessions and what they allow"])
P("L15", "Subscribers receive exactly what is published to their topics, in order",
  "A subscriber receives every payload published, in its own database, to a topic it is subscribed to at that moment: once each, in the order published, with the topic and payload that were published; it receives nothing else, and unsubscribing or dropping one subscriber doesn't affect another.",
  ["histories", "inputs"], "for all sequences of subscribing, unsubscribing and publishing and all topics and payloads", "tests publish a few fixed messages; topics of different databases, types and subscribers could be confused",
  [LO + "database/pubsub.rs", "crates/bonsaidb-core/src/pubsub.rs"], ["topics qualified by database", "relay of messages"], ["subscribers"], ["PubSub::publish, Receiver"])
P("L19", "Opening with another definition of a view gives that definition's mappings",
  "A database opened with a schema in which a view is new or has another version and definition gives, when that view is queried, exactly the new definition's mappings of all documents, those written before, while and after the view is rebuilt; the documents are kept, and the new definition's policy, uniqueness included, is kept from then on.",
  ["histories", "configurations", "inputs"], "for all sequences of definitions, writes between and progress of rebuilding", "tests change one version once; documents written while the rebuilding goes on are missed only in particular interleavings",
  VW + [LO + "views/integrity_scanner.rs", LO + "tasks.rs"], ["integrity scan on opening", "view versions", "invalidation of all documents"], ["view trees and versions"], ["view queries after opening with another schema"])
P("L20", "Operations done at once by several threads behave as done in some order",
  "When two threads use one database or storage at once, every result, and what is found afterwards, is what doing the operations one after the other in some order would give: conflicting updates have one winner, keys are changed atomically, unique keys stay unique, a database is created once, and every view queried afterwards has exactly the mappings of the documents that are there, acknowledged writes included; nothing waits forever.",
  ["schedules", "inputs"], "for all interleavings", "tests run few schedules; lost updates and outdated views need a switch at particular points",
  [D, LO + "tasks.rs", LO + "views/mapper.rs", LO + "storage.rs", LO + "database/keyvalue.rs"], ["tree locks and transactions", "view jobs shared between threads", "integrity check before eager updates", "key-value state lock", "list of databases lock"], ["trees, task statuses"], ["results of concurrent operations", "reads afterwards"])
P("L21", "Restoring a backup gives every document and key there was",
  "A storage's backup, to a directory or any other location, restored to a new storage gives every database that had documents or keys, with exactly the documents (ids and contents) and keys (namespaces, values, expirations) it had, persisted or not, whatever their ids and names, and the users.",
  ["inputs", "histories"], "for all ids, keys, namespaces and contents", "the test backs up one document and three plain keys; ids and keys may hold any characters",
  [LO + "storage/backup.rs", LO + "database/keyvalue.rs"], ["backup_database / restore_database", "file names of objects", "pending keys included"], ["backup location"], ["reads after restoring"])
P("L16", "After a crash, exactly the acknowledged transactions are there",
  "If the process stops at any moment, opening the storage again succeeds and finds every acknowledged transaction, completely and in all of its collections, possibly the one that was cut short (completely or not at all), and nothing else; the executed transactions listed are those, and work goes on.",
  ["crash_points", "inputs"], "for all crash points, from creating the storage on, and all transactions", "tests never crash; each crash point leaves another combination of files",
  [LO + "storage.rs", D, LO + "open_trees.rs"], ["storage id and database creation", "transaction commit over several trees"], ["storage files"], ["reads after opening again"])
P("L17", "After a crash, keys are as some prefix of the changes left them",
  "If the process stops at any moment, opening the storage again finds the key-value store as it was after some prefix of the changes, at least as long as what was persisted: with immediate persistence, everything up to the last point at which the background persistence had caught up.",
  ["crash_points", "histories"], "for all crash points, sequences of changes and persistence rules", "tests never crash",
  KV, ["persist_keys in one transaction"], ["key-value tree", "files"], ["reads after opening again"])
P("L18", "After a crash, views agree with the documents that are there",
  "If the process stops at any moment, opening the storage again and querying a view (lazy, eager or unique) gives exactly the mappings of the documents that are there, and further writes keep it so.",
  ["crash_points", "histories"], "for all crash points and sequences of writes, deletes and queries", "tests never crash; a view's entries, document map and invalidations are separate files",
  VW + [LO + "views/integrity_scanner.rs"], ["invalidation and mapping transactions", "integrity check on opening"], ["view trees", "files"], ["view queries after opening again"])

P("N01", "A remote database behaves as the local one it is connected to",
  "Every operation of a client connected over a network gives what the same operation gives on the server's database with the session's permissions; each response belongs to its request, whatever requests are in flight and however connections are lost and made again; subscribers get their messages.",
  ["schedules", "histories", "fault_sequences"], "for all operations, orders of requests and responses, and losses of connections", "the tests use one connection that isn't lost",
  ["crates/bonsaidb-server/src/", "crates/bonsaidb-client/src/"], ["request ids", "reconnection", "dispatch"], ["sockets"], ["results of client calls"])
P("N02", "Encrypted contents are only readable with their key, and unchanged",
  "Documents and view entries written with an encryption key are stored such that reading them needs the key and the permission to use it; altered or foreign data is refused, and contents read back as written.",
  ["inputs"], "for all contents, keys and alterations", "the tests use a few documents and one key",
  [LO + "vault.rs"], ["vault payloads", "master keys"], ["storage files"], ["reads, files"])
P("N03", "A password or token is accepted exactly when it is the one that was set",
  "Authenticating with a password or a token succeeds exactly with the one last set or created for that user or token and not deleted.",
  ["inputs"], "for all passwords and tokens", "the tests try one right and one wrong",
  [LO + "storage/argon.rs", LO + "storage/token_authentication.rs", LO + "storage.rs"], ["Argon2 hashes", "BLAKE3 challenge"], ["_admin database"], ["authenticate"])
NA.update({
 "N01": "tokio's multi-threaded runtime, epoll, sockets, TLS (rustls, ring's assembly) and QUIC are between the two ends: the symbolic executor has no model of them, and cutting them out would leave a model of the protocol instead of the code",
 "N02": "the guarantee rests on ciphers (XChaCha20-Poly1305, P-256) whose resistance no SMT solver decides; the vault's calls around them are straight-line code the tests cover",
 "N03": "Argon2 fills megabytes with a data-dependent mixing function and the token challenge is a BLAKE3 comparison: executing them symbolically over the password is out of reach, and the remaining lookup is covered by L14's users",
})
