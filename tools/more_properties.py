# ------------------------------------------------------------------ storage
prop('C07', 'Blocks are content addressed and never change',
     "Every block is stored under the CID of its own bytes (CIDv1, dag-cbor, sha2-256), including blocks imported from another server. "
     "Once stored, a block's bytes and sequence number never change and it is never removed: writing it again, in any later commit, keeps the first copy.",
     'inputs histories', 'every block written, by any path, in any order, including blocks that recur in later commits',
     'Tests rewrite a block once, in memory; they never inspect what an overwritten block would have lost on the datastore.',
     'storage.py datastore_storage.py util.py mst.py xrpc_repo.py',
     [('lazy CID and encoding', 'arroba/storage.py Block'), ('setdefault', 'arroba/storage.py MemoryStorage.write, write_blocks'),
      ('get_or_insert, only new blocks are put', 'arroba/datastore_storage.py AtpBlock.create, DatastoreStorage.write_blocks'),
      ('CAR blocks are verified', 'arroba/xrpc_repo.py import_repo')])
prop('C08', 'Sequence numbers are unique and only go up',
     "Each allocated sequence number is greater than every number allocated before it on the same stream, starting at 1, and none is ever handed out twice: "
     "not across threads or processes, not when the enclosing commit's transaction is retried or rolled back, and not when the cache that serves them is evicted or restarted. "
     "The last allocated number is reported without allocating a new one.",
     'schedules histories fault_sequences', 'every interleaving of allocations across threads and processes, every eviction of the cache, every transaction retry',
     'Tests allocate in one thread against one process; the datastore and memcache implementations need servers that the tests here do not have.',
     'storage.py datastore_storage.py',
     [('read, then increment', 'arroba/storage.py MemorySequences'), ('independent transaction', 'arroba/datastore_storage.py DatastoreSequences.allocate'),
      ('atomic increment, batch reserved ahead in the datastore', 'arroba/datastore_storage.py MemcacheSequences.allocate')])
prop('C09', 'Reading events back yields each one once, in order and complete',
     "Reading events from a sequence number yields every stored commit and event at or after it exactly once, in ascending order, and nothing else; imported blocks are not events. "
     "Each commit comes with all of the blocks stored with it, every record its operations created or updated, its tree's root and its previous commit. "
     "If the datastore connection's context is lost part way, reading resumes without skipping or repeating a block.",
     'histories inputs fault_sequences', 'every stored history, every starting point, every point at which a query is interrupted',
     'Tests read back a few short histories with one event per sequence number, and inject one context error.',
     'storage.py datastore_storage.py',
     [('grouping blocks by sequence number', 'arroba/storage.py Storage.read_events_by_seq'),
      ('ordered scan, resumable', 'arroba/storage.py MemoryStorage.read_blocks_by_seq; arroba/datastore_storage.py DatastoreStorage.read_blocks_by_seq')])
prop('C10', 'Account changes are announced after they happen',
     "Creating a repo stores its first commit, then identity, account (active) and sync events, and only then registers the repo; "
     "deactivating, reactivating and tombstoning store the new status before storing and announcing the matching event. "
     "Every such event names its own repo's DID, its own sequence number and time, and has the fields that its lexicon requires.",
     'inputs histories crash_points', 'every repo and every sequence of account changes',
     'Tests check the happy path on one repo and storage, and never validate the events against their lexicon.',
     'storage.py repo.py', [('order of effects', 'arroba/repo.py Repo.create; arroba/storage.py deactivate_repo, activate_repo, tombstone_repo, write_event')])
prop('C11', 'Both storages keep the same promises',
     "A repo, block or event that is stored and loaded again, from memory or from the datastore, is the one that was stored: same DID, handle, status, head, keys, bytes, sequence number, time and owner. "
     "Bulk reads return every requested block that's stored, however many there are and however many the datastore defers, each under its own CID. "
     "Looking up something that was never stored says so without failing, and listing repos returns them in ascending DID order, strictly after the given one, at most as many as asked, with inactive ones included.",
     'inputs histories', 'every repo and block, every lookup, on both implementations',
     "The datastore implementation's tests need an emulator that isn't available offline, so nothing checks it.",
     'storage.py datastore_storage.py repo.py',
     [('field by field conversion', 'arroba/datastore_storage.py AtpBlock.to_block, from_block, DatastoreStorage.create_repo, load_repo, store_repo, load_repos'),
      ('in-memory equivalents', 'arroba/storage.py MemoryStorage')])
prop('C12', "A repo's contents are exactly what its head commit's tree names",
     "Loading a repo by a commit gives that commit as its head, the tree that the commit points to, and every attribute it's loaded with; a newly created one has every attribute it's created with. "
     "Reading a record by collection and key gives the block that the repo's own tree has there, or nothing if the tree has no such entry; "
     "listing a repo's contents gives every entry of its tree, once, under its own collection and key, with its own record.",
     'inputs histories', 'every repo, commit, collection and key',
     'Tests load repos with a few records, where mixing up entries, trees or commits often happens to give the same answer.',
     'repo.py', [('reads', 'arroba/repo.py Repo.load, get_record, get_contents, did, version')])

# ------------------------------------------------------------------ firehose
prop('F01', 'Subscribers see events in strictly increasing order, without repeats',
     "Every subscriber receives events in strictly increasing sequence number order and never receives one twice, "
     "whether they come from storage, from the in-memory window or live, and across the switches between them. "
     "The collector never publishes a number that isn't greater than the last one it published, even after an error.",
     'schedules histories', 'every cursor, every interleaving of subscribers with the collector, every state of the window',
     'Tests use short windows and few interleavings; the switches between sources are races that a test hits by luck.',
     'firehose.py', [('last_seq comparisons', 'arroba/firehose.py subscribe, Collector._collect')])
prop('F02', 'A subscriber misses nothing from its cursor on',
     "A subscriber with a cursor receives every event from its cursor on that is stored or published: those older than the in-memory window from storage, then the window, then live ones, "
     "with no gap at either switch even if the window moves meanwhile. Joining the live stream and publishing to it exclude each other, and every published event goes to the window and to every subscriber.",
     'schedules histories', 'every cursor, every interleaving of a subscriber with publication and with other subscribers',
     'Tests run one subscriber against a paused collector, so the windows in which an event could slip between two sources never open.',
     'firehose.py', [('lock around window, subscriber list and publication', 'arroba/firehose.py subscribe, Collector._collect, Collector.run')],
     state=[('rollback', 'window of recent events', 'arroba/firehose.py'), ('subscribers', 'queues of live subscribers', 'arroba/firehose.py')])
prop('F03', 'The firehose waits for missing numbers, then moves on',
     "If the next event's number skips ahead, the collector holds it back until the missing numbers arrive, unless every one of them was reported lost, the configured delay has passed since it last published, "
     "or it is too far behind the last allocated number. It never waits for a number that was reported lost, and never gives up for another reason.",
     'schedules histories', 'every set of lost and late numbers, every delay',
     'Tests cover a few gaps with fixed clocks; the rule is about every combination of gap, lost set, time and lag.',
     'firehose.py', [('lost set, delay and lag window', 'arroba/firehose.py Collector._collect, mark_seq_lost')])
prop('F04', 'The firehose survives errors and disconnects',
     "An error while collecting never ends the collector: it logs, and resumes after the last event it published. A subscriber that goes away, at any point, is removed, and neither a slow nor a departed one blocks the collector or the others. "
     "Starting twice runs one collector, and subscribers don't start until its window is loaded.",
     'fault_sequences schedules', 'every exception at every point, every moment at which a subscriber leaves',
     'Tests inject one exception and one disconnect.',
     'firehose.py', [('catch-all around collection, finally in subscribe, non-blocking queues', 'arroba/firehose.py Collector.run, subscribe, start')])
prop('F05', 'A commit frame describes its commit completely',
     "A commit's firehose frame has exactly its DID, CID, sequence number, revision, time, operations with their CIDs and previous CIDs, and the previous commit's tree root, and never a `since` that isn't the previous commit's revision; its blocks are a CAR rooted at the commit with every block of the commit and its covering proofs. "
     "Other events go out unchanged under their own type, and every frame has the fields that its lexicon requires.",
     'inputs', 'every commit and event that can be stored', 'Tests compare frames built by the same code, for a few commits.',
     'firehose.py mst.py', [('frame construction', 'arroba/firehose.py process_event')])
prop('F06', 'Cursors outside the available range are answered as the protocol says',
     "A cursor beyond the last allocated number is answered with a FutureCursor error frame and nothing else; one older than the window gets an OutdatedCursor notice and starts at the window; "
     "any other cursor, zero included, is served from exactly there, and no cursor means new events only.",
     'inputs', 'every cursor and every window position', 'Tests use three cursors.',
     'xrpc_sync.py firehose.py', [('cursor checks', 'arroba/xrpc_sync.py subscribe_repos')])

# ------------------------------------------------------------------ trees
prop('M01', 'Trees are persistent: changing one never alters another',
     "Adding, updating, deleting, splitting and merging return a new tree and leave the tree they were called on, and every subtree it shares, with the same entries as before. "
     "A node's cached CID is only used while it matches the node's entries.",
     'histories inputs', 'every sequence of operations on trees that share nodes', 'Tests rarely look at the old tree after changing the new one.',
     'mst.py', [('operations build new nodes', 'arroba/mst.py MST.new_tree and its callers'), ('outdated flag', 'arroba/mst.py MST.get_pointer')])
prop('M02', 'Tree operations change and find exactly their own key',
     "Adding, updating and deleting change exactly their key's leaf and keep every other one, in key order; a new leaf goes on its key's layer, and subtrees are split and merged around it without losing an entry. "
     "Looking up a key returns its own value, or nothing if it isn't there; updating or deleting a missing key and adding an existing or invalid key fail. "
     "Range, prefix and cursor reads return leaves in key order, without skipping or repeating any in range.",
     'inputs histories', 'every tree and every key', 'Tests use a few small or random trees; boundary positions at each node are not enumerated.',
     'mst.py', [('operations as edits of a node', 'arroba/mst.py MST.add, update, delete_recurse, split_around, append_merge, trim_top'),
                ('position and descent', 'arroba/mst.py MST.find_gt_or_equal_leaf_index, get, walk_leaves_from, list, list_with_prefix'),
                ('keys', 'arroba/mst.py ensure_valid_key')])
prop('M03', 'Tree nodes encode losslessly, in the standard form',
     "A node's encoding has its left subtree and, for each leaf in order, the length of the prefix shared with the previous key, the rest of the key, its value and the subtree to its right; decoding gives back the same entries. "
     "A key's layer is half of the number of leading zero bits of the SHA-256 of its bytes.",
     'inputs', 'every node', 'Tests have a handful of known-answer trees.',
     'mst.py', [('node codec', 'arroba/mst.py serialize_node_data, deserialize_node_data, common_prefix_len, leading_zeros_on_hash')])
prop('M04', 'Every tree node a commit needs gets stored, and repo exports are complete',
     "Collecting a tree's unstored blocks yields every node that storage doesn't have, keyed by its CID, and the root's CID. "
     "Exporting a tree visits every node and every leaf value reachable from its root, leaving out exactly the nodes older than the requested starting point.",
     'inputs histories', 'every tree and every set of stored nodes', 'Tests store whole trees at once, and export small ones.',
     'mst.py', [('recursive collection', 'arroba/mst.py MST.get_unstored_blocks'), ('breadth-first load', 'arroba/mst.py MST.load_all')])
prop('M05', 'Covering proofs contain the whole path of each operation',
     "For every operation in a commit, its covering proof has every tree node from the root down the path to its key, and the nodes down the inside edges on either side of it, so that the operation can be verified and inverted.",
     'inputs', 'every tree and every operation', 'Tests have a few hand-made proofs.',
     'mst.py', [('descent', 'arroba/mst.py MST.add_covering_proofs')])
prop('M06', 'A tree diff accounts for every difference',
     "Diffing two trees reports each key only in the new one as added, each only in the old one as deleted, and each whose value differs as updated with both values, and skips only subtrees with equal CIDs. "
     "It reports the CIDs of nodes and values that only the new tree has as new, and those of nodes that only the old one has as removed. "
     "Without an old tree, everything is new. Each step of the walk advances at least one side, and a walk visits every entry once, in key order.",
     'inputs', 'every pair of trees', 'Tests use random pairs, which rarely differ in shape at equal depth.',
     'diff.py mst.py', [('lockstep walk', 'arroba/diff.py mst_diff; arroba/mst.py Walker'), ('whole-tree walk', 'arroba/diff.py null_diff; arroba/mst.py MST.walk'), ('changes', 'arroba/diff.py Diff')])

# ------------------------------------------------------------------ XRPC
prop('X01', 'Writes and private methods require authorization first',
     "Every method that changes a repo, imports one, or returns session data checks the caller's token before it reads input-dependent state or has any effect, and an absent or wrong token, or an unset server token, is refused. "
     "A session is only created for exactly the right password.",
     'inputs', 'every method and every request', 'Tests send one bad token to some methods.',
     'server.py xrpc_repo.py xrpc_server.py', [('bearer token check', 'arroba/server.py auth'), ('password check', 'arroba/xrpc_server.py create_session')])
prop('X02', 'Inactive and missing repos are not served',
     "Every method that reads or writes a repo's records or commits, or lists its blobs, refuses one that doesn't exist, and one that is inactive, with the protocol's errors before returning any of its data; only the status and listing methods report on inactive repos, truthfully.",
     'inputs', 'every method, every repo status', 'Tests check some methods with one status.',
     'server.py xrpc_repo.py xrpc_sync.py', [('single gate', 'arroba/server.py load_repo')])
prop('X03', 'Record methods do what was asked, to the repo that was asked for',
     "Creating, putting and deleting commit exactly one write, to the named repo, collection and key, with the given record; a put creates if and only if no record exists there, deleting a missing record changes nothing, and a missing key gets a new TID. "
     "Reading returns that record with its own URI and CID or says it isn't found, listing only returns the collection's records, in order, and requested features that aren't supported are refused, not ignored.",
     'inputs', 'every request', 'Tests use one collection and a few keys.',
     'xrpc_repo.py repo.py', [('handlers', 'arroba/xrpc_repo.py')])
prop('X04', 'Importing a repo is verified and overwrites nothing',
     "A repo is imported only if the archive's root commit is present, no repo exists for its DID, and its signature verifies against the signing key in that DID's own document; until all of that holds nothing is stored. "
     "Imported blocks keep verified CIDs, belong to that DID and aren't emitted as events, and the imported repo starts deactivated, at that commit, with new keys.",
     'inputs', 'every archive', 'Tests import one good archive and a few bad ones.',
     'xrpc_repo.py did.py', [('checks before writes', 'arroba/xrpc_repo.py import_repo')])
prop('X05', 'Sync methods return verifiable archives rooted at the current head',
     "Every archive that the sync methods return is rooted at the repo's current head commit, and each block's bytes are the ones stored for its CID: a whole repo has the head and its tree's blocks, or only those since a given revision, a record comes with the head and its proof, requested blocks are all there or an error says which is not. "
     "The head and revision that they report are the current head commit's own.",
     'inputs', 'every repo and request', 'Tests compare against the same code.',
     'xrpc_sync.py', [('archive construction', 'arroba/xrpc_sync.py')])
prop('X06', 'Paging through a listing reaches every item',
     "Every paged method returns at most the requested number of items, in a total order, and a cursor exactly when the page is full; passing that cursor back continues at or right after the last item, so that following cursors, with pages of more than one item, visits every item.",
     'inputs histories', 'every limit, cursor and collection', 'Tests page once or twice.',
     'xrpc_repo.py xrpc_sync.py storage.py datastore_storage.py', [('cursor handling', 'arroba/xrpc_sync.py list_repos, list_blobs; arroba/xrpc_repo.py list_records; load_repos')])
prop('X07', 'Remote blobs are described and served as last fetched',
     "When a remote blob is fetched, its CID and size become those of the bytes fetched and its type that of the response; one that answers 4xx, or fails before it was ever fetched, becomes inactive, other failures leave it as it was, and inactive blobs are never redirected to or returned. "
     "Blobs that are over-sized, wrongly typed or over-long aren't returned when they're created, and one whose Content-Length is over the limit isn't downloaded. "
     "A blob is only refetched when it's due, its repo is recorded with it, and fetches that clients can trigger use the protected HTTP session.",
     'inputs fault_sequences histories', 'every response, every sequence of fetches', "The datastore tests that cover blobs can't run offline.",
     'datastore_storage.py xrpc_sync.py', [('fetch, describe, validate', 'arroba/datastore_storage.py AtpRemoteBlob'), ('redirect', 'arroba/xrpc_sync.py get_blob')])
prop('X08', "Methods accept and return what their lexicons say",
     "Every method is registered under the name that its lexicon has, and accepts each parameter that its lexicon declares, under that name, and needs no others; limits that are left out default to what the lexicon says. Every object that a method returns has the properties that its lexicon requires, with their types, and methods that return archives return nothing else.",
     'inputs programs', 'every registered method and every declared parameter', 'Tests call each method with some parameters.',
     'xrpc_repo.py xrpc_server.py xrpc_sync.py', [('handler signatures and returned objects', 'arroba/xrpc_*.py')])
prop('X09', 'Disabled repo exports are served only to trusted callers',
     "When whole-repo exports are disabled, a repo that was created more than 12 hours ago is exported only to internal callers and to requests whose bearer token is exactly the configured one; with no token configured, no request's token is accepted. "
     "Newer repos are still exported to anyone, and nothing is refused when exports aren't disabled.",
     'inputs', 'every configuration, caller, token and repo age', 'Tests try a few combinations.',
     'xrpc_sync.py', [('the check', 'arroba/xrpc_sync.py get_repo')])

# ------------------------------------------------------------------ identity and utilities
prop('U01', 'Signatures cover the whole object and verify only as made',
     "Signing signs the canonical encoding of the whole object without its signature, with ECDSA over SHA-256, and stores the low-S signature as 64 bytes; verifying recomputes exactly that from a copy, accepts only 64-byte, low-S signatures, and returns true only if verification succeeded. "
     "Service tokens are signed the same way, with the given issuer, audience and expiry. New keys are random, unless they are made from a given seed.",
     'inputs', 'every object and key', 'Tests sign and verify a few objects with one key.',
     'util.py', [('sign, verify_sig, apply_low_s_mitigation, service_jwt', 'arroba/util.py')])
prop('U02', 'Timestamp identifiers increase and decode to what they encode',
     "Every TID is 13 characters of the sortable alphabet, encodes its number and then its clock id so that larger numbers sort later, and decodes back to that number; decoding rejects anything else than 13 characters, and characters outside of the alphabet. Dates become TIDs and back without losing microseconds. "
     "TIDs generated in one process strictly increase, across threads and when the clock goes backward.",
     'inputs schedules', 'every number, every interleaving and clock', 'Tests check known values and one backward clock step, in one thread.',
     'util.py', [('int_to_tid, tid_to_int, s32encode, s32decode, next_tid', 'arroba/util.py')])
prop('U03', 'DID operations and documents say what was asked',
     "A PLC operation carries the given handle, keys, server and previous operation, is signed with the current rotation key, and is sent to the DID that it derives (for a new one) or was given; updating chains to the directory's latest operation and keeps the other aliases, and rolling back reinstates the target operation on top of the latest; each returns the DID with its new document. "
     "Encoding and decoding a public key are inverses, only for the two supported curves, and the key, handle and document read from an operation or document are its own.",
     'inputs', 'every operation, key and audit log', 'Tests use a few canned operations.',
     'did.py', [('write_plc, write_plc_operation, update_plc, rollback_plc, encode_did_key, decode_did_key, plc_operation_to_did_doc, get_signing_key, get_handle', 'arroba/did.py')])
prop('U04', 'DIDs and handles resolve only to what their owners published',
     "Resolving a DID fetches, over HTTPS, only the location that its method and identifier name, and rejects other methods; failed fetches raise and are not cached, and cached answers expire. "
     "Resolving a handle validates it first, accepts only a DNS TXT record at its own name or its own well-known URL, returns the DID that it finds there and only DIDs, and otherwise nothing.",
     'inputs fault_sequences', 'every DID, handle, DNS answer and HTTP response', 'Tests mock a few answers.',
     'did.py', [('resolve, resolve_plc, resolve_web, resolve_handle', 'arroba/did.py')])
prop('U05', 'Private keys and tokens never leak',
     "Private keys are stored only encrypted. Neither serialized private keys, passwords nor tokens ever reach logs, error messages, events, blocks or responses (other than the tokens of a session that the client authenticated for), nor requests other than in their Authorization header.",
     'inputs histories', 'every code path', 'Tests never look at logs.',
     'datastore_storage.py repo.py util.py did.py server.py xrpc_server.py app.py', [('EncryptedProperty', 'arroba/datastore_storage.py AtpRepo')])
prop('U06', 'A lease is held by one holder at a time and expires',
     "A lease is held only after the cache atomically added its key, with its expiration; giving up after its retries raises; and it is released only by its holder, only while it can't have expired, however the protected code exits.",
     'schedules fault_sequences', 'every interleaving of holders and every expiry time', 'Tests use one client and a mocked clock.',
     'memcache.py', [('add, expires_at, delete', 'arroba/memcache.py Lease')])
prop('U07', 'Datastore access always has a context and the right transaction',
     "Every datastore operation that the storage and sequence classes expose runs inside a datastore context, entering one if there is none; commits, status and head updates are transactional, sequence allocation is independent of the enclosing transaction, and block reads and writes stay out of it.",
     'programs schedules', 'every public operation, called with or without a context or transaction', "The datastore tests can't run offline.",
     'datastore_storage.py', [('ndb_context, transactional decorators', 'arroba/datastore_storage.py')])
prop('U08', 'No path fails for want of a name',
     "On every path through every module and script, each variable that's used has been bound, each name and each attribute of arroba's own modules, classes and storage and tree objects that's used exists, "
     "and each call of arroba's own functions and methods passes only parameters that they have, and all that they need.",
     'programs', 'every path through every function', 'Tests only execute some paths; error handling and rarely used scripts are never run.',
     'storage.py repo.py mst.py did.py firehose.py datastore_storage.py xrpc_repo.py xrpc_sync.py xrpc_server.py util.py server.py', [('every function', 'arroba/*.py'), ('scripts', 'create_identity.py and others')])

prop('U09', 'AT URIs are built and read exactly',
     "An AT URI is at://, its DID, its collection and its record key, unchanged, separated by slashes, and isn't made without all of them. Parsing one returns its own DID or handle, collection and record key, "
     "unchanged, with empty ones for those that it lacks, so it returns exactly the parts that a URI was built from; anything else than an at:// URI is refused.",
     'inputs', 'every DID, handle, collection and record key', 'Tests parse a few URIs.',
     'util.py', [('building', 'arroba/util.py at_uri'), ('parsing', 'arroba/util.py parse_at_uri')])

# ------------------------------------------------------------------ beyond static reach
prop('N01', 'A tree depends only on its contents, not on the order of changes',
     "Any two sequences of operations that end with the same keys and values produce the same root CID.",
     'histories inputs', 'every pair of histories', 'Tests shuffle a few hundred keys.',
     'mst.py', [('layers by key hash', 'arroba/mst.py MST.add, delete_recurse, split_around, append_merge')])
prop('N02', 'Firehose latency and throughput stay bounded',
     "Every published event reaches every live subscriber within a bounded time of being stored.",
     'schedules', 'every load', 'Tests run without load.', 'firehose.py', [('condition wakeups', 'arroba/firehose.py')])
prop('N03', 'Covering proofs are sufficient to invert every operation',
     "A consumer that has only a commit's blocks can always invert its operations and arrive at the previous root CID.",
     'inputs', 'every tree and batch of operations', 'Tests have a few known-answer cases.', 'mst.py', [('add_covering_proofs', 'arroba/mst.py')])
