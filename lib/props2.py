"""Ownership, protocol, engine and persistence properties (see props.py)."""


def add(P, D, SOUND):
    TYPESTATE = 'ownership typestate, path-sensitive over LLVM IR, with a contract checked for every function that hands out or takes back '
    P('R01', 'Engine operations balance every item reference',
      'Whatever an engine operation is asked and however it ends (success, miss, wrong type, out of memory, log or '
      'snapshot failure), every item reference it takes is given back exactly once or handed to its caller. No input '
      'can therefore pin an item in memory for good, or release one that another client still reads.',
      ['inputs', 'fault_sequences'], 'all paths of all engine functions that take or give back an item reference, in both '
      'the standard and the persistent build',
      'A leaked reference changes no reply: it shows only as memory that can never be reclaimed, or as corruption once a '
      'count wraps, after error paths the tests do not reach.',
      [D + 'items.c', D + 'coll_list.c', D + 'coll_set.c', D + 'coll_map.c', D + 'coll_btree.c', D + 'chkpt_snapshot.c',
       D + 'item_base.c', D + 'cmdlogrec.c'],
      [('item reference count', D + 'item_base.c do_item_get, do_item_release')],
      TYPESTATE + 'an item reference', SOUND)
    P('R02', 'A connection gives back everything it holds',
      'The item, collection element, element array, key list, temporary block and response buffer a request acquires is '
      'released exactly once with its own release operation on every path: on success, on every error reply, on '
      'out of memory, on a deferred (would-block) reply and on disconnect. Nothing is used or released again after that.',
      ['inputs', 'fault_sequences'], 'all paths of all connection-level functions of the server, ascii and binary',
      'Error and allocation-failure paths of each command are numerous and the leak or double release is silent in a '
      'functional test.',
      ['memcached.c'],
      [('connection slots', 'memcached.c struct conn coll_eitem, coll_strkeys, item'), ('release', 'memcached.c conn_cleanup')],
      'typestate over connection slots and acquired resources, path-sensitive over LLVM IR, every handler checked from '
      'any entry state its callers allow', SOUND)
    P('R04', 'Collection elements and index nodes are linked or freed',
      'An element or index node that a collection operation allocates is linked into its collection when the operation '
      'reports success; when it fails the element is not linked and is freed once, by the operation or by the caller '
      'that owns it. No failed insert leaves a half-inserted element or loses its memory.',
      ['inputs', 'fault_sequences'], 'all paths of all engine functions that allocate, link or free elements and nodes',
      'The failures are out-of-memory, overflow and duplicate conditions in the middle of structural updates.',
      [D + 'coll_list.c', D + 'coll_set.c', D + 'coll_map.c', D + 'coll_btree.c'],
      [('element allocation and linking', D + 'coll_btree.c do_btree_elem_link, do_btree_elem_insert')],
      TYPESTATE + 'an element or index node', SOUND + 'Nodes kept in a local array are not followed further.')
    P('R05', 'What a reader may hold is neither freed nor overwritten',
      'An element or item is freed only when nothing references it any more and it has been unlinked; the value of a '
      'linked element is rewritten in place only when nobody else holds it, and item values are never rewritten in '
      'place; every element put in a result is pinned before it can be deleted. A slow reader therefore always sends the '
      'bytes it read, even while the same data is updated, deleted, trimmed or expired.',
      ['schedules', 'inputs'], 'all free, in-place write and result-building sites on all paths',
      'It takes a reader that is still sending while another client deletes or updates the same element.',
      [D + 'item_base.c', D + 'items.c', D + 'coll_list.c', D + 'coll_set.c', D + 'coll_map.c', D + 'coll_btree.c'],
      [('reference counts', D + 'coll_btree.c do_btree_elem_unlink, do_btree_elem_get'), ('item free', D + 'item_base.c do_item_free')],
      'path-sensitive dataflow of reference-count and link-state facts over LLVM IR', SOUND +
      'do_btree_find_leaf() is exempt from pinning: its result stays inside the critical section.')
    P('P01', 'Every request gets exactly one outcome',
      'Each request a client sends ends in exactly one way: one response is queued, or the server keeps reading the rest of '
      'that request (and then answers it), or the connection is closed. A request never ends with two responses or with '
      'none at all, except where the protocol itself asks for silence (noreply, quiet binary commands, pipelined commands '
      'collected into one reply). Every error path obeys this, so requests and responses never get out of step.',
      ['inputs', 'fault_sequences'], 'all paths of all ascii and binary request handlers of the server',
      'The number of error exits per command is large (allocation failures, engine errors, malformed lengths); a '
      'missing or doubled reply on one of them desynchronises a connection only under that failure.',
      ['memcached.c'],
      [('responses', 'memcached.c out_string, write_bin_packet, write_bin_response'), ('states', 'memcached.c conn_set_state')],
      'interprocedural summaries of a response typestate automaton over LLVM IR: which outcome tokens each path of each '
      'handler produces', SOUND + 'Deferred (would-block) completions are analysed where the handler resumes.')
    P('P08', 'A rejected request never executes its data block as commands',
      'When an ascii request whose command line was accepted announces a data block and is then refused (value too large, '
      'out of memory, wrong field counts, pipe error, engine error), the server skips exactly the announced number of bytes plus line end, also under noreply. '
      'Data a client meant as a value is therefore never interpreted as a command, and no later command is eaten.',
      ['inputs', 'fault_sequences'], 'all paths of all ascii handlers that accept a data block',
      'It needs a refusal (out of memory, overflow, denied, pipe error) combined with noreply or a multi-key block; tests '
      'exercise the accepted path.',
      ['memcached.c'],
      [('swallowing', 'memcached.c conn_swallow, struct conn sbytes, write_and_go'), ('block readers', 'memcached.c ritem_set_first')],
      'path-sensitive dataflow over LLVM IR relating the announced length, the buffer request, and the bytes skipped', SOUND)
    P('P05', 'Binary commands wait for authentication',
      'On a server that requires SASL, no binary command other than the handshake (list mechanisms, auth, step, version) '
      'reaches the engine or makes the server accept a request body before the connection has authenticated. A connection '
      'starts unauthenticated and without rights, and becomes authenticated only when the SASL exchange succeeds and the '
      'user has rights assigned.',
      ['inputs', 'histories'], 'all binary opcodes, all paths from dispatch, all results of the SASL library',
      'The default test build runs without SASL accounts; a bypass exists for a single opcode, result code or order of '
      'handshake messages.',
      ['memcached.c'],
      [('gate', 'memcached.c dispatch_bin_command, authenticated'), ('login', 'memcached.c process_bin_complete_sasl_auth'),
       ('fresh connection', 'memcached.c conn_new')],
      'must-pass-gate dataflow over LLVM IR from the dispatcher through every reachable function, and an origin analysis of '
      'every store of the authenticated flag', SOUND)
    P('P06', 'Ascii commands run only with the right of their class',
      'In the build with ascii SASL and on a server that requires it, every ascii command reaches the engine, reads a data '
      'block or changes a server setting only where the connection was granted the right of that class (key-value, list, '
      'set, map, btree, scan, flush, attribute, delete, admin). A right is granted only if the authenticated user holds all '
      'requested bits, or the key is an internal one; rights are assigned only after a successful SASL exchange.',
      ['inputs', 'histories'], 'every ascii command, every path from the command dispatcher to an engine call or a settings store',
      'There are dozens of commands and sub-commands and this build option is not part of the tests; one missing gate '
      'opens one command.',
      ['memcached.c'],
      [('gate', 'memcached.c check_ascii_auth'), ('commands', 'memcached.c process_command_ascii'),
       ('login', 'memcached.c process_sasl_auth_complete')],
      'must-pass-gate dataflow over LLVM IR with a table operation -> required right, from the dispatcher through every '
      'reachable function', SOUND + 'Analysed with -DASCII_SASL. Public statistics and releasing what is held need no right.')
    PATHFLOW = 'path-sensitive dataflow over LLVM IR with one symbolic item per lookup: '
    P('E01', 'An item is only ever used as the type it was stored as',
      'A key-value, list, set, map or b+tree operation touches an item body only as the type its stored type flags say: '
      'a command that names a key of another type fails without reading or changing that item. Lookups report success only '
      'for the requested type, and plain get, replace, append, prepend, incr and cas operate on key-value items only.',
      ['inputs', 'histories'], 'all engine functions that look an item up or open its body, all paths',
      'A type confusion reads one structure as another; the type check is repeated in every operation and one missing or '
      'widened check is reached only by a specific pair of stored type and command.',
      [D + 'items.c', D + 'item_base.c', D + 'coll_list.c', D + 'coll_set.c', D + 'coll_map.c', D + 'coll_btree.c'],
      [('type flags', D + 'item_base.h IS_LIST_ITEM, IS_SET_ITEM, IS_MAP_ITEM, IS_BTREE_ITEM, IS_COLL_ITEM'),
       ('lookups', D + 'coll_list.c do_list_item_find and its siblings')],
      PATHFLOW + 'each body access needs the type fact established on that path', SOUND +
      'Log replay (functions applying recovered records) and snapshot writers choose by the type itself and are not covered.')
    P('E02', 'An unreadable collection shows nothing',
      'While a collection is marked unreadable, every operation that reads its elements (get, exist, count, position, get by '
      'position, multi get, sort-merge get) fails with the unreadable status and returns no element, element count or position, '
      'whatever its arguments; only collections found readable are opened by a reader.',
      ['inputs', 'histories'], 'all collection read operations, all paths',
      'The check is repeated in each of the read operations; a missing one shows only for that operation on a collection '
      'still under construction.',
      [D + 'coll_list.c', D + 'coll_set.c', D + 'coll_map.c', D + 'coll_btree.c'],
      [('readable flag', D + 'item_base.h COLL_META_FLAG_READABLE')],
      PATHFLOW + 'each body read and each success needs the readable fact on that path', SOUND)
    P('E03', 'Expired and flushed items are never served',
      'An item whose expiration time has passed, or that was stored at or before a flush of everything or of its prefix or any enclosing '
      'prefix, is invisible: no lookup, scan or pin returns it, whether or not it has been reclaimed. Conversely no live item '
      'is dropped as invalid: reclaiming takes only items found expired or flushed.',
      ['inputs', 'histories'], 'all engine lookups, scans and reclaim sites, and both flush operations, all paths',
      'It depends on clock, flush history and nesting of prefixes; the tests sample a few of the combinations.',
      [D + 'item_base.c', D + 'items.c', D + 'prefix.c', D + 'assoc.c'],
      [('validity', D + 'item_base.c do_item_isvalid'), ('prefix chain', D + 'prefix.c prefix_isvalid'), ('flush', D + 'items.c item_flush_expired')],
      PATHFLOW + 'each hand-out needs a validity verdict, and the verdict is checked against the expiry and flush comparisons', SOUND)
    P('E07', 'Counts and sizes stay exact',
      'The element count of a collection always equals the number of elements linked in it, and the space charged to a '
      'collection, its prefix and the whole cache is exactly that of the linked items, elements and tree nodes. Linking, '
      'unlinking and replacing an item move the hash table, LRU list, linked flag, prefix books, item statistics (normal '
      'and sticky) and a fresh CAS number together, and an unlinked item nobody holds is freed. A prefix disappears '
      'only when it holds no item and no child prefix.',
      ['inputs', 'histories', 'failures'], 'every function that links or unlinks items, elements or nodes, every path including failures',
      'A counter that drifts by one element or one byte per rare path (replacement, trim, split, merge, failed insert) shows '
      'only after a long history, as a wrong limit, wrong statistics or a leaked prefix.',
      [D + x for x in ('coll_list.c', 'coll_set.c', 'coll_map.c', 'coll_btree.c', 'item_base.c', 'prefix.c')],
      [('element books', D + 'coll_*.c do_*_elem_link/unlink/delete, do_coll_space_incr/decr'),
       ('item books', D + 'item_base.c do_item_link, do_item_unlink, do_item_replace'),
       ('prefix books', D + 'prefix.c prefix_link, prefix_unlink')],
      'dataflow over LLVM IR: every path summarised as link/unlink events and linear counter deltas, loops by inductive linear '
      'equalities; the deltas must equal the events', SOUND +
      'The number of nodes one merge pass removes from a b+tree is taken from its own counter; counters are compared as exact '
      'linear forms, not for overflow.')
    P('E04', 'A collection never holds more elements than it may',
      'No insert raises the element count of a list, set, map or b+tree above the maximum of that collection (or the configured '
      'maximum where it has none): a full collection either refuses the element (overflow action error) or trims others in '
      'exchange (any other action). A maximum set by a client is cut to the configured one and refused when the collection '
      'already holds more.',
      ['inputs', 'histories'], 'every function that raises an element count or stores a maximum, all paths',
      'The limit, overflow action and insert position combine differently in each collection, and defaults and per-collection '
      'limits are set at run time; tests fill few collections to their limits.',
      [D + x for x in ('coll_list.c', 'coll_set.c', 'coll_map.c', 'coll_btree.c', 'items.c')],
      [('limits', D + 'coll_*.c do_*_real_maxcount, do_btree_overflow_check, do_list_elem_insert'),
       ('attributes', D + 'items.c do_item_setattr_*')],
      PATHFLOW + 'each count increment needs the count-below-limit fact or an exchange trim on that path', SOUND +
      'How many elements one trim removes is taken as at least one.')
    P('E05', 'Sticky items stay within the sticky memory limit',
      'Memory given to sticky items is bounded: no sticky item is created, and no element is added to a sticky collection or '
      'replaced by a bigger one, unless the sticky memory was found below its limit.',
      ['inputs', 'histories'], 'item allocation and every function that adds or replaces an element, all paths',
      'Sticky items are never evicted, so one unchecked path lets a client use up all memory; the test server rarely reaches '
      'the limit.',
      [D + x for x in ('item_base.c', 'coll_list.c', 'coll_set.c', 'coll_map.c', 'coll_btree.c')],
      [('limit', D + 'item_base.c do_item_sticky_overflowed'), ('elements', D + 'coll_*.c do_*_elem_link, do_*_elem_insert')],
      PATHFLOW + 'each addition needs the not-sticky or below-limit fact, or a not-bigger comparison', SOUND +
      'In-place arithmetic on a map or b+tree value may grow it by its digits without a check.')
    P('E06', 'Storage commands do what their names say',
      'Set always stores; add stores only where the key is absent; replace, append and prepend only where it is present; '
      'cas only where the CAS number matches, distinguishing absent from changed; delete removes exactly the item found, '
      'and only under a matching or no CAS number. Append and prepend keep the flags and expiry of the stored item and join '
      'the values in order. Incr and decr add or (saturating at zero) subtract on a decimal value, keep its attributes, and '
      'create it only where asked.',
      ['inputs', 'histories'], 'every path from lookup to result of item_store, item_delete and item_arithmetic',
      'The semantics is a product of operation, presence, type, CAS number and sizes; unit tests sample a few rows of that table.',
      [D + 'items.c'],
      [('store', D + 'items.c do_item_store_set, _add, _replace, _cas, _attach'), ('arithmetic', D + 'items.c do_add_delta, item_arithmetic'),
       ('delete', D + 'items.c item_delete')],
      PATHFLOW + 'each path is compared with the decision table of its command', SOUND)
    P('E08', 'A command that fails changes nothing',
      'An operation on items or collections that reports failure (except replayed log records) has left items, elements and '
      'attributes as they were: a collection item created on the way is removed again, no element was added, removed or '
      'replaced, and no attribute set. The created flag is reported exactly when the command left a new collection item.',
      ['inputs', 'failures'], 'every item and collection operation, every path including allocation failures',
      'Half-done changes need memory to run out, an overflow, or an invalid argument at a particular step of a multi-step operation.',
      [D + x for x in ('coll_list.c', 'coll_set.c', 'coll_map.c', 'coll_btree.c', 'items.c')],
      [('create and insert', D + 'coll_*.c *_elem_insert'), ('attributes', D + 'items.c item_setattr'), ('store', D + 'items.c item_store')],
      PATHFLOW + 'every path carries the set of changes it made; callees by induction on their result code', SOUND +
      'A refused out-of-range b+tree element may mark the collection as trimmed. Multi-element deletes that report a positive '
      'count are trusted to have done what they count.')
    P('E09', 'An emptied collection is dropped exactly when asked',
      'A delete, get-with-delete or pop removes the collection item only when the request asks for dropping it and the '
      'removal left it without elements; in that case always; and it reports dropped exactly then.',
      ['inputs', 'histories'], 'every element operation with a drop option, all paths',
      'The drop needs the last element to go under a specific option; clients rely on the answer to know whether to recreate it.',
      [D + x for x in ('coll_list.c', 'coll_set.c', 'coll_map.c', 'coll_btree.c')],
      [('drop', D + 'coll_*.c *_elem_delete, *_elem_get')],
      PATHFLOW + 'each unlink of a collection needs the asked and empty facts, each success the matching flag', SOUND)
    P('E10', 'A live item stays until it expires, is flushed or makes room',
      'An item is called invalid only when its expiration time is set and reached, or a flush whose mark lies at or after its last store '
      'and is due covers it, its prefix or an enclosing one; a flush marks the second before it, or before the moment asked for. The '
      'expiration time a client gives is the one the item gets: none for 0, sticky for -1, the past for any other negative number, '
      'otherwise that many seconds from now up to 30 days and beyond that the point in time itself; the engine is given nothing else. '
      'An item is evicted only where eviction is enabled and memory was found short, with nobody holding it (or left alone for three '
      'hours), reached from the old end of the list of ordinary items, where sticky items never are and new ones enter at the other end.',
      ['inputs', 'histories'], 'every way to call an item invalid, to set a flush mark or an expiration time, and to evict, all paths',
      'Losing a live item early shows only with one combination of clock, expiry, flush and memory pressure, and looks like a miss.',
      [D + 'item_base.c', D + 'items.c', D + 'prefix.c', 'memcached.c'],
      [('expiry', 'memcached.c realtime, users of exptime'), ('validity', D + 'item_base.c do_item_isvalid, prefix_isvalid'),
       ('flush', D + 'items.c do_item_flush_expired'), ('eviction', D + 'item_base.c do_item_mem_alloc, do_item_regain, item_link_q')],
      PATHFLOW + 'the exits of the predicates, the values stored and handed on, and what is known about an item where it is evicted', SOUND +
      'Trimming of full collections belongs to E04, deletion on request to E06 and E09. That the clock runs is taken for granted.')
    P('E11', 'A configuration change takes effect exactly as answered',
      'A config command answered END has put the value it gave (for a collection size limit: the documented maximum where it asks for '
      'more) into force in the engine and in the settings of the server, inside the limits of that setting: memlimit not below the '
      'sticky limit and accepted by the allocator, sticky_limit between the sticky bytes in use and memlimit, collection sizes only '
      'growing and at most 1000000, max_element_bytes 1024 to 32768, scrub_count 16 to 320, chkpt_interval_pct_snapshot 1 to 1000. One '
      'answered with an error has changed neither. The query of a setting answers the value in force.',
      ['inputs', 'histories'], 'every key of set_config and get_config of the engine (with and without persistence) and every handler of '
      'the config command, all paths',
      'The engine and the server keep a copy each, passed by untyped pointer; that they differ shows only in a later request that '
      'meets the limit.',
      [D + 'default_engine.c', 'memcached.c'],
      [('engine', 'default_set_config, default_get_config'), ('server', 'process_config_command and its handlers, settings_reload_engine_config')],
      PATHFLOW + 'paths split by the key compared; per key the field, width, scale and limits of the store in the engine, checked '
      'against the variable, setting and answer of the handler for that key', SOUND +
      'Settings of the ZooKeeper integration are left out, and so are the limits of maxconns.')
    P('D01', 'Every change is logged, and only changes',
      'With persistence on, every change of items, elements and attributes is written to the command log as the change it is: an element '
      'or item linked, unlinked, replaced or changed in place has its record made, of that element or item, with the place, count, '
      'direction and range it was done with, in its final state and before it is freed; there is no record without its change, and no '
      'change is left out because it was labelled as trimming, as part of the removal of its collection or as expiry when it was not '
      'one. A change that a client asks for lies between the begin and the end of a logged request of the right kind, and a change to '
      'what a running checkpoint has passed already goes to the log of that checkpoint too.',
      ['inputs', 'histories', 'crash_points'], 'every function of the items and the four collections that changes something, every '
      'record function, every request that changes something, all paths with persistence compiled in and on',
      'The tested build has no persistence at all; a change without its record shows only after a crash, as lost or resurrected data.',
      [D + x for x in ('coll_list.c', 'coll_set.c', 'coll_map.c', 'coll_btree.c', 'items.c', 'item_base.c', 'item_clog.c', 'cmdlogmgr.c')],
      [('calls', D + 'item_clog.h CLOG_*'), ('dispatch', D + 'item_clog.c CLOG_GE_*'), ('records', D + 'cmdlogmgr.c cmdlog_generate_*'),
       ('requests', 'PERSISTENCE_ACTION_BEGIN, PERSISTENCE_ACTION_END')],
      PATHFLOW + 'obligations of change and record matched per element and item, bottom up over the call graph; what a function leaves '
      'to its callers (bracket of several removals, logical record, cause, request) is an obligation of every caller', SOUND +
      'That a record, once handed to the log buffer, reaches the disk, and that replaying the records gives the same state, are outside.')
    P('D02', 'A synchronous write is answered only after its records are on disk',
      'With synchronous logging a request that changed something is answered as done only when the whole of its last log record has been '
      'written to the log file and forced to disk; until then it waits, in order, and what it waits for is asked to be written. The mark '
      'up to which the log is on disk moves only after every file that got the records was forced to disk without an error, and only to '
      'where the log had been written before. No record is put over records not yet written, and none is left out of the log of a '
      'running checkpoint it belongs to.',
      ['schedules', 'crash_points', 'failures'], 'every function between the log buffer and the answer: buffer, flush, sync, waiting list, all '
      'paths and orders of the threads that the locks allow',
      'No test runs with persistence; an answer given too early shows only when the machine stops in the moment between.',
      [D + x for x in ('cmdlogbuf.c', 'cmdlogfile.c', 'cmdlogmgr.c')],
      [('buffer', D + 'cmdlogbuf.c do_log_buff_write, do_log_buff_flush'), ('files', D + 'cmdlogfile.c cmdlog_file_write, cmdlog_file_sync'),
       ('waiting', D + 'cmdlogmgr.c cmdlog_waiter_begin, cmdlog_waiter_end, do_cmdlog_gcommit_thread_main')],
      PATHFLOW + 'each of the functions the records pass has an obligation (position of the last byte, amount asked, written, synced, compared) '
      'that the next one relies on; symbolic sums and the order of log positions', SOUND +
      'The locks of the buffer and the marks are checked under C01; that fsync puts data on disk is assumed.')
    P('D03', 'A checkpoint replaces the previous one only when it is complete on disk',
      'A checkpoint becomes the one to recover from only when its snapshot holds everything the scan of the items yielded and its end mark, '
      'all written and forced to disk without an error, and its own log was open while it was taken. The files of the checkpoint before '
      'it are removed only then and only after the log has stopped writing to them; a checkpoint that fails leaves the last complete one '
      'and its files alone, and its own log is closed again. Recovery takes the last snapshot that has its end mark, applies all of it and then '
      'the log of the same checkpoint, and the server does not start when any of this fails.',
      ['crash_points', 'failures', 'schedules'], 'every function from the snapshot buffer to the choice of the files for recovery, all paths and failures',
      'No test runs with persistence; a disk that fills up, a failing fsync or a crash between two checkpoints is nothing a test produces.',
      [D + x for x in ('checkpoint.c', 'chkpt_snapshot.c', 'cmdlogfile.c', 'cmdlogmgr.c', 'cmdlogrec.c')],
      [('checkpoint', D + 'checkpoint.c do_checkpoint, chkpt_thread_main, do_chkpt_sweep_files'),
       ('snapshot', D + 'chkpt_snapshot.c do_snapshot_action, do_snapshot_data_dump, do_snapshot_data_done, do_snapshot_buffer_flush'),
       ('recovery', D + 'checkpoint.c chkpt_recovery_analysis, chkpt_recovery_redo, chkpt_snapshot.c chkpt_snapshot_file_apply')],
      PATHFLOW + 'typestate of what each call is known to have reported; each of seventeen functions has an obligation the next one relies on', SOUND +
      'That a log or snapshot record restores what it describes is D01, what happens to the command log D02 and D04.')
    P('D04', 'Recovery replays only whole records and whole operations, and leaves the log ending behind the last of them',
      'After a crash the log is replayed from its start: every complete record once and in order; the records of an operation only when '
      'its end is in the log too, and then all of them; nothing of a record or operation that was not written completely. Recovery counts '
      'as successful only when no complete record is left over, and then the log is cut off behind the last complete record or operation '
      'so that new records follow it directly. Running out of memory is a failure. A log of any size is handled.',
      ['crash_points', 'inputs'], 'the replay of the command log and of the operations in it, all paths, for every place where the log may end',
      'No test runs with persistence, and a log torn at a particular byte is not something ordinary use produces.',
      [D + 'cmdlogfile.c'],
      [('replay', D + 'cmdlogfile.c cmdlog_file_apply'), ('operations', D + 'cmdlogfile.c do_redo_pending_lrec')],
      PATHFLOW + 'the positions are followed as symbolic sums over the rounds of the loops (where the record looked at begins, where the '
      'open operation begins), and reads, replays, the cut and the result are compared with them', SOUND +
      'That the replay of one record restores what it describes is D01; what lies in the file is assumed to be what was written.')
    P('E13', 'One key names one item',
      'The hash table never holds two items of one key: a new item is linked only where, since the cache lock was taken, a '
      'lookup of its key found nothing or the item found was unlinked; an item is replaced only by one of the same key.',
      ['inputs', 'schedules'], 'every call that links or replaces an item, all paths',
      'A second item of one key appears only in one order of two concurrent requests or one combination of create and expiry; '
      'afterwards deletes and reads disagree.',
      [D + x for x in ('coll_list.c', 'coll_set.c', 'coll_map.c', 'coll_btree.c', 'items.c')],
      [('link', D + 'item_base.c do_item_link, do_item_replace')],
      PATHFLOW + 'typestate of each key (found, absent) since the lock was taken', SOUND +
      'Log replay runs before the server accepts requests and is covered alike.')
    P('E14', 'An item in the hash table is found by its key, even while the table grows',
      'The chain of an item is chosen by its hash alone: the bucket by the low bits, the table by the bits above under the mask of after '
      'the growth where the chain has been redistributed, and of before it where it has not. A lookup goes through the whole chain, '
      'finds an item only by length and bytes of its key and changes nothing; insertion puts the item first and keeps the rest; deletion '
      'and replacement take exactly the item asked for and keep the rest; the number of items follows. Redistribution looks at every item '
      'of a chain, leaves it or moves it to the chain its hash selects from now on, moves its marks on only past finished chains, never '
      'past the tables of before, and leaves a chain alone that a scan is in. Growth starts only when none is under way, with as many new '
      'empty tables as there were and room to name them, and with sizes, masks and marks that belong together.',
      ['inputs', 'histories'], 'all paths through insertion, lookup, replacement, deletion, redistribution and growth of the hash table',
      'A growth begins at 98304 items and takes 16384 or more insertions; an item that is in the wrong chain meanwhile shows as a miss of '
      'that one key, or as two items of one key.',
      [D + 'assoc.c'],
      [('chain choice', D + 'assoc.c CUR_HASH_TABIDX'), ('lookup', D + 'assoc.c assoc_find, _hashitem_before'),
       ('redistribution', D + 'assoc.c redistribute'), ('growth', D + 'assoc.c assoc_expand')],
      PATHFLOW + 'the address of every chain cell read or written, as a term of hash, masks and marks, and the comparisons the path has '
      'made on them', SOUND +
      'That the hash of a key is a function of the key, and that the masks are those of powers of two when the table is set up, is taken '
      'for granted; so is that an item to be replaced is in the table (E13). The locking is C02.')
    P('E15', 'A scan of the table hands out every item it comes to and knows what it has passed',
      'A scan begins before the first chain whatever its memory held. It leaves a chain only at the end, looks behind an item only after '
      'handing it out, and where it stops inside a chain it marks the place behind the last item handed out; the mark is taken out again '
      'when it goes on or ends, and no chain is changed otherwise. It holds each bucket, so that growth leaves it alone, from before its '
      'first chain until after its last, and lets it go when it ends early. An item is said to be passed exactly when the scan has left '
      'its bucket, has left its chain in the bucket, or stands in its chain with the mark behind the item.',
      ['inputs', 'schedules', 'histories'], 'all paths through the beginning, each step, the end and the questions of a scan',
      'The checkpoint logs a change again exactly when the item counts as passed: an answer wrong for one item at one moment loses that '
      'change, or makes it twice, at the recovery after a crash.',
      [D + 'assoc.c'],
      [('begin, step, end', D + 'assoc.c assoc_scan_init, assoc_scan_next, assoc_scan_final'),
       ('passed', D + 'assoc.c assoc_scan_in_visited_area')],
      PATHFLOW + 'position, mark and hold of the scan, the item the path is at and what it has done with it, and the comparisons before each '
      'answer', SOUND +
      'That every change is logged is D01; the number of items a step may hand out is not judged, nor the stateless scan command.')
    M = 'memcached.c'
    P('P02', 'Each result of the engine has one answer',
      'The answer to a data command tells what the engine reported for it: stored, created, deleted, dropped, found or replaced as the '
      'engine said, and for every failure (missing key or element, wrong type, overflow, out of range, mismatched bkey or eflag, '
      'unreadable, bad value, no memory) the reply or binary status of that failure and no other; an internal error only where the '
      'engine reported none of these.',
      ['inputs', 'failures'], 'every handler that calls the engine (ASCII and binary), every result code of every call, all paths',
      'The table of commands and result codes has over two thousand cells; tests reach the common ones, and most failures of '
      'binary collection commands have no test at all.',
      [M],
      [('ascii', M + ' process_*_command, process_*_complete'), ('binary', M + ' process_bin_*')],
      PATHFLOW + 'one state per result code after each engine call; the replies queued are compared with the table of the protocol', SOUND +
      'The text of values, and where more than one reply is admitted for a code, which of them, are not decided.')
    P('P11', 'What cannot be read as an argument is refused before anything happens',
      'A number, bkey, eflag, filter, range or attribute of an ASCII command that cannot be read (no number, something behind it, a '
      'minus where there is no sign, beyond the range of its type) is answered as an error of the client, and neither the engine nor a '
      'setting of the server has seen the command by then; the conversions succeed only for a complete decimal number their type holds, '
      'and hand back that number.',
      ['inputs'], 'every function of the protocol that converts an argument, and the conversions, all paths',
      'Each of some hundred conversions has its own check; one left out or joined by the wrong operator is seen only with that argument '
      'malformed and the others well formed, and the command then works on a leftover value.',
      [M, 'util.c'],
      [('arguments', M + ' process_*_command, get_*_from_*'), ('conversions', 'util.c safe_strto*')],
      PATHFLOW + 'typestate of each conversion (open, succeeded, failed) up to the engine call, the setting or the reply', SOUND +
      'Whether the argument is sensible beyond being readable belongs to the engine. An unsigned number below minus 2^63 wraps as in '
      'strtoull, and hexadecimal bkeys are bounded by M02.')
    P('P03', 'Each command is counted as what it did',
      'The server counts every data command that reached the engine exactly once under its own cmd_ counter, and its outcome under the one counter that '
      'outcome has (hits, misses, element hits, none hits, oks, badval), never as the opposite or as another command; the counters '
      'of the prefix and of the top keys follow the same outcome.',
      ['inputs', 'failures'], 'every handler that calls the engine, every result code, all paths',
      'Hit ratios are what operators act on; a counter raised on one failure path only, or under the neighbouring name, shows in no reply.',
      [M, 'stats_prefix.c', 'topkeys.h'],
      [('counters', M + ' STATS_* in the handlers'), ('prefix', M + ' stats_prefix_record_*')],
      PATHFLOW + 'one state per result code after each engine call; the counters raised are compared with the outcome', SOUND +
      'The element hit of a reply that failed for lack of memory is not decided.')
    P('S01', 'Statistics show what was counted',
      'Every counter of every worker thread is added to the same counter of the total, cleared by a reset, and shown under its own name; '
      'every recorded request raises exactly its own figure of the prefix (and its hit figure exactly on a hit); the dump of the '
      'prefixes shows every figure behind its own keyword within the buffer reserved for it; item figures are shown under their own '
      'names.',
      ['inputs', 'histories'], 'all counters of a thread, all recording functions, all keywords and names',
      'Over a hundred counters are copied by hand through four places; a test would have to raise each of them in several threads.',
      ['thread.c', M, 'stats_prefix.c', 'topkeys.c', D + 'item_base.c'],
      [('threads', 'thread.c threadlocal_stats_*'), ('shown', M + ' server_stats'), ('prefixes', 'stats_prefix.c'), ('items', D + 'item_base.c do_item_stat_get')],
      'dataflow: each stored or printed value is traced to the field it came from and compared with the field or name it goes to', SOUND)
    P('M01', 'What is written into a fixed-size buffer fits it',
      'Whatever a request, a file or the network supplies, every copy, formatted print, read and indexed store into an array of fixed '
      'size (local, static, or inside a structure) and into the write buffer of a connection stays within it; the lengths of bkeys, '
      'eflags and filters kept in elements, connections and ranges never exceed what every later copy of them relies on.',
      ['inputs', 'failures'], 'every write to a fixed-size buffer in server and engine, all paths',
      'An overflow needs one particular length, count or repetition, often just past a limit; until then every test passes.',
      [M, 'cmdlog.c', 'lqdetect.c', 'topkeys.c', 'stats_prefix.c', D + 'coll_btree.c', D + 'items.c', D + 'prefix.c'],
      [('answers', M + ' write buffer, sprintf of replies'), ('bkeys', D + 'coll_btree.c BKEY_*'), ('pipes', M + ' pipe_response_save')],
      PATHFLOW + 'interval and linear-sum bounds of offset + length against the size, with longest-text bounds of printf formats', SOUND +
      'Buffers whose size is computed at run time (result arrays and response buffers) are not decided here. Node arrays of trees and hash tables, '
      'slab class tables and a few sites bounded by an invariant (listed as EXEMPT in lib/room.py) are left out.')
    P('M02', 'B+tree arguments of a request are checked before use',
      'A bkey range, eflag filter or eflag update from a request is handed to the engine, or kept for it, only with bkey and eflag '
      'lengths within their fields, filter offset + length within an eflag, bitwise operand no longer than the compared part, known operator '
      'codes and at most the allowed compare values; requests over several keys only with key and element counts (for smget offset + '
      'count) within their limits.',
      ['inputs'], 'every engine call of the b+tree interface and every copy of such arguments out of a request, all paths',
      'In the binary protocol these bytes come as the client wrote them; only a malformed request shows a missing check.',
      [M],
      [('binary', M + ' process_bin_bop_*'), ('ascii', M + ' get_efilter_from_tokens, process_bop_command')],
      PATHFLOW + 'range and relation facts about the members of each argument at the point it is handed on', SOUND)
    P('M03', 'Result arrays have room for every result',
      'A function of the storage engine that fills an array with elements never writes more of them than the count it was asked for, and '
      'the array was made for at least that many; where a count of 0 asks for all elements, the array was made for as many as the '
      'collection has.',
      ['histories', 'inputs'], 'every function filling a result array and every engine operation making one, all paths and loop rounds',
      'Whether the last write is one too many depends on how elements are spread over nodes and hash chains and on the count asked for; '
      'a write past the array usually shows nowhere at once.',
      ['engines/default/coll_list.c', 'engines/default/coll_set.c', 'engines/default/coll_map.c', 'engines/default/coll_btree.c'],
      [('fill', 'do_list_elem_get, do_set_elem_get, do_map_elem_get, do_btree_elem_get, do_btree_elem_get_by_posi, '
                'do_btree_posi_find_with_get and the traversals below them'),
       ('made', 'list_elem_get, set_elem_get, map_elem_get, btree_elem_get, btree_elem_get_by_posi, btree_posi_find_with_get')],
      'abstract interpretation with a zone domain (differences of SSA values and of sums of two) proving loop invariants such as found < '
      'count; structural comparison of the size asked of malloc with the count handed on',
      'Integers are taken as unbounded (counts are limited to far below 2^31 at the protocol level, see M02). That a collection holds no '
      'more elements than its ccnt says is E01. In do_map_elem_get with a list of fields, one place per field is proven. The arrays of '
      'smget and of mop/sop responses made in memcached.c are not decided here.')
