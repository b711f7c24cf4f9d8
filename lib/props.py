"""Single source of properties.jsonl and MANIFEST.json (run: python3 lib/props.py)."""
import json
import os

PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    PROPS.append((d, technique, note, na))


LOCKSET = ('interprocedural lockset dataflow over LLVM IR: every function analysed path-sensitively for every '
           'calling context (held-lock set, branch-deciding constant arguments) from every thread entry point')
SOUND = ('Covers every function, path and calling context of the analysed configurations; locks are identified by the '
         'field that holds them; loops are folded, so it over-approximates paths. ')

D = 'engines/default/'
P('C01', 'The cache lock protects all shared cache state',
  'Every access a request, a background scan, an expiration or a collection-deletion thread makes to an item, a '
  'collection element, a prefix, the hash index, the LRU lists or the engine counters happens inside the single cache '
  'critical section. No request can therefore observe or leave behind a half-updated item, index or list, however '
  'threads interleave.',
  ['schedules'], 'all interleavings of worker, scrubber, dumper, collection-delete, checkpoint and snapshot threads',
  'The tests run one client at a time, so a missing lock acquisition is invisible to them; a race needs a particular '
  'interleaving, while the lock set of an access is a fact of the source.',
  [D + 'items.c', D + 'item_base.c', D + 'coll_list.c', D + 'coll_set.c', D + 'coll_map.c', D + 'coll_btree.c',
   D + 'assoc.c', D + 'prefix.c', D + 'default_engine.c'],
  [('cache lock', D + 'item_base.c LOCK_CACHE/UNLOCK_CACHE/TRYLOCK_CACHE'), ('public engine operations', D + 'items.c')],
  LOCKSET + ', checked against a frozen guarded-by table (172 fields)',
  SOUND + 'Reads the base tree makes without the lock are frozen as single (function, field) exceptions.')

P('C02', 'Every lock taken is released exactly once on every path',
  'Whatever a request, administrative command or background thread does, and whichever error path it takes, it '
  'releases every internal lock it acquired exactly once, and never re-acquires a lock it already holds. No input can '
  'therefore leave the server hung on a lock that is never released.',
  ['inputs', 'schedules', 'fault_sequences'], 'all paths of all functions, including allocation and I/O failure paths',
  'Tests cannot make every allocation, file or thread-creation call fail, and an early return that keeps a lock held '
  'only shows when the next operation hangs.',
  ['memcached.c', 'thread.c', D + 'items.c', D + 'cmdlogbuf.c', D + 'chkpt_snapshot.c', 'arcus_zk.c'],
  [('mutex wrappers', D + 'item_base.c'), ('settings/stats locks', 'mc_util.c, thread.c, memcached.c')],
  LOCKSET + '; exit lockset must equal entry lockset',
  SOUND + 'Lock wrappers are recognised by name and their effect is carried into callers.')

P('C03', 'Internal locks are acquired in one global order (no deadlock)',
  'There is an order of all internal locks such that every thread that needs several acquires them in that order. No '
  'combination of concurrent requests, administrative commands and background work can deadlock the server.',
  ['schedules'], 'all interleavings of all threads',
  'A lock-order inversion deadlocks only when two threads hit two windows at once; tests are sequential.',
  ['memcached.c', 'thread.c', 'topkeys.c', 'cmdlog.c', 'lqdetect.c', D + 'slabs.c', D + 'item_base.c', D + 'cmdlogbuf.c',
   D + 'cmdlogfile.c', D + 'checkpoint.c', D + 'chkpt_snapshot.c', 'arcus_zk.c', 'cluster_config.c'],
  [('nested acquisitions', 'setting->cache->slabs->collection-delete; log flush->write->file->lsn; zk->cluster config')],
  LOCKSET + '; cycle search in the nested-acquisition graph',
  SOUND + 'Different instances of the same lock field are one node.')

P('C04', "Each module's own lock protects that module's shared state",
  'Shared state outside the cache proper - slab allocator, per-thread and per-prefix counters, top-key and long-query '
  'trackers, command log, connection hand-off queues, worker wake-up lists, log buffers, log files, snapshot control '
  'and cluster configuration - is only accessed while holding the lock of its module. Concurrent requests can neither '
  'corrupt it nor lose updates to it.',
  ['schedules'], 'all interleavings of all threads',
  'Lost updates and torn lists need overlapping threads; unit tests exercise these modules from a single thread.',
  ['thread.c', 'stats_prefix.c', 'topkeys.c', 'lqdetect.c', 'cmdlog.c', 'cache.c', D + 'slabs.c', D + 'cmdlogbuf.c',
   D + 'cmdlogfile.c', D + 'cmdlogmgr.c', D + 'chkpt_snapshot.c', 'arcus_hb.c', 'arcus_zk.c', 'cluster_config.c'],
  [('module locks', 'slabs.lock, stats_lock, per-thread stats mutex, conn_queue lock, log_write_lock, ...')],
  LOCKSET + ', checked against a frozen guarded-by table of 30 locks',
  SOUND + 'State that the base tree does not consistently lock is left out and listed in lib/guards.json.')

P('C06', 'Nothing blocks while the cache lock is held',
  'No thread sleeps, waits for a condition, waits for the network, joins a thread or forces data to disk while it '
  'holds the lock that every request needs. A slow disk, peer or background job can therefore not stall all clients.',
  ['schedules', 'fault_sequences'], 'all paths that hold the cache lock',
  'Stalls depend on disk and network timing the tests do not produce; the call graph under the lock is a static fact.',
  [D + 'items.c', D + 'item_base.c', D + 'cmdlogmgr.c', D + 'cmdlogbuf.c', 'thread.c'],
  [('bounded critical sections', D + 'item_base.c LOCK_CACHE')],
  LOCKSET + '; reachability of a fixed list of blocking calls under the lock',
  SOUND + 'The list of blocking library calls is fixed; plain buffered file writes are permitted.')

# ---------------------------------------------------------------------------------------------------------------
NUM = 'Depends on run-time numeric values and data-structure contents that no sound static argument in reach bounds; '


def NA(id, title, statement, over, qtext, why, files, mech, reason):
    P(id, title, statement, over, qtext, why, files, mech, na=reason)


NA('N01', 'Reads return exactly the last written value',
   'A get, gets or element read returns exactly the bytes, flags and CAS of the latest completed write to that key.',
   ['inputs', 'histories', 'schedules'], 'all operation histories', 'Tests sample short sequential histories.',
   [D + 'items.c', 'memcached.c'], [('hash lookup', D + 'assoc.c')],
   'Functional equality of stored and returned bytes over all histories needs a heap-content argument; the parts a static '
   'rule can carry (lookup validity filter, type check, locking, reference counts) are claimed separately.')
NA('N02', 'Concurrent operations are linearizable',
   'Concurrent operations on a key behave as if executed one at a time in some order consistent with real time.',
   ['schedules', 'histories'], 'all concurrent histories', 'Tests are sequential.', [D + 'items.c'],
   [('cache lock', D + 'item_base.c')],
   'Linearizability quantifies over histories of abstract values; only its locking premise (C01-C03) is static.')
NA('N03', 'B+tree elements are kept and returned in bkey order',
   'Range, position and count queries on a b+tree agree with the sorted sequence of its bkeys.',
   ['inputs', 'histories'], 'all insert/delete histories', 'Tests sample key sets.', [D + 'coll_btree.c'],
   [('node split/merge', D + 'coll_btree.c')], NUM + 'order and position arithmetic of a balanced tree is a heap-shape proof.')
NA('N04', 'Multi-key sorted merge returns the right window',
   'A sorted-merge get returns exactly the elements a global sort of all ranges would place in the window.',
   ['inputs'], 'all key/range combinations', 'Tests sample.', [D + 'coll_btree.c'], [('smget', D + 'coll_btree.c')],
   NUM + 'merge correctness is a functional property of sorted data.')
NA('N05', 'Memory use stays within the configured limit',
   'Total item memory never exceeds the configured maximum by more than the documented reserve.',
   ['histories'], 'all allocation histories', 'Tests use tiny data.', [D + 'slabs.c'], [('memory limit', D + 'slabs.c')],
   NUM + 'the bound is a sum over a whole allocation history.')
NA('N06', 'Eviction removes the least recently used items first',
   'When memory is short, items evicted are the approximately least recently used ones of the right class.',
   ['histories'], 'all access histories', 'Timing dependent.', [D + 'item_base.c'], [('LRU', D + 'item_base.c')],
   NUM + 'recency is a property of time-ordered histories.')
NA('N07', 'Recovery reproduces exactly the acknowledged state',
   'After a crash and restart the recovered cache equals the state produced by all acknowledged writes.',
   ['crash_points', 'histories'], 'all crash points', 'Tests never crash the server; persistence is off in the tested build.',
   [D + 'checkpoint.c', D + 'cmdlogfile.c'], [('redo', D + 'cmdlogrec.c')],
   'Equality of recovered and logged contents is a functional round-trip property; its premise that every change is logged as '
   'what it is is claimed as D01.')
NA('N08', 'Key-to-node mapping matches the client ketama ring',
   'A key belongs to this node exactly when the published consistent-hash ring says so.',
   ['inputs', 'configurations'], 'all keys and node lists', 'Needs a cluster.', ['cluster_config.c'],
   [('continuum', 'cluster_config.c')], NUM + 'MD5 point placement and search is numeric.')
NA('N09', 'Arithmetic results wrap and clamp as documented',
   'incr/decr compute modulo 2^64 upwards and clamp at zero downwards for every stored number and delta.',
   ['inputs'], 'all numbers', 'Tests sample.', [D + 'items.c'], [('arithmetic', D + 'items.c')],
   NUM + 'the statement is an equation between machine integers and decimal strings.')


import props2
props2.add(P, D, SOUND)


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    import sys
    sys.path.insert(0, here)
    from checks import REGISTRY
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for d, t, n, na in PROPS:
            f.write(json.dumps(d) + '\n')
    m = dict(version=1, setup_cmd='python3 lib/prog.py eng srv flat ops ans dur utl tab', checks=[], not_applicable=[])
    for d, t, n, na in PROPS:
        if na:
            m['not_applicable'].append(dict(property=d['id'], reason=na))
        else:
            assert d['id'] in REGISTRY, d['id']
            m['checks'].append(dict(property=d['id'], quick_cmd='python3 check.py %s --tier quick' % d['id'],
                                    thorough_cmd='python3 check.py %s --tier thorough' % d['id'],
                                    technique='static analysis: ' + t, level='other', level_note=n))
    ids = [d['id'] for d, t, n, na in PROPS]
    assert len(ids) == len(set(ids))
    miss = set(REGISTRY) - set(ids)
    if miss:
        print('registered but not described:', sorted(miss))
    json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
    import design
    design.write(here, PROPS)
    print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not applicable')


if __name__ == '__main__':
    main()
