"""Which lock guards which shared state.  The table names state by struct (every field) or field; the
exceptions (functions that may touch a field without its lock: start-up code, and deliberate unlocked
reads) are frozen in guards.json by `python3 lib/guardspec.py` and were reviewed by hand."""
import json
import re
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))

CACHE = 'default_engine.cache_lock'
ENGC = ('eng', 'srv')
PERC = ('per', 'srv')
ZKC = ('zk',)
# property, lock, configurations, state
SPEC = [
    ('C01', CACHE, [ENGC, PERC], [
        '_hash_item', '_coll_meta_info', '_list_meta_info', '_set_meta_info', '_map_meta_info',
        '_btree_meta_info', '_list_elem_item', '_set_elem_item', '_map_elem_item', '_btree_elem_item',
        '_set_hash_node', '_map_hash_node', '_btree_indx_node', '_prefix_t', 'prefix', 'assoc', 'assoc_scan',
        'table', 'bucket_info', 'items', 'itemstats_t', 'engine_stats', 'engine_config.oldest_live',
        'engine_config.sticky_limit', 'engine_config.maxbytes', 'engine_config.max_list_size',
        'engine_config.max_set_size', 'engine_config.max_map_size', 'engine_config.max_btree_size',
        'engine_config.verbose', 'engine_config.evict_to_free', 'engine_config.max_element_bytes',
        'engine_config.scrub_count', 'G:get_cas_id.cas_id', 'G:do_item_flush_expired.fplog_stime',
        'G:do_item_flush_expired.fplog_count']),
    ('C04', 'slabs.lock', [ENGC, PERC], ['_sm_anchor', '_sm_blck', '_sm_blist', '_sm_slist', '_sm_slot',
                                         '_sm_tail', 'slabclass_t', 'slabs']),
    ('C04', 'G:stats_lock', [ENGC], ['G:prefix_stats', 'G:num_prefixes', 'G:total_prefix_size',
                                    '_prefix_stats', 'mc_stats.conn_structs', 'mc_stats.curr_conns',
                                    'mc_stats.rejected_conns', 'mc_stats.daemon_conns',
                                    'mc_stats.quit_conns', 'mc_stats.total_conns']),
    ('C04', 'thread_stats.mutex', [ENGC], ['thread_stats']),
    ('C04', 'topkeys.mutex', [ENGC], ['topkeys.nkeys', 'dlist', 'topkey_item']),
    ('C04', 'LIBEVENT_THREAD.mutex', [ENGC], ['LIBEVENT_THREAD.is_locked', 'LIBEVENT_THREAD.pending_io',
                                             'conn.io_blocked', 'conn.current_io_wait',
                                             'conn.premature_io_complete', 'conn.aiostat']),
    ('C04', 'conn_queue.lock', [ENGC], ['conn_queue']),
    ('C04', 'G:cqi_freelist_lock', [ENGC], ['G:cqi_freelist']),
    ('C04', 'G:coll_del_lock', [ENGC, PERC], ['item_queue', 'G:coll_del_sleep']),
    ('C04', 'engine_scrubber.lock', [ENGC], ['engine_scrubber.running', 'engine_scrubber.enabled',
                                            'engine_scrubber.restart', 'engine_scrubber.runmode',
                                            'engine_scrubber.started', 'engine_scrubber.stopped']),
    ('C04', 'engine_dumper.lock', [ENGC], ['engine_dumper.running', 'engine_dumper.stop', 'engine_dumper.mode',
                                          'engine_dumper.nprefix', 'engine_dumper.prefix',
                                          'engine_dumper.started']),
    ('C04', 'lq_detect_global.lock', [ENGC], ['G:lqdetect_in_use', 'lq_detect_buffer', 'lq_detect_global',
                                             'lq_detect_stats']),
    ('C04', 'cmd_log_global.lock', [ENGC], ['G:cmdlog_in_use', 'cmd_log_stats.state', 'cmd_log_stats.bgntime',
                                           'cmd_log_buffer.data']),
    ('C04', 'cmd_log_buffer.lock', [ENGC], ['cmd_log_buffer.head', 'cmd_log_buffer.tail', 'cmd_log_buffer.last',
                                           'cmd_log_stats.entered_commands', 'cmd_log_stats.skipped_commands']),
    ('C04', 'cmd_log_flush.lock', [ENGC], ['cmd_log_flush.sleep']),
    ('C04', 'cache_t.mutex', [ENGC], ['cache_t.freecurr', 'cache_t.freetotal', 'cache_t.ptr']),
    ('C04', 'G:shutdown_lock', [ENGC], ['G:memcached_shutdown']),
    ('C04', 'G:setting_lock', [ENGC], ['settings.max_stats_prefixes', 'engine_config.sticky_limit',
                                      'engine_config.maxbytes', 'engine_config.max_list_size',
                                      'engine_config.max_set_size', 'engine_config.max_map_size',
                                      'engine_config.max_btree_size']),
    ('C04', '_chkpt_st.lock', [PERC], ['_chkpt_st.sleep']),
    ('C04', '_group_commit.lock', [PERC], ['_group_commit', '_log_waiter.wait_next']),
    ('C04', '_waiter_info.waiter_lock', [PERC], ['_waiter_info', '_waiter_chunk', '_log_waiter.free_next']),
    ('C04', 'log_buff_global.log_write_lock', [PERC], ['_log_buffer', '_log_freq',
                                                      'log_buff_global.nxt_write_lsn']),
    ('C04', 'log_buff_global.flush_lsn_lock', [PERC], ['log_buff_global.nxt_flush_lsn']),
    ('C04', 'log_file_global.file_access_lock', [PERC], ['_log_file']),
    ('C04', '_log_flusher.lock', [PERC], ['_log_flusher.sleep']),
    ('C04', '_snapshot_st.lock', [PERC], ['_snapshot_st.running', '_snapshot_st.reqstop', '_snapshot_st.mode',
                                         '_snapshot_st.started']),
    ('C04', 'G:hb_thread_lock', [ZKC], ['G:hb_thread_sleep']),
    ('C04', 'hb_config_t.lock', [ZKC], ['hb_config_t']),
    ('C04', 'arcus_zk_config.lock', [ZKC], ['arcus_zk_config.zk_failstop']),
    ('C04', 'G:azk_mtx', [ZKC], ['G:azk_count']),
    ('C04', 'sm.lock', [ZKC], ['sm_request', 'sm.notification']),
    ('C04', 'G:g_sasltable_lock', [ZKC], ['G:g_sasltable']),
    ('C04', 'cluster_config.ketama_lock', [ZKC], ['cluster_config.continuum', 'cluster_config.num_conts',
                                                 'cluster_config.num_nodes']),
    ('C04', 'G:acl_thread_lock', [ZKC], ['G:acl_thread_stopreq']),
]


def belongs(name, states):
    if name in states:
        return True
    return not name.startswith('G:') and name.split('.')[0] in states


def locks_of(prog_cfg, cap=12):
    import locks
    import prog as P
    return locks.Locks(P.load(*prog_cfg), cap).run()


def null_test(fn, i):
    """The loaded pointer is only compared with null."""
    if i.op != 'load' or i.ty != 'ptr':
        return False
    uses = [j for j in fn.all() if j is not i and ('i', i.id) in set(j.operands())]
    return bool(uses) and all(j.op == 'icmp' and ('c', 0) in (j.a, j.b) for j in uses)


def mine():
    out = {}
    cache = {}
    for prop, lock, cfgs, states in SPEC:
        for cfg in cfgs:
            if cfg not in cache:
                cache[cfg] = locks_of(cfg)
            L = cache[cfg]
            tot = {}
            for f, m in L.accs.items():
                for (n, rw, iid), (i, hs) in m.items():
                    if not belongs(n, states):
                        continue
                    t = tot.setdefault((n, rw), [0, 0, set()])
                    for h in hs:
                        t[1] += 1
                        if lock in h:
                            t[0] += 1
                        else:
                            t[2].add(f + '?' if rw == 'r' and null_test(L.prog.fns[f], i) else f)
            e = out.setdefault(lock, {}).setdefault('+'.join(cfg), {})
            for (n, rw), (k, tt, miss) in tot.items():
                d = e.setdefault(n, {})
                if rw == 'w':
                    d['w'] = sorted(miss) if k * 3 >= tt else None
                else:
                    # settings and run flags are read without the lock by design; any other state only where listed
                    d['r'] = sorted(miss) if k * 2 >= tt or not re.match(r'G:|engine_config\.|settings\.', n) else None
            for n, d in e.items():
                d.setdefault('w', [])
                if 'r' not in d:
                    d['r'] = []
                if d['w'] is None:
                    d['r'] = None
    json.dump(out, open(os.path.join(HERE, 'guards.json'), 'w'), indent=0, sort_keys=True)
    for lock, cs in sorted(out.items()):
        for c, e in cs.items():
            un = sorted(n for n, d in e.items() if d['w'] is None)
            wx = {n.split('.')[-1]: d['w'] for n, d in e.items() if d['w']}
            print(lock, c, 'fields', len(e), 'unenforced', un, 'write exceptions', wx)


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    mine()
