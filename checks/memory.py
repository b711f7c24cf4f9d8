import prog as P

ENGINE = 'engines/default/'


def tables(p):
    """what the two rules rest on: sizes that never change, ranges of members, contracts of functions"""
    T = 'include/memcached/types.h'
    bkey, eflag = P.macro('MAX_BKEY_LENG', T), P.macro('MAX_EFLAG_LENG', T)
    wbuf = P.macro('DATA_BUFFER_SIZE', 'memcached.h')
    cnt = P.macro('MAX_EFLAG_COMPARE_COUNT', T)
    none = 255
    wide = {'bkey_range.from_nbkey': (bkey, None), 'bkey_range.to_nbkey': (bkey, none), 'bkey_t.len': (bkey, none),
            'eflag_t.len': (eflag, none), '_btree_elem_item.nbkey': (bkey, None), '_btree_elem_item.neflag': (eflag, None),
            'eflag_filter.ncompval': (eflag, None), 'eflag_filter.nbitwval': (eflag, None), 'eflag_filter.offset': (eflag, None),
            'eflag_filter.compvcnt': (cnt, None)}
    return {
        'bkey': bkey, 'eflag': eflag, 'compvcnt': cnt,
        'ptrs': {'conn.wbuf': wbuf}, 'consts': {'conn.wsize': wbuf},
        'server': dict(wide, **{'eflag_update.neflag': (eflag, none), 'conn.pipe_reslen': (pipe(), None),
                                'conn.pipe_count': (99999999, None)}),
        'engine': dict(wide, **{'eflag_update.neflag': (eflag, None)}),
        'params': {'BINARY_DIFF': {1: bkey, 3: bkey, 4: bkey}, 'do_btree_elem_alloc': {0: bkey, 1: eflag},
                   'btree_elem_alloc': {0: bkey, 1: eflag}, 'default_btree_elem_alloc': {4: bkey, 5: eflag},
                   'btree_apply_elem_delete': {3: bkey}, 'btree_apply_elem_insert': {3: bkey, 4: eflag},
                   'process_bop_prepare_nread': {5: bkey, 7: eflag}},
        'rets': {'get_bkey_from_str': bkey, 'get_eflag_from_str': eflag, 'key_to_printable_buffer': 1023, 'do_make_bkeystring': 138},
        'strlens': {'pipe_response_save': [(1, 2)]},
        'textargs': {},
    }


def pipe():
    n = P.macro('PIPE_CMD_MAX_COUNT', 'memcached.h') * P.macro('PIPE_RES_DATA_SIZE', 'memcached.h')
    return n + P.macro('PIPE_RES_HEAD_SIZE', 'memcached.h') - 1


# members whose values are not judged where they are stored
TRUSTED = ('conn.pipe_count',)


def buffers(ctx):
    import room
    p = ctx.load('eng', 'srv')
    ctx.rule('at every write into an array or a buffer of fixed size, offset + length is at most its size on every path, from the '
             'ranges the path has established, the types read, the longest text a format can print and the lengths of constants')
    room.buffers(ctx, p, tables(p))
    ctx.floor('writes proven', 290)
    ctx.floor('member stores proven', 20)


def btree_args(ctx):
    import room
    p = ctx.load('eng', 'srv')
    ctx.rule('a bkey range, eflag filter or eflag update that is taken from a request reaches the engine or the connection only '
             'with lengths and operator codes inside their ranges; the counts of a request over several keys are bounded')
    t = tables(p)
    M = 'memcached.h'
    t['lim'] = {'bkey': t['bkey'], 'eflag': t['eflag'], 'compvcnt': t['compvcnt'], 'bitwop': p.enum('BITWISE_OP_MAX'),
                'compop': p.enum('COMPARE_OP_MAX'), 'eq': (p.enum('COMPARE_OP_EQ'), p.enum('COMPARE_OP_NE')),
                'smget': p.enum('OPERATION_BOP_SMGET'), 'mget': p.enum('OPERATION_BOP_MGET'),
                'smget limits': (P.macro('MAX_SMGET_KEY_COUNT', M), P.macro('MAX_SMGET_REQ_COUNT', M)),
                'mget limits': (P.macro('MAX_BMGET_KEY_COUNT', M), P.macro('MAX_BMGET_ELM_COUNT', M))}
    room.arguments(ctx, p, t)
    ctx.floor('arguments judged', 12)


def results(ctx):
    import results
    p = ctx.load('eng', 'srv')
    ctx.rule('a function that fills an array writes only below the count it was given (0: as many as there are); an engine operation '
             'makes the array for at least as many results as the function filling it may write')
    results.check(ctx, p)
    ctx.floor('filling functions', 10)
    ctx.floor('arrays judged', 6)
    ctx.floor('writes judged', 28)
    ctx.assume('counts and element numbers stay below 2^31, so their sums do not wrap')
