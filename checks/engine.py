import prog as P

BASE = 'engines/default/item_base.h'


def flags():
    return ({n: P.macro('ITEM_IFLAG_' + n, BASE) for n in ('LIST', 'SET', 'MAP', 'BTREE', 'COLL')},
            P.macro('COLL_META_FLAG_READABLE', BASE))


def item_types(ctx):
    import lookup
    ctx.rule('on every path a collection body is used only as the type the item was found to have; a lookup by type succeeds only '
             'for that type; a key-value read or overwrite only gets key-value items')
    lookup.types(ctx, ctx.load('eng', 'srv'), *flags())
    ctx.floor('typed uses', 200)


def readable(ctx):
    import lookup
    ctx.rule('every client operation that reads elements uses the collection body, and reports success, only after the '
             'collection was found readable')
    lookup.readable(ctx, ctx.load('eng', 'srv'), *flags())
    ctx.floor('reading functions', 9)


def validity(ctx):
    import lookup
    p = ctx.load('eng', 'srv')
    ctx.rule('an item is found, pinned or scanned only after do_item_isvalid() accepted it; that accepts only items whose expiry '
             'time is not reached and that no flush of the cache, their prefix or its parents covers; a flush moves the '
             'flush point; nothing is dropped as invalid that was not found so')
    lookup.valid(ctx, p, p.enum('ITEM_UNLINK_INVALID'), 0)
    ctx.floor('pins and removals', 10)


def accounting(ctx):
    import ledger
    p = ctx.load('eng', 'srv')
    ctx.rule('on every path the element count changes by the number of elements linked minus unlinked, and the space told to the '
             'collection, its prefix and the server is the size of exactly those elements (inductive linear equalities over loops)')
    B = 'engines/default/coll_btree.c'
    st = {'used': (P.macro('BTREE_ITEM_STATUS_USED', B),),
          'gone': (P.macro('BTREE_ITEM_STATUS_UNLINK', B), P.macro('BTREE_ITEM_STATUS_FREE', B))}
    ledger.elements(ctx, p, st, {k: p.enum('ITEM_TYPE_' + k.upper()) for k in ('list', 'set', 'map', 'btree')})

    import account
    q = ctx.load('flat')
    account.items(ctx, q, {'LINKED': P.macro('ITEM_LINKED', BASE), 'COLL': P.macro('ITEM_IFLAG_COLL', BASE)})
    account.prefixes(ctx, q, {'COLL': P.macro('ITEM_IFLAG_COLL', BASE)})
    account.total(ctx, q, {'COLL': P.macro('ITEM_IFLAG_COLL', BASE)})
    ctx.floor('prefix paths', 6)
    ctx.floor('size paths', 2)


def atomic(ctx, rules):
    import atomic
    p = ctx.load('eng', 'srv')
    atomic.check(ctx, p, {'ENOENT': p.enum('ENGINE_KEY_ENOENT'), 'TRIMMED': P.macro('COLL_META_FLAG_TRIMMED', BASE)}, rules)
    ctx.floor('paths judged', 500)


def atomic_writes(ctx):
    ctx.rule('a path that returns failure leaves no change of items, elements or attributes behind; created is reported exactly '
             'where a new item is left linked')
    atomic(ctx, ('all-or-nothing', 'created'))


def drop_empty(ctx):
    ctx.rule('an element operation unlinks its collection only where the request asked for it and the element count was found zero '
             'after the removal, then always, and reports dropped exactly then')
    atomic(ctx, ('dropped',))
    ctx.floor('unlink sites x paths', 4)


def one_item(ctx):
    ctx.rule('an item is linked only where a lookup of its key missed, or the item found was unlinked, since the cache lock was '
             'taken; an item is replaced only by one with its key')
    atomic(ctx, ('one item',))
    ctx.floor('link sites x paths', 10)
    ctx.floor('replace sites x paths', 1)


def storage(ctx):
    import stores
    p = ctx.load('ops')
    ctx.rule('every path of store, delete and arithmetic, from the lookup to the result, does what the command means: which '
             'items may be linked or replaced, under which CAS number, with which content, attributes and answer')
    e = p.enum
    stores.check(ctx, p, {'COLL': P.macro('ITEM_IFLAG_COLL', BASE),
                          'op': {n: e('OPERATION_' + n) for n in ('SET', 'ADD', 'REPLACE', 'CAS', 'APPEND', 'PREPEND')},
                          'code': {n: e('ENGINE_' + n) for n in ('SUCCESS', 'KEY_ENOENT', 'KEY_EEXISTS', 'NOT_STORED', 'EBADTYPE')}})
    ctx.floor('paths judged', 15)
    ctx.floor('operations decided', 6)


def limit(ctx, rules):
    import limits
    p = ctx.load('ops')
    q = ctx.load('eng', 'srv')
    e = p.enum
    limits.check(ctx, p, q, {'STICKY': P.macro('COLL_META_FLAG_STICKY', BASE), 'ERROR': e('OVFL_ERROR'),
                             'NONE': P.macro('OVFL_TYPE_NONE', 'engines/default/coll_btree.c'),
                             'applies': ('item_apply_setattr_collinfo',), 'exempt': ('do_btree_elem_arithmetic',)}, rules)


def overflow(ctx):
    ctx.rule('where an element count is raised the path has compared it with the limit of that collection or trims one element in '
             'exchange, and trims only where the overflow action is not to refuse; the stored maximum is cut to the configured one')
    limit(ctx, ('count', 'error', 'maximum'))
    ctx.floor('count increments', 4)
    ctx.floor('maximum stores', 4)


def sticky(ctx):
    ctx.rule('where a sticky item is handed out, or an element is added to or replaced by a bigger one in a sticky collection, the '
             'path has found the sticky memory below its limit')
    limit(ctx, ('sticky',))
    ctx.floor('count increments', 4)
    ctx.floor('items handed out', 1)


def configuration(ctx):
    import config
    ctx.rule('engine: success of set_config exactly where the value handed over (or the maximum in its place) is stored for that key '
             'inside its limits, and get_config answers that field; server: the variable handed over has the width the engine uses, '
             'the setting is kept exactly where the engine took the change, with the value the engine uses, and END answered exactly then')
    ctx.assume('an engine answers get_config of a key whose set_config it has just accepted (shown for the default engine)')
    e, p = ctx.load('eng'), ctx.load('per')
    s, q = ctx.load('srv'), ctx.load('psrv')
    mx = P.macro('MAXIMUM_MAX_COLL_SIZE', BASE)
    sizes = {'max_%s_size' % t: mx for t in ('list', 'set', 'map', 'btree')}
    lim = {k: [('range', (0, mx)), ('gt', 'engine_config.' + k)] for k in sizes}
    lim.update({'memlimit': [('ge', 'engine_config.sticky_limit'), ('slabs', None)],
                'sticky_limit': [('ge', 'engine_stats.sticky_bytes'), ('le', 'engine_config.maxbytes')],
                'max_element_bytes': [('range', (P.macro('MINIMUM_MAX_ELEMENT_BYTES', BASE), P.macro('MAXIMUM_MAX_ELEMENT_BYTES', BASE)))],
                'scrub_count': [('range', (P.macro('MINIMUM_SCRUB_COUNT', BASE), P.macro('MAXIMUM_SCRUB_COUNT', BASE)))],
                'chkpt_interval_pct_snapshot': [('range', (1, 1000))]})
    config.check(ctx, [('base', e), ('per', p)], [('base', s), ('per', q)], {'max': sizes, 'limits': lim})
    ctx.floor('keys decided in the engine', 40)
    ctx.floor('keys decided in the server', 20)
    ctx.floor('limits judged, per path', 15)


def life(ctx):
    import life as L
    p = ctx.load('eng', 'srv')
    ctx.rule('the expiration time of a client is converted as documented and nothing else reaches the engine; an item is called invalid only '
             'if expired or flushed; a flush marks the second before; valid items are evicted only where enabled and memory is short, unheld, '
             'from the old end of the ordinary list')
    V = 'vt:engine_interface_v1.'
    L.check(ctx, p, {V + 'allocate': 7, V + 'arithmetic': 9, V + 'flush': 4})
    ctx.floor('functions judged', 30)
    ctx.floor('moments judged', 50)


def scan(ctx):
    import scan as T
    p = ctx.load('tab')
    ctx.rule('a scan begins before the first chain, hands out every item of a chain before it leaves it, marks the place where it stops, holds '
             'the bucket it is in, and takes an item for passed exactly when its chain has been left or it lies before the mark')
    T.check(ctx, p)
    ctx.floor('functions judged', 4)
    ctx.floor('moments judged', 20)


def table(ctx):
    import table as T
    p = ctx.load('tab')
    ctx.rule('a chain of the hash table is chosen by the hash alone, whatever the state of growth; lookups go through it whole and compare '
             'length and bytes of the key; growth moves every item to the chain its hash selects and not in a chain a scan is in')
    T.check(ctx, p)
    ctx.floor('functions judged', 6)
    ctx.floor('moments judged', 40)
