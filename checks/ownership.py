import own
from own import Spec, check

COLL = ('list', 'set', 'map', 'btree')

ITEM = Spec('item reference',
            acquire_ret=['do_item_get', 'do_item_alloc', 'item_get', 'item_alloc', 'lrec_get_item_if_collection_link']
            + ['do_%s_item_alloc' % c for c in COLL],
            acquire_out=[('do_%s_item_find' % c, 3) for c in COLL] + [('default_get', 2), ('default_item_allocate', 2)],
            release=[('do_item_release', 0), ('item_release', 0), ('default_item_release', 2)],
            take=[('ITEM_REFCOUNT_INCR', 0)],
            escape=['do_btree_smget_scan_sort', 'do_btree_smget_scan_sort_old', 'btree_elem_smget',
                    'btree_elem_smget_old', 'item_scan_getnext', 'item_scan_direct', 'item_scan_release', 'default_keyscan'],
            trusted=['do_item_release', 'do_item_alloc', 'ITEM_REFCOUNT_INCR', 'ITEM_REFCOUNT_DECR'])


def engine_items(ctx):
    def one(ctx, cfg):
        p = ctx.load(*cfg)
        check(ctx, p, ITEM, files='engines/')
    ctx.fanout(one, [('eng', 'srv'), ('per', 'srv')])


def conn_slots(ctx):
    import slots
    ctx.rule('at every exit of every connection-level function each connection slot (item, collection element, key '
             'strings, buffers) is null or holds a live reference; every item, element array, element and temporary '
             'block the path acquired is released exactly once with its own release operation, kept in a slot, '
             'or handed to the response builder; a successful insert hands the element to the engine')
    ctx.assume('an element array returned by a read is released only after the response is sent, through the slot')
    slots.check(ctx, ctx.load('eng', 'srv'), {'memcached.c'})
    ctx.floor('acquire sites', 20)
    ctx.floor('release sites', 40)


ELEM = Spec('collection element',
            acquire_ret=['do_%s_elem_alloc' % c for c in COLL] + ['%s_elem_alloc' % c for c in COLL],
            release=[('do_%s_elem_free' % c, 0) for c in COLL] + [('%s_elem_free' % c, 0) for c in COLL],
            link=[('do_list_elem_insert', 2), ('do_set_elem_insert', 1), ('do_map_elem_insert', 1),
                  ('do_btree_elem_insert', 1), ('do_list_elem_link', 2), ('do_set_elem_link', 1),
                  ('do_map_elem_link', 1), ('do_btree_elem_link', 1), ('list_elem_insert', 3), ('set_elem_insert', 2),
                  ('map_elem_insert', 2), ('btree_elem_insert', 2)],
            link_always=[('do_map_elem_replace', 2), ('do_btree_elem_replace', 2)],
            trusted=['do_%s_elem_alloc' % c for c in COLL] + ['do_%s_elem_free' % c for c in COLL])
NODE = Spec('index node',
            acquire_ret=['do_%s_node_alloc' % c for c in ('set', 'map', 'btree')],
            release=[('do_%s_node_free' % c, 0) for c in ('set', 'map', 'btree')],
            link_always=[('do_set_node_link', 3), ('do_map_node_link', 3), ('do_btree_node_link', 1)],
            trusted=['do_%s_node_alloc' % c for c in ('set', 'map', 'btree')]
            + ['do_%s_node_free' % c for c in ('set', 'map', 'btree')])


def engine_elems(ctx):
    ctx.rule('an element or index node allocated by a collection operation is linked when the operation succeeds, and '
             'freed or still owned by the caller, and not linked, when it fails; nothing is freed twice, freed while '
             'linked, or used after being freed')

    def one(ctx, cfg):
        p = ctx.load(*cfg)
        check(ctx, p, ELEM, files='engines/', client=own.LinkClient)
        check(ctx, p, NODE, files='engines/', client=own.LinkClient)
    ctx.fanout(one, [('eng', 'srv'), ('per', 'srv')])


def engine_pins(ctx):
    import freeing
    import prog
    D = 'engines/default/'
    ctx.rule('every element or item a path frees is fresh, or known to be unreferenced and unlinked; every in-place rewrite '
             'of an element body happens where its reference count is known to be zero; every element stored in a result '
             'array is pinned before it can be unlinked')
    linked = prog.macro('ITEM_LINKED', D + 'item_base.h', D + 'item_base.c')
    used = prog.macro('BTREE_ITEM_STATUS_USED', D + 'coll_btree.c', D + 'item_base.h', D + 'coll_btree.h')
    freeing.check(ctx, ctx.load('eng', 'srv'), linked, used)
    ctx.floor('free, pin and in-place write sites', 12)
