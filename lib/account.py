"""Membership and books of items: hash table, LRU list, prefix and statistics move together.

Every path of every function of item_base.c and prefix.c is summarised as
   events   hash table insert/remove, LRU link/unlink, linked flag, CAS number, free
   deltas   what the path adds to each statistics counter, as a linear form over symbolic amounts
and the summary must be that of linking, unlinking or replacing whole items.
"""
from flow import Analysis, Client, last_field, ids_of, fmt
from own import base
from ledger import add, const, strip, ZERO

STATS = ('curr_items', 'total_items', 'curr_bytes', 'sticky_items', 'sticky_bytes')
M32 = (1 << 32) - 1


def lin(v):
    v = strip(v)
    if v[0] == 'c':
        return const(v[1])
    if v[0] == 'bin' and v[1] in ('add', 'sub'):
        return add(lin(v[2]), lin(v[3]), 1 if v[1] == 'add' else -1)
    return frozenset([(v, 1)])


def show(f):
    return ' + '.join('%s%s' % ('' if c == 1 else '%d*' % c, fmt(a) if isinstance(a, tuple) else '1') for a, c in sorted(f, key=repr)) or '0'


class Books(Client):
    cap = 60
    total_cap = 4000

    def __init__(self, ctx, K):
        self.ctx, self.K = ctx, K
        self.out = []

    def store(self, an, st, i, addr, val):
        # two item arguments are two items
        if addr[0] == 'f' and addr[2] in self.ATTR and addr[1][0] == 'a' and self.saved:
            for k, v in self.saved.items():
                if k[1] != addr[1] and k[1][0] == 'a':
                    st.mem.setdefault(k, v)

    def load(self, an, st, i, addr, val):
        f = last_field(addr)
        if f in ('_hash_item.exptime', '_hash_item.refcount', '_hash_item.iflag') and addr[0] == 'f':
            st.prop = st.prop | {('at', addr, val)}

    def live_syms(self, prop):
        out = []
        for x in prop:
            for y in x[1:]:
                if isinstance(y, tuple):
                    out.append(y)
                elif isinstance(y, frozenset):
                    out += [a for a, _ in y if isinstance(a, tuple)]
        return out

    def ev(self, st, *e):
        n = 1 + max([x[-1] for x in st.prop if x[0] == 'e'] + [0])
        st.prop = st.prop | {('e',) + e + (n,)}

    def delta(self, st, key, d):
        old = [x for x in st.prop if x[0] == 'd' and x[1] == key]
        new = add(old[0][2], d) if old else d
        st.prop = frozenset(x for x in st.prop if x not in old)
        if new:
            st.prop = st.prop | {('d', key, new)}

    def prestore(self, an, st, i, addr, val):
        f = last_field(addr)
        self.saved = {k: v for k, v in st.mem.items() if k[0] == 'f' and k[2] in self.ATTR}
        if f is None or val is None:
            return
        s, _, fld = f.rpartition('.')
        if s == 'engine_stats' and fld in STATS or s == '_coll_meta_info' and fld == 'stotal' or \
                s == '_prefix_t' and fld.endswith('_exclusive'):
            if s == '_coll_meta_info' and val == ('c', 0):
                self.ev(st, 'zero', addr[1])
                return
            old = st.mem.get(addr)
            d = add(lin(val), lin(old), -1) if old is not None else lin(val)
            b = addr
            idx = None
            if addr[0] == 'x':
                idx, b = addr[2], addr[1]
            key = ('n', fld, ('g', 'stats') if s == 'engine_stats' else b[1]) + ((strip(idx),) if idx is not None else ())
            self.delta(st, key, d)
        elif f == '_hash_item.iflag':
            v = strip(val)
            if v[0] == 'bin' and v[1] == 'or' and v[3][0] == 'c' and v[3][1] & self.K['LINKED']:
                self.ev(st, 'flag+', addr[1])
            elif v[0] == 'bin' and v[1] == 'and' and v[3][0] == 'c' and not v[3][1] & self.K['LINKED']:
                self.ev(st, 'flag-', addr[1])
        elif f == '_hash_item.pfxptr':
            self.ev(st, 'pfx', addr[1], val)
        elif f == '_hash_item.khash':
            self.ev(st, 'khash', addr[1], strip(val))

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'ITEM_stotal':
            z = any(x[0] == 'e' and x[1] == 'zero' for x in st.prop)
            st.env[i.id] = ('T0' if z else 'T', args[0])
            return [st]
        if n == 'ITEM_ntotal':
            st.env[i.id] = ('N', args[0])
            return [st]
        if n == 'slabs_space_size':
            st.env[i.id] = ('S', strip(args[0]))
            return [st]
        if n == 'item_get_key':
            st.env[i.id] = ('K', args[0])
            return [st]
        if n == 'item_get_meta':
            st.env[i.id] = ('f', args[0], '#meta')
            return [st]
        if n == 'get_cas_id':
            an.effect(st, i, name, args)
            self.ev(st, 'casid', st.env[i.id])
            return [st]
        if n == 'GEN_ITEM_KEY_HASH':
            st.env[i.id] = ('H', args[0], args[1])
            return [st]
        pre = {k: v for k, v in st.mem.items()}
        if n in ('assoc_insert', 'assoc_replace', 'assoc_delete', 'item_link_q', 'item_unlink_q', 'prefix_link', 'prefix_unlink',
                 'do_item_free', 'item_set_cas', 'prefix_bytes_incr', 'prefix_bytes_decr', '_prefix_delete', 'do_item_link',
                 'do_item_unlink', 'do_item_replace'):
            if n == 'assoc_insert':
                self.ev(st, 'hash+', args[0], strip(args[1]))
            elif n == 'assoc_replace':
                self.ev(st, 'hash-', args[0])
                self.ev(st, 'hash+', args[1], ('same', args[0]))
            elif n == 'assoc_delete':
                x = args[0][1] if args[0][0] == 'K' else args[0]
                ok = strip(args[1]) == st.mem.get(('f', x, '_hash_item.nkey'), ('?',)) and \
                    strip(args[2]) == st.mem.get(('f', x, '_hash_item.khash'), ('?',))
                self.ev(st, 'hash-', x, ('ok' if ok else 'bad',))
            elif n == 'item_link_q':
                self.ev(st, 'lru+', args[0])
            elif n == 'item_unlink_q':
                self.ev(st, 'lru-', args[0])
            elif n == 'item_set_cas':
                self.ev(st, 'cas', args[0], strip(args[1]))
            elif n == 'do_item_free':
                self.ev(st, 'free', args[0])
            elif n in ('prefix_bytes_incr', 'prefix_bytes_decr'):
                f = lin(args[2])
                self.delta(st, ('n', 'prefix_bytes', args[0], strip(args[1])), f if n.endswith('incr') else frozenset((a, -c) for a, c in f))
            elif n == 'prefix_unlink':
                self.ev(st, 'pfx-', args[0], strip(args[1]))
            elif n == '_prefix_delete':
                self.ev(st, 'pfxdel')
            elif n == 'prefix_link':
                an.effect(st, i, name, args)
                st.mem.update({k: v for k, v in pre.items() if last_field(k) in self.ATTR and last_field(k) != '_hash_item.pfxptr'})
                v = st.env[i.id]
                ok = st.copy()
                ok.env[i.id] = ('c', 0)
                self.ev(ok, 'pfx+', args[0], strip(args[1]))
                st.narrow(v, -float('inf'), float('inf'), frozenset([0]))
                return [ok, st]
        keep = {k: v for k, v in pre.items() if last_field(k) in self.ATTR}
        an.effect(st, i, name, args)
        if n in ('prefix_link', 'prefix_unlink'):
            keep = {k: v for k, v in keep.items() if last_field(k) != '_hash_item.pfxptr'}
        if n not in ('do_item_link', 'do_item_unlink', 'do_item_replace'):
            st.mem.update(keep)
        return [st] if not i.noret else []

    # attributes of an item that nothing called from here changes
    ATTR = tuple('_hash_item.' + x for x in ('exptime', 'iflag', 'pfxptr', 'refcount', 'khash', 'nkey'))

    def merge_old(self, an, st, ids):
        return frozenset(x for x in st.prop if not ids_of(x) & ids)

    def ret(self, an, st, i, val):
        self.out.append((st, i, val))


def sticky(st, x):
    for t in st.prop:
        if t[0] == 'at' and t[1] == ('f', x, '_hash_item.exptime'):
            for m in (-1, M32):
                if st.known_eq(t[2], m):
                    return True
            for m in (-1, M32):
                if st.known_ne(t[2], m):
                    return False
    return None


def iscoll(st, x, mask):
    mine = {strip(t[2]) for t in st.prop if t[0] == 'at' and t[1] == ('f', x, '_hash_item.iflag')}
    for k in list(st.facts):
        if k[0] == 'bin' and k[1] == 'and' and k[3] == ('c', mask) and bits(k[2]) & mine:
            if st.known_ne(k, 0):
                return True
            if st.known_eq(k, 0):
                return False
    return None


def bits(v):
    """the value and what it was before other bits were set or cleared in it"""
    out = {v}
    v = strip(v)
    while v[0] == 'bin' and v[1] in ('and', 'or') and v[3][0] == 'c':
        out.add(v)
        v = strip(v[2])
    out.add(v)
    return out


def items(ctx, prog, K):
    """K: LINKED, COLL masks"""
    fns = [f for f in prog.fns.values() if (f.file or '').endswith('item_base.c') and f.blocks]
    n = 0
    for f in fns:
        names = {base(prog.callee(i) or '') for i in f.calls()}
        st = any(i.op == 'store' and (prog.addr_field(f, i.p) or '').startswith('engine_stats.') and
                 prog.addr_field(f, i.p).split('.')[1] in STATS for i in f.all())
        if not names & {'assoc_insert', 'assoc_delete', 'assoc_replace', 'prefix_link', 'prefix_unlink'} and not st:
            continue
        if f.name.startswith(('do_item_stat_', )):
            continue
        c = Books(ctx, K)
        a = Analysis(prog, f, c)
        a.run()
        ctx.count('functions')
        ctx.count('abstract states', a.nstates)
        for st, i, val in c.out:
            n += 1
            path(ctx, f, st, i, val, K)
    ctx.count('paths summarised', n)


def path(ctx, f, st, i, val, K):
    evs = sorted((x for x in st.prop if x[0] == 'e'), key=lambda x: x[-1])
    D = {x[1]: x[2] for x in st.prop if x[0] == 'd'}

    def bad(what, msg):
        ctx.violation('books', f, i.line, what, msg)
    L = [e[2] for e in evs if e[1] == 'hash+']
    U = [e[2] for e in evs if e[1] == 'hash-']
    coll = f.name in ('do_coll_space_incr', 'do_coll_space_decr')

    def has(k, x):
        return sum(1 for e in evs if e[1] == k and e[2] == x)
    for e in evs:
        if e[1] == 'flag+' and e[2] not in L:
            bad('linked flag', 'marks an item linked that was not put into the hash table')
        if e[1] == 'flag-' and e[2] not in U:
            bad('linked flag', 'marks an item unlinked that was not taken out of the hash table')
        if e[1] == 'pfx+' and e[2] not in L:
            bad('prefix', 'counts an item in its prefix that was not put into the hash table')
        if e[1] == 'pfx-' and e[2] not in U:
            bad('prefix', 'takes an item out of its prefix that was not taken out of the hash table')
    moved = {}
    for e in evs:
        if e[1] == 'pfx' and e[3][0] != 'c':
            moved[e[2]] = e[3]
    for x in L:
        if has('hash+', x) != 1:
            bad('hash table', 'links the item more than once')
        if has('flag+', x) != 1:
            bad('linked flag', 'puts an item into the hash table without marking it linked')
        if has('lru+', x) != 1:
            bad('LRU list', 'links an item without putting it on the LRU list once')
        e = [e for e in evs if e[1] == 'hash+' and e[2] == x][0]
        kh = st.mem.get(('f', x, '_hash_item.khash'))
        if e[3][0] == 'same':
            src = st.mem.get(('f', e[3][1], '_hash_item.khash'))
            if kh is None or src is None or strip(kh) != strip(src):
                bad('hash value', 'the replacing item does not take over the hash value of the old one')
            pf = moved.get(x)
            po = ('ld', e[3][1])
            if pf is None:
                bad('prefix', 'the replacing item does not take over the prefix of the old one')
        else:
            if e[3][0] != 'H' or e[3][1] != ('K', x):
                bad('hash value', 'the item is not inserted under the hash of its key')
            if kh is None or strip(kh) != e[3]:
                bad('hash value', 'the item does not remember the hash value it is stored under')
            p = [e for e in evs if e[1] == 'pfx+' and e[2] == x]
            if len(p) != 1 or p[0][3] != ('T', x):
                bad('prefix', 'links an item without counting it with its own size in its prefix')
        cas = [e for e in evs if e[1] == 'cas' and e[2] == x]
        ids = [e[2] for e in evs if e[1] == 'casid']
        if len(cas) != 1 or cas[0][3] not in ids:
            bad('CAS', 'links an item without giving it a fresh CAS number')
    for x in U:
        if has('hash-', x) != 1:
            bad('hash table', 'unlinks the item more than once')
        if any(e[1] == 'hash-' and e[2] == x and len(e) > 4 and e[3] == ('bad',) for e in evs):
            bad('hash table', 'removes under a key or hash value that is not the item\'s')
        if has('flag-', x) != 1:
            bad('linked flag', 'takes an item out of the hash table and leaves it marked linked')
        if has('lru-', x) != 1:
            bad('LRU list', 'unlinks an item without taking it off the LRU list')
        rep = any(e[1] == 'hash+' and e[3] == ('same', x) for e in evs)
        p = [e for e in evs if e[1] == 'pfx-' and e[2] == x]
        if rep:
            if p or not any(e[1] == 'pfx' and e[2] == x and e[3] == ('c', 0) for e in evs):
                bad('prefix', 'the replaced item keeps its prefix')
        elif len(p) != 1 or p[0][3] != ('T', x):
            bad('prefix', 'unlinks an item without taking its own size out of its prefix')
        zero = any(e[1] == 'zero' and e[2] == ('f', x, '#meta') for e in evs)
        c = iscoll(st, x, K['COLL'])
        if c is None and not zero or c and not zero:
            bad('collection space', 'the space of an unlinked collection stays accounted to it')
        rc = ([t[2] for t in st.prop if t[0] == 'at' and t[1] == ('f', x, '_hash_item.refcount')] or [None])[0]
        fr = has('free', x)
        if rc is None or not (st.known_eq(rc, 0) or st.known_ne(rc, 0)):
            bad('free', 'unlinks an item without looking whether anyone still holds it')
        elif st.known_eq(rc, 0) and fr != 1:
            bad('free', 'an unlinked item nobody holds is not freed')
    # ---- statistics
    want = {}

    def w(k, g, s):
        want[k] = add(want.get(k, ZERO), g, s)
    for xs, s in ((L, 1), (U, -1)):
        for x in xs:
            one, t = const(1), frozenset([(('T', x), 1)])
            w('curr_items', one, s)
            w('curr_bytes', t, s)
            if s > 0:
                w('total_items', one, 1)
            stk = sticky(st, x)
            if stk is None:
                bad('sticky', 'the statistics are changed without looking whether the item is sticky')
            elif stk:
                w('sticky_items', one, s)
                w('sticky_bytes', t, s)
    if coll:
        s = 1 if f.name.endswith('incr') else -1
        n = frozenset([(('a', 2), 1)])
        w('curr_bytes', n, s)
        its = [t[1][1] for t in st.prop if t[0] == 'at' and t[1][2] == '_hash_item.exptime']
        if len(set(its)) != 1 or sticky(st, its[0]) is None:
            bad('sticky', 'the statistics are changed without looking whether the item is sticky')
        elif sticky(st, its[0]):
            w('sticky_bytes', n, s)
        if D.get(('n', 'stotal', ('a', 0))) != frozenset([(('a', 2), s)]):
            bad('collection space', 'the collection is charged another amount than was asked for')
        pb = [(k, v) for k, v in D.items() if k[1] == 'prefix_bytes']
        if len(pb) != 1 or pb[0][0][3] != ('a', 1) or pb[0][1] != frozenset([(('a', 2), s)]):
            bad('prefix', 'the prefix is charged another amount than was asked for')
    for k in STATS:
        got = D.get(('n', k, ('g', 'stats')), ZERO)
        if got != want.get(k, ZERO):
            bad(k, '%s changes by %s where the items linked and unlinked amount to %s' % (k, show(got), show(want.get(k, ZERO))))
    if not coll:
        pb = {}
        for k, v in D.items():
            if k[1] == 'prefix_bytes':
                pb[k[2:]] = v
        reps = [(e[3][1], e[2]) for e in evs if e[1] == 'hash+' and e[3][0] == 'same']
        if reps and len(reps) == 1:
            o, nw = reps[0]
            d = add(frozenset([(('T', nw), 1)]), frozenset([(('T', o), 1)]), -1)
            tot = ZERO
            for k, v in pb.items():
                tot = add(tot, v)
                if k[0] != moved.get(nw):
                    bad('prefix', 'the difference in size is charged to another prefix')
                t = k[1]
                if t[0] != 'bin' or t[3] != ('c', K['COLL']):
                    bad('prefix', 'the difference in size is charged to another item type')
            eq = st.cmpval('eq', ('T', nw), ('T', o)) == 1 or st.cmpval('eq', ('T', o), ('T', nw)) == 1
            if tot != d and not (eq and not tot):
                bad('prefix', 'the prefix is charged %s for a replacement that changes the size by %s' % (show(tot), show(d)))
        elif pb:
            bad('prefix', 'prefix bytes change although no item was replaced')


# ------------------------------------------------------------------ prefix.c

PCOUNT = ('items_count_exclusive', 'items_bytes_exclusive', 'total_count_exclusive', 'total_bytes_exclusive')


class PBooks(Books):
    ATTR = Books.ATTR + ('_prefix_t.nprefix', '_prefix_t.total_count_exclusive', '_prefix_t.child_prefix_items')
    total_cap = 20000

    def load(self, an, st, i, addr, val):
        pass

    def ev(self, st, *e):
        if e[0] == 'pfx':
            Books.ev(self, st, *e)

    def call(self, an, st, i, name, args):
        if name and base(name) == '_prefix_delete' and an.fn.name.startswith('prefix_unlink'):
            keys = [k for k in st.mem if k[0] == 'f' and k[2] == '_prefix_t.nprefix' and strip(st.mem[k]) == strip(args[1])]
            ok = False
            for k in keys:
                c = st.mem.get(('f', k[1], '_prefix_t.child_prefix_items'))
                t = st.mem.get(('f', k[1], '_prefix_t.total_count_exclusive'))
                if c is not None and t is not None and st.known_eq(c, 0) and st.known_eq(t, 0):
                    ok = True
            if not ok:
                self.ctx.violation('books', an.fn, i.line, 'prefix removal',
                                   'removes a prefix that was not found to be without items and without child prefixes')
        return super().call(an, st, i, name, args)


def prefixes(ctx, prog, K):
    for name in ('prefix_link', 'prefix_unlink', 'prefix_bytes_incr', 'prefix_bytes_decr'):
        f = ctx.fn(prog, name) if hasattr(ctx, 'fn') else prog.fns[name]
        c = PBooks(ctx, K)
        a = Analysis(prog, f, c)
        a.run()
        ctx.count('functions')
        ctx.count('abstract states', a.nstates)
        for st, i, val in c.out:
            ctx.count('prefix paths')
            D = {x[1]: x[2] for x in st.prop if x[0] == 'd' and x[1][1] in PCOUNT}
            evs = [x for x in st.prop if x[0] == 'e']
            sgn = -1 if name.endswith(('unlink', 'decr')) else 1
            items = name in ('prefix_link', 'prefix_unlink')

            def bad(what, msg):
                ctx.violation('books', f, i.line, what, msg)
            if name == 'prefix_link':
                if val is None or not (st.known_eq(val, 0) or st.known_ne(val, 0)):
                    bad('result', 'cannot tell success from failure')
                    continue
                ptr = [e for e in evs if e[1] == 'pfx' and e[2] == ('a', 0)]
                if st.known_ne(val, 0):
                    if D:
                        bad('failure', 'a failed link changes the books of a prefix')
                    continue
                if len(ptr) != 1:
                    bad('prefix pointer', 'the item does not get one prefix')
                    continue
                pt = ptr[0][3]
            elif name == 'prefix_unlink':
                ptr = [e for e in evs if e[1] == 'pfx' and e[2] == ('a', 0)]
                if len(ptr) != 1 or ptr[0][3] != ('c', 0):
                    bad('prefix pointer', 'an item taken out of its prefix still points to it')
                pts = {k[2] for k in D}
                if len(pts) != 1:
                    bad('prefix', 'the books of %d prefixes change for one item' % len(pts))
                    continue
                pt = pts.pop()
            else:
                pt = ('a', 0)
            amount = frozenset([(('a', 1 if items else 2), sgn)])
            want = {'items_bytes_exclusive': amount, 'total_bytes_exclusive': amount}
            if items:
                want.update(items_count_exclusive=const(sgn), total_count_exclusive=const(sgn))
            for fld in PCOUNT:
                ks = [k for k in D if k[1] == fld]
                if [D[k] for k in ks] != ([want[fld]] if fld in want else []):
                    bad(fld, 'changes by %s instead of %s' % ([show(D[k]) for k in ks], show(want.get(fld, ZERO))))
                    continue
                for k in ks:
                    if k[2] != pt:
                        bad(fld, 'the change goes to another prefix than the item belongs to')
                    if fld.startswith('items'):
                        t = k[3]
                        if items and (t[0] != 'bin' or t[1] != 'and' or t[3] != ('c', K['COLL'])) or not items and t != ('a', 1):
                            bad(fld, 'the change goes to another item type than the item has')


def total(ctx, prog, K):
    """ITEM_stotal: the slab space of the whole item plus, for a collection, what was charged to it"""
    f = prog.fns['ITEM_stotal']

    class T(Books):
        def load(self, an, st, i, addr, val):
            Books.load(self, an, st, i, addr, val)
            if last_field(addr) == '_coll_meta_info.stotal' and addr[0] == 'f':
                st.prop = st.prop | {('stot', addr[1], val)}
    c = T(ctx, K)
    a = Analysis(prog, f, c)
    a.run()
    for st, i, val in c.out:
        ctx.count('size paths')
        m = iscoll(st, ('a', 0), K['COLL'])
        want = frozenset([(('S', ('N', ('a', 0))), 1)])
        if m:
            t = [x[2] for x in st.prop if x[0] == 'stot' and x[1] == ('f', ('a', 0), '#meta')]
            want = add(want, lin(t[0]) if t else frozenset([(('stotal',), 1)]), 1)
        if m is None or lin(val) != want:
            ctx.violation('books', f, i.line, 'item size', 'the size accounted for an item is %s, not its slab space plus the space of its elements' % show(lin(val)))
