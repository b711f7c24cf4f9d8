"""What an operation may do with the item it looked up.

An item reference on a path carries the set of types it may still have and whether its collection was found
readable; branches on iflag and mflags refine them.
  type      a collection body is used only as the type the item was found to have, values are handed to key-value
            clients only from key-value items; a function that uses its item argument without looking requires the
            type from its callers
  lookup    do_<type>_item_find() reports success only for an item of that type
  readable  operations that read elements for a client touch the body only after it was found readable
  valid     an item is pinned or handed out only after do_item_isvalid() said yes, and that says yes only for an item that is
            neither expired nor flushed, itself or through its prefixes
"""
import re
from flow import Analysis, Client, last_field, ids_of
from own import base

INF = float('inf')
TYPES = ('list', 'set', 'map', 'btree')
KV, ALL, COLL = 1, 31, 30
BIT = {t: 2 << k for k, t in enumerate(TYPES)}
META = re.compile(r'^_?(list|set|map|btree|coll)_meta_info')
FIND = re.compile(r'^do_(list|set|map|btree)_item_find$')
ALLOC = re.compile(r'^(?:do_)?(list|set|map|btree)_item_alloc$')
READERS = ('list_elem_get', 'set_elem_exist', 'set_elem_get', 'map_elem_get', 'btree_elem_get', 'btree_elem_count',
           'btree_posi_find', 'btree_posi_find_with_get', 'btree_elem_get_by_posi', 'btree_elem_smget', 'btree_elem_smget_old')


def strip(v):
    while v[0] == 'tr' or v[0] == 'zx':
        v = v[2]
    return v


def need_of(tname):
    m = META.match(tname or '')
    if not m:
        return None
    return COLL if m.group(1) == 'coll' else BIT[m.group(1)]


class LookupClient(Client):
    cap = 8
    total_cap = 120
    keep_old = False

    def __init__(self, ctx, needs, iflags, mflag, readers=()):
        self.ctx, self.needs, self.iflags, self.mflag = ctx, needs, iflags, mflag
        self.req = {}
        self.readers = readers
        self.sites = set()
        self.rsites = set()

    def entry(self, an, fn):
        return frozenset(('ty', ('a', k), ALL) for k, a in enumerate(fn.args) if a[1] in ('hash_item*', 'item*', 'const hash_item*'))

    def live_syms(self, prop):
        out = []
        for x in prop:
            out.append(x[1])
            if x[0] == 'ld':
                out.append(x[2])
        return out

    # ---- what is known of an item
    def mask(self, st, it):
        m = ALL
        for x in st.prop:
            if x[0] == 'ty' and x[1] == it:
                m = x[2]
        for x in st.prop:
            if x[0] == 'ld' and x[2] == it and x[3] == 'iflag':
                for k in list(st.facts):
                    if k[0] == 'bin' and k[1] == 'and' and strip(k[2]) == x[1] and k[3] == ('c', self.iflags['COLL']):
                        lo, hi, ex = st.rng(k)
                        for t in range(5):
                            if t < lo or t > hi or t in ex:
                                m &= ~(1 << t)
        return m

    def tracked(self, st, it):
        return any(x[0] == 'ty' and x[1] == it for x in st.prop)

    def settle(self, st):
        """move what the facts say into the property state"""
        out = set()
        for x in st.prop:
            if x[0] == 'ty':
                x = ('ty', x[1], self.mask(st, x[1]))
            out.add(x)
        for x in st.prop:
            if x[0] == 'ld' and x[3] == 'mflags':
                for k in list(st.facts):
                    if k[0] == 'bin' and k[1] == 'and' and strip(k[2]) == x[1] and k[3] == ('c', self.mflag) and st.known_ne(k, 0):
                        out.add(('rd', x[2]))
        st.prop = frozenset(out)

    def branch(self, an, st, i, cond, truth):
        self.settle(st)

    def merge_old(self, an, st, ids):
        self.settle(st)
        return frozenset(x for x in st.prop if x[0] != 'ld')

    # ---- events
    def item_of(self, a):
        """item whose body the address lies in, and the body type named by the access"""
        t = None
        while a[0] in ('f', 'x'):
            if a[0] == 'f':
                if a[2] == '#meta':
                    return a[1], t
                t = a[2]
            a = a[1]
        return None, None

    def require(self, an, st, i, it, need, what):
        self.sites.add((an.fn.name, i.id))
        m = self.mask(st, it)
        if not m & ~need:
            return
        if it[0] == 'a' and m == ALL:
            self.req[it[1]] = self.req.get(it[1], ALL) & need
            return
        if not self.tracked(st, it):
            return
        names = ', '.join(n for n, b in [('key-value', KV)] + [(t, BIT[t]) for t in TYPES] if m & ~need & b)
        self.ctx.violation('type', an.fn, i.line, what, 'uses the item as %s while it may still be: %s'
                           % ('/'.join(n for n, b in [('key-value', KV)] + [(t, BIT[t]) for t in TYPES] if need & b), names))

    def body(self, an, st, i, a, direct=True):
        it, t = self.item_of(a)
        if it is None or t is None:
            return
        n = need_of(t)
        if n is not None:
            self.require(an, st, i, it, n, t)
        if self.readers and t.split('.')[-1] not in ('mflags', 'mcnt', 'ccnt', 'itdist', 'bktype'):
            pass

    def load(self, an, st, i, addr, val):
        self.body(an, st, i, addr)
        f = last_field(addr)
        if addr[0] == 'f' and f == '_hash_item.iflag':
            st.prop = st.prop | {('ld', strip(val), addr[1], 'iflag')}
        elif addr[0] == 'f' and f and f.endswith('_meta_info.mflags'):
            it, t = self.item_of(addr)
            if it is not None:
                st.prop = frozenset(x for x in st.prop if not (x[0] == 'ld' and x[2] == it and x[3] == 'mflags')) | {('ld', strip(val), it, 'mflags')}
        elif addr[0] == 'f':
            it, t = self.item_of(addr)
            if it is not None and i.ty == 'ptr':
                st.prop = st.prop | {('ld', val, it, 'body')}

    def prestore(self, an, st, i, addr, val):
        self.body(an, st, i, addr)
        if last_field(addr) == '_hash_item.iflag' and val is not None:
            v = strip(val)
            if v[0] == 'bin' and v[1] == 'or' and v[3][0] == 'c' and v[3][1] & self.iflags['COLL']:
                t = 1 << (v[3][1] & self.iflags['COLL'])
                st.prop = frozenset(x for x in st.prop if x[:2] != ('ty', addr[1])) | {('ty', addr[1], t)}

    def call(self, an, st, i, name, args):
        n = base(name) if name else None
        if n is None:
            return None
        if n == 'item_get_meta':
            st.env[i.id] = ('f', args[0], '#meta')
            return [st]
        m = FIND.match(n)
        if m:
            a = an.caddr(args[-1])
            an.effect(st, i, name, args)
            sym = st.env[i.id]
            ok = st.copy()
            ok.env[i.id] = ('c', 0)
            v = ('r', i.id, 100)
            ok.facts.pop(v, None)
            ok.prop = frozenset(x for x in ok.prop if x[1] != v and not (x[0] == 'ld' and x[2] == v)) | {('ty', v, BIT[m.group(1)]), ('key', v)}
            ok.store(a, v)
            ok.narrow(v, -INF, INF, frozenset([0]))
            st.narrow(sym, -INF, INF, frozenset([0]))
            st.store(a, ('c', 0))
            return [ok, st]
        m = ALLOC.match(n)
        if n == 'do_item_get' or n == 'assoc_find' or m or n in ('do_item_alloc', 'item_alloc'):
            an.effect(st, i, name, args)
            v = st.env[i.id]
            ok = st.copy()
            ok.facts.pop(v, None)
            ok.narrow(v, -INF, INF, frozenset([0]))
            t = BIT[m.group(1)] if m else KV if 'alloc' in n else ALL
            ok.prop = frozenset(x for x in ok.prop if x[1] != v and not (x[0] == 'ld' and x[2] == v)) | {('ty', v, t)}
            st.env[i.id] = ('c', 0)
            return [ok, st]
        g = an.prog.fns.get(n) or an.prog.fns.get(name)
        gargs = g.args if g else []
        for k, a in enumerate(args):
            if self.readers and not n.startswith('do_item_') and n not in ('item_get_key',) and a[0] not in ('c', 's', 'g'):
                it, _ = self.item_of(a) if a[0] in ('f', 'x') else (None, None)
                if it is None:
                    for x in st.prop:
                        if x[0] == 'ld' and x[1] == a and x[3] == 'body':
                            it = x[2]
                if it is not None and ('key', it) in st.prop:
                    self.rsites.add((an.fn.name, i.id))
                    if ('rd', it) not in st.prop:
                        self.settle(st)
                    if ('rd', it) not in st.prop:
                        self.ctx.violation('readable', an.fn, i.line, n, 'reads elements of a collection that was not found readable')
            if k < len(gargs):
                need = need_of((gargs[k][1] or '').replace('const ', '').rstrip('*'))
                if need and a[0] == 'f' and a[2] == '#meta':
                    self.require(an, st, i, a[1], need, n)
                r = self.needs.get((n, k))
                if r is not None and not (n == 'item_get_data' and ALLOC.match(base(an.fn.name))):
                    self.require(an, st, i, a, r, n)
        return None

    def ret(self, an, st, i, val):
        if self.readers and val is not None and st.known_eq(val, 0):
            for x in st.prop:
                if x[0] == 'key' and ('rd', x[1]) not in st.prop and 'smget' not in an.fn.name:
                    self.ctx.violation('readable', an.fn, i.line, 'success', 'reports success for a collection that was not found readable')
        m = FIND.match(base(an.fn.name))
        if m and val is not None:
            out = st.mem.get(('a', len(an.fn.args) - 1))
            if not st.known_ne(val, 0):
                self.sites.add((an.fn.name, i.id))
                if out is None or self.mask(st, out) & ~BIT[m.group(1)]:
                    self.ctx.violation('lookup', an.fn, i.line, 'success', 'reports success for an item that may have another type')
        if an.fn.name == 'default_get' and val is not None and not st.known_ne(val, 0):
            out = st.mem.get(('a', 2))
            self.sites.add((an.fn.name, i.id))
            if out is None or self.mask(st, out) & ~KV:
                self.ctx.violation('lookup', an.fn, i.line, 'success', 'hands a collection item to a key-value reader')


VALUE_USE = {('do_item_replace', 0): KV, ('item_get_data', 0): KV}


def types(ctx, prog, iflags, mflag):
    needs = dict(VALUE_USE)
    fns = [f for f in prog.fns.values() if (f.file or '').startswith('engines/default/') and
           not f.file.endswith(('cmdlogrec.c', 'chkpt_snapshot.c')) and '_apply_' not in f.name]
    # requirements flow from the users of a body to the callers that found the item
    deps = {}
    for f in fns:
        for i in f.calls():
            n = prog.callee(i)
            if n:
                deps.setdefault(base(n), set()).add(f.name)
    work = [f.name for f in fns]
    seen = {}
    names = {f.name: f for f in fns}

    class Mute:
        def violation(self, *a, **k):
            pass
    total = 0
    rounds = 0
    while work and rounds < 4:
        rounds += 1
        nxt = set()
        for nm in work:
            f = names[nm]
            if not relevant(prog, f, needs):
                continue
            c = LookupClient(Mute(), needs, iflags, mflag)
            Analysis(prog, f, c).run()
            for k, r in c.req.items():
                if needs.get((base(nm), k)) != r and (base(nm), k) not in VALUE_USE:
                    needs[(base(nm), k)] = r
                    nxt |= deps.get(base(nm), set())
        work = [w for w in nxt if w in names]
    sites = 0
    for f in fns:
        if relevant(prog, f, needs):
            c = LookupClient(ctx, needs, iflags, mflag)
            a = Analysis(prog, f, c)
            a.run()
            ctx.count('functions')
            ctx.count('abstract states', a.nstates)
            sites += len(c.sites)
    ctx.count('typed uses', sites)
    ctx.count('type requirements on item arguments', len(needs) - len(VALUE_USE))
    return needs


def relevant(prog, f, needs):
    for i in f.calls():
        n = prog.callee(i)
        if not n:
            continue
        n = base(n)
        if n == 'item_get_meta' or FIND.match(n) or n == 'do_item_get':
            return True
        if any((n, k) in needs for k in range(len(i.args))):
            return True
    return bool(FIND.match(base(f.name))) or f.name == 'default_get'


def readable(ctx, prog, iflags, mflag):
    fns = prog.fns
    done = set()
    for r in READERS:
        if r not in fns:
            continue
        work, seen = [r], set()
        while work:
            n = work.pop()
            if n in seen or n not in fns:
                continue
            seen.add(n)
            f = fns[n]
            if n in done:
                continue
            hit = False
            for i in f.calls():
                c = prog.callee(i)
                if c and FIND.match(base(c)):
                    hit = True
                if c:
                    work.append(c)
            if hit:
                done.add(n)
                c = LookupClient(ctx, {}, iflags, mflag, readers=(r,))
                a = Analysis(prog, f, c)
                a.run()
                ctx.count('reading functions')
                ctx.count('abstract states', a.nstates)
                ctx.count('element reads', len(c.rsites))
    return done


class ValidClient(Client):
    """pinned or handed out => found valid; removed as invalid => found invalid"""
    cap = 6
    total_cap = 60

    def __init__(self, ctx, invalid, internal):
        self.ctx, self.invalid, self.internal = ctx, invalid, internal
        self.sites = set()

    def entry(self, an, fn):
        return frozenset()

    def live_syms(self, prop):
        return [x[1] for x in prop]

    def merge_old(self, an, st, ids):
        return frozenset(x for x in st.prop if not ids_of(x[1]) & ids)

    def call(self, an, st, i, name, args):
        n = base(name) if name else None
        if n == 'do_item_isvalid':
            an.effect(st, i, name, args)
            no = st.copy()
            no.env[i.id] = ('c', 0)
            no.prop = frozenset([('bad', args[0])])   # the last verdict is the one used
            st.env[i.id] = ('c', 1)
            st.prop = frozenset([('ok', args[0])])
            return [st, no]
        if n == 'ITEM_REFCOUNT_INCR':
            self.sites.add((an.fn.name, i.id))
            if ('ok', args[0]) not in st.prop:
                self.ctx.violation('valid', an.fn, i.line, 'pin', 'pins an item for a reader without checking that it is neither expired nor flushed')
        if n in ('do_item_invalidate', 'do_item_reclaim') or (n == 'do_item_unlink' and len(args) > 1 and args[1] == ('c', self.invalid)):
            if an.fn.name in ('do_item_invalidate', 'do_item_reclaim'):
                return None
            self.sites.add((an.fn.name, i.id))
            if ('bad', args[0]) not in st.prop and not self.newer(st, args[0]):
                self.ctx.violation('valid', an.fn, i.line, n, 'removes an item as expired or flushed without finding it so')
        return None

    def newer(self, st, it):
        """stored after a flush point was set back in time: the flush removes it"""
        t = st.mem.get(('f', it, '_hash_item.time'))
        for k in st.facts:
            if k[0] == 'cmp' and t is not None and t in k[2:] and k[1] in ('ult', 'uge', 'ugt', 'ule'):
                if (k[2] == t and (k[1], st.facts[k][0], st.facts[k][1]) in (('ult', 0, 0), ('uge', 1, 1))) or \
                        (k[3] == t and (k[1], st.facts[k][0], st.facts[k][1]) in (('ugt', 0, 0), ('ule', 1, 1))):
                    return True
        return False

    def store(self, an, st, i, addr, val):
        if last_field(addr) == '_hash_item.refcount' and val is not None and val[0] == 'bin' and val[1] == 'add' \
                and an.fn.name != 'ITEM_REFCOUNT_INCR' and val[3] == ('c', 1):
            self.sites.add((an.fn.name, i.id))
            if ('ok', addr[1]) not in st.prop:
                self.ctx.violation('valid', an.fn, i.line, 'pin', 'pins an item for a reader without checking that it is neither expired nor flushed')

    def ret(self, an, st, i, val):
        if an.fn.name == 'do_item_get' and val is not None and not st.known_eq(val, 0):
            self.sites.add((an.fn.name, i.id))
            if ('ok', val) not in st.prop:
                self.ctx.violation('valid', an.fn, i.line, 'do_item_get', 'finds an item without checking that it is neither expired nor flushed')


class IsValidClient(Client):
    """the predicates themselves"""
    cap = 64
    total_cap = 2000

    def __init__(self, ctx, rule):
        self.ctx, self.rule = ctx, rule
        self.n = 0

    def entry(self, an, fn):
        return frozenset()

    def live_syms(self, prop):
        return [x[1] for x in prop]

    def merge_old(self, an, st, ids):
        return st.prop

    def call(self, an, st, i, name, args):
        if base(name or '') == 'prefix_isvalid':
            an.effect(st, i, name, args)
            no = st.copy()
            no.env[i.id] = ('c', 0)
            st.env[i.id] = ('c', 1)
            st.prop = st.prop | {('pfx', args[0])}
            return [st, no]
        return None

    def cell(self, st, field, baseof=None):
        for k, v in st.mem.items():
            if k[0] == 'f' and k[2] == field and (baseof is None or k[1] == baseof):
                return v
        return None

    def gt(self, st, a, b):
        if a is None or b is None:
            return False
        return st.cmpval('ugt', a, b) == 1 or st.cmpval('ult', b, a) == 1 or st.cmpval('ule', a, b) == 0

    def flushed_not(self, st, ol, t, now):
        return ol is not None and (st.known_eq(ol, 0) or self.gt(st, ol, now) or self.gt(st, t, ol))

    def bad(self, an, i, construct, msg):
        self.ctx.violation('valid', an.fn, i.line, construct, msg)

    def ret(self, an, st, i, val):
        if val is None or st.known_eq(val, 0):
            return
        st = st.copy()
        if not st.assume(val if val[0] == 'cmp' else ('cmp', 'ne', val, ('c', 0)), True):
            return
        self.n += 1
        now = ('a', 1)
        t = self.cell(st, '_hash_item.time', ('a', 0))
        if self.rule == 'item':
            ex = self.cell(st, '_hash_item.exptime', ('a', 0))
            if not (ex is not None and (st.known_eq(ex, 0) or self.gt(st, ex, now))):
                self.bad(an, i, 'exptime', 'may call an item valid although its expiry time has come')
            ol = [v for k, v in st.mem.items() if k[0] == 'f' and k[2].split('.')[-1] == 'oldest_live']
            if not any(self.flushed_not(st, v, t, now) for v in ol):
                self.bad(an, i, 'flush', 'may call an item valid although it was flushed')
            if ('pfx', ('a', 0)) not in st.prop:
                self.bad(an, i, 'prefix', 'may call an item valid without asking its prefix')
        else:
            if not any(x[0] == 'root' for x in st.prop):
                self.bad(an, i, 'prefix', 'may call an item valid without looking at its own prefix')
            if not any(x[0] == 'done' or x[0] == 'top' and st.known_eq(x[1], 0) for x in st.prop):
                self.bad(an, i, 'prefix', 'may call an item valid without looking at every parent prefix')

    def branch(self, an, st, i, cond, truth):
        if cond[0] == 'cmp' and cond[1] in ('eq', 'ne') and truth == (cond[1] == 'eq'):
            for x in st.prop:
                if x[0] == 'top' and x[1] in cond[2:]:
                    st.prop = st.prop | {('done', x[1])}

    def load(self, an, st, i, addr, val):
        if self.rule != 'prefix' or addr[0] != 'f':
            return
        if addr[2] == '_hash_item.pfxptr':
            st.prop = st.prop | {('root', val)}
        if addr[2] == '_prefix_t.parent_prefix':
            pt = addr[1]
            self.n += 1
            ol = self.cell(st, '_prefix_t.oldest_live', pt)
            t = self.cell(st, '_hash_item.time', ('a', 0))
            if not self.flushed_not(st, ol, t, ('a', 1)):
                self.bad(an, i, 'prefix', 'goes on to the parent prefix although this one was flushed')
            st.prop = frozenset(x for x in st.prop if x[0] not in ('top', 'done')) | {('top', val)}


class FlushClient(Client):
    """a flush that succeeds moved a flush point"""
    def __init__(self, ctx):
        self.ctx = ctx

    def entry(self, an, fn):
        return frozenset()

    def live_syms(self, prop):
        return []

    def store(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        if f.endswith('.oldest_live'):
            st.prop = frozenset(['prefix' if f.startswith('_prefix_t') else 'all'])

    def ret(self, an, st, i, val):
        if not st.known_eq(val, 0):
            return
        self.ctx.count('flush exits')
        n = ('cmp', 'slt', ('a', 1), ('c', 0))
        all_ = st.rng(('a', 1))[1] < 0 or st.cmpval('sge', ('a', 1), ('c', 0)) == 0
        some = st.rng(('a', 1))[0] >= 0
        if not st.prop or (all_ and 'all' not in st.prop) or (some and 'prefix' not in st.prop):
            self.ctx.violation('flush', an.fn, i.line, 'oldest_live', 'reports a flush as done without setting the flush point of '
                               + ('the prefix' if some else 'the cache'))


def valid(ctx, prog, invalid, internal):
    fn = prog.fn('do_item_flush_expired') if 'do_item_flush_expired' in prog.fns else prog.fn('item_flush_expired')
    Analysis(prog, fn, FlushClient(ctx)).run()
    for f in prog.fns.values():
        if not (f.file or '').startswith('engines/default/'):
            continue
        ns = {base(prog.callee(i) or '') for i in f.calls()}
        if ns & {'ITEM_REFCOUNT_INCR', 'do_item_isvalid', 'do_item_invalidate', 'do_item_reclaim', 'do_item_unlink'} or f.name == 'do_item_get' \
                or any(i.op == 'store' and prog.addr_field(f, i.p) == '_hash_item.refcount' for i in f.all()):
            c = ValidClient(ctx, invalid, internal)
            a = Analysis(prog, f, c)
            a.run()
            ctx.count('functions')
            ctx.count('abstract states', a.nstates)
            ctx.count('pins and removals', len(c.sites))
    for nm, r in (('do_item_isvalid', 'item'), ('prefix_isvalid', 'prefix')):
        c = IsValidClient(ctx, r)
        Analysis(prog, prog.fn(nm), c).run()
        ctx.count('predicate exits', c.n)
