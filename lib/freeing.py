"""Memory that a reader may hold is neither freed nor rewritten in place.

Obligations, per call site on every path:
  free-pinned   a non-fresh element or item is freed only where its reference count is known to be zero
  free-linked   ... and where it is known to be unlinked from its collection or from the hash index
  write-pinned  the value of a non-fresh element or item is rewritten in place only where nobody else holds it
  unpinned      an element stored in an array handed to the caller has its reference count incremented,
                before any call that unlinks (and so may free) it
"""
from flow import Analysis, Client, root, weak, fmt, last_field
from own import base

COLL = ('list', 'set', 'map', 'btree')
ELEM_FREE = {'do_%s_elem_free' % c for c in COLL}
ITEM_FREE = {'do_item_free'}
UNLINKERS = {'do_%s_elem_unlink' % c for c in COLL} | {'do_btree_elem_unlink'}
FRESH = {'do_%s_elem_alloc' % c for c in COLL} | {'%s_elem_alloc' % c for c in COLL} | {'do_item_alloc', 'item_alloc', 'pop_coll_del_queue'}
INTERNAL = {'do_btree_find_leaf'}      # a lookup whose result stays inside the critical section
PINNED_RET = {'do_set_elem_at_offset'}
FRESH_ARG = {'%s_elem_free' % c for c in COLL}
ELEM_STRUCTS = tuple('%s_elem_item' % c for c in COLL)
UNLINKED_FIELD = {'list': 'next', 'set': 'next', 'map': 'next'}
BODY = ('data', 'value', 'nbytes', 'neflag', 'nfield')
INF = float('inf')


def fld(f):
    return f.split('.')[-1] if f else None


def owner(f):
    return f.split('.')[0].lstrip('_') if f else ''


class FreeClient(Client):
    cap = 16
    total_cap = 400
    keep_old = True

    def __init__(self, ctx, prog, items):
        self.ctx = ctx
        self.prog = prog
        self.items = items
        self.sites = set()
        self.moved = set()
        self.data = {}

    def entry(self, an, fn):
        if base(fn.name) in FRESH_ARG:
            return frozenset([('fresh', ('a', 0))])
        return frozenset()

    def merge_old(self, an, st, ids):
        from flow import ids_of
        out = set()
        for x in st.prop:
            if x[0] == 'out' and ('pin', x[1]) in st.prop:
                continue
            if x[0] in ('pin', 'unl') and ids_of(x[1]) & ids:
                continue
            out.add(x)
        return frozenset(out)

    def live_syms(self, prop):
        return [x[1] for x in prop]

    def v(self, an, rule, i, what, msg):
        self.ctx.violation(rule, an.fn, i.line, what, msg)

    # a field of object sym, whatever the struct name
    def cell(self, st, sym, field, structs):
        for k, v in st.mem.items():
            if k[0] == 'f' and k[1] == sym and fld(k[2]) == field:
                return v
        return None

    def fresh(self, an, st, sym):
        return ('fresh', sym) in st.prop

    def refs(self, an, st, sym, n=0):
        for k, v in st.mem.items():
            if k[0] == 'f' and k[1] == sym and fld(k[2]) == 'refcount' and (st.known_eq(v, n) or n == 0 and st.rng(v)[1] <= 0):
                return True      # an unsigned count
        return False

    def unlinked(self, an, st, sym, kind):
        if ('unl', sym) in st.prop:
            return True
        for k, v in st.mem.items():
            if k[0] != 'f' or k[1] != sym:
                continue
            f = fld(k[2])
            if f == 'next' and st.known_eq(v, 1):
                return True
            if f == 'status' and st.known_ne(v, self.USED):
                return True
            if f == 'iflag' and clear(st, v, self.LINKED):
                return True
        return False

    def call(self, an, st, i, name, args):
        n = base(name) if name else None
        if n in FRESH:
            an.effect(st, i, name, args)
            sym = st.env[i.id]
            st.prop = st.prop | {('fresh', sym)}
            return [st]
        if n in ELEM_FREE or n in ITEM_FREE:
            e = args[0]
            self.sites.add(i.id)
            if not self.fresh(an, st, e):
                if ('freed', e) not in st.prop:
                    if not self.refs(an, st, e):
                        self.v(an, 'free-pinned', i, n, '%s() frees %s although its reference count may not be zero' % (n, fmt(e)))
                    if not self.unlinked(an, st, e, n):
                        self.v(an, 'free-linked', i, n, '%s() frees %s although it may still be linked' % (n, fmt(e)))
            an.effect(st, i, name, args)
            return [st]
        if n == 'item_get_data':
            an.effect(st, i, name, args)
            self.data[st.env[i.id]] = args[0]
            return [st]
        if n in PINNED_RET:
            an.effect(st, i, name, args)
            st.prop = st.prop | {('pin', st.env[i.id])}
            return [st]
        if n in UNLINKERS:
            for a in args:
                if ('out', a) in st.prop and ('pin', a) not in st.prop:
                    self.sites.add(i.id)
                    self.v(an, 'unpinned', i, n, 'unlinks %s, which was handed to the caller without a reference' % fmt(a))
            return None
        if n in ('memcpy', 'memmove', 'strcpy', 'strncpy', 'snprintf', 'sprintf'):
            self.write(an, st, i, args[0])
        return None

    def elemfield(self, a):
        f = last_field(a)
        return f is not None and owner(f) in ELEM_STRUCTS and fld(f) in BODY

    def write(self, an, st, i, addr):
        r = addr
        while r[0] == 'x' or (r[0] == 'f' and fld(r[2]) in BODY):
            r = r[1]
        if r in self.data:
            self.sites.add(i.id)
            o = self.data[r]
            if not self.fresh(an, st, o):
                self.v(an, 'write-pinned', i, 'item value', 'rewrites the value of %s in place although a reader may hold the item' % fmt(o))
            return
        if r[0] in ('al', 'g', 'c', 'u', 's'):
            return
        if self.elemfield(addr):
            self.sites.add(i.id)
            if self.fresh(an, st, r) or r[0] == 'a':
                return
            if not self.refs(an, st, r):
                self.v(an, 'write-pinned', i, 'element body', 'rewrites %s in place although a reader may hold the element' % fmt(addr))

    def prestore(self, an, st, i, addr, val):
        # dropping a reference frees only what the collection has given up
        f = last_field(addr)
        if addr[0] == 'f' and fld(f) == 'status' and owner(f) in ELEM_STRUCTS and st.known_eq(val, 0) \
                and base(an.fn.name).endswith('_elem_release'):
            old = st.mem.get(addr)
            if old is None or not st.known_ne(old, self.USED):
                self.v(an, 'free-linked', i, 'status', 'marks %s free although it may still be linked' % fmt(addr[1]))

    def store(self, an, st, i, addr, val):
        f = last_field(addr)
        if addr[0] == 'f':
            if fld(f) == 'refcount' and owner(f) in ELEM_STRUCTS and self.incremented(an, i):
                st.prop = st.prop | {('pin', addr[1])}
                self.sites.add(i.id)
            if fld(f) == 'iflag':
                if clear(st, val, self.LINKED):
                    st.prop = st.prop | {('unl', addr[1])}
                else:
                    st.prop = st.prop - {('unl', addr[1])}
            if self.elemfield(addr):
                self.write(an, st, i, addr)
        if val[0] in ('i', 'f', 'o', 'r', 'j') and addr[0] != 'al' and root(addr)[0] != 'al':
            if self.outarray(an, st, addr):
                if val not in self.moved:
                    st.prop = st.prop | {('out', val)}

    def outarray(self, an, st, addr):
        """a cell of an array that a parameter points at, or *parameter"""
        a = addr
        while a[0] == 'x':
            a = a[1]
        if a[0] == 'a':
            t = an.fn.args[a[1]][1] if a[1] < len(an.fn.args) else ''
            return '**' in str(t) and ('elem_item' in str(t) or 'elem' in an.fn.args[a[1]][0])
        if a == addr:
            return False
        if a[0] == 'f':
            return fld(a[2]) == 'elem_array'
        for k, v in st.mem.items():
            if v == a and k[0] == 'f' and fld(k[2]) == 'elem_array':
                return True
        return False

    def load(self, an, st, i, addr, val):
        # an element moved inside the result array keeps the reference it has
        if addr[0] == 'x' and self.outarray(an, st, addr):
            self.moved.add(val)

    def incremented(self, an, i):
        o = i.v
        while o is not None and o[0] == 'i':
            d = an.fn.insts.get(o[1])
            if d is None:
                return False
            if d.op == 'bin':
                return d.k == 'add' and d.b == ('c', 1)
            o = d.a
        return False

    def finish(self, an, st, i):
        for x in st.prop:
            if x[0] == 'out' and ('pin', x[1]) not in st.prop and not self.fresh(an, st, x[1]) and not st.known_eq(x[1], 0):
                self.v(an, 'unpinned', i, 'result array', 'hands %s to the caller without taking a reference' % fmt(x[1]))

    def ret(self, an, st, i, val):
        if base(an.fn.name) in PINNED_RET and not st.known_eq(val, 0) and ('pin', val) not in st.prop:
            self.sites.add(i.id)
            self.v(an, 'unpinned', i, 'result', 'returns %s without taking a reference' % fmt(val))
        self.finish(an, st, i)


def clear(st, v, mask):
    """is (v & mask) known to be zero"""
    while v[0] == 'tr':
        v = v[2]
    if v[0] == 'bin' and v[1] == 'and':
        for c in (v[2], v[3]):
            if c[0] == 'c' and c[1] & mask == 0:
                return True
    if v[0] == 'c':
        return v[1] & mask == 0
    for cand in (('bin', 'and', v, ('c', mask)), ('bin', 'and', ('c', mask), v)):
        if st.known_eq(cand, 0):
            return True
    return False


def check(ctx, prog, linked, used):
    events = FRESH | ELEM_FREE | ITEM_FREE
    nf = 0
    for fn in sorted(prog.fns.values(), key=lambda f: f.name):
        if not fn.file.startswith('engines/') or base(fn.name) in ELEM_FREE | ITEM_FREE | INTERNAL:
            continue
        hit = False
        for i in fn.all():
            if i.op == 'call':
                n = base(prog.callee(i) or '')
                if n in ELEM_FREE | ITEM_FREE | {'item_get_data'}:
                    hit = True
            elif i.op == 'gep':
                if any(isinstance(q, str) and fld(q) == 'data' and owner(q) in ELEM_STRUCTS for q in i.steps or ()):
                    hit = hit or any(base(prog.callee(c) or '').startswith(('llvm.mem', 'mem')) for c in fn.calls())
            elif i.op == 'store':
                f = prog.addr_field(fn, i.p)
                if f and (fld(f) in ('refcount', 'nbytes', 'neflag') and owner(f) in ELEM_STRUCTS or fld(f) == 'elem_array'):
                    hit = True
        if base(fn.name) in PINNED_RET:
            hit = True
        for a in fn.args:
            if 'elem' in a[0] and '**' in str(a[1]):
                hit = True
        if not hit:
            continue
        c = FreeClient(ctx, prog, None)
        c.LINKED, c.USED = linked, used
        a = Analysis(prog, fn, c)
        a.run()
        nf += 1
        ctx.count('functions')
        ctx.count('abstract states', a.nstates)
        ctx.count('free, pin and in-place write sites', len(c.sites))
