"""Element and space accounting, as linear equalities over ghost counters.

Along every path the analysis keeps
   X = elements removed and added  -  what the path did to the element count
   Y = size of these elements      -  what the path told do_coll_space_incr/decr()
as linear forms.  At a loop header an equality may be restated over the header's phis (the accumulators
that flow into the count or into the space call); a restatement is kept only when the back edge
re-establishes it, so what survives is an inductive invariant.  At every return X and Y must be 0.
"""
import re
from flow import Analysis, Client, last_field, ids_of, weak
from own import base
from prog import Broken

UNLINKED = 1
LINK_CELLS = ('head', 'tail', 'next', 'prev', 'htab', 'item')


def add(f, g, k=1):
    d = dict(f)
    for a, c in g:
        d[a] = d.get(a, 0) + k * c
        if d[a] == 0:
            del d[a]
    return frozenset(d.items())


ZERO = frozenset()
ONE = frozenset([(1, 1)])


def const(n):
    return frozenset([(1, n)]) if n else ZERO


def strip(v):
    while v[0] in ('tr', 'zx'):
        v = v[2]
    return v


def showform(f):
    return ' + '.join('%s*%s' % (c, a if not isinstance(a, tuple) else a[0]) for a, c in sorted(f, key=repr)) or '0'


class LedgerClient(Client):
    cap = 12
    total_cap = 1200

    def __init__(self, ctx, prog, fn, kind, btree_status):
        self.ctx, self.prog, self.fn, self.kind = ctx, prog, fn, kind
        self.elem = '_%s_elem_item' % kind
        self.status = btree_status
        self.slice_c, self.slice_s = set(), set()
        self.heads = {}
        self.entries = {}
        self.nadd = self.nrem = self.nbook = self.nret = 0
        self.fields_of_interest = frozenset(
            ['_%s_meta_info.%s' % (k, x) for k in (kind, 'coll') for x in ('ccnt', 'stotal')] +
            [self.elem + '.status', self.elem + '.next', '_btree_indx_node.ndepth', '_btree_leaf_node.ndepth', '#none'])
        self.slices()

    def slices(self):
        fn = self.fn
        insts = fn.insts

        def back(o, acc):
            if o is None or o[0] != 'i' or o[1] in acc:
                return
            i = insts.get(o[1]) if isinstance(insts, dict) else insts[o[1]]
            if i is None:
                return
            if i.op == 'phi':
                acc.add(i.id)
                for v in i.phi.values():
                    back(v, acc)
            elif i.op == 'bin' and i.k in ('add', 'sub', 'mul'):
                acc.add(i.id)
                back(i.a, acc)
                back(i.b, acc)
            elif i.op == 'cast':
                acc.add(i.id)
                back(i.a, acc)
            elif i.op == 'load':
                acc.add(i.id)
        for i in fn.all():
            if i.op == 'store' and (self.prog.addr_field(fn, i.p) or '').endswith('_meta_info.ccnt'):
                back(i.v, self.slice_c)
            if i.op == 'call':
                n = self.prog.callee(i)
                if n and base(n) in ('do_coll_space_incr', 'do_coll_space_decr') and len(i.args) > 2:
                    back(i.args[2], self.slice_s)
        # a function that touches no element only books node space
        self.lite = not any(i.op == 'store' and (self.prog.addr_field(fn, i.p) or '') in
                            (self.elem + '.next', self.elem + '.status', '_%s_meta_info.ccnt' % self.kind) for i in fn.all())
        self.sizes = self.leaf_sizes() if self.lite else None
        if self.lite:
            self.slice_c, self.slice_s = set(), set()
        self.slice = self.slice_c | self.slice_s

    def leaf_sizes(self):
        """sizes of the slabs_space_size() calls the booked amount is made of; None when it is made of anything else"""
        out, seen = set(), set()

        def walk(o):
            if o is None:
                return False
            if o[0] != 'i':
                return True
            if o[1] in seen:
                return True
            seen.add(o[1])
            i = self.fn.insts[o[1]]
            if i.op == 'phi':
                return all(walk(v) for v in i.phi.values())
            if i.op == 'bin' and i.k in ('add', 'sub', 'mul'):
                return walk(i.a) and walk(i.b)
            if i.op == 'cast':
                return walk(i.a)
            if i.op == 'call' and base(self.prog.callee(i) or '') == 'slabs_space_size' and i.args[0][0] == 'c':
                out.add(i.args[0][1])
                return True
            return False
        for i in self.fn.all():
            if i.op == 'call' and base(self.prog.callee(i) or '') in ('do_coll_space_incr', 'do_coll_space_decr'):
                if not walk(i.args[2]):
                    return None
        return out

    def entry(self, an, fn):
        self.headset = {h for (_, h) in an.back}
        return frozenset([('X', ZERO), ('Y', ZERO)])

    # ---- forms
    def lin(self, an, st, o):
        if o is not None and o[0] == 'i':
            for x in st.prop:
                if x[0] == 'L' and x[1] == o[1]:
                    return x[2]
        return self.sym(an.val(st, o))

    def sym(self, v):
        v = strip(v)
        if v[0] == 'c':
            return const(v[1])
        if v[0] == 'bin' and v[1] in ('add', 'sub'):
            return add(self.sym(v[2]), self.sym(v[3]), 1 if v[1] == 'add' else -1)
        if v[0] == 'bin' and v[1] == 'mul' and v[3][0] == 'c':
            return frozenset((a, c * v[3][1]) for a, c in self.sym(v[2]))
        return frozenset([(v, 1)])

    def setl(self, st, ident, f):
        st.prop = frozenset(x for x in st.prop if not (x[0] == 'L' and x[1] == ident)) | {('L', ident, f)}

    def value(self, an, st, i):
        if i.id not in self.slice:
            return
        if i.op == 'cast':
            self.setl(st, i.id, self.lin(an, st, i.a))
        elif i.k in ('add', 'sub'):
            self.setl(st, i.id, add(self.lin(an, st, i.a), self.lin(an, st, i.b), 1 if i.k == 'add' else -1))
        elif i.k == 'mul':
            a, b = self.lin(an, st, i.a), self.lin(an, st, i.b)
            g = ZERO
            for x, m in a:
                for y, n in b:
                    g = add(g, frozenset([(y if x == 1 else x if y == 1 else ('*',) + tuple(sorted((x, y), key=repr)), m * n)]))
            self.setl(st, i.id, g)

    def phis(self, an, st, b, prev):
        fn = an.fn
        ph = []
        for i in fn.blocks[b]:
            if i.op != 'phi':
                break
            if i.id in self.slice:
                ph.append(i)
        inc = {i.id: self.lin(an, st, i.phi[prev]) for i in ph}
        live = an.live[b]
        keep = set()
        X, Y = set(), set()
        for x in st.prop:
            if x[0] == 'L':
                if x[1] in live:
                    keep.add(x)
            elif x[0] == 'X':
                X.add(x[1])
            elif x[0] == 'Y':
                Y.add(x[1])
            else:
                keep.add(x)
        if b not in self.headset:
            for k, f in inc.items():
                keep = {x for x in keep if not (x[0] == 'L' and x[1] == k)}
                keep.add(('L', k, f))
            st.prop = frozenset(keep) | {('X', f) for f in X} | {('Y', f) for f in Y}
            return
        ids = an.back.get((prev, b))
        bodyatoms = set()
        for (u, h), body in an.back.items():
            if h == b:
                bodyatoms |= body
        for name, forms, sl in (('X', X, self.slice_c), ('Y', Y, self.slice_s)):
            mine = [i.id for i in ph if i.id in sl]
            subs = [()]
            if mine:
                subs += [tuple(mine)] + ([(m,) for m in mine] if len(mine) > 1 else [])
            for f in forms:
                for t in subs:
                    for sg in ((1, -1) if t else (1,)):
                        d = f
                        for p in t:
                            d = add(d, inc[p], -sg)
                        if any(isinstance(a, tuple) and (ids_of(a) & bodyatoms or self.patoms(a) & bodyatoms) for a, _ in d):
                            continue
                        key = (b, name, t, sg)
                        reg = self.entries.setdefault(key, set())
                        if ids is None:
                            reg.add(d)
                        elif d not in reg:
                            continue
                        g = d
                        for p in t:
                            g = add(g, frozenset([(('P', p), 1)]), sg)
                        keep.add((name, g))
        for k in inc:
            keep = {x for x in keep if not (x[0] == 'L' and x[1] == k)}
            keep.add(('L', k, frozenset([(('P', k), 1)])))
        st.prop = frozenset(keep)

    def patoms(self, a):
        if a[0] == 'P':
            return {a[1]}
        r = set()
        for x in a[1:]:
            if isinstance(x, tuple):
                r |= self.patoms(x)
        return r

    def merge_old(self, an, st, ids):
        return frozenset(x for x in st.prop if not (x[0] in ('ev', 'ty') and ids_of(x) & ids))

    # ---- events
    def shift(self, st, name, f):
        st.prop = frozenset((name, add(x[1], f)) if x[0] == name else x for x in st.prop)

    def event(self, an, st, what, e):
        if ('ev', what, e) in st.prop or ('ev', 'fresh', e) in st.prop:
            return
        k = 1 if what == 'add' else -1
        sg = {x[1] for x in st.prop if x[0] == 'sgn'} | {k}
        st.prop = frozenset(x for x in st.prop if x[0] != 'sgn') | {('sgn', k if len(sg) == 1 else 0)}
        if what == 'add':
            self.nadd += 1
        else:
            self.nrem += 1
        self.shift(st, 'X', const(k))
        self.shift(st, 'Y', frozenset([(('S', e), k)]))
        st.prop = st.prop | {('ev', what, e)}

    def prestore(self, an, st, i, addr, val):
        f = last_field(addr)
        if f is None or val is None:
            return
        s, _, fld = f.rpartition('.')
        if f.endswith('_meta_info.ccnt') and addr[0] == 'f':
            old = st.mem.get(addr)
            new = self.lin(an, st, i.v)
            oldf = None
            if old is not None:
                oldf = self.sym(old)
                # a folded addition keeps its linear form
                for x in st.prop:
                    if x[0] == 'cell' and x[1] == addr and x[2] == old:
                        oldf = x[3]
            d = add(new, oldf, -1) if oldf is not None else new
            self.nbook += 1
            st.prop = st.prop | {('sgn', 0)}
            self.shift(st, 'X', frozenset((a, -c) for a, c in d))
            st.prop = frozenset(x for x in st.prop if not (x[0] == 'cell' and x[1] == addr)) | {('cell', addr, val, new)}
            return
        if s == self.elem and addr[0] == 'f':
            e = addr[1]
            v = st.const(val)
            if fld == 'next' and v == UNLINKED:
                self.event(an, st, 'remove', e)
            if fld == 'status' and self.kind == 'btree':
                old = st.mem.get(addr)
                if v in self.status['gone'] and old is not None and st.const(old) in self.status['gone']:
                    pass
                elif v in self.status['gone']:
                    self.event(an, st, 'remove', e)
                elif v in self.status['used']:
                    self.event(an, st, 'add', e)
        if fld in LINK_CELLS and val[0] == 'a' and self.kind != 'btree':
            t = an.fn.args[val[1]][1] or ''
            if self.elem.lstrip('_') in t:
                self.event(an, st, 'add', val)

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'do_item_mem_alloc':
            an.effect(st, i, name, args)
            st.prop = st.prop | {('ev', 'fresh', st.env[i.id])}
            return [st]
        if n == 'do_%s_elem_ntotal' % self.kind:
            st.env[i.id] = ('N', args[0])
            return [st]
        if n == 'slabs_space_size':
            a = strip(args[0])
            if a[0] == 'N':
                st.env[i.id] = ('S', a[1])
            elif a[0] == 'c':
                st.env[i.id] = ('SC', a)
            else:
                an.effect(st, i, name, args)
            return [st]
        if n in ('do_coll_space_incr', 'do_coll_space_decr'):
            f = self.lin(an, st, i.args[2])
            self.nbook += 1
            k = 1 if n.endswith('incr') else -1
            node = frozenset(x for x in f if self.isnode(x[0]))
            if self.lite and not node and self.sizes:
                node = frozenset([(('many',), 1)])
                f = node
            self.shift(st, 'Y', frozenset((a, -c * k) for a, c in f - node))
            if node:
                m = 1 + max([x[3] for x in st.prop if x[0] == 'nb'] + [0])
                st.prop = st.prop | {('nb', k, node, min(m, 2))}
            if args[1] != ('c', self.ctx_type):
                self.ctx.violation('space', an.fn, i.line, n, 'accounts the space under another item type')
        return None

    def isnode(self, a):
        return isinstance(a, tuple) and (a[0] == 'SC' or (a[0] == '*' and any(self.isnode(x) for x in a[1:])))

    def live_syms(self, prop):
        out = []
        for x in prop:
            if x[0] in ('X', 'Y'):
                out += [a[1] if a[0] == 'S' else a for a, _ in x[1] if isinstance(a, tuple) and a[0] != 'P']
        return out

    def branch(self, an, st, i, cond, truth):
        # the collection is no longer linked: its space has been given back as a whole
        if ('free',) not in st.prop:
            for x in list(st.mem.items()):
                if (last_field(x[0]) or '').endswith('_meta_info.stotal') and st.known_eq(x[1], 0):
                    st.prop = st.prop | {('free',)}
                    break
        # an accumulator that is zero is a sum of zeros
        c = an.fn.insts.get(i.c[1]) if i.op == 'br' and i.c is not None and i.c[0] == 'i' else None
        if c is None or c.op != 'icmp':
            return
        a, b, p = c.a, c.b, c.pred
        if b is None or an.val(st, b) != ('c', 0) or a[0] != 'i' or a[1] not in self.slice:
            return
        if not truth:
            p = st.NEG[p]
        f = self.lin(an, st, a)
        if not all(k > 0 and (x == 1 or (isinstance(x, tuple) and x[0] == 'P')) for x, k in f):
            return
        if p in ('eq', 'ule', 'sle'):
            if any(x == 1 for x, _ in f):
                return False
            zero = {x for x, _ in f}
            sg = {x[1] for x in st.prop if x[0] == 'sgn'}
            out = set()
            for x in st.prop:
                if x[0] in ('X', 'Y', 'L'):
                    g = frozenset(y for y in x[-1] if y[0] not in zero)
                    if x[0] == 'X' and not g and x[-1] and 0 not in sg and sg:
                        return False
                    x = x[:-1] + (g,)
                out.add(x)
            st.prop = frozenset(out)
        elif p in ('ne', 'ugt', 'sgt') and not f:
            return False

    def ret(self, an, st, i, val):
        self.nret += 1
        X = [x[1] for x in st.prop if x[0] == 'X']
        Y = [x[1] for x in st.prop if x[0] == 'Y']
        free = ('free',) in st.prop
        if ZERO not in X:
            self.ctx.violation('count', an.fn, i.line, 'element count', 'the element count changes by a different number than elements were '
                               'linked or unlinked on this path (difference %s)' % (' or '.join(map(showform, X)) or 'not constant over a loop'))
        Y = [self.equal(st, f) for f in Y]
        if not free and ZERO not in Y:
            self.ctx.violation('space', an.fn, i.line, 'collection space', 'the space accounted differs from the size of what was linked or '
                               'unlinked on this path (difference %s)' % (' or '.join(map(showform, Y)) or 'not constant over a loop'))

        self.nodes(an, st, i, free)

    def nodes(self, an, st, i, free):
        nb = [x for x in st.prop if x[0] == 'nb']
        n = base(an.fn.name)
        if n.endswith(('_node_link', '_node_unlink')):
            k = 1 if n.endswith('_node_link') else -1
            if not nb:
                if not (free and k < 0):
                    self.ctx.violation('space', an.fn, i.line, 'node space', 'a node is %s without accounting its space' % ('linked' if k > 0 else 'unlinked'))
                return
            if len(nb) > 1 or nb[0][3] != 1 or nb[0][1] != k or len(nb[0][2]) != 1 or list(nb[0][2])[0][1] != 1:
                self.ctx.violation('space', an.fn, i.line, 'node space', 'the space of a node is not accounted exactly once')
                return
            a = list(nb[0][2])[0][0]
            size = a[1][1] if a[0] == 'SC' else None
            want = self.node_sizes[0]
            if self.kind == 'btree':
                d = [v for c, v in st.mem.items() if (last_field(c) or '').endswith('.ndepth')]
                want = None
                for v in d:
                    if st.rng(v)[1] == 0:      # unsigned
                        want = self.node_sizes[0]
                    elif st.known_ne(v, 0):
                        want = self.node_sizes[1]
            if size != want:
                self.ctx.violation('space', an.fn, i.line, 'node space', 'a node is accounted with a size that is not its own')
        elif n.endswith('_node_merge'):
            if any(x[1] != -1 for x in nb) or (self.sizes or set()) - set(self.node_sizes):
                self.ctx.violation('space', an.fn, i.line, 'node space', 'merged nodes are accounted with a size that is not theirs')
        elif nb:
            self.ctx.violation('space', an.fn, i.line, 'node space', 'node space is accounted where no node is linked or unlinked')

    def equal(self, st, f):
        """sizes the path knows to be equal cancel"""
        for a, k in f:
            for b, m in f:
                if k == -m and k > 0 and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'S' and \
                        1 in (st.cmpval('eq', a, b), st.cmpval('eq', b, a)):
                    return self.equal(st, f - {(a, k), (b, m)})
        return f


def alloc_sizes(prog, fn):
    """constant sizes the function allocates, smallest first (a leaf is smaller than an index node)"""
    class C(Client):
        cap = 8

        def __init__(self):
            self.got = set()

        def call(self, an, st, i, name, args):
            if name and base(name) == 'do_item_mem_alloc':
                if args[0][0] != 'c':
                    raise Broken('size of a node is not a constant in ' + an.fn.name)
                self.got.add(args[0][1])
            return None
    c = C()
    Analysis(prog, fn, c).run()
    return sorted(c.got)


def relevant(prog, fn):
    for i in fn.all():
        if i.op == 'store':
            f = prog.addr_field(fn, i.p) or ''
            if f.endswith('_meta_info.ccnt') or f.endswith(('_elem_item.next', '_elem_item.status')):
                return True
        elif i.op == 'call':
            n = prog.callee(i)
            if n and base(n) in ('do_coll_space_incr', 'do_coll_space_decr'):
                return True
    return False


def elements(ctx, prog, status, types):
    # what a node occupies: the size its allocation asks for
    sizes = {}
    for f in prog.fns.values():
        m = re.match(r'^do_(set|map|btree)_node_alloc$', f.name)
        if m:
            sizes[m.group(1)] = alloc_sizes(prog, f)
    n = {'add': 0, 'rem': 0, 'book': 0}
    for f in prog.fns.values():
        stem = (f.file or '').split('/')[-1]
        if not stem.startswith('coll_') or not stem.endswith('.c') or not f.blocks or not relevant(prog, f):
            continue
        kind = stem[5:-2]
        c = LedgerClient(ctx, prog, f, kind, status)
        c.ctx_type = types[kind]
        c.node_sizes = sizes.get(kind)
        a = Analysis(prog, f, c)
        a.run()
        ctx.count('functions')
        ctx.count('abstract states', a.nstates)
        n['add'] += c.nadd
        n['rem'] += c.nrem
        n['book'] += c.nbook
        ctx.sample(f.name)
    for k, v in n.items():
        ctx.count({'add': 'link events', 'rem': 'unlink events', 'book': 'bookings'}[k], v)
