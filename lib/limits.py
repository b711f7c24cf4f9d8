"""Limits are looked at before anything is added.

   count   where an element count is raised, the path has found it below the limit of that collection (its own maximum, or the
           configured one where it has none), or found it empty, or removes an element in exchange
   error   an element is trimmed in exchange only where the overflow action is known not to be 'error'
   sticky  where an element count is raised or an item is handed out with a sticky lifetime, the path has found the collection or
           lifetime not sticky or the sticky memory below its limit; the same where an element is replaced by a bigger one
   maximum the maximum of a collection is stored only after being cut to the configured one, and never below its element count
"""
import re
from flow import Analysis, Client, last_field, ids_of
from own import base

INF = float('inf')
META = re.compile(r'^_?(list|set|map|btree|coll)_meta_info\.(ccnt|mcnt|ovflact|mflags)$')
CONF = re.compile(r'^(?:config|engine_config|_engine_config)\.max_(list|set|map|btree)_size$|\.max_(list|set|map|btree)_size$')
SIZE = re.compile(r'\.(nbytes|neflag)$')


def strip(v):
    while v[0] in ('tr', 'zx'):
        v = v[2]
    return v


class Limit(Client):
    cap = 60
    total_cap = 4000

    def __init__(self, ctx, K, fn):
        self.ctx, self.K, self.fn = ctx, K, fn
        self.sites = set()
        self.bad = {}

    def entry(self, an, fn):
        return frozenset()

    def live_syms(self, prop):
        return [y for x in prop for y in x[1:] if isinstance(y, tuple)]

    def merge_old(self, an, st, ids):
        for x in st.prop:
            if x[0] == 'cut' and ids_of(x) & ids and not (
                    st.rng(x[1])[1] <= 0 or any(st.cmpval(p, x[1], c) == 0 for c in self.vals(st, 'ccnt') for p in ('slt', 'ult')) or
                    any(st.rng(c)[1] <= 0 for c in self.vals(st, 'ccnt'))):
                self.report('maximum', x[2], 'maxcount', 'accepts a maximum that may be below the number of elements held')
        return frozenset(x for x in st.prop if not ids_of(x) & ids)

    def load(self, an, st, i, addr, val):
        if self.pred and addr == ('a', 2) and not any(x[0] == 'type' for x in st.prop):
            st.narrow(val, self.K['NONE'], self.K['NONE'], frozenset())     # the caller starts from 'no trim'
        f = last_field(addr)
        if not f:
            return
        m = META.match(f)
        k = m.group(2) if m else 'max' if CONF.search(f) else 'exptime' if f == '_hash_item.exptime' else 'size' if SIZE.search(f) else None
        if k == 'size' and 'sticky' not in self.fn.name and not self.replaces:
            k = None
        if k:
            st.prop = st.prop | {('v', k, val)}
            if k == 'size' and '_elem_item.' in f:
                b = addr
                while b[0] in ('f', 'x'):
                    b = b[1]
                st.prop = st.prop | {('v', 'esize', val), ('sz', val, b, f)}

    def vals(self, st, k):
        return [x[2] for x in st.prop if x[0] == 'v' and x[1] == k]

    def report(self, rule, line, what, msg):
        self.bad[(rule, line, what)] = msg

    def prestore(self, an, st, i, addr, val):
        f = last_field(addr)
        if addr == ('a', 2) and self.pred and val is not None:
            st.prop = frozenset(x for x in st.prop if x[0] != 'type') | {('type', val)}
        m = META.match(f) if f else None
        if not m or val is None:
            return
        if m.group(2) == 'ccnt':
            v = strip(val)
            if v[0] == 'bin' and v[1] == 'add' and v[3] == ('c', 1):
                self.sites.add(('raise', i.line))
                self.raised(an, st, i, v[2])
        elif m.group(2) == 'mcnt':
            self.sites.add(('mcnt', i.line))
            self.maximum(an, st, i, addr, strip(val))

    def raised(self, an, st, i, old):
        if not self.below(st, old) and not any(x[0] == 'trim' for x in st.prop):
            st.prop = st.prop | {('owes', i.line)}
        if not self.notsticky(st):
            self.report('sticky', i.line, 'element count', 'adds an element without having found the sticky memory below its limit')

    def below(self, st, old):
        if st.rng(old)[1] <= 0 or ('fits',) in st.prop:
            return True
        for lim in self.vals(st, 'mcnt'):
            if st.rng(lim)[0] >= 1 and self.lt(st, old, lim):
                return True
        for lim in self.vals(st, 'max'):
            if self.lt(st, old, lim) and any(st.rng(m)[1] <= 0 for m in self.vals(st, 'mcnt')):
                return True
        return False

    def lt(self, st, a, b):
        for p in ('slt', 'ult'):
            if st.cmpval(p, a, b) == 1:
                return True
        for p in ('sgt', 'ugt'):
            if st.cmpval(p, b, a) == 1:
                return True
        return False

    def notsticky(self, st):
        if ('roomy',) in st.prop:
            return True
        for v in self.vals(st, 'exptime'):
            if st.known_ne(v, -1):
                return True
        for k in list(st.facts):
            if k[0] == 'bin' and k[1] == 'and' and k[3] == ('c', self.K['STICKY']) and st.known_eq(k, 0):
                return True
        return False

    def maximum(self, an, st, i, addr, v):
        ok = any(x[0] in ('cut', 'cutok') and x[1] == v for x in st.prop) or self.cuts and self.from_attr(i)
        if not ok and self.fn.name not in self.K['applies']:
            self.report('maximum', i.line, 'mcnt', 'stores a maximum that was not cut to the configured one')

    def from_attr(self, i):
        """the value stored is read from the request's maxcount"""
        v = i.v
        while v[0] == 'i':
            d = self.fn.insts[v[1]]
            if d.op == 'load':
                return (self.prog.addr_field(self.fn, d.p) or '').endswith('.maxcount')
            if d.op != 'cast':
                return False
            v = d.a
        return False

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'item_get_meta':
            st.env[i.id] = ('f', args[0], '#meta')
            return [st]
        if n == 'do_btree_overflow_check' and len(args) == 3:
            keep = dict(st.mem)
            an.effect(st, i, name, args)
            st.mem.update({k: v for k, v in keep.items() if META.match(last_field(k) or '')})
            st.mem.pop(args[2], None)
            no, trim = st.copy(), st.copy()
            no.narrow(st.env[i.id], -INF, INF, frozenset([0]))
            st.env[i.id] = trim.env[i.id] = ('c', 0)
            st.mem[args[2]] = ('c', self.K['NONE'])
            st.prop = st.prop | {('fits',)}
            t = ('r', i.id, 1)
            trim.narrow(t, -INF, INF, frozenset([self.K['NONE']]))
            trim.mem[args[2]] = t
            trim.prop = trim.prop | {('mytrim',), ('v', 'type', t)}
            return [st, trim, no]
        elem = '_elem_' in n and n.startswith('do_') and not n.endswith(('_alloc', '_free', '_ntotal', '_find', '_release')) or n.endswith('_trim')
        mine = {k: v for k, v in st.mem.items() if (k[0] == 'al' or k == ('a', 2) and self.pred) and k not in args}
        keep = {} if elem else {k: v for k, v in st.mem.items() if META.match(last_field(k) or '') or last_field(k) == '_hash_item.exptime'}
        keep.update(mine)
        if n == 'do_item_sticky_overflowed':
            an.effect(st, i, name, args)
            st.mem.update(keep)
            yes = st.copy()
            yes.env[i.id] = ('c', 1)
            st.env[i.id] = ('c', 0)
            st.prop = st.prop | {('roomy',)}
            return [st, yes]
        if n.endswith('_elem_alloc') and self.replaces:
            an.effect(st, i, name, args)
            st.mem.update(keep)
            sizes = [strip(a) for a in args[1:-1]]
            st.prop = st.prop | {('made', st.env[i.id], tuple(sorted(sizes, key=repr)))}
            if all(a in self.vals(st, 'esize') for a in sizes):
                st.prop = st.prop | {('notbigger', st.env[i.id])}        # as big as the one it is made from
            return [st]
        if n.endswith('_real_maxcount'):
            an.effect(st, i, name, args)
            st.mem.update(keep)
            st.prop = st.prop | {('cut', st.env[i.id], i.line)}
            return [st]
        if n.endswith('_elem_replace') and self.replaces:
            self.sites.add(('replace', i.line))
            if not self.notsticky(st) and not self.smaller(st, args[-1]):
                self.report('sticky', i.line, n, 'replaces an element, maybe by a bigger one, without having found the sticky memory below its limit')
        if n.endswith(('_elem_delete', '_overflow_trim', '_elem_unlink')) and self.adds:
            if ('mytrim',) not in st.prop and not any(st.known_ne(v, self.K['ERROR']) for v in self.vals(st, 'ovflact')):
                self.report('error', i.line, n, 'may trim an element although the overflow action is to refuse')
            an.effect(st, i, name, args)
            st.mem.update(keep)
            st.prop = frozenset(x for x in st.prop if x[0] != 'owes') | {('trim',)}
            return [st]
        an.effect(st, i, name, args)
        st.mem.update(keep)
        return [st] if not i.noret else []

    def smaller(self, st, new):
        """the sizes of the old element were compared with all sizes of the new one and found not below"""
        if ('notbigger', new) in st.prop:
            return True
        made = [x[2] for x in st.prop if x[0] == 'made' and x[1] == new]
        if not made:
            made = [tuple(sorted({x[1] for x in st.prop if x[0] == 'sz' and x[2] == new}, key=repr))]
        old = {x[1] for x in st.prop if x[0] == 'sz' and x[2] != new}
        n = 2 if any('btree' in x[3] for x in st.prop if x[0] == 'sz') else 1        # a b+tree element has an eflag as well
        return any(x[0] == 'ge' and x[2] in made and len(x[2]) == n and set(x[1]) <= old and len(x[1]) == n for x in st.prop)

    def branch(self, an, st, i, cond, truth):
        # a maximum asked for by a client is refused when the collection already holds more
        if cond is not None and cond[0] == 'cmp':
            p, a, b = cond[1][-2:], strip(cond[2]), strip(cond[3])
            for x in list(st.prop):
                if x[0] != 'cut' or x[1] not in (a, b):
                    continue
                o = b if a == x[1] else a
                q = p if a == x[1] else {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p, p)
                if not truth:
                    q = {'lt': 'ge', 'gt': 'le', 'le': 'gt', 'ge': 'lt'}.get(q, '?')
                if o in [strip(v) for v in self.vals(st, 'ccnt')] and q in ('ge', 'gt') or o == ('c', 0) and q in ('le', 'lt'):
                    st.prop = st.prop - {x} | {('cutok', x[1])}
        if not self.replaces or cond is None or cond[0] != 'cmp':
            return
        p, a, b = cond[1][1:], self.leaves(cond[2]), self.leaves(cond[3])
        if p in ('gt', 'le'):
            p, a, b = {'gt': 'lt', 'le': 'ge'}[p], b, a
        # old < new asked and denied, or old >= new asked and granted
        if p == 'lt' and not truth or p == 'ge' and truth:
            st.prop = st.prop | {('ge', a, b)}

    def leaves(self, v):
        v = strip(v)
        if v[0] == 'bin' and v[1] == 'add':
            return tuple(sorted(self.leaves(v[2]) + self.leaves(v[3]), key=repr))
        return (v,)

    def ret(self, an, st, i, val):
        if self.fn.name == 'do_btree_overflow_check' and not st.known_ne(val, 0):
            t = ([x[1] for x in st.prop if x[0] == 'type'] or [('c', self.K['NONE'])])[0]
            if t is None or not (st.known_eq(t, self.K['NONE']) or st.known_ne(t, self.K['NONE'])):
                self.report('count', i.line, 'overflow type', 'cannot tell whether a trim is asked for')
            elif st.known_eq(t, self.K['NONE']):
                if not any(self.below(st, c) for c in self.vals(st, 'ccnt')):
                    self.report('count', i.line, 'element count', 'lets an element in without having found the count below the limit')
            elif not any(st.known_ne(v, self.K['ERROR']) for v in self.vals(st, 'ovflact')):
                self.report('error', i.line, 'overflow action', 'asks for a trim although the overflow action is to refuse')
        for x in st.prop:
            if x[0] == 'owes':
                self.report('count', x[1], 'element count', 'adds an element without having found the count below the limit of the collection')


class Handout(Client):
    cap = 40

    def __init__(self, ctx):
        self.ctx = ctx

    def live_syms(self, prop):
        return [y for x in prop for y in x[1:] if isinstance(y, tuple)]

    def call(self, an, st, i, name, args):
        if name and base(name) == 'do_item_sticky_overflowed':
            an.effect(st, i, name, args)
            yes = st.copy()
            yes.env[i.id] = ('c', 1)
            st.env[i.id] = ('c', 0)
            st.prop = st.prop | {('roomy',)}
            return [st, yes]
        return None

    def ret(self, an, st, i, val):
        if val is None or st.known_eq(val, 0):
            return
        self.ctx.count('items handed out')
        e = ('a', [k for k, a in enumerate(an.fn.args) if a[0] == 'exptime'][0])
        if ('roomy',) not in st.prop and not st.known_ne(e, -1):
            self.ctx.violation('sticky', an.fn, i.line, 'item', 'hands out a sticky item without having found the sticky memory below its limit')


def raises(f, i):
    d = f.insts.get(i.v[1]) if i.v[0] == 'i' else None
    return d is not None and d.op == 'bin' and d.k == 'add' and d.b == ('c', 1)


def check(ctx, prog, base_prog, K, rules):
    for f in sorted(prog.fns.values(), key=lambda f: f.name):
        if not f.blocks or not f.stem.startswith(('coll_', 'items')):
            continue
        adds = any(i.op == 'store' and (prog.addr_field(f, i.p) or '').endswith('_meta_info.ccnt') and raises(f, i) for i in f.all())
        pred = f.name == 'do_btree_overflow_check'
        maxi = any(i.op == 'store' and (prog.addr_field(f, i.p) or '').endswith('_meta_info.mcnt') for i in f.all())
        rep = any(base(prog.callee(i) or '').endswith('_elem_replace') for i in f.calls())
        if not (adds or maxi or rep or pred):
            continue
        c = Limit(ctx, K, f)
        c.prog, c.pred = prog, pred
        c.cuts = any(i.op == 'store' and (prog.addr_field(f, i.p) or '').endswith('.maxcount') for i in f.all()) and \
            any(base(prog.callee(i) or '').endswith('_real_maxcount') for i in f.calls())
        c.adds = adds
        c.replaces = rep and f.name not in K['exempt']
        if not (adds or rep or pred):
            if 'maximum' not in rules:
                continue
            c.cap = 24
        if pred:
            c.cap = 100
        a = Analysis(prog, f, c)
        a.run()
        ctx.count('functions')
        ctx.count('abstract states', a.nstates)
        for k, _ in c.sites:
            ctx.count({'raise': 'count increments', 'mcnt': 'maximum stores', 'replace': 'replacements'}[k])
        for (rule, line, what), msg in sorted(c.bad.items()):
            if rule in rules:
                ctx.violation(rule, f, line, what, msg)
    if 'sticky' in rules:
        f = base_prog.fns['do_item_alloc']
        Analysis(base_prog, f, Handout(ctx)).run()
