"""How long an item lives.

  expiry    the expiration time a client gives becomes that of the item: 0 none, -1 sticky, other negative ones the past, up to 30 days
            from now, beyond that the point in time itself; what the engine is given is always the result of that conversion
  invalid   an item is called invalid only when its expiration time is set and reached or a flush at or after its last store covers it,
            its prefix or one around that
  flush     sets that mark to the second before now, or before the moment asked for
  evict     a valid item is evicted only where eviction is enabled and memory was found short, with nobody holding it, and reached from
            the old end of the list of ordinary (not sticky) items, to which new ones are added at the other end
"""
from durable import strip
import durable
from flow import Analysis, last_field
from ondisk import Track
from own import base
from prog import Broken, macro
from chkpt import Facts

DAYS30 = 30 * 24 * 3600
REPAIR = 3 * 3600
M32 = (1 << 32) - 1
LOADS = ('exptime', 'time', 'oldest_live', 'refcount', 'evict_to_free', 'tails', 'prev', 'pfxptr', 'parent_prefix')


def lin(v):
    d = dict(durable.lin(v))
    return {strip(k): n for k, n in d.items() if k != 1}, d.get(1, 0)


class Life(Facts):
    cap = 60
    total_cap = 4000

    def member(self, addr):
        f = last_field(addr)
        return f.split('.')[-1] if f else None

    def le(self, st, a, b):
        """a <= b, unsigned"""
        a, b = strip(a), strip(b)
        if a[0] == 'c' and b[0] == 'c':
            return a[1] <= b[1]
        return any(st.related(q, x, y) == w for q, x, y, w in (('ule', a, b, 1), ('uge', b, a, 1), ('ugt', a, b, 0), ('ult', b, a, 0),
                                                               ('ult', a, b, 1), ('ugt', b, a, 1), ('eq', a, b, 1)))

    def merge_old(self, an, st, ids):
        return Track.merge_old(self, an, st, ids)

    def live_syms(self, prop):
        return [y for x in prop for y in x[1:] if isinstance(y, tuple)]


class Realtime(Life):
    def ret(self, an, st, i, val):
        self.njudge += 1
        a, v, line = ('a', 0), strip(val), i.line or an.fn.line
        for x in self.get(st, 'rv'):
            v = ('c', x[2])
        lo, hi, ex = st.rng(a)
        if v[0] == 'c':
            c = v[1] & M32
            if c == 0:
                ok = lo == hi == 0
            elif c == M32:
                ok = lo == hi == -1
            elif c == 1:
                ok = hi < 0 and st.known_ne(a, -1) or lo > DAYS30 and self.past(st, a)
            else:
                ok = c == 0x7FFFFFFF and lo > DAYS30 and self.has(st, 'far')
            if not ok:
                self.vio(an, line, 'expiry %d' % (c if c != M32 else -1), 'given for other expiration times of a client than those it stands for')
            return
        d, c = self.sum(an, st, v)
        if d == {a: 1, 'current_time': 1} and c == 0:
            if not (lo > 0 and hi <= DAYS30):
                self.vio(an, line, 'relative', 'an expiration time outside the 30 days is counted from now, or one that means none or the past')
        elif d == {a: 1, 'process_started': -1} and c == 0:
            if not (lo > DAYS30 and self.has(st, 'later') and self.has(st, 'near')):
                self.vio(an, line, 'absolute', 'an expiration time within 30 days is taken for a point in time, or one that does not fit')
        else:
            self.vio(an, line, 'expiry', 'is neither the time from now nor the point in time asked for')

    def sum(self, an, st, v):
        d, c = lin(v)
        out = {}
        for k, n in d.items():
            k = strip(k)
            if k[0] == 'i' and an.fn.insts[k[1]].op == 'load':
                p = an.val(st, an.fn.insts[k[1]].p)
                k = p[1] if p[0] == 'g' else k
            out[k] = out.get(k, 0) + n
        return {k: n for k, n in out.items() if n}, c

    def past(self, st, a):
        return self.has(st, 'past')

    def branch(self, an, st, i, cond, truth):
        self.settle(an, st)
        v = strip(cond)
        if v[0] != 'cmp':
            return
        q = v[1] if truth else st.NEG[v[1]]
        for x, y, q in ((v[2], v[3], q), (v[3], v[2], st.SWAP[q])):
            d, c = self.sum(an, st, x)
            e, f = self.sum(an, st, y)
            for k, n in e.items():
                d[k] = d.get(k, 0) - n
            d, c = {k: n for k, n in d.items() if n}, c - f         # d + c  q  0
            if d == {('a', 0): 1, 'process_started': -1}:
                if q in ('sle', 'ule') and c == 0 or q in ('slt', 'ult') and c == -1:
                    self.tok(st, 'past')
                if q in ('sgt', 'ugt') and c == 0 or q in ('sge', 'uge') and c == -1:
                    self.tok(st, 'later')
                if q in ('sle', 'ule') and c == -0x7FFFFFFF or q in ('slt', 'ult') and c == -0x80000000:
                    self.tok(st, 'near')
                if q in ('sgt', 'ugt') and c in (-0x7FFFFFFF, -0x80000000 + 1) or q in ('sge', 'uge') and c in (-0x80000000, -0x7FFFFFFF):
                    self.tok(st, 'far')


class Given(Life):
    """memcached.c: what the engine gets as an expiration time"""
    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'realtime':
            an.effect(st, i, name, args)
            self.tok(st, 'real', st.env[i.id])
            return [st]
        k = self.K['ARGS'].get(name)
        if k is not None:
            self.njudge += 1
            if not self.real(st, args[k]):
                self.vio(an, i.line, name.split('.')[-1], 'the engine is given an expiration time that was not made from what the client asked')
        return None

    def real(self, st, v):
        v = strip(v)
        return v[0] == 'c' or any(strip(x[1]) == v for x in self.get(st, 'real'))

    def prestore(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        if f == 'item_attr.exptime':
            self.njudge += 1
            if not self.real(st, val):
                self.vio(an, i.line, f, 'an attribute is given an expiration time that was not made from what the client asked')

    def ret(self, an, st, i, val):
        pass


class Invalid(Life):
    """do_item_isvalid, prefix_isvalid: false only for a reason"""
    def load2(self, an, st, i, addr, val):
        m = self.member(addr)
        if m in ('exptime', 'time', 'oldest_live'):
            self.drop(st, lambda x: x[0] == m and x[2:] == (addr,))
            self.tok(st, m, st.env[i.id], addr)
        if m in ('pfxptr', 'parent_prefix'):
            self.tok(st, 'chain', st.env[i.id])

    def call(self, an, st, i, name, args):
        if base(name or '') == 'prefix_isvalid' and an.fn.name != 'prefix_isvalid':
            an.effect(st, i, name, args)
            no = st.copy()
            no.env[i.id] = ('c', 0)
            st.env[i.id] = ('c', 1)
            if args[0] == ('a', 0) and args[1] == ('a', 1):
                self.tok(no, 'why')
            return [st, no]
        return None

    def settle(self, an, st):
        Life.settle(self, an, st)
        now = ('a', 1)
        for x in self.get(st, 'exptime'):
            if x[2][1] == ('a', 0) and st.known_ne(x[1], 0) and self.le(st, x[1], now):
                self.tok(st, 'why')
        for x in self.get(st, 'oldest_live'):
            if st.known_ne(x[1], 0) and self.le(st, x[1], now) and any(t[2][1] == ('a', 0) and self.le(st, t[1], x[1]) for t in self.get(st, 'time')):
                self.tok(st, 'why')

    def phis(self, an, st, b, prev):
        Life.phis(self, an, st, b, prev)

    def ret(self, an, st, i, val):
        self.njudge += 1
        s = st.copy()
        v = strip(val)
        if v[0] == 'c' and v[1] != 0 or v[0] != 'c' and not (s.assume(v, False) if v[0] == 'cmp' else s.narrow(v, 0, 0)):
            return
        rv = [x[2] for x in self.get(s, 'rv')]
        if rv and rv[0] != 0 and v[0] != 'cmp':
            return
        self.settle(an, s)
        if not self.has(s, 'why'):
            self.vio(an, i.line or an.fn.line, 'invalid', 'an item is called invalid that has neither expired nor been flushed')


class Flush(Life):
    """the marks of a flush"""
    def call(self, an, st, i, name, args):
        if name and name.endswith('get_current_time'):
            an.effect(st, i, name, args)
            self.tok(st, 'now', st.env[i.id])
            return [st]
        return None

    def prestore(self, an, st, i, addr, val):
        if self.member(addr) != 'oldest_live' or val == ('c', 0):
            return
        self.njudge += 1
        d, c = lin(val)
        when = ('a', self.K['WHEN'](an.fn))
        if len(d) == 1:
            (k, n), = d.items()
            if n == 1 and (c & M32) == M32:
                if any(strip(x[1]) == strip(k) for x in self.get(st, 'now')) and st.known_eq(when, 0):
                    return
                if strip(k) == when and st.known_ne(when, 0):
                    return
        self.vio(an, i.line, 'oldest_live', 'the mark of a flush is not the second before now, or before the moment asked for')

    def ret(self, an, st, i, val):
        pass


class Evict(Life):
    """allocation and regaining of memory"""
    cap = 24

    def start(self, an, st):
        pass

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'slabs_alloc':
            an.effect(st, i, name, args)
            self.drop(st, lambda x: x[0] in ('got', 'nomem'))
            self.tok(st, 'got', st.env[i.id])
            return [st]
        if n in ('do_item_evict', 'do_item_regain', 'do_item_repair'):
            self.njudge += 1
            self.settle(an, st)
            if n != 'do_item_regain':
                self.item(an, st, i, n, args[0])
            if n == 'do_item_repair':
                if not self.has(st, 'stale', args[0]):
                    self.vio(an, i.line, n, 'an item in use is thrown out that was not left alone for three hours')
            elif an.fn.name != 'do_item_regain':
                if not self.has(st, 'enabled'):
                    self.vio(an, i.line, n, 'items are thrown out though eviction is not enabled')
                if n == 'do_item_regain' and not st.rng(args[0])[0] > 0:
                    self.vio(an, i.line, n, 'items are thrown out though memory is not short')
                if n == 'do_item_evict' and not self.has(st, 'nomem'):
                    self.vio(an, i.line, n, 'an item is thrown out though memory was there')
        return None

    def item(self, an, st, i, n, it):
        if not self.has(st, 'cold', it):
            self.vio(an, i.line, n, 'the item thrown out was not reached from the old end of the list of ordinary items')
        if n == 'do_item_evict' and not self.has(st, 'idle', it):
            self.vio(an, i.line, n, 'the item thrown out may be in use')

    def load2(self, an, st, i, addr, val):
        m, v = self.member(addr), st.env[i.id]
        p = addr
        while p[0] == 'x':
            p = p[1]
        m = self.member(p) if p != addr and not m else m
        if m == 'tails' or m == 'prev' and self.has(st, 'cold', addr[1]):
            self.tok(st, 'cold', v)
        if m == 'refcount' and self.has(st, 'cold', addr[1]):
            self.drop(st, lambda x: x[0] in ('ref', 'idle'))
            self.tok(st, 'ref', addr[1], v)
        if m == 'evict_to_free':
            self.tok(st, 'etf', v)
        if m == 'time' and self.has(st, 'cold', addr[1]):
            self.drop(st, lambda x: x[0] in ('time', 'stale'))
            self.tok(st, 'time', addr[1], v)

    def settle(self, an, st):
        for x in self.get(st, 'ref'):
            if st.known_eq(x[2], 0) or st.rng(x[2])[1] <= 0:          # unsigned
                self.tok(st, 'idle', x[1])
        if any(st.known_ne(x[1], 0) for x in self.get(st, 'etf')):
            self.drop(st, lambda x: x[0] == 'etf')
            self.tok(st, 'enabled')
        if any(st.known_eq(x[1], 0) for x in self.get(st, 'got')):
            self.drop(st, lambda x: x[0] == 'got')
            self.tok(st, 'nomem')

    def phis(self, an, st, b, prev):
        self.settle(an, st)
        live = set(st.env.values())
        self.drop(st, lambda x: x[0] == 'cold' and x[1] not in live)

    def merge_old(self, an, st, ids):
        live = set(st.env.values())
        return Track.merge_old(self, an, st, ids) | frozenset(x for x in st.prop if x[0] == 'cold' and x[1] in live)

    def branch(self, an, st, i, cond, truth):
        self.settle(an, st)
        v = strip(cond)
        if v[0] == 'cmp':
            q = v[1] if truth else st.NEG[v[1]]
            for x, y, q in ((v[2], v[3], q), (v[3], v[2], st.SWAP[q])):
                if q in ('ult', 'ule', 'slt', 'sle'):
                    for t in self.get(st, 'due'):
                        if strip(t[1]) == strip(x):
                            self.tok(st, 'stale', t[2])
                    for t in self.get(st, 'time'):
                        if strip(t[2]) == strip(x) and self.has(st, 'ago', strip(y)):
                            self.tok(st, 'stale', t[1])

    def value(self, an, st, i):
        if i.op == 'bin' and i.b[0] == 'c' and (i.b[1] if i.k == 'sub' else M32 + 1 - i.b[1] % (M32 + 1) if i.k == 'add' else 0) in range(REPAIR, 1 << 31):
            self.tok(st, 'ago', strip(an.val(st, ('i', i.id))))
        if i.op == 'bin' and i.k in ('add', 'sub'):
            for a, b in ((i.a, i.b), (i.b, i.a)):
                if b[0] == 'c' and (b[1] if i.k == 'add' else -b[1]) >= REPAIR:
                    for t in self.get(st, 'time'):
                        if strip(t[2]) == strip(an.val(st, a)):
                            self.drop(st, lambda x: x[0] == 'due')
                            self.tok(st, 'due', an.val(st, ('i', i.id)), t[1])

    def ret(self, an, st, i, val):
        pass


class Link(Life):
    """item_link_q"""
    def load2(self, an, st, i, addr, val):
        if self.member(addr) == 'exptime':
            self.tok(st, 'ex', st.env[i.id])

    def prestore(self, an, st, i, addr, val):
        p = addr
        while p[0] == 'x':
            p = p[1]
        m = self.member(p)
        if m in ('heads', 'sticky_heads', 'tails', 'sticky_tails'):
            self.njudge += 1
            sticky = any(st.known_eq(x[1], -1) or st.known_eq(x[1], M32) for x in self.get(st, 'ex'))
            if sticky != m.startswith('sticky'):
                self.vio(an, i.line, m, 'an item is put on the other list: sticky items are not for eviction')
            if m.endswith('heads'):
                self.tok(st, 'at head', val)

    def ret(self, an, st, i, val):
        self.njudge += 1
        if not self.has(st, 'at head', ('a', 0)):
            self.vio(an, i.line or an.fn.line, 'head', 'an item is not put at the young end of its list')


def check(ctx, P, args):
    K = {'ARGS': args, 'WHEN': lambda f: next((k for k, a in enumerate(f.args) if a[1] == 'rel_time_t'), -1)}

    def run(cls, fn):
        c = cls(ctx, P, K, fn, 'life')
        Analysis(P, fn, c).run()
        ctx.count('functions judged')
        ctx.count('moments judged', c.njudge)
        return c.njudge
    for cls, n in ((Realtime, 'realtime'), (Invalid, 'do_item_isvalid'), (Invalid, 'prefix_isvalid'), (Link, 'item_link_q')):
        if not run(cls, P.fn(n)):
            raise Broken('%s decides nothing' % n)
    todo = []
    for f in P.fns.values():
        names = {base(P.callee(i) or '') for i in f.calls()} | {P.callee(i) for i in f.calls()}
        if f.stem == 'memcached' and ('realtime' in names or names & set(args) or stores(f, 'exptime')):
            todo.append((Given, f))
        if f.stem != 'memcached' and stores(f, 'oldest_live'):
            todo.append((Flush, f))
        if names & {'do_item_evict', 'do_item_regain', 'do_item_repair'}:
            todo.append((Evict, f))

    def one(ctx, x):
        c = x[0](ctx, P, K, x[1], 'life')
        Analysis(P, x[1], c).run()
        ctx.count('functions judged')
        ctx.count('moments judged', c.njudge)
    ctx.fanout(one, todo)


def stores(f, member):
    return any(i.op == 'gep' and any(isinstance(x, str) and x.split('.')[-1] == member for x in i.steps) for i in f.all())
