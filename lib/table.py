"""The hash table while it grows.

  place     a chain is chosen by the hash: bucket by its low bits, table by the bits above; by the mask of before the growth for chains
            that have not been redistributed, by the new one for all others
  lookup    goes through the whole chain and finds an item only by length and bytes of the key; deletion and replacement take that item
  growth    an item of the chain being redistributed stays or goes to the chain its hash selects from now on; the marks move on only past
            chains that are done; the new masks belong to the new size, and a chain a scan is in is left alone
  scan      hands out every item of a chain before it goes on to the next chain
"""
from itertools import takewhile
from durable import strip
from flow import Analysis, last_field
from own import base
from prog import Broken
from life import Life

NEXT = '_hash_item.h_next'


def norm(v):
    if isinstance(v, tuple):
        if v and v[0] in ('tr', 'zx', 'sx', 'trunc', 'zext', 'sext'):
            return norm(v[1])
        v = tuple(norm(x) for x in v)
        if v[:2] in (('bin', 'and'), ('bin', 'add')):
            return v[:2] + tuple(sorted(v[2:], key=str))
    return v


def AND(a, b):
    return norm(('bin', 'and', a, b))


class Tab(Life):
    cap = 200
    total_cap = 6000
    keep_old = True

    def start(self, an, st):
        pass

    # -- names of values
    def canon(self, st, v):
        names = {}
        for x in sorted(self.get(st, 'fld'), key=lambda x: str(x[1])):
            names[x[2]] = x[1]

        def f(v):
            v = strip(v) if isinstance(v, tuple) and v and isinstance(v[0], str) else v
            try:
                if v in names:
                    return names[v]
            except TypeError:
                pass
            return tuple(f(x) for x in v) if isinstance(v, tuple) and v and v[0] in ('bin', 'cmp', 'zx', 'tr', 'sx') else v
        return norm(f(v))

    def named(self, st, name, v):
        self.drop(st, lambda x: x[0] == 'fld' and x[1] == name)
        if strip(v)[0] != 'c':
            self.tok(st, 'fld', name, strip(v))

    def merge_old(self, an, st, ids):
        def old(x):
            return isinstance(x, tuple) and (len(x) > 2 and x[0] == 'o' and x[1] in ids and x[2] > 1 or any(old(y) for y in x))
        return frozenset(x for x in st.prop if not any(old(y) for y in x[1:]))

    def phis(self, an, st, b, prev):
        self.settle(an, st)
        if an.back.get((prev, b)) is not None:
            self.turn(an, st)

    def turn(self, an, st):
        pass

    def load2(self, an, st, i, addr, val):
        v = st.env[i.id]
        f = last_field(addr) or ''
        if f.startswith('assoc.') or f.startswith('assoc_scan.'):
            self.named(st, f.split('.')[1], v)
        elif f == 'table.hashtable':
            p = addr[1]
            T = ('c', 0) if p[0] != 'x' else self.canon(st, p[2])
            self.drop(st, lambda x: x[0] == 'ht' and x[1] == v)
            self.tok(st, 'ht', v, T)
        elif f in ('_hash_item.khash', '_hash_item.nkey'):
            self.named(st, (f.split('.')[1], addr[1]), v)
        h = self.head(st, addr)
        if h is not None:
            self.njudge += 1
            self.touch(an, st, i, addr, h, None)
            self.elem(an, st, addr, v)
        elif f == NEXT:
            if not self.has(st, 'front', addr[1]):
                self.drop(st, lambda x: x[0] == 'next' and x[1] == addr[1])
                self.tok(st, 'next', addr[1], v)
            self.elem(an, st, addr, v)

    def elem(self, an, st, addr, v):
        self.drop(st, lambda x: x[0] == 'elem' and x[1] == addr)
        self.tok(st, 'elem', addr, v)
        self.drop(st, lambda x: x[0] == 'cur')
        self.tok(st, 'cur', v)

    def head(self, st, addr):
        """(table, bucket) of a chain"""
        hv, B = (addr[1], addr[2]) if addr[0] == 'x' else (addr, ('c', 0))
        for x in self.get(st, 'ht'):
            if x[1] == hv:
                return x[2], self.canon(st, B)
        return None

    def prestore(self, an, st, i, addr, val):
        self.settle(an, st)
        f = last_field(addr) or ''
        h = self.head(st, addr)
        if h is not None:
            self.njudge += 1
            self.touch(an, st, i, addr, h, val)
            self.cell(an, st, i, addr, h, val)
        elif f == NEXT:
            self.cell(an, st, i, addr, None, val)
        elif f.startswith('assoc.') or f.startswith('assoc_scan.'):
            n = f.split('.')[1]
            self.njudge += 1
            self.field(an, st, i, n, val)
            self.drop(st, lambda x: x[0] not in ('new', 'put', 'const') and mentions(x, n))
            if strip(val)[0] != 'c':
                self.tok(st, 'fld', n, strip(val))
        elif f == 'bucket_info.refcount':
            self.field(an, st, i, 'refcount', val)

    def touch(self, an, st, i, addr, h, val):
        pass

    def cell(self, an, st, i, addr, h, val):
        pass

    def field(self, an, st, i, n, val):
        pass

    def value(self, an, st, i):
        if i.op == 'bin' and i.k in ('add', 'sub') and i.b[0] == 'c' and i.b[1] in (1, -1, (1 << 32) - 1):
            up = (i.b[1] == 1) == (i.k == 'add')
            a = self.canon(st, an.val(st, i.a))
            if isinstance(a, str):
                v = strip(an.val(st, ('i', i.id)))
                self.drop(st, lambda x: x[0] in ('inc', 'dec') and x[1] == v)
                self.tok(st, 'inc' if up else 'dec', v, a)

    def branch(self, an, st, i, cond, truth):
        v = strip(cond)
        if v[0] == 'cmp':
            q = v[1] if truth else st.NEG[v[1]]
            a, b = self.canon(st, v[2]), self.canon(st, v[3])
            if any(mentions(x, n) for x in (a, b) for n in ('exp_bucket', 'exp_tabidx', 'khash', 'tabidx', 'prevsize')):
                self.tok(st, 'rel', q, a, b)
                self.tok(st, 'rel', st.SWAP[q], b, a)
        self.settle(an, st)

    def rel(self, st, q, a, b):
        have = {x[1] for x in self.get(st, 'rel') if x[2] == a and x[3] == b}
        lt = 'ult' in have or {'ule', 'ne'} <= have
        gt = 'ugt' in have or {'uge', 'ne'} <= have
        ge, le = 'uge' in have or gt or 'eq' in have, 'ule' in have or lt or 'eq' in have
        return {'ult': lt, 'ugt': gt, 'uge': ge, 'ule': le, 'eq': 'eq' in have or ge and le}[q]

    def settle(self, an, st):
        for x in self.get(st, 'fld'):
            if x[1] == 'expanding':
                if st.known_eq(x[2], 0):
                    self.tok(st, 'idle')
                if st.known_ne(x[2], 0):
                    self.tok(st, 'busy')
        for x in self.get(st, 'elem'):
            if st.known_eq(x[2], 0):
                self.tok(st, 'end', x[1])
        for x in self.get(st, 'cur'):
            if st.known_eq(x[1], 0):
                self.tok(st, 'end', 'cur')

    def ret(self, an, st, i, val):
        pass


def mentions(x, n):
    return x == n or isinstance(x, tuple) and any(mentions(y, n) for y in x)


def faded(v):
    """of an iteration too far back to tell which"""
    return isinstance(v, tuple) and (len(v) > 2 and v[0] == 'o' and v[2] > 2 or any(faded(x) for x in v))


class Keyed(Tab):
    """assoc_find, assoc_insert, assoc_replace, assoc_delete"""
    def __init__(self, ctx, P, K, fn, what):
        Tab.__init__(self, ctx, P, K, fn, what)
        self.role = fn.name.split('_')[1]
        if self.role == 'replace':
            self.H, self.KEY, self.N = ('khash', ('a', 0)), ('keyof', ('a', 0)), ('nkey', ('a', 0))
        else:
            self.H = ('a', len(fn.args) - 1)
            self.KEY, self.N = ('a', 0), ('a', 1)

    def touch(self, an, st, i, addr, h, val):
        T, B = h
        H = self.H
        low, high = AND(H, 'hashmask'), ('bin', 'lshr', H, 'hashpower')
        if B != low:
            return self.vio(an, i.line, 'bucket', 'a chain is used that the low bits of the hash do not select')
        new, old = AND(high, 'rootmask'), AND(high, 'prevmask')
        r = lambda q, a, b: self.rel(st, q, a, b)
        if T == new:
            ok = self.has(st, 'idle') or r('ugt', low, 'exp_bucket') or r('uge', low, 'exp_bucket') and r('ult', old, 'exp_tabidx')
        elif T == old:
            ok = self.has(st, 'busy') and (r('ult', low, 'exp_bucket') or r('ule', low, 'exp_bucket') and r('uge', old, 'exp_tabidx'))
        else:
            return self.vio(an, i.line, 'table', 'a chain is used that the upper bits of the hash do not select')
        if not ok:
            self.vio(an, i.line, 'table', 'the chain is chosen by the size of the table %s the growth where it may be the other' % ('after' if T == new else 'before'))

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'item_get_key':
            an.effect(st, i, name, args)
            self.named(st, ('keyof', args[0]), st.env[i.id])
            return [st]
        if n in ('memcmp', 'bcmp'):
            an.effect(st, i, name, args)
            a, b, c = (self.canon(st, x) for x in args[:3])
            for p, q in ((a, b), (b, a)):
                if p == self.KEY and isinstance(q, tuple) and q[0] == 'keyof' and c in (self.N, ('nkey', q[1])):
                    self.drop(st, lambda x: x[0] == 'bytes' and x[1] == q[1])
                    self.tok(st, 'bytes', q[1], st.env[i.id])
            return [st]
        if n in ('assoc_expand', 'redistribute'):
            self.njudge += 1
            self.settle(an, st)
            if n == 'assoc_expand' and not self.has(st, 'idle'):
                self.vio(an, i.line, n, 'growth is started while another is under way')
            if n == 'redistribute' and not (self.has(st, 'busy') and self.has(st, 'free')):
                self.vio(an, i.line, n, 'a chain is redistributed that a scan may be in, or without a growth under way')
        return None

    def load2(self, an, st, i, addr, val):
        Tab.load2(self, an, st, i, addr, val)
        if last_field(addr) == 'bucket_info.refcount' and addr[1][0] == 'x' and self.canon(st, addr[1][2]) == 'exp_bucket':
            self.tok(st, 'refs', st.env[i.id])

    def settle(self, an, st):
        Tab.settle(self, an, st)
        for x in self.get(st, 'refs'):
            if st.known_eq(x[1], 0):
                self.tok(st, 'free')
        for x in self.get(st, 'bytes'):
            if st.known_eq(x[2], 0):
                self.tok(st, 'same', x[1])
            elif st.known_ne(x[2], 0):
                self.tok(st, 'other', x[1])
        flds = {x[1]: x[2] for x in self.get(st, 'fld')}
        for what, mine in (('khash', self.H), ('nkey', self.N)):
            m = flds.get(mine, mine)
            for n, v in flds.items():
                if isinstance(n, tuple) and n[0] == what and n != mine:
                    if st.related('ne', v, m) == 1 or st.related('eq', v, m) == 0:
                        self.tok(st, 'other', n[1])
                    if what == 'nkey' and (st.related('eq', v, m) == 1 or st.related('ne', v, m) == 0):
                        self.tok(st, 'length', n[1])

    def branch(self, an, st, i, cond, truth):
        Tab.branch(self, an, st, i, cond, truth)
        v = strip(cond)
        if v[0] == 'cmp':
            q = v[1] if truth else st.NEG[v[1]]
            a, b = self.canon(st, v[2]), self.canon(st, v[3])
            for a, b in ((a, b), (b, a)):
                if isinstance(a, tuple) and a[0] in ('khash', 'nkey') and b == (self.H if a[0] == 'khash' else self.N) and a != b:
                    if q == 'ne':
                        self.tok(st, 'other', a[1])
                    if q == 'eq' and a[0] == 'nkey':
                        self.tok(st, 'length', a[1])

    def match(self, st, v):
        return self.has(st, 'same', v) and self.has(st, 'length', v)

    def turn(self, an, st):
        self.passed(an, st, an.fn.line, True)

    def passed(self, an, st, line, on):
        for x in self.get(st, 'next'):
            v = x[1]
            if any(e[2] == v for e in self.get(st, 'elem')) and not self.has(st, 'other', v) and (on or self.role == 'find'):
                if self.role in ('find', 'delete', 'replace'):
                    self.vio(an, line, 'chain', 'an item is passed over that may be the one looked for')

    def cell(self, an, st, i, addr, h, val):
        if self.role == 'find':
            return self.vio(an, i.line, 'chain', 'a lookup changes the chain')
        mine = ('a', 1) if self.role == 'replace' else ('a', 0)
        if self.role in ('insert', 'replace') and addr == ('f', mine, NEXT):
            return self.tok(st, 'behind', val)
        olds = [x[2] for x in self.get(st, 'elem') if x[1] == addr]
        if self.role == 'insert':
            if h is None or val != mine or not any(self.has(st, 'behind', v) for v in olds):
                return self.vio(an, i.line, 'insert', 'a chain is changed other than by putting the item before its first')
            return self.tok(st, 'done')
        old = olds[0] if olds else None
        if addr[0] == 'f' and val == ('c', 0) and (self.match(st, addr[1]) or addr[1] == ('a', 0)):
            return
        if self.role == 'replace' and self.has(st, 'end', addr):
            return self.tok(st, 'done')                                            # not linked at all: callers hold a linked item
        nexts = [x[2] for x in self.get(st, 'next') if x[1] in (old, ('a', 0) if self.role == 'replace' else old)]
        if old is None or not self.match(st, old):
            return self.vio(an, i.line, self.role, 'an item is taken out of the chain that may be another than the one asked for')
        if self.role == 'delete' and val not in nexts or \
                self.role == 'replace' and not (val == mine and any(self.has(st, 'behind', n) for n in nexts)):
            return self.vio(an, i.line, self.role, 'the rest of the chain is not kept')
        self.tok(st, 'done')

    def field(self, an, st, i, n, val):
        if n != 'hash_items':
            return self.vio(an, i.line, n, 'the shape of the table is changed here')
        up = any(x[1] == strip(val) and x[2] == n for x in self.get(st, 'inc'))
        down = any(x[1] == strip(val) and x[2] == n for x in self.get(st, 'dec'))
        if self.role == 'insert' and not up or self.role == 'delete' and not down or self.role not in ('insert', 'delete'):
            self.vio(an, i.line, n, 'the number of items does not follow the change')
        self.tok(st, 'counted')

    def ret(self, an, st, i, val):
        self.njudge += 1
        self.settle(an, st)
        line = i.line or an.fn.line
        if self.role == 'find':
            self.passed(an, st, line, True)
            elems = {x[2] for x in self.get(st, 'elem')}
            if st.known_eq(val, 0):
                if not self.get(st, 'end'):
                    self.vio(an, line, 'not found', 'an item counts as missing though the chain has not been searched to its end')
            elif val not in elems or not self.match(st, val):
                self.vio(an, line, 'found', 'an item is found that may have another key')
            return
        self.passed(an, st, line, False)
        done = self.has(st, 'done')
        if self.role in ('insert', 'replace') and not done:
            self.vio(an, line, self.role, 'the item is not put in the chain')
        if self.role == 'delete' and not done and not self.get(st, 'end'):
            self.vio(an, line, self.role, 'the item is not taken out of the chain')
        if self.role in ('insert', 'delete') and done != self.has(st, 'counted'):
            self.vio(an, line, 'hash_items', 'the number of items does not follow the change')


class Move(Tab):
    """redistribute"""
    def start(self, an, st):
        self.tok(st, 'within')

    def load2(self, an, st, i, addr, val):
        Tab.load2(self, an, st, i, addr, val)
        if last_field(addr) == NEXT and not faded(addr):
            v = addr[1]
            if self.has(st, 'gone', v) or self.has(st, 'front', v):
                self.vio(an, i.line, 'chain', 'the redistribution goes on behind an item that is in another chain by now')
            elif not (self.has(st, 'seen', v) or any(x[1] == ('khash', v) for x in self.get(st, 'fld'))):
                self.vio(an, i.line, 'chain', 'the redistribution passes over an item without looking where it belongs')

    def elem(self, an, st, addr, v):
        cur = self.get(st, 'cur')
        Tab.elem(self, an, st, addr, v)
        h = self.head(st, addr)
        if not (h and h[0] == 'exp_tabidx' or addr[0] == 'f' and not self.has(st, 'out', addr[1])):
            self.drop(st, lambda x: x[0] == 'cur')
            for x in cur:
                self.tok(st, *x)

    def place(self, it):
        return AND(('bin', 'lshr', ('khash', it), 'hashpower'), 'rootmask')

    def touch(self, an, st, i, addr, h, val):
        T, B = h
        its = [x[1][1] for x in self.get(st, 'fld') if isinstance(x[1], tuple) and x[1][0] == 'khash']
        if B != 'exp_bucket' or T != 'exp_tabidx' and not any(T == self.place(v) for v in its):
            self.vio(an, i.line, 'chain', 'a chain is touched that is neither the one redistributed nor one its items go to')
        if T == 'exp_tabidx' and not self.has(st, 'within') and not self.rel(st, 'ult', 'exp_tabidx', 'prevsize'):
            self.vio(an, i.line, 'exp_tabidx', 'a table is redistributed past those of before the growth')

    def settle(self, an, st):
        Tab.settle(self, an, st)
        for x in self.get(st, 'rel'):
            if x[1] == 'eq' and 'exp_tabidx' in x[2:]:
                for v in [y[1][1] for y in self.get(st, 'fld') if isinstance(y[1], tuple) and y[1][0] == 'khash']:
                    if self.place(v) in x[2:]:
                        self.tok(st, 'placed', v)
        if self.rel(st, 'uge', 'exp_tabidx', 'prevsize'):
            self.tok(st, 'full')

    def cell(self, an, st, i, addr, h, val):
        olds = [x[2] for x in self.get(st, 'elem') if x[1] == addr]
        if faded(addr):
            olds += [x[1] for x in self.get(st, 'next') if x[2] == val]
        T = h[0] if h else None
        if addr[0] == 'f' and (self.has(st, 'out', addr[1]) or val in [x[2] for x in self.get(st, 'elem') if (self.head(st, x[1]) or (0,))[0] ==
                                                                       self.place(addr[1])]):       # linked in front of another chain
            for x in self.get(st, 'elem'):
                k = self.head(st, x[1])
                if x[2] == val and k == (self.place(addr[1]), 'exp_bucket'):
                    return self.tok(st, 'front', addr[1])
            return self.vio(an, i.line, 'chain', 'an item is linked before another chain than the one its hash selects')
        if h is not None and T == self.place(val) and self.has(st, 'front', val):
            return self.tok(st, 'in', val)
        for v in olds:
            if any(x[1] == v and x[2] == val for x in self.get(st, 'next')):
                return self.tok(st, 'out', v)
        self.vio(an, i.line, 'chain', 'an item is put where its hash does not select it, or a chain is cut')

    def turn(self, an, st):
        self.left(an, st, an.fn.line)
        done = {x[1] for x in self.get(st, 'placed') + self.get(st, 'in')}
        for v in done:
            self.tok(st, 'gone' if self.has(st, 'out', v) else 'seen', v)
        self.drop(st, lambda x: x[0] in ('out', 'in', 'front', 'placed') and x[1] in done or x[0] == 'elem' and x[2] in done or x[0] == 'next' and x[1] in done or
                  x[0] == 'fld' and isinstance(x[1], tuple) and x[1][1] in done or
                  x[0] == 'rel' and not {'exp_tabidx', 'prevsize'} == set(x[2:]))

    def left(self, an, st, line):
        seen = {x[1] for x in self.get(st, 'out')} | {x[1][1] for x in self.get(st, 'fld') if isinstance(x[1], tuple) and x[1][0] == 'khash'}
        for v in seen:
            inn, out = self.has(st, 'in', v), self.has(st, 'out', v)
            if inn != out or not (inn or self.has(st, 'placed', v)):
                self.vio(an, line, 'item', 'an item is left in a chain its hash does not select')

    def field(self, an, st, i, n, val):
        v = strip(val)
        if n == 'exp_tabidx':
            if v == ('c', 0):
                ok = self.has(st, 'full')
                self.tok(st, 'reset')
            else:
                ok = any(x[1] == v and x[2] == n for x in self.get(st, 'inc')) and bool(self.get(st, 'end'))
            self.left(an, st, i.line)
            self.drop(st, lambda x: x == ('within',) or x[0] == 'end')
        elif n == 'exp_bucket':
            ok = any(x[1] == v and x[2] == n for x in self.get(st, 'dec')) and self.has(st, 'full') and \
                any(x[1] == n and (st.known_ne(x[2], 0) or st.rng(x[2])[0] > 0) for x in self.get(st, 'fld'))
            self.tok(st, 'moved')
        elif n == 'expanding':
            ok = v == ('c', 0) and self.has(st, 'full') and any(x[1] == 'exp_bucket' and (st.known_eq(x[2], 0) or st.rng(x[2])[1] <= 0)
                                                                for x in self.get(st, 'fld'))
            self.tok(st, 'moved')
        else:
            ok = False
        if not ok:
            self.vio(an, i.line, n, 'the mark of the growth moves past chains that have not been redistributed')

    def ret(self, an, st, i, val):
        self.njudge += 1
        self.settle(an, st)
        if self.has(st, 'full') and not (self.has(st, 'reset') and self.has(st, 'moved')):
            self.vio(an, i.line or an.fn.line, 'exp_bucket', 'the growth does not go on to the next bucket')


def poly(c):
    """a sum of products, {product: factor}"""
    if isinstance(c, tuple) and c and c[0] == 'c':
        return {(): c[1]} if c[1] else {}
    if isinstance(c, tuple) and c and c[0] == 'bin' and c[1] in ('add', 'sub', 'mul', 'shl'):
        a, b = poly(c[2]), poly(c[3])
        if c[1] == 'shl' and set(b) <= {()} and a != {(): 1}:
            b, op = {(): 1 << b.get((), 0)}, 'mul'
        else:
            op = c[1]
        r = {}
        if op in ('add', 'sub'):
            for x, s in ((a, 1), (b, 1 if op == 'add' else -1)):
                for k, v in x.items():
                    r[k] = r.get(k, 0) + s * v
        elif op == 'mul':
            for k, v in a.items():
                for m, w in b.items():
                    km = tuple(sorted(k + m, key=str))
                    r[km] = r.get(km, 0) + v * w
        if op != 'shl':
            return {k: v for k, v in r.items() if v}
    return {(c,): 1}


class Grow(Tab):
    """assoc_expand"""
    POW = ('bin', 'shl', ('c', 1), 'rootpower')
    WANT = {'rootpower': ({('rootpower',): 1, (): 1},), 'prevsize': ({('rootsize',): 1},), 'prevmask': ({('rootmask',): 1}, {('rootsize',): 1, (): -1}),
            'exp_tabidx': ({},), 'exp_bucket': ({('hashsize',): 1, (): -1}, {('hashmask',): 1}), 'expanding': ({(): 1},)}
    SIZES = {'rootsize': ({(POW,): 1}, {('prevsize',): 2}, {('rootsize',): 2}),
             'rootmask': ({(POW,): 1, (): -1}, {('rootsize',): 1, (): -1}, {('prevsize',): 2, (): -1})}

    def small(self, p):
        """-1 of an unsigned sum"""
        return {k: v - (1 << 32) if v > 1 << 31 else v for k, v in p.items()}

    def poly(self, st, v):
        sums = {x[1]: x[2] for x in self.get(st, 'sum')}

        def f(c):
            if c in sums:
                return f(sums[c])
            return tuple(f(x) for x in c) if isinstance(c, tuple) and c and c[0] == 'bin' else c
        return self.small(poly(f(self.canon(st, v))))

    def field(self, an, st, i, n, val):
        if n in ('roottable', 'hash_expansion_limit'):
            return
        p = self.poly(st, val)
        if n == 'roottabsz':
            self.drop(st, lambda x: x[0] == 'bytes')
            if p.get(('roottabsz',), 0) < 2:
                self.vio(an, i.line, n, 'does not double')
            return self.tok(st, 'room')
        if n in ('prevsize', 'prevmask') and any(m in ('rootsize', 'rootmask') and self.has(st, 'new', m) for k in p for m in k) or \
                n == 'rootsize' and ('prevsize',) in p and not self.has(st, 'new', 'prevsize') or \
                n == 'rootmask' and ('rootsize',) in p and not self.has(st, 'new', 'rootsize') or n == 'rootsize' and self.has(st, 'new', n) or \
                n in self.SIZES and any('rootpower' in str(k) for k in p) and not self.has(st, 'new', 'rootpower'):
            self.vio(an, i.line, n, 'is taken from the wrong side of the growth')
        if p not in self.WANT.get(n, ()) and p not in self.SIZES.get(n, ()):
            self.vio(an, i.line, n, 'does not belong to the size the table grows to')
        self.tok(st, 'new', n)

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n in ('calloc', 'malloc', 'realloc'):
            self.njudge += 1
            an.effect(st, i, name, args)
            if n == 'calloc':
                a, b = self.poly(st, args[0]), self.poly(st, args[1])
                p = poly_mul(a, b)
                if p == {('hashsize', 'rootsize'): 8} and not self.has(st, 'new', 'rootsize'):
                    self.tok(st, 'fresh', st.env[i.id])
            if n == 'realloc' and 'roottable' == self.canon(st, args[0]):
                p = self.poly(st, args[1])
                if p.get(('roottabsz',), 0) < 16:
                    self.vio(an, i.line, 'roottable', 'does not get room for the tables it is to hold')
            return [st]
        return None

    def value(self, an, st, i):
        if i.op == 'bin' and i.k in ('add', 'sub', 'mul', 'shl'):
            v = strip(an.val(st, ('i', i.id)))
            if v[0] == 'i':
                self.drop(st, lambda x: x[0] == 'sum' and x[1] == v)
                a, b = strip(an.val(st, i.a)), strip(an.val(st, i.b))
                c = self.canon(st, ('bin', i.k, a, b))
                self.drop(st, lambda x: x[0] == 'step' and x[1] == v)
                if i.k == 'add' and ('c', 1) in (a, b):
                    self.tok(st, 'step', v, b if a == ('c', 1) else a)
                elif not mentions(c, v):
                    self.tok(st, 'sum', v, c)

    def prestore(self, an, st, i, addr, val):
        Tab.prestore(self, an, st, i, addr, val)
        if last_field(addr) == 'table.hashtable':
            self.njudge += 1
            at, parts = addr[1], []
            while at[0] == 'x':
                parts.append(strip(at[2]))
                at = at[1]
            idx = {}
            for x in parts:
                for k, w in self.poly(st, x).items():
                    idx[k] = idx.get(k, 0) + w
            new, off = (val[1], self.poly(st, val[2])) if val[0] == 'x' else (val, {})
            ii = dict(idx)
            ii[('rootsize',)] = ii.get(('rootsize',), 0) - 1
            ii = {k: v for k, v in ii.items() if v}
            if self.has(st, 'new', 'rootsize') or poly_mul(ii, {('hashsize',): 1}) != off or not self.has(st, 'fresh', new):
                return self.vio(an, i.line, 'hashtable', 'a new table does not get its own empty chains')
            if not self.has(st, 'room'):
                self.vio(an, i.line, 'roottable', 'there may be no room for the new table')
            self.drop(st, lambda x: x[0] in ('filled', 'upto'))
            self.tok(st, 'filled', parts[0] if parts else ('c', 0), tuple(sorted(ii.items(), key=str)))

    def branch(self, an, st, i, cond, truth):
        Tab.branch(self, an, st, i, cond, truth)
        if not self.has(st, 'new', 'rootsize') and any(x[1] == 'rootsize' and st.known_eq(x[2], 0) for x in self.get(st, 'fld')):
            return False                                                           # never: there is a first table
        v = strip(cond)
        if v[0] != 'cmp':
            return
        q = v[1] if truth else st.NEG[v[1]]
        for q, a, b in ((q, v[2], v[3]), (st.SWAP[q], v[3], v[2])):
            pa, pb = self.poly(st, a), self.poly(st, b)
            if q in ('uge', 'ugt', 'sge', 'sgt') and pa == {('roottabsz',): 1} and pb == {('rootsize',): 2}:
                self.tok(st, 'room')
            if q in ('uge', 'sge', 'eq') and pb == {('rootsize',): 1} and not self.has(st, 'new', 'rootsize'):
                last = [dict(x[2]) for x in self.get(st, 'filled')]
                if any(x[1] == strip(a) and self.poly(st, x[2]) in last for x in self.get(st, 'step')) or not last and not pa:
                    self.tok(st, 'all')

    def ret(self, an, st, i, val):
        self.njudge += 1
        new = {x[1] for x in self.get(st, 'new')}
        all_ = set(self.WANT) | set(self.SIZES)
        if new and new != all_:
            self.vio(an, i.line or an.fn.line, sorted(all_ - new)[0], 'the growth is started without setting this')
        if new and not self.has(st, 'all'):
            self.vio(an, i.line or an.fn.line, 'roottable', 'the growth is started without all of the new tables')


def poly_mul(a, b):
    r = {}
    for k, v in a.items():
        for m, w in b.items():
            km = tuple(sorted(k + m, key=str))
            r[km] = r.get(km, 0) + v * w
    return r


def check(ctx, P):
    todo = [(Keyed, 'assoc_find'), (Keyed, 'assoc_insert'), (Keyed, 'assoc_replace'), (Keyed, 'assoc_delete'), (Move, 'redistribute'),
            (Grow, 'assoc_expand')]
    for cls, n in todo:
        fn = P.fn(n)
        c = cls(ctx, P, {}, fn, 'table')
        Analysis(P, fn, c).run()
        if not c.njudge:
            raise Broken('%s decides nothing' % n)
        ctx.count('functions judged')
        ctx.count('moments judged', c.njudge)
