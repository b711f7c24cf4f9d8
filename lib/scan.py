"""Scans of the hash table: what they hand out, and what they say they have passed.

  begin     a scan begins before the first chain, whatever was in its memory
  go on     a chain is left only at its end; an item met is handed out before the next is looked at; where the scan stops inside a chain
            its placeholder is put behind the last item handed out; a bucket is held from its first chain to its last
  passed    an item counts as passed exactly when its chain has been left or it is found before the placeholder
"""
from durable import strip
from flow import Analysis, last_field
from own import base
from prog import Broken
from table import Tab, mentions, AND, NEXT, faded

S = 'assoc_scan.'
PH = S + 'ph_item'


class Scan(Tab):
    def rel_ok(self, a, b):
        return True

    def branch(self, an, st, i, cond, truth):
        v = strip(cond)
        if v[0] == 'cmp':
            q = {'slt': 'ult', 'sle': 'ule', 'sgt': 'ugt', 'sge': 'uge'}
            n = v[1] if truth else st.NEG[v[1]]
            a, b = self.canon(st, v[2]), self.canon(st, v[3])
            if any(mentions(x, n2) for x in (a, b) for n2 in ('bucket', 'tabidx', 'tabcnt')) and not any(mentions(x, 'exp_bucket') for x in (a, b)):
                self.tok(st, 'rel', q.get(n, n), a, b)
                self.tok(st, 'rel', q.get(st.SWAP[n], st.SWAP[n]), b, a)
        self.settle(an, st)

    def flag(self, st, name):
        """0, 1 or None"""
        for x in self.get(st, 'fld'):
            if x[1] == name:
                return 0 if st.known_eq(x[2], 0) else 1 if st.known_ne(x[2], 0) else None
        return 0 if self.has(st, 'zero', name) else None

    def zero(self, an, st, name):
        self.drop(st, lambda x: x == ('zero', name))
        self.tok(st, 'zero', name)


class Begin(Scan):
    """assoc_scan_init"""
    ZERO = ('bucket', 'tabcnt', 'tabidx', 'ph_linked')
    SIZE = ('hashsize', ('bin', 'shl', ('c', 1), 'hashpower'), AND('hashmask', 'hashmask')[:1] + ('add',) + tuple(sorted((('c', 1), 'hashmask'), key=str)))

    def call(self, an, st, i, name, args):
        if name and 'memset' in name and args[0] == ('a', 0):
            self.njudge += 1
            an.effect(st, i, name, args)
            self.drop(st, lambda x: x[0] == 'put')
            if st.known_eq(args[1], 0):
                for n in self.ZERO:
                    self.tok(st, 'put', n, 0)
            return [st]
        return None

    def field(self, an, st, i, n, val):
        self.drop(st, lambda x: x[0] == 'put' and x[1] == n)
        self.tok(st, 'put', n, 0 if st.known_eq(val, 0) else 'hashsz' if self.canon(st, val) in self.SIZE else '?')

    def ret(self, an, st, i, val):
        self.njudge += 1
        put = {x[1]: x[2] for x in self.get(st, 'put')}
        for n in self.ZERO:
            if put.get(n) != 0:
                self.vio(an, i.line or an.fn.line, n, 'a scan begins without this being 0: what lies in its memory counts')
        if put.get('hashsz') != 'hashsz':
            self.vio(an, i.line or an.fn.line, 'hashsz', 'a scan does not begin with the number of buckets')


class Passed(Scan):
    """assoc_scan_in_visited_area"""
    H = ('khash', ('a', 1))

    def ret(self, an, st, i, val):
        self.njudge += 1
        self.settle(an, st)
        v = strip(val)
        while v[0] in ('tr', 'zx'):
            v = strip(v[-1])
        if v[0] == 'cmp':
            for truth in (True, False):
                was = st.prop
                Scan.branch(self, an, st, i, v, truth)
                self.judge(st, an, i, not truth, truth)
                st.prop = was
        else:
            self.judge(st, an, i, st.known_eq(val, 0), st.known_ne(val, 0))

    def judge(self, st, an, i, never, always):
        low = AND(self.H, 'hashmask')
        rels = [x for x in self.get(st, 'rel')]
        tabs = {a for x in rels for a in x[2:] if mentions(a, self.H) and a != low}
        for a in tabs:
            if a not in (AND(('bin', 'lshr', self.H, 'hashpower'), m) for m in ('rootmask', 'prevmask')):
                return self.vio(an, i.line, 'passed', 'another chain is compared than the one of the item')
        lo = {'lt': self.rel(st, 'ult', low, 'bucket'), 'eq': self.rel(st, 'eq', low, 'bucket'),
              'gt': any(x[1] == 'ugt' and x[2:] == (low, 'bucket') for x in rels) or
              {'uge', 'ne'} <= {x[1] for x in rels if x[2:] == (low, 'bucket')}}
        have = {x[1] for x in rels if x[2] in tabs and x[3] == 'tabidx'}
        t = {'lt': 'ult' in have or {'ule', 'ne'} <= have, 'eq': 'eq' in have or {'uge', 'ule'} <= have,
             'gt': 'ugt' in have or {'uge', 'ne'} <= have}
        met = self.has(st, 'met')
        yes = lo['lt'] or lo['eq'] and (t['lt'] or t['eq'] and met and self.flag(st, 'ph_linked') == 1)
        no = lo['gt'] or lo['eq'] and (t['gt'] or t['eq'] and not met and (self.flag(st, 'ph_linked') == 0 or self.has(st, 'stop')))
        if not never and not yes:
            self.vio(an, i.line, 'passed', 'an item counts as passed that the scan may not have come to')
        if not always and not no:
            self.vio(an, i.line, 'passed', 'an item counts as not passed that the scan may have handed out')

    def rel(self, st, q, a, b):
        have = {x[1] for x in self.get(st, 'rel') if x[2] == a and x[3] == b}
        if q == 'eq':
            return 'eq' in have or {'uge', 'ule'} <= have
        return 'ult' in have or {'ule', 'ne'} <= have

    def branch(self, an, st, i, cond, truth):
        Scan.branch(self, an, st, i, cond, truth)
        v = strip(cond)
        if v[0] == 'cmp' and v[1] in ('eq', 'ne'):
            same = (v[1] == 'eq') == bool(truth)
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if b == ('a', 1) and same and any(x[1] == a for x in self.get(st, 'cur')):
                    self.tok(st, 'met')
                if b == ('f', ('a', 0), PH) and same and any(x[1] == a for x in self.get(st, 'cur')):
                    self.tok(st, 'stop')

    def cell(self, an, st, i, addr, h, val):
        self.vio(an, i.line, 'passed', 'the question changes the chain')

    def field(self, an, st, i, n, val):
        self.vio(an, i.line, n, 'the question changes the scan')


class Next(Scan):
    """assoc_scan_next, assoc_scan_final"""
    keep_old = False
    total_cap = 60000

    def turn(self, an, st):
        """what is behind is forgotten"""
        cur = {x[1] for x in self.get(st, 'cur')}
        item = {x[1] for x in self.get(st, 'item') if not self.has(st, 'given', x[1])} | cur
        self.drop(st, lambda x: x[0] in ('elem', 'next', 'inc', 'dec', 'isph', 'phnext', 'ht', 'taken', 'at') or x[0] in ('item', 'given', 'after') and x[1] not in item or
                  x[0] == 'fld' and (isinstance(x[1], tuple) or x[1] in ('held', 'roottable', 'rootsize', 'infotable', 'bucket', 'tabidx', 'tabcnt', 'hashsz')) or
                  x[0] == 'rel' and not all(y in ('bucket', 'tabidx', 'tabcnt', 'hashsz') for y in x[2:]))

    def start(self, an, st):
        self.final = an.fn.name == 'assoc_scan_final'

    def ours(self, st, addr):
        return addr[1][0] == 'x' and self.canon(st, addr[1][2]) == 'bucket'

    def load2(self, an, st, i, addr, val):
        if last_field(addr) == NEXT and not mentions(addr, PH) and not self.final:
            v = addr[1]
            self.settle(an, st)
            seen = any(x[1] == ('nkey', v) and (st.known_eq(x[2], 0) or st.rng(x[2])[1] <= 0) for x in self.get(st, 'fld')) or self.has(st, 'isph', v)
            back = self.flag(st, 'ph_linked') != 0 and not self.has(st, 'const', 'ph_linked', 0) and not self.has(st, 'taken')
            if (self.has(st, 'item', v) or not seen and not back) and not self.has(st, 'given', v) and not self.has(st, 'at', addr):
                self.vio(an, i.line, 'item', 'the scan goes on behind an item it has not handed out')
        Tab.load2(self, an, st, i, addr, val)
        f = last_field(addr)
        if f == 'bucket_info.refcount' and self.ours(st, addr):
            self.named(st, 'held', st.env[i.id])
        if f == NEXT:
            self.tok(st, 'after', addr[1], st.env[i.id])

    def head(self, st, addr):
        h = Tab.head(self, st, addr)
        return h

    def touch(self, an, st, i, addr, h, val):
        T, B = h
        t0 = T == ('c', 0) and self.has(st, 'began')
        if B != 'bucket' and not (B == ('c', 0)) or T != 'tabidx' and not t0:
            self.vio(an, i.line, 'chain', 'the scan goes into another chain than the one it stands in')
        if self.has(st, 'owe'):
            self.vio(an, i.line, 'refcount', 'the scan goes into a bucket it does not hold')

    def cell(self, an, st, i, addr, h, val):
        if mentions(addr, PH):
            return self.tok(st, 'phnext', val)
        if val == ('f', ('a', 0), PH):
            if addr[0] == 'f' and self.has(st, 'given', addr[1]) and any(x[1] == y[2] and y[1] == addr[1] for x in self.get(st, 'phnext')
                                                                           for y in self.get(st, 'after')):
                return self.tok(st, 'linked', addr[1])
            return self.vio(an, i.line, 'placeholder', 'is put elsewhere than behind the last item handed out')
        olds = [x[2] for x in self.get(st, 'elem') if x[1] == addr] + [x[1] for x in self.get(st, 'cur') if faded(addr)]
        if any(o == ('f', ('a', 0), PH) or st.known_eq(('bin', 'sub', o, ('f', ('a', 0), PH)), 0) or self.has(st, 'isph', o) for o in olds):
            self.tok(st, 'at', addr)
            return self.tok(st, 'taken')
        self.vio(an, i.line, 'chain', 'a chain is changed other than by taking out the placeholder')

    def field(self, an, st, i, n, val):
        v = strip(val)
        inc = any(x[1] == v and x[2] == n for x in self.get(st, 'inc')) or any(x[1] == n and v == ('c', x[2] + 1) for x in self.get(st, 'const'))
        self.drop(st, lambda x: x[0] == 'const' and x[1] == n)
        if v[0] == 'c':
            self.tok(st, 'const', n, v[1])
        ok, why = True, ''
        if n == 'refcount':
            up = any(x[1] == v and x[2] == 'held' for x in self.get(st, 'inc'))
            down = any(x[1] == v and x[2] == 'held' for x in self.get(st, 'dec'))
            if up and not self.final:
                ok = (self.has(st, 'tab0') or self.has(st, 'counted')) and not self.has(st, 'hold')
                self.tok(st, 'hold')
                self.drop(st, lambda x: x == ('owe',))
            elif down:
                ok = self.final or self.rel(st, 'uge', 'tabidx', 'tabcnt') or self.has(st, 'out')
                if self.final:
                    ok = self.has(st, 'tab+') and self.rel(st, 'ult', 'bucket', 'hashsz')
                self.drop(st, lambda x: x == ('hold',))
                self.tok(st, 'let')
            else:
                ok = False
            why = 'a bucket is not held from its first chain to its last'
        elif n == 'bucket':
            ok = inc and self.has(st, 'let')
            why = 'the scan leaves a bucket it has not finished or still holds'
            self.drop(st, lambda x: x == ('let',))
            if not self.has(st, 'const', 'tabcnt', 0):
                self.tok(st, 'left')
                self.drop(st, lambda x: x == ('tab0',))
        elif n == 'tabcnt':
            if st.known_eq(val, 0):
                ok = self.has(st, 'left') or self.has(st, 'let')
                self.drop(st, lambda x: x[0] in ('left', 'tab+', 'began', 'counted', 'taken', 'moved'))
                self.tok(st, 'tab0')
            else:
                ok = self.canon(st, val) == 'rootsize' and self.has(st, 'tab0')
                self.drop(st, lambda x: x[0] == 'left')
                self.tok(st, 'began')
                self.tok(st, 'counted')
                if not self.has(st, 'hold'):
                    self.tok(st, 'owe')
            why = 'the scan does not go through all tables of a bucket'
        elif n == 'tabidx':
            if st.known_eq(val, 0):
                ok = self.has(st, 'tab0') or self.has(st, 'counted') or self.has(st, 'left')
            else:
                ok = inc and self.drained(st)
                self.drop(st, lambda x: x[0] in ('began', 'cur', 'end', 'elem', 'next', 'after', 'item', 'given') or
                          x[0] == 'fld' and isinstance(x[1], tuple))
            why = 'the scan leaves a chain before its end'
        elif n == 'ph_linked' and st.known_eq(val, 0):
            ok, why = self.has(st, 'taken'), 'the placeholder is forgotten in the chain'
        elif n in ('hashsz',):
            ok, why = False, 'the scan changes its end'
        if not ok:
            self.vio(an, i.line, n, why)
        if n in ('tabcnt', 'tabidx', 'bucket', 'refcount'):
            self.drop(st, lambda x: x[0] == 'rel' and mentions(x, n))

    def value(self, an, st, i):
        Scan.value(self, an, st, i)
        if i.op == 'bin' and i.k == 'add' and i.b == ('c', 1):
            a = strip(an.val(st, i.a))
            for x in self.get(st, 'const'):
                if a == ('c', x[2]):
                    self.tok(st, 'inc', strip(an.val(st, ('i', i.id))), x[1])

    def drained(self, st):
        if self.has(st, 'end', 'cur'):
            return True
        return any(self.has(st, 'given', x[1]) and st.known_eq(x[2], 0) for x in self.get(st, 'after'))

    def settle(self, an, st):
        Tab.settle(self, an, st)
        for x in self.get(st, 'fld'):
            if x[1] == 'tabcnt':
                if st.known_eq(x[2], 0) or st.rng(x[2])[1] <= 0:
                    self.tok(st, 'tab0')
                elif st.known_ne(x[2], 0) or st.rng(x[2])[0] > 0:
                    self.tok(st, 'tab+')
            if isinstance(x[1], tuple) and x[1][0] == 'nkey' and (st.known_ne(x[2], 0) or st.rng(x[2])[0] > 0):
                self.tok(st, 'item', x[1][1])

    def prestore(self, an, st, i, addr, val):
        if addr[0] == 'x' and addr[1] == ('a', 1) or addr == ('a', 1):
            if any(x[1] == val for x in self.get(st, 'cur')) or self.has(st, 'item', val):
                self.tok(st, 'given', val)
            return
        Scan.prestore(self, an, st, i, addr, val)

    def branch(self, an, st, i, cond, truth):
        v = strip(cond)
        Scan.branch(self, an, st, i, cond, truth)
        if v[0] == 'cmp' and v[1] in ('eq', 'ne') and (v[1] == 'eq') == bool(truth):
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if b == ('f', ('a', 0), PH):
                    self.tok(st, 'isph', a)

    def ret(self, an, st, i, val):
        self.njudge += 1
        self.settle(an, st)
        line = i.line or an.fn.line
        for x in self.get(st, 'item'):
            if not self.has(st, 'given', x[1]):
                self.vio(an, line, 'item', 'an item the scan has come to is not handed out')
        if self.final:
            if self.flag(st, 'ph_linked') != 0 and not self.has(st, 'taken'):
                self.vio(an, line, 'placeholder', 'is left in the chain')
            if not self.has(st, 'let') and not self.has(st, 'tab0') and not self.rel(st, 'uge', 'bucket', 'hashsz'):
                self.vio(an, line, 'refcount', 'a bucket is held for ever')
            return
        if self.has(st, 'let') or self.has(st, 'left'):
            self.vio(an, line, 'bucket', 'the scan stops between two buckets')
        if self.get(st, 'given') and not (self.has(st, 'const', 'ph_linked', 1) and any(self.has(st, 'linked', x[1]) for x in self.get(st, 'given'))):
            self.vio(an, line, 'placeholder', 'the scan stops inside a chain without marking the place')


def check(ctx, P):
    for cls, n in ((Begin, 'assoc_scan_init'), (Passed, 'assoc_scan_in_visited_area'), (Next, 'assoc_scan_next'), (Next, 'assoc_scan_final')):
        fn = P.fn(n)
        c = cls(ctx, P, {}, fn, 'scan')
        Analysis(P, fn, c).run()
        if not c.njudge:
            raise Broken('%s decides nothing' % n)
        ctx.count('functions judged')
        ctx.count('moments judged', c.njudge)
