"""Result arrays have room: no more results are written to an array than it was made for.

   fill    a function that fills an array it is given writes (or lets another function write) only below the count it is given;
           a count of 0 means as many as the collection has
   made    an engine operation makes the array for at least as many results as the function filling it may write
"""
import re
from flow import Analysis, last_field
from own import base
from room import Room, plus
from zone import Zones, Z

# function -> (the argument that is the array, the one that says how many at most, what a count of 0 means:
# ALL there are, NONE, or never given)
ALL, NONE, NEVER = 'all', 'none', 'never'
FILL = {'do_list_elem_get': (5, 2, ALL), 'do_set_elem_get': (3, 1, ALL), 'do_set_elem_traverse_dfs': (4, 2, ALL),
        'do_set_elem_traverse_rand': (3, 1, NEVER), 'do_set_elem_traverse_sampling': (4, 3, NEVER),
        'do_map_elem_get': (4, 1, ALL), 'do_map_elem_traverse_dfs_bycnt': (4, 2, ALL),
        'do_btree_elem_get': (7, 5, ALL), 'do_btree_elem_batch_get': (5, 2, NONE), 'do_btree_elem_get_by_posi': (4, 2, NEVER)}
ONE = {'do_map_elem_traverse_dfs_byfield': 5}        # at most one
ANSWER = ('do_set_elem_traverse_dfs', 'do_set_elem_traverse_sampling', 'do_map_elem_traverse_dfs_bycnt',
          'do_map_elem_traverse_dfs_byfield', 'do_btree_elem_batch_get')   # what they answer is how many they wrote
TWICE = {'do_btree_posi_find_with_get': (5, 4)}      # count on either side and the one between


class Fill(Zones):
    """one filling function: where it writes to the array it was given, and how many it answers"""

    def __init__(self, prog, fn, arr, size, opt, least=True):
        super().__init__(prog, fn)
        self.arr, self.size, self.opt = ('a', arr), size, opt      # size: (argument or None, factor, constant)
        self.seen = {}

    def entry(self, z):
        a = self.size[0]
        if a is not None:
            z.put(Z, ('a', a), 0 if self.opt in (NONE, None) else -1)

    def call(self, z, i):
        b = base(self.prog.callee(i) or '')
        me = ('i', i.id)
        if b in ANSWER and b in FILL:
            z.put(Z, me, 0)
            if self.le(z, ('c', 0 if FILL[b][2] == NONE else 1), i.args[FILL[b][1]]):
                self.put(z, me, i.args[FILL[b][1]], 0)
        elif b in ANSWER:
            z.put(Z, me, 0)
            z.put(me, Z, 1)

    def index(self, v, d=0):
        """the places an address into the array may have: operand or None for the first"""
        if d > 6:
            return [False]
        if v == self.arr:
            return [None]
        if v[0] != 'i':
            return []
        i = self.fn.insts[v[1]]
        if i.op == 'gep':
            r = self.index(i.p, d + 1)
            if not r:
                return []
            var = [s[1] for s in i.steps if isinstance(s, tuple)]
            if r == [None] and len(var) == 1:
                return var
            if not var:
                return r
            return [False]
        if i.op == 'phi':
            return [x for w in i.phi.values() for x in self.index(w, d + 1)]
        if i.op == 'select':
            return self.index(i.a, d + 1) + self.index(i.b, d + 1)
        return []

    def below(self, z, idx, n):
        """idx + n places are no more than asked for; n an operand"""
        a, f, c = self.size
        lim = ('c', c) if a is None else ('a', a)
        if idx is None:
            idx = ('c', 0)
        if f == 2:
            # idx <= count + d, n <= count + e: together at most 2 * count + c
            ub = [self.over(z, v, lim) for v in (idx, n)]
            k = self.over(z, n, ('c', 0))
            return ub[0] is not None and (ub[1] is not None and sum(ub) <= c or k is not None and ub[0] + k <= c)
        if self.le(z, n, ('c', 1)) and self.le(z, idx, lim, -1):
            return True
        if self.le(z, idx, ('c', 0)) and self.le(z, n, lim):
            return True
        k = self.over(z, idx, ('c', 0))
        if k is not None and self.le(z, n, lim, -k):
            return True
        (x, p) = self.var(idx)
        for X, Y in self.sums(z, n):
            if self.le(z, X, lim) and self.le(z, idx, Y):
                return True
        return False

    def over(self, z, v, lim):
        """the least d with v <= lim + d"""
        (x, p), (y, q) = self.var(v), self.var(lim)
        d = 0 if x == y else z.get((x, y))
        return None if d is None else d + p - q

    def visit(self, z, i):
        if i.op == 'store':
            for k in self.index(i.p):
                self.note(i, 'a write', k is not False and (self.below(z, k, ('c', 1)) or self.moved(i, k)))
        elif i.op == 'call':
            b = base(self.prog.callee(i) or '')
            for k, a in enumerate(i.args):
                for idx in self.index(a):
                    if b in FILL and FILL[b][0] == k:
                        n = i.args[FILL[b][1]]
                        ok = idx is not False and self.below(z, idx, n)
                        if ok and FILL[b][2] != NONE:
                            ok = self.le(z, ('c', 1), n)     # 0 would mean all there are
                        self.note(i, b, ok)
                    elif b in ONE and ONE[b] == k:
                        self.note(i, b, idx is not False and self.below(z, idx, ('c', 1)))
                    elif b in TWICE:
                        self.note(i, b, idx is None)
        elif i.op == 'ret' and i.v is not None and base(self.fn.name) in ANSWER:
            a, f, c = self.size
            self.note(i, 'its answer', self.le(z, i.v, ('c', c) if a is None else ('a', a)))

    def moved(self, i, k):
        """a result read from the array and put back into it"""
        return i.v[0] == 'i' and self.fn.insts[i.v[1]].op == 'load' and bool(self.index(self.fn.insts[i.v[1]].p))

    def note(self, i, what, ok):
        self.seen[(i.line, what)] = self.seen.get((i.line, what), True) and bool(ok)


class Some(Zones):
    """calls of filling functions whose count is certainly not 0"""

    def visit(self, z, i):
        b = base(self.prog.callee(i) or '') if i.op == 'call' else ''
        if b in FILL and self.le(z, ('c', 1), i.args[FILL[b][1]]):
            self.calls.add(i.id)

    def found(self):
        self.calls = set()
        self.run()
        return self.calls


class Made(Room):
    """the array an operation makes"""
    cap = 60

    def __init__(self, prog, fn):
        super().__init__(prog, fn, {})
        self.seen = {}
        self.some = Some(prog, fn).found()

    def call(self, an, st, i, name, args):
        b = base(name or '')
        if b == 'malloc':
            n, m = {}, {}
            self.lin(an, st, args[0], n)
            self.slin(i.args[0], m)
            self.keep(st, ('i', i.id), n, m)
        elif b == 'calloc' and args[1][0] == 'c':
            n, m = {}, {}
            self.lin(an, st, args[0], n, args[1][1])
            self.slin(i.args[0], m, args[1][1])
            self.keep(st, ('i', i.id), n, m)
        spec = FILL.get(b) or ((TWICE[b][0], TWICE[b][1], NONE) if b in TWICE else None)
        if spec is None or base(self.fn.name) in FILL:
            return None
        a = args[spec[0]]
        if a == ('c', 0) or st.rng(a)[:2] == (0, 0):
            return None
        c = args[spec[1]]
        made = [x for x in st.prop if x[0] == 'made' and x[1] == a]
        if not made:
            self.seen[(i.line, b)] = 'the array was not made on this path'
            return None
        size = [dict(x) for x in made[0][2:]]
        need, same = {}, {}
        self.lin(an, st, c, need)
        self.slin(i.args[spec[1]], same)
        ok = False
        zero = spec[2] == ALL and st.rng(c)[:2] == (0, 0)
        if not zero:
            for n, have in zip((need, same), size):
                d = {s: -k for s, k in have.items()}
                for s, k in n.items():
                    d[s] = d.get(s, 0) + 8 * k * (2 if b in TWICE else 1)
                if b in TWICE:
                    d[None] = d.get(None, 0) + 8
                ok = ok or all(v == 0 for s, v in d.items() if s is not None) and d.get(None, 0) <= 0
            if spec[2] == ALL and ok and i.id not in self.some and st.rng(c)[0] <= 0 and 0 not in st.rng(c)[2]:
                ok = False                   # a count of 0 means all there are
        if not ok and spec[2] == ALL and not b.startswith('do_map') or zero:
            # every element at most once: as many places as there are elements
            n = {s: k for s, k in size[0].items() if k}
            t = [s for s in n if s is not None]
            if len(t) == 1 and n[t[0]] == 8 and n.get(None, 0) >= 0:
                s = t[0]
                while s[0] in ('tr', 'zx'):
                    s = s[2]
                ok = s in self.src and last_field(self.src[s][0]).endswith('_meta_info.ccnt')
        if ok:
            self.seen.setdefault((i.line, b), None)
        else:
            self.seen[(i.line, b)] = 'the array is not made for as many results as %s may write' % b
        return None

    def keep(self, st, ptr, *forms):
        st.prop = frozenset(x for x in st.prop if x[:2] != ('made', ptr)) | \
            {('made', ptr) + tuple(frozenset(f.items()) for f in forms)}

    def slin(self, v, out, k=1, d=0):
        """the linear form of an operand over the function's own values"""
        if v[0] == 'c':
            out[None] = out.get(None, 0) + k * v[1]
            return
        i = self.fn.insts[v[1]] if v[0] == 'i' and d < 12 else None
        if i is not None and i.op == 'cast' and i.k in ('zext', 'sext', 'trunc'):
            self.slin(i.a, out, k, d + 1)
        elif i is not None and i.op == 'bin' and i.k in ('add', 'sub'):
            self.slin(i.a, out, k, d + 1)
            self.slin(i.b, out, k if i.k == 'add' else -k, d + 1)
        elif i is not None and i.op == 'bin' and i.k in ('mul', 'shl') and i.b[0] == 'c':
            self.slin(i.a, out, k * (i.b[1] if i.k == 'mul' else 1 << i.b[1]), d + 1)
        else:
            out[v] = out.get(v, 0) + k

    def load(self, an, st, i, addr, val):
        self.src[val] = (addr, i.ty)


def check(ctx, p):
    eng = {n: f for n, f in p.fns.items() if 'engines/default' in f.file and f.blocks}
    for n, f in sorted(eng.items()):
        b = base(n)
        if b in FILL:
            c = Fill(p, f, FILL[b][0], (FILL[b][1], 1, 0), FILL[b][2])
        elif b in ONE:
            c = Fill(p, f, ONE[b], (None, 0, 1), None)
        elif b in TWICE:
            c = Fill(p, f, TWICE[b][0], (TWICE[b][1], 2, 1), None)
        else:
            continue
        c.run()
        ctx.count('filling functions')
        for (line, what), ok in sorted(c.seen.items()):
            ctx.count('writes judged')
            if ok:
                ctx.sample('%s:%d %s below the count' % (b, line, what))
            else:
                ctx.violation('fill', f, line, what, 'nothing on the path keeps %s within the number of results asked for' % what, [])
    for n, f in sorted(eng.items()):
        if base(n) in FILL or base(n) in TWICE or not any(base(p.callee(i) or '') in FILL or base(p.callee(i) or '') in TWICE
                                                          for i in f.calls()):
            continue
        c = Made(p, f)
        Analysis(p, f, c).run()
        for (line, what), why in sorted(c.seen.items()):
            ctx.count('arrays judged')
            if why is None:
                ctx.sample('%s:%d array for %s' % (base(n), line, what))
            else:
                ctx.violation('made', f, line, what, why, [])
