"""Differences between the integers of one function: a zone domain over its SSA values.

   A state holds facts x - y <= c.  At a join only what both sides know is kept, in a loop what keeps growing is dropped,
   so what is left at the head of a loop is an invariant of it.  Conditions add facts on their edges; an edge whose facts
   contradict each other is not taken.  Integers are taken as unbounded (an assumption a check has to state).
"""
Z = ('z',)
LE = {'eq': ('le', 'ge'), 'lt': ('lt',), 'le': ('le',), 'gt': ('gt',), 'ge': ('ge',)}
NEG = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}


class Dead(Exception):
    pass


class Zone(dict):
    def put(self, x, y, c):
        """x - y <= c, and what follows"""
        if x == y:
            if c < 0:
                raise Dead()
            return
        if self.get((x, y), c + 1) <= c:
            return
        into = [(x, 0)]
        outof = [(y, 0)]
        for (a, b), d in self.items():
            if b == x:
                into.append((a, d))
            elif a == y:
                outof.append((b, d))
        for a, d in into:
            for b, e in outof:
                s = d + c + e
                if a == b:
                    if s < 0:
                        raise Dead()
                elif self.get((a, b), s + 1) > s:
                    self[(a, b)] = s

    def forget(self, x):
        for k in [k for k in self if x in k]:
            del self[k]

    def le(self, x, y, c=0):
        """is x - y <= c certain?"""
        return x == y and c >= 0 or self.get((x, y), c + 1) <= c


class Zones:
    rounds = 6

    def __init__(self, prog, fn):
        self.prog, self.fn = prog, fn
        self.at = {}
        self.order = self.rpo()
        self.pairs = self.sumpairs()

    # ---- for clients
    def entry(self, z):
        pass

    def call(self, z, i):
        """facts about the result of a call"""

    def visit(self, z, i):
        """an instruction, in the final state before it"""

    # ---- values
    def var(self, v):
        """(variable, offset) of an operand"""
        for _ in range(20):
            if v[0] == 'c':
                return Z, v[1]
            if v[0] == 'i':
                i = self.fn.insts[v[1]]
                if i.op == 'cast' and i.k in ('zext', 'sext', 'trunc'):
                    v = i.a
                    continue
            break
        return v, 0

    def atoms(self, vs):
        """the sum of operands as (its terms that are not sums, a constant)"""
        todo, out, k = list(vs), [], 0
        while todo:
            x, p = self.var(todo.pop())
            k += p
            if x == Z:
                continue
            i = self.fn.insts[x[1]] if x[0] == 'i' else None
            if i is not None and i.op == 'bin' and i.k == 'add' and len(todo) + len(out) < 6:
                todo += [i.a, i.b]
            elif i is not None and i.op == 'bin' and i.k == 'sub' and self.var(i.b)[0] == Z and len(todo) + len(out) < 6:
                todo.append(i.a)
                k -= self.var(i.b)[1]
            else:
                out.append(x)
        return tuple(sorted(out)), k

    def sumvar(self, vs):
        """(variable, offset) for a sum of operands, or None"""
        t, k = self.atoms(vs)
        if len(t) == 0:
            return Z, k
        if len(t) == 1:
            return t[0], k
        if len(t) == 2 and t in self.pairs:
            return ('+',) + t, k
        return None

    def sumpairs(self):
        out = set()
        todo = []
        for i in self.fn.all():
            if i.op == 'bin' and i.k == 'add' and i.ty != 'ptr':
                t, _ = self.atoms([i.a, i.b])
                if len(t) == 2:
                    todo.append(t)
        for b in self.order:
            if any(self.order.index(p) >= self.order.index(b) for p in self.fn.preds[b] if p in self.order):
                ph = sorted(('i', i.id) for i in self.fn.blocks[b] if i.op == 'phi' and i.ty != 'ptr')
                if len(ph) <= 6:
                    todo = [(x, y) for n, x in enumerate(ph) for y in ph[n + 1:]] + todo
        while todo and len(out) < 300:
            t = todo.pop()
            if t in out:
                continue
            out.add(t)
            phis = [self.fn.insts[x[1]] if x[0] == 'i' and self.fn.insts[x[1]].op == 'phi' else None for x in t]
            for b in {i.blk for i in phis if i is not None}:
                for p in self.fn.preds[b]:
                    u, _ = self.atoms([i.phi[p] if i is not None and i.blk == b else x for i, x in zip(phis, t)])
                    if len(u) == 2:
                        todo.append(u)
        return out

    def forget(self, z, x):
        z.forget(x)
        for k in [k for k in z if k[0][0] == '+' and x in k[0] or k[1][0] == '+' and x in k[1]]:
            del z[k]

    def put(self, z, a, b, c):
        (x, p), (y, q) = self.var(a), self.var(b)
        z.put(x, y, c - p + q)

    def le(self, z, a, b, c=0):
        (x, p), (y, q) = self.var(a), self.var(b)
        if z.le(x, y, c - p + q):
            return True
        for (s, t), k in z.items():
            # x + w <= y + k and w >= m
            if t == y and s[0] == '+' and x in s[1:]:
                w = s[2] if s[1] == x else s[1]
                m = z.get((Z, w))
                if m is not None and k + m <= c - p + q:
                    return True
        return False

    def sums(self, z, v):
        """what v is at most: (X, Y) for X - Y"""
        x, p = self.var(v)
        if p:
            return []
        out = []
        for s in {x} | {b for (a, b), c in z.items() if a == x and c <= 0}:
            if s[0] == 'i':
                i = self.fn.insts[s[1]]
                if i.op == 'bin' and i.k == 'sub':
                    out.append((i.a, i.b))
        return out

    # ---- transfer
    def inst(self, z, i):
        if i.op == 'store':
            self.store(z, i)
        elif i.op == 'call':
            # what a local variable holds may have changed
            for x in {x for k in z for x in k if x[0] == 'm'}:
                z.forget(x)
        if i.op == 'phi' or i.ty == 'ptr' or i.op in ('store', 'br', 'ret', 'switch'):
            return
        me = ('i', i.id)
        self.forget(z, me)
        if i.op == 'bin' and i.k in ('add', 'sub'):
            sg = 1 if i.k == 'add' else -1
            for a, b in ((i.a, i.b), (i.b, i.a)):
                if i.k == 'sub' and a is i.b:
                    continue
                (x, p), (y, q) = self.var(a), self.var(b)
                if y == Z:
                    z.put(me, x, p + sg * q)
                    z.put(x, me, -p - sg * q)
                else:
                    lo = z.get((Z, y))            # -y <= lo
                    hi = z.get((y, Z))
                    if sg > 0:
                        if hi is not None:
                            z.put(me, x, p + q + hi)
                        if lo is not None:
                            z.put(x, me, lo - q - p)
                    else:
                        if lo is not None:
                            z.put(me, x, p - q + lo)
                        if hi is not None:
                            z.put(x, me, hi + q - p)
            t = self.sumvar([me])
            if t is not None and t[0] != me:
                z.put(me, t[0], t[1])
                z.put(t[0], me, -t[1])
            if i.k == 'sub':
                # a - b where b <= a + c: at least -c
                (x, p), (y, q) = self.var(i.a), self.var(i.b)
                c = z.get((y, x))
                if c is not None:
                    z.put(Z, me, c + q - p)
            else:
                # a + b where b <= X - a
                for a, b in ((i.a, i.b), (i.b, i.a)):
                    x, p = self.var(a)
                    for X, Y in self.sums(z, b):
                        y, q = self.var(Y)
                        if z.le(x, y, q - p):
                            w, r = self.var(X)
                            z.put(me, w, r)
        elif i.op == 'select':
            a, b = self.side(z, i.c, True), self.side(z, i.c, False)
            vs = ([(a, i.a)] if a is not None else []) + ([(b, i.b)] if b is not None else [])
            for w, v in vs:
                self.assign(w, me, v)
            if vs:
                self.meet(z, self.join([w for w, _ in vs]))
        elif i.op == 'icmp' or i.ty == 'i1':
            z.put(me, Z, 1)
            z.put(Z, me, 0)
        elif i.op == 'call':
            self.call(z, i)
        elif i.op == 'load' and self.local(i.p):
            m = ('m', i.p[1])
            z.put(me, m, 0)
            z.put(m, me, 0)

    def local(self, p):
        return p[0] == 'i' and self.fn.insts[p[1]].op == 'alloca' and self.fn.insts[p[1]].at in ('i8', 'i16', 'i32', 'i64')

    def store(self, z, i):
        if self.local(i.p):
            if i.vt != self.fn.insts[i.p[1]].at:
                z.forget(('m', i.p[1]))
            else:
                self.assign(z, ('m', i.p[1]), i.v)
        elif not self.private(i.p):
            for x in {x for k in z for x in k if x[0] == 'm'}:
                z.forget(x)

    def private(self, p):
        """an address inside a local structure, which is no other variable"""
        for _ in range(6):
            if p[0] != 'i':
                return False
            i = self.fn.insts[p[1]]
            if i.op == 'alloca':
                return True
            if i.op != 'gep':
                return False
            p = i.p
        return False

    def assign(self, z, me, v):
        x, p = self.var(v)
        self.forget(z, me)
        if x != me:
            z.put(me, x, p)
            z.put(x, me, -p)

    def meet(self, z, o):
        for (x, y), c in o.items():
            z.put(x, y, c)

    def side(self, z, c, way):
        """the state where a condition is true or false, None where it cannot be"""
        w = Zone(z)
        try:
            self.assume(w, c, way)
            return w
        except Dead:
            return None

    def assume(self, z, c, way, d=0):
        if c[0] == 'c':
            if bool(c[1]) != way:
                raise Dead()
            return
        if c[0] != 'i' or d > 6:
            return
        i = self.fn.insts[c[1]]
        if i.op == 'icmp':
            if i.ty == 'ptr' or i.a[0] not in 'cai' or i.b[0] not in 'cai':
                return
            q = i.pred if i.pred in ('eq', 'ne') else i.pred[1:]
            if q in ('eq', 'ne') and i.b == ('c', 0) and i.a[0] == 'i':
                j = self.fn.insts[i.a[1]]
                while j.op == 'cast' and j.a[0] == 'i':
                    j = self.fn.insts[j.a[1]]
                if j.op == 'icmp' or j.ty == 'i1':
                    self.assume(z, ('i', j.id), way == (q == 'ne'), d + 1)
                    return
            if not way:
                q = NEG[q]
            if q == 'ne':
                (x, p), (y, r) = self.var(i.a), self.var(i.b)
                # x != y where one bound is known to meet: x <= y becomes x < y
                if z.le(x, y, r - p):
                    z.put(x, y, r - p - 1)
                elif z.le(y, x, p - r):
                    z.put(y, x, p - r - 1)
                return
            for o in LE[q]:
                if o in ('lt', 'le'):
                    self.put(z, i.a, i.b, -1 if o == 'lt' else 0)
                else:
                    self.put(z, i.b, i.a, -1 if o == 'gt' else 0)
                for s, t in ((i.a, i.b),) if o in ('lt', 'le') else ((i.b, i.a),):
                    # s < X - Y, where s is not negative: Y < X
                    x, p = self.var(s)
                    c0 = -1 if o in ('lt', 'gt') else 0
                    j = self.fn.insts[t[1]] if t[0] == 'i' else None
                    while j is not None and j.op == 'cast' and j.a[0] == 'i':
                        j = self.fn.insts[j.a[1]]
                    if j is not None and j.op == 'bin' and j.k == 'sub' and (x == Z and p >= 0 or z.le(Z, x, p) or i.pred[0] == 'u'):
                        self.put(z, j.b, j.a, c0)
        elif i.op == 'bin' and i.k in ('and', 'or') and i.ty == 'i1':
            if (i.k == 'and') == way:
                self.assume(z, i.a, way, d + 1)
                self.assume(z, i.b, way, d + 1)
        elif i.op == 'bin' and i.k == 'xor' and i.b == ('c', 1):
            self.assume(z, i.a, not way, d + 1)
        elif i.op == 'select' and i.ty == 'i1':
            if i.b == ('c', 0) and way or i.a == ('c', 1) and not way:
                self.assume(z, i.c, way, d + 1)
                self.assume(z, i.a if i.b == ('c', 0) and way else i.b, way, d + 1)

    def join(self, zs):
        r = Zone(zs[0])
        for z in zs[1:]:
            for k in list(r):
                c = z.get(k)
                if c is None:
                    del r[k]
                elif c > r[k]:
                    r[k] = c
        return r

    def joined(self, b):
        """the phi of this block its branch depends on, as in the end of a && b"""
        t = self.fn.blocks[b][-1]
        if b and t.op == 'br' and t.c is not None and t.c[0] == 'i' and t.dst[0] != t.dst[1]:
            i = self.fn.insts[t.c[1]]
            if i.op == 'phi' and i.blk == b:
                return i
        return None

    def split(self, b, s, edges):
        """the edge from b to s, for each way into b on its own"""
        i = self.joined(b)
        t = self.fn.blocks[b][-1]
        out = []
        for p in self.fn.preds[b]:
            z = edges.get((p, b))
            if z is None:
                continue
            z = Zone(z)
            try:
                self.assume(z, i.phi[p], s == t.dst[0])
                for j in self.fn.blocks[b]:
                    self.inst(z, j)
            except Dead:
                continue
            z = self.edge(z, b, s)
            if z is not None:
                out.append(z)
        return self.join(out) if out else None

    # ---- fixpoint
    def rpo(self):
        seen, out = set(), []
        todo = [(0, iter(self.fn.succs[0]))]
        seen.add(0)
        while todo:
            b, it = todo[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    todo.append((s, iter(self.fn.succs[s])))
                    break
            else:
                out.append(b)
                todo.pop()
        return out[::-1]

    def edge(self, z, b, s):
        """the state on the edge from b to s, phis of s assigned"""
        z = Zone(z)
        t = self.fn.blocks[b][-1]
        try:
            if t.op == 'br' and t.c is not None and t.dst[0] != t.dst[1]:
                self.assume(z, t.c, s == t.dst[0])
            elif t.op == 'switch':
                mine = [v for v, d in t.cases if d == s]
                if len(mine) == 1 and t.deflt != s:
                    self.put(z, t.c, ('c', mine[0]), 0)
                    self.put(z, ('c', mine[0]), t.c, 0)
            new = []
            for i in self.fn.blocks[s]:
                if i.op != 'phi':
                    break
                if i.ty == 'ptr':
                    continue
                x, p = self.var(i.phi[b])
                new.append((('i', i.id), x, p))
            mine = {me: i for i in self.fn.blocks[s] if i.op == 'phi' for me in (('i', i.id),)}
            for t in self.pairs:
                if t[0] in mine or t[1] in mine:
                    w = self.sumvar([mine[x].phi[b] if x in mine else x for x in t])
                    if w is not None:
                        new.append((('+',) + t, w[0], w[1]))
                    else:
                        z.forget(('+',) + t)
            for me, x, p in new:
                tmp = ('n', me)
                z.put(tmp, x, p)
                z.put(x, tmp, -p)
            for me, x, p in new:
                self.forget(z, me)
            out = Zone()
            for (x, y), c in z.items():
                k = (x[1] if x[0] == 'n' else x, y[1] if y[0] == 'n' else y)
                out[k] = min(c, out.get(k, c))
            return out
        except Dead:
            return None

    def run(self):
        z = Zone()
        self.entry(z)
        self.at = {0: z}
        edges = {}
        seen = {}
        changed = True
        turn = 0
        while changed:
            changed = False
            turn += 1
            for b in self.order:
                if b:
                    ins = [edges[(p, b)] for p in self.fn.preds[b] if edges.get((p, b)) is not None]
                    if not ins:
                        continue
                    z = self.join(ins)
                    old = self.at.get(b)
                    if old is not None:
                        if turn > self.rounds:
                            z = Zone({k: c for k, c in z.items() if k in old and c <= old[k]})
                            # what was given up stays given up
                            z = Zone({k: old[k] for k in z})
                    if old is not None and old == z and b in seen:
                        continue
                    self.at[b] = z
                if b == 0 and 0 in seen:
                    continue
                seen[b] = True
                z = Zone(self.at[b])
                try:
                    for i in self.fn.blocks[b]:
                        self.inst(z, i)
                except Dead:
                    z = None
                for s in self.fn.succs[b]:
                    e = self.split(b, s, edges) if self.joined(b) else self.edge(z, b, s) if z is not None else None
                    if edges.get((b, s), 0) != e:
                        edges[(b, s)] = e
                        changed = True
            if turn > 200:
                raise Exception('no fixpoint in %s' % self.fn.name)
        for b in self.order:
            if b not in self.at or b not in seen:
                continue
            z = Zone(self.at[b])
            try:
                for i in self.fn.blocks[b]:
                    self.visit(z, i)
                    self.inst(z, i)
            except Dead:
                pass
