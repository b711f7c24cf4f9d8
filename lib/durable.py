"""With persistence on, every change is written to the command log, and nothing else is.

Followed over every path of the item and collection layer, with change logging switched on:
   elements     an element that is linked has an insert record made of it, an element that is unlinked a delete record made of it
                (before it is freed) or the insert record of its replacement; an element changed in place is recorded after the
                change; no record without its change.  Removals for a normal request from a b+tree also leave the logical record,
                with the range, filter, offset and count asked for; removals of several elements lie between the begin and the end
                record; a list removal is recorded with the place, count and direction it is done with, before the count changes
   items        linking, unlinking and replacing record the item, the link record after the last change of what it records
   causes       a removal is labelled as trimming only where the insert that causes it is recorded, as part of its collection only
                on the way from the freeing of a collection, an item as invalid only where it was found invalid or the flush that
                invalidates it is recorded
   requests     an entry point of the engine that changes something has begun a logged request of the right kind before, and ends it
                with its result before it answers
   dispatch     each kind of change reaches its record, except for internal items and causes that need none
   records      a record is made of exactly what was handed over and written to the log once
"""
import re
from flow import Analysis, Client, last_field, ids_of
from own import base
from prog import Broken

INF = float('inf')
COLL = re.compile(r'^coll_(list|set|map|btree)$')
ALLOC = re.compile(r'^(do_)?(list|set|map|btree)_elem_alloc$')
FREE = re.compile(r'^do_(list|set|map|btree)_elem_free$')
LINK = re.compile(r'^_?(list|set|map|btree)_elem_item\.(next|prev|status)$')
BODY = re.compile(r'^_?(list|set|map|btree)_elem_item\.(data|value|nbytes|neflag)$')
CCNT = re.compile(r'^_?(list|set|map|btree|coll)_meta_info\.ccnt$')
PLACE = re.compile(r'^_?(list|set|map|btree)_elem_item\.|^_?(list|set|map|btree)_(meta_info|hash_node|indx_node)\.|^_?(map|set)_prev_info')
SETATTR = re.compile(r'^(list|set|map|btree)_coll_setattr$')
WITH_COUNT = re.compile(r'_elem_delete_with_count$')
APPLY = re.compile(r'(^|_)apply_')
WRITE = {'memcpy': 0, 'memmove': 0, 'memset': 0, 'snprintf': 0, 'sprintf': 0, 'strcpy': 0, 'strncpy': 0}


def strip(v):
    while v is not None and v[0] in ('tr', 'zx', 'sx'):
        v = v[2]
    return v


def body_of(a):
    """the element whose content lies at this address"""
    hit = False
    while a is not None:
        if a[0] == 'f':
            if BODY.match(a[2]):
                return a[1], a[2]
            a = a[1]
        elif a[0] == 'x':
            a = a[1]
        elif a[0] == 'bin' and a[1] in ('add', 'sub'):
            a = a[2]
        elif a[0] in ('i', 'o', 'j', 'r'):
            return None
        else:
            return None
    return None


def cyclic(fn):
    """blocks that lie on a cycle"""
    out = set()
    for b in range(len(fn.blocks)):
        seen, todo = set(), list(fn.succs[b])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += fn.succs[x]
        if b in seen:
            out.add(b)
    return out


class Base(Client):
    cap = 12
    total_cap = 800

    def __init__(self, ctx, P, K, S):
        self.ctx, self.prog, self.K, self.S = ctx, P, K, S
        self.njudge = 0
        self.obl = {}          # obligations left to the callers: (kind, arg…) -> (line, needs)

    def entry(self, an, fn):
        return frozenset()

    def live_syms(self, prop):
        return [y for x in prop for y in x[1:] if isinstance(y, tuple)]

    def tok(self, st, *t):
        st.prop = st.prop | {t}

    def has(self, st, *t):
        return any(x[:len(t)] == t for x in st.prop)

    def get(self, st, k):
        return [x for x in st.prop if x[0] == k]

    def drop(self, st, f):
        st.prop = frozenset(x for x in st.prop if not f(x))

    def bad(self, rule, an, line, what, msg):
        self.ctx.violation(rule, an.fn, line, what, msg)

    def load(self, an, st, i, addr, val):
        g = addr[1] if addr[0] == 'g' else None
        f = last_field(addr)
        if g == 'item_clog_enabled' or f and f.endswith('engine_config.use_persistence'):
            st.env[i.id] = ('c', 1)
        self.load2(an, st, i, addr, val)

    def load2(self, an, st, i, addr, val):
        pass

    def nonzero(self, an, st):
        """arguments this path runs only with when they are not zero"""
        return frozenset(k for k in range(len(an.fn.args)) if st.known_ne(('a', k), 0) or st.const(('a', k)) not in (None, 0))

    def owe(self, an, st, key, line):
        """leave an obligation to the callers"""
        n = self.nonzero(an, st)
        if key in self.obl:
            n = n & self.obl[key][1]
            line = self.obl[key][0]
        self.obl[key] = (line, n)

    def cause(self, st, v, which):
        """may the cause be this one: True, False, or the argument that decides"""
        v = strip(v)
        if v[0] == 'c':
            return v[1] == which
        c = st.const(v)
        if c is not None:
            return c == which
        if st.known_ne(v, which):
            return False
        return v if v[0] == 'a' else True


class Ops(Base):
    """element changes of one function of a collection"""

    def __init__(self, ctx, P, K, S, fn, kind, free):
        Base.__init__(self, ctx, P, K, S)
        self.fn, self.kind, self.free = fn, kind, free
        self.cyc = cyclic(fn)
        self.again = []

    # ---- bookkeeping
    def merge_old(self, an, st, ids):
        out = set()
        for x in st.prop:
            if not ids_of(x) & ids:
                out.add(x)
                continue
            line = x[-1] if isinstance(x[-1], int) else an.fn.line
            if x[0] == 'gone':
                self.bad('elements', an, line, 'unlink of an element', 'an element is unlinked and no delete record is made of it')
            elif x[0] == 'dlog':
                self.bad('elements', an, line, 'delete record', 'a delete record is made of an element that is not unlinked')
            elif x[0] == 'ilog':
                self.bad('elements', an, line, 'insert record', 'an insert record is made of an element that is not linked')
            elif x[0] == 'body':
                self.bad('elements', an, line, 'change in place', 'an element is changed in place and no insert record is made of it')
        return frozenset(out)

    def load2(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        if self.kind == 'list' and f.endswith(('_list_elem_item.next', '_list_elem_item.prev')):
            self.tok(st, 'step', st.env[i.id], f[-4:], addr[1])

    def phis(self, an, st, b, prev):
        """the walk over a list goes the way its record says"""
        logs = self.get(st, 'llog') if self.kind == 'list' else ()
        if not logs:
            return
        for i in an.fn.blocks[b]:
            if i.op != 'phi':
                break
            v = an.val(st, i.phi[prev])
            for x in self.get(st, 'step'):
                if x[1] == v and v[0] != 'c':
                    f = logs[0][3]
                    ok = (st.known_ne(f, 0) or f[0] == 'c' and f[1]) if x[2] == 'next' else (st.known_eq(f, 0) or f == ('c', 0))
                    if not ok:
                        self.bad('elements', an, i.line or an.fn.line, 'delete record', 'the elements are removed in another direction '
                                 'than the delete record says')

    def fresh(self, st, e):
        return self.has(st, 'fresh', e)

    # ---- what happens to elements
    def prestore(self, an, st, i, addr, val):
        f = last_field(addr)
        if f is None:
            if addr[0] in ('x', 'f') and val is not None:
                self.placed(st, addr, val)
            return
        m = LINK.match(f)
        if m and val is not None:
            e = addr[1]
            c = strip(val)
            c = c[1] if c[0] == 'c' else None
            if m.group(2) == 'next' and c == self.K['UNLINKED'] or m.group(2) == 'status' and c in self.K['GONE']:
                was = st.mem.get(addr)
                if m.group(2) == 'status' and was is not None and st.known_ne(was, self.K['USED']):
                    return          # out of the tree already
                self.gone(an, st, i, e)
                return
        if CCNT.match(f) and val is not None:
            v = strip(val)
            if v[0] == 'bin' and v[1] == 'add' and v[3] == ('c', 1):
                self.tok(st, 'inc', i.line)
            elif v != ('c', 0):
                self.tok(st, 'dec')
            self.tok(st, 'ccnt')
            return
        b = body_of(addr)
        if b and f and BODY.match(f):
            self.change(an, st, i, b[0])
            return
        if val is not None:
            self.placed(st, addr, val)

    def placed(self, st, addr, val):
        a, inside = addr, False
        while a[0] in ('f', 'x'):
            inside |= a[0] == 'f' and bool(PLACE.match(a[2]))
            a = a[1]
        if not inside:
            return
        v = strip(val)
        if v[0] in ('c', 'u'):
            return
        self.tok(st, 'placed', v)
        self.drop(st, lambda x: x[0] == 'ilog' and x[1] == v)

    def gone(self, an, st, i, e):
        if self.has(st, 'gone', e) or self.has(st, 'rm', e):
            return
        self.njudge += 1
        if self.has(st, 'old', e):       # replaced: the insert record of the new one says it all
            return
        if self.kind == 'list':
            logs = self.get(st, 'llog')
            if not logs:
                self.bad('elements', an, i.line, 'unlink of an element', 'list elements are unlinked that no delete record covers')
                return
            t = logs[0]
            self.tok(st, 'lgone', t[1], i.line)
            self.removal(an, st, i, t[5], listed=True)
            return
        d = [x for x in st.prop if x[0] == 'dlog' and x[1] == e]
        if d:
            self.drop(st, lambda x: x in d)
            self.tok(st, 'rm', e)
            self.removal(an, st, i, d[0][2])
        else:
            self.tok(st, 'gone', e, i.line)

    def change(self, an, st, i, e):
        if self.fresh(st, e) or e[0] == 'a' or e[0] == 'g':
            return
        self.njudge += 1
        if self.has(st, 'ilogged', e, e):
            self.bad('elements', an, i.line, 'change in place', 'an element is changed after its insert record was made')
        self.tok(st, 'body', e, i.line)

    def removal(self, an, st, i, cause, listed=False, multi=False, logical=True):
        """an element has been removed on this path, for this cause"""
        K = self.K
        n = self.cause(st, cause, K['TRIM'])
        if n is True and not self.get(st, 'ilogged'):
            self.owe(an, st, ('trim',), i.line)
        n = self.cause(st, cause, K['COLL'])
        if n is True and not self.free:
            if self.cause(st, cause, K['NORMAL']) is False:
                self.coll(an, st, i)
        n = self.cause(st, cause, K['NORMAL'])
        if n is False:
            return
        if n is True and self.cause(st, cause, K['TRIM']) is False and any(x[1] == ('c', 0) for x in self.get(st, 'ilogged')):
            self.bad('causes', an, i.line, 'removal', 'what an insert removes to make room is recorded as a removal of its own')
        k = n[1] if n is not True else None
        if self.get(st, 'self'):
            self.again.append((i.line, bool(self.get(st, 'begun'))))
        self.tok(st, 'removed')
        if self.kind == 'btree' and logical:
            self.tok(st, 'owes', 'lgc', k, i.line)
        if not listed and (multi or i.blk in self.cyc) and not self.get(st, 'begun'):
            self.owe(an, st, ('bracket', k), i.line)
        self.owe(an, st, ('removes', k), i.line)
        if multi or i.blk in self.cyc:
            self.owe(an, st, ('multi', k), i.line)

    def coll(self, an, st, i):
        z = [k for k, a in enumerate(an.fn.args) if a[1].endswith('*') and st.known_eq(('a', k), 0)]
        if z:
            self.owe(an, st, ('collnull', z[0]), i.line)
            return
        self.bad('causes', an, i.line, 'delete record', 'a removal is labelled as part of the removal of its collection in %s, '
                 'which also runs for normal requests' % an.fn.name)

    # ---- calls
    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        K = self.K
        if n.startswith('CLOG_GE_'):
            return self.log(an, st, i, n[8:], args)
        if ALLOC.match(n):
            an.effect(st, i, name, args)
            self.tok(st, 'fresh', st.env[i.id])
            return [st]
        if FREE.match(n):
            self.tok(st, 'freed', args[0])
            return None
        if n == 'do_list_elem_find':
            an.effect(st, i, name, args)
            for t in self.get(st, 'llog'):
                if t[2] != args[1] and not st.related('eq', t[2], args[1]):
                    self.bad('elements', an, i.line, 'delete record', 'the delete record names another place than the one removed from')
            return [st]
        if n == 'do_btree_find_first':
            self.tok(st, 'used', 'range', strip(args[2]))
        if n == 'do_btree_elem_filter':
            self.tok(st, 'used', 'filter', strip(args[1]))
        w = WRITE.get(n)
        if w is None and re.match(r'^llvm\.(memcpy|memmove|memset)', n):
            w = 0
        if w is not None and args and args[w]:
            b = body_of(args[w])
            if b:
                self.change(an, st, i, b[0])
        elif name is None or not n or n.startswith('arg:') or n.startswith('vt:'):
            for a in args:
                b = body_of(a) if a else None
                if b:
                    self.change(an, st, i, b[0])
        s = self.S.get(name)
        if s and an.fn.name != name:
            self.debts(an, st, i, name, args, s)
        elif name == an.fn.name:
            self.tok(st, 'self')
            if i.blk in self.cyc or self.get(st, 'removed'):
                self.again.append((i.line, bool(self.get(st, 'begun'))))
        return None

    def recursion(self):
        """a function that calls itself and goes on may remove several elements"""
        for line, begun in self.again:
            for k, (_, needs) in list(self.obl.items()):
                if k[0] == 'removes':
                    self.obl.setdefault(('multi', k[1]), (line, needs))
                    if not begun and self.kind != 'list':
                        self.obl.setdefault(('bracket', k[1]), (line, needs))

    def branch(self, an, st, i, cond, truth):
        v = strip(cond)
        while v is not None and v[0] == 'cmp' and v[1] in ('eq', 'ne') and strip(v[3]) == ('c', 0):
            truth, v = (truth if v[1] == 'ne' else not truth), strip(v[2])
        if v is not None and v[0] == 'a' and 'ool' in an.fn.args[v[1]][1]:
            self.tok(st, 'flag', v[1], bool(truth))

    def debts(self, an, st, i, name, args, s):
        """what the function called leaves to its caller"""
        K = self.K
        for key, (line, needs) in sorted(s.items(), key=str):
            if any(k < len(args) and st.known_eq(args[k], 0) for k in needs):
                continue
            if key[0] == 'collnull':
                a = args[key[1]]
                if st.known_eq(a, 0) and not self.free:
                    self.bad('causes', an, i.line, name, 'removes elements as part of the removal of their collection from %s, which '
                             'also runs for normal requests' % an.fn.name)
                continue
            if key[0] == 'trim':
                if not self.get(st, 'ilogged'):
                    self.owe(an, st, key, i.line)
                continue
            cv = ('c', K['NORMAL']) if key[1] is None else args[key[1]]
            n = self.cause(st, cv, K['NORMAL'])
            if key[0] == 'removes':
                self.removal(an, st, i, cv, listed=True, multi=any(x[0] == 'multi' for x in s), logical=('lgc', key[1]) in s)
            elif n is False:
                continue
            elif key[0] == 'bracket' and not self.get(st, 'begun'):
                self.owe(an, st, ('bracket', n[1] if n is not True else None), i.line)

    def log(self, an, st, i, n, args):
        K = self.K
        self.njudge += 1
        an.effect(st, i, 'CLOG_GE_' + n, args)
        what = n.lower().replace('_', ' ') + ' record'
        if n.endswith('_ELEM_INSERT'):
            if n == 'LIST_ELEM_INSERT':
                info, index, new = args
                old = ('c', 0)
                self.tok(st, 'listins', index)
                if strip(index)[0] != 'a':
                    self.bad('elements', an, i.line, what, 'the record does not name the place that was asked for')
                if self.get(st, 'ccnt'):
                    self.bad('elements', an, i.line, what, 'the record is made after the element count has changed')
            elif n == 'SET_ELEM_INSERT':
                info, new = args
                old = ('c', 0)
            else:
                info, old, new = args
            new, old = strip(new), strip(old)
            for e in (old, new):
                if self.has(st, 'freed', e):
                    self.bad('elements', an, i.line, what, 'a record is made of an element that has been freed')
            self.tok(st, 'ilogged', old, new)
            self.drop(st, lambda x: x[0] == 'body' and x[1] == new)
            self.drop(st, lambda x: x[0] == 'gone' and x[1] == old and old != new)
            if old != ('c', 0):
                self.tok(st, 'old', old)
            if old == new:
                pass
            elif not self.has(st, 'placed', new):
                self.tok(st, 'ilog', new, i.line)
            return [st]
        if n == 'LIST_ELEM_DELETE':
            if self.get(st, 'ccnt'):
                self.bad('elements', an, i.line, what, 'the record is made after the element count has changed')
            st.prop = frozenset(x for x in st.prop if x[0] != 'llog')
            self.tok(st, 'llog', args[2], args[1], args[3], i.line, args[4])
            if strip(args[1])[0] != 'a':
                self.bad('elements', an, i.line, what, 'the record does not name the place that was asked for')
            if strip(args[2])[0] != 'a':
                self.bad('elements', an, i.line, what, 'the record does not name the count that was asked for')
            return [st]
        if n == 'BTREE_ELEM_DELETE_LOGICAL':
            self.logical(an, st, i, args, what)
            return [st]
        if n.endswith('_ELEM_DELETE'):
            info, e, cause = args
            e = strip(e)
            if self.has(st, 'freed', e):
                self.bad('elements', an, i.line, what, 'a record is made of an element that has been freed')
            if self.has(st, 'gone', e):
                self.drop(st, lambda x: x[0] == 'gone' and x[1] == e)
                self.tok(st, 'rm', e)
                self.removal(an, st, i, cause)
            else:
                self.tok(st, 'dlog', e, cause, i.line)
            return [st]
        if n == 'ELEM_DELETE_BEGIN':
            self.drop(st, lambda x: x[0] == 'begun')
            c = st.const(strip(args[1]))
            if c == 1:
                self.bad('elements', an, i.line, what, 'the removal of several elements is announced as the removal of one')
            if strip(args[1])[0] not in ('a', 'c'):
                self.bad('elements', an, i.line, what, 'the record is not made with the count that was asked for')
            if self.get(st, 'ccnt'):
                self.bad('elements', an, i.line, what, 'the record is made after the element count has changed')
            self.tok(st, 'begun', args[2], i.line)
            return [st]
        if n == 'ELEM_DELETE_END':
            b = self.get(st, 'begun')
            if not b:
                self.bad('elements', an, i.line, what, 'ends a removal of several elements that was not begun')
            elif b[0][1] != args[1] and st.const(b[0][1]) != st.const(args[1]):
                self.bad('elements', an, i.line, what, 'ends the removal for another cause than it was begun for')
            self.drop(st, lambda x: x[0] == 'begun')
            return [st]
        return [st]

    def logical(self, an, st, i, args, what):
        info, rng, flt, off, cnt, cause = args
        self.tok(st, 'lgc')
        for a, w in ((rng, 'range'), (flt, 'filter'), (off, 'offset'), (cnt, 'count')):
            a = strip(a)
            if a[0] == 'c' and w in ('offset', 'filter') or st.const(a) == 0 and w in ('offset', 'filter'):
                continue
            if a[0] != 'a':
                self.bad('elements', an, i.line, what, 'the record does not name the %s that was asked for' % w)
                continue
            nm = an.fn.args[a[1]][0]
            if nm in ('offset', 'count') and w in ('offset', 'count') and nm != w:
                self.bad('elements', an, i.line, what, 'the record names the %s as the %s' % (nm, w))
        for t in self.get(st, 'used'):
            w, v = t[1], t[2]
            have = {'range': rng, 'filter': flt}[w]
            if strip(have) != v:
                self.bad('elements', an, i.line, what, 'the record names another %s than the one applied' % w)
        owed = [x for x in st.prop if x[0] == 'owes']
        if not owed and self.cause(st, cause, self.K['NORMAL']) is not False:
            self.bad('elements', an, i.line, what, 'a record is made where nothing has been removed')
        self.drop(st, lambda x: x[0] == 'owes')

    # ---- results
    def ret(self, an, st, i, val):
        self.ctx.count('paths judged')
        for x in st.prop:
            line = x[-1] if isinstance(x[-1], int) else an.fn.line
            if x[0] == 'gone':
                self.bad('elements', an, line, 'unlink of an element', 'an element is unlinked and no delete record is made of it')
            elif x[0] == 'dlog':
                self.bad('elements', an, line, 'delete record', 'a delete record is made of an element that is not unlinked')
            elif x[0] == 'ilog':
                self.bad('elements', an, line, 'insert record', 'an insert record is made of an element that is not linked')
            elif x[0] == 'body':
                self.bad('elements', an, line, 'change in place', 'an element is changed in place and no insert record is made of it')
            elif x[0] == 'begun':
                self.bad('elements', an, line, 'begin record', 'a removal of several elements is begun in the log and not ended')
            elif x[0] == 'inc' and not [y for y in self.get(st, 'ilogged') if y[1] == ('c', 0)]:
                self.bad('elements', an, line, 'link of an element', 'an element is linked and no insert record is made of it')
            elif x[0] == 'owes' and not (val is not None and (strip(val) == ('c', 0) or st.const(strip(val)) == 0)):
                self.owe(an, st, ('lgc', x[2]), line)


def callers(P):
    out = {}
    for f in P.fns.values():
        for i in f.calls():
            n = P.callee(i)
            if n and not n.startswith(('vt:', 'arg:')):
                out.setdefault(n, set()).add(f.name)
    return out


def bottom_up(P, fns):
    order, seen = [], set()

    def visit(f):
        if f.name in seen:
            return
        seen.add(f.name)
        for n in sorted({P.callee(i) for i in f.calls()} - {None}):
            g = P.fns.get(n)
            if g in fns:
                visit(g)
        order.append(f)
    for f in sorted(fns, key=lambda f: f.name):
        visit(f)
    return order


def content(P, f, o, seen):
    """may this operand point into the content of an element"""
    if not isinstance(o, (list, tuple)) or o[0] != 'i' or o[1] in seen:
        return False
    seen.add(o[1])
    if BODY.match(P.addr_field(f, o) or ''):
        return True
    i = f.insts[o[1]]
    if i.op == 'gep':
        return content(P, f, i.p, seen)
    if i.op == 'bin':
        return content(P, f, i.a, seen) or content(P, f, i.b, seen)
    if i.op == 'cast':
        return content(P, f, i.a, seen)
    if i.op == 'phi':
        return any(content(P, f, v, seen) for v in i.phi.values())
    if i.op == 'select':
        return content(P, f, i.a, seen) or content(P, f, i.b, seen)
    return False


def relevant(P, f, S):
    for i in f.all():
        if i.op == 'store':
            a = P.addr_field(f, i.p) or ''
            if LINK.match(a) or BODY.match(a) or CCNT.match(a):
                return True
        elif i.op == 'call':
            n = P.callee(i) or ''
            if n in S or base(n).startswith('CLOG_GE_') or FREE.match(base(n)):
                return True
            w = WRITE.get(base(n), 0 if n.startswith('llvm.mem') else None)
            if w is not None or not n or n.startswith(('arg:', 'vt:')):
                if any(content(P, f, o, set()) for k, o in enumerate(i.args) if w is None or k == w):
                    return True
    return False


def collections(ctx, P, K, kind):
    fns = [f for f in P.fns.values() if f.stem == 'coll_' + kind and f.blocks]
    up = callers(P)
    free = {f.name for f in fns if WITH_COUNT.search(base(f.name))}
    while True:
        more = {f.name for f in fns if f.name not in free and up.get(f.name) and up[f.name] <= free}
        if not more:
            break
        free |= more
    S = {}
    for f in bottom_up(P, fns):
        c = Ops(ctx, P, K, S, f, kind, f.name in free)
        if ALLOC.match(base(f.name)) or not relevant(P, f, S):
            continue
        an = Analysis(P, f, c)
        an.run()
        c.recursion()
        if c.obl:
            S[f.name] = c.obl
        if c.njudge:
            ctx.count('functions judged')
            ctx.count('records and changes judged', c.njudge)
        root = not up.get(f.name) or any(P.fns[g].stem != f.stem for g in up[f.name])
        if WITH_COUNT.search(base(f.name)):
            for key, (line, needs) in c.obl.items():
                if key[0] == 'removes':
                    ctx.violation('causes', f, line, 'removal', 'elements of a collection that is freed are recorded as removed')
        if root and not APPLY.search(f.name) and f.name not in free:
            for key, (line, needs) in sorted(c.obl.items(), key=str):
                if key[0] == 'trim':
                    ctx.violation('causes', f, line, 'delete record', 'a removal is labelled as trimming where no insert is recorded')
                elif key[0] == 'lgc':
                    ctx.violation('elements', f, line, 'removal', 'elements are removed and the logical record of it is missing')
                elif key[0] == 'bracket':
                    ctx.violation('elements', f, line, 'removal', 'several elements are removed outside a begin and end record')
    return S


# ---------------------------------------------------------------------------------------------------------------- items

class Items(Base):
    total_cap = 3000
    """links and unlinks of items, and the causes given for them"""
    FIELDS = ('cas', 'exptime', 'flags', 'nbytes', 'nkey', 'pfxptr')

    def __init__(self, ctx, P, K, S, fn):
        Base.__init__(self, ctx, P, K, S)
        self.fn = fn
        self.attrs = not APPLY.search(fn.name) and any(SETATTR.match(base(P.callee(i) or '')) for i in fn.calls())

    def merge_old(self, an, st, ids):
        out = set()
        for x in st.prop:
            if not ids_of(x) & ids:
                out.add(x)
            elif x[0] in ('linked', 'unlinked', 'ulog', 'llog', 'repl'):
                self.left(an, x)
            elif x[0] == 'inval':
                out.add(('inval', None, x[-1]))
        return frozenset(out)

    def left(self, an, x):
        line = x[-1]
        if x[0] == 'linked':
            self.bad('items', an, line, 'link of an item', 'an item is linked and no link record is made of it')
        elif x[0] == 'unlinked':
            self.bad('items', an, line, 'unlink of an item', 'an item is unlinked and no unlink record is made of it')
        elif x[0] == 'ulog':
            self.bad('items', an, line, 'unlink record', 'an unlink record is made of an item that is not unlinked')
        elif x[0] == 'llog':
            self.bad('items', an, line, 'link record', 'a link record is made of an item that is not linked')
        elif x[0] == 'repl':
            self.bad('causes', an, line, 'unlink record', 'an item is recorded as replaced and nothing is linked in its place')

    def prestore(self, an, st, i, addr, val):
        f = last_field(addr)
        if not f or not f.startswith('_hash_item.'):
            return
        it, m = addr[1], f.split('.')[1]
        if self.has(st, 'logged', it) and (m in self.FIELDS or m == 'iflag'):
            self.bad('items', an, i.line, 'link record', 'the item changes (%s) after its link record was made' % m)
        if self.attrs and m in ('exptime', 'flags'):
            self.tok(st, 'attr', i.line)
        if m != 'iflag' or val is None:
            return
        v = strip(val)
        if v[0] == 'bin' and v[1] == 'or' and v[3][0] == 'c' and v[3][1] & self.K['LINKED']:
            self.njudge += 1
            self.tok(st, 'linked', it, i.line)
        elif v[0] == 'bin' and v[1] == 'and' and v[3][0] == 'c' and not v[3][1] & self.K['LINKED']:
            self.njudge += 1
            u = [x for x in st.prop if x[0] == 'ulog' and x[1] == it]
            if u:
                self.drop(st, lambda x: x in u)
            else:
                self.tok(st, 'unlinked', it, i.line)

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        K = self.K
        if n == 'CLOG_GE_ITEM_LINK':
            self.njudge += 1
            an.effect(st, i, name, args)
            it = args[0]
            u = [x for x in st.prop if x[0] == 'linked' and x[1] == it]
            self.drop(st, lambda x: x in u)
            if not u:
                self.tok(st, 'llog', it, i.line)
            self.drop(st, lambda x: x[0] == 'repl')
            self.tok(st, 'logged', it)
            return [st]
        if n == 'CLOG_GE_ITEM_UNLINK':
            self.njudge += 1
            an.effect(st, i, name, args)
            it = args[0]
            if self.has(st, 'freed', it):
                self.bad('items', an, i.line, 'unlink record', 'a record is made of an item that has been freed')
            u = [x for x in st.prop if x[0] == 'unlinked' and x[1] == it]
            self.drop(st, lambda x: x in u)
            if not u:
                self.tok(st, 'ulog', it, i.line)
            self.because(an, st, i, args[1], it)
            return [st]
        if n == 'CLOG_GE_ITEM_FLUSH':
            an.effect(st, i, name, args)
            self.drop(st, lambda x: x[0] == 'inval')
            self.tok(st, 'flushed')
            return [st]
        if n == 'item_set_cas' or n == 'CLOG_GE_ITEM_SETATTR':
            if n == 'item_set_cas' and self.has(st, 'logged', args[0]):
                self.bad('items', an, i.line, 'link record', 'the item changes (cas) after its link record was made')
            if n[0] == 'C':
                self.njudge += 1
                self.tok(st, 'setattr', i.line)
                self.drop(st, lambda x: x[0] == 'attr')
                for t in self.get(st, 'asked'):
                    if t[1:] != (args[1], args[2]):
                        self.bad('items', an, i.line, 'attribute record', 'the record does not name the attributes that were set')
            return None
        if SETATTR.match(n):
            an.effect(st, i, name, args)
            no = st.copy()
            no.narrow(st.env[i.id], -INF, INF, frozenset([0]))
            st.env[i.id] = ('c', 0)
            self.tok(st, 'attr', i.line)
            self.tok(st, 'asked', args[2], args[3])
            return [st, no]
        if n == 'do_item_free':
            self.tok(st, 'freed', args[0])
            return None
        if n == 'do_item_isvalid':
            an.effect(st, i, name, args)
            v = st.env[i.id]
            no = st.copy()
            no.env[i.id] = ('c', 0)
            self.tok(no, 'invalid', args[0])
            st.env[i.id] = ('c', 1)
            return [no, st]
        if n == 'do_item_unlink':
            self.njudge += 1
            self.because(an, st, i, args[1], args[0])
            return None
        for key, (line, needs) in self.S.get(name, {}).items():
            if key[0] == 'inval':
                self.invalid(an, st, i, args[key[1]] if key[1] is not None else None)
        return None

    def because(self, an, st, i, cause, it):
        K = self.K
        if self.cause(st, cause, K['INVALID']) is True:
            self.invalid(an, st, i, it)
        if self.cause(st, cause, K['REPLACE']) is True:
            self.tok(st, 'repl', it, i.line)

    def invalid(self, an, st, i, it):
        if it is not None and (self.has(st, 'invalid', it) or any(x[0] == 'invalid' and st.related('eq', x[1], it) for x in st.prop)):
            return
        if it is not None and it[0] == 'a':
            self.owe(an, st, ('inval', it[1]), i.line)
        else:
            self.drop(st, lambda x: x[0] == 'inval')
            self.tok(st, 'inval', None, i.line)

    def ret(self, an, st, i, val):
        self.ctx.count('paths judged')
        may = val is None or not st.known_ne(strip(val), 0)
        for x in st.prop:
            self.left(an, x)
            if x[0] == 'attr' and may and self.attrs:
                self.bad('items', an, x[-1], 'change of attributes', 'attributes of an item are set and no record is made of it')
            if x[0] == 'setattr' and val is not None and strip(val) != ('c', 0) and st.known_ne(strip(val), 0):
                self.bad('items', an, x[-1], 'attribute record', 'a record is made of a change of attributes that is refused')
            if x[0] == 'inval':
                self.owe(an, st, ('inval', None), x[-1])


def items(ctx, P, K):
    fns = [f for f in P.fns.values() if f.stem in ('item_base', 'items') and f.blocks]
    up = callers(P)
    S = {}
    NAMES = ('do_item_unlink', 'CLOG_GE_ITEM_LINK', 'CLOG_GE_ITEM_UNLINK', 'CLOG_GE_ITEM_FLUSH')
    for f in bottom_up(P, fns):
        called = {base(P.callee(i) or '') for i in f.calls()}
        flag = any(i.op == 'store' and P.addr_field(f, i.p) == '_hash_item.iflag' for i in f.all())
        if not flag and not called & set(NAMES) and not any(SETATTR.match(n) for n in called) and not any(P.callee(i) in S for i in f.calls()):
            continue
        c = Items(ctx, P, K, S, f)
        Analysis(P, f, c).run()
        ctx.count('functions judged')
        ctx.count('records and changes judged', c.njudge)
        if c.obl:
            S[f.name] = c.obl
        if APPLY.search(f.name):
            continue
        mine = up.get(f.name, set())
        for key, (line, needs) in c.obl.items():
            if key[1] is None or not mine or any(P.fns[g].stem not in ('item_base', 'items') for g in mine):
                ctx.violation('causes', f, line, 'do_item_unlink', 'an item is unlinked as invalid that was not found invalid, and no '
                              'flush is recorded')


# ------------------------------------------------------------------------------------------------------------- requests

class Requests(Base):
    """a request that changes something is begun in the log, of the right kind, and ended before it is answered"""
    total_cap = 1500
    cap = 30

    def __init__(self, ctx, P, K, S, R, INS, fn):
        Base.__init__(self, ctx, P, K, S)
        self.fn, self.R, self.INS = fn, R, INS
        self.nreq = 0

    def merge_old(self, an, st, ids):
        return frozenset(x for x in st.prop if not ids_of(x) & ids)

    def kind(self, st):
        for x in st.prop:
            if x[0] == 'wait':
                return st.const(x[1]) if x[1][0] != 'c' else x[1][1]
        return None

    def change(self, an, st, i, what):
        self.njudge += 1
        if self.get(st, 'wait'):
            return
        if self.get(st, 'ended'):
            self.bad('requests', an, i.line, what, 'something is changed after the logged request was ended')
            return
        self.owe(an, st, ('waiter',), i.line)

    def load2(self, an, st, i, addr, val):
        f = last_field(addr)
        if f and CCNT.match(f) and self.get(st, 'pdrop'):
            self.tok(st, 'cc', st.env[i.id])
        for x in self.get(st, 'cell'):
            if x[1] == addr:
                self.tok(st, 'result', st.env[i.id])

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        K = self.K
        if n == 'cmdlog_waiter_begin':
            self.nreq += 1
            an.effect(st, i, name, args)
            v = st.env[i.id]
            no = st.copy()
            no.env[i.id] = ('c', 0)
            if self.get(st, 'wait'):
                self.bad('requests', an, i.line, name, 'a logged request is begun twice')
            st.narrow(v, 1, INF)
            self.tok(st, 'wait', strip(args[1]), i.line)
            return [st, no]
        if n == 'cmdlog_get_my_waiter':
            an.effect(st, i, name, args)
            if self.get(st, 'wait'):
                st.narrow(st.env[i.id], 1, INF)
                self.tok(st, 'mine', st.env[i.id])
            else:
                st.env[i.id] = ('c', 0)
            return [st]
        if n == 'cmdlog_waiter_end':
            if not self.has(st, 'mine', args[0]):
                self.bad('requests', an, i.line, name, 'ends a logged request that is not the one begun')
            was = st.mem.get(args[1])
            an.effect(st, i, name, args)
            self.settle(an, st, i, was)
            self.drop(st, lambda x: x[0] in ('wait', 'mine'))
            self.tok(st, 'ended')
            self.tok(st, 'cell', args[1])
            return [st]
        if n in ('do_item_link', 'do_item_replace'):
            an.effect(st, i, name, args)
            out = [st]
            if n == 'do_item_link':
                no = st.copy()
                no.narrow(st.env[i.id], -INF, INF, frozenset([0]))
                st.env[i.id] = ('c', 0)
                out.append(no)
            self.change(an, st, i, n)
            self.links(st, i.line)
            return out
        if n == 'do_item_unlink':
            if self.cause(st, args[1], K['NORMAL_ITEM']) is not False:
                self.change(an, st, i, n)
                self.unlinks(an, st, i)
                self.drop(st, lambda x: x[0] in ('plink', 'pdrop'))
            return None
        if n.startswith('CLOG_GE_'):
            self.change(an, st, i, n)
            if n.endswith('_ELEM_INSERT'):
                self.drop(st, lambda x: x[0] == 'plink')
            return None
        if name in self.INS and name != an.fn.name:
            an.effect(st, i, name, args)
            no = st.copy()
            if self.prog.fns[name].dret == 'ENGINE_ERROR_CODE':
                no.narrow(st.env[i.id], -INF, INF, frozenset([0]))
                st.env[i.id] = ('c', 0)
            self.change(an, st, i, n)
            self.drop(st, lambda x: x[0] == 'plink')
            return [st, no]
        s = self.S.get(name)
        if s and name != an.fn.name and any(k[0] == 'removes' for k in s):
            maybe = False
            for key, (line, needs) in s.items():
                if key[0] != 'removes' or any(k < len(args) and st.known_eq(args[k], 0) for k in needs):
                    continue
                if key[1] is not None and self.cause(st, args[key[1]], K['NORMAL']) is False:
                    continue
                maybe = True
            if maybe:
                an.effect(st, i, name, args)
                d = self.prog.fns[name].dret
                self.drop(st, lambda x: x[0] == 'cc')
                out = [st]
                if d != 'void' and st.env.get(i.id) is not None:
                    no = st.copy()
                    if d == 'ENGINE_ERROR_CODE':
                        no.narrow(st.env[i.id], -INF, INF, frozenset([0]))
                        st.env[i.id] = ('c', 0)
                    else:
                        no.env[i.id] = ('c', 0)
                        st.narrow(st.env[i.id], -INF, INF, frozenset([0]))
                    out.append(no)
                self.change(an, st, i, n)
                if self.kind(st) in K['DROP'] or not self.get(st, 'wait'):
                    self.tok(st, 'pdrop', i.line)
                return out
            return None
        r = self.R.get(name)
        if r and name != an.fn.name:
            do = [k[0] for k, needs in r.items() if not any(k < len(args) and st.known_eq(args[k], 0) for k in needs)]
            if 'waiter' in do:
                self.change(an, st, i, n)
            if 'unlinks' in do:
                self.unlinks(an, st, i)
            if 'links' in do:
                self.links(st, i.line)
        return None

    def links(self, st, line):
        if self.kind(st) in self.K['INS'] or not self.get(st, 'wait'):
            self.tok(st, 'plink', line)

    def unlinks(self, an, st, i):
        if self.get(st, 'pdrop') or self.get(st, 'plink'):
            return
        if self.kind(st) in self.K['DROP']:
            self.bad('requests', an, i.line, 'do_item_unlink', 'an item is unlinked in a request that only records the removal of '
                     'elements, and it was not the removal of elements that emptied it')
        elif not self.get(st, 'wait'):
            self.owe(an, st, ('unlinks',), i.line)

    def branch(self, an, st, i, cond, truth):
        v, t = strip(cond), truth
        if v is not None and v[0] == 'cmp' and v[1] in ('eq', 'ne'):
            a, b = strip(v[2]), strip(v[3])
            if b == ('c', 0) and self.has(st, 'cc', a) and (v[1] == 'ne') == bool(t):
                self.drop(st, lambda x: x[0] == 'pdrop')

    def settle(self, an, st, i, res):
        """the request is over with this result"""
        if res is not None and st.known_ne(strip(res), 0):
            return
        for x in st.prop:
            if x[0] == 'plink':
                self.bad('requests', an, x[-1], 'do_item_link', 'an item is linked in a request that only records element inserts, and '
                         'no element is inserted')
            elif x[0] == 'pdrop':
                self.bad('requests', an, x[-1], 'removal', 'the request is recorded as one that drops the collection when it gets empty, '
                         'and does not')

    def ret(self, an, st, i, val):
        self.ctx.count('paths judged')
        if not self.get(st, 'wait') and (val is None or not st.known_ne(strip(val), 0)):
            for x in self.get(st, 'plink'):
                if not self.get(st, 'ended'):
                    self.owe(an, st, ('links',), x[-1])
        for x in st.prop:
            if x[0] == 'wait':
                self.bad('requests', an, x[-1], 'cmdlog_waiter_begin', 'a logged request is begun and not ended before the answer')
        if self.get(st, 'ended') and not any(x[0] == 'result' and x[1] == val for x in st.prop):
            self.bad('requests', an, i.line, 'cmdlog_waiter_end', 'the answer is not the one the end of the logged request gave')


def requests(ctx, P, K, S):
    fns = [f for f in P.fns.values() if (COLL.match(f.stem) or f.stem == 'items') and f.blocks]
    up = callers(P)
    INS, direct = set(), {}
    for f in fns:
        direct[f.name] = {P.callee(i) or '' for i in f.calls()}
    INS = {n for n, c in direct.items() if any(x.startswith('CLOG_GE_') and x.endswith('_ELEM_INSERT') for x in c)}
    while True:
        more = {n for n, c in direct.items() if n not in INS and c & INS and up.get(n) and 'cmdlog_waiter_begin' not in c
                and not APPLY.search(n) and all(P.fns[g].stem == P.fns[n].stem for g in up[n])}
        if not more:
            break
        INS |= more
    R = {}
    WANT = ('do_item_link', 'do_item_replace', 'do_item_unlink', 'cmdlog_waiter_begin', 'cmdlog_waiter_end')
    for f in bottom_up(P, fns):
        c = direct[f.name]
        if f.name in INS or APPLY.search(f.name):
            continue
        if not any(base(n) in WANT or n.startswith('CLOG_GE_') or n in INS or n in R or n in S for n in c):
            continue
        q = Requests(ctx, P, K, S, R, INS, f)
        Analysis(P, f, q).run()
        if not q.njudge and not q.nreq:
            continue
        ctx.count('functions judged')
        ctx.count('requests judged', 1 if q.nreq else 0)
        if ('waiter',) in q.obl:
            line, needs = q.obl[('waiter',)]
            R[f.name] = {k: n for k, (l, n) in q.obl.items()}
            mine = up.get(f.name, set())
            out = [g for g in mine if P.fns[g].stem not in ('items', 'item_base') and not COLL.match(P.fns[g].stem)]
            if not mine and f.dret == 'ENGINE_ERROR_CODE' or out:
                ctx.violation('requests', f, line, 'change', 'something is changed outside a logged request')


# --------------------------------------------------------------------------------------------- dispatch and log records

def lin(v, k=1, out=None):
    """v as a sum of symbols"""
    out = {} if out is None else out
    v = strip(v)
    if v[0] == 'c':
        c = v[1]
        if c >= 1 << 31:
            c -= 1 << 32
        out[1] = out.get(1, 0) + k * c
    elif v[0] == 'bin' and v[1] == 'add':
        lin(v[2], k, out)
        lin(v[3], k, out)
    elif v[0] == 'bin' and v[1] == 'sub':
        lin(v[2], k, out)
        lin(v[3], -k, out)
    else:
        out[v] = out.get(v, 0) + k
    return {a: b for a, b in out.items() if b}


#         change                    record                                  what is passed on: parameters by number, 'item', 'ccnt' …
PASS = {
    'ITEM_LINK':                ('cmdlog_generate_link_item', [0]),
    'ITEM_UNLINK':              ('cmdlog_generate_unlink_item', [0]),
    'ITEM_FLUSH':               ('cmdlog_generate_flush_item', [0, 1, 2]),
    'ITEM_SETATTR':             ('cmdlog_generate_setattr', [0, 1, 2]),
    'LIST_ELEM_INSERT':         ('cmdlog_generate_list_elem_insert', ['item', 'ccnt', 1, 2]),
    'LIST_ELEM_DELETE':         ('cmdlog_generate_list_elem_delete', ['item', 'ccnt', 'from', 'many']),
    'MAP_ELEM_INSERT':          ('cmdlog_generate_map_elem_insert', ['item', 2]),
    'MAP_ELEM_DELETE':          ('cmdlog_generate_map_elem_delete', ['item', 1]),
    'SET_ELEM_INSERT':          ('cmdlog_generate_set_elem_insert', ['item', 1]),
    'SET_ELEM_DELETE':          ('cmdlog_generate_set_elem_delete', ['item', 1]),
    'BTREE_ELEM_INSERT':        ('cmdlog_generate_btree_elem_insert', ['item', 2]),
    'BTREE_ELEM_DELETE':        ('cmdlog_generate_btree_elem_delete', ['item', 1]),
    'BTREE_ELEM_DELETE_LOGICAL': ('cmdlog_generate_btree_elem_delete_logical', ['item', 1, 2, 3, 4]),
    'ELEM_DELETE_BEGIN':        ('cmdlog_generate_operation_range', [('c', 1)]),
    'ELEM_DELETE_END':          ('cmdlog_generate_operation_range', [('c', 0)]),
}


class Dispatch(Base):
    cap = 60
    total_cap = 2000

    def __init__(self, ctx, P, K, fn, spec):
        Base.__init__(self, ctx, P, K, {})
        self.fn, self.spec = fn, spec
        self.cargs = [k for k, a in enumerate(fn.args) if 'cause' in a[1]]

    def load2(self, an, st, i, addr, val):
        f = last_field(addr)
        if f == '_hash_item.iflag':
            self.tok(st, 'iflag', st.env[i.id], addr[1])
        elif f and CCNT.match(f):
            self.tok(st, 'cc', st.env[i.id])

    def branch(self, an, st, i, cond, truth):
        v = strip(cond)
        if v is None or v[0] != 'cmp' or v[1] not in ('eq', 'ne') or strip(v[3]) != ('c', 0):
            return
        a = strip(v[2])
        if a[0] == 'bin' and a[1] == 'and' and strip(a[3]) == ('c', self.K['INTERNAL']):
            for x in self.get(st, 'iflag'):
                if x[1] == strip(a[2]):
                    self.tok(st, 'internal', (v[1] == 'ne') == bool(truth), x[2])

    def call(self, an, st, i, name, args):
        n = name or ''
        if n.startswith('cmdlog_generate_'):
            self.njudge += 1
            if n != self.spec[0]:
                self.bad('dispatch', an, i.line, n, 'makes another record than that of the change')
            elif self.get(st, 'gen'):
                self.bad('dispatch', an, i.line, n, 'makes the record of one change twice')
            else:
                self.passed(an, st, i, n, args)
            an.effect(st, i, name, args)
            self.tok(st, 'gen', i.line)
            return [st]
        return None

    def passed(self, an, st, i, n, args):
        item = {x[2] for x in st.prop if x[0] == 'internal'}
        for k, w in enumerate(self.spec[1]):
            a = strip(args[k])
            if w == 'item':
                ok = a in item or not item
            elif w == 'ccnt':
                ok = any(x[1] == a for x in self.get(st, 'cc'))
            elif w in ('from', 'many'):
                ok = True
            elif isinstance(w, tuple):
                ok = a == w
            else:
                ok = a == ('a', w)
            if not ok:
                self.bad('dispatch', an, i.line, n, 'the record is not made of what the change was made of (argument %d)' % (k + 1))
        if 'from' in self.spec[1]:
            self.span(an, st, i, n, args[2], args[3])

    def span(self, an, st, i, n, frm, cnt):
        """a list removal: the elements named forward from the first one"""
        idx, num, fwd = ('a', 1), ('a', 2), ('a', 3)
        if not st.known_eq(fwd, 0):
            if strip(frm) != idx or strip(cnt) != num:
                self.bad('dispatch', an, i.line, n, 'a forward removal is recorded with another place or count')
            return
        if st.rng(num)[1] <= 0:
            return          # a backward removal always has a count
        cc = [x[1] for x in self.get(st, 'cc')]
        last = lin(('bin', 'sub', ('bin', 'add', strip(frm), strip(cnt)), ('c', 1)))
        if strip(cnt)[0] == 'c':
            last = lin(('bin', 'add', strip(frm), ('c', strip(cnt)[1] - 1)))
        ok = [lin(idx), {}] + [lin(('bin', 'add', idx, c)) for c in cc]
        if last not in ok or strip(cnt) != num and strip(frm) != ('c', 0):
            self.bad('dispatch', an, i.line, n, 'a backward removal is not recorded as the removal of the same elements')

    def ret(self, an, st, i, val):
        self.ctx.count('paths judged')
        K = self.K
        gen = self.get(st, 'gen')
        internal = {x[1] for x in self.get(st, 'internal')}
        if self.cargs:
            c = ('a', self.cargs[0])
            item = 'unlink_cause' in self.fn.args[c[1]][1]
            every, need = K['ICAUSES' if item else 'ECAUSES'], K['ILOGGED' if item else 'ELOGGED']
            may = {x for x in every if not (st.known_ne(c, x) or st.const(c) not in (None, x))}
        else:
            every = need = may = {0}
        n = self.spec[0]
        if gen:
            if may - need:
                self.bad('dispatch', an, gen[0][1], n, 'makes a record for a cause that must leave none')
            if self.hasitem() and False not in internal:
                self.bad('dispatch', an, gen[0][1], n, 'makes a record of an internal item')
            return
        if not may & need or True in internal:
            return
        if 'BEGIN' in self.fn.name and (st.known_eq(('a', 1), 1) or any(st.rng(x[1])[1] <= 1 for x in self.get(st, 'cc'))):
            return
        self.bad('dispatch', an, i.line, n, 'a change that must be recorded leaves no record')

    def hasitem(self):
        return 'FLUSH' not in self.fn.name


CONSUMED = {'cmdlog_generate_flush_item': {2}, 'cmdlog_generate_setattr': {1, 2}}


class Records(Base):
    """one function that makes a log record"""
    cap = 60
    total_cap = 2500

    def __init__(self, ctx, P, K, fn):
        Base.__init__(self, ctx, P, K, {})
        self.fn = fn

    def merge_old(self, an, st, ids):
        return frozenset(x for x in st.prop if not ids_of(x) & ids)

    def load2(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        v = st.env[i.id]
        if f.startswith('_log_waiter.'):
            self.tok(st, 'wf', f.split('.')[1], v)
        elif addr[0] == 'g':
            self.tok(st, 'glob', addr[1], v)

    def prestore(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        if f.startswith('_log_waiter.') and val is not None:
            self.drop(st, lambda x: x[0] == 'ws' and x[1] == f.split('.')[1])
            self.tok(st, 'ws', f.split('.')[1], strip(val))

    def branch(self, an, st, i, cond, truth):
        v = strip(cond)
        if v is not None and v[0] == 'cmp' and v[1] in ('eq', 'ne') and strip(v[3]) == ('c', 0):
            if any(x[1].endswith('chkpt_scanp') and x[2] == strip(v[2]) for x in self.get(st, 'glob')):
                self.tok(st, 'scan', (v[1] == 'ne') == bool(truth))
        if v is not None and v[0] == 'cmp' and v[1] == 'eq' and truth:
            a, b = strip(v[2]), strip(v[3])
            if b[0] == 'c' and b[1] in self.K['ATTR'] and a[0] != 'c' and any(x[1] == a for x in self.get(st, 'attrid')):
                self.tok(st, 'need', self.K['ATTR'][b[1]])

    def load(self, an, st, i, addr, val):
        Base.load(self, an, st, i, addr, val)
        r = addr
        while r[0] in ('f', 'x'):
            r = r[1]
        if r[0] == 'a' and 'ENGINE_ITEM_ATTR' in an.fn.args[r[1]][1]:
            self.tok(st, 'attrid', st.env[i.id])

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n.startswith('lrec_construct_'):
            self.njudge += 1
            self.constructed(an, st, i, n, args)
            an.effect(st, i, name, args)
            self.tok(st, 'made', args[0], n)
            return [st]
        if n == 'assoc_scan_in_visited_area':
            an.effect(st, i, name, args)
            self.tok(st, 'visited', st.env[i.id], args[1])
            return [st]
        if n == 'cmdlog_get_my_waiter':
            an.effect(st, i, name, args)
            self.tok(st, 'mine', st.env[i.id])
            return [st]
        if n == 'cmdlog_buff_write':
            self.njudge += 1
            self.written(an, st, i, n, args)
            an.effect(st, i, name, args)
            self.tok(st, 'wrote', i.line)
            return [st]
        return None

    def constructed(self, an, st, i, n, args):
        want = n.replace('lrec_construct', 'cmdlog_generate')
        if want != an.fn.name:
            self.bad('records', an, i.line, n, 'makes another kind of record than that of the change')
            return
        passed = [strip(a)[1] for a in args[1:] if strip(a)[0] == 'a']
        every = [k for k in range(len(an.fn.args)) if k not in CONSUMED.get(an.fn.name, ())]
        if 'operation_range' in n:
            passed = [strip(a)[1] if strip(a)[0] == 'a' else 0 for a in args[1:2]]
        for k in every:
            if k not in passed and st.const(('a', k)) is not None and any(strip(a) == ('c', st.const(('a', k))) for a in args[1:]):
                passed = every
        if passed != every:
            self.bad('records', an, i.line, n, 'the record is not made of what was handed over')
        for pat, fld in (('_elem_insert', 'elem_insert_with_create'), ('_elem_delete', 'elem_delete_with_drop')):
            if pat in n:
                vals = [x[2] for x in self.get(st, 'wf') if x[1] == fld]
                if not any(self.same(st, a, v) for a in args[1:] for v in vals):
                    self.bad('records', an, i.line, n, 'the record does not say whether the collection is %s with it'
                             % ('created' if 'insert' in pat else 'dropped'))
        if n == 'lrec_construct_setattr':
            lo = st.rng(strip(args[2]))[0] if strip(args[2])[0] != 'c' else strip(args[2])[1]
            for x in self.get(st, 'need'):
                if lo < x[1]:
                    self.bad('records', an, i.line, n, 'the record leaves out an attribute that was set')

    def written(self, an, st, i, n, args):
        if not any(x[1] == args[0] for x in self.get(st, 'made')):
            self.bad('records', an, i.line, n, 'writes a record that was not made')
        if self.get(st, 'wrote'):
            self.bad('records', an, i.line, n, 'writes the record twice')
        if not any(x[1] == args[1] or st.known_eq(args[1], 0) and st.known_eq(x[1], 0) for x in self.get(st, 'mine')):
            self.bad('records', an, i.line, n, 'the record is not written for the request it belongs to')
        scan = [x[2] for x in self.get(st, 'glob') if x[1].endswith('chkpt_scanp')]
        d = strip(args[2])
        itemk = [k for k, a in enumerate(an.fn.args) if 'hash_item' in a[1]]
        if any(st.known_eq(v, 0) for v in scan):
            ok = d == ('c', 0)
        elif any(st.known_ne(v, 0) for v in scan):
            if not itemk or st.known_eq(('a', itemk[0]), 0):
                ok = d == ('c', 1)
            else:
                ok = any(x[2] == ('a', itemk[0]) and (strip(x[1]) == d or d[0] == 'c' and st.const(x[1]) == d[1]
                                                      or d == ('c', 1) and st.known_ne(x[1], 0)) for x in self.get(st, 'visited'))
        else:
            ok = False
        if not ok:
            self.bad('records', an, i.line, n, 'a change of what a running checkpoint has saved already is not written to its new log too')

    def truth(self, st, v):
        for x in (v, strip(v)):
            if st.known_ne(x, 0):
                return 1
            if st.known_eq(x, 0):
                return 0
        return None

    def same(self, st, a, v):
        a = strip(a)
        return a == strip(v) or a[0] == 'c' and self.truth(st, v) == int(a[1] != 0)

    def waiter(self, st, fld):
        return [x[2] for x in self.get(st, 'wf') if x[1] == fld]

    def ret(self, an, st, i, val):
        self.ctx.count('paths judged')
        K, n = self.K, an.fn.name
        wrote = bool(self.get(st, 'wrote'))
        setv = {x[1]: x[2] for x in self.get(st, 'ws')}
        ok = wrote
        logical = [x[2] for x in self.get(st, 'glob') if 'logical' in x[1]]
        if n.endswith('_link_item'):
            ut = self.waiter(st, 'updtype')
            ins = any(st.const(v) in K['INS'] for v in ut)
            if not wrote:
                ok = ins and setv.get('elem_insert_with_create') == ('c', 1)
            elif not ut or ins:
                ok = False
        elif n.endswith('_unlink_item') and not wrote:
            ok = any(st.known_ne(v, 0) for v in self.waiter(st, 'elem_delete_with_drop')) and \
                any(st.known_ne(x[1], 0) for x in self.get(st, 'mine'))
        elif n.endswith('_flush_item') and not wrote:
            ok = st.rng(('a', 2))[0] >= 1
        elif n.endswith('_setattr') and not wrote:
            ok = not self.get(st, 'need')
        elif n.endswith('_btree_elem_delete'):
            ok = wrote if any(st.known_eq(v, 0) for v in logical) else not wrote and any(st.known_ne(v, 0) for v in logical)
        elif n.endswith('_btree_elem_delete_logical'):
            ok = wrote if any(st.known_ne(v, 0) for v in logical) else not wrote and any(st.known_eq(v, 0) for v in logical)
        elif n.endswith('_operation_range'):
            if wrote:
                b = setv.get('generated_range_clog')
                ok = b is not None and (b == ('a', 0) or b[0] == 'c' and (st.const(('a', 0)) == b[1] or b[1] and st.known_ne(('a', 0), 0)))
            else:
                ok = any(st.known_ne(v, 0) for v in logical) or \
                    st.known_eq(('a', 0), 0) and any(st.known_eq(v, 0) for v in self.waiter(st, 'generated_range_clog'))
        if '_elem_insert' in n and wrote and setv.get('elem_insert_with_create') != ('c', 0) and \
                not ('elem_insert_with_create' not in setv and any(self.truth(st, v) == 0 for v in self.waiter(st, 'elem_insert_with_create'))):
            self.bad('records', an, i.line, n, 'the creation of the collection is recorded with the next insert as well')
        if not ok:
            self.bad('records', an, i.line, n, 'a change is not recorded' if not wrote else 'a change is recorded that must not be')


def records(ctx, P, K):
    for x, spec in sorted(PASS.items()):
        f = P.fns.get('CLOG_GE_' + x)
        if f is None:
            raise Broken('CLOG_GE_%s is gone' % x)
        c = Dispatch(ctx, P, K, f, spec)
        Analysis(P, f, c).run()
        ctx.count('records dispatched', min(1, c.njudge))
    for n in sorted({s[0] for s in PASS.values()}):
        f = P.fns.get(n)
        if f is None:
            raise Broken(n + ' is gone')
        c = Records(ctx, P, K, f)
        Analysis(P, f, c).run()
        ctx.count('records made', min(1, c.njudge))


def check(ctx, P, K):
    def part(ctx, what):
        if what == 'items':
            items(ctx, P, K)
            return {}
        if what == 'records':
            records(ctx, P, K)
            return {}
        return collections(ctx, P, K, what)
    S = {}
    for r in ctx.fanout(part, ['btree', 'map', 'set', 'list', 'items', 'records']):
        S.update(r or {})
    requests(ctx, P, K, S)
