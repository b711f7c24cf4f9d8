"""Ownership of what a connection holds between events (its item, its collection elements, its key
strings, its buffers), plus element and temporary-memory references held by a request handler.

Invariant checked modularly on every function: at every exit, a connection slot is either null or
holds a reference that is still owned, and every reference the path acquired is in a slot, handed to a
consumer, or released.  Tokens: '+' owned, '?' whatever the slot held when it was first read, '-' released.
"""
import re

from flow import Analysis, Client, root, fmt, ids_of, last_field, INF

SLOTS = {'conn.item': 'item', 'conn.coll_eitem': 'any', 'conn.coll_strkeys': 'mblk',
         'conn.write_and_free': 'mem', 'conn.coll_resps': 'mem', 'conn.sasl_auth_data': 'mem'}
VT = 'vt:engine_interface_v1.'
ALLOC = {'malloc', 'calloc', 'strdup', 'strndup'}
INSERT = {'list_elem_insert', 'set_elem_insert', 'map_elem_insert', 'btree_elem_insert'}
EGET = {'list_elem_get', 'set_elem_get', 'map_elem_get', 'btree_elem_get', 'btree_posi_find_with_get',
        'btree_elem_get_by_posi'}
READONLY = {'btree_posi_find_with_get', 'btree_elem_get_by_posi'}   # never wait for the change log
ARR = 'elems_result.elem_array'
CONSUME = re.compile(r'^out_\w*response$')


class SlotClient(Client):
    cap = 16
    total_cap = 300
    keep_old = True

    def __init__(self, ctx, prog, params):
        self.ctx = ctx
        self.prog = prog
        self.ewb = params['ewb']
        self.iface = params['iface']
        self.mod = params['mod']
        self.acq = {}
        self.nexit = 0
        self.na = set()
        self.nr = set()
        if ctx.thorough:
            self.cap, self.total_cap = 40, 1200

    def live_syms(self, prop):
        return [t[2] for t in prop]

    def entry(self, an, fn):
        p = set()
        if CONSUME.match(fn.name):
            for k, (nm, ty, ll) in enumerate(fn.args):
                if ty == 'elems_result*':
                    p.add(('+', 'earr', ('n', 'array', k)))
                elif ty == 'void*' and nm.startswith('elem'):
                    p.add(('+', 'elem', ('a', k)))
        return frozenset(p)

    def merge_old(self, an, st, ids):
        return frozenset(t for t in st.prop if t[0] == '+' or not (ids_of(t[2]) & ids))

    # ---- tokens
    def tok(self, st, sym):
        for t in st.prop:
            if t[2] == sym:
                return t
        return None

    def put(self, st, old, new):
        s = set(st.prop)
        if old:
            s.discard(old)
        if new:
            s = {t for t in s if t[2] != new[2]}
            s.add(new)
        st.prop = frozenset(s)

    def what(self, an, kind, sym):
        names = {'item': 'item', 'elem': 'collection element', 'earr': 'element array', 'mem': 'memory',
                 'any': 'collection element', 'mblk': 'key-string blocks'}
        f = ''
        if sym[0] in ('i', 'r', 'o'):
            for x in an.fn.calls():
                if x.id == sym[1]:
                    f = ' from %s()' % (an.callee(x) or '?').split('.')[-1]
        return 'the %s%s' % (names.get(kind, kind), f)

    def bad(self, an, i, rule, what, msg):
        self.ctx.violation(rule, an.fn, i.line, what, msg)

    def release(self, an, st, i, sym, how):
        """how: 'item' 'elem' 'earr' 'mem' 'mblk'"""
        self.nr.add(i.id)
        if st.known_eq(sym, 0):
            return
        t = self.tok(st, sym)
        if t is None:
            return
        w = self.what(an, t[1], sym)
        if t[0] == '-':
            self.bad(an, i, 'double', w, 'releases %s twice' % w)
            return
        if t[1] == 'any':
            if how != 'earr':
                self.put(st, t, ('-', t[1], sym))
            return
        if t[1] == 'earr':
            if how == 'earr':
                self.put(st, t, (t[0], 'mem', sym))
                return
            self.bad(an, i, 'order', w, 'frees %s without giving its elements back' % w)
        elif t[1] != how:
            self.bad(an, i, 'kind', w, 'releases %s with the release operation of another kind' % w)
        self.put(st, t, ('-', t[1], sym))

    def own(self, an, st, i, kind, sym):
        self.na.add(i.id)
        self.acq[sym] = i
        t = self.tok(st, sym)
        if t and t[0] == '+' and sym[0] in ('i', 'r'):
            w = self.what(an, kind, sym)
            self.bad(an, i, 'leak', w, 'acquires %s again while the one from before is still owned' % w)
        self.put(st, t, ('+', kind, sym))

    # ---- slots
    def slotcell(self, a):
        return a[0] == 'f' and a[2] in SLOTS

    def load(self, an, st, i, addr, val):
        if self.slotcell(addr) and root(addr)[0] != 'al':
            if self.tok(st, val) is None and not st.known_eq(val, 0) and val[0] not in ('c', 'f', 'al'):
                self.put(st, None, ('?', SLOTS[addr[2]], val))
        elif addr[0] == 'f' and addr[2] == ARR:
            for t in st.prop:
                if t[2] == ('n', 'array', addr[1][1] if addr[1][0] == 'a' else -1):
                    self.put(st, t, ('+', 'earr', val))
                    self.acq[val] = i

    def prestore(self, an, st, i, addr, val):
        r = root(addr)
        if self.slotcell(addr) and r[0] != 'al':
            old = st.mem.get(addr)
            if old is not None and old != val:
                t = self.tok(st, old)
                if t and t[0] in '+?' and st.known_ne(old, 0) and not self.elsewhere(st, addr, old):
                    w = self.what(an, t[1], old)
                    if t[0] == '?' or old[0] != 'al':
                        self.bad(an, i, 'lost', w, 'overwrites %s while the connection still owns %s' %
                                 (addr[2].replace('.', '->'), w))
                        self.put(st, t, None)
                elif t and t[0] == '?':
                    self.put(st, t, None)
            return
        t = self.tok(st, val)
        if t and t[0] == '+' and r[0] != 'al':
            # kept in another structure, which owns it from now on
            self.put(st, t, None)
        elif t and t[0] == '+' and r[0] == 'al' and addr != r and addr[0] == 'x':
            self.put(st, t, None)

    def elsewhere(self, st, addr, v):
        return any(k != addr and m == v and root(k)[0] != 'al' for k, m in st.mem.items())

    # ---- calls
    def call(self, an, st, i, name, args):
        n = name
        if n in ALLOC:
            an.effect(st, i, name, args)
            sym = st.env[i.id]
            ok = st.copy()
            ok.facts.pop(sym, None)
            ok.narrow(sym, -INF, INF, frozenset([0]))
            self.own(an, ok, i, 'mem', sym)
            st.env[i.id] = ('c', 0)
            return [ok, st]
        if n == 'realloc':
            an.effect(st, i, name, args)
            sym = st.env[i.id]
            t = self.tok(st, args[0])
            ok = st.copy()
            ok.facts.pop(sym, None)
            ok.narrow(sym, -INF, INF, frozenset([0]))
            if t:
                self.put(ok, t, ('-', t[1], args[0]))
                self.own(an, ok, i, t[1], sym)
            st.env[i.id] = ('c', 0)
            return [ok, st]
        if n == 'free':
            an.effect(st, i, name, args, False)
            self.release(an, st, i, args[0], 'mem')
            return [st]
        if n in ('mblck_list_alloc', 'mblck_list_free'):
            k = len(args) - 1 if n == 'mblck_list_alloc' else 1
            blk = args[k]
            an.effect(st, i, name, args, False)
            if n == 'mblck_list_free':
                v = st.mem.get(('f', blk[1], 'conn.coll_strkeys')) if blk[0] == 'f' else None
                if v is not None and v != blk:
                    self.release(an, st, i, v, 'mblk')
                else:
                    self.release(an, st, i, blk, 'mblk')
                return [st]
            ok = st.copy()
            ok.env[i.id] = ('c', 0)
            self.own(an, ok, i, 'mblk', blk)
            st.narrow(st.env[i.id], -INF, -1)
            return [ok, st]
        if n and n.startswith(VT):
            r = self.vcall(an, st, i, n[len(VT):], args)
            if r is not None:
                return r
        elif n:
            r = self.pcall(an, st, i, n, args)
            if r is not None:
                return r
        return None

    def outcomes(self, an, st, i):
        """states for success (0 and would-block) and failure"""
        sym = st.env[i.id]
        ok = st.copy()
        ok.env[i.id] = ('c', 0)
        wb = st.copy()
        wb.env[i.id] = ('c', self.ewb)
        no = st
        no.narrow(sym, -INF, INF, frozenset([0, self.ewb]))
        return ok, wb, no

    def vcall(self, an, st, i, n, args):
        names = self.iface.get(n)
        if n in ('get', 'allocate') or n.endswith('_elem_alloc'):
            k = 2 if n in ('get', 'allocate') else len(args) - 1
            a = an.caddr(args[k])
            an.effect(st, i, VT + n, args)
            ok, wb, no = self.outcomes(an, st, i)
            v = ('r', i.id, 100 + k)
            ok.store(a, v)
            ok.facts.pop(v, None)
            ok.narrow(v, -INF, INF, frozenset([0]))
            self.own(an, ok, i, 'elem' if n.endswith('_elem_alloc') else 'item', v)
            no.narrow(st.env[i.id], -INF, INF, frozenset([0]))
            return [ok, no]
        if n in EGET:
            k = None
            for j, ty in enumerate(self.iface[n]):
                if ty == 'elems_result*':
                    k = j
            if k is None:
                return None
            a = ('f', an.caddr(args[k]), ARR)
            an.effect(st, i, VT + n, args)
            ok, wb, no = self.outcomes(an, st, i)
            for s in (ok, wb):
                v = ('r', i.id, 100 + k)
                s.store(a, v)
                s.facts.pop(v, None)
                self.own(an, s, i, 'earr', v)
            return [ok, no] if n in READONLY else [ok, wb, no]
        if n in INSERT:
            el = None
            for j, ty in enumerate(self.iface[n]):
                if ty in ('eitem*', 'void*') and j > 3:
                    el = j
                    break
            if el is None:
                return None
            an.effect(st, i, VT + n, args)
            ok, wb, no = self.outcomes(an, st, i)
            for s in (ok, wb):
                t = self.tok(s, args[el])
                if t:
                    if t[0] == '-':
                        w = self.what(an, t[1], args[el])
                        self.bad(an, i, 'use', w, 'inserts %s after releasing it' % w)
                    self.put(s, t, ('-', t[1], args[el]))
            return [ok, wb, no]
        if n == 'release':
            an.effect(st, i, VT + n, args, False)
            self.release(an, st, i, args[2], 'item')
            return [st]
        if n.endswith('_elem_free'):
            an.effect(st, i, VT + n, args, False)
            self.release(an, st, i, args[2], 'elem')
            return [st]
        if n.endswith('_elem_release'):
            an.effect(st, i, VT + n, args, False)
            a = args[2]
            if a[0] == 'al':
                # releasing one element through the address of a local
                v = st.mem.get(a)
                if v is not None:
                    self.release(an, st, i, v, 'elem')
            elif a[0] == 'a' and a[1] < len(an.fn.args) and self.tok(st, a):
                self.release(an, st, i, a, 'elem')
            else:
                self.release(an, st, i, a, 'earr')
            return [st]
        return None

    def pcall(self, an, st, i, n, args):
        fn = self.prog.fns.get(n)
        if fn is None:
            return None
        # hand a local result over to the response builder
        if CONSUME.match(n):
            for k, (nm, ty, ll) in enumerate(fn.args):
                if k >= len(args):
                    break
                if ty == 'elems_result*':
                    v = st.mem.get(('f', an.caddr(args[k]), ARR))
                    t = self.tok(st, v) if v is not None else None
                    if t:
                        self.put(st, t, None)
                elif ty == 'void*' and nm.startswith('elem'):
                    t = self.tok(st, args[k])
                    if t:
                        self.put(st, t, None)
        if n == 'conn_coll_eitem_free':
            cell = ('f', args[0], 'conn.coll_eitem')
            v = st.load(cell, i)
            an.effect(st, i, n, args)
            st.mem[cell] = v
            t = self.tok(st, v)
            w = self.what(an, 'any', v)
            self.nr.add(i.id)
            if t and t[0] == '-':
                self.bad(an, i, 'double', w, 'releases %s twice' % w)
            self.put(st, t, ('-', 'any', v))
            return [st]
        m = self.mod.get(n, ())
        for f in SLOTS:
            if f in m:
                for k in list(st.mem):
                    if k[0] == 'f' and k[2] == f and root(k)[0] != 'al':
                        v = st.mem[k]
                        t = self.tok(st, v)
                        if t and t[0] == '-' and not st.known_eq(v, 0):
                            w = self.what(an, t[1], v)
                            self.bad(an, i, 'dangling', w + ' ' + f, 'calls %s() while %s still points to %s, already released'
                                     % (n, f.replace('.', '->'), w))
                        if t:
                            self.put(st, t, None)
        return None

    def ret(self, an, st, i, val):
        self.nexit += 1
        if an.fn.name == 'conn_coll_eitem_free':
            return      # its callers clear the slot
        held = {v: k for k, v in st.mem.items() if root(k)[0] != 'al' and not (
            k[0] == 'f' and k[2] == ARR and CONSUME.match(an.fn.name))}
        for t in st.prop:
            v = t[2]
            if t[0] == '+':
                if v in held or st.known_eq(v, 0) or v == val:
                    continue
                w = self.what(an, t[1], v)
                self.ctx.violation('leak', an.fn, self.acq[v].line if v in self.acq else i.line, w,
                                   'returns at line %d without releasing or keeping %s' % (i.line, w))
            elif t[0] == '-' and v in held and self.slotcell(held[v]) and not st.known_eq(v, 0):
                w = self.what(an, t[1], v)
                self.bad(an, i, 'dangling', w + ' ' + held[v][2], 'returns with %s still pointing to %s, already released'
                         % (held[v][2].replace('.', '->'), w))


def iface_types(prog):
    """argument types of each engine_interface_v1 slot, from the default engine's implementation"""
    out = {}
    for slot, fns in prog.slot_targets().items() if callable(prog.slot_targets) else prog.slot_targets.items():
        if slot.startswith('engine_interface_v1.'):
            for f in fns:
                if f in prog.fns:
                    out[slot.split('.')[1]] = [a[1] for a in prog.fns[f].args]
    return out


def check(ctx, prog, files, skip=()):
    params = dict(ewb=prog.enum('ENGINE_EWOULDBLOCK'), iface=iface_types(prog), mod=prog.modsets())
    na = nr = 0
    for fn in sorted(prog.fns.values(), key=lambda f: f.name):
        if fn.file not in files or fn.name.split('@')[0] in skip:
            continue
        c = SlotClient(ctx, prog, params)
        a = Analysis(prog, fn, c)
        a.run()
        ctx.count('functions')
        ctx.count('exit states checked', c.nexit)
        ctx.count('abstract states', a.nstates)
        na += len(c.na)
        nr += len(c.nr)
    ctx.count('acquire sites', na)
    ctx.count('release sites', nr)
    return na, nr
