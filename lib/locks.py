"""Lockset analysis.  Every function is analysed path-sensitively for every set of mutexes it can be
entered with (tabulated from the program's entry points through direct calls, struct slots and callback
parameters).  The result says, per instruction, which mutexes are held on each path and context, which
mutexes are taken while others are held, and whether a function leaves with what it entered with."""
import sys
import flow
from flow import Analysis, Client, last_field, root
from prog import Broken

sys.setrecursionlimit(20000)

LOCK = ('pthread_mutex_lock', 'pthread_rwlock_wrlock', 'pthread_rwlock_rdlock', 'pthread_spin_lock')
TRY = ('pthread_mutex_trylock',)
UNLOCK = ('pthread_mutex_unlock', 'pthread_rwlock_unlock', 'pthread_spin_unlock')
SPAWN = ('pthread_create', 'event_set', 'event_assign', 'signal', 'sigaction', 'atexit')


def lockname(a):
    if a is None:
        return None
    if a[0] == 'g':
        return 'G:' + a[1]
    f = last_field(a)
    if f:
        return f
    r = root(a)
    if r[0] == 'g':
        return 'G:' + r[1]
    return None


def accname(a):
    f = last_field(a)
    if f:
        return f
    r = root(a)
    if r[0] == 'g':
        return 'G:' + r[1]
    return None


class LockClient(Client):
    def __init__(self, lk, unit, cap):
        self.lk = lk
        self.unit = unit
        self.exits = {}
        self.cap = cap
        self.total_cap = cap * 10

    def entry(self, an, fn):
        return self.unit[1]

    def call(self, an, st, i, name, args):
        lk = self.lk
        held = st.prop
        if name in LOCK or name in TRY:
            n = lockname(an.caddr(args[0]))
            if n is None:
                raise Broken('unresolved mutex in %s line %d' % (an.fn.name, i.line))
            if n in held:
                lk.report('double', an.fn, i, n, 'acquires %s while it is already held' % n, self.unit)
            lk.acq(an.fn, i, n, held, self.unit)
            an.effect(st, i, name, args, False)
            if name in TRY:
                ok = st.copy()
                ok.env[i.id] = ('c', 0)
                ok.prop = held | {n}
                no = st.copy()
                no.env[i.id] = ('c', 16)
                return [ok, no]
            st.prop = held | {n}
            # other threads may have changed shared memory before the lock was obtained
            dead = [k for k in st.mem if root(k)[0] != 'al']
            for k in dead:
                del st.mem[k]
            return [st]
        if name in UNLOCK:
            n = lockname(an.caddr(args[0]))
            if n is None:
                raise Broken('unresolved mutex in %s line %d' % (an.fn.name, i.line))
            if n not in held:
                lk.report('unlock', an.fn, i, n, 'releases %s while it is not held' % n, self.unit)
            st.prop = held - {n}
            an.effect(st, i, name, args, False)
            return [st]
        if name in SPAWN:
            for a in i.args:
                if a[0] == 'g':
                    t = lk.prog.resolve_local(a[1], an.fn.stem)
                    if t in lk.prog.fns:
                        lk.spawned.add(t)
        lk.site(an.fn, i, name, held)
        res = set()
        for t in lk.prog.targets(an.fn, i, name):
            res |= lk.unitrun(t, held, lk.ctx(t, args, st), (an.fn.name, i, self.unit))
        if not res or res == {held}:
            return None
        an.effect(st, i, name, args)
        if i.noret:
            return []
        out = []
        for h in res:
            s = st.copy()
            s.prop = h
            out.append(s)
        return out

    def load(self, an, st, i, addr, val):
        self.lk.access(an.fn, i, addr, st.prop, 'r', self.unit)

    def store(self, an, st, i, addr, val):
        self.lk.access(an.fn, i, addr, st.prop, 'w', self.unit)

    def ret(self, an, st, i, val):
        self.exits.setdefault(st.prop, i)


class CtxClient(LockClient):
    pass


class CtxAnalysis(Analysis):
    def __init__(self, prog, fn, client, ctx):
        Analysis.__init__(self, prog, fn, client)
        self.ctx = dict(ctx)

    def val(self, st, o):
        if o[0] == 'a' and o[1] in self.ctx:
            return ('c', self.ctx[o[1]])
        return Analysis.val(self, st, o)


class Locks:
    def __init__(self, prog, cap=12):
        self.prog = prog
        self.cap = cap
        self.units = {}
        self.busy = {}
        self.from_ = {}
        self.sites = {}      # fn -> {inst id: (inst, name, set of locksets)}
        self.accs = {}       # fn -> {(name, rw, inst id): (inst, {lockset: unit})}
        self.acqs = {}       # fn -> {(inst id, lock): (inst, lock, {held: unit})}
        self.leaks = {}
        self.reports = {}
        self.spawned = set()
        self.nstates = 0
        self._sw = {}
        self._tl = None

    def report(self, rule, fn, i, what, msg, unit):
        self.reports.setdefault((rule, fn.name, what), (fn, i, msg, unit))

    def site(self, fn, i, name, prop):
        self.sites.setdefault(fn.name, {}).setdefault(i.id, (i, name, set()))[2].add(prop)

    def access(self, fn, i, addr, prop, rw, unit):
        if root(addr)[0] == 'al':
            return
        n = accname(addr)
        if n is None:
            return
        self.accs.setdefault(fn.name, {}).setdefault((n, rw, i.id), (i, {}))[1].setdefault(prop, unit)

    def acq(self, fn, i, n, held, unit):
        self.acqs.setdefault(fn.name, {}).setdefault((i.id, n), (i, n, {}))[2].setdefault(held, unit)

    # ---- constant-argument contexts: parameters that decide a branch directly
    def switch_args(self, name):
        r = self._sw.get(name)
        if r is None:
            fn = self.prog.fns[name]
            r = set()
            if name in self.takes_locks():
                for i in fn.all():
                    if i.op == 'icmp':
                        for o in (i.a, i.b):
                            if o[0] == 'a':
                                r.add(o[1])
                    elif i.op == 'cast' and i.a[0] == 'a':
                        r.add(i.a[1])
                    elif i.op in ('br', 'switch') and i.c and i.c[0] == 'a':
                        r.add(i.c[1])
            self._sw[name] = r
        return r

    def takes_locks(self):
        """functions that themselves call lock operations or tiny wrappers of them"""
        if self._tl is None:
            t = set()
            for fn in self.prog.fns.values():
                for i in fn.calls():
                    n = self.prog.callee(i)
                    if n in LOCK or n in TRY or n in UNLOCK:
                        t.add(fn.name)
            for fn in self.prog.fns.values():
                for i in fn.calls():
                    n = self.prog.callee(i)
                    if n in t and len(self.prog.fns[n].blocks) <= 3:
                        t = t | {fn.name}
                        break
            self._tl = t
        return self._tl

    def ctx(self, t, args, st):
        sw = self.switch_args(t)
        out = []
        for k in sorted(sw):
            if k < len(args) and args[k] is not None and args[k][0] != 'u':
                c = st.const(args[k])
                if c is not None and isinstance(c, int):
                    out.append((k, c))
        return tuple(out)

    def unitrun(self, name, held, ctx, frm):
        u = (name, held, ctx)
        r = self.units.get(u)
        if r is not None:
            return r
        if u in self.busy:
            return {held}
        self.from_.setdefault(u, frm)
        self.busy[u] = True
        cl = LockClient(self, u, self.cap)
        a = CtxAnalysis(self.prog, self.prog.fns[name], cl, ctx).run()
        self.nstates += a.nstates
        r = set(cl.exits)
        for h, i in cl.exits.items():
            if h != held:
                self.leaks.setdefault(name, []).append((i, held, h, u))
        if not r:
            r = set()
        if len(self.units) > 20000:
            raise Broken('too many lock contexts')
        del self.busy[u]
        self.units[u] = r
        return r

    def run(self):
        prog = self.prog
        called = set()
        for fn in prog.fns.values():
            for i in fn.calls():
                n = prog.callee(i)
                if n in SPAWN:
                    for a in i.args:
                        if a[0] == 'g' and prog.resolve_local(a[1], fn.stem) in prog.fns:
                            self.spawned.add(prog.resolve_local(a[1], fn.stem))
                called.update(prog.targets(fn, i, n))
        self.roots = sorted((set(prog.fns) - called) | self.spawned)
        for n in self.roots:
            self.unitrun(n, frozenset(), (), None)
        self.reached = {u[0] for u in self.units}
        self.unreached = set(prog.fns) - self.reached
        return self

    def chain(self, unit):
        out = []
        seen = set()
        while unit is not None and unit not in seen:
            seen.add(unit)
            f = self.from_.get(unit)
            if f is None:
                break
            out.append('%s (%s:%d)' % (f[0], self.prog.fns[f[0]].file, f[1].line))
            unit = f[2]
        return out

    def order(self):
        e = {}
        for f, m in self.acqs.items():
            for i, n, hs in m.values():
                for h, u in hs.items():
                    for l in h:
                        e.setdefault((l, n), (f, i, u))
        return e
