"""Ownership (acquire/release pairing) as a typestate over the path-sensitive engine.

A contract table names, for each function that hands a reference out or takes one back, when it does:
  ret        the result is an owned reference when it is not null
  out k      *arg k is an owned reference when the call returns 0 (success)
  rel k      the reference passed as arg k is consumed
Every function body that touches references is checked against its own contract (default: none), so a
caller may rely on the table.  The property state is the set of references the path owns.
"""
from flow import Analysis, Client, root, weak, fmt, ids_of

OWN, REL = '+', '-'


class Spec:
    def __init__(self, kind, acquire_ret=(), acquire_out=(), release=(), trusted=(), take=(), escape=(), link=(), link_always=()):
        self.kind = kind
        self.ret = set(acquire_ret)
        self.out = dict(acquire_out)      # name -> k
        self.rel = dict(release)          # name -> k
        self.take = dict(take)            # name -> k
        self.trusted = set(trusted)       # bodies not checked
        self.link = dict(link)
        self.link_always = dict(link_always)
        self.escape = set(escape)         # functions that keep references in arrays or structures
        self.events = self.ret | set(self.out) | set(self.rel) | set(self.take) \
            | set(self.link) | set(self.link_always)


class OwnClient(Client):
    cap = 16
    total_cap = 400
    keep_old = True

    def __init__(self, ctx, spec, thorough=False):
        self.ctx = ctx
        self.spec = spec
        self.acq = {}
        self.entry_cells = set()
        self.nexit = 0
        self.nacq = set()
        self.nrel = set()
        if thorough:
            self.cap = 48
            self.total_cap = 2000

    # prop: frozenset of (sign, symbol)
    def entry(self, an, fn):
        k = self.spec.rel.get(base(fn.name))
        if k is not None and k < len(fn.args):
            return frozenset([(OWN, ('a', k))])
        return frozenset()

    def live_syms(self, prop):
        return [s for g, s in prop]

    def merge_old(self, an, st, ids):
        # what a finished iteration released is of no interest later
        return frozenset(x for x in st.prop if x[0] == OWN or not (ids_of(x[1]) & ids))

    def own(self, an, st, i, sym):
        if (OWN, sym) in st.prop and not weak(sym):
            self.ctx.violation('leak', an.fn, i.line, '%s overwritten' % self.what(an, sym),
                               'acquires %s again while the reference from before is still owned' % self.what(an, sym))
        self.acq[sym] = i
        self.nacq.add(i.id)
        st.prop = (st.prop - {(REL, sym)}) | {(OWN, sym)}

    def what(self, an, sym):
        a = self.acq.get(sym)
        n = sym[1] if sym[0] in ('i', 'r', 'o', 'j') else None
        if n is not None:
            for x in an.fn.calls():
                if x.id == n:
                    return 'the %s from %s()' % (self.spec.kind, an.callee(x) or 'a call')
        return 'the %s in %s' % (self.spec.kind, fmt(sym))

    def release(self, an, st, i, sym):
        self.nrel.add(i.id)
        if (OWN, sym) in st.prop:
            st.prop = (st.prop - {(OWN, sym)}) | {(REL, sym)}
            return True
        if st.known_eq(sym, 0):
            return True
        if base(an.fn.name) in self.spec.escape and (REL, sym) not in st.prop:
            return True
        if (REL, sym) in st.prop:
            self.ctx.violation('double', an.fn, i.line, self.what(an, sym), 'releases %s twice' % self.what(an, sym))
            return True
        self.ctx.violation('stray', an.fn, i.line, self.what(an, sym),
                           'releases %s, which this path does not own' % self.what(an, sym))
        return False

    def call(self, an, st, i, name, args):
        n = base(name) if name else None
        sp = self.spec
        if n not in sp.events:
            return None
        if n in sp.rel:
            k = sp.rel[n]
            an.effect(st, i, name, args)
            self.release(an, st, i, args[k])
            return [st]
        if n in sp.ret:
            an.effect(st, i, name, args)
            sym = st.env.get(i.id)
            ok = st.copy()
            ok.facts.pop(sym, None)
            ok.narrow(sym, -float('inf'), float('inf'), frozenset([0]))
            self.own(an, ok, i, sym)
            no = st
            no.env[i.id] = ('c', 0)
            return [ok, no]
        if n in sp.take:
            an.effect(st, i, name, args)
            if base(an.fn.name) not in sp.escape:
                self.own(an, st, i, args[sp.take[n]])
            return [st]
        k = sp.out[n]
        a = an.caddr(args[k])
        old = st.mem.get(a)
        an.effect(st, i, name, args)
        if old is not None:
            st.store(a, old)     # on failure the out argument is untouched or null (checked on the callee)
        sym = st.env.get(i.id)
        ok = st.copy()
        ok.env[i.id] = ('c', 0)
        v = ('r', i.id, 100 + k)
        ok.facts.pop(v, None)
        ok.store(a, v)
        ok.narrow(v, -float('inf'), float('inf'), frozenset([0]))
        self.own(an, ok, i, v)
        no = st
        no.narrow(sym, -float('inf'), float('inf'), frozenset([0]))
        if old is not None and (OWN, old) not in no.prop and not no.known_eq(old, 0):
            no.kill_root(a)
            no.mem.pop(a, None)
        return [ok, no]

    def phis(self, an, st, b, prev):
        """Which result the path is going to return is kept with the path: joined values lose it."""
        if base(an.fn.name) not in self.spec.link and base(an.fn.name) not in self.spec.out:
            return
        if getattr(self, 'retfn', None) is not an.fn:
            self.retfn, self.retphi = an.fn, set()
            todo = [i.v for i in an.fn.all() if i.op == 'ret' and i.v is not None]
            while todo:
                o = todo.pop()
                if o[0] == 'i' and o[1] not in self.retphi and an.fn.insts[o[1]].op == 'phi':
                    self.retphi.add(o[1])
                    todo += an.fn.insts[o[1]].phi.values()
        for i in an.fn.blocks[b]:
            if i.op != 'phi':
                break
            if i.id in self.retphi:
                v = an.val(st, i.phi[prev])
                was = {x for x in st.prop if x[0] in ('=', '!')}
                if i.phi[prev][0] == 'i' and i.phi[prev][1] in self.retphi and was:
                    continue
                new = {('=', ('c', 0))} if st.known_eq(v, 0) else {('!', ('c', 0))} if st.known_ne(v, 0) else set()
                st.prop = (st.prop - was) | new

    def load(self, an, st, i, addr, val):
        self.use(an, st, i, addr)

    def use(self, an, st, i, addr):
        r = root(addr)
        if (REL, r) in st.prop and addr != r and (OWN, r) not in st.prop:
            self.ctx.violation('use', an.fn, i.line, self.what(an, r) + ' ' + fmt(addr)[-40:],
                               'touches %s after releasing it' % self.what(an, r))

    def store(self, an, st, i, addr, val):
        self.use(an, st, i, addr)
        if base(an.fn.name) in self.spec.escape and (OWN, val) in st.prop and root(addr)[0] != 'al':
            st.prop = st.prop - {(OWN, val)}

    def ret(self, an, st, i, val):
        self.nexit += 1
        n = base(an.fn.name)
        sp = self.spec
        owned = {s for g, s in st.prop if g == OWN}
        line = i.line
        if n in sp.ret:
            if val in owned:
                owned.discard(val)
            elif not st.known_eq(val, 0):
                self.ctx.violation('unowned', an.fn, line, 'return', 'may return a %s without a reference of its own'
                                   % self.spec.kind)
        elif n in sp.out:
            a = ('a', sp.out[n])
            v = st.mem.get(a)
            if v in owned:
                owned.discard(v)
                if st.known_ne(val, 0) or ('!', ('c', 0)) in st.prop:
                    self.ctx.violation('leak', an.fn, line, 'out on failure',
                                       'keeps a reference to %s although the call fails' % self.what(an, v))
            elif st.known_ne(val, 0) or ('!', ('c', 0)) in st.prop:
                if v is not None and v != ('i', 0) and not st.known_eq(v, 0) and v not in self.entry_cells:
                    self.ctx.violation('dangling', an.fn, line, 'out', 'fails but leaves an unowned %s in the out argument'
                                       % self.spec.kind)
            else:
                self.ctx.violation('unowned', an.fn, line, 'out', 'may report success without handing out an owned %s'
                                   % self.spec.kind)
        for s in owned:
            if st.known_eq(s, 0):
                continue
            self.ctx.violation('leak', an.fn, self.acq[s].line if s in self.acq else line, self.what(an, s),
                               'returns at line %d still owning %s' % (line, self.what(an, s)))


def base(n):
    return n.split('@')[0]


def check(ctx, prog, spec, files=None, skip=(), client=OwnClient):
    fns = []
    for fn in prog.fns.values():
        if base(fn.name) in skip or base(fn.name) in spec.trusted:
            continue
        if files and not fn.file.startswith(files):
            continue
        if base(fn.name) in spec.events or any(base(prog.callee(i) or '') in spec.events for i in fn.calls()):
            fns.append(fn)
    na, nr = 0, 0
    for fn in sorted(fns, key=lambda f: f.name):
        c = client(ctx, spec, ctx.thorough)
        a = Analysis(prog, fn, c)
        a.run()
        ctx.count('functions')
        ctx.count('abstract states', a.nstates)
        ctx.count('exit states checked', c.nexit)
        na += len(c.nacq)
        nr += len(c.nrel)
    ctx.count('%s acquire sites' % spec.kind, na)
    ctx.count('%s release sites' % spec.kind, nr)
    return na, nr


class LinkClient(OwnClient):
    """Elements and index nodes: a fresh one is linked into its collection, handed back, or freed.
    A call named in link[name]=k consumes argument k when it returns 0 (or always, link_always)."""
    LINKED = 'L'

    def entry(self, an, fn):
        n = base(fn.name)
        k = self.spec.rel.get(n)
        if k is None:
            k = self.spec.link.get(n)
        if k is None:
            k = self.spec.link_always.get(n)
        if k is not None:
            return frozenset([(OWN, ('a', k))])
        return frozenset()

    def release(self, an, st, i, sym):
        self.nrel.add(i.id)
        if (self.LINKED, sym) in st.prop:
            self.ctx.violation('freed-linked', an.fn, i.line, self.what(an, sym),
                               'frees %s, which is still linked' % self.what(an, sym))
            return True
        if (REL, sym) in st.prop and not st.known_eq(sym, 0):
            self.ctx.violation('double', an.fn, i.line, self.what(an, sym), 'frees %s twice' % self.what(an, sym))
            return True
        if (OWN, sym) in st.prop:
            st.prop = (st.prop - {(OWN, sym)}) | {(REL, sym)}
        elif not weak(sym):
            st.prop = st.prop | {(REL, sym)}
        return True

    def merge_old(self, an, st, ids):
        return frozenset(x for x in st.prop if x[0] == OWN or not (ids_of(x[1]) & ids))

    def call(self, an, st, i, name, args):
        n = base(name) if name else None
        sp = self.spec
        if n in sp.link_always:
            an.effect(st, i, name, args)
            self.consume(an, st, i, args[sp.link_always[n]])
            return [st]
        if n in sp.link:
            an.effect(st, i, name, args)
            ok = st.copy()
            ok.env[i.id] = ('c', 0)
            self.consume(an, ok, i, args[sp.link[n]])
            st.narrow(st.env[i.id], -float('inf'), float('inf'), frozenset([0]))
            return [ok, st]
        return OwnClient.call(self, an, st, i, name, args)

    def consume(self, an, st, i, sym):
        if (REL, sym) in st.prop:
            self.ctx.violation('use', an.fn, i.line, self.what(an, sym), 'links %s after freeing it' % self.what(an, sym))
        elif (self.LINKED, sym) in st.prop:
            self.ctx.violation('twice', an.fn, i.line, self.what(an, sym), 'links %s twice' % self.what(an, sym))
        elif (OWN, sym) in st.prop:
            st.prop = (st.prop - {(OWN, sym)}) | {(self.LINKED, sym)}

    def store(self, an, st, i, addr, val):
        self.use(an, st, i, addr)
        r = root(addr)
        if (OWN, val) in st.prop and r[0] != 'al' and r != val:
            st.prop = (st.prop - {(OWN, val)}) | {(self.LINKED, val)}
        elif (OWN, val) in st.prop and addr[0] == 'x' and r[0] == 'al':
            st.prop = st.prop - {(OWN, val)}        # kept in a local array: indexes are not followed further

    def ret(self, an, st, i, val):
        self.nexit += 1
        n = base(an.fn.name)
        sp = self.spec
        owned = {s for g, s in st.prop if g == OWN}
        linked = {s for g, s in st.prop if g == self.LINKED}
        if n in sp.ret:
            if val in owned:
                owned.discard(val)
            elif not st.known_eq(val, 0):
                self.ctx.violation('unowned', an.fn, i.line, 'return', 'may return a %s that is not fresh' % sp.kind)
        k = sp.link.get(n)
        if k is not None:
            a = ('a', k)
            if st.known_eq(val, 0) or ('=', ('c', 0)) in st.prop:
                if a in owned:
                    self.ctx.violation('unlinked', an.fn, i.line, 'success', 'reports success without linking the %s' % sp.kind)
            elif st.known_ne(val, 0) or ('!', ('c', 0)) in st.prop:
                if a in linked:
                    self.ctx.violation('half', an.fn, i.line, 'failure', 'reports failure with the %s linked' % sp.kind)
                elif (REL, a) in st.prop:
                    self.ctx.violation('freed', an.fn, i.line, 'failure', 'reports failure after freeing the %s its caller still owns' % sp.kind)
            owned.discard(a)
        k = sp.link_always.get(n)
        if k is not None and ('a', k) in owned:
            self.ctx.violation('unlinked', an.fn, i.line, 'success', 'returns without linking the %s' % sp.kind)
            owned.discard(('a', k))
        for s in owned:
            if st.known_eq(s, 0):
                continue
            self.ctx.violation('leak', an.fn, self.acq[s].line if s in self.acq else i.line, self.what(an, s),
                               'returns at line %d still owning %s' % (i.line, self.what(an, s)))
