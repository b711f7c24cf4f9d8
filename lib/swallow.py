"""A rejected ascii request must consume the data block that follows it.

Per path of every ascii handler (calls to the response primitives are events):
  half      sbytes is set exactly when the connection is told to swallow
  kept      once the block's buffer was requested, an error response also swallows the block
  noreply   swallowing is left to the response (write_and_go) only where a response is really pending
  length    the number of bytes swallowed is the length the accepting path waits for
"""
from flow import Analysis, Client
from own import base

ALLOCS = ('vt:engine_interface_v1.allocate', 'vt:engine_interface_v1.list_elem_alloc', 'vt:engine_interface_v1.set_elem_alloc',
          'vt:engine_interface_v1.map_elem_alloc', 'vt:engine_interface_v1.btree_elem_alloc', 'mblck_list_alloc')
NOREPLY = ('set_noreply_maybe', 'set_pipe_noreply_maybe')


def prep(prog):
    """function -> index of its data-length parameter (its value reaches ritem_set_first)"""
    out = {}
    for fn in prog.fns.values():
        if fn.file != 'memcached.c' or '_bin_' in fn.name:
            continue
        for i in fn.calls():
            if prog.callee(i) == 'ritem_set_first':
                out.setdefault(fn.name, None)
        if any(i.op == 'store' and prog.addr_field(fn, i.p) == 'conn.rlbytes' for i in fn.all()) \
                and any(prog.callee(i) == 'conn_set_state' for i in fn.calls()):
            out.setdefault(fn.name, None)
    return out


class SwClient(Client):
    cap = 32
    total_cap = 1500

    def __init__(self, ctx, prog, preps, disconnect):
        self.ctx, self.prog, self.preps, self.disc = ctx, prog, preps, disconnect
        self.lengths = set()
        self.swallowed = {}
        self.params = set()
        self.waits = set()
        self.left = {}

    def entry(self, an, fn):
        return frozenset()

    def merge_old(self, an, st, ids):
        return st.prop

    def live_syms(self, prop):
        return []

    def add(self, st, t):
        if t not in st.prop:
            st.prop = st.prop | {t}

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'out_string':
            self.add(st, 'R')
        elif n == 'conn_set_state' and args[1][0] == 'g':
            if args[1][1] == 'conn_swallow':
                self.add(st, 'S')
            elif args[1][1] == 'conn_nread':
                self.add(st, 'N')
            elif args[1][1] == 'conn_closing':
                self.add(st, 'C')
        elif n in NOREPLY:
            self.add(st, 'n')
        elif n in ALLOCS:
            self.add(st, 'w')
        elif n == 'handle_unexpected_errorcode_ascii':
            an.effect(st, i, name, args)
            r = args[-1]
            if st.known_eq(r, self.disc):
                self.add(st, 'C')
                return [st]
            if st.known_ne(r, self.disc):
                self.add(st, 'R')
                return [st]
            q = st.copy()
            self.add(q, 'C')
            q.narrow(r, self.disc, self.disc)
            st.narrow(r, -float('inf'), float('inf'), frozenset([self.disc]))
            self.add(st, 'R')
            return [q, st]
        elif n == 'check_and_handle_pipe_state':
            an.effect(st, i, name, args)
            bad = st.copy()
            bad.env[i.id] = ('c', 0)
            self.add(bad, ('broken', i.id, i.line))
            st.env[i.id] = ('c', 1)
            self.add(st, ('fine', i.id))
            return [st, bad]
        elif n == 'ritem_set_first':
            self.length(args[2])
        elif name in self.preps and self.preps[name] is not None:
            self.lengths.add(norm(args[self.preps[name]]))
            self.waits |= {t[1] for t in st.prop if t[0] == 'fine'}
        return None

    def length(self, v):
        v = norm(v)
        self.lengths.add(v)
        if v[0][0] == 'a' and v[1] == 0:
            self.params.add(v[0][1])

    def store(self, an, st, i, addr, val):
        if addr[0] != 'f':
            return
        if addr[2] == 'conn.rlbytes':
            self.length(val)
        if addr[2] == 'conn.sbytes':
            self.add(st, 'b')
            self.swallowed.setdefault(norm(val), i.line)
        elif addr[2] == 'conn.write_and_go' and val == ('g', 'conn_swallow'):
            self.add(st, 'g')
            if 'n' in st.prop or 'w' in st.prop and self.maybe_noreply:
                s = None
                for k, v in st.mem.items():
                    if k[0] == 'f' and k[2] == 'conn.state':
                        s = v
                if s is None or not (s == ('g', 'conn_write') or st.known_eq(('cmp', 'eq', s, ('g', 'conn_write')), 1)
                                     or related(st, s)):
                    self.ctx.violation('noreply', an.fn, i.line, 'write_and_go',
                                       'leaves the swallow to a response that noreply may have suppressed')

    maybe_noreply = False

    def ret(self, an, st, i, val):
        p = st.prop
        sw = 'g' in p or 'S' in p
        if not sw:
            for t in p:
                if t[0] == 'broken':
                    zero = {norm(k)[0] for k in st.facts if st.known_eq(k, 0)}
                    self.left.setdefault(t[1], []).append((t[2], zero))
        if ('b' in p) != sw:
            self.ctx.violation('half', an.fn, i.line, 'sbytes' if 'b' in p else 'swallow',
                               'sets the byte count to swallow without swallowing' if 'b' in p else
                               'swallows without setting how many bytes')
        if 'w' in p and 'R' in p and 'N' not in p and 'C' not in p and not sw and self.has_block:
            self.ctx.violation('kept', an.fn, i.line, 'data block', 'rejects the request but leaves its data block on the stream')


def related(st, s):
    lo, hi, ex = st.rng(('cmp', 'eq', s, ('g', 'conn_write')))
    return (lo, hi) == (1, 1)


def norm(v):
    """symbol plus constant offset, ignoring width changes"""
    off = 0
    while True:
        if v[0] == 'tr':
            v = v[2]
        elif v[0] == 'bin' and v[1] == 'add' and v[3][0] == 'c':
            off += v[3][1]
            v = v[2]
        else:
            return (v, off)


def check(ctx, prog):
    disc = prog.enum('ENGINE_DISCONNECT')
    preps = prep(prog)
    noreply_callers = set()
    for name in list(preps):
        c = SwClient(Quiet(), prog, preps, disc)
        c.has_block = True
        Analysis(prog, prog.fns[name], c).run()
        if len(c.params) == 1:
            preps[name] = next(iter(c.params))
    nored = {fn.name for fn in prog.fns.values() if any(base(prog.callee(i) or '') in NOREPLY for i in fn.calls())}
    todo = set(preps)
    for fn in prog.fns.values():
        if fn.file != 'memcached.c' or '_bin_' in fn.name or fn.name in ('transmit', 'out_string', 'conn_swallow', 'write_bin_packet'):
            continue
        if any(prog.callee(i) in preps for i in fn.calls()):
            todo.add(fn.name)
        if any(i.op == 'store' and prog.addr_field(fn, i.p) == 'conn.sbytes' for i in fn.all()):
            todo.add(fn.name)
    for name in sorted(todo):
        fn = prog.fns[name]
        c = SwClient(ctx, prog, preps, disc)
        c.has_block = name in preps
        c.maybe_noreply = name in preps and any(name in {prog.callee(i) for i in prog.fns[q].calls()} for q in nored)
        a = Analysis(prog, fn, c)
        a.run()
        ctx.count('handlers')
        ctx.count('abstract states', a.nstates)
        ctx.count('swallow sites', len(c.swallowed))
        for k in sorted(c.waits):
            for line, zero in c.left.get(k, ()):
                if not any(v[0] in zero for v in c.lengths):
                    ctx.violation('kept', fn, line, 'pipe error', 'drops a command of a broken pipeline but leaves its data block on the stream')
        if c.lengths:
            for v, line in sorted(c.swallowed.items(), key=lambda x: x[1]):
                if v not in c.lengths and v[0][0] != 'c':
                    ctx.violation('length', fn, line, 'sbytes', 'swallows a different number of bytes than the block it would accept')


class Quiet:
    thorough = False

    def violation(self, *a):
        pass
