"""What a request handler does to its connection: interprocedural summaries of the response automaton.

Tokens on a path:  R response queued, N waits for more data, S swallow, C connection closed, K next command
without a response, . other connection state.  A function's summary is the set of (result class, token string).
"""
from flow import Analysis, Client
from own import base

STATES = {'conn_write': 'R', 'conn_mwrite': 'R', 'conn_nread': 'N', 'conn_swallow': 'S', 'conn_closing': 'C',
          'conn_new_cmd': 'K', 'conn_waiting': 'W', 'conn_read': 'W'}
PRIM = {'out_string': 'R', 'write_bin_packet': 'R', 'write_bin_response': 'R', 'write_and_free': 'R'}
INF = float('inf')


class Summaries:
    def __init__(self, ctx, prog, file='memcached.c'):
        self.ctx, self.prog, self.file = ctx, prog, file
        self.memo = {}
        self.busy = set()
        self.stats = dict(functions=0, states=0)
        self.relevant = self._relevant()
        self.witness = {}

    def _relevant(self):
        """functions that can reach an event"""
        prog = self.prog
        rel = set()
        callers = {}
        work = []
        for fn in prog.fns.values():
            if fn.file != self.file:
                continue
            for i in fn.calls():
                n = prog.callee(i)
                if n is None:
                    continue
                callers.setdefault(n, set()).add(fn.name)
                if n == 'conn_set_state' or base(n) in PRIM:
                    if fn.name not in rel:
                        rel.add(fn.name)
                        work.append(fn.name)
        while work:
            x = work.pop()
            for c in callers.get(x, ()):
                if c not in rel:
                    rel.add(c)
                    work.append(c)
        return {r for r in rel if not r.startswith('conn_') and base(r) not in PRIM and r != 'main'
                and any(a[1] == 'conn*' for a in prog.fns[r].args)}

    def get(self, name):
        if name in self.memo:
            return self.memo[name]
        if name in self.busy:
            return {(None, '')}
        self.busy.add(name)
        fn = self.prog.fns[name]
        c = RespClient(self)
        a = Analysis(self.prog, fn, c)
        a.run()
        self.stats['functions'] += 1
        self.stats['states'] += a.nstates
        self.busy.discard(name)
        self.memo[name] = c.out
        return c.out


class RespClient(Client):
    cap = 24
    total_cap = 600

    def __init__(self, sums):
        self.s = sums
        self.out = set()
        self.wit = {}

    def entry(self, an, fn):
        return ''

    def merge_old(self, an, st, ids):
        return st.prop

    def live_syms(self, prop):
        return []

    def work(self, st):
        if 'w' not in st.prop:
            st.prop = st.prop + 'w'

    def add(self, st, t):
        if t == 'w' or t == 'p':
            if t in st.prop:
                return
        if len(st.prop) < 6:
            st.prop = st.prop + t

    def call(self, an, st, i, name, args):
        n = base(name) if name else None
        if n in PRIM:
            self.add(st, PRIM[n])
            return None
        if n == 'conn_set_state':
            f = args[1]
            t = STATES.get(f[1], '.') if f[0] == 'g' else '.'
            self.add(st, t)
            return None
        if n == 'check_and_handle_pipe_state':
            an.effect(st, i, name, args)
            bad = st.copy()
            bad.env[i.id] = ('c', 0)
            self.add(bad, 'p')
            st.env[i.id] = ('c', 1)
            return [st, bad]
        if name and name.startswith('vt:engine_interface'):
            self.add(st, 'w')
            return None
        if name in self.s.relevant:
            sm = self.s.get(name)
            an.effect(st, i, name, args)
            sym = st.env.get(i.id)
            out = []
            for rc, toks in sorted(sm, key=str):
                q = st.copy()
                for t in toks:
                    self.add(q, 'k' if t == 'K' and base(name) in QUIET else t)
                if rc is not None and sym is not None:
                    if rc == 'nz':
                        q.narrow(sym, -INF, INF, frozenset([0]))
                    else:
                        q.env[i.id] = ('c', rc)
                out.append(q)
            return out
        return None

    def ret(self, an, st, i, val):
        if val is None:
            rc = None
        elif val[0] == 'c':
            rc = val[1]
        else:
            lo, hi, ex = st.rng(val)
            rc = lo if lo == hi else 'nz' if st.known_ne(val, 0) else None
        k = (rc, st.prop)
        if k not in self.out:
            self.out.add(k)
            self.wit[k] = i.line
            self.s.witness[(an.fn.name, st.prop)] = (i.line, [t for t in (st.trace or [])][-12:] if st.trace else [])


QUIET = {'process_bin_get', 'complete_nread_ascii', 'process_extension_command'}
ALLOWED = {'R', 'RS', 'C', 'CS', 'RC', 'N', 'k'}
DISPATCH = {'process_bin_bop_nread_keys_complete', 'process_bin_sop_nread_complete', 'complete_update_ascii',
            'complete_nread_ascii', 'complete_nread_binary', 'complete_nread'}
# may be left without an outcome: they only select a handler, or report failure to a caller that answers
SELECT = {'try_read_network', 'try_read_command_ascii', 'try_read_command_binary', 'try_read_command', 'transmit',
          'reset_cmd_handler', 'bin_read_chunk', 'bin_read_key'}


def check(ctx, prog):
    s = Summaries(ctx, prog)
    for n in sorted(s.relevant):
        s.get(n)
    bad = {}
    for n, outs in s.memo.items():
        if base(n) in SELECT:
            continue
        for rc, full in outs:
            toks = full.replace('w', '').replace('p', '')
            ctx.count('handler outcomes judged')
            why = None
            if toks == '':
                if base(n).startswith('out_'):
                    if rc not in ('nz',) and not (isinstance(rc, int) and rc != 0):
                        why = ('silent', 'may report success without queueing a response')
                elif 'w' in full or base(n) not in DISPATCH:
                    why = ('silent', 'serves a request and returns without a response, and without waiting for data or closing')
            elif 'R' in toks[1:] and toks[0] in 'RNK' or toks.count('R') > 1:
                why = ('twice', 'queues a second response for one request')
            elif toks in ('K', 'S'):
                if 'p' not in full and base(n) not in QUIET:
                    why = ('silent', 'goes on to the next command without a response')
            elif toks not in ALLOWED:
                why = ('mixed', 'leaves the connection with conflicting outcomes (%s)' % toks)
            if why:
                bad.setdefault(n, {}).setdefault((why, toks), s.witness.get((n, full), (0, []))[0])
    # report at the innermost function: a caller only inherits what its callee does
    for n, d in sorted(bad.items()):
        callees = {prog.callee(i) for i in prog.fns[n].calls()}
        for (why, toks), line in sorted(d.items()):
            if any(c in bad and any(k[1] == toks for k in bad[c]) for c in callees):
                continue
            ctx.violation(why[0], prog.fns[n], line, toks or 'no outcome', why[1])
    ctx.count('handlers', len(s.memo))
    ctx.count('abstract states', s.stats['states'])
