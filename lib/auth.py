"""Authorization and authentication gates, assuming a server that requires SASL.

ascii   from process_command_ascii, every call into the engine happens on a path where check_ascii_auth()
        granted the class the operation needs; waiting for a data block also needs a grant
binary  from dispatch_bin_command, nothing reaches the engine before authenticated() said yes
grant   check_ascii_auth() says yes only where the connection holds every requested right or the key is an
        internal one; authenticated() says yes only for the handshake commands or an authenticated connection
login   a connection becomes authenticated, and gets its rights, only where the SASL exchange succeeded
fresh   a new connection starts unauthenticated and without rights
"""
from flow import Analysis, Client, last_field
from own import base

VT = 'vt:engine_interface_v1.'
INF = float('inf')
COLL = {'list': 'AUTHZ_LIST', 'set': 'AUTHZ_SET', 'map': 'AUTHZ_MAP', 'btree': 'AUTHZ_BTREE'}
NEED = {'allocate': 'AUTHZ_KV', 'store': 'AUTHZ_KV', 'get': 'AUTHZ_KV', 'arithmetic': 'AUTHZ_KV',
        'remove': 'AUTHZ_DELETE', 'flush': 'AUTHZ_FLUSH', 'getattr': 'AUTHZ_ATTR', 'setattr': 'AUTHZ_ATTR',
        'keyscan': 'AUTHZ_SCAN', 'prefixscan': 'AUTHZ_SCAN', 'set_config': 'AUTHZ_ADMIN', 'dump': 'AUTHZ_ADMIN'}
ALT = {'remove': ('AUTHZ_KV',), 'setattr': ('AUTHZ_KV',), 'set_config': ()}
# giving back what is held, describing what is held, and the public statistics need no right
FREE = ('release', 'get_item_info', 'get_elem_info', 'get_prefix_info', 'prefix_release', 'errinfo', 'get_stats', 'reset_stats',
        'aggregate_stats', 'prefix_count', 'prefix_dump_stats', 'prefix_get_stats', 'get_config', 'cachedump', 'destroy',
        'unknown_command', 'item_set_cas', 'get_stats_struct', 'get_feature', 'get_info', 'initialize', 'confirm_key',
        'tap_notify', 'get_tap_iterator')


# administrative actions of the server itself
ADMIN = {'cmdlog_start', 'cmdlog_stop', 'cmdlog_stats', 'lqdetect_start', 'lqdetect_stop', 'lqdetect_stats', 'lqdetect_result_get',
         'lqdetect_set_standard', 'arcus_zk_get_ensemble', 'arcus_zk_rejoin_ensemble', 'arcus_zk_set_ensemble',
         'arcus_zk_set_zksession_timeout', 'arcus_hb_set_confs', 'cmdlog_set', 'server_shutdown', 'raise', 'kill',
         'settings_reload_engine_config', 'arcus_sasl_reload', 'detect_long_query_start'}


def need(op):
    c = op.split('_')[0]
    if c in COLL and ('_elem_' in op or '_struct_' in op or '_posi_' in op):
        if op.endswith(('_elem_release', '_elem_free')):
            return None
        return (COLL[c],)
    if op in FREE:
        return None
    if op in NEED:
        return (NEED[op],) + ALT.get(op, ())
    return ('AUTHZ_ADMIN',)


class Walk:
    def __init__(self, ctx, prog, bits, binary):
        self.ctx, self.prog, self.bits, self.binary = ctx, prog, bits, binary
        self.memo = {}
        self.busy = set()
        self.reach = self._reach()
        self.ops = set()
        self.states = 0

    def _reach(self):
        prog = self.prog
        callers, work, rel = {}, [], set()
        for fn in prog.fns.values():
            if fn.file != 'memcached.c':
                continue
            for i in fn.calls():
                n = prog.callee(i)
                if n is None:
                    continue
                callers.setdefault(n, set()).add(fn.name)
                if n.startswith(VT) or n in ('conn_set_state', 'check_ascii_auth', 'authenticated'):
                    if fn.name not in rel:
                        rel.add(fn.name)
                        work.append(fn.name)
        while work:
            for c in callers.get(work.pop(), ()):
                if c not in rel:
                    rel.add(c)
                    work.append(c)
        return {r for r in rel if not r.startswith('conn_') and any(a[1] == 'conn*' for a in prog.fns[r].args)
                and r not in ('check_ascii_auth', 'authenticated')}

    def go(self, name, entry):
        k = (name, entry)
        if k in self.memo or k in self.busy:
            return self.memo.get(k, {(None, entry)})
        self.busy.add(k)
        c = GateClient(self, entry)
        a = Analysis(self.prog, self.prog.fns[name], c)
        a.run()
        self.states += a.nstates
        self.busy.discard(k)
        self.memo[k] = c.out
        return c.out


class GateClient(Client):
    cap = 24
    total_cap = 800

    def __init__(self, w, entry):
        self.w = w
        self.e = entry
        self.out = set()

    def entry(self, an, fn):
        return self.e

    def merge_old(self, an, st, ids):
        return st.prop

    def live_syms(self, prop):
        return []

    def load(self, an, st, i, addr, val):
        if last_field(addr) == 'settings.require_sasl':
            st.narrow(val, 1, 1)

    def call(self, an, st, i, name, args):
        w = self.w
        if name == 'check_ascii_auth':
            an.effect(st, i, name, args)
            no = st.copy()
            no.env[i.id] = ('c', 0)
            no.prop = no.prop | {'denied'}
            st.env[i.id] = ('c', 1)
            f = args[1]
            st.prop = st.prop | ({b for n, b in w.bits.items() if b and f[1] & b} if f[0] == 'c' else {'dynamic'}) | {'checked'}
            return [st, no]
        if name == 'authenticated':
            an.effect(st, i, name, args)
            no = st.copy()
            no.env[i.id] = ('c', 0)
            st.env[i.id] = ('c', 1)
            st.prop = st.prop | {'authenticated'}
            return [st, no]
        if name and name.startswith(VT):
            self.engine(an, st, i, name[len(VT):])
            return None
        if name in ADMIN and not w.binary:
            w.ops.add((an.fn.name, i.id))
            if w.bits['AUTHZ_ADMIN'] not in st.prop:
                w.ctx.violation('gate', an.fn, i.line, name, 'calls %s() without the AUTHZ_ADMIN right' % name)
            return None
        if name == 'conn_set_state' and args[1] == ('g', 'conn_nread'):
            if w.binary and 'authenticated' not in st.prop:
                w.ctx.violation('gate', an.fn, i.line, 'wait for data', 'accepts a request body before the connection authenticated')
            if w.binary:
                w.ctx.count('body waits')
            if not w.binary and not st.prop & {'checked'} and 'sasl' not in an.fn.name:
                w.ctx.violation('gate', an.fn, i.line, 'wait for data', 'accepts a data block from a connection that was not authorized')
            return None
        if name in w.reach:
            out = []
            sm = w.go(name, st.prop)
            an.effect(st, i, name, args)
            sym = st.env.get(i.id)
            for rc, p in sorted(sm, key=lambda x: (str(x[0]), sorted(map(str, x[1])))):
                q = st.copy()
                q.prop = p
                if rc is not None and sym is not None:
                    if rc == 'nz':
                        q.narrow(sym, -INF, INF, frozenset([0]))
                    else:
                        q.env[i.id] = ('c', rc)
                out.append(q)
            return out
        if name and name.startswith('vt:') and 'execute' in name and not w.binary:
            w.ctx.count('gated calls')
            if 'dynamic' not in st.prop:
                w.ctx.violation('gate', an.fn, i.line, 'extension execute', 'runs an extension command without checking its right')
        return None

    def store(self, an, st, i, addr, val):
        w = self.w
        f = last_field(addr) or ''
        if not w.binary and (addr == ('g', 'memcached_shutdown') or f.startswith('settings.') and f != 'settings.detail_enabled'):
            w.ops.add((an.fn.name, i.id))
            if w.bits['AUTHZ_ADMIN'] not in st.prop:
                w.ctx.violation('gate', an.fn, i.line, f or addr[1], 'changes %s without the AUTHZ_ADMIN right' % (f or addr[1]))

    def engine(self, an, st, i, op):
        w = self.w
        w.ops.add((an.fn.name, i.id))
        if 'denied' in st.prop:
            if need(op) is not None:
                w.ctx.violation('denied', an.fn, i.line, op, 'calls %s() although the connection was refused' % op)
            return
        if w.binary:
            if 'authenticated' not in st.prop and op != 'errinfo':
                w.ctx.violation('gate', an.fn, i.line, op, 'calls %s() before the connection authenticated' % op)
            return
        n = need(op)
        if n is None:
            return
        if not any(w.bits[x] in st.prop for x in n):
            w.ctx.violation('gate', an.fn, i.line, op, 'calls %s() without the %s right' % (op, n[0]))

    def ret(self, an, st, i, val):
        rc = None
        if val is not None:
            if val[0] == 'c':
                rc = val[1]
            else:
                lo, hi, ex = st.rng(val)
                rc = lo if lo == hi else 'nz' if st.known_ne(val, 0) else None
        self.out.add((rc, st.prop))


class GrantClient(Client):
    """the two predicates themselves"""
    def __init__(self, ctx, prog, ok_cmds):
        self.ctx, self.prog, self.ok = ctx, prog, ok_cmds

    def entry(self, an, fn):
        return frozenset()

    def live_syms(self, prop):
        return []

    def call(self, an, st, i, name, args):
        if name == 'strncmp' and any(a[0] == 's' and a[1].startswith('arcus:') for a in args[:2]):
            an.effect(st, i, name, args)
            st.narrow(st.env[i.id], -INF, INF)
            yes = st.copy()
            yes.env[i.id] = ('c', 0)
            yes.prop = yes.prop | {'internal'}
            st.narrow(st.env[i.id], -INF, INF, frozenset([0]))
            return [yes, st]
        return None

    def ret(self, an, st, i, val):
        self.ctx.count('predicate exits')
        if st.known_eq(val, 0):
            return
        if an.fn.name == 'check_ascii_auth':
            if 'internal' in st.prop or holds(st):
                return
            self.ctx.violation('grant', an.fn, i.line, 'check_ascii_auth', 'may grant a request although the connection lacks a requested right')
        else:
            if val[0] != 'c' and any(v == val and last_field(k) == 'conn.authenticated' for k, v in st.mem.items()):
                return
            cmd = [v for k, v in st.mem.items() if k[0] == 'f' and k[2] == 'conn.cmd']
            for v in cmd:
                lo, hi, ex = st.rng(v)
                if hi - lo < 64 and all(x in self.ok or x in ex for x in range(int(lo), int(hi) + 1)):
                    return
            self.ctx.violation('grant', an.fn, i.line, 'authenticated', 'may let a command pass on a connection that is not authenticated')


def holds(st):
    """is ((authorized & flag) == flag) known"""
    def strip(v):
        while v[0] == 'tr':
            v = v[2]
        return v
    for k in st.facts:
        if k[0] == 'cmp' and k[1] in ('eq', 'ne') and st.known_eq(k, 1 if k[1] == 'eq' else 0):
            a, b = strip(k[2]), strip(k[3])
            for x, y in ((a, b), (b, a)):
                if x[0] == 'bin' and x[1] == 'and' and y in (strip(x[2]), strip(x[3])) and y[0] == 'a':
                    return True
    return False


class LoginClient(Client):
    def __init__(self, ctx, refused):
        self.ctx = ctx
        self.refused = refused
        self.n = 0

    def entry(self, an, fn):
        return frozenset()

    def live_syms(self, prop):
        return [x[1] for x in prop]

    def call(self, an, st, i, name, args):
        if name in ('sasl_server_start', 'sasl_server_step'):
            an.effect(st, i, name, args)
            ok = st.copy()
            ok.env[i.id] = ('c', 0)
            ok.prop = ok.prop | {('ok', i.id)}
            st.narrow(st.env[i.id], -INF, INF, frozenset([0]))
            st.prop = frozenset(x for x in st.prop if x[0] != 'ok')
            return [ok, st]
        if name == 'arcus_sasl_authz':
            an.effect(st, i, name, args)
            no = st.copy()
            no.env[i.id] = ('c', self.refused)
            no.prop = no.prop | {('refused', i.id)}
            st.narrow(st.env[i.id], -INF, INF, frozenset([self.refused]))
            st.prop = frozenset(x for x in st.prop if x[0] != 'refused') | {('granted', i.id)}
            return [st, no]
        return None

    def store(self, an, st, i, addr, val):
        f = last_field(addr)
        if addr[0] != 'f' or f not in ('conn.authenticated', 'conn.authorized'):
            return
        if val == ('c', 0) or st.known_eq(val, 0):
            return
        self.n += 1
        if not any(x[0] == 'ok' for x in st.prop):
            self.ctx.violation('login', an.fn, i.line, f, 'marks the connection as %s although the SASL exchange did not succeed'
                               % f.split('.')[1])
        elif f == 'conn.authenticated':
            kinds = {x[0] for x in st.prop}
            if 'granted' not in kinds or 'refused' in kinds:
                self.ctx.violation('login', an.fn, i.line, f, 'marks the connection as authenticated although no rights were found for its user')


class FreshClient(Client):
    def __init__(self, ctx):
        self.ctx = ctx

    def entry(self, an, fn):
        return frozenset()

    def live_syms(self, prop):
        return []

    def store(self, an, st, i, addr, val):
        f = last_field(addr)
        if addr[0] == 'f' and f in ('conn.authenticated', 'conn.authorized'):
            if st.known_eq(val, 0):
                st.prop = st.prop | {f}
            else:
                st.prop = st.prop - {f}

    def ret(self, an, st, i, val):
        if st.known_eq(val, 0):
            return
        self.ctx.count('connection creation exits')
        for f in ('conn.authenticated', 'conn.authorized'):
            if f not in st.prop:
                self.ctx.violation('fresh', an.fn, i.line, f, 'hands out a connection without resetting %s' % f.split('.')[1])


def login(ctx, prog, refused):
    n = 0
    for fn in prog.fns.values():
        if fn.file == 'memcached.c' and any(i.op == 'store' and prog.addr_field(fn, i.p) in ('conn.authenticated', 'conn.authorized')
                                            for i in fn.all()):
            c = LoginClient(ctx, refused)
            Analysis(prog, fn, c).run()
            ctx.count('abstract states', 1)
            n += c.n
    ctx.count('login store sites', n)


def check_ascii(ctx, prog, bits, refused):
    w = Walk(ctx, prog, bits, False)
    w.go('process_command_ascii', frozenset())
    ctx.count('engine call sites', len(w.ops))
    ctx.count('function contexts', len(w.memo))
    ctx.count('abstract states', w.states)
    login(ctx, prog, refused)
    c = GrantClient(ctx, prog, ())
    Analysis(prog, prog.fn('check_ascii_auth'), c).run()


def check_login(ctx, prog, ok_cmds, refused):
    w = Walk(ctx, prog, {}, True)
    w.go('dispatch_bin_command', frozenset())
    ctx.count('engine call sites', len(w.ops))
    ctx.count('function contexts', len(w.memo))
    Analysis(prog, prog.fn('authenticated'), GrantClient(ctx, prog, ok_cmds)).run()
    login(ctx, prog, refused)
    Analysis(prog, prog.fn('conn_new'), FreshClient(ctx)).run()
