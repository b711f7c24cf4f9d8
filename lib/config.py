"""A configuration change takes effect exactly as it is reported.

   engine   set_config: a path that returns success has stored into the field of that key the value handed over (or the documented
            maximum in its place, where a collection size limit asks for more), inside the limits of that key; a path that returns
            failure has stored nothing.  get_config answers the same field, unscaled the same way, with the same width
   server   a handler of the config command hands over a variable of the width the engine reads, holding the number the request
            gave; the setting the server keeps is stored only after the engine took the change, always then, with the value the
            engine uses; END is answered exactly then; the query answers that setting under its name
"""
import re
from flow import Analysis, Client, last_field

INF = float('inf')
OWN = ('verbosity', 'max_stats_prefixes', 'maxconns')       # settings the server itself acts on; its word is final
FIELD = {'memlimit': 'maxbytes', 'verbosity': 'verbose'}
CFG = re.compile(r'^_?engine_config\.(\w+)$')
SET = re.compile(r'^_?settings\.(\w+)$')
PARSE = re.compile(r'^safe_strto(u?ll?|l)$')


def field(key):
    return FIELD.get(key, key)


def strip(v):
    while v is not None and v[0] in ('tr', 'zx', 'sx'):
        v = v[2]
    return v


def scale(v, k=1):
    """v as (symbol, factor)"""
    v = strip(v)
    if v[0] == 'bin' and v[1] in ('mul', 'shl', 'udiv', 'sdiv', 'lshr') and v[3][0] == 'c':
        c = v[3][1] if v[1] in ('mul', 'udiv', 'sdiv') else 1 << v[3][1]
        return scale(v[2], k * c if v[1] in ('mul', 'shl') else k / c)
    if v[0] == 'bin' and v[1] == 'mul' and v[2][0] == 'c':
        return scale(v[3], k * v[2][1])
    return v, k


class Keyed(Client):
    """paths are split by the name they compared the key with"""
    cap = 80
    total_cap = 4000

    def __init__(self, ctx, P):
        self.ctx, self.prog = ctx, P
        self.seen = {}

    def entry(self, an, fn):
        return frozenset()

    def live_syms(self, prop):
        return [y for x in prop for y in x[1:] if isinstance(y, tuple)]

    def merge_old(self, an, st, ids):
        return st.prop

    def tok(self, st, *t):
        st.prop = st.prop | {t}

    def get(self, st, k, dflt=None):
        for x in st.prop:
            if x[0] == k:
                return x[1] if len(x) == 2 else x[1:]
        return dflt

    def all(self, st, k):
        return [x[1:] for x in st.prop if x[0] == k]

    def compared(self, an, st, i, args, ptr, what):
        """strcmp of the text at ptr with a constant"""
        t = [a[1] for a in args if a[0] == 's']
        if len(t) != 1 or not any(a == ptr for a in args):
            return None
        t = t[0].rstrip('\0') if isinstance(t[0], str) else t[0]
        an.effect(st, i, 'strcmp', args)
        have = self.get(st, what)
        no = st.copy()
        no.narrow(st.env[i.id], -INF, INF, frozenset([0]))
        if have is not None and have != t:
            return [no]
        st.env[i.id] = ('c', 0)
        self.tok(st, what, t)
        return [st] if have == t else [st, no]

    def unfolded(self, st, v):
        return v


class Engine(Keyed):
    """set_config / get_config of the engine"""

    def __init__(self, ctx, P, fn, setter, K):
        Keyed.__init__(self, ctx, P)
        self.fn, self.setter, self.K = fn, setter, K
        self.keys = {}          # key -> set of (width, factor, cut)
        self.ptr = ('a', 3)

    def call(self, an, st, i, name, args):
        if name == 'strcmp':
            r = self.compared(an, st, i, args, ('a', 2), 'key')
            if r is not None:
                return r
        if name == 'slabs_set_memlimit':
            an.effect(st, i, name, args)
            no = st.copy()
            st.env[i.id] = ('c', 0)
            self.tok(st, 'slabs', args[0])
            no.narrow(no.env[i.id], -INF, INF, frozenset([0]))
            return [st, no]
        if name and name.startswith('pthread_mutex_'):
            keep = dict(st.mem)
            an.effect(st, i, name, args)
            st.mem.update({k: v for k, v in keep.items() if k[0] == 'al'})
            return [st]
        return None

    def load(self, an, st, i, addr, val):
        if addr == self.ptr:
            self.tok(st, 'in', val, i.ty)
        m = CFG.match(last_field(addr) or '')
        if m:
            self.tok(st, 'old', 'engine_config.' + m.group(1), val)
        elif (last_field(addr) or '').endswith('engine_stats.sticky_bytes'):
            self.tok(st, 'old', 'engine_stats.sticky_bytes', val)

    def branch(self, an, st, i, cond, truth):
        # an unsigned lower bound, which alone says nothing about a value that may be negative
        if cond is not None and cond[0] == 'cmp' and cond[1][0] == 'u':
            p, a, b = cond[1][1:], cond[2], cond[3]
            if a[0] == 'c':
                p, a, b = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p, p), b, a
            if not truth:
                p = {'lt': 'ge', 'gt': 'le', 'le': 'gt', 'ge': 'lt'}.get(p, p)
            if b[0] == 'c' and b[1] >= 0 and p in ('ge', 'gt'):
                self.tok(st, 'least', a, b[1] + (p == 'gt'))

    def prestore(self, an, st, i, addr, val):
        m = CFG.match(last_field(addr) or '')
        key = self.get(st, 'key')
        if m and not self.setter:
            self.ctx.violation('engine', self.fn, i.line, m.group(1), 'the query of a setting changes it')
        elif m:
            self.set(an, st, i, m.group(1), val, key)
        elif addr == self.ptr:
            if self.setter:
                self.ctx.violation('engine', self.fn, i.line, 'config_value', 'writes the value it was handed')
            else:
                self.answer(an, st, i, val, key)

    def set(self, an, st, i, f, val, key):
        ctx = self.ctx
        if key is None or field(key) != f:
            ctx.violation('engine', self.fn, i.line, f, 'stores %s for the key %s' % (f, key))
            return
        if self.get(st, 'done'):
            ctx.violation('engine', self.fn, i.line, f, 'stores %s twice' % f)
        ctx.count('settings stored by the engine, per path')
        ins = self.all(st, 'in')
        sym, k = scale(an.unfold(st, val)) if val is not None else (None, 1)
        cut = sym is not None and sym[0] == 'c' and key in self.K['max'] and sym[1] == self.K['max'][key] and ins
        if cut:
            # only where the value asked for lies outside what the limit can be
            asked = ins[0][0]
            lo, hi = st.rng(asked)[:2]
            if not (lo > sym[1] or hi < 0 or st.cmpval('sgt', asked, sym) == 1):
                ctx.violation('engine', self.fn, i.line, f, 'stores its maximum in place of a value inside the limits')
        elif not any(strip(x[0]) == sym for x in ins):
            ctx.violation('engine', self.fn, i.line, f, 'does not store the value it was handed')
            return
        for x in ins:
            if strip(x[0]) == sym or cut:
                self.keys.setdefault(key, set()).add((x[1], k, bool(cut)))
                self.seen.setdefault(key, i.line)
        self.limits(an, st, i, f, sym, key)
        self.tok(st, 'done', f)

    def limits(self, an, st, i, f, v, key):
        for kind, arg in self.K['limits'].get(key, ()):
            if kind == 'range':
                lo, hi = st.rng(v)[:2]
                lo = max([lo] + [x[1] for x in self.all(st, 'least') if strip(x[0]) == v])
                ok = lo >= arg[0] and hi <= arg[1]
                txt = '%s..%s' % arg
            elif kind == 'slabs':
                ok = any(strip(x[0]) == v for x in self.all(st, 'slabs'))
                txt = 'what the slab allocator accepted'
            else:
                ok = any(x[0] == arg and any(st.cmpval(p, v, x[1]) == 1 for p in ('u' + kind, 's' + kind)) for x in self.all(st, 'old'))
                if not ok and kind == 'gt' and v[0] == 'c':
                    ok = any(x[0] == arg and st.rng(x[1])[1] < v[1] for x in self.all(st, 'old'))
                txt = kind + ' ' + arg
            self.ctx.count('limits judged, per path')
            if not ok:
                self.ctx.violation('engine', self.fn, i.line, f, 'stores a value of %s that was not found %s' % (key, txt))

    def answer(self, an, st, i, val, key):
        if key is None:
            self.ctx.violation('engine', self.fn, i.line, 'config_value', 'answers no known key')
            return
        sym, k = scale(an.unfold(st, val))
        if not any(x[0] == 'engine_config.' + field(key) and strip(x[1]) == sym for x in self.all(st, 'old')):
            self.ctx.violation('engine', self.fn, i.line, key, 'answers something else than the setting of that key')
            return
        self.keys.setdefault(key, set()).add((i.vt, k, False))
        self.seen.setdefault(key, i.line)
        self.tok(st, 'done', key)

    def ret(self, an, st, i, val):
        self.ctx.count('paths of the engine judged')
        key, done = self.get(st, 'key'), self.get(st, 'done')
        good = not st.known_ne(val, 0)
        bad = not st.known_eq(val, 0)
        verb = 'stored' if self.setter else 'answered'
        if good and bad:
            self.ctx.violation('engine', self.fn, i.line, 'result', 'the result of %s is not decided on a path' % key)
        elif good and not done:
            self.ctx.violation('engine', self.fn, self.fn.line, str(key or 'an unknown key'), 'reports success with nothing %s for %s' % (verb, key or 'an unknown key'))
        elif bad and done:
            self.ctx.violation('engine', self.fn, self.seen.get(key, i.line), str(key), 'reports failure with the setting %s' % verb)


class Dispatch(Keyed):
    """which handler serves which key"""

    def __init__(self, ctx, P, handlers, tok):
        Keyed.__init__(self, ctx, P)
        self.handlers, self.tokval = handlers, tok
        self.found = []

    def call(self, an, st, i, name, args):
        if name == 'strcmp':
            for a in args:
                if self.tokval(a) == 1:
                    r = self.compared(an, st, i, args, a, 'key')
                    if r is not None:
                        return r
        if name in self.handlers:
            self.found.append((self.get(st, 'key'), name, tuple((k, a[1]) for k, a in enumerate(args) if a[0] == 'c'), i.line))
        return None

    def load(self, an, st, i, addr, val):
        self.tokval.load(addr, val)


class Token:
    """values that are the text of a token of the request"""

    def __init__(self):
        self.known = {}

    def load(self, addr, val):
        if addr[0] == 'f' and addr[2].endswith('token_t.value') or addr[0] == 'f' and addr[2].endswith('token_s.value'):
            b = addr[1]
            k = 0
            while b[0] == 'x':
                if b[2][0] != 'c':
                    return
                k += b[2][1]
                b = b[1]
            self.known[val] = k

    def __call__(self, v):
        return self.known.get(v)


class Handler(Keyed):
    """a config handler of the server, for one key"""

    def __init__(self, ctx, P, fn, key, consts, eng, cuts):
        Keyed.__init__(self, ctx, P)
        self.fn, self.key, self.consts = fn, key, dict(consts)
        self.eng_set, self.eng_get = eng
        self.cuts = cuts
        self.tokval = Token()
        self.factors = {'set': set(), 'ask': set()}
        self.sets = False

    def entry(self, an, fn):
        return frozenset()

    def start(self, an, st):
        for k, v in self.consts.items():
            st.narrow(('a', k), v, v)

    def load(self, an, st, i, addr, val):
        self.tokval.load(addr, val)
        m = SET.match(last_field(addr) or '')
        if m:
            self.tok(st, 'have', m.group(1), val)

    def width(self, a):
        d = self.fn.insts.get(a[1]) if a[0] == 'al' else None
        return d.at if d is not None and d.op == 'alloca' else None

    def keyof(self, a):
        if a[0] == 's':
            return a[1].rstrip('\0')
        return self.key if self.tokval(a) == 1 else None

    def call(self, an, st, i, name, args):
        n = name or ''
        if n == 'strcmp':
            for a in args:
                if self.tokval(a) is not None and self.tokval(a) >= 1:
                    r = self.compared(an, st, i, args, a, 'word')
                    if r is not None:
                        return r
        if PARSE.match(n) and len(args) == 2:
            an.effect(st, i, name, args)
            no = st.copy()
            v = ('r', i.id, 1)
            st.mem[args[1]] = v
            st.narrow(st.env[i.id], -INF, INF, frozenset([0]))
            if self.tokval(args[0]) == 2:
                self.tok(st, 'asked', v)
            no.env[i.id] = ('c', 0)
            return [st, no]
        if n in ('vt:engine_interface_v1.set_config', 'vt:engine_interface_v1.get_config'):
            return self.config(an, st, i, n.endswith('set_config'), args)
        if n in ('sprintf', 'snprintf') and not self.setting(st):
            self.query(an, st, i, args[1:] if n == 'sprintf' else args[2:])
        if n == 'out_string' and len(args) == 2 and args[1][0] == 's' and args[1][1].rstrip('\0') == 'END':
            self.tok(st, 'END')
        return None

    def setting(self, st):
        return any(x[0] in ('took', 'refused', 'set') for x in st.prop)

    def config(self, an, st, i, setter, args):
        ctx, table = self.ctx, self.eng_set if setter else self.eng_get
        key, at = self.keyof(args[2]), self.width(args[3])
        what = 'set_config' if setter else 'get_config'
        ctx.count('configuration calls judged')
        if key is None or self.key and key != self.key:
            ctx.violation('server', self.fn, i.line, what, 'asks the engine for %s while serving %s' % (key or 'an unknown key', self.key))
        if key not in table:
            ctx.violation('server', self.fn, i.line, what, 'the engine does not know the key %s' % key)
            return None
        ws = {w for w, k, c in table[key]}
        if ws != {at}:
            ctx.violation('server', self.fn, i.line, what, 'hands over a variable of type %s, the engine uses %s for %s' % (at, '/'.join(sorted(map(str, ws))), key))
        if setter:
            self.sets = True
            v = st.mem.get(args[3])
            sym, k = scale(an.unfold(st, v)) if v is not None else (None, 1)
            word = self.get(st, 'word')
            if sym is not None and (any(strip(x[0]) == sym for x in self.all(st, 'asked')) or
                                    sym[0] == 'c' and (sym[1], word) in ((1, 'on'), (0, 'off'), (-1, 'on'))):
                self.factors['set'].add(k)
            else:
                ctx.violation('server', self.fn, i.line, what, 'does not hand over the value the request gave')
            an.effect(st, i, 'set_config', args)
            if v is not None:
                st.mem[args[3]] = v
            no = st.copy()
            st.env[i.id] = ('c', 0)
            self.tok(st, 'took', v if v is not None else ('c', 0), args[3])
            no.narrow(no.env[i.id], -INF, INF, frozenset([0]))
            self.tok(no, 'refused')
            return [st, no]
        an.effect(st, i, 'get_config', args)
        v = ('r', i.id, 3)
        no = st.copy()
        st.mem[args[3]] = v
        st.env[i.id] = ('c', 0)
        self.tok(st, 'used', key, v)
        if any(x[0] == 'took' for x in st.prop):
            return [st]             # a key that can be set can be read
        no.narrow(no.env[i.id], -INF, INF, frozenset([0]))
        return [st, no]

    def query(self, an, st, i, args):
        """the answer to a query"""
        t = args[0][1].rstrip('\0') if args and args[0][0] == 's' else ''
        if 'END' not in t or len(args) != 2 or not self.key:
            return
        self.ctx.count('answers to queries judged')
        if not t.startswith(self.key + ' '):
            self.ctx.violation('server', self.fn, i.line, 'query', 'answers the query of %s under another name' % self.key)
        sym, k = scale(an.unfold(st, args[1]))
        own = [x[1] for x in self.all(st, 'have') if x[0] == field(self.key)] + [x[1] for x in self.all(st, 'used') if x[0] == self.key]
        if any(strip(x) == sym for x in own):
            self.factors['ask'].add(k)
        elif not ('%s' in t and self.words(st, own, args[1])):
            self.ctx.violation('server', self.fn, i.line, 'query', 'answers something else than the setting %s' % self.key)

    def words(self, st, own, a):
        if a[0] == 's':
            word = a[1].rstrip('\0')
            return any(word == 'on' and st.known_ne(strip(x), 0) or word == 'off' and st.known_eq(strip(x), 0) for x in own)
        return bool(own) and a[0] in ('j', 'i')         # a choice of words, no longer told apart

    def prestore(self, an, st, i, addr, val):
        m = SET.match(last_field(addr) or '')
        if not m:
            return
        f, ctx = m.group(1), self.ctx
        ctx.count('settings stored by the server, per path')
        v = strip(an.unfold(st, val)) if val is not None else None
        used = [x for x in self.all(st, 'used') if field(x[0]) == f]
        took = self.all(st, 'took')
        if self.key and f != field(self.key):
            ctx.violation('server', self.fn, i.line, f, 'changes %s while serving %s' % (f, self.key))
        elif used and v == strip(used[-1][1]):
            self.tok(st, 'set', f)
        elif self.key is None:
            ctx.violation('server', self.fn, i.line, f, 'stores %s from something else than the answer for that key' % f)
        elif self.key in OWN:
            if not any(v == strip(x[0]) for x in self.all(st, 'asked')):
                ctx.violation('server', self.fn, i.line, f, 'stores something else than the value the request gave')
            self.tok(st, 'set', f)
        elif not took:
            ctx.violation('server', self.fn, i.line, f, 'stores %s although the engine did not take the change' % f)
        elif self.key in self.cuts:
            ctx.violation('server', self.fn, i.line, f, 'keeps a value of %s that the engine may have cut' % self.key)
            self.tok(st, 'set', f)
        elif not any(v == strip(x[0]) for x in took) and not any(an.unfold(st, val) == x[0] for x in took):
            ctx.violation('server', self.fn, i.line, f, 'keeps another value of %s than the engine was handed' % self.key)
        else:
            self.tok(st, 'set', f)

    def ret(self, an, st, i, val):
        self.ctx.count('paths of the server judged')
        if self.key is None:
            return
        end, done, took, ref = (any(x[0] == k for x in st.prop) for k in ('END', 'set', 'took', 'refused'))
        local = self.key in OWN
        kept = not self.keeps or done
        ok = done if local else took and kept
        ln = self.fn.line
        if end and not ok:
            self.ctx.violation('server', self.fn, ln, 'END', 'answers END with %s not changed' % self.key)
        if (done or took) and not local and not (took and kept):
            self.ctx.violation('server', self.fn, ln, self.key, 'changes %s in the engine and not in the settings' % self.key)
        if ok and not end:
            self.ctx.violation('server', self.fn, ln, 'END', 'changes %s and does not answer END' % self.key)


def check(ctx, engines, servers, K):
    cuts, sets, gets = set(), {}, {}
    for name, P in engines:
        tabs = []
        for fn, setter in (('default_set_config', True), ('default_get_config', False)):
            f = P.fns[fn]
            c = Engine(ctx, P, f, setter, K)
            Analysis(P, f, c).run()
            tabs.append(c.keys)
            ctx.count('keys decided in the engine', len(c.keys))
        s, g = tabs
        for key in sorted(s):
            f = P.fns['default_get_config']
            if key not in g:
                ctx.violation('engine', f, f.line, key, 'a setting that can be changed cannot be read')
            elif {w for w, k, c in s[key]} != {w for w, k, c in g[key]} or {k for w, k, c in s[key] if not c} != {1 / k for w, k, c in g[key]}:
                ctx.violation('engine', f, f.line, key, 'answers %s in another width or scale than it is set' % key)
            if any(c for w, k, c in s[key]):
                cuts.add(key)
        sets[name], gets[name] = s, g
    for name, P in servers:
        es, eg = sets[name], gets[name]
        calls = {f.name for f in P.fns.values() if f.blocks and any((P.callee(i) or '').endswith(('_v1.set_config', '_v1.get_config')) for i in f.calls())}
        d = P.fns['process_config_command']
        handlers = {P.callee(i) for i in d.calls()} - {None}
        handlers = {h for h in handlers if h in P.fns and (h in calls or any((P.addr_field(P.fns[h], i.p) or '').startswith('settings.') for i in P.fns[h].all() if i.op == 'store'))}
        kept = {m[0] for n in ('settings', '_settings') for m in P.structs.get(n, ())}
        t = Token()
        dc = Dispatch(ctx, P, handlers, t)
        Analysis(P, d, dc).run()
        found = sorted(set(dc.found), key=repr)
        served = set()
        for key, fn, consts, line in found:
            if key is None:
                ctx.violation('server', d, line, fn, 'is called for an unknown key')
                continue
            served.add(fn)
            f = P.fns[fn]
            h = Handler(ctx, P, f, key, consts, (es, eg), cuts)
            h.keeps = field(key) in kept
            Analysis(P, f, h).run()
            ctx.count('keys decided in the server')
            if h.factors['set'] and h.factors['ask'] and {1 / k for k in h.factors['ask']} != h.factors['set']:
                if not key in cuts:
                    ctx.violation('server', f, f.line, key, 'answers the query in another scale than the setting is given')
        for fn in sorted(calls - served):
            f = P.fns[fn]
            h = Handler(ctx, P, f, None, (), (es, eg), cuts)
            h.keeps = False
            Analysis(P, f, h).run()
            ctx.count('functions that load settings')
