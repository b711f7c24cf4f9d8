"""Path-sensitive dataflow over the resolved program (property simulation).

An abstract state is (env, mem, facts, prop):
  env    SSA value        -> symbol
  mem    address symbol   -> symbol
  facts  symbol           -> (lo, hi, excluded constants)
  prop   the property automaton's state, owned by the client (hashable)

Symbols are finite per function (constants, arguments, instructions, field paths over them, short
expressions), branches refine the facts, states that agree are one state, and when a block collects
more states than the cap those with the same prop are joined.  There is no solver: refinement is
interval/exclusion arithmetic on single symbols.
"""
import heapq
from prog import Broken

INF = float('inf')
TOP = (-INF, INF, frozenset())

_ids = {}


def ids_of(s):
    """instruction ids a symbol mentions"""
    r = _ids.get(s)
    if r is None:
        acc = set()
        if isinstance(s, tuple):
            if s and s[0] in ('i', 'r', 'al', 'o', 'j'):
                acc.add(s[1])
            elif s and s[0] in ('c', 's', 'a', 'g', 'u', 'n'):
                pass
            else:
                for x in s[1:] if (s and isinstance(s[0], str)) else s:
                    if isinstance(x, (tuple, frozenset)):
                        acc |= ids_of(x)
        elif isinstance(s, frozenset):
            for x in s:
                acc |= ids_of(x)
        r = frozenset(acc)
        _ids[s] = r
    return r


def subst(s, f):
    """rewrite the leaf symbols of s with f(leaf) -> leaf"""
    if isinstance(s, tuple):
        if s and isinstance(s[0], str):
            h = s[0]
            if h in ('i', 'r', 'o', 'j'):
                return f(s)
            if h in ('c', 's', 'a', 'g', 'u', 'n', 'al'):
                return s
            return (h,) + tuple(subst(x, f) if isinstance(x, (tuple, frozenset)) else x for x in s[1:])
        return tuple(subst(x, f) if isinstance(x, (tuple, frozenset)) else x for x in s)
    if isinstance(s, frozenset):
        return frozenset(subst(x, f) for x in s)
    return s


def depth(s):
    if not isinstance(s, tuple):
        return 0
    return 1 + max([depth(x) for x in s[1:]] + [0])


def root(a):
    while a[0] in ('f', 'x'):
        a = a[1]
    return a


def last_field(a):
    while a[0] in ('f', 'x'):
        if a[0] == 'f':
            return a[2]
        a = a[1]
    return None


def weak(s):
    """a summary symbol may stand for several values"""
    if isinstance(s, tuple):
        if s and s[0] == 'o':
            return s[2] > 2
        if s and s[0] in ('c', 's', 'a', 'g', 'u', 'n', 'al', 'i', 'r', 'j'):
            return False
        return any(weak(x) for x in s[1:] if isinstance(x, tuple))
    return False


def fmt(s):
    """human-readable symbol"""
    if not isinstance(s, tuple) or not s:
        return str(s)
    k = s[0]
    if k == 'c':
        return str(s[1])
    if k == 's':
        return repr(s[1])
    if k == 'a':
        return 'arg%d' % s[1]
    if k == 'g':
        return s[1]
    if k in ('i', 'o'):
        return 'value#%d' % s[1]
    if k == 'r':
        return 'out%d#%d' % (s[2], s[1])
    if k == 'f':
        return '%s->%s' % (fmt(s[1]), s[2].split('.')[-1])
    if k == 'x':
        return '%s[%s]' % (fmt(s[1]), fmt(s[2]))
    if k == 'al':
        return 'local#%d' % s[1]
    if k == 'cmp':
        return '(%s %s %s)' % (fmt(s[2]), s[1], fmt(s[3]))
    if k == 'bin':
        return '(%s %s %s)' % (fmt(s[2]), s[1], fmt(s[3]))
    return str(s)


class State:
    __slots__ = ('env', 'mem', 'facts', 'prop', 'trace')

    def __init__(self, env, mem, facts, prop, trace=None):
        self.env = env
        self.mem = mem
        self.facts = facts
        self.prop = prop
        self.trace = trace

    def copy(self):
        return State(dict(self.env), dict(self.mem), dict(self.facts), self.prop, self.trace)

    def key(self):
        return (self.prop, frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.facts.items()))

    # ---- facts
    def rng(self, s):
        k = s[0]
        if k == 'c':
            return (s[1], s[1], frozenset())
        f = self.facts.get(s)
        if f is not None:
            return f
        if k in ('g', 's', 'al', 'n'):
            return (1, INF, frozenset())
        if k in ('f', 'x'):
            return (1, INF, frozenset())
        if k == 'cmp':
            v = self.cmpval(s[1], s[2], s[3])
            if v is None:
                return (0, 1, frozenset())
            return (v, v, frozenset())
        if k == 'bin' and s[1] == 'and' and s[3][0] == 'c' and s[3][1] >= 0:
            lo, hi, ex = self.rng(s[2])
            if lo == hi and hi != INF and lo >= 0 and isinstance(lo, int):
                v = lo & s[3][1]
                return (v, v, frozenset())
            return (0, s[3][1], frozenset())
        if k == 'bin' and s[1] in ('add', 'sub') and s[3][0] == 'c':
            lo, hi, ex = self.rng(s[2])
            d = s[3][1] if s[1] == 'add' else -s[3][1]
            if lo != -INF and hi != INF:
                return (lo + d, hi + d, frozenset(e + d for e in ex))
            return TOP
        if k == 'zx':
            return (0, (1 << s[1]) - 1, frozenset())
        return TOP

    def const(self, s):
        lo, hi, ex = self.rng(s)
        if lo == hi:
            return lo
        return None

    def cmpval(self, p, a, b):
        """1/0/None"""
        if a == b and not weak(a):
            return 1 if p in ('eq', 'sle', 'sge', 'ule', 'uge') else 0
        f = self.facts.get(('cmp', p, a, b))
        if f is not None and f[0] == f[1]:
            return f[0]
        if a[0] != 'c' and b[0] != 'c' and not weak(a) and not weak(b):
            r = self.related(p, a, b)
            if r is not None:
                return r
        al, ah, ax = self.rng(a)
        bl, bh, bx = self.rng(b)
        if p in ('eq', 'ne'):
            r = None
            if al == ah and bl == bh:
                r = 1 if al == bl else 0
            elif ah < bl or bh < al:
                r = 0
            elif al == ah and al in bx:
                r = 0
            elif bl == bh and bl in ax:
                r = 0
            elif a[0] in ('al', 's') and b[0] in ('al', 's') and a != b:
                r = 0
            if r is None:
                return None
            return r if p == 'eq' else 1 - r
        if p[0] == 'u' and (al < 0 or bl < 0):
            # unsigned comparison: only meaningful on known non-negative ranges
            if bl == bh == 0:
                return {'ult': 0, 'uge': 1}.get(p)
            return None
        q = p[1:]
        if q == 'lt':
            return 1 if ah < bl else (0 if al >= bh else None)
        if q == 'le':
            return 1 if ah <= bl else (0 if al > bh else None)
        if q == 'gt':
            return 1 if al > bh else (0 if ah <= bl else None)
        if q == 'ge':
            return 1 if al >= bh else (0 if ah < bl else None)
        return None

    SWAP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge',
            'uge': 'ule', 'eq': 'eq', 'ne': 'ne'}
    # what a true fact q(a, b) says about p(a, b)
    IMPL = {('slt', 'eq'): 0, ('slt', 'ne'): 1, ('slt', 'sle'): 1, ('slt', 'sgt'): 0, ('slt', 'sge'): 0,
            ('sgt', 'eq'): 0, ('sgt', 'ne'): 1, ('sgt', 'sge'): 1, ('sgt', 'slt'): 0, ('sgt', 'sle'): 0,
            ('ult', 'eq'): 0, ('ult', 'ne'): 1, ('ult', 'ule'): 1, ('ult', 'ugt'): 0, ('ult', 'uge'): 0,
            ('ugt', 'eq'): 0, ('ugt', 'ne'): 1, ('ugt', 'uge'): 1, ('ugt', 'ult'): 0, ('ugt', 'ule'): 0,
            ('eq', 'ne'): 0, ('eq', 'sle'): 1, ('eq', 'sge'): 1, ('eq', 'ule'): 1, ('eq', 'uge'): 1,
            ('eq', 'slt'): 0, ('eq', 'sgt'): 0, ('eq', 'ult'): 0, ('eq', 'ugt'): 0, ('ne', 'eq'): 0,
            ('sle', 'sgt'): 0, ('sge', 'slt'): 0, ('ule', 'ugt'): 0, ('uge', 'ult'): 0}

    def related(self, p, a, b):
        known = set()
        for q in ('eq', 'ne', 'slt', 'sgt', 'ult', 'ugt', 'sle', 'sge', 'ule', 'uge'):
            for x, y, m in ((a, b, p), (b, a, self.SWAP[p])):
                f = self.facts.get(('cmp', q, x, y))
                if f is None or f[0] != f[1]:
                    continue
                t = q if f[0] == 1 else self.NEG[q]
                if t == m:
                    return 1
                r = self.IMPL.get((t, m))
                if r is not None:
                    return r
                known.add(t if (x, y) == (a, b) else self.SWAP[t])
        if len(known) > 1:
            for g in 'us':
                le, ge, ne = g + 'le' in known, g + 'ge' in known, 'ne' in known
                for t in ((['eq'] if le and ge else []) + ([g + 'lt'] if le and ne else []) + ([g + 'gt'] if ge and ne else [])):
                    if t == p:
                        return 1
                    r = self.IMPL.get((t, p))
                    if r is not None:
                        return r
        return None

    def narrow(self, s, lo, hi, ex=frozenset()):
        if s[0] == 'c':
            return lo <= s[1] <= hi and s[1] not in ex
        l0, h0, x0 = self.rng(s)
        l = max(lo, l0)
        h = min(hi, h0)
        x = x0 | ex
        while l in x and l <= h:
            l += 1
        while h in x and h >= l:
            h -= 1
        if l > h:
            return False
        x = frozenset(e for e in x if l < e < h)
        if len(x) > 12:
            x = frozenset(sorted(x)[:12])
        if (l, h, x) != (l0, h0, x0) or s in self.facts:
            self.facts[s] = (l, h, x)
        # propagate into the expression
        if s[0] == 'cmp' and l == h:
            return self.assume(s, l == 1)
        return True

    NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge',
           'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}

    def assume(self, s, truth):
        """assume boolean symbol s; returns False when infeasible"""
        if s[0] == 'cmp':
            p, a, b = s[1], s[2], s[3]
            v = self.cmpval(p, a, b)
            if v is not None and v != (1 if truth else 0):
                return False
            q = p if truth else self.NEG[p]
            ok = self._assume_cmp(q, a, b)
            if not ok:
                return False
            if a[0] != 'c' and b[0] != 'c':
                self.facts[s] = (1, 1, frozenset()) if truth else (0, 0, frozenset())
            return True
        if s[0] == 'not':
            return self.assume(s[1], not truth)
        if s[0] == 'bin' and s[1] == 'and' and truth and self._bool(s[2]) and self._bool(s[3]):
            return self.assume(s[2], True) and self.assume(s[3], True)
        if s[0] == 'bin' and s[1] == 'or' and not truth and self._bool(s[2]) and self._bool(s[3]):
            return self.assume(s[2], False) and self.assume(s[3], False)
        if truth:
            return self.narrow(s, -INF, INF, frozenset([0]))
        return self.narrow(s, 0, 0)

    def _bool(self, s):
        return s[0] in ('cmp', 'not') or (s[0] == 'c' and s[1] in (0, 1))

    def _assume_cmp(self, p, a, b):
        al, ah, ax = self.rng(a)
        bl, bh, bx = self.rng(b)
        if p == 'eq':
            # equality with a boolean expression constant propagates into it
            if bl == bh and a[0] in ('cmp', 'not') and bl in (0, 1):
                return self.assume(a, bl == 1)
            if al == ah and b[0] in ('cmp', 'not') and al in (0, 1):
                return self.assume(b, al == 1)
            return self.narrow(a, bl, bh, bx) and self.narrow(b, al, ah, ax)
        if p == 'ne':
            if bl == bh:
                if a[0] in ('cmp', 'not') and bl in (0, 1):
                    return self.assume(a, bl == 0)
                return self.narrow(a, -INF, INF, frozenset([bl]))
            if al == ah:
                if b[0] in ('cmp', 'not') and al in (0, 1):
                    return self.assume(b, al == 0)
                return self.narrow(b, -INF, INF, frozenset([al]))
            return True
        if p[0] == 'u':
            # x <u c : 0 <= x < c when c is a known non-negative constant
            q = p[1:]
            if q in ('lt', 'le') and bl >= 0 and bh != INF:
                if not self.narrow(a, 0, bh - (1 if q == 'lt' else 0)):
                    return False
            if q in ('gt', 'ge') and al >= 0 and ah != INF:
                if not self.narrow(b, 0, ah - (1 if q == 'gt' else 0)):
                    return False
            if q in ('gt', 'ge') and bl >= 0 and al >= 0:
                return self.narrow(a, bl + (1 if q == 'gt' else 0), INF)
            if q == 'gt' and bl == bh == 0:
                return self.narrow(a, -INF, INF, frozenset([0]))
            if q in ('lt', 'le') and al >= 0 and bl >= 0:
                return self.narrow(b, al + (1 if q == 'lt' else 0), INF)
            return True
        q = p[1:]
        if q == 'lt':
            return self.narrow(a, -INF, bh - 1) and self.narrow(b, al + 1, INF)
        if q == 'le':
            return self.narrow(a, -INF, bh) and self.narrow(b, al, INF)
        if q == 'gt':
            return self.narrow(a, bl + 1, INF) and self.narrow(b, -INF, ah - 1)
        if q == 'ge':
            return self.narrow(a, bl, INF) and self.narrow(b, -INF, ah)
        return True

    def known_eq(self, s, v):
        lo, hi, ex = self.rng(s)
        return lo == hi == v

    def known_ne(self, s, v):
        lo, hi, ex = self.rng(s)
        return v < lo or v > hi or v in ex

    # ---- memory
    def load(self, addr, inst):
        v = self.mem.get(addr)
        if v is None:
            v = ('i', inst.id)
            self.mem[addr] = v
        return v

    def kill_alias(self, addr, val=None):
        """forget cells that may be overwritten by a store of val to addr"""
        if addr[0] == 'al':
            return
        r = root(addr)
        ra = r[0] == 'al'
        lf = last_field(addr)
        dead = []
        for k, old in self.mem.items():
            if k == addr or (old == val and val is not None and val[0] != 'u' and last_field(k) == lf):
                continue
            rk = root(k)
            if (ra or rk[0] == 'al') and rk != r:
                continue  # different storage unless the alloca escaped; assumption: typed disjointness
            if addr[0] == 'f':
                if k[0] == 'f' and k[2] == addr[2] and (rk != r or k[1] != addr[1]):
                    if not (rk[0] == 'g' and r[0] == 'g' and rk != r):
                        dead.append(k)
            elif addr[0] == 'x':
                if last_field(k) == lf and k[0] == 'x':
                    if k[1] == addr[1] and k[2][0] == 'c' and addr[2][0] == 'c':
                        continue
                    dead.append(k)
            else:
                if k[0] not in ('f', 'x', 'al', 'g') and addr[0] not in ('g',):
                    dead.append(k)
        for k in dead:
            del self.mem[k]

    def store(self, addr, val):
        self.kill_alias(addr, val)
        self.mem[addr] = val

    def kill_root(self, base):
        """forget every cell inside the object at base"""
        dead = [k for k in self.mem if k == base or inside(k, base)]
        for k in dead:
            del self.mem[k]

    def kill_fields(self, fields):
        if not fields:
            return
        dead = []
        for k in self.mem:
            if k[0] == 'al':
                continue
            if root(k)[0] == 'al' and k[0] != 'f':
                continue
            f = last_field(k)
            if f is None:
                if k[0] == 'g' and ('G:' + k[1]) in fields:
                    dead.append(k)
                elif k[0] not in ('g', 'al') and '*' in fields:
                    dead.append(k)
                elif k[0] == 'x' and root(k)[0] == 'g' and ('G:' + root(k)[1]) in fields:
                    dead.append(k)
            elif f in fields and root(k)[0] != 'al':
                dead.append(k)
        for k in dead:
            del self.mem[k]


def inside(k, base):
    while k[0] in ('f', 'x'):
        k = k[1]
        if k == base:
            return True
    return False


PURE = set('''strlen strcmp strncmp memcmp strchr strrchr isspace isdigit strstr atoi atoll strtol strtoul strtoull
toupper tolower htonl htons ntohl ntohs htonll ntohll __ctype_b_loc __errno_location time gettimeofday fprintf printf
abort exit __assert_fail pthread_self rand random srand vperror perror usleep sleep select poll
pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_cond_signal pthread_cond_broadcast
strerror fputs fflush fputc puts getpid'''.split())


class Client:
    """property automaton; override what is needed"""
    cap = 24
    total_cap = 160
    keep_mem = True
    keep_old = False     # follow a single value carried over many loop iterations exactly
    fields_of_interest = None  # restrict remembered cells to these field names (None = all)

    def entry(self, an, fn):
        return frozenset()

    def start(self, an, st):
        """what is known where the function begins"""

    def call(self, an, st, i, name, args):
        """return None for default treatment, or a list of states (already updated)"""
        return None

    def store(self, an, st, i, addr, val):
        pass

    def prestore(self, an, st, i, addr, val):
        pass

    def load(self, an, st, i, addr, val):
        pass

    def ret(self, an, st, i, val):
        pass

    def branch(self, an, st, i, cond, truth):
        pass

    value = None         # value(an, st, i): called after a computation (bin, cast)
    phis = None          # phis(an, st, b, prev): called when a block is entered, before old iterations are folded

    def merge_old(self, an, st, ids):
        """called when symbols of a finished loop iteration are folded; returns prop"""
        return st.prop

    def live_syms(self, prop):
        return ()


class Analysis:
    """runs a client over one function"""

    def __init__(self, prog, fn, client, modsets=True):
        self.prog = prog
        self.fn = fn
        self.client = client
        self.mods = prog.modsets() if modsets else {}
        self.esz = {}       # element size of each indexed address
        self.loop = fn.loop_insts()
        self.live = fn.live_in()
        self._loops()
        self.nstates = 0
        self.nmerge = 0
        self.rets = 0
        self._callee = {}

    # ---- loops
    def _loops(self):
        fn = self.fn
        n = len(fn.blocks)
        order = []
        state = [0] * n
        back = []
        st = [(0, iter(fn.succs[0]))]
        state[0] = 1
        while st:
            v, it = st[-1]
            adv = False
            for w in it:
                if state[w] == 0:
                    state[w] = 1
                    st.append((w, iter(fn.succs[w])))
                    adv = True
                    break
                elif state[w] == 1:
                    back.append((v, w))
            if not adv:
                state[v] = 2
                order.append(v)
                st.pop()
        order.reverse()
        self.rpo = {b: k for k, b in enumerate(order)}
        self.back = {}
        for u, h in back:
            body = {h}
            w = [u]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w += fn.preds[x]
            ids = frozenset(i.id for b in body for i in fn.blocks[b])
            self.back[(u, h)] = ids

    # ---- values
    def val(self, st, o):
        k = o[0]
        if k == 'i':
            v = st.env.get(o[1])
            if v is None:
                v = ('i', o[1])
            return v
        if k in ('c', 's', 'a'):
            return o
        if k == 'g':
            return o
        if k == 'F':
            return self.addr(st, self.val(st, o[1]), o[2])
        if k == 'n':
            return ('c', 0)
        return ('u',)

    def addr(self, st, base, steps, sizes=None):
        for n, s in enumerate(steps):
            if isinstance(s, str):
                base = ('f', base, s)
            else:
                ix = self.val(st, s[1])
                if base[0] == 'x' and not any(isinstance(q, str) for q in steps):
                    pass
                base = ('x', base, ix)
                if sizes and self.esz.setdefault(base, sizes[n]) != sizes[n]:
                    self.esz[base] = None       # pointers of two types
        if depth(base) > 9:
            return None
        return base

    def caddr(self, a):
        """offset 0 of a global struct is its first member"""
        if a is not None and a[0] == 'g':
            for f in self.prog.first_field(a[1], self.fn.stem):
                a = ('f', a, f)
        return a

    # ---- driver
    def unfold(self, st, v):
        """a sum made inside a loop is kept as its instruction: show the operands"""
        if v is not None and v[0] == 'i':
            i = self.fn.insts[v[1]]
            if i.op == 'bin':
                x, y = self.val(st, i.a), self.val(st, i.b)
                return ('bin', i.k, x, y) if x[0] != 'c' or i.k == 'sub' else ('bin', i.k, y, x)
        return v

    def run(self):
        fn, cl = self.fn, self.client
        st = State({}, {}, {}, cl.entry(self, fn))
        cl.start(self, st)
        self.seen = {}
        self.wide = {}
        self.decide = None
        self.pend = {0: [(None, st)]}
        self.heap = [(0, 0)]
        queued = {0}
        self.queued = queued
        while self.heap:
            _, b = heapq.heappop(self.heap)
            queued.discard(b)
            for prev, s in self.collect(b):
                self.block(b, s)
        return self

    def collect(self, b):
        states = self.pend.pop(b, [])
        seen = self.seen.setdefault(b, {})
        new = {}
        for prev, s in states:
            k = s.key()
            if k in seen or k in new:
                continue
            new[k] = (prev, s)
        if not new:
            return []
        cap = self.client.cap
        if len(new) > cap or len(seen) + len(new) > self.client.total_cap:
            groups = {}
            for k, (p, s) in new.items():
                groups.setdefault((s.prop,) + (() if len(seen) + len(new) > self.client.total_cap else tuple(self.decided(s, s.env.get(v)) for v in self.deciders(b))), []).append((p, s))
            res = {}
            lim = max(1, cap // max(1, len(groups)))
            wide = len(seen) + len(new) > self.client.total_cap
            for pr, lst in groups.items():
                if not wide and len(lst) <= lim:
                    for p, s in lst:
                        res[s.key()] = (p, s)
                    continue
                w = self.wide.get((b, pr))
                if wide and w is not None:
                    s = self.join([w] + [x for _, x in lst], b, True)
                else:
                    s = self.join([x for _, x in lst], b)
                if wide:
                    self.wide[(b, pr)] = s
                self.nmerge += 1
                res[s.key()] = (lst[0][0], s)
            new = {k: v for k, v in res.items() if k not in seen}
        for k in new:
            seen[k] = True
        if len(seen) > 6000:
            raise Broken('state explosion in %s' % self.fn.name)
        return list(new.values())

    @staticmethod
    def decided(st, v):
        if v is None:
            return None
        lo, hi, _ = st.rng(v)
        return lo if lo == hi and lo in (0, 1) else None

    def deciders(self, b):
        """the phis of a block a later branch is decided by: ways with different constants for them are not joined"""
        if self.decide is None:
            hit, todo = set(), [i.c for l in self.fn.blocks for i in l[-1:] if i.op == 'br' and i.c]
            while todo:
                o = todo.pop()
                if not o or o[0] != 'i' or o[1] in hit:
                    continue
                i = self.fn.insts[o[1]]
                if i.op == 'phi':
                    hit.add(o[1])
                    todo += list(i.phi.values())
                elif i.op in ('icmp', 'cast') or i.op == 'bin' and i.k in ('and', 'or', 'xor'):
                    hit.add(o[1])
                    todo += [i.a, i.b]
            heads = {s for _, s in self.back}
            self.decide = {}
            for n, l in enumerate(self.fn.blocks):
                if n not in heads:
                    self.decide[n] = [i.id for i in l if i.op == 'phi' and i.id in hit and i.ty in ('i1', 'i8', 'i32')]
        return self.decide.get(b, ())

    def join(self, lst, b, widen=False):
        a = lst[0].copy()
        for s in lst[1:]:
            for k in list(a.env):
                v = s.env.get(k)
                if v != a.env[k]:
                    n = ('j', k, b)
                    va, vb = a.env[k], v
                    if vb is None:
                        del a.env[k]
                        continue
                    ra, rb = a.rng(va), s.rng(vb)
                    a.env[k] = n
                    h = (min(ra[0], rb[0]), max(ra[1], rb[1]), self.exmeet(ra, rb))
                    if widen and va == n and h != ra:
                        h = TOP
                    if h != TOP:
                        a.facts[n] = h
                    else:
                        a.facts.pop(n, None)
            for k in list(a.mem):
                if s.mem.get(k) != a.mem[k]:
                    del a.mem[k]
            for k in list(a.facts):
                if k[0] == 'j' and k in a.env.values() and k not in s.facts and k not in s.env.values():
                    continue
                f = s.rng(k)
                g = a.facts[k]
                if f != g:
                    if widen:
                        del a.facts[k]
                        continue
                    h = (min(f[0], g[0]), max(f[1], g[1]), self.exmeet(f, g))
                    if h == TOP:
                        del a.facts[k]
                    else:
                        a.facts[k] = h
        return a

    @staticmethod
    def exmeet(f, g):
        r = set()
        for e in f[2]:
            if e in g[2] or e < g[0] or e > g[1]:
                r.add(e)
        for e in g[2]:
            if e < f[0] or e > f[1]:
                r.add(e)
        # a value just outside both ranges is excluded when the hull covers it
        lo, hi = min(f[0], g[0]), max(f[1], g[1])
        for x, y in ((f, g), (g, f)):
            if x[1] < y[0]:
                c = x[1] + 1
                while c < y[0] and c - x[1] <= 4:
                    if lo < c < hi:
                        r.add(c)
                    c += 1
                if lo <= 0 <= hi and x[1] < 0 < y[0]:
                    r.add(0)
        return frozenset(e for e in r if lo < e < hi)

    def push(self, b, prev, st):
        st = self.enter(b, prev, st)
        if st is None:
            return
        self.pend.setdefault(b, []).append((prev, st))
        if b not in self.queued:
            self.queued.add(b)
            heapq.heappush(self.heap, (self.rpo.get(b, 1 << 30), b))

    def enter(self, b, prev, st):
        """evaluate phis, prune by liveness, fold old iterations"""
        fn = self.fn
        st = st.copy()
        if st.trace is not None:
            pass
        phis = []
        for i in fn.blocks[b]:
            if i.op != 'phi':
                break
            phis.append((i.id, self.val(st, i.phi[prev])))
        if self.client.phis is not None:
            self.client.phis(self, st, b, prev)
        for k, v in phis:
            st.env[k] = v
        live = self.live[b]
        pid = {k for k, _ in phis}
        for k in list(st.env):
            if k not in live and k not in pid:
                del st.env[k]
        ids = self.back.get((prev, b))
        if ids:
            self.fold(st, ids)
        self.prune(st)
        return st

    def fold(self, st, ids):
        def has(s):
            return bool(ids_of(s) & ids)

        # a value known to be a constant is that constant, whatever iteration it came from
        const = {k: v[0] for k, v in st.facts.items() if v[0] == v[1] and k[0] in ('i', 'r', 'o', 'j') and k[1] in ids}
        # current iteration -> o1, o1 -> o2
        def f(leaf):
            if leaf[1] not in ids:
                return leaf
            if leaf in const:
                return ('c', const[leaf])
            if leaf[0] == 'o':
                if leaf[2] == 1:
                    return ('o', leaf[1], older, leaf[3])
                if leaf[2] == 2 and ('o', leaf[1], 1, leaf[3]) in present:
                    return ('o', leaf[1], 3, leaf[3])
                return leaf
            return ('o', leaf[1], 1, tag(leaf))

        older = 2 if self.client.keep_old else 3

        def tag(leaf):
            return -2 - leaf[2] if leaf[0] == 'j' else leaf[2] if leaf[0] == 'r' else -1
        present = set()

        def note(leaf):
            present.add(leaf)
            return leaf
        for v in list(st.env.values()) + list(st.mem) + list(st.mem.values()) + [st.prop]:
            if has(v):
                subst(v, note)
        st.prop = self.client.merge_old(self, st, ids)
        st.env = {k: (subst(v, f) if has(v) else v) for k, v in st.env.items()}
        mem = {}
        for k, v in st.mem.items():
            nk = subst(k, f) if has(k) else k
            nv = subst(v, f) if has(v) else v
            if weak(nk):
                continue
            mem[nk] = nv
        st.mem = mem
        facts = {}
        weakened = set()
        for k, v in st.facts.items():
            nk = subst(k, f) if has(k) else k
            if nk in facts:
                g = facts[nk]
                h = (min(v[0], g[0]), max(v[1], g[1]), self.exmeet(v, g))
                facts[nk] = h
            else:
                facts[nk] = v
        # a weak symbol's fact must hold for all it stands for
        for k in list(facts):
            if weak(k):
                del facts[k]
        st.facts = facts
        st.prop = subst(st.prop, f)

    def prune(self, st):
        """drop facts and cells that nothing live can mention"""
        roots = set()
        for v in st.env.values():
            roots.add(v)
        for v in self.client.live_syms(st.prop):
            roots.add(v)
        live_ids = set()
        for v in roots:
            live_ids |= ids_of(v)
        livev = self.livealloc()
        changed = True
        # cells stay while their address is expressible: rooted at args, globals, allocas or live values
        keep = {}
        work = True
        pend = dict(st.mem)
        foi = self.client.fields_of_interest
        while work:
            work = False
            for k in list(pend):
                r = root(k)
                ids = ids_of(k)
                # index symbols inside the address count too
                ok = ids - livev <= live_ids
                if foi is not None and r[0] != 'al':
                    lf = last_field(k)
                    if (lf or ('G:' + k[1] if k[0] == 'g' else None)) not in foi:
                        ok = False
                if ok:
                    v = pend.pop(k)
                    keep[k] = v
                    n = ids_of(v) - live_ids
                    if n:
                        live_ids |= n
                        work = True
        # a cell whose value is an unconstrained load carries no information unless the value is live elsewhere
        st.mem = keep
        st.facts = {k: v for k, v in st.facts.items() if ids_of(k) - livev <= live_ids}

    def livealloc(self):
        if not hasattr(self, '_la'):
            self._la = frozenset(i.id for i in self.fn.all() if i.op == 'alloca')
        return self._la

    def callee(self, i):
        c = self._callee.get(i.id)
        if c is None:
            c = self.prog.callee(i) or ''
            self._callee[i.id] = c
        return c

    # ---- execution
    def block(self, b, st):
        fn = self.fn
        states = [st.copy()]
        self.nstates += 1
        for i in fn.blocks[b]:
            o = i.op
            if o == 'phi':
                continue
            if o in ('br', 'switch', 'ret'):
                for s in states:
                    self.term(b, i, s)
                return
            nxt = []
            for s in states:
                r = self.step(i, s)
                if r is True:
                    if self.client.value is not None and o in ('bin', 'cast'):
                        self.client.value(self, s, i)
                    nxt.append(s)
                elif r:
                    nxt += r
            states = nxt
            if not states:
                return
        # unreachable terminator: path ends (abort, assert failure)

    def term(self, b, i, st):
        o = i.op
        if o == 'ret':
            self.rets += 1
            self.client.ret(self, st, i, self.val(st, i.v) if i.v is not None else None)
        elif o == 'br':
            if i.c is None:
                self.push(i.dst[0], b, st)
            else:
                c = self.val(st, i.c)
                for truth, d in ((True, i.dst[0]), (False, i.dst[1])):
                    s = st.copy()
                    if c[0] == 'u' or (s.assume(c, truth) and self.induct(s, i, c, truth)):
                        if self.client.branch(self, s, i, c, truth) is not False:
                            self.push(d, b, s)
        else:
            c = self.val(st, i.c)
            vals = [v for v, _ in i.cases]
            bydst = {}
            for v, d in i.cases:
                s = st.copy()
                if s.narrow(c, v, v) if c[0] != 'u' else True:
                    self.push(d, b, s)
            s = st.copy()
            if c[0] == 'u' or s.narrow(c, -INF, INF, frozenset(vals)):
                self.push(i.deflt, b, s)

    def induct(self, st, i, c, truth):
        """a counter that starts at a constant <= bound and steps by one leaves `counter < bound` at bound"""
        if truth or c[0] != 'cmp' or c[1] not in ('slt', 'ult', 'ne') or i.c[0] != 'i':
            return True
        t = self.fn.insts.get(i.c[1])
        if t is None or t.op != 'icmp' or t.a[0] != 'i':
            return True
        ph = self.fn.insts.get(t.a[1])
        if ph is None or ph.op != 'phi':
            return True
        init = None
        for v in ph.phi.values():
            if v[0] == 'c':
                if init is not None:
                    return True
                init = v[1]
            elif v[0] == 'i':
                a = self.fn.insts.get(v[1])
                if a is None or a.op != 'bin' or a.k != 'add' or a.a != ('i', ph.id) or a.b != ('c', 1):
                    return True
            else:
                return True
        if init is None:
            return True
        lo, hi, ex = st.rng(c[3])
        if lo >= init:
            return st.assume(('cmp', 'eq', c[2], c[3]), True)
        return True

    BITS = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}

    def step(self, i, st):
        o = i.op
        if o == 'load':
            a = self.caddr(self.val(st, i.p))
            if a is None or a[0] == 'u':
                st.env[i.id] = ('i', i.id)
                return True
            v = st.load(a, i)
            st.env[i.id] = v
            self.client.load(self, st, i, a, v)
            return True
        if o == 'store':
            a = self.caddr(self.val(st, i.p))
            v = self.val(st, i.v)
            if a is not None and a[0] != 'u':
                self.client.prestore(self, st, i, a, v)
                st.store(a, v if v is not None else ('u',))
                self.client.store(self, st, i, a, v)
                if v is None or v == ('u',):
                    st.mem.pop(a, None)
            return True
        if o == 'gep':
            base = self.val(st, i.p)
            if base is None or base == ('u',):
                st.env[i.id] = ('i', i.id)
                return True
            a = self.addr(st, base, i.steps, i.sizes)
            if a is None or (i.id in self.loop and i.p[0] == 'i' and not i.steps):
                a = ('i', i.id)
            # pointer stepping inside loops must not grow without bound
            if i.id in self.loop and base[0] == 'x':
                a = ('i', i.id) if not any(isinstance(s, str) for s in i.steps) and i.p[0] == 'i' and \
                    self.fn.insts[i.p[1]].op in ('phi',) else a
            st.env[i.id] = a
            return True
        if o == 'icmp':
            a, b = self.val(st, i.a), self.val(st, i.b)
            if a == ('u',) or b == ('u',) or depth(a) > 9 or depth(b) > 9:
                st.env[i.id] = ('i', i.id)
                return True
            v = st.cmpval(i.pred, a, b)
            st.env[i.id] = ('c', v) if v is not None else ('cmp', i.pred, a, b)
            return True
        if o == 'cast':
            a = self.val(st, i.a)
            if a == ('u',):
                a = ('i', i.id)
            k = i.k
            if k in ('zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
                if k == 'sext' and i.v == 'i1' and a[0] == 'c':
                    a = ('c', -a[1])
                if k == 'zext' and a[0] == 'c' and a[1] < 0:
                    a = ('c', a[1] & ((1 << self.BITS.get(i.v, 64)) - 1))
                st.env[i.id] = a
            elif k == 'trunc':
                if i.ty == 'i1':
                    st.env[i.id] = a
                elif a[0] == 'c':
                    bits = self.BITS.get(i.ty, 64)
                    v = a[1] & ((1 << bits) - 1)
                    if v >= 1 << (bits - 1):
                        v -= 1 << bits
                    st.env[i.id] = ('c', v)
                else:
                    lo, hi, ex = st.rng(a)
                    bits = self.BITS.get(i.ty, 64)
                    if lo >= 0 and hi < (1 << bits):
                        st.env[i.id] = a
                    else:
                        st.env[i.id] = ('tr', bits, a) if depth(a) < 7 else ('i', i.id)
            else:
                st.env[i.id] = ('i', i.id)
            return True
        if o == 'bin':
            a, b = self.val(st, i.a), self.val(st, i.b)
            k = i.k
            ca, cb = (st.const(a) if a[0] != 'u' else None), (st.const(b) if b[0] != 'u' else None)
            if a == ('u',) or b == ('u',):
                st.env[i.id] = ('i', i.id)
                return True
            if k == 'xor' and cb in (1, True, -1) and i.ty == 'i1':
                if ca is not None:
                    st.env[i.id] = ('c', 0 if ca else 1)
                elif a[0] == 'cmp':
                    st.env[i.id] = ('cmp', State.NEG[a[1]], a[2], a[3])
                else:
                    st.env[i.id] = ('cmp', 'eq', a, ('c', 0))
                return True
            inloop = i.id in self.loop
            if ca is not None and cb is not None and isinstance(ca, int) and isinstance(cb, int) and \
                    (not inloop or k in ('and', 'or', 'xor')):
                v = None
                if k == 'add':
                    v = ca + cb
                elif k == 'sub':
                    v = ca - cb
                elif k == 'mul':
                    v = ca * cb
                elif k == 'and':
                    v = ca & cb
                elif k == 'or':
                    v = ca | cb
                elif k == 'xor':
                    v = ca ^ cb
                elif k == 'shl' and 0 <= cb < 64:
                    v = ca << cb
                elif k in ('lshr', 'ashr') and ca >= 0 and 0 <= cb < 64:
                    v = ca >> cb
                if v is not None:
                    st.env[i.id] = ('c', v)
                    return True
            if k in ('add', 'or', 'sub', 'shl') and cb == 0:
                st.env[i.id] = a
                return True
            if k == 'and' and (ca == 0 or cb == 0):
                st.env[i.id] = ('c', 0)
                return True
            if k == 'or' and (ca == 0):
                st.env[i.id] = b
                return True
            if depth(a) > 5 or depth(b) > 5 or (inloop and k in ('add', 'sub', 'mul', 'shl')):
                st.env[i.id] = ('i', i.id)
                st.facts.pop(('i', i.id), None)
                return True
            if ca is not None and a[0] != 'c':
                a = ('c', ca)
            if cb is not None and b[0] != 'c':
                b = ('c', cb)
            if k in ('and', 'or', 'add', 'mul', 'xor') and a[0] == 'c':
                a, b = b, a
            st.env[i.id] = ('bin', k, a, b)
            return True
        if o == 'select':
            c = self.val(st, i.c)
            out = []
            for truth, v in ((True, i.a), (False, i.b)):
                s = st.copy()
                if c[0] == 'u' or s.assume(c, truth):
                    s.env[i.id] = self.val(s, v)
                    out.append(s)
            return out
        if o == 'alloca':
            st.env[i.id] = ('al', i.id)
            return True
        if o == 'call':
            return self.call(i, st)
        st.env[i.id] = ('i', i.id)
        st.facts.pop(('i', i.id), None)
        return True

    def call(self, i, st):
        name = self.callee(i)
        if name.startswith('llvm.'):
            if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume')):
                return True
            if name.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
                d = self.val(st, i.args[0])
                self.copyobj(st, i, d, name)
                r = self.client.call(self, st, i, name.split('.')[1], [self.val(st, a) for a in i.args])
                return True if r is None else r
            if name.startswith('llvm.expect'):
                st.env[i.id] = self.val(st, i.args[0])
                return True
        args = [self.val(st, a) for a in i.args]
        k = self.prog.identity(name)
        if k is not None:
            st.env[i.id] = args[k]
            return True
        if name == 'strlen' and args[0][0] == 's':
            st.env[i.id] = ('c', len(args[0][1].split('\0')[0]))
            return True
        r = self.client.call(self, st, i, name, args)
        if r is not None:
            return r
        self.effect(st, i, name, args)
        if i.noret or name in ('abort', 'exit', '__assert_fail'):
            return []
        return True

    def copyobj(self, st, i, d, name):
        if d is None or d == ('u',):
            return
        st.kill_root(d)
        lf = last_field(d)
        if 'memset' in name:
            v = self.val(st, i.args[1])
            n = self.val(st, i.args[2])
            if v == ('c', 0) and d[0] == 'al':
                st.mem[('zero', d)] = ('c', 1)
        else:
            s = self.val(st, i.args[1])
            if s is not None and s != ('u',):
                new = {}
                for k, v in st.mem.items():
                    if inside(k, s):
                        new[self.rebase(k, s, d)] = v
                st.mem.update(new)

    def rebase(self, k, s, d):
        if k == s:
            return d
        return (k[0], self.rebase(k[1], s, d)) + k[2:]

    def effect(self, st, i, name, args, outs=True):
        """default effect of a call on the store; the result is a fresh symbol"""
        st.env[i.id] = ('i', i.id)
        st.facts.pop(('i', i.id), None)
        if name in PURE:
            return
        targets = self.prog.targets(self.fn, i, name)
        fields = set()
        for t in targets:
            fields |= self.mods.get(t, set())
        if fields:
            st.kill_fields(fields)
        if outs:
            for k, a in enumerate(args):
                if a[0] == 'al' or (a[0] in ('f', 'x') and (root(a)[0] == 'al' or not targets)):
                    st.kill_root(a)
                    st.mem[a] = ('r', i.id, k)
                    st.facts.pop(('r', i.id, k), None)
                elif not targets and a[0] not in ('c', 's', 'g') and name not in PURE and not name.startswith('vt:'):
                    # an external function may write the object it is given
                    st.kill_root(a)
