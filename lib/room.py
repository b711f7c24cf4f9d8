"""Room: what is written into a buffer of fixed size fits it.

A client of flow: at every write into an array of fixed size (local, static, member of a structure) or a buffer whose smallest size is
fixed (PTRS), the offset and the length are bounded from the path's integer ranges, the types of what was read, the longest text
each printf conversion can give and the lengths of constant strings; offset + length must not exceed the size.

Args, on top of that, judges b+tree arguments: what an engine call, or the connection, is given from a request as it came from the
network has lengths and codes within their fields' ranges on that path.
"""
import re
from flow import Client, Analysis, last_field, INF
from own import base

# pointers to a buffer that is always at least that large: (macro, default)
PTRS = {}
# functions that write at most that many bytes to an argument: (argument, bytes or ('a', argument holding them))
WRITERS = {'get_bkey_from_str': (1, 31), 'get_eflag_from_str': (1, 31), 'safe_strtohexa': (1, ('a', 2))}
# functions that only look at a number, or print it
LOOKS = {'snprintf', 'sprintf', 'vsnprintf', 'fprintf', 'printf'}
CPY = {'memcpy': 2, 'memmove': 2, 'memset': 2, 'strncpy': 2, '__memcpy_chk': 2}


def conversions(fmt):
    """(flags, width, precision, length, conversion) of each % in a format, and the length of the plain text"""
    out, plain, k = [], 0, 0
    for m in re.finditer(r'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*)?)?(hh|h|ll|l|z|j|t)?([diouxXcspfgeE%])', fmt):
        plain += m.start() - k
        k = m.end()
        if m.group(5) == '%':
            plain += 1
        else:
            has = '.' in m.group(0)
            out.append((m.group(1), m.group(2), m.group(3) if has else None, m.group(4) or '', m.group(5), has))
    return out, plain + len(fmt) - k


BYTES = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8, 'double': 8, 'float': 4}


def plus(n, k):
    n = dict(n)
    n[None] = n.get(None, 0) + k
    return n


class Room(Client):
    cap = 40

    textargs = {}            # function -> {argument: longest text there}
    param = {}               # function -> {argument: most}
    strlens = {}             # function -> (text argument, argument that holds its length)
    pairs = {'token_t.value': 'token_t.length'}

    def __init__(self, prog, fn, ptrs, fields=None, consts=None, params=None, rets=None):
        self.prog, self.fn, self.ptrs = prog, fn, ptrs
        self.fields = fields or {}       # member -> (most, value that stands for "none" or None)
        self.consts = consts or {}       # member -> the value it always has
        self.params = self.param.get(base(fn.name), {}) if params is None else params
        self.rets = rets or {}           # function -> most it returns
        self.sites = {}          # (line, what) -> worst (over, text)
        self.src = {}
        self.strs = {}
        self.none = {}
        self.bounds = {}         # (line, member or argument) -> always within its range
        self.lens = {}           # pointer -> symbols that are the length of the text there
        self.width = {}
        self.unknown = {}
        self.cut = {}            # result of snprintf -> size it was given

    def entry(self, an, fn):
        for k, j in self.strlens.get(base(fn.name), ()):
            self.lens[('a', k)] = ('a', j)
        return frozenset()

    def live_syms(self, prop):
        return list(self.lens.values())        # lengths stay known as long as the texts are used

    def handed(self, an, st, i, name, args):
        """the contracts of a function that is called"""
        b = base(name or '')
        if b.startswith('engine_interface_v1.'):
            b = 'default_' + b.split('.', 1)[1]
        elif name and name.startswith('vt:'):
            b = 'default_' + name.split('.')[-1]
        for k, m in self.param.get(b, {}).items():
            self.note(i.line, 'argument %d of %s' % (k + 1, b), self.fits(an, st, args[k], m))
        for k, m in self.textargs.get(b, {}).items():
            n = self.strmax(an, st, args[k])
            self.note(i.line, 'text %d of %s' % (k + 1, b), args[k] == ('c', 0) or st.rng(args[k])[:2] == (0, 0) or
                      n is not None and n <= m)
        for k, j in self.strlens.get(b, ()):
            n = self.strmax(an, st, args[k])
            self.note(i.line, 'length of text %d of %s' % (k + 1, b),
                      self.lens.get(args[k]) == args[j] or args[j][0] == 'c' and n is not None and n <= args[j][1])

    def load(self, an, st, i, addr, val):
        self.src[val] = (addr, i.ty)
        f = last_field(addr)
        if f in self.consts:
            st.env[i.id] = ('c', self.consts[f])
        elif f in self.fields and not self.wire(addr) and val[0] != 'c':
            m, none = self.fields[f]
            if val not in st.facts:
                st.narrow(val, 0, m if none is None else none)
            if none is not None:
                self.none[val] = (m, none)

    def wire(self, addr):
        """is this address inside a request as it came from the network?"""
        while addr is not None and addr[0] in ('f', 'x'):
            if addr[0] == 'f' and 'protocol_binary' in addr[2].split('.')[0]:
                return True
            addr = addr[1]
        if addr is not None and addr[0] == 'i':
            i = self.fn.insts[addr[1]]
            return i.op == 'call' and base(self.prog.callee(i) or '').startswith('binary_get_request')
        return False

    def most(self, an, st, v):
        """upper bound of a value, also from a sum it is part of"""
        out = {}
        self.lin(an, st, v, out)
        a, b = self.hi(an, st, v), self.summax(an, st, out)
        return b if a is None else a if b is None else min(a, b)

    def fits(self, an, st, v, m, none=None):
        if none is not None and st.const(v) == none:
            return True
        h = self.most(an, st, v)
        if h is not None and h <= m:
            return True
        return none is not None and v in self.none and self.none[v][0] <= m and h is not None and h <= none

    def store(self, an, st, i, addr, val):
        f = last_field(addr)
        if f in self.fields and addr[0] == 'f' and not self.wire(addr) and val is not None:
            m, none = self.fields[f]
            self.note(i.line, f, self.fits(an, st, val, m, none))
        if addr[0] != 'x' and not (addr[0] == 'f' and addr[1][0] == 'x'):
            return
        n = BYTES.get(i.vt)
        self.write(an, st, i, addr, {None: n} if n else None, 'store')

    # ---- places
    def place(self, an, st, a):
        """(what, size, highest offset or None) of the fixed array a points into"""
        off = {}
        while a is not None:
            if a[0] == 'x':
                s = an.esz.get(a)
                if s is None and a[2][0] == 'c':
                    s = 1
                if s is None:
                    off = None
                elif off is not None:
                    self.lin(an, st, a[2], off, s)
                a = a[1]
            elif a[0] == 'f':
                sn, fn = a[2].split('.', 1)
                m = [x for x in self.prog.structs.get(sn, ()) if x[0] == fn]
                if m and m[0][2].endswith('[]'):
                    if m[0][3] <= 1:
                        return None
                    return (a[2], m[0][3], off)
                if not m:
                    if fn.startswith('@'):
                        o = int(fn[1:])
                    else:
                        return None
                else:
                    o = m[0][1]
                if off is not None:
                    off[None] = off.get(None, 0) + o
                a = a[1]
            else:
                break
        if a is None:
            return None
        if a[0] == 'al':
            i = self.fn.insts[a[1]]
            if i.sizes[0] <= 8:
                return None
            return (i.name or 'local', i.sizes[0], off)
        if a[0] == 'g':
            g = self.prog.globals.get(a[1])
            if g is None or g['t'].startswith('ptr') or g.get('decl'):
                return None
            return (a[1].split(':')[-1], g['sz'], off)
        if a[0] == 'i':
            i = self.fn.insts[a[1]]
            if a in self.src:
                f = last_field(self.src[a][0])
                if f in self.ptrs:
                    return (f, self.ptrs[f], off)
            if i.op == 'call' and base(self.prog.callee(i) or '') in ('malloc', 'calloc') and i.args[-1][0] == 'c':
                n = i.args[-1][1] if base(self.prog.callee(i)) == 'malloc' else \
                    i.args[0][1] * i.args[1][1] if i.args[0][0] == 'c' else None
                if n:
                    return ('malloc', n, off)
        return None

    # ---- bounds
    def hi(self, an, st, v, d=0):
        if v[0] == 'c':
            return v[1]
        if d > 8:
            return None
        lo, h, ex = st.rng(v)
        while h in ex:
            h -= 1
        b = h if h != INF else None
        if v in self.none and b is not None and b < self.none[v][1]:
            b = min(b, self.none[v][0])
        c = self.hi1(an, st, v, d)
        if d < 3:
            for f, (l, m, _) in st.facts.items():
                if f[0] == 'cmp' and l == m and v in f[2:] and f[2:] != (v, v):
                    q = f[1] if l else st.NEG[f[1]]
                    q, o = (q, f[3]) if f[2] == v else (st.SWAP[q], f[2])
                    if q in ('slt', 'ult', 'sle', 'ule', 'eq'):
                        x = self.hi(an, st, o, 3)
                        if x is not None:
                            c = min(c, x - (q[1:] == 'lt')) if c is not None else x - (q[1:] == 'lt')
        if c is None:
            return b
        c = c if b is None else min(b, c)
        while c in ex:
            c -= 1
        return c

    def lo(self, an, st, v):
        l = st.rng(v)[0]
        return l if l != -INF else None

    def hi1(self, an, st, v, d):
        if v[0] == 'zx':
            return (1 << v[1]) - 1
        if v[0] == 'tr':
            h = self.hi(an, st, v[2], d + 1)
            t = (1 << v[1]) - 1
            return t if h is None else min(h, t)
        if v[0] == 'bin':
            k, a, b = v[1], v[2], v[3]
            x, y = self.hi(an, st, a, d + 1), self.hi(an, st, b, d + 1)
            if k == 'add':
                return None if x is None or y is None else x + y
            if k == 'sub':
                l = self.lo(an, st, b)
                return None if x is None else x - (l if l is not None and l > 0 else 0) if b[0] != 'c' else x - b[1]
            if k == 'mul':
                return None if x is None or y is None or x < 0 or y < 0 else x * y
            if k == 'and':
                return min([z for z in (x, y) if z is not None and z >= 0], default=None)
            if k in ('urem', 'srem'):
                return y - 1 if y is not None and y > 0 else None
            if k in ('udiv', 'sdiv'):
                return x // b[1] if x is not None and b[0] == 'c' and b[1] > 0 else x
            if k in ('lshr', 'ashr'):
                return x >> b[1] if x is not None and b[0] == 'c' and b[1] >= 0 else x
            return None
        if v[0] == 'i' and self.fn.insts[v[1]].op == 'call' and \
                base(self.prog.callee(self.fn.insts[v[1]]) or '') in self.rets:
            return self.rets[base(self.prog.callee(self.fn.insts[v[1]]))]
        if v[0] == 'i' and self.fn.insts[v[1]].op == 'call':
            n = self.numbers(self.prog.callee(self.fn.insts[v[1]]))
            if n is not None:
                return n
        if self.width.get(v) is not None:
            return self.width[v]
        if v in self.src:
            a, ty = self.src[v]
            if ty == 'i8':
                return 255
            if ty == 'i16':
                return 65535
            return None
        if v[0] == 'a' and v[1] in self.params:
            return self.params[v[1]]
        if v[0] == 'a':
            ty = self.fn.args[v[1]][2]
            return {'i8': 255, 'i16': 65535, 'i1': 1}.get(ty)
        if v[0] == 'i':
            i = self.fn.insts[v[1]]
            if i.op == 'bin':
                u = an.unfold(st, v)
                if u != v:
                    return self.hi(an, st, u, d + 1)
        return None

    def strmax(self, an, st, v):
        """longest text at a pointer"""
        if v[0] == 's':
            return len(v[1].split('\0')[0])
        if v[0] == 'a' and v[1] in self.textargs.get(base(self.fn.name), {}):
            return self.textargs[base(self.fn.name)][v[1]]
        if v in self.lens:
            h = self.hi(an, st, self.lens[v])
            if h is not None:
                return h
        if v in self.src and last_field(self.src[v][0]) in self.pairs:
            a = self.src[v][0]
            n = st.mem.get(('f', a[1], self.pairs[last_field(a)]))
            if n is not None:
                h = self.hi(an, st, n)
                if h is not None:
                    return h
        p = self.place(an, st, v)
        if p is not None and p[2] is not None:
            return max(0, p[1] - 1)
        if v[0] == 'i':
            i = self.fn.insts[v[1]]
            if i.op == 'call':
                return self.texts(self.prog.callee(i))
        return None

    def numbers(self, name):
        """largest number a function that only returns constants returns"""
        f = self.prog.fns.get(name or '')
        if f is None or not f.blocks or f.ret not in ('i32', 'i8', 'i16'):
            return None
        best, todo, seen = None, [i.v for i in f.all() if i.op == 'ret' and i.v is not None], set()
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            if o[0] == 'c':
                best = o[1] if best is None else max(best, o[1])
            elif o[0] == 'i' and f.insts[o[1]].op == 'phi':
                todo += list(f.insts[o[1]].phi.values())
            elif o[0] == 'i' and f.insts[o[1]].op == 'select':
                todo += [f.insts[o[1]].a, f.insts[o[1]].b]
            else:
                return None
        return best

    def texts(self, name):
        """longest string a function that only returns constants can return"""
        f = self.prog.fns.get(name or '')
        if f is None or not f.blocks or f.ret != 'ptr':
            return None
        best, todo, seen = 0, [i.v for i in f.all() if i.op == 'ret' and i.v is not None], set()
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            if o[0] == 's':
                best = max(best, len(o[1].split('\0')[0]))
            elif o[0] == 'i' and f.insts[o[1]].op == 'phi':
                todo += list(f.insts[o[1]].phi.values())
            elif o[0] == 'i' and f.insts[o[1]].op == 'select':
                todo += [f.insts[o[1]].a, f.insts[o[1]].b]
            elif o[0] == 'c':
                pass
            else:
                return None
        return best

    def fmtmax(self, an, st, fmt, args):
        if fmt[0] != 's':
            return None
        conv, n = conversions(fmt[1])
        out = {}
        k = 0
        for flags, w, prec, ln, c, has in conv:
            if w == '*':
                k += 1
                w = None
            p = None
            if prec == '*':
                p = self.hi(an, st, args[k]) if k < len(args) else None
                k += 1
            elif prec is not None:
                p = int(prec)
            elif has:
                p = 0
            v = args[k] if k < len(args) else None
            k += 1
            bits = 64 if ln in ('l', 'll', 'z', 'j', 't') else 32
            if c in 'di':
                h, l = (self.hi(an, st, v), self.lo(an, st, v)) if v else (None, None)
                m = {64: 20, 32: 11}[bits]
                if h is not None and h >= 0 and l is not None and l >= 0:
                    m = min(m, len(str(h)))
            elif c == 'u':
                h, l = (self.hi(an, st, v), self.lo(an, st, v)) if v else (None, None)
                m = {64: 20, 32: 10}[bits]
                if h is not None and h >= 0 and (l is not None and l >= 0 or v in self.src):
                    m = min(m, len(str(h)))
            elif c in 'xX':
                h = self.hi(an, st, v) if v else None
                m = bits // 4 + (2 if '#' in flags else 0)
            elif c == 'o':
                m = (bits + 2) // 3
            elif c == 'c':
                m = 1
            elif c == 'p':
                m = 18
            elif c == 's':
                m = self.strmax(an, st, v) if v else None
                if p is not None:
                    m = p if m is None else min(m, p)
                elif m is None and v in self.lens and w is None:
                    out[self.lens[v]] = out.get(self.lens[v], 0) + 1
                    m = 0
            else:
                m = 400 if c in 'f' else 32
            if m is None:
                return None
            if w is not None:
                m = max(m, int(w))
            n += m
        out[None] = n
        return out

    # ---- sums
    def lin(self, an, st, v, out, k=1, d=0):
        """add k * v to the linear form out {symbol: factor, None: constant}"""
        if v[0] == 'i' and self.fn.insts[v[1]].op == 'bin' and d < 8:
            v = an.unfold(st, v)
        if v[0] == 'c':
            out[None] = out.get(None, 0) + k * v[1]
        elif v[0] == 'bin' and v[1] in ('add', 'sub') and d < 8:
            self.lin(an, st, v[2], out, k, d + 1)
            self.lin(an, st, v[3], out, k if v[1] == 'add' else -k, d + 1)
        elif v[0] == 'bin' and v[1] == 'mul' and v[3][0] == 'c':
            self.lin(an, st, v[2], out, k * v[3][1], d + 1)
        elif v[0] in ('tr', 'zx') and (v[1] >= 32 or d < 8 and self.whole(an, st, v)):
            self.lin(an, st, v[2], out, k, d + 1)
        else:
            out[v] = out.get(v, 0) + k

    def whole(self, an, st, v):
        """the value fits the width it is cut to"""
        h, l = self.hi(an, st, v[2], 4), self.lo(an, st, v[2])
        return h is not None and h < 1 << v[1] and l is not None and l >= 0

    def summax(self, an, st, out):
        """upper bound of a linear form: each term on its own, or a sum the path has compared with something"""
        terms = {s: k for s, k in out.items() if s is not None and k != 0}
        c = out.get(None, 0)
        best = c
        for s, k in terms.items():
            h = self.hi(an, st, s) if k > 0 else self.lo(an, st, s)
            if h is None and k < 0:
                h = 0 if s in self.src or s in self.width else None
            if h is None:
                best = None
                break
            best += k * h
        if terms:
            for f, (lo, hi, _) in st.facts.items():
                o = {}
                if f[0] == 'cmp' and lo == hi and len(terms) > 1:
                    # x <= y as x - y <= 0, where y = c - z does not wrap
                    q, x, y = f[1] if lo else st.NEG[f[1]], f[2], f[3]
                    if q[1:] in ('gt', 'ge'):
                        q, x, y = st.SWAP[q], y, x
                    y = an.unfold(st, y) if y[0] == 'i' else y
                    if q[1:] not in ('lt', 'le') or y[0] != 'bin' or y[1] != 'sub' or y[2][0] != 'c':
                        continue
                    z = self.hi(an, st, y[3])
                    if z is None or z > y[2][1]:
                        continue
                    self.lin(an, st, x, o)
                    self.lin(an, st, y, o, -1)
                    hi = -1 if q[1:] == 'lt' else 0
                elif hi != INF and (f[0] == 'bin' or f[0] == 'i' and len(terms) > 1 and self.fn.insts[f[1]].op == 'bin'):
                    self.lin(an, st, f, o)
                else:
                    continue
                more = {s: k for s, k in o.items() if s is not None and k != 0}
                if all(more.get(s) == k for s, k in terms.items()) and \
                        all(k > 0 and (self.lo(an, st, s) or 0) >= 0 and self.unsigned(st, s)
                            for s, k in more.items() if s not in terms):
                    b = hi - o.get(None, 0) + c
                    best = b if best is None else min(best, b)
        return best

    def unsigned(self, st, s):
        return st.rng(s)[0] >= 0

    # ---- writes
    def write(self, an, st, i, dst, n, how, nv=None):
        p = self.place(an, st, dst)
        if p is None:
            return
        what, size, off = p
        key = (i.line, what, how)
        over = None
        if n is not None and off is not None:
            out = dict(off)
            for k, v in n.items():
                out[k] = out.get(k, 0) + v
            over = self.summax(an, st, out)
            if over is not None:
                over -= size
            # a length computed by subtraction must not have wrapped around
            if over is not None and any(k is not None and v < 0 for k, v in n.items()) and \
                    not (nv is not None and st.rng(an.unfold(st, nv))[0] >= 0):
                m = self.summax(an, st, {k: -v for k, v in n.items()})
                if m is None or m > 0:
                    over = None
        if key not in self.sites:
            self.sites[key] = over
        elif self.sites[key] is not None:
            self.sites[key] = None if over is None else max(over, self.sites[key])

    def note(self, line, what, ok):
        k = (line, what)
        self.bounds[k] = self.bounds.get(k, True) and ok

    def num(self, an, st, v):
        out = {}
        self.lin(an, st, v, out)
        return out

    def call(self, an, st, i, name, args):
        b = base(name or '')
        self.handed(an, st, i, name, args)
        if self.cut and b not in LOOKS:
            self.length(an, st, i, name, args)
        if b == 'safe_strtohexa' and args[2][0] == 'c':
            # it accepts a text only when that is at most twice as long as the space given
            an.effect(st, i, name, args)
            st.env[i.id] = ('i', i.id)
            st.facts.pop(('i', i.id), None)
            no = st.copy()
            if no.narrow(('i', i.id), 0, 0):
                out = [no]
            else:
                out = []
            st.prop = frozenset(x for x in st.prop if x[0] != args[0]) | {(args[0], 2 * args[2][1])}
            k, n = WRITERS[b]
            self.write(an, st, i, args[k], {None: args[2][1]}, b)
            if st.narrow(('i', i.id), 1, 1):
                out.append(st)
            return out
        if b in WRITERS:
            k, n = WRITERS[b]
            self.write(an, st, i, args[k], {None: n} if isinstance(n, int) else self.num(an, st, args[n[1]]), b)
            # it writes nothing else
            d = args[k]
            while d is not None and d[0] == 'x':
                d = d[1]
            if d is not None and d[0] == 'f':
                keep = {a: v for a, v in st.mem.items() if a != d and not (a[0] == 'x' and a[1] == d)}
                an.effect(st, i, name, args)
                st.mem.update(keep)
                st.env[i.id] = ('i', i.id)
                st.facts.pop(('i', i.id), None)
                return [st]
        if b in CPY:
            self.write(an, st, i, args[0], self.num(an, st, args[2]), b, args[2])
        elif b == 'strcpy':
            n = self.text(an, st, args[1])
            self.write(an, st, i, args[0], None if n is None else plus(n, 1), b)
        elif b == 'sprintf':
            n = self.fmtmax(an, st, args[1], args[2:])
            self.write(an, st, i, args[0], None if n is None else plus(n, 1), b)
            self.wide(an, st, i, n)
        elif b in ('snprintf', 'vsnprintf'):
            self.write(an, st, i, args[0], self.num(an, st, args[1]), b)
            self.cut[('i', i.id)] = self.num(an, st, args[1])
            self.wide(an, st, i, self.fmtmax(an, st, args[2], args[3:]) if b == 'snprintf' else None)
        elif b in ('read', 'recv', 'recvfrom', 'strftime', 'fgets', 'fread', 'getcwd', 'readlink', 'pread'):
            k, m = {'read': (1, 2), 'recv': (1, 2), 'recvfrom': (1, 2), 'pread': (1, 2), 'readlink': (1, 2)}.get(b, (0, 1))
            self.write(an, st, i, args[k], self.num(an, st, args[m]), b)
        elif b == 'strtok_r':
            keep = {a: v for a, v in st.mem.items() if a[0] == 'f'}    # it writes to the text and to its own pointer only
            an.effect(st, i, name, args)
            st.mem.update(keep)
            st.env[i.id] = ('i', i.id)
            return [st]
        elif b == 'strlen':
            n = self.strmax(an, st, args[0])
            if n is not None:
                self.width[('i', i.id)] = n
            for p, m in st.prop:
                if p == args[0] and isinstance(m, int):
                    an.effect(st, i, name, args)
                    st.env[i.id] = ('i', i.id)
                    st.facts.pop(('i', i.id), None)
                    st.narrow(('i', i.id), 0, m)
                    return [st]
            self.lens[args[0]] = ('i', i.id)
        return None

    def length(self, an, st, i, name, args):
        """the length snprintf reports is passed on as one only where the text cannot have been cut"""
        for k, v in enumerate(args):
            if v is None or v[0] not in ('i', 'bin', 'tr', 'zx') or v in self.lens:
                continue
            t = {}
            self.lin(an, st, v, t)
            for s in t:
                if s in self.cut and t[s] > 0:
                    d = {s: 1}
                    for x, y in self.cut[s].items():
                        d[x] = d.get(x, 0) - y
                    h = self.summax(an, st, d)
                    self.note(i.line, 'length given to %s' % ('a callback' if not name or name.startswith('arg:') else name.split('.')[-1]), h is not None and h <= -1)

    def wide(self, an, st, i, n):
        """remember how long the text just printed can be"""
        h = self.summax(an, st, n) if n is not None else None
        v = ('i', i.id)
        if h is None or self.width.get(v, 0) is None:
            self.width[v] = None
        else:
            self.width[v] = max(h, self.width.get(v, 0))

    def text(self, an, st, v):
        """length of the text at v: a number, or the symbol that holds it"""
        n = self.strmax(an, st, v)
        if n is not None:
            return {None: n}
        if v in self.lens:
            return {self.lens[v]: 1}
        return None


# ---- b+tree arguments
NONE = 255                   # BKEY_NULL / EFLAG_NULL


class Args(Room):
    """lengths and codes of the b+tree arguments a request carries"""

    def __init__(self, *a, lim=None, types=None, opargs=None, **k):
        super().__init__(*a, **k)
        self.opargs = opargs or {}             # function -> (connection, operation) arguments
        self.lim, self.types = lim, types      # limits; {(vtable slot, argument): structure}
        self.judged = {}                       # (line, rule) -> text of what is wrong or None
        size = {}
        for n in ('bkey_range', 'eflag_filter'):
            m = self.prog.structs[n]
            size[max(o + z for _, o, _, z in m)] = n
        self.sizes = size

    def carries(self):
        """does the function hand on such a structure of a request?"""
        req = given = False
        for i in self.fn.calls():
            n = self.prog.callee(i) or ''
            req |= base(n).startswith('binary_get_request')
            given |= 'memcpy' in n and i.args[2][0] == 'c' and i.args[2][1] in self.sizes
            given |= n.startswith('vt:') and any(self.types.get((n.split('.')[-1], k)) in ('bkey_range', 'eflag_filter')
                                                 for k in range(len(i.args)))
        return req and given

    def member(self, st, p, sn, m):
        return st.mem.get(('f', p, sn + '.' + m))

    def upto(self, an, st, v, m):
        h = self.most(an, st, v) if v is not None else None
        return h is not None and h <= m

    def wrong(self, an, st, p, sn):
        """what is out of range in the structure at p, or None"""
        g = lambda m: self.member(st, p, sn, m)
        L = self.lim
        if sn == 'bkey_range':
            if not self.upto(an, st, g('from_nbkey'), L['bkey']):
                return 'from_nbkey may exceed %d' % L['bkey']
            t = g('to_nbkey')
            if t is None or not (st.const(t) == NONE or self.upto(an, st, t, L['bkey'])):
                return 'to_nbkey may be neither up to %d nor "none"' % L['bkey']
            return None
        off, ncomp, nbit = g('offset'), g('ncompval'), g('nbitwval')
        if ncomp is not None and st.const(ncomp) == 0:
            return None                        # no filter
        if off is None or ncomp is None:
            return 'offset and ncompval are unchecked'
        if (p, 'total') not in st.prop and not self.total(an, st, off, ncomp):
            return 'offset + ncompval may exceed %d' % L['eflag']
        if nbit is None:
            return 'nbitwval is unchecked'
        h = self.hi(an, st, nbit)
        if h is None or h > 0:
            if (p, 'bits') not in st.prop and not self.leq(an, st, nbit, ncomp):
                return 'nbitwval may exceed ncompval'
            if not self.upto(an, st, g('bitwop'), L['bitwop'] - 1):
                return 'bitwop may be no operator'
        if not self.upto(an, st, g('compop'), L['compop'] - 1):
            return 'compop may be no operator'
        n = g('compvcnt')
        if not self.upto(an, st, n, L['compvcnt']):
            return 'compvcnt may exceed %d' % L['compvcnt']
        if not self.upto(an, st, n, 1):
            c = st.rng(g('compop'))
            if not all(x in L['eq'] or x in c[2] for x in range(max(0, int(c[0])), min(L['compop'] - 1, int(c[1])) + 1)):
                return 'several compare values with an operator that takes one'
        return None

    def leq(self, an, st, a, b):
        if a == b:
            return True
        if any(st.related(q, a, b) == 1 for q in ('ule', 'sle', 'eq')):
            return True
        h, l = self.hi(an, st, a), self.lo(an, st, b)
        return h is not None and l is not None and h <= l

    def judge(self, line, what, why):
        if self.judged.get((line, what)) is None:
            self.judged[(line, what)] = why

    def handed(self, an, st, i, name, args):
        super().handed(an, st, i, name, args)
        k = self.opargs.get(name)
        if k is not None:
            self.many(an, st, i, args[k[0]], args[k[1]])
        if name and name.startswith('vt:engine_interface_v1.'):
            for k, a in enumerate(args):
                t = self.types.get((name.split('.')[1], k))
                if t in ('bkey_range', 'eflag_filter') and a is not None and self.wire(a):
                    self.judge(i.line, '%s given to %s' % (t, name.split('.')[1]), self.wrong(an, st, a, t))
        elif base(name or '') in ('memcpy', 'memmove', '__memcpy_chk') and args[2][0] == 'c' and args[2][1] in self.sizes and \
                args[1] is not None and self.wire(args[1]):
            t = self.sizes[args[2][1]]
            self.judge(i.line, '%s kept' % t, self.wrong(an, st, args[1], t))

    def value(self, an, st, i):
        # the first turn of a loop that counts
        if i.op == 'bin' and i.k == 'add' and st.env.get(i.id) == ('i', i.id) and i.b == ('c', 1) and \
                st.const(an.val(st, i.a)) == 0:
            st.narrow(('i', i.id), 1, 1)
        # a sum with what a call just returned stays a sum
        if i.op == 'bin' and i.k == 'add' and st.env.get(i.id) == ('i', i.id):
            a, b = an.val(st, i.a), an.val(st, i.b)
            if any(x[0] == 'i' and self.fn.insts[x[1]].op == 'call' for x in (a, b)) and all(x[0] in 'ira' for x in (a, b)):
                st.env[i.id] = ('bin', 'add', a, b)

    def total(self, an, st, off, n):
        out = {}
        self.lin(an, st, off, out)
        self.lin(an, st, n, out)
        h = self.summax(an, st, out)
        return h is not None and h <= self.lim['eflag']

    def store(self, an, st, i, addr, val):
        super().store(an, st, i, addr, val)
        if addr[0] == 'f' and addr[2] in ('eflag_filter.offset', 'eflag_filter.nbitwval', 'eflag_filter.ncompval'):
            # what is known of the parts holds until one of them changes
            p = addr[1]
            off, n, nbit = (self.member(st, p, 'eflag_filter', m) for m in ('offset', 'ncompval', 'nbitwval'))
            st.prop = frozenset(x for x in st.prop if x[0] != p)
            if off is not None and n is not None and self.total(an, st, off, n):
                st.prop |= {(p, 'total')}
            if nbit is not None and n is not None and self.leq(an, st, nbit, n):
                st.prop |= {(p, 'bits')}
        if addr[0] == 'f' and addr[2] in ('conn.coll_op', 'conn.coll_rcount', 'conn.coll_roffset', 'conn.coll_numkeys'):
            op = st.mem.get(('f', addr[1], 'conn.coll_op'))
            if op is not None:
                self.many(an, st, i, addr[1], op)

    def many(self, an, st, i, conn, op):
        """a request with several keys: the counts it leaves in the connection"""
        c = st.const(op)
        if c not in (self.lim['smget'], self.lim['mget']):
            return
        n, cnt, off = (st.mem.get(('f', conn, 'conn.' + m)) for m in ('coll_numkeys', 'coll_rcount', 'coll_roffset'))
        if n is None or cnt is None or any(last_field(self.src[v][0]) == 'conn.' + m for v, m in
                                           ((n, 'coll_numkeys'), (cnt, 'coll_rcount')) if v in self.src):
            return                             # as they were when the function was entered
        what = 'smget' if c == self.lim['smget'] else 'mget'
        K, E = self.lim[what + ' limits']
        why = None
        if not self.upto(an, st, n, K):
            why = 'more than %d keys' % K
        elif not self.upto(an, st, cnt, E):
            why = 'more than %d elements' % E
        elif what == 'smget' and off is not None:
            o = {}
            self.lin(an, st, off, o)
            self.lin(an, st, cnt, o)
            h = self.summax(an, st, o)
            why = None if h is not None and h <= E else 'offset + count may exceed %d' % E
        self.judge(i.line, what, why)

    def ret(self, an, st, i, val):
        p = self.producers.get(base(self.fn.name))
        if p is not None and val is not None and st.const(val) not in (0, -1):
            k, t = p
            n = self.member(st, ('a', k), t, 'compvcnt')
            # a list that begins with 0x has at least one value
            if st.rng(val)[1] >= 0 and (n is None or st.const(n) != 0):
                self.judge(i.line, '%s parsed' % t, self.wrong(an, st, ('a', k), t))

    producers = {'get_efilter_from_tokens': (2, 'eflag_filter')}


# ---- the checks
# arrays whose index is kept in range by an invariant of the data structure, not by what a path establishes
UNDECIDED = re.compile(r'_btree_indx_node\.|_(map|set)_hash_node\.|hash_node\.keys|_prefix_t\.items_|prefix_list$|prefix_stats_list$|'
                       r'slabs\.slabclass|_sm_anchor\.class_info|^items\.|engine_info\.features|engine_event_handlers|vla$|'
                       r'lq_detect_global\.')
# (function, buffer): bounded by something a path does not show; see DESIGN.md
EXEMPT = {('add_statistics', 'name'), ('do_btree_node_merge', 'upth'), ('do_lqdetect_write', 'lq_detect_global.arg'),
          ('_check_forced_btree_overflow_action', 'forced_action_prefix'), ('do_btree_overflow_trim', 'bkey_range.from_nbkey'),
          ('process_getattr_command', 'attr_ids'), ('process_setattr_command', 'attr_ids'),
          ('process_getattr_command', 'buffer'), ('process_help_command', 'buffer'), ('pipe_response_done', 'conn.pipe_reslen'),
          ('do_btree_overflow_trim', 'bkey_range.to_nbkey'), ('btree_coll_setattr', 'argument 5 of BINARY_DIFF'),
          ('add_statistics', 'length given to a callback'), ('process_get_single', 'length given to add_iov'),
          *(('do_btree_overflow_trim', 'argument %d of BINARY_DIFF' % k) for k in (2, 4, 5))}


def groups(names, n=8):
    names = sorted(names)
    return [names[k::n] for k in range(n) if names[k::n]]


def setup(t):
    Room.param, Room.strlens, Room.textargs = t['params'], t['strlens'], t['textargs']


def fields(p, f, t):
    return t['engine'] if 'engines/default' in f.file else t['server']


def buffers(ctx, p, t):
    setup(t)
    todo = [n for n, f in p.fns.items() if f.blocks]

    def one(ctx, names):
        for n in names:
            f = p.fns[n]
            c = Room(p, f, t['ptrs'], fields(p, f, t), t['consts'], None, t['rets'])
            Analysis(p, f, c).run()
            ctx.count('functions analysed')
            b = base(n)
            for (line, what, how), over in sorted(c.sites.items()):
                if over is not None and over <= 0:
                    ctx.count('writes proven')
                    ctx.sample('%s:%d %s into %s fits' % (b, line, how, what))
                elif (b, what) in EXEMPT or how == 'store' and UNDECIDED.search(what):
                    ctx.count('writes left to invariants')
                else:
                    ctx.violation('fits', f, line, '%s into %s' % (how, what),
                                  'up to %d bytes beyond its end' % over if over is not None else
                                  'nothing on the path bounds what is written to what is left of it', [])
            for (line, what), ok in sorted(c.bounds.items()):
                if what in ('conn.pipe_count',) or (b, what) in EXEMPT:
                    continue
                if ok:
                    ctx.count('member stores proven')
                else:
                    ctx.violation('range', f, line, what, 'the text may have been cut shorter than that' if what.startswith('length')
                                  else 'a value beyond the range every reader relies on', [])
    ctx.fanout(one, groups(todo))


def arguments(ctx, p, t):
    setup(t)
    types, ops = {}, {}
    for n, f in p.fns.items():
        if base(n).startswith('default_'):
            for k, a in enumerate(f.args):
                types[(base(n)[8:], k)] = a[1].replace('const ', '').rstrip('* ')
        for i in f.all():
            if i.op == 'store' and i.v[0] == 'a' and p.addr_field(f, i.p) == 'conn.coll_op':
                k = [j for j, a in enumerate(f.args) if a[1].replace('struct ', '').startswith('conn')]
                if k:
                    ops[n] = (k[0], i.v[1])

    def wanted(n, f):
        if base(n) in Args.producers or any(p.addr_field(f, i.p) == 'conn.coll_rcount' for i in f.all() if i.op == 'store'):
            return True
        names = {p.callee(i) or '' for i in f.calls()}
        if names & set(ops):
            return True
        return any('btree_elem' in x for x in names if x.startswith('vt:')) or \
            any(base(x).startswith('binary_get_request') for x in names) and any('memcpy' in x for x in names)
    todo = [n for n, f in p.fns.items() if f.stem == 'memcached' and f.blocks and wanted(n, f)]

    def one(ctx, names):
        for n in names:
            f = p.fns[n]
            c = Args(p, f, t['ptrs'], fields(p, f, t), t['consts'], None, t['rets'], lim=t['lim'], types=types, opargs=ops)
            if c.carries() or base(n) in Args.producers:
                c.cap, c.total_cap = 400, 4000
            Analysis(p, f, c).run()
            ctx.count('functions analysed')
            for (line, what), why in sorted(c.judged.items()):
                ctx.count('arguments judged')
                if why is not None:
                    ctx.violation('range', f, line, what, why, [])
                else:
                    ctx.sample('%s:%d %s within range' % (base(n), line, what))
    ctx.fanout(one, groups(todo))
