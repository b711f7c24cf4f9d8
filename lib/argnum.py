"""An argument that is not what the command takes is rejected before anything happens.

Conversions (safe_strto*, and the get_*_from_* functions built on them) are watched: until a conversion is known to have succeeded neither
the engine is called, nor another part of the command run, nor a setting stored; one that is known to have failed is answered as an error
of the client.  The conversions themselves succeed only for a number that is complete and in range.
"""
import re
from itertools import takewhile
from durable import strip
from flow import Analysis, last_field
from ondisk import Track
from own import base
from prog import Broken
from chkpt import Facts

ERANGE = 34
SPACE = 8192


class Args(Facts):
    cap = 12
    total_cap = 3000
    settings = ('settings',)

    def __init__(self, ctx, P, K, fn, what, parsers):
        Facts.__init__(self, ctx, P, K, fn, what)
        self.parsers = parsers          # name -> 'bool' or 'int'
        self.parser = parsers.get(fn.name) in ('int', 'flag')

    def known(self, st, x):
        """True: converted, False: failed, None: not known"""
        if self.has(st, 'ok', x[1]):
            return True
        if self.has(st, 'bad', x[1]):
            return False
        v = x[2]
        if x[3] in ('bool', 'flag'):
            if x[3] == 'flag':
                return False if st.known_ne(v, 0) else True if st.known_eq(v, 0) else None
            return True if st.known_ne(v, 0) else False if st.known_eq(v, 0) else None
        lo, hi, ex = st.rng(v)
        return True if lo >= 0 or st.known_ne(v, -1) else False if hi < 0 else None

    def settle(self, an, st):
        for x in self.get(st, 'conv'):
            k = self.known(st, x)
            if k is not None:
                self.tok(st, 'ok' if k else 'bad', x[1])
                self.drop(st, lambda y: y == x)

    def merge_old(self, an, st, ids):
        keep = Track.merge_old(self, an, st, ids)
        return keep | frozenset(('conv', x[1], ('u', 0), x[3]) for x in st.prop if x[0] == 'conv' and x not in keep)

    def live_syms(self, prop):
        return [x[2] for x in prop if x[0] == 'conv'] + [y for x in prop for y in x[1:] if isinstance(y, tuple)]

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n in self.parsers and n != an.fn.name:
            an.effect(st, i, name, args)
            self.drop(st, lambda x: x[0] in ('conv', 'ok', 'bad') and x[1] == i.id)
            self.tok(st, 'conv', i.id, st.env[i.id], self.parsers[n])
            self.njudge += 1
            return [st]
        if name and name.startswith('vt:engine_interface') or n.startswith('process_') and n in self.prog.fns or n in self.K['ACT']:
            self.act(an, st, i.line, n.split('.')[-1])
        if n in ('out_string', 'write_bin_packet'):
            a = args[1]
            self.tok(st, 'reply', a[1].split()[0] if a[0] == 's' else '?')
        return None

    def branch(self, an, st, i, cond, truth):
        v = strip(cond)
        if v[0] == 'cmp' and v[1] == ('eq' if truth else 'ne'):
            at = an.fn.insts[i.c[1]] if i.c and i.c[0] == 'i' else None
            wide = at is not None and at.op == 'icmp' and any(o[0] == 'i' and an.fn.insts[o[1]].op == 'cast' and an.fn.insts[o[1]].k == 'zext'
                                                              for o in (at.a, at.b))
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                for x in self.get(st, 'conv'):
                    if x[3] == 'int' and strip(x[2]) == strip(a) and (wide or st.rng(b)[0] >= 0):
                        self.tok(st, 'ok', x[1])
        self.settle(an, st)

    def act(self, an, st, line, what):
        if not self.get(st, 'conv') and not self.get(st, 'bad'):
            return
        self.settle(an, st)
        bad = [x[1] for x in st.prop if x[0] in ('conv', 'bad')]
        if bad:
            at = an.fn.insts[bad[0]]
            self.vio(an, line, what, 'happens though an argument (%s, line %d) may not be what the command takes' %
                     (base(an.prog.callee(at) or '?'), at.line))

    def prestore(self, an, st, i, addr, val):
        p = addr
        while p[0] in ('f', 'x'):
            p = p[1]
        if p[0] == 'g' and p[1] in self.settings:
            self.act(an, st, i.line, last_field(addr) or p[1])

    def ret(self, an, st, i, val):
        self.njudge += 1
        if self.parser:
            s = self.good(st, val)
            if s is not None:
                self.settle(an, s)
                if self.get(s, 'bad') or self.get(s, 'conv'):
                    self.vio(an, i.line or an.fn.line, 'result', 'an argument is said to be readable that may not be')
            return
        self.settle(an, st)
        if any(x[1] == '?' or x[1].startswith(('CLIENT_ERROR', 'ERROR', 'ATTR_ERROR')) for x in self.get(st, 'reply')):
            return
        if self.get(st, 'bad'):
            self.vio(an, i.line or an.fn.line, 'answer', 'an argument that cannot be read is not answered as an error of the client')
        elif self.get(st, 'conv'):
            self.vio(an, i.line or an.fn.line, 'result', 'whether an argument can be read is not looked at')


class Number(Facts):
    """safe_strto*: a number with nothing behind it, in the range of its type"""
    OK = 'true'
    BITS = 0

    def start(self, an, st):
        Facts.start(self, an, st)
        t = an.fn.args[1][1]
        self.range = (0, (1 << 32) - 1) if 'uint32' in t else (-(1 << 31), (1 << 31) - 1) if 'int32' in t else None
        self.float = 'float' in t
        self.unsigned = 'uint' in t

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        m = re.search(r'strto(u?l+|f|d)$', n)
        if m:
            self.njudge += 1
            if args[0] != ('a', 0):
                self.vio(an, i.line, n, 'another text than the argument is read')
            if m[1] not in ('f', 'd') and args[2] != ('c', 10):
                self.vio(an, i.line, n, 'numbers are not read as decimal')
            if not self.has(st, 'errno0'):
                self.vio(an, i.line, n, 'errno is not cleared: a number may be taken for one out of range')
            an.effect(st, i, name, args)
            st.mem.pop(('g', 'errno'), None)
            self.tok(st, 'n', st.env[i.id])
            self.tok(st, 'endp', args[1])
            return [st]
        if n == 'strchr' and args[0] == ('a', 0) and args[1] == ('c', 45):
            an.effect(st, i, name, args)
            self.tok(st, 'minus', st.env[i.id])
            return [st]
        if n == '__errno_location':
            an.effect(st, i, name, args)
            st.env[i.id] = ('g', 'errno')
            return [st]
        return None

    def load2(self, an, st, i, addr, val):
        v = st.env[i.id]
        if addr == ('g', 'errno') and self.get(st, 'n'):
            self.watch(st, 'errno', v)
        if any(x[1] == addr for x in self.get(st, 'endp')):
            self.tok(st, 'end', v)
        if any(x[1] == addr for x in self.get(st, 'end')):
            self.tok(st, 'char', v)

    def prestore(self, an, st, i, addr, val):
        if addr == ('g', 'errno'):
            self.drop(st, lambda x: x[0] == 'errno0')
            if val == ('c', 0):
                self.tok(st, 'errno0')
        if addr == ('a', 1) and val != ('c', 0) and not self.float:
            self.njudge += 1
            if not any(strip(x[1]) == strip(val) for x in self.get(st, 'n')):
                self.vio(an, i.line, 'result', 'the number handed back is not the one read')
            self.tok(st, 'set')

    def settle(self, an, st):
        for x in [x for x in st.prop if x[0] == 'w' and x[1] == 'errno']:
            if st.known_ne(x[2], ERANGE):
                self.tok(st, 'inrange')
        if any(st.known_eq(x[1], 0) for x in self.get(st, 'char')):
            self.tok(st, 'over')
        for x in self.get(st, 'end'):
            if st.related('ne', x[1], ('a', 0)) == 1 or st.related('eq', x[1], ('a', 0)) == 0:
                self.tok(st, 'some')
        if any(st.known_eq(x[1], 0) for x in self.get(st, 'minus')) or any(st.rng(x[1])[0] >= 0 for x in self.get(st, 'n')):
            self.tok(st, 'sign')
        if self.range:
            for x in self.get(st, 'n'):
                lo, hi, _ = st.rng(x[1])
                if self.range[0] == 0 and hi <= self.range[1] and (lo >= 0 or self.has(st, 'u32')) or lo >= self.range[0] and hi <= self.range[1]:
                    self.tok(st, 'fits')

    def branch(self, an, st, i, cond, truth):
        v = strip(cond)
        if v[0] == 'cmp':
            q = v[1] if truth else st.NEG[v[1]]
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                a = strip(a)
                if q == 'ne' and b == ('c', 0) and a[:2] == ('bin', 'and') and ('c', SPACE) in a and \
                        any(self.table(an, st, x) for x in a[2:]):
                    self.tok(st, 'space')
            if self.range and self.range[0] == 0:
                a, b, p = strip(v[2]), strip(v[3]), q
                if a[0] == 'c':
                    a, b, p = b, a, st.SWAP[q]
                if any(strip(x[1]) == a for x in self.get(st, 'n')) and b[0] == 'c' and \
                        (p == 'ule' and 0 <= b[1] <= self.range[1] or p == 'ult' and 0 <= b[1] <= self.range[1] + 1):
                    self.tok(st, 'fits')
        self.settle(an, st)

    def table(self, an, st, v):
        """the entry of a table looked up by the character the number ends at"""
        v = strip(v)
        if v[0] != 'i' or an.fn.insts[v[1]].op != 'load':
            return False
        for i in an.fn.all():
            if i.op == 'gep' and ('i', i.id) == an.fn.insts[v[1]].p:
                for s in i.steps:
                    o = s[1] if isinstance(s, (list, tuple)) and len(s) > 1 else None
                    while o and o[0] == 'i' and an.fn.insts[o[1]].op == 'cast':
                        o = an.fn.insts[o[1]].a
                    if o and o[0] == 'i' and any(strip(x[1]) in (tuple(o), strip(st.env.get(o[1], ('u', 0)))) for x in self.get(st, 'char')):
                        return True
        return False

    def success(self, an, st, line):
        if not self.get(st, 'n') or not self.has(st, 'set') and not self.float:
            return self.vio(an, line, 'result', 'an argument counts as read that was not')
        if not self.has(st, 'inrange'):
            self.vio(an, line, 'errno', 'a number out of range counts as read')
        if not self.has(st, 'space') and not (self.has(st, 'over') and self.has(st, 'some')):
            self.vio(an, line, 'endptr', 'a text that is not a number, or has more behind it, counts as read')
        if self.unsigned and not self.has(st, 'sign'):
            self.vio(an, line, 'sign', 'a negative number counts as read where there is no sign')
        if self.range and not self.has(st, 'fits'):
            self.vio(an, line, 'range', 'a number that does not fit its type counts as read')


def results(fn):
    """the constants a function returns; None among them: something else"""
    out, todo, seen = set(), [i.v for i in fn.all() if i.op == 'ret'], set()
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        if v[0] == 'c':
            out.add(v[1])
        elif v[0] == 'i' and fn.insts[v[1]].op == 'phi':
            todo += list(fn.insts[v[1]].phi.values())
        else:
            out.add(None)
    return out


def check(ctx, P, U):
    conv = {n: 'bool' for n in U.fns if n.startswith('safe_strto')}
    if len(conv) < 5:
        raise Broken('the conversions are gone')
    todo = [f for f in P.fns.values() if f.stem == 'memcached']
    more = True
    while more:
        more = False
        for f in todo:
            if f.name not in conv and f.name.startswith('get_') and f.dret == 'int' and any(base(P.callee(i) or '') in conv for i in f.calls()):
                conv[f.name] = 'flag' if results(f) <= {0, -1} else 'int'
                more = True
    K = {'ACT': set()}
    fns = [f for f in todo if any(base(P.callee(i) or '') in conv for i in f.calls())]

    def one(ctx, f):
        c = Args(ctx, P, K, f, 'argument', conv)
        Analysis(P, f, c).run()
        ctx.count('functions judged')
        ctx.count('conversions and results judged', c.njudge)
    ctx.fanout(one, fns)
    for n in sorted(conv):
        if n in U.fns and 'hexa' not in n:
            c = Number(ctx, U, K, U.fns[n], 'number')
            Analysis(U, c.fn, c).run()
            ctx.count('functions judged')
            ctx.count('conversions and results judged', c.njudge)
