"""Recovery replays whole records and whole operations, and leaves the log ending behind the last of them.

The offsets a function works with are followed as sums: `at` is where the record begins that is looked at, `open` where the first record
of an operation begins whose end has not been seen.  A quantity is held by the variables (phis) that carry it over the loop; at every
record the sum read so far says where the next one begins, and the variables must agree.
"""
from itertools import takewhile
from durable import strip, lin
from flow import Analysis, last_field
from ondisk import Track, minus
from own import base
from prog import Broken

AT, OPEN = 'at', 'open'
NONSTRICT = ('ule', 'sle')
STRICT = ('ult', 'slt')


class Sums(Track):
    """quantities carried by variables"""
    QUANT = ()
    ITER = ()        # tokens that belong to one round

    def start(self, an, st):
        self.an = an
        fn = an.fn
        self.rets = set()
        todo = [i.v for i in fn.all() if i.op == 'ret' and i.v is not None]
        while todo:
            o = todo.pop()
            if o[0] == 'i' and o[1] not in self.rets and fn.insts[o[1]].op == 'phi':
                self.rets.add(o[1])
                todo += fn.insts[o[1]].phi.values()

    def norm(self, st, v):
        if v is None:
            return None
        r = self.full(self.an, st, v)
        out = {}
        for k, c in r.items():
            m = self.atom(st, k) if k != 1 else None
            if m is None:
                m = {k: 1}
            for a, b in m.items():
                out[a] = out.get(a, 0) + b * c
        return {a: b for a, b in out.items() if b}

    def value(self, an, st, i):
        if i.op == 'bin' and i.k in ('add', 'sub') or i.op == 'cast' and i.k != 'trunc':
            L = {x[1]: dict(x[2]) for x in st.prop if x[0] == 'L'}
            n = self.one(an, st, i.a, L)
            if i.op == 'bin':
                b = self.one(an, st, i.b, L)
                n = minus(n, b if i.k == 'sub' else {k: -c for k, c in b.items()})
            if n != {('i', i.id): 1} and len(n) < 6:
                self.tok(st, 'L', i.id, tuple(sorted(n.items(), key=repr)))

    def one(self, an, st, o, L):
        return L[o[1]] if o[0] == 'i' and o[1] in L else self.norm(st, an.val(st, o))

    def full(self, an, st, v):
        r = {}
        L = {x[1]: x[2] for x in st.prop if x[0] == 'L'}
        for k, c in lin(v).items():
            for a, b in L[k[1]] if k != 1 and k[0] == 'i' and k[1] in L else ((k, 1),):
                r[a] = r.get(a, 0) + b * c
        r = {a: b for a, b in r.items() if b}
        v = None
        for n in range(6):
            u = next((k for k in r if k != 1 and k[0] == 'i' and (an.fn.insts[k[1]].op == 'bin' and an.fn.insts[k[1]].k in ('add', 'sub') or
                                                                  an.fn.insts[k[1]].op == 'cast' and an.fn.insts[k[1]].k in ('sext', 'zext'))), None)
            if u is None:
                break
            if an.fn.insts[u[1]].op == 'cast':
                w = an.val(st, an.fn.insts[u[1]].a)
                c = r.pop(u)
                for a, b in lin(w).items():
                    r[a] = r.get(a, 0) + b * c
                r = {a: b for a, b in r.items() if b}
                continue
            w = an.unfold(st, u)
            if u in lin(w):
                break
            d = lin(w, r.pop(u))
            r = minus(r, {k: -c for k, c in d.items()})
        return r

    def atom(self, st, k):
        c = st.const(k)
        if c is not None:
            return {1: c} if c else {}
        if k[0] == 'i' and k[1] not in st.env:
            for x in st.prop:
                if x[0] in self.QUANT and x[1] == 'val' and x[3] == k[1]:
                    return lin(x[2])
        return None

    def q(self, st, name):
        """the sums this quantity is known as"""
        out = []
        for x in self.get(st, name):
            if x[1] == 'sum':
                out.append(dict(x[2]))
            elif x[1] == 'val':
                out.append(self.norm(st, x[2]))
            elif x[1] == 'reg' and x[2] in st.env:
                out.append(self.norm(st, st.env[x[2]]))
        return out

    def setq(self, st, name, sums):
        self.drop(st, lambda x: x[0] == name)
        for s in sums[:1]:
            self.tok(st, name, 'sum', tuple(sorted(s.items(), key=repr)))
        if not sums:
            self.tok(st, name, 'lost')

    def phis(self, an, st, b, prev):
        ph = [(i.id, an.val(st, i.phi[prev])) for i in takewhile(lambda i: i.op == 'phi', an.fn.blocks[b])]
        back = an.back.get((prev, b))
        for k, v in ph:
            if k in self.rets:
                self.drop(st, lambda x: x[0] == 'rv')
                if v[0] == 'c':
                    self.tok(st, 'rv', k, v[1])
        live = an.live[b]
        for x in [x for x in st.prop if x[0] in self.QUANT and x[1] == 'reg' and x[2] not in live and x[2] in st.env]:
            st.prop = st.prop - {x}
            self.tok(st, x[0], 'val', st.env[x[2]], x[2])
        inc = {k: self.norm(st, v) for k, v in ph}
        val = dict(ph)
        turn = back is not None and self.mainloop(b)
        if turn:
            self.round(an, st)
        was = {name: self.q(st, name) for name in self.QUANT if self.get(st, name)}
        if turn:
            held = set(st.mem.values()) | set(st.env.values())
            self.drop(st, lambda x: x[0] in self.ITER or x[0] == 'size' and x[1] not in held)
        self.drop(st, lambda x: x[0] == 'L' and back is not None)
        for name, old in was.items():
            regs = {x[2] for x in self.get(st, name) if x[1] == 'reg' and x[2] in an.live[b]}
            regs = {r for r in regs if r not in inc}
            new = {k for k, n in inc.items() if n in old}
            vals = [x for x in self.get(st, name) if x[1] == 'val' and back is None]
            if turn and regs | new and all(int(an.fn.insts[k].ty[1:] or 0) < 64 for k in regs | new if an.fn.insts[k].ty[0] == 'i'):
                self.vio(an, an.fn.line, 'offset', 'a position in the log is kept in less than 64 bits')
            self.drop(st, lambda x: x[0] == name)
            for k in regs | new:
                self.tok(st, name, 'reg', k)
                if turn and k in val and val[k][0] != 'c':
                    st.narrow(val[k], 0, 1 << 62)
            st.prop = st.prop | frozenset(vals)
            if not regs | new and not vals:
                if back is None and old:
                    self.tok(st, name, 'sum', tuple(sorted(old[0].items(), key=repr)))
                else:
                    self.tok(st, name, 'lost')

    def mainloop(self, b):
        return True

    def round(self, an, st):
        pass

    def fails(self, st, val):
        """does the path report a failure"""
        v = strip(val)
        if v[0] == 'c':
            return v[1] & 0x80000000 != 0 or v[1] < 0
        for x in self.get(st, 'rv'):
            return x[2] & 0x80000000 != 0 or x[2] < 0
        return st.rng(v)[1] < 0


class Replay(Sums):
    """cmdlog_file_apply"""
    QUANT = (AT, OPEN)
    ITER = ('redo', 'safe', 'whres', 'wbres', 'nobody', 'len', 'type', 'pend', 'bounded', 'hres', 'bres', 'alias', 'run', 'end')
    LIMIT = 'SIZE'

    def start(self, an, st):
        Sums.start(self, an, st)
        self.HDR = self.K['HDR']
        self.reads = 0
        self.begin(an, st)

    def begin(self, an, st):
        self.setq(st, AT, [{}])

    def atom(self, st, k):
        for x in st.prop:
            if x[0] == 'size' and x[1] == k:
                return {'SIZE': 1}
            if x[0] == 'len' and x[1] == k:
                z = self.body0(st)
                return {} if z else {'BODY': 1}
            if x[0] == 'alias' and x[1] == k:
                return dict(x[2])
            if x[0] == 'hres' and x[1] == k and self.whole(st, 'hres'):
                return {1: self.HDR}
            if x[0] == 'bres' and x[1] == k and self.whole(st, 'bres'):
                return {'BODY': 1}
        return Sums.atom(self, st, k)

    def body0(self, st):
        return self.has(st, 'nobody') or any(st.known_eq(x[1], 0) for x in st.prop if x[0] == 'len')

    def whole(self, st, what):
        if self.has(st, 'w' + what):
            return True
        for x in st.prop:
            if x[0] == what:
                if st.const(x[1]) == self.HDR and what == 'hres' or st.known_eq(x[1], self.HDR) and what == 'hres':
                    return True
                if what == 'bres' and any(self.same(st, x[1], y[1]) for y in st.prop if y[0] == 'len'):
                    return True
        return False

    def load2(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        v = strip(st.env[i.id])
        if f == '_log_file.size' or f.endswith('stat.st_size'):
            if v[0] != 'c':
                self.tok(st, 'size', v)
            else:
                self.tok(st, 'sized', v)
        elif f.endswith('loghdr.body_length'):
            self.tok(st, 'len', v)
        elif f.endswith('loghdr.logtype'):
            self.tok(st, 'type', v)
        elif f.endswith('.initialized'):
            self.tok(st, 'run', v)

    # what the header says
    def types(self, st):
        return [x[1] for x in st.prop if x[0] == 'type']

    def istype(self, st, name):
        t = self.K[name]
        if any(st.known_eq(v, t) for v in self.types(st)):
            return True
        if any(st.known_ne(v, t) for v in self.types(st)):
            return False
        return None

    def pos(self, st):
        d = {1: self.HDR}
        if self.get(st, 'bres'):
            d['BODY'] = 1
        return [minus(s, {k: -c for k, c in d.items()}) for s in self.q(st, AT)]

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n in ('disk_read', 'read'):
            return self.read(an, st, i, n, args)
        if n == 'lrec_redo_from_record':
            self.redo(an, st, i, n, args)
            an.effect(st, i, name, args)
            self.tok(st, 'redo', st.env[i.id], i.line)
            return [st]
        if n == 'do_redo_pending_lrec':
            self.njudge += 1
            if not all(a[2] == 'i64' for a in an.prog.fns[n].args[1:3]):
                self.vio(an, i.line, n, 'a position in the log is handed over in less than 64 bits')
            if not self.get(st, OPEN) or self.istype(st, 'END') is not True:
                self.vio(an, i.line, n, 'records are replayed as an operation that is not complete')
            elif self.norm(st, args[1]) not in self.q(st, OPEN) or self.norm(st, args[2]) not in self.pos(st):
                self.vio(an, i.line, n, 'not all records of the operation, or records outside it, are replayed')
            an.effect(st, i, name, args)
            self.tok(st, 'pend', st.env[i.id])
            return [st]
        if n in ('disk_lseek', 'lseek'):
            return self.seek(an, st, i, name, args)
        if n == 'ftruncate':
            self.njudge += 1
            if self.norm(st, args[1]) not in self.rest(st):
                self.vio(an, i.line, n, 'the log is not cut off behind its last complete record or operation')
            an.effect(st, i, name, args)
            self.tok(st, 'cut', st.env[i.id])
            return [st]
        return None

    def rest(self, st):
        """where the log is complete"""
        if self.get(st, OPEN):
            return [minus(s, {1: self.HDR}) for s in self.q(st, OPEN)]
        return self.q(st, AT)

    def seek(self, an, st, i, name, args):
        if args[2] == ('c', 0):
            good = self.norm(st, args[1]) in self.rest(st)
            an.effect(st, i, name, args)
            if good:
                self.tok(st, 'set', st.env[i.id])
            return [st]
        if args[2] == ('c', 1):
            d = self.norm(st, args[1])
            here = self.pos(st) if self.whole(st, 'hres') and (not self.get(st, 'bres') or self.whole(st, 'bres')) else []
            an.effect(st, i, name, args)
            for p in here:
                s = minus(p, {k: -c for k, c in d.items()})
                self.tok(st, 'alias', st.env[i.id], tuple(sorted(s.items(), key=repr)))
            return [st]
        return None

    def read(self, an, st, i, n, args):
        self.reads += 1
        if strip(args[2]) == ('c', self.HDR) and not self.get(st, 'hres'):
            an.effect(st, i, n, args)
            self.tok(st, 'hres', st.env[i.id], args[1])
            return [st]
        d = self.norm(st, args[2])
        self.njudge += 1
        if not self.whole(st, 'hres'):
            self.vio(an, i.line, n, 'the body of a record is read though its header may not have been read as a whole')
        elif d != {'BODY': 1}:
            self.vio(an, i.line, n, 'the body of a record is not read with its length')
        if not self.fits(an, st, args[1]):
            self.vio(an, i.line, n, 'the body of a record may be longer than the space for it')
        keep = [x for x in st.prop if x[0] == 'len']
        vals = [(a, v) for a, v in st.mem.items() if (last_field(a) or '').split('.')[-1] in ('body_length', 'logtype')]
        an.effect(st, i, n, args)
        for a, v in vals:               # the body is read behind the header
            st.mem[a] = v
        self.tok(st, 'bres', st.env[i.id])
        return [st]

    def fits(self, an, st, p):
        room = self.room(an, st, p)
        return room is not None and (any(x[1] <= room for x in self.get(st, 'bounded')) or any(0 <= st.rng(x[1])[1] <= room for x in self.get(st, 'len')))

    def room(self, an, st, p):
        """bytes from this place to the end of its buffer"""
        off = 0
        while p[0] == 'x':
            if p[2][0] != 'c':
                d = self.norm(st, p[2])
                if set(d) - {1}:
                    return None
                off += d.get(1, 0)
            else:
                off += p[2][1]
            p = p[1]
        if p[0] != 'al':
            return None
        for j in an.fn.all():
            if j.op == 'alloca' and j.id == p[1] and j.sizes:
                return j.sizes[0] - off
        return None

    def nothing(self, st):
        """an empty log, or the server stops"""
        return self.has(st, 'nothing') or any(st.known_eq(x[1], 0) for x in st.prop if x[0] in ('run', 'size')) or \
            any(x[1] == ('c', 0) for x in self.get(st, 'sized'))

    def redo(self, an, st, i, n, args):
        self.njudge += 1
        if not self.whole(st, 'hres') or not self.body0(st) and not self.whole(st, 'bres'):
            self.vio(an, i.line, n, 'a record is replayed that may not have been read as a whole')
        if self.get(st, OPEN):
            self.vio(an, i.line, n, 'a record is replayed before the operation it belongs to is known to be complete')
        if self.get(st, 'redo'):
            self.vio(an, i.line, n, 'a record is replayed twice')

    def branch(self, an, st, i, cond, truth):
        for w in ('hres', 'bres'):
            if self.whole(st, w):
                self.tok(st, 'w' + w)
        if self.body0(st):
            self.tok(st, 'nobody')
        if self.nothing(st):
            self.tok(st, 'nothing')
        v = strip(cond)
        if v is None or v[0] != 'cmp':
            return
        for x, y, p in ((v[2], v[3], v[1]), (v[3], v[2], st.SWAP[v[1]])):
            q = p if truth else st.NEG[p]
            sx, sy = strip(x), strip(y)
            if sy[0] == 'c' and sx[0] != 'c' and not self.can(st, self.norm(st, x), q, sy[1]):
                return False
            if sy[0] == 'c' and any(t[1] == sx for t in self.get(st, 'redo')):
                if q == 'ne' and sy[1] == self.K['ENOMEM'] or q == 'eq' and sy[1] != self.K['ENOMEM']:
                    self.tok(st, 'safe')
            if sy[0] == 'c' and any(t[1] == sx for t in self.get(st, 'len')):
                if q in ('ule', 'sle'):
                    self.tok(st, 'bounded', sy[1])
                elif q in ('ult', 'slt'):
                    self.tok(st, 'bounded', sy[1] - 1)
            if q in STRICT or q in NONSTRICT or q == 'eq':
                d = minus(self.norm(st, x) or {}, self.norm(st, y) or {})
                if d.get(self.LIMIT) == 1 or q == 'eq' and d.get(self.LIMIT) == -1:
                    for a in self.q(st, AT):
                        self.ended(st, d, a, q)

    LEAST = {OPEN: 1}

    def can(self, st, s, q, c):
        """a position lies not before the start of the log"""
        for name in self.QUANT:
            if s in self.q(st, name):
                least = self.LEAST.get(name, 0)
                return {'eq': c >= least, 'slt': c > least, 'sle': c >= least, 'ult': c > least, 'ule': c >= least}.get(q, True)
        return True

    def ended(self, st, d, a, q):
        """does SIZE - … < 0 say that no complete record is left"""
        if d.get(self.LIMIT) == -1:
            d = {k: -c for k, c in d.items()}
        e = minus(d, {self.LIMIT: 1})
        e = minus(e, {k: -c for k, c in a.items()})          # + at
        if q == 'eq':
            if not e:
                self.tok(st, 'end')
            return
        if not e or q in STRICT and (e == {1: -self.HDR} or self.whole(st, 'hres') and e == {1: -self.HDR, 'BODY': -1}):
            self.tok(st, 'end')

    def round(self, an, st):
        """the next record is looked at"""
        self.njudge += 1
        line = an.fn.line
        if not self.whole(st, 'hres'):
            return self.vio(an, line, 'header', 'goes on though the header of a record may not have been read as a whole')
        if not self.body0(st) and self.istype(st, 'BEGIN') is not True and self.istype(st, 'END') is not True and not self.whole(st, 'bres'):
            self.vio(an, line, 'body', 'goes on though the body of a record may not have been read as a whole')
        here = self.pos(st)
        B, E = self.istype(st, 'BEGIN'), self.istype(st, 'END')
        if B:
            if self.get(st, OPEN):
                self.vio(an, line, 'LOG_OPERATION_BEGIN', 'an operation begins inside another one')
            self.setq(st, OPEN, here)
        elif E:
            if self.get(st, OPEN) and not any(st.rng(x[1])[0] >= 0 for x in self.get(st, 'pend')):
                self.vio(an, line, 'LOG_OPERATION_END', 'an operation is complete and its records may not all have been replayed')
            self.drop(st, lambda x: x[0] == OPEN)
        else:
            if B is None or E is None:
                self.vio(an, line, 'logtype', 'begin and end of an operation are not told from other records')
            self.applied(an, st, line)
        self.setq(st, AT, here)

    def applied(self, an, st, line):
        r = self.get(st, 'redo')
        if not self.get(st, OPEN) and not r:
            self.vio(an, line, 'record', 'a complete record is passed over without being replayed')
        for x in r:
            if not self.has(st, 'safe') and not st.known_ne(x[1], self.K['ENOMEM']):
                self.vio(an, x[2], 'record', 'recovery goes on though a record could not be replayed for lack of memory')

    def ret(self, an, st, i, val):
        if self.fails(st, val):
            return
        self.njudge += 1
        line = i.line or an.fn.line
        if self.nothing(st):
            return
        if self.get(st, 'redo'):
            self.applied(an, st, line)
        if not self.has(st, 'end'):
            self.vio(an, line, 'end', 'recovery reports success though complete records may be left in the log')
        if not any(st.rng(x[1])[0] >= 0 for x in self.get(st, 'cut')):
            self.vio(an, line, 'ftruncate', 'recovery reports success and leaves what follows the last complete record in the log')
        if not any(st.rng(x[1])[0] >= 0 or st.known_ne(x[1], -1) or st.known_ne(x[1], (1 << 64) - 1) for x in self.get(st, 'set')):
            self.vio(an, line, 'lseek', 'recovery reports success and new records may not be written behind the last complete one')
        if not self.has(st, 'sizeset'):
            self.vio(an, line, 'size', 'the size of the log is not that of its complete records')

    def prestore(self, an, st, i, addr, val):
        if last_field(addr) == '_log_file.size' and (self.get(st, 'cut') or self.has(st, 'end')):
            if self.norm(st, val) in self.rest(st):
                self.tok(st, 'sizeset')


class Pending(Replay):
    """do_redo_pending_lrec: (file, start, end), called when the file is read up to end"""
    QUANT = (AT,)
    LIMIT = ('a', 2)
    FROM = {('a', 1): 1}

    def begin(self, an, st):
        self.tok(st, AT, 'none')

    def seek(self, an, st, i, name, args):
        d = self.norm(st, args[1])
        if args[2] == ('c', 1):
            d = minus(d, {self.LIMIT: -1})
        an.effect(st, i, name, args)
        self.njudge += 1
        if args[2] not in (('c', 0), ('c', 1)) or d != self.FROM:
            self.vio(an, i.line, 'lseek', 'an operation is not replayed from its first record on')
        else:
            self.setq(st, AT, [self.FROM])
            self.tok(st, 'start', st.env[i.id])
        return [st]

    def atom(self, st, k):
        for x in st.prop:
            if x[0] == 'start' and x[1] == k:
                return self.FROM
        return Replay.atom(self, st, k)

    def fits(self, an, st, p):
        return True               # its length was judged when the record was read first

    def round(self, an, st):
        self.njudge += 1
        line = an.fn.line
        if not self.whole(st, 'hres'):
            return self.vio(an, line, 'header', 'goes on though the header of a record may not have been read as a whole')
        if not self.body0(st):
            if not self.whole(st, 'bres'):
                self.vio(an, line, 'body', 'goes on though the body of a record may not have been read as a whole')
            self.applied(an, st, line)
        self.setq(st, AT, self.pos(st))

    def ret(self, an, st, i, val):
        if self.fails(st, val):
            return
        self.njudge += 1
        if self.get(st, 'redo'):
            self.applied(an, st, i.line or an.fn.line)
        if not self.has(st, 'end'):
            self.vio(an, i.line or an.fn.line, 'end', 'an operation counts as replayed though records of it may be left')


def check(ctx, P, K):
    for cls, n in ((Replay, 'cmdlog_file_apply'), (Pending, 'do_redo_pending_lrec')):
        f = P.fns.get(n)
        if f is None:
            if cls is Pending:
                continue          # then nothing replays a complete operation, which is judged at its end
            raise Broken(n + ' is gone')
        c = cls(ctx, P, K, f, 'replay')
        Analysis(P, c.fn, c).run()
        ctx.count('functions judged')
        ctx.count('states judged', c.njudge)
