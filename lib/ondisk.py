"""The way of the log records to the disk, for synchronous logging.

  answer    a logged request that succeeded is answered at once only if nobody waits for it (asynchronous logging, noreply) or if the
            log is known to be on disk beyond its last record; else it is put at the end of the waiting list and reported as pending
  release   of the waiting list only those are released whose last record lies before the mark up to which the log is on disk
  mark      that mark is moved only to where the log had been written when the file descriptors were taken, after all of them (the
            current log, and that of a running checkpoint) were forced to disk without an error
  write     the mark up to which the log has been written moves by what was taken from the buffer at its head and written
  record    a record is copied to free space at the tail of the buffer, and the tail, the end of the log and the amounts to flush grow
            by its size; the request waits for the place it was written to
"""
from durable import Base, strip, lin, INF
from itertools import takewhile
from flow import Analysis, last_field
from own import base
from prog import Broken


class Track(Base):
    cap = 30
    total_cap = 4000

    def __init__(self, ctx, P, K, fn, what):
        Base.__init__(self, ctx, P, K, {})
        self.fn, self.what = fn, what

    def load(self, an, st, i, addr, val):
        self.load2(an, st, i, addr, val)

    def merge_old(self, an, st, ids):
        return frozenset(x for x in st.prop if not any(_has(y, ids) for y in x[1:]))

    def vio(self, an, line, construct, msg):
        self.bad(self.what, an, line, construct, msg)

    # relations
    def less(self, st, a, b, p='ult'):
        a, b = strip(a), strip(b)
        if a == b:
            return False
        if b[0] == 'c' and a[0] != 'c':
            return st.rng(a)[1] < b[1]
        return any(st.related(q, x, y) == 1 for q in ('ult', 'slt') for x, y in ((a, b),))

    def same(self, st, a, b):
        a, b = strip(a), strip(b)
        return a == b or st.related('eq', a, b) == 1 or a[0] == 'c' and st.const(b) == a[1] or b[0] == 'c' and st.const(a) == b[1]

    def beyond(self, st, A, B):
        """is the log position in cell A known to be greater than that in cell B"""
        fa, ra, fb, rb = (st.mem.get(('f', c, 'logsn.' + m)) for c, m in ((A, 'filenum'), (A, 'roffset'), (B, 'filenum'), (B, 'roffset')))
        fa, fb = fa or st.mem.get(A), fb or st.mem.get(B)       # the first member lies where the whole lies
        if None in (fa, fb):
            return False
        if self.less(st, fb, fa):
            return True
        return self.same(st, fa, fb) and None not in (ra, rb) and self.less(st, rb, ra)


def _has(x, ids):
    if isinstance(x, tuple):
        if len(x) > 1 and x[0] in ('i', 'j') and x[1] in ids:
            return True
        return any(_has(y, ids) for y in x)
    return False


def minus(a, b):
    d = dict(a)
    for k, c in b.items():
        d[k] = d.get(k, 0) - c
    return {k: c for k, c in d.items() if c}


def truth(v):
    v = strip(v)
    while v[0] == 'cmp' and v[1] == 'ne' and strip(v[3]) == ('c', 0):
        v = strip(v[2])
    return v


class Answer(Track):
    """cmdlog_waiter_end"""

    def load2(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        if f.endswith('engine_config.async_logging'):
            self.tok(st, 'async', st.env[i.id])
        if addr == ('a', 1):
            self.tok(st, 'result', st.env[i.id])

    def prestore(self, an, st, i, addr, val):
        if addr == ('a', 1):
            self.tok(st, 'says', strip(val), i.line)
        f = last_field(addr) or ''
        if val is not None and strip(val) == ('a', 0):
            if f.endswith('_log_waiter.wait_next'):
                self.tok(st, 'linked', addr[1], i.line)
            elif f.endswith('_group_commit.wait_head'):
                ok = any(st.known_eq(x[1], 0) for x in st.prop if x[0] == 'tail')
                self.tok(st, 'linked', None if ok else ('c', 1), i.line)
            elif f.endswith('_group_commit.wait_tail'):
                self.tok(st, 'last', i.line)
        if f.endswith('_log_waiter.wait_next') and addr[1] == ('a', 0) and strip(val) == ('c', 0):
            self.tok(st, 'ends')
        if f.endswith('_group_commit.wait_cnt') and strip(val)[0] == 'bin':
            self.tok(st, 'counted')

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'cmdlog_get_fsync_lsn':
            self.tok(st, 'fsync', args[0])
        elif n.endswith('.get_noreply'):
            an.effect(st, i, name, args)
            self.tok(st, 'noreply', st.env[i.id])
            return [st]
        elif n == 'cmdlog_buff_flush_request':
            if args[0] == ('f', ('a', 0), '_log_waiter.lsn'):
                self.tok(st, 'asked')
        elif n == 'do_cmdlog_waiter_free' and args[0] == ('a', 0):
            self.sure(an, st, i)
            self.tok(st, 'freed', i.line)
        return None

    def sure(self, an, st, i):
        """is it proven, before the waiter is given back, that nobody has to wait"""
        ok = any(st.known_ne(x[1], 0) for x in st.prop if x[0] in ('result', 'async', 'noreply'))
        lsn = ('f', ('a', 0), '_log_waiter.lsn')
        for x in st.prop:
            if x[0] == 'fsync' and self.beyond(st, x[1], lsn):
                ok = True
        if ok:
            self.tok(st, 'sure')

    def ret(self, an, st, i, val):
        self.njudge += 1
        if any(x[0] == 'linked' for x in st.prop) and not self.has(st, 'tailed'):
            pass
        says = [x for x in st.prop if x[0] == 'says']
        queued = [x for x in st.prop if x[0] == 'linked']
        freed = self.has(st, 'freed')
        pend = any(x[1] == ('c', self.K['WOULDBLOCK']) for x in says)
        if queued and freed or not queued and not freed:
            self.vio(an, i.line or an.fn.line, 'waiter', 'a request is %s the waiting list and given back' % ('put on' if queued else 'neither put on'))
            return
        for x in says:
            if x[1] != ('c', self.K['WOULDBLOCK']) or not queued:
                self.vio(an, x[-1], 'result', 'the result of the request is changed though it does not wait')
        if queued and not pend:
            self.vio(an, queued[0][-1], 'result', 'a request that waits for the disk is answered before')
        if queued:
            if not any(st.known_eq(x[1], 0) for x in st.prop if x[0] == 'result'):
                self.vio(an, queued[0][-1], 'waiting list', 'a request that failed waits, and is answered as a success')
            tails = [x[1] for x in st.prop if x[0] == 'tail']
            if not self.has(st, 'ends') or not self.has(st, 'last') or not self.has(st, 'counted') or \
                    not any(x[1] is None or any(self.same(st, x[1], t) for t in tails) for x in queued):
                self.vio(an, queued[0][-1], 'waiting list', 'a request is not put at the end of the waiting list')
            if not self.has(st, 'asked'):
                self.vio(an, queued[0][-1], 'waiting list', 'nothing asks for the log to be written that the request waits for')
        elif not self.has(st, 'sure'):
            self.vio(an, i.line or an.fn.line, 'answer', 'a request that succeeded is answered though its records may not be on disk yet')


class AnswerTail(Answer):
    def load2(self, an, st, i, addr, val):
        Answer.load2(self, an, st, i, addr, val)
        if (last_field(addr) or '').endswith('_group_commit.wait_tail'):
            self.tok(st, 'tail', st.env[i.id])


class Release(Track):
    """do_cmdlog_get_commit_waiter: (list, mark) -> those that need not wait any more"""

    def start(self, an, st):
        self.mark = [k for k, a in enumerate(an.fn.args) if 'LogSN' in a[1] or 'logsn' in a[1]]

    def load2(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        if f.endswith('_log_waiter.wait_next'):
            self.njudge += 1
            node = addr[1]
            lsn = ('f', node, '_log_waiter.lsn')
            if not self.mark or not self.beyond(st, ('a', self.mark[0]), lsn):
                self.vio(an, i.line, 'waiting list', 'a request is passed over as written to disk whose last record may not be')
            self.drop(st, lambda x: x[0] == 'looked')
        if f.startswith('logsn.') and addr[1][0] == 'f' and addr[1][2] == '_log_waiter.lsn':
            self.drop(st, lambda x: x[0] == 'looked')
            self.tok(st, 'looked', addr[1][1])

    def prestore(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        if f.endswith('_log_waiter.wait_next') and strip(val) == ('c', 0):
            self.tok(st, 'cut', addr[1])
        if f.endswith('_group_commit.wait_head'):
            self.tok(st, 'head', strip(val), i.line)

    def ret(self, an, st, i, val):
        v = strip(val)
        if v == ('c', 0) or st.known_eq(v, 0):
            for x in self.get(st, 'head'):
                self.vio(an, x[-1], 'waiting list', 'requests are taken off the waiting list and not released')
            return
        for x in self.get(st, 'looked'):
            n = x[1]
            if self.beyond(st, ('a', self.mark[0]), ('f', n, '_log_waiter.lsn')):
                continue
            if not any(y[1] != n for y in self.get(st, 'cut')):
                self.vio(an, i.line or an.fn.line, 'waiting list', 'a request is released with the others though its last record may '
                         'not be on disk yet')
            if not any(y[1] == n for y in self.get(st, 'head')):
                self.vio(an, i.line or an.fn.line, 'waiting list', 'the first request that still has to wait is not kept')
        if not self.get(st, 'head'):
            self.vio(an, i.line or an.fn.line, 'waiting list', 'requests are released and stay on the waiting list')


class Notify(Track):
    """who is told that a request is on disk"""

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'cmdlog_get_fsync_lsn':
            self.tok(st, 'fsync', args[0])
        elif n == 'do_cmdlog_get_commit_waiter':
            self.njudge += 1
            if not any(x[1] == args[1] for x in self.get(st, 'fsync')):
                self.vio(an, i.line, n, 'requests are released by another mark than that up to which the log is on disk')
            an.effect(st, i, name, args)
            self.tok(st, 'got', st.env[i.id])
            return [st]
        elif n in self.K['TELL'] and n != an.fn.name:
            self.njudge += 1
            v = strip(args[0])
            if not any(x[1] == v for x in self.get(st, 'got')) and not st.known_eq(v, 0) and v != ('c', 0):
                self.vio(an, i.line, n, 'requests are answered that were not found to be on disk')
        elif n == 'usleep' or n == 'pthread_cond_timedwait':
            self.drop(st, lambda x: x[0] == 'got')
        return None


class Mark(Track):
    """cmdlog_file_sync: how far the log is on disk"""

    def load2(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        if f in ('_log_file.fd', '_log_file.next_fd'):
            self.tok(st, 'fd', f.split('.')[1], st.env[i.id], self.has(st, 'cell'))

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'cmdlog_get_flush_lsn':
            if (last_field(args[0]) or '').endswith('.nxt_fsync_lsn'):
                self.moved(an, st, i, None)
                return None
            an.effect(st, i, name, args)
            old = self.get(st, 'fd')
            self.drop(st, lambda x: x[0] in ('cell', 'fd'))
            for x in old:                        # looked up before this
                self.tok(st, 'fd', x[1], x[2], False)
            self.tok(st, 'cell', args[0])
            return [st]
        if n == 'pthread_mutex_lock' and (last_field(args[0]) or '').endswith('file_access_lock'):
            self.drop(st, lambda x: x[0] == 'fd')
        if n == 'disk_fsync':
            an.effect(st, i, name, args)
            st.narrow(st.env[i.id], *self.K['SYNC'])
            self.tok(st, 'synced', strip(args[0]), st.env[i.id])
            return [st]
        if n == 'memcpy' and (last_field(args[0]) or '').endswith('.nxt_fsync_lsn'):
            self.moved(an, st, i, args[1])
        return None

    def prestore(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        hit = f.endswith('.nxt_fsync_lsn') or f.startswith('logsn.') and addr[1][0] == 'f' and addr[1][2].endswith('.nxt_fsync_lsn')
        if hit and strip(val)[0] != 'c':
            m = 'roffset' if f.endswith('roffset') else 'filenum'
            for x in self.get(st, 'cell'):
                if self.same(st, st.mem.get(('f', x[1], 'logsn.' + m)) or ('u', 0), val):
                    self.moved(an, st, i, x[1])
                    return
            self.moved(an, st, i, None)

    def moved(self, an, st, i, src):
        self.njudge += 1
        if not any(x[1] == src for x in self.get(st, 'cell')):
            self.vio(an, i.line, 'nxt_fsync_lsn', 'the mark up to which the log is on disk is not where the log had been written to')
            return
        for m in ('fd', 'next_fd'):
            c = [x for x in self.get(st, 'fd') if x[1] == m]
            if not c:
                self.vio(an, i.line, 'nxt_fsync_lsn', 'the mark moves without regard to %s' % m)
            for x in c:
                if not x[3]:
                    self.vio(an, i.line, 'nxt_fsync_lsn', 'the file (%s) was looked up before the end of the written log: records written '
                             'in between may be in another file' % m)
                elif m == 'next_fd' and st.known_eq(x[2], -1):
                    continue
                elif not any(y[1] == x[2] and st.rng(y[2])[0] >= 0 and st.rng(y[2])[0] <= st.rng(y[2])[1] and st.rng(y[2])[0] != -INF
                             and not st.rng(y[2])[0] < 0 for y in self.get(st, 'synced')):
                    self.vio(an, i.line, 'nxt_fsync_lsn', 'the mark moves though the log file (%s) is not known to have been forced to disk' % m)


class Forced(Track):
    """disk_fsync: success only if the file was forced to disk"""

    def call(self, an, st, i, name, args):
        if name in ('fsync', 'fdatasync'):
            an.effect(st, i, name, args)
            self.tok(st, 'did', strip(args[0]), st.env[i.id])
            return [st]
        return None

    def ret(self, an, st, i, val):
        self.njudge += 1
        v = strip(val)
        r = st.rng(v) if v[0] != 'c' else ((v[1] ^ 0x80000000) - 0x80000000 if 0 <= v[1] < 1 << 32 else v[1],) * 2
        R = self.K.setdefault('SYNC', [r[0], r[1]])
        R[:] = [min(R[0], r[0]), max(R[1], r[1])]
        if v[0] == 'c' and v[1] & 0x80000000 or st.rng(v)[1] < 0:
            return
        if not any(x[1] == ('a', 0) and (st.known_eq(x[2], 0) or st.rng(x[2])[0] >= 0 or x[2] == v) for x in self.get(st, 'did')):
            self.vio(an, i.line or an.fn.line, 'fsync', 'reports success though the file may not have been forced to disk')


class Append(Track):
    """cmdlog_file_write"""

    def load2(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        if f in ('_log_file.fd', '_log_file.next_fd'):
            self.tok(st, f.split('.')[1], st.env[i.id])

    def call(self, an, st, i, name, args):
        if name == 'disk_write':
            an.effect(st, i, name, args)
            which = [x[0] for x in st.prop if x[0] in ('fd', 'next_fd') and x[1] == strip(args[0])]
            self.njudge += 1
            if args[1] != ('a', 0) or strip(args[2]) != ('a', 1):
                self.vio(an, i.line, name, 'writes something else than what was handed over')
            for w in which:
                if any(x[0] == 'wrote' and x[1] == w for x in st.prop):
                    self.vio(an, i.line, name, 'writes to the log twice')
                self.tok(st, 'wrote', w, st.env[i.id])
            return [st]
        return None

    def ret(self, an, st, i, val):
        self.njudge += 1
        w = {x[1]: x[2] for x in st.prop if x[0] == 'wrote'}
        for m, v in w.items():
            if not self.same(st, v, ('a', 1)):
                self.vio(an, i.line or an.fn.line, 'disk_write', 'part of the log may not have been written (%s)' % m)
        if 'fd' not in w:
            self.vio(an, i.line or an.fn.line, 'disk_write', 'the log is not written')
        none = any(st.known_eq(x[1], -1) for x in st.prop if x[0] == 'next_fd')
        if 'next_fd' not in w and not none and not st.known_eq(('a', 2), 0):
            self.vio(an, i.line or an.fn.line, 'disk_write', 'what belongs to the log of the running checkpoint too is not written to it')
        if 'next_fd' in w and not st.known_ne(('a', 2), 0):
            self.vio(an, i.line or an.fn.line, 'disk_write', 'what does not belong to the log of the running checkpoint is written to it')


class Flush(Track):
    """do_log_buff_flush"""

    def load2(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        if f in ('_log_freq.nflush', '_log_freq.dual_write'):
            self.tok(st, f.split('.')[1], st.env[i.id], addr[1])
        if f in ('_log_buffer.data', '_log_buffer.head'):
            self.tok(st, 'b', f.split('.')[1], st.env[i.id])

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'cmdlog_file_write':
            self.njudge += 1
            a = args[0]
            data = [x[2] for x in self.get(st, 'b') if x[1] == 'data']
            head = st.mem.get(self.H)
            if a[0] != 'x' or a[1] not in data or head is None or not self.same(st, a[2], head):
                self.vio(an, i.line, n, 'what is written is not what lies at the head of the buffer')
            if self.get(st, 'wrote'):
                self.vio(an, i.line, n, 'writes twice')
            e = [x[2] for x in self.get(st, 'nflush') if x[1] == strip(args[1])]
            if not e:
                self.vio(an, i.line, n, 'another amount is written than what was asked for')
            elif not any(x[2] in e and (self.same(st, truth(x[1]), truth(args[2])) or
                         strip(args[2]) == ('c', 1) and st.known_ne(x[1], 0)) for x in self.get(st, 'dual_write')):
                self.vio(an, i.line, n, 'whether the log of the running checkpoint gets this piece too is not what was asked for')
            an.effect(st, i, name, args)
            self.tok(st, 'wrote', strip(args[1]), i.line)
            return [st]
        if n == 'cmdlog_file_complete_dual_write':
            if self.get(st, 'wrote'):
                self.vio(an, i.line, n, 'the log of a checkpoint takes over before the records before that are written')
            self.tok(st, 'over')
        return None

    def start(self, an, st):
        self.H = ('f', ('g', 'log_buff_gl'), '_log_buffer.head')

    def prestore(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        g = addr
        lsn = f.endswith('.nxt_flush_lsn') or len(addr) > 2 and addr[1][0] == 'f' and addr[1][2].endswith('.nxt_flush_lsn')
        v = strip(val) if val is not None else None
        if lsn and f.endswith('roffset'):
            self.njudge += 1
            w = [x[1] for x in self.get(st, 'wrote')]
            old = st.mem.get(addr)
            if v[0] == 'bin' and v[1] == 'add':
                d = [strip(z) for z in v[2:4]]
                o = strip(old) if old is not None else None
                rest = [z for z in d if z != o]
                if o in d and len(rest) == 1 and rest[0] in w:
                    if self.get(st, 'moved'):
                        self.vio(an, i.line, 'nxt_flush_lsn', 'the mark moves twice for one piece of the log')
                    self.tok(st, 'moved', i.line)
                    return
                self.vio(an, i.line, 'nxt_flush_lsn', 'the mark up to which the log has been written moves by something else than what '
                         'was written')
            elif not self.get(st, 'over'):
                self.vio(an, i.line, 'nxt_flush_lsn', 'the mark moves to another log file that has not taken over')
        elif lsn and v != ('c', 0) and not self.get(st, 'over'):
            self.vio(an, i.line, 'nxt_flush_lsn', 'the mark moves to another log file that has not taken over')
        if f == '_log_buffer.head' and v[0] == 'bin':
            w = [x[1] for x in self.get(st, 'wrote')]
            if not any(strip(z) in w for z in v[2:4]):
                self.vio(an, i.line, 'head', 'space of the buffer is released that has not been written')
            self.tok(st, 'freed')
        if f == '_log_buffer.head' and v == ('c', 0):
            h, l = st.mem.get(addr), st.mem.get(('f', addr[1], '_log_buffer.last'))
            if not self.get(st, 'last'):
                self.vio(an, i.line, 'head', 'the head of the buffer goes back to its begin before its end is reached')
        if f == '_log_buffer.last' and v[0] == 'c':
            h, l = st.mem.get(('f', addr[1], '_log_buffer.head')), st.mem.get(addr)
            if h is None or l is None or not self.same(st, h, l):
                self.vio(an, i.line, 'last', 'the end of the buffer is forgotten before the head has reached it')
            self.tok(st, 'last')

    def ret(self, an, st, i, val):
        self.njudge += 1
        w = self.get(st, 'wrote')
        for x in w:
            if not self.get(st, 'moved'):
                self.vio(an, x[-1], 'nxt_flush_lsn', 'the log is written and the mark does not move')
            if not self.get(st, 'freed'):
                self.vio(an, x[-1], 'head', 'the log is written and stays in the buffer')
            if val is not None and not self.same(st, val, x[1]):
                self.vio(an, i.line or an.fn.line, 'return', 'reports another amount than was written')
        if not w and val is not None and not self.same(st, val, ('c', 0)):
            self.vio(an, i.line or an.fn.line, 'return', 'reports something written that is not')


class Put(Track):
    """do_log_buff_write: a record goes to the tail of the buffer"""
    LB = '_log_buffer.'

    def start(self, an, st):
        self.an = an

    def m(self, st, name):
        return st.mem.get(('f', ('g', 'log_buff_gl'), self.LB + name))

    def size(self, an, st, v):
        """is this the size of the record: header and body"""
        v = strip(v)
        if v[0] == 'bin' and v[1] == 'add' and strip(v[3]) == ('c', self.K['HDR']):
            b = strip(v[2])
        elif v[0] == 'bin' and v[1] == 'add' and strip(v[2]) == ('c', self.K['HDR']):
            b = strip(v[3])
        else:
            return False
        return any(x[1] == b for x in self.get(st, 'body'))

    def load2(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        if f.endswith('loghdr.body_length') or f.endswith('body_length'):
            self.tok(st, 'body', strip(st.env[i.id]))
        if f == '_log_freq.nflush':
            self.tok(st, 'nf', addr, st.env[i.id])
        if f == '_log_freq.dual_write':
            self.tok(st, 'dwv', addr[1], st.env[i.id])

    def call(self, an, st, i, name, args):
        self.st = st
        n = base(name) if name else ''
        if n == 'lrec_write_to_buffer':
            self.njudge += 1
            a = args[1]
            t, h, s = self.m(st, 'tail'), self.m(st, 'head'), self.m(st, 'size')
            if args[0] != ('a', 0):
                self.vio(an, i.line, n, 'another record is written')
            if a[0] != 'x' and t != ('c', 0) or t is None or a[0] == 'x' and not self.same(st, a[2], t):
                self.vio(an, i.line, n, 'the record is not written at the tail of the buffer')
                return None
            if not self.get(st, 'fits'):
                self.vio(an, i.line, n, 'the record may be written over records that are not on disk yet, or past the end of the buffer')
            if self.get(st, 'put'):
                self.vio(an, i.line, n, 'the record is written twice')
            an.effect(st, i, name, args)
            self.tok(st, 'put', t, i.line)
            return [st]
        if n == 'memcpy' and (last_field(args[1]) or '').endswith('.nxt_write_lsn'):
            an.effect(st, i, name, args)
            for k, m in enumerate(('filenum', 'roffset')):
                a, b = (('f', x, 'logsn.' + m) for x in args[:2])
                v = st.mem.get(b) or ('r', i.id, k)
                st.mem[a] = st.mem[b] = v
                if m == 'roffset':
                    self.tok(st, 'at', v, self.has(st, 'advanced'))
            self.tok(st, 'lsn', args[0])
            return [st]
        if n in ('pthread_mutex_unlock', 'pthread_mutex_lock') and (last_field(args[0]) or '').endswith('log_write_lock'):
            if n.endswith('_unlock') and not self.get(st, 'put'):
                self.drop(st, lambda x: x[0] in ('wrapped', 'fits'))
            if n.endswith('_lock') and not self.get(st, 'put'):
                for a in list(st.mem):       # others have changed the buffer meanwhile
                    if 'log_buff_gl' in str(a):
                        del st.mem[a]
        return None

    def branch(self, an, st, i, cond, truth):
        """the space left, as the path found it"""
        self.nothing(an, st, cond, truth)
        v = strip(cond)
        if v is None or v[0] != 'cmp':
            return
        for x, y, p in ((v[2], v[3], v[1]), (v[3], v[2], st.SWAP[v[1]])):
            q = p if truth else st.NEG[p]
            if q in ('ult', 'slt') and self.size(an, st, x) and self.room(an, st, strip(an.unfold(st, strip(y)))):
                self.tok(st, 'fits', i.line)

    def room(self, an, st, b):
        """is this the space from the tail to the end, with the tail not behind the head, or that to the head"""
        t, h, s = (self.m(st, x) for x in ('tail', 'head', 'size'))
        if None in (t, h):
            return False
        t, h = strip(t), strip(h)
        if b[0] == 'bin' and b[1] == 'sub':
            u, w = strip(b[2]), strip(b[3])
            if s is not None and u == strip(s) and w == t and self.notafter(st, h, t):
                return True
            return u == h and w == t and self.less(st, t, h)
        return b == h and t == ('c', 0) and bool(self.get(st, 'wrapped'))

    def notafter(self, st, h, t):
        h, t = strip(h), strip(t)
        return h == t or h == ('c', 0) or any(st.related(q, h, t) == 1 for q in ('ule', 'sle', 'ult', 'slt', 'eq'))

    def sizes(self, st):
        return [x for x in st.facts if x[0] != 'cmp' and self.size(None, st, x)]

    def prestore(self, an, st, i, addr, val):
        self.st = st
        f = last_field(addr) or ''
        v = strip(val) if val is not None else None
        if f == '_log_buffer.tail':
            if v == ('c', 0):
                l, t = self.m(st, 'last'), self.m(st, 'tail')
                if l is None or t is None or not self.same(st, l, t):
                    self.vio(an, i.line, 'tail', 'the tail goes back to the begin of the buffer and its end is not noted')
                self.tok(st, 'wrapped')
                self.drop(st, lambda x: x[0] in ('sealed', 'fits'))
                return
            self.njudge += 1
            p = self.get(st, 'put')
            parts = [strip(z) for z in v[2:4]] if v[0] == 'bin' and v[1] == 'add' else []
            t = self.m(st, 'tail')
            if p and (self.size(an, st, v) and t == ('c', 0) or parts and t is not None and strip(t) in parts and
                      any(self.size(an, st, z) for z in parts if z != strip(t))):
                self.tok(st, 'grown')
            elif p and parts and t is not None and self.sum3(an, st, v, strip(t)):
                self.tok(st, 'grown')
            else:
                self.vio(an, i.line, 'tail', 'the tail of the buffer does not move by the size of the record')
        lsn = f.startswith('logsn.') and addr[1][0] == 'f' and addr[1][2].endswith('.nxt_write_lsn')
        if lsn and f.endswith('roffset'):
            self.njudge += 1
            old = st.mem.get(addr)
            parts = [strip(z) for z in v[2:4]] if v[0] == 'bin' and v[1] == 'add' else []
            if not (old is not None and strip(old) in parts and any(self.size(an, st, z) for z in parts if z != strip(old))
                    or old is not None and self.sum3(an, st, v, strip(old))):
                self.vio(an, i.line, 'nxt_write_lsn', 'the end of the log does not move by the size of the record')
            self.tok(st, 'advanced')
        if f == '_log_buffer.head':
            self.drop(st, lambda x: x[0] == 'fits')
        if f == '_log_buffer.fend':
            self.tok(st, 'sealed')
        if f == '_log_freq.nflush':
            self.njudge += 1
            parts = [strip(z) for z in v[2:4]] if v[0] == 'bin' and v[1] == 'add' else [v]
            old = st.mem.get(addr)
            e = addr[1]
            d = st.mem.get(('f', e, '_log_freq.dual_write'))
            ok = self.get(st, 'sealed') or old is not None and (st.known_eq(old, 0) or st.rng(strip(old))[1] <= 0) or \
                d is not None and self.same(st, d, ('a', 1))
            if not ok:
                self.vio(an, i.line, 'flush request', 'a record is added to a flush request of another kind: it would be missing from the '
                         'log of the running checkpoint, or be in it without need')
            if v != ('c', 0):
                self.took(an, st, i, v, old)
            self.tok(st, 'asked')
        if f == '_log_freq.dual_write' and v != ('a', 1):
            self.vio(an, i.line, 'flush request', 'the flush request is not marked as what the record asks for')
        elif f == '_log_freq.dual_write':
            self.tok(st, 'marked')

    # what of the record has not been asked to be flushed yet
    def full(self, an, st, v):
        r = lin(v)
        for n in range(6):
            u = next((k for k in r if k != 1 and k[0] == 'i' and an.fn.insts[k[1]].op == 'bin' and an.fn.insts[k[1]].k in ('add', 'sub')), None)
            if u is None:
                break
            d = lin(an.unfold(st, u), r.pop(u))
            if u in d:
                return lin(v)
            r = minus(r, {k: -c for k, c in d.items()})
        return r

    def left(self, st):
        for x in self.get(st, 'due'):
            if x[1] == 'reg':
                return [self.full(self.an, st, st.env[x[2]])] if x[2] in st.env else []
            return [dict(x[2])]
        if self.has(st, 'all') or self.get(st, 'lost'):
            return []
        return [{1: self.K['HDR'], x[1]: 1} for x in self.get(st, 'body')]

    def vio(self, an, line, construct, msg):
        if not self.has(self.st, 'dead'):
            Track.vio(self, an, line, construct, msg)

    def took(self, an, st, i, v, old):
        if self.has(st, 'all'):
            return self.vio(an, i.line, 'flush request', 'more is asked to be flushed than the record put into the buffer')
        z = minus(self.full(an, st, v), self.full(an, st, old) if old is not None else {})
        for R in self.left(st):
            if z == R or self.atmost(st, z, R):
                d = minus(R, z)
                self.drop(st, lambda x: x[0] in ('due', 'started'))
                self.tok(st, 'due', 'sum', tuple(sorted(d.items(), key=repr)))
                return
        self.vio(an, i.line, 'flush request', 'more may be asked to be flushed than the record put into the buffer')

    def atmost(self, st, z, R):
        for k, v in st.facts.items():
            if k[0] == 'cmp' and v[0] == v[1]:
                p = k[1] if v[0] else st.NEG[k[1]]
                x, y = k[2], k[3]
                if p in ('ugt', 'uge', 'sgt', 'sge'):
                    x, y, p = y, x, st.SWAP[p]
                if p in ('ult', 'ule', 'slt', 'sle', 'eq') and self.full(self.an, st, x) == z and self.full(self.an, st, y) == R:
                    return True
        return False

    def phis(self, an, st, b, prev):
        L = [x for x in self.get(st, 'due')]
        start = not L and self.get(st, 'put') and not self.has(st, 'all') and not self.get(st, 'lost') and not self.has(st, 'asked')
        if not L and not start:
            return
        ph = [(i.id, an.val(st, i.phi[prev])) for i in takewhile(lambda i: i.op == 'phi', an.fn.blocks[b])]
        now = self.left(st)
        hit = [k for k, v in ph if self.full(an, st, v) in now]
        if hit:
            zero = {} in now or self.has(st, 'zero')
            self.drop(st, lambda x: x[0] in ('due', 'zero'))
            self.tok(st, 'due', 'reg', hit[0])
            if zero:
                self.tok(st, 'zero')
        elif L and L[0][1] == 'reg' and (ph and any(k == L[0][2] for k, _ in ph) or L[0][2] not in an.live[b]):
            self.drop(st, lambda x: x[0] == 'due')
            self.tok(st, 'lost')

    def nothing(self, an, st, cond, truth):
        v = strip(cond)
        if v is None or v[0] != 'cmp' or not self.get(st, 'put'):
            return
        for x, y, p in ((v[2], v[3], v[1]), (v[3], v[2], st.SWAP[v[1]])):
            q = p if truth else st.NEG[p]
            if q in ('ne', 'ugt', 'sgt') and strip(y) == ('c', 0) and (not self.full(an, st, x) or self.has(st, 'zero') and
                                                                               self.full(an, st, x) in self.left(st)):
                self.tok(st, 'dead')            # x - x is not above 0
            if (q in ('eq', 'ule') and strip(y) == ('c', 0) or q == 'ult' and strip(y) == ('c', 1)) and self.full(an, st, x) in self.left(st):
                self.drop(st, lambda t: t[0] == 'due')
                self.tok(st, 'all')

    def sum3(self, an, st, v, old):
        """old + body + header in any grouping"""
        d = minus(lin(v), lin(old))
        bodies = [x[1] for x in self.get(st, 'body')]
        if any(set(d) == {1, y} and d[1] == self.K['HDR'] and d[y] == 1 for y in bodies):
            return True
        one = [k for k in d if k != 1]
        return len(d) == 1 and len(one) == 1 and d[one[0]] == 1 and self.size(an, st, one[0])

    def ret(self, an, st, i, val):
        self.st = st
        self.njudge += 1
        line = i.line or an.fn.line
        if any(st.known_eq(L, 0) for L in self.sizes(st)):
            return              # there is no record without a header
        if not self.get(st, 'put') or not self.get(st, 'grown') or not self.get(st, 'advanced'):
            self.vio(an, line, 'record', 'a record is taken and not put into the buffer, or the tail of the buffer or the end of the log '
                     'does not move')
        if not self.has(st, 'all') and not self.has(st, 'zero') and {} not in self.left(st):
            self.vio(an, line, 'flush request', 'less than the record put into the buffer may be asked to be flushed')
        if not self.get(st, 'asked') or not self.get(st, 'marked'):
            self.vio(an, line, 'flush request', 'a record is put into the buffer and its flush is not asked for')
        for x in self.get(st, 'lsn'):
            v = st.mem.get(('f', x[1], 'logsn.roffset'))
            ok = False
            for y in self.get(st, 'at'):
                d = minus(self.full(an, st, v), self.full(an, st, y[1])) if v is not None else {}
                ok = ok or not y[2] and any(minus(d, {b[1]: 1}) == {1: self.K['HDR'] - 1} for b in self.get(st, 'body'))
            if not ok:
                self.vio(an, line, 'position', 'the position given for the record is not that of its last byte: a request may be answered '
                         'before the whole record is on disk, or wait for the next one')
        if not self.get(st, 'lsn'):
            self.vio(an, line, 'position', 'the position of the record is not given')


class Place(Track):
    """cmdlog_buff_write: the request waits for the place its record was written to"""

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'do_log_buff_write':
            if args[0] != ('a', 0) or strip(args[1]) != ('a', 2):
                self.vio(an, i.line, n, 'another record, or another kind of write, than was asked for')
            an.effect(st, i, name, args)
            self.tok(st, 'wrote', i.line)
            return [st]
        if n == 'memcpy' and args[0] == ('f', ('a', 1), '_log_waiter.lsn') and self.has(st, 'wrote'):
            self.tok(st, 'noted')
        return None

    def prestore(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        if self.has(st, 'wrote') and addr[0] == 'f' and addr[1] == ('f', ('a', 1), '_log_waiter.lsn'):
            self.tok(st, 'noted')

    def ret(self, an, st, i, val):
        self.njudge += 1
        if not self.has(st, 'wrote'):
            self.vio(an, i.line or an.fn.line, 'record', 'the record is not written')
        if not st.known_eq(('a', 1), 0) and not self.has(st, 'noted'):
            self.vio(an, i.line or an.fn.line, 'position', 'the request does not wait for its record')


class Ask(Track):
    """cmdlog_buff_flush_request, do_log_buff_flush_requested: what a request waits for is flushed without more records to come"""
    NXT, UPT = (('f', ('g', 'log_buff_gl'), 'log_buff_global.' + m) for m in ('nxt_flush_lsn', 'upt_flush_lsn'))

    def phis(self, an, st, b, prev):
        self.note(st)

    def note(self, st):
        for A, B in ((self.NXT, ('a', 0)), (self.UPT, ('a', 0)), (self.NXT, self.UPT)):
            if self.beyond(st, A, B):
                self.tok(st, 'past', A, B)

    def past(self, st, A, B):
        return self.has(st, 'past', A, B)

    def call(self, an, st, i, name, args):
        self.note(st)
        if name == 'memcpy' and args[0] == self.UPT:
            self.tok(st, 'asked') if args[1] == ('a', 0) else self.vio(an, i.line, 'upt_flush_lsn', 'the log is asked to be written to another '
                                                                       'place than given')
        return None

    def prestore(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        if addr[0] == 'f' and addr[1] == self.UPT:
            if strip(val) == strip(st.mem.get(('f', ('a', 0), f)) or ('u', 0)):
                self.tok(st, 'asked')

    def ret(self, an, st, i, val):
        self.njudge += 1
        line = i.line or an.fn.line
        if val is None:
            if not self.get(st, 'asked') and not self.past(st, self.NXT, ('a', 0)) and not self.past(st, self.UPT, ('a', 0)):
                self.vio(an, line, 'upt_flush_lsn', 'a request waits for a part of the log that nothing asks to be written')
        elif not st.known_ne(val, 0) and strip(val)[0] in ('c', 'cmp') and not self.past(st, self.NXT, self.UPT):
            if strip(val) == ('c', 0) or st.known_eq(val, 0):
                self.vio(an, line, 'upt_flush_lsn', 'the part of the log that was asked for is left in the buffer')


class Copy(Track):
    """cmdlog_get_fsync_lsn, cmdlog_get_flush_lsn"""

    def __init__(self, ctx, P, K, fn, what, src):
        Track.__init__(self, ctx, P, K, fn, what)
        self.src = src

    def call(self, an, st, i, name, args):
        if name and base(name) == 'memcpy' and args[0] == ('a', 0):
            if (last_field(args[1]) or '').endswith('.' + self.src):
                self.tok(st, 'copied')
        return None

    def load2(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        if addr[0] == 'f' and (f.endswith('.' + self.src) or addr[1][0] == 'f' and addr[1][2].endswith('.' + self.src)):
            self.tok(st, 'v', strip(st.env[i.id]))

    def prestore(self, an, st, i, addr, val):
        if addr[0] == 'f' and addr[1] == ('a', 0) and any(x[1] == strip(val) for x in self.get(st, 'v')):
            self.tok(st, 'copied')

    def ret(self, an, st, i, val):
        self.njudge += 1
        if not self.get(st, 'copied'):
            self.vio(an, i.line or an.fn.line, self.src, 'reports another position')


class Begin(Track):
    """cmdlog_waiter_begin and the reset of a waiter that is given back"""

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'do_cmdlog_waiter_alloc':
            an.effect(st, i, name, args)
            self.tok(st, 'w', st.env[i.id])
            return [st]
        if n.startswith('llvm.threadlocal'):
            an.effect(st, i, name, args)
            self.tok(st, 'tls', st.env[i.id])
            return [st]
        return None

    def prestore(self, an, st, i, addr, val):
        if any(x[1] == addr for x in self.get(st, 'tls')) or addr == ('g', 'tls_waiter'):
            self.tok(st, 'mine', strip(val))
        f = last_field(addr) or ''
        if f.startswith('_log_waiter.'):
            self.tok(st, 'set', f.split('.')[1], addr[1], strip(val))

    def ret(self, an, st, i, val):
        self.njudge += 1
        line = i.line or an.fn.line
        v = strip(val)
        if st.known_eq(v, 0) or v == ('c', 0):
            return
        put = {x[1]: x[3] for x in self.get(st, 'set') if x[2] == v}
        drop = None
        c = st.const(('a', 1))
        r = st.rng(('a', 1))
        D = self.K['DROP']
        if put.get('cookie') != ('a', 0) or put.get('updtype') != ('a', 1):
            self.vio(an, line, 'request', 'a logged request does not note whose it is and of which kind')
        if not any(x[1] == v for x in self.get(st, 'mine')):
            self.vio(an, line, 'request', 'a logged request is begun and not made the current one')
        is_drop = st.known_eq(('a', 1), D[0]) or any(st.known_eq(('a', 1), d) for d in D)
        got = put.get('elem_delete_with_drop')
        if got is None or got == ('c', 0):
            if is_drop or not all(st.known_ne(('a', 1), d) for d in D):
                self.vio(an, line, 'request', 'a request that drops what gets empty is not noted as such')
        elif not is_drop and not (got[0] == 'c' and self.only(st, D)):
            self.vio(an, line, 'request', 'a request that does not drop what gets empty is noted as one that does')

    def only(self, st, D):
        lo, hi, ex = st.rng(('a', 1))
        if hi - lo > 300:
            return False
        return all(x in D or st.known_ne(('a', 1), x) for x in range(int(lo), int(hi) + 1))


class Reset(Track):
    FIELDS = ('updtype', 'elem_insert_with_create', 'elem_delete_with_drop', 'generated_range_clog')

    def prestore(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        if addr[0] == 'f' and addr[1] == ('a', 0) and f.startswith('_log_waiter.'):
            self.tok(st, 'set', f.split('.')[1], strip(val))
        if addr[0] == 'f' and addr[1] == ('f', ('a', 0), '_log_waiter.lsn'):
            self.tok(st, 'set', f, strip(val))
        if f.endswith('.free_list') and strip(val) == ('a', 0):
            self.tok(st, 'back')

    def call(self, an, st, i, name, args):
        if name and base(name) == 'memset' and args[0] == ('a', 0):
            for f in self.FIELDS + ('logsn.filenum', 'logsn.roffset'):
                self.tok(st, 'set', f, ('c', 0))
        return None

    def ret(self, an, st, i, val):
        self.njudge += 1
        put = {x[1]: x[2] for x in self.get(st, 'set')}
        if not self.get(st, 'back'):
            self.vio(an, i.line or an.fn.line, 'request', 'the entry of an ended request is not given back')
        for f in self.FIELDS + ('logsn.filenum', 'logsn.roffset'):
            if put.get(f) != ('c', self.K['UPD_NONE'] if f == 'updtype' else 0):
                self.vio(an, i.line or an.fn.line, 'request', 'the entry of an ended request keeps its %s for the next one' % f.split('.')[-1])


class Takeover(Track):
    """do_log_buff_complete_dual_write: where the log of a checkpoint takes over"""

    def prestore(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        v = strip(val) if val is not None else None
        if f == '_log_buffer.dw_end':
            self.tok(st, 'end', v)
            fend = st.mem.get(('f', addr[1], '_log_buffer.fend'))
            if fend is not None and not self.same(st, v, fend):
                self.vio(an, i.line, 'dw_end', 'the log of the checkpoint does not take over at the end of what was recorded so far')
        if f.endswith('.nxt_write_lsn') or f.startswith('logsn.') and addr[1][0] == 'f' and addr[1][2].endswith('.nxt_write_lsn'):
            m = 'roffset' if f.endswith('roffset') else 'filenum'
            self.tok(st, 'lsn', m, v)
            if m == 'roffset':
                s = st.mem.get(('f', ('g', 'log_buff_gl'), '_log_buffer.dw_size'))
                if s is None or not self.same(st, v, s):
                    self.vio(an, i.line, 'nxt_write_lsn', 'the end of the log is not that of the log that takes over')
        if f == '_log_freq.dual_write':
            if not st.known_eq(('a', 0), 0):
                self.vio(an, i.line, 'flush request', 'records of a checkpoint that succeeded are not written to its log')

    def ret(self, an, st, i, val):
        self.njudge += 1
        ok = st.known_ne(('a', 0), 0)
        got = len({x[1] for x in self.get(st, 'lsn')}) == 2 and bool(self.get(st, 'end'))
        if ok and not got:
            self.vio(an, i.line or an.fn.line, 'take over', 'the checkpoint succeeded and its log does not take over')
        if not ok and (self.get(st, 'lsn') or self.get(st, 'end')):
            self.vio(an, i.line or an.fn.line, 'take over', 'the log of a checkpoint takes over that did not succeed')


def written(P, f):
    for i in f.all():
        if i.op == 'store':
            yield i.p
    for i in f.calls():
        if (P.callee(i) or '').startswith(('memcpy', 'llvm.memcpy')) and i.args:
            yield i.args[0]


def check(ctx, P, K):
    def fn(n):
        f = P.fns.get(n)
        if f is None:
            raise Broken(n + ' is gone')
        return f
    tell = set()
    for f in P.fns.values():
        if f.stem.startswith('cmdlog') and any((P.callee(i) or '').endswith('.notify_io_complete') for i in f.calls()):
            tell.add(f.name)
    if not tell:
        raise Broken('nothing reports that a request is on disk')
    K = dict(K, TELL=tell)
    jobs = [(AnswerTail, 'answer', 'cmdlog_waiter_end'), (Release, 'release', 'do_cmdlog_get_commit_waiter'), (Forced, 'mark', 'disk_fsync'),
            (Append, 'write', 'cmdlog_file_write'), (Flush, 'write', 'do_log_buff_flush'), (Put, 'record', 'do_log_buff_write'),
            (Place, 'record', 'cmdlog_buff_write'), (Begin, 'answer', 'cmdlog_waiter_begin'), (Reset, 'answer', 'do_cmdlog_waiter_free'),
            (Takeover, 'write', 'do_log_buff_complete_dual_write'),
            (Ask, 'answer', 'cmdlog_buff_flush_request'), (Ask, 'write', 'do_log_buff_flush_requested')]
    done = set()
    for cls, what, n in jobs:
        run(ctx, P, cls(ctx, P, K, fn(n), what))
        done.add(n)
    for n, src in (('cmdlog_get_fsync_lsn', 'nxt_fsync_lsn'), ('cmdlog_get_flush_lsn', 'nxt_flush_lsn')):
        run(ctx, P, Copy(ctx, P, K, fn(n), 'mark', src))
    marks = 0
    for f in P.fns.values():
        if not f.stem.startswith(('cmdlog', 'checkpoint', 'chkpt')) or not f.blocks:
            continue
        names = {base(P.callee(i) or '') for i in f.calls()}
        if names & tell or 'do_cmdlog_get_commit_waiter' in names:
            run(ctx, P, Notify(ctx, P, K, f, 'release'))
        if 'cmdlog_get_flush_lsn' in names or any((P.addr_field(f, q) or '').endswith('nxt_fsync_lsn') for q in written(P, f)):
            c = Mark(ctx, P, K, f, 'mark')
            run(ctx, P, c)
            marks += c.njudge
    ctx.count('moves of the mark judged', marks)


def run(ctx, P, c):
    Analysis(P, c.fn, c).run()
    ctx.count('functions judged')
    ctx.count('states judged', c.njudge)
