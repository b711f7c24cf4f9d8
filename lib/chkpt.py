"""A checkpoint replaces the previous one only when it is complete on disk.

Each function between the scan of the items and the choice of the files to recover from has an obligation the next one relies on: the
buffer is emptied only into the file, a record is put where there is room and counted, the snapshot counts as done when its end mark is
on disk, the checkpoint when the snapshot is done, and files are removed only when a complete checkpoint replaces them.  Results of calls
are watched: what the path knows about them (zero, negative, …) is kept as tokens.
"""
from itertools import takewhile
from durable import strip, lin
from flow import Analysis, last_field
from ondisk import Track, minus
from own import base
from prog import Broken
from recover import Replay, Sums

BIG = 1 << 62
CONV = ('atoll', 'strtoll', 'strtol', 'atol', 'strtoimax', 'strtoull', 'strtoul', '__isoc23_strtoll', '__isoc23_strtol',
        '__isoc23_strtoull', '__isoc23_strtoul')


class Facts(Track):
    OK = 'neg'            # how the function says that it succeeded: 'neg' (not negative), 'zero', 'true'
    ROUND = ()            # watched results that belong to one round of a loop
    LOOP = ()             # … those that have one of these calls
    cap = 40

    def start(self, an, st):
        Sums.start(self, an, st)

    def watch(self, st, name, v):
        self.drop(st, lambda x: x[0] in ('w', 'is') and x[1] == name)
        self.tok(st, 'w', name, v)

    FACTS = {'0': lambda st, v: st.known_eq(v, 0), 'n0': lambda st, v: st.known_ne(v, 0), '<0': lambda st, v: st.rng(v)[1] < 0,
             '>=0': lambda st, v: st.rng(v)[0] >= 0, '-1': lambda st, v: st.known_eq(v, -1), 'n-1': lambda st, v: st.known_ne(v, -1)}

    def sure(self, st, name, fact):
        if self.has(st, 'is', name, fact):
            return True
        return any(self.FACTS[fact](st, x[2]) for x in st.prop if x[0] == 'w' and x[1] == name)

    def called(self, st, name):
        return any(x[0] == 'w' and x[1] == name for x in st.prop)

    def branch(self, an, st, i, cond, truth):
        self.settle(an, st)

    def settle(self, an, st):
        for x in [x for x in st.prop if x[0] == 'w']:
            for k, f in self.FACTS.items():
                if f(st, x[2]):
                    self.tok(st, 'is', x[1], k)

    def phis(self, an, st, b, prev):
        for i in takewhile(lambda i: i.op == 'phi', an.fn.blocks[b]):
            if i.id in self.rets:
                v = an.val(st, i.phi[prev])
                self.drop(st, lambda x: x[0] == 'rv')
                if v[0] == 'c':
                    self.tok(st, 'rv', i.id, v[1])
        self.settle(an, st)
        body = an.back.get((prev, b))
        if body is not None and (not self.LOOP or any(i.id in body and base(an.prog.callee(i) or '') in self.LOOP for i in an.fn.calls())):
            self.turn(an, st)
            self.drop(st, lambda x: x[0] in ('w', 'is') and x[1] in self.ROUND or x[0] in self.ROUND)

    def turn(self, an, st):
        pass

    def merge_old(self, an, st, ids):
        keep = Track.merge_old(self, an, st, ids)
        return keep | frozenset(('w', x[1], ('u', 0)) for x in st.prop if x[0] == 'w' and x not in keep)

    def good(self, st, val):
        """the paths on which the function reports success"""
        if val is None:
            return st
        v = strip(val)
        c = v[1] if v[0] == 'c' else None
        for x in self.get(st, 'rv'):
            if v[0] != 'cmp':
                c = x[2]
        if c is not None:
            c = c - (1 << 32) if self.OK == 'neg' and 0x80000000 <= c < 1 << 32 else c
            return st if {'neg': c >= 0, 'zero': c == 0, 'true': c != 0}[self.OK] else None
        s = st.copy()
        if v[0] == 'cmp':
            ok = s.assume(v, self.OK == 'true') if self.OK != 'neg' else True
        elif self.OK == 'neg':
            ok = s.narrow(v, 0, BIG)
        elif self.OK == 'zero':
            ok = s.narrow(v, 0, 0)
        else:
            ok = s.narrow(v, 1, BIG)
        return s if ok else None

    def ret(self, an, st, i, val):
        self.njudge += 1
        s = self.good(st, val)
        if s is not None:
            self.settle(an, s)
            self.success(an, s, i.line or an.fn.line)
        self.ends(an, st, i.line or an.fn.line, s is not None)

    def success(self, an, st, line):
        pass

    def ends(self, an, st, line, ok):
        pass

    def saw(self, an, st, i, name, args, what):
        an.effect(st, i, name, args)
        self.watch(st, what, st.env[i.id] if i.id in st.env else ('u', 0))
        return [st]


class Checkpoint(Facts):
    """do_checkpoint"""
    OK = 'zero'

    def load2(self, an, st, i, addr, val):
        if last_field(addr) == '_chkpt_st.lasttime' and not self.has(st, 'moved'):
            self.tok(st, 'last', st.env[i.id])

    def new(self, st, v):
        return any(self.same(st, x[1], v) for x in self.get(st, 'new'))

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'do_chkpt_create_files':
            self.tok(st, 'new', strip(args[1]))
            return self.saw(an, st, i, name, args, 'create')
        if n == 'cmdlog_file_open':
            self.njudge += 1
            if not self.sure(st, 'create', '0'):
                self.vio(an, i.line, n, 'the log of a checkpoint is opened though its files may not have been created')
            if last_field(args[0]) != '_chkpt_st.cmdlog_path':
                self.vio(an, i.line, n, 'the log of a checkpoint is not opened as its file')
            return self.saw(an, st, i, name, args, 'open')
        if n == 'chkpt_snapshot_direct':
            self.njudge += 1
            if not self.sure(st, 'open', '0'):
                self.vio(an, i.line, n, 'the snapshot of a checkpoint is taken though its log may not be open')
            if args[0] != ('c', self.K['CHKPT']) or last_field(args[3]) != '_chkpt_st.snapshot_path' or not st.known_eq(args[1], 0) \
                    or not st.rng(args[2])[1] < 0:
                self.vio(an, i.line, n, 'the snapshot of a checkpoint is not one of all items into its file')
            return self.saw(an, st, i, name, args, 'snap')
        if n == 'do_chkpt_remove_files':
            self.njudge += 1
            if not self.new(st, args[1]) or self.has(st, 'moved') or self.called(st, 'snap') and not self.sure(st, 'snap', 'n0'):
                self.vio(an, i.line, n, 'files of a complete checkpoint are removed while another one is made')
            self.tok(st, 'removed')
        if n == 'cmdlog_file_close':
            self.njudge += 1
            if not self.sure(st, 'snap', 'n0'):
                self.vio(an, i.line, n, 'the log of a checkpoint is closed though its snapshot may be complete')
            self.tok(st, 'closed')
        return None

    def prestore(self, an, st, i, addr, val):
        f = last_field(addr)
        if f not in ('_chkpt_st.lasttime', '_chkpt_st.prevtime'):
            return
        self.njudge += 1
        if not self.sure(st, 'snap', '0'):
            self.vio(an, i.line, f, 'a checkpoint counts as the last one though its snapshot may not be complete')
        if f.endswith('lasttime'):
            if not self.new(st, val):
                self.vio(an, i.line, f, 'the last checkpoint is not the one just made')
            self.tok(st, 'moved')
        else:
            if not any(self.same(st, x[1], val) for x in self.get(st, 'last')):
                self.vio(an, i.line, f, 'the previous checkpoint is not the one replaced: its files are not the ones removed')
            self.tok(st, 'prev')

    def success(self, an, st, line):
        if not self.sure(st, 'snap', '0'):
            self.vio(an, line, 'result', 'a checkpoint is reported as done though its snapshot may not be complete')
        elif not self.has(st, 'moved') or not self.has(st, 'prev'):
            self.vio(an, line, 'result', 'a complete checkpoint does not become the last one')

    def ends(self, an, st, line, ok):
        if ok:
            return
        if self.has(st, 'moved'):
            self.vio(an, line, 'result', 'a complete checkpoint is reported as failed')
        if self.sure(st, 'create', '0') and not self.has(st, 'removed'):
            self.vio(an, line, 'files', 'the files of a failed checkpoint are kept')
        if self.sure(st, 'open', '0') and not self.has(st, 'closed'):
            self.vio(an, line, 'cmdlog_file_close', 'the log of a failed checkpoint stays open: the next one is not started on its own log')


class Thread(Facts):
    """chkpt_thread_main"""

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'cmdlog_file_dual_write_finished':
            return self.saw(an, st, i, name, args, 'finished')
        if n == 'do_chkpt_thread_sleep':
            for x in self.get(st, 'forgot'):
                self.vio(an, x[1], 'prevtime', 'the previous checkpoint is forgotten and its files are left')
            self.drop(st, lambda x: x[0] in ('w', 'is', 'removed', 'prev', 'forgot'))
        if n == 'do_chkpt_remove_files':
            self.njudge += 1
            if not self.sure(st, 'finished', 'n0'):
                self.vio(an, i.line, n, 'files of the previous checkpoint are removed while its log may still be written')
            if not any(x[1] == strip(args[1]) for x in self.get(st, 'prev')):
                self.vio(an, i.line, n, 'files are removed that are not those of the previous checkpoint')
            self.tok(st, 'removed')
            self.owed(an, st)
        if n == 'do_checkpoint':
            self.njudge += 1
            v = [a for a in st.mem.items() if last_field(a[0]) == '_chkpt_st.prevtime']
            if not any(st.known_eq(x, -1) for _, x in v):
                self.vio(an, i.line, n, 'a checkpoint begins while the log of the previous one may still be written')
        return None

    def owed(self, an, st):
        if self.has(st, 'removed'):
            self.drop(st, lambda x: x[0] == 'forgot')

    def load2(self, an, st, i, addr, val):
        if last_field(addr) == '_chkpt_st.prevtime' and not self.has(st, 'forgot'):
            self.tok(st, 'prev', strip(st.env[i.id]))

    def prestore(self, an, st, i, addr, val):
        f = last_field(addr)
        if f == '_chkpt_st.prevtime':
            self.njudge += 1
            self.tok(st, 'forgot', i.line)
            self.owed(an, st)
        elif f == '_chkpt_st.lasttime':
            self.vio(an, i.line, f, 'the last checkpoint changes without one being made')


class Finished(Facts):
    """cmdlog_file_dual_write_finished"""
    OK = 'true'

    def load2(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        if f in ('_log_file.next_fd', '_log_file.prev_fd'):
            self.watch(st, f.split('.')[1], st.env[i.id])

    def success(self, an, st, line):
        for m in ('next_fd', 'prev_fd'):
            if not self.sure(st, m, '-1'):
                self.vio(an, line, m, 'the previous log counts as closed while %s may be open' % m)


class Sweep(Facts):
    """do_chkpt_sweep_files"""
    ROUND = ('name', 'conv', 'cmp', 'prefix', 'path', 'other')
    LOOP = ('readdir',)
    OK = 'true'

    def load2(self, an, st, i, addr, val):
        if last_field(addr) == '_chkpt_st.lasttime':
            self.tok(st, 'last', strip(st.env[i.id]))

    def at(self, an, v):
        """(place, offset)"""
        off = {}
        while v[0] == 'x':
            for k, c in lin(v[2]).items():
                off[k] = off.get(k, 0) + c
            v = v[1]
        return v, tuple(sorted(off.items(), key=repr))

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n in ('strncmp', 'memcmp', 'strncasecmp'):
            for a, b in ((args[0], args[1]), (args[1], args[0])):
                if a[0] == 's':
                    an.effect(st, i, name, args)
                    self.watch(st, 'cmp', st.env[i.id])
                    self.tok(st, 'prefix', self.at(an, b), strip(args[2]), len(a[1]))
                    return [st]
        if n in CONV or n == 'atoi':
            p, off = self.at(an, args[0])
            off = dict(off)
            ok = False
            for x in self.get(st, 'prefix'):
                (q, o2), ln, k = x[1], x[2], x[3]
                o2 = dict(o2)
                for m, c in lin(ln).items():
                    o2[m] = o2.get(m, 0) + c
                o3 = {**dict(x[1][1])}
                o3[1] = o3.get(1, 0) + k
                ok = ok or p == q and off in (o2, o3)
            an.effect(st, i, name, args)
            if ok and n in CONV:
                self.tok(st, 'conv', st.env[i.id], p)
            return [st]
        if n in ('sprintf', 'snprintf', '__sprintf_chk', '__snprintf_chk'):
            for a in args[1:]:
                for x in self.get(st, 'prefix'):
                    if self.at(an, a)[0] == x[1][0]:
                        self.tok(st, 'path', self.at(an, args[0]), x[1][0])
            return None
        if n in ('unlink', 'remove'):
            self.njudge += 1
            pth = self.at(an, args[0])
            if not any(x[1] == pth for x in self.get(st, 'path')):
                self.vio(an, i.line, n, 'a file is removed that was not chosen by its name')
            elif not self.sure(st, 'cmp', '0'):
                self.vio(an, i.line, n, 'a file may be removed that belongs to no checkpoint')
            elif not self.other(st):
                self.vio(an, i.line, n, 'the files of the last complete checkpoint may be removed')
        return None

    def other(self, st):
        if self.has(st, 'other'):
            return True
        for c in self.get(st, 'conv'):
            for l in self.get(st, 'last'):
                if st.related('eq', c[1], l[1]) == 0 or st.related('ne', c[1], l[1]) == 1:
                    return True
        return False

    def branch(self, an, st, i, cond, truth):
        Facts.branch(self, an, st, i, cond, truth)
        if self.other(st):
            self.tok(st, 'other')


class Action(Facts):
    """do_snapshot_action"""
    OK = 'true'
    ROUND = ('next', 'dump')
    LOOP = ('item_scan_getnext',)

    def load2(self, an, st, i, addr, val):
        if (last_field(addr) or '').endswith('snapshot_st.mode'):
            self.watch(st, 'mode', st.env[i.id])

    def settle(self, an, st):
        Facts.settle(self, an, st)
        for x in [x for x in st.prop if x[0] == 'w' and x[1] == 'mode']:
            if st.known_ne(x[2], self.K['CHKPT']):
                self.tok(st, 'nochk')
                if st.known_ne(x[2], self.K['DATA']):
                    self.tok(st, 'keys')
        for x in [x for x in st.prop if x[0] == 'w' and x[1] == 'next']:
            if st.rng(x[2])[1] < 0 and st.known_ne(x[2], -2):
                self.tok(st, 'is', 'next', 'end')

    def isnull(self, st, v):
        return v == ('c', 0) or st.known_eq(v, 0)

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'item_scan_open':
            self.njudge += 1
            if self.isnull(st, args[3]) and not self.has(st, 'nochk') or not self.isnull(st, args[3]) and 'cmdlog_set_chkpt_scan' not in repr(args[3]):
                self.vio(an, i.line, n, 'the scan of a checkpoint begins without the log of it being written')
            self.tok(st, 'open')
        elif n == 'item_scan_getnext':
            if self.isnull(st, args[2]) and not self.has(st, 'keys'):
                self.vio(an, i.line, n, 'the elements of collections are left out of a snapshot')
            return self.saw(an, st, i, name, args, 'next')
        elif name and name.endswith('_snapshot_func.done'):
            self.njudge += 1
            if not self.has(st, 'is', 'next', 'end'):
                self.vio(an, i.line, 'done', 'a snapshot is completed before all items were seen')
            return self.saw(an, st, i, name, args, 'done')
        elif name and name.endswith('_snapshot_func.dump'):
            if strip(args[2])[0] != 'c' and not any(x[2] == strip(args[2]) for x in st.prop if x[0] == 'w' and x[1] == 'next'):
                self.vio(an, i.line, 'dump', 'not all items found are written')
            return self.saw(an, st, i, name, args, 'dump')
        elif n == 'item_scan_close':
            self.njudge += 1
            if self.isnull(st, args[1]) and not self.has(st, 'nochk') or not self.isnull(st, args[1]) and 'cmdlog_reset_chkpt_scan' not in repr(args[1]):
                self.vio(an, i.line, n, 'the scan of a checkpoint ends without its log being told')
            v = strip(args[2])
            yes = st.known_ne(v, 0) or v[0] == 'c' and v[1] != 0
            no = st.known_eq(v, 0) or v == ('c', 0)
            if self.sure(st, 'done', '>=0'):
                if not yes:
                    self.vio(an, i.line, n, 'a complete snapshot is told to be incomplete')
            elif not no:
                self.vio(an, i.line, n, 'an incomplete snapshot is told to be complete')
            self.tok(st, 'closed')
        return None

    def turn(self, an, st):
        if self.called(st, 'next') and not self.sure(st, 'next', '>=0'):
            self.vio(an, an.fn.line, 'scan', 'the scan goes on after it failed')
        if self.called(st, 'next') and not self.sure(st, 'next', '0') and not self.sure(st, 'dump', '>=0'):
            self.vio(an, an.fn.line, 'dump', 'items found may not have been written into the snapshot')

    def success(self, an, st, line):
        if not self.sure(st, 'done', '>=0'):
            self.vio(an, line, 'result', 'a snapshot is reported as done though it may be incomplete')

    def ends(self, an, st, line, ok):
        if self.has(st, 'open') and not self.has(st, 'closed'):
            self.vio(an, line, 'item_scan_close', 'the scan stays open: the log goes on for a checkpoint that is over')
        if not ok and self.sure(st, 'done', '>=0'):
            self.vio(an, line, 'result', 'a complete snapshot is reported as failed')

    def prestore(self, an, st, i, addr, val):
        if (last_field(addr) or '').endswith('snapshot_st.success'):
            v = strip(val)
            if not (v == ('c', 0) or st.known_eq(v, 0)) and not self.sure(st, 'done', '>=0'):
                self.vio(an, i.line, 'success', 'a snapshot is reported as done though it may be incomplete')


class Put(Facts):
    """do_snapshot_data_dump, do_snapshot_data_done: records into the buffer"""
    ROUND = ()

    def start(self, an, st):
        Facts.start(self, an, st)
        self.last = 'done' in an.fn.name

    def load2(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        if f.endswith('snapshot_buffer.curlen'):
            self.tok(st, 'len', strip(st.env[i.id]), self.has(st, 'asked'))
        elif f.endswith('snapshot_buffer.memory'):
            self.tok(st, 'mem', st.env[i.id])

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n.startswith('lrec_construct'):
            self.njudge += 1
            if self.has(st, 'built'):
                self.vio(an, i.line, n, 'a record made before was not put into the snapshot')
            an.effect(st, i, name, args)
            self.drop(st, lambda x: x[0] in ('asked', 'put') or x[0] in ('w', 'is') and x[1] == 'room')
            self.tok(st, 'built', n, args[0], strip(st.env[i.id]))
            return [st]
        if n == 'do_snapshot_buffer_check_space':
            s = strip(args[1])
            an.effect(st, i, name, args)
            self.drop(st, lambda x: x[0] in ('len', 'mem'))
            self.tok(st, 'asked', s)
            self.watch(st, 'room', st.env[i.id])
            return [st]
        if n == 'lrec_write_to_buffer':
            self.njudge += 1
            b = self.get(st, 'built')
            if not b or b[0][2] != args[0]:
                self.vio(an, i.line, n, 'a record is put into the snapshot that was not made for it')
            elif not self.sure(st, 'room', '>=0') or not any(self.same(st, x[1], b[0][3]) for x in self.get(st, 'asked')):
                self.vio(an, i.line, n, 'a record is put into the snapshot without room for it')
            p, off = Sweep.at(self, an, args[1])
            off = dict(off)
            if not any(p == x[1] for x in self.get(st, 'mem')) or not any(off == {x[1]: 1} or x[1] == ('c', 0) and not off for x in self.get(st, 'len')):
                self.vio(an, i.line, n, 'a record is put over others in the snapshot')
            m = dict(st.mem)
            an.effect(st, i, name, args)
            for a, v in m.items():          # what the buffer belongs to is not in the buffer
                if (last_field(a) or '').split('.')[0].endswith('snapshot_buffer'):
                    st.mem[a] = v
            self.drop(st, lambda x: x[0] == 'built')
            for x in b:
                self.tok(st, 'put', x[1], x[3])
            return [st]
        if n == 'do_snapshot_buffer_flush':
            return self.saw(an, st, i, name, args, 'flush')
        return None

    def prestore(self, an, st, i, addr, val):
        if (last_field(addr) or '').endswith('snapshot_buffer.curlen'):
            self.njudge += 1
            v = an.unfold(st, val) if val[0] == 'i' else val
            r = lin(v)
            ok = False
            for x in self.get(st, 'put'):
                for y in self.get(st, 'len'):
                    want = {}
                    for q in (x[2], y[1]):
                        for a, c in lin(q).items():
                            want[a] = want.get(a, 0) + c
                    ok = ok or r == want
            if not ok:
                self.vio(an, i.line, 'curlen', 'the length of the snapshot buffer is not that of its records')
            self.drop(st, lambda x: x[0] == 'len')
            for x in self.get(st, 'put'):
                self.tok(st, 'counted', x[1])
            self.drop(st, lambda x: x[0] == 'put')

    def turn(self, an, st):
        if self.has(st, 'built') or self.has(st, 'put'):
            self.vio(an, an.fn.line, 'record', 'a record made for the snapshot is not put into it')
        self.drop(st, lambda x: x[0] in ('asked', 'counted'))

    def success(self, an, st, line):
        if self.has(st, 'built') or self.has(st, 'put'):
            self.vio(an, line, 'record', 'a record made for the snapshot is not put into it')
        if self.last:
            if not self.has(st, 'counted', 'lrec_construct_snapshot_done'):
                self.vio(an, line, 'end mark', 'a snapshot is completed without its end mark')
            if not self.sure(st, 'flush', '>=0'):
                self.vio(an, line, 'flush', 'a snapshot is completed though it may not be on disk')


class Out(Facts):
    """do_snapshot_buffer_check_space, do_snapshot_buffer_flush: the buffer into the file"""

    def start(self, an, st):
        Facts.start(self, an, st)
        self.flush = 'flush' in an.fn.name

    def load2(self, an, st, i, addr, val):
        f = last_field(addr) or ''
        if f.endswith('snapshot_buffer.curlen') and not self.has(st, 'emptied'):
            self.tok(st, 'len', strip(st.env[i.id]))
        elif f.endswith('snapshot_buffer.memory'):
            self.tok(st, 'mem', st.env[i.id])
        elif f.endswith('snapshot_buffer.maxlen'):
            self.tok(st, 'max', strip(st.env[i.id]))

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n in ('write', 'disk_write'):
            self.njudge += 1
            if not any(x[1] == args[1] for x in self.get(st, 'mem')) or not any(self.same(st, x[1], args[2]) for x in self.get(st, 'len')):
                self.vio(an, i.line, n, 'not the whole buffer of the snapshot is written')
            m = {a: v for a, v in st.mem.items() if (last_field(a) or '').split('.')[0].endswith('snapshot_buffer')}
            an.effect(st, i, name, args)
            st.mem.update(m)
            self.tok(st, 'written', strip(st.env[i.id]))
            return [st]
        if n in ('fsync', 'fdatasync', 'disk_fsync'):
            if self.has(st, 'emptied') or self.empty(st):
                an.effect(st, i, name, args)
                st.narrow(st.env[i.id], -1, 0)
                self.watch(st, 'sync', st.env[i.id])
                return [st]
        return None

    def whole(self, st):
        return self.has(st, 'all') or any(self.same(st, x[1], y[1]) for x in self.get(st, 'written') for y in self.get(st, 'len'))

    def empty(self, st):
        return self.has(st, 'empty') or any(st.known_eq(x[1], 0) or st.rng(x[1])[1] <= 0 for x in self.get(st, 'len'))

    def branch(self, an, st, i, cond, truth):
        Facts.branch(self, an, st, i, cond, truth)
        if self.whole(st):
            self.tok(st, 'all')
        if self.empty(st):
            self.tok(st, 'empty')
        v = strip(cond)
        if v[0] == 'cmp':
            q = v[1] if truth else st.NEG[v[1]]
            if q == 'eq' and any({strip(v[2]), strip(v[3])} == {x[1], y[1]} for x in self.get(st, 'written') for y in self.get(st, 'len')):
                self.tok(st, 'all')
            a, b = (lin(strip(v[k]) if strip(v[k])[0] != 'i' else an.unfold(st, strip(v[k]))) for k in (2, 3))
            if q in ('ugt', 'sgt', 'uge', 'sge'):
                a, b, q = b, a, st.SWAP[q]
            d = minus(a, b)
            if q in ('ule', 'sle', 'ult', 'slt'):
                for x in self.get(st, 'len'):
                    for y in self.get(st, 'max'):
                        if d == {x[1]: 1, y[1]: -1, ('a', 1): 1}:
                            self.tok(st, 'fits')

    def prestore(self, an, st, i, addr, val):
        if (last_field(addr) or '').endswith('snapshot_buffer.curlen'):
            self.njudge += 1
            if val != ('c', 0):
                self.vio(an, i.line, 'curlen', 'the buffer of the snapshot is not emptied as a whole')
            if not self.whole(st) and not self.empty(st):
                self.vio(an, i.line, 'curlen', 'the buffer of the snapshot is emptied though it may not have been written as a whole')
            self.tok(st, 'emptied')

    def success(self, an, st, line):
        if self.flush:
            if not self.has(st, 'emptied') and not self.empty(st):
                self.vio(an, line, 'result', 'a snapshot counts as written though its last records may not be in the file')
            if not self.sure(st, 'sync', '>=0') and not self.sure(st, 'sync', '0'):
                self.vio(an, line, 'fsync', 'a snapshot counts as written though it may not be on disk')
        elif not self.has(st, 'emptied') and not self.has(st, 'fits'):
            self.vio(an, line, 'result', 'there may be no room in the buffer of the snapshot though there is said to be')


class Direct(Facts):
    """do_snapshot_direct, chkpt_snapshot_direct: the result is that of the snapshot"""
    OK = 'zero'

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n in ('do_snapshot_action', 'do_snapshot_direct'):
            return self.saw(an, st, i, name, args, n)
        return None

    def success(self, an, st, line):
        if not self.sure(st, 'do_snapshot_action', 'n0') and not self.sure(st, 'do_snapshot_direct', '0'):
            self.vio(an, line, 'result', 'a snapshot is reported as done though it may be incomplete')


class Choose(Facts):
    """chkpt_recovery_analysis"""
    ROUND = ('fd', 'valid', 'conv', 'path')
    LOOP = ('chkpt_snapshot_check_file_validity',)

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n in ('open', 'disk_open'):
            an.effect(st, i, name, args)
            self.watch(st, 'fd', st.env[i.id])
            self.tok(st, 'opened', strip(st.env[i.id]))
            return [st]
        if n == 'chkpt_snapshot_check_file_validity':
            self.njudge += 1
            if not any(x[1] == strip(args[0]) for x in self.get(st, 'opened')):
                self.vio(an, i.line, n, 'another file than the one opened is checked')
            return self.saw(an, st, i, name, args, 'valid')
        if n in CONV:
            an.effect(st, i, name, args)
            self.tok(st, 'conv', strip(st.env[i.id]))
            return [st]
        return None

    def prestore(self, an, st, i, addr, val):
        if last_field(addr) == '_chkpt_st.lasttime':
            self.njudge += 1
            if not self.sure(st, 'valid', '0'):
                self.vio(an, i.line, 'lasttime', 'a snapshot is chosen for recovery that may be incomplete')
            if not any(x[1] == strip(val) for x in self.get(st, 'conv')):
                self.vio(an, i.line, 'lasttime', 'the time of the chosen snapshot is not that in its name')
            self.tok(st, 'chosen')

    def turn(self, an, st):
        if self.has(st, 'chosen'):
            self.vio(an, an.fn.line, 'lasttime', 'the search goes on behind the last complete snapshot')
        if self.called(st, 'fd') and not self.sure(st, 'fd', '>=0'):
            self.vio(an, an.fn.line, 'open', 'a snapshot that cannot be opened is passed over for an older one')
        self.drop(st, lambda x: x[0] == 'opened')

    def success(self, an, st, line):
        if self.called(st, 'fd') and self.sure(st, 'fd', '<0'):
            self.vio(an, line, 'open', 'a snapshot that cannot be opened is taken for none')


class Valid(Facts):
    """chkpt_snapshot_check_file_validity"""
    OK = 'zero'

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n in ('lseek', 'disk_lseek') and args[2] == ('c', 2):
            an.effect(st, i, name, args)
            self.watch(st, 'seek', st.env[i.id])
            d = lin(args[1])
            if d == {1: -self.K['DONE']}:
                self.tok(st, 'back')
            return [st]
        if n in ('read', 'disk_read'):
            an.effect(st, i, name, args)
            self.tok(st, 'read', strip(st.env[i.id]), strip(args[2]), args[1])
            return [st]
        if n == 'lrec_check_snapshot_done':
            self.njudge += 1
            if not self.has(st, 'back') or not self.sure(st, 'seek', '>=0'):
                self.vio(an, i.line, n, 'what is checked is not the end of the snapshot')
            if not any(st.known_eq(x[1], self.K['DONE']) and x[3] == args[0] for x in self.get(st, 'read')) and not self.has(st, 'whole'):
                self.vio(an, i.line, n, 'the end mark of the snapshot may not have been read as a whole')
            return self.saw(an, st, i, name, args, 'mark')
        return None

    def branch(self, an, st, i, cond, truth):
        Facts.branch(self, an, st, i, cond, truth)
        if any(st.known_eq(x[1], self.K['DONE']) for x in self.get(st, 'read')):
            self.tok(st, 'whole')

    def success(self, an, st, line):
        if not self.sure(st, 'mark', '0'):
            self.vio(an, line, 'result', 'a snapshot counts as complete without its end mark')


class EndMark(Facts):
    """lrec_check_snapshot_done"""
    OK = 'zero'

    def load2(self, an, st, i, addr, val):
        if (last_field(addr) or '').endswith('loghdr.logtype'):
            self.tok(st, 'type', strip(st.env[i.id]))

    def branch(self, an, st, i, cond, truth):
        if any(st.known_eq(x[1], self.K['DONETYPE']) for x in self.get(st, 'type')):
            self.tok(st, 'mark')

    def success(self, an, st, line):
        if not self.has(st, 'mark'):
            self.vio(an, line, 'logtype', 'another record is taken for the end mark of a snapshot')


class Redo(Facts):
    """chkpt_recovery_redo"""

    def load2(self, an, st, i, addr, val):
        if last_field(addr) == '_chkpt_st.lasttime':
            self.tok(st, 'last', strip(st.env[i.id]))

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'chkpt_snapshot_file_apply':
            self.njudge += 1
            if last_field(args[0]) != '_chkpt_st.snapshot_path':
                self.vio(an, i.line, n, 'another snapshot than the one chosen is applied')
            return self.saw(an, st, i, name, args, 'snap')
        if n in ('sprintf', 'snprintf') and last_field(args[0]) == '_chkpt_st.cmdlog_path':
            if any(x[1] == strip(a) for x in self.get(st, 'last') for a in args[1:]):
                self.tok(st, 'path')
            return None
        if n == 'cmdlog_file_open':
            self.njudge += 1
            if not self.has(st, 'path') or last_field(args[0]) != '_chkpt_st.cmdlog_path':
                self.vio(an, i.line, n, 'another log than that of the chosen snapshot is opened')
            return self.saw(an, st, i, name, args, 'open')
        if n == 'cmdlog_file_apply':
            self.njudge += 1
            if not self.sure(st, 'snap', '>=0'):
                self.vio(an, i.line, n, 'the log is applied though the snapshot before it may not be')
            if not self.sure(st, 'open', '>=0'):
                self.vio(an, i.line, n, 'the log is applied though it may not be open')
            return self.saw(an, st, i, name, args, 'log')
        if n == 'do_checkpoint':
            self.njudge += 1
            if self.called(st, 'snap') or not any(st.rng(x[1])[1] <= 0 for x in self.get(st, 'last')):
                self.vio(an, i.line, n, 'a first checkpoint is made though there is one to recover from')
            return self.saw(an, st, i, name, args, 'chk')
        return None

    def success(self, an, st, line):
        if self.called(st, 'chk'):
            if not self.sure(st, 'chk', '0'):
                self.vio(an, line, 'result', 'the server starts though its first checkpoint may have failed')
        elif not self.sure(st, 'snap', '>=0') or not self.sure(st, 'log', '>=0'):
            self.vio(an, line, 'result', 'recovery is reported as done though snapshot or log may not have been applied')


class Manager(Facts):
    """the caller of both"""
    OK = 'zero'

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'chkpt_recovery_analysis':
            return self.saw(an, st, i, name, args, 'ana')
        if n == 'chkpt_recovery_redo':
            self.njudge += 1
            if not self.sure(st, 'ana', '>=0'):
                self.vio(an, i.line, n, 'recovery goes on though the checkpoint to recover from may not be known')
            return self.saw(an, st, i, name, args, 'redo')
        return None

    def success(self, an, st, line):
        if not self.sure(st, 'redo', '>=0'):
            self.vio(an, line, 'result', 'the server starts though recovery may have failed')


class Apply(Replay):
    """chkpt_snapshot_file_apply"""
    QUANT = ()
    ITER = Replay.ITER + ('set', 'nocoll', 'linked')

    def begin(self, an, st):
        self.coll = [i.args[1] for i in an.fn.calls() if base(an.prog.callee(i) or '') == 'lrec_set_item_in_snapshot_elem']

    def body0(self, st):
        return Replay.body0(self, st)

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'lrec_set_item_in_snapshot_elem':
            self.tok(st, 'set', args[1])
            m = [(a, v) for a, v in st.mem.items() if (last_field(a) or '').split('.')[-1] in ('body_length', 'logtype')]
            an.effect(st, i, name, args)
            st.mem.update(m)
            return [st]
        if n == 'lrec_get_item_if_collection_link':
            self.tok(st, 'linked')
        if n in ('lseek', 'disk_lseek'):
            self.vio(an, i.line, n, 'records of the snapshot may be left out')
            return None
        return Replay.call(self, an, st, i, name, args)

    def branch(self, an, st, i, cond, truth):
        Replay.branch(self, an, st, i, cond, truth)
        if any(st.known_eq(an.val(st, o), 0) for o in self.coll):
            self.tok(st, 'nocoll')
        for t in ('LINK', 'ELEM', 'DONETYPE'):
            r = self.istype(st, t)
            if r is not None:
                self.tok(st, 'is', t, r)

    def redo(self, an, st, i, n, args):
        Replay.redo(self, an, st, i, n, args)
        if self.isit(st, 'ELEM') and not self.get(st, 'set'):
            self.vio(an, i.line, n, 'an element is replayed without the collection it belongs to')

    def isit(self, st, t):
        for r in (True, False):
            if self.has(st, 'is', t, r):
                return r
        return self.istype(st, t)

    def phis(self, an, st, b, prev):
        Replay.phis(self, an, st, b, prev)
        if an.back.get((prev, b)) is not None:
            self.drop(st, lambda x: x[0] == 'is')

    def round(self, an, st):
        self.njudge += 1
        line = an.fn.line
        if not self.whole(st, 'hres'):
            return self.vio(an, line, 'header', 'goes on though the header of a record may not have been read as a whole')
        if not self.body0(st) and not self.whole(st, 'bres'):
            self.vio(an, line, 'body', 'goes on though the body of a record may not have been read as a whole')
        if self.isit(st, 'DONETYPE') is not False and not (self.isit(st, 'LINK') or self.isit(st, 'ELEM')):
            self.vio(an, line, 'end mark', 'goes on behind the end mark of the snapshot')
        if self.isit(st, 'LINK') is not False or self.isit(st, 'ELEM') is not False and not self.isit(st, 'DONETYPE'):
            if self.get(st, 'redo'):
                self.applied(an, st, line)
                if self.isit(st, 'LINK') and not self.has(st, 'linked'):
                    self.vio(an, line, 'collection', 'elements of a collection may be put into the one before it')
            elif self.isit(st, 'LINK') is not False:
                self.vio(an, line, 'record', 'an item of the snapshot is passed over')
            elif not self.has(st, 'nocoll'):
                self.vio(an, line, 'record', 'an element of the snapshot is passed over')

    def ret(self, an, st, i, val):
        if self.fails(st, val):
            return
        self.njudge += 1
        if self.has(st, 'nothing') or self.nothing(st):
            return
        if self.isit(st, 'DONETYPE') is not True:
            self.vio(an, i.line or an.fn.line, 'result', 'a snapshot counts as applied before its end mark was reached')

    def prestore(self, an, st, i, addr, val):
        pass


def check(ctx, P, K):
    todo = ((Checkpoint, 'do_checkpoint'), (Thread, 'chkpt_thread_main'), (Finished, 'cmdlog_file_dual_write_finished'),
            (Sweep, 'do_chkpt_sweep_files'), (Action, 'do_snapshot_action'), (Put, 'do_snapshot_data_dump'), (Put, 'do_snapshot_data_done'),
            (Out, 'do_snapshot_buffer_check_space'), (Out, 'do_snapshot_buffer_flush'), (Direct, 'do_snapshot_direct'),
            (Direct, 'chkpt_snapshot_direct'), (Choose, 'chkpt_recovery_analysis'), (Valid, 'chkpt_snapshot_check_file_validity'),
            (EndMark, 'lrec_check_snapshot_done'), (Redo, 'chkpt_recovery_redo'), (Apply, 'chkpt_snapshot_file_apply'))
    done = 0
    for f in P.fns.values():
        if any(P.callee(i) == 'chkpt_recovery_redo' for i in f.calls()):
            todo += ((Manager, f.name),)
            done += 1
    if not done:
        raise Broken('nothing calls chkpt_recovery_redo')
    for cls, n in todo:
        f = P.fns.get(n)
        if f is None:
            raise Broken(n + ' is gone')
        c = cls(ctx, P, K, f, 'checkpoint')
        Analysis(P, c.fn, c).run()
        ctx.count('functions judged')
        ctx.count('states judged', c.njudge)
