"""From the counter to the figure shown: statistics are summed, cleared and printed under their own names.

   threads  threadlocal_stats_clear zeroes every counter; threadlocal_stats_aggregate adds every counter of every thread to the same
            counter of the sum; server_stats prints each under the name of the field
   prefixes stats_prefix_record_X adds one to num_Xs, and to its hit counter exactly if it was a hit, for the prefix and its parents;
            the dump prints each field behind its own keyword and reserves room for it
   engine   the item figures are printed under their own names, with the name's length
   topkeys  each figure is printed behind its own name
"""
from flow import Analysis, Client, last_field
from own import base

NAMES = {'daemon_conns': 'daemon_connections', 'curr_conns': 'curr_connections', 'quit_conns': 'quit_connections',
         'rejected_conns': 'reject_connections', 'total_conns': 'total_connections', 'conn_structs': 'connection_structures',
         'curr_bytes': 'bytes', 'maxbytes': 'engine_maxbytes', 'num_threads': 'threads'}
SHARED = {'maxbytes': ('limit_maxbytes', 'engine_maxbytes', 'maxbytes')}
ITEM = ('reclaimed', 'evictions', 'outofmemorys', 'sticky_items', 'curr_items', 'total_items', 'sticky_bytes', 'curr_bytes')


def strip(v):
    while v[0] in ('tr', 'zx', 'sx'):
        v = v[2] if v[0] == 'tr' else v[-1]
    return v


class Watch(Client):
    """records where loaded values come from and what is stored and called"""
    cap = 40

    def __init__(self):
        self.src, self.stores, self.calls = {}, [], []

    def load(self, an, st, i, addr, val):
        self.src[val] = addr

    def prestore(self, an, st, i, addr, val):
        self.stores.append((i, addr, an.unfold(st, val)))

    def call(self, an, st, i, name, args):
        self.calls.append((i, name, list(args)))
        return None

    def origin(self, v):
        v = strip(v)
        seen = 0
        while v in self.src and seen < 4:
            return self.src[v]
        return None


def watch(ctx, prog, name):
    fn = prog.fns[name]
    w = Watch()
    a = Analysis(prog, fn, w)
    a.run()
    ctx.count('functions')
    ctx.count('abstract states', a.nstates)
    return fn, w


def root(a):
    while a[0] in ('f', 'x'):
        a = a[1]
    return a


def fieldname(a):
    f = last_field(a) if a else None
    return f.split('.', 1)[1] if f else None


def threads(ctx, prog):
    every = {m[0] for m in prog.structs['thread_stats'] if m[0] != 'mutex'}

    fn, w = watch(ctx, prog, 'threadlocal_stats_clear')
    zero = set()
    for i, addr, val in w.stores:
        f = last_field(addr)
        if f and f.startswith('thread_stats.'):
            if val != ('c', 0):
                ctx.violation('clear', fn, i.line, f, '%s is set to something other than zero' % f)
            zero.add(f.split('.')[1])
    for i, name, args in w.calls:
        if name and name.startswith(('memset', 'llvm.memset')) and args[1] == ('c', 0) and args[2][0] == 'c':
            off = 0
            b = args[0]
            start = [m for m in prog.structs['thread_stats'] if last_field(b) == 'thread_stats.' + m[0]]
            off = start[0][1] if start else 0
            zero |= {m[0] for m in prog.structs['thread_stats'] if m[1] >= off and m[1] + m[3] <= off + args[2][1]}
    for f in sorted(every - zero):
        ctx.violation('clear', fn, fn.line, f, 'thread_stats.%s is not cleared: a sum would start from garbage, a reset would keep it' % f)
    ctx.count('counters cleared', len(zero & every))

    fn, w = watch(ctx, prog, 'threadlocal_stats_aggregate')
    summed = set()
    for i, addr, val in w.stores:
        f = last_field(addr)
        if not f or not f.startswith('thread_stats.'):
            continue
        if root(addr) != ('a', 1):
            ctx.violation('sum', fn, i.line, f, 'the counters of a thread are written while being summed')
            continue
        parts = [w.origin(x) for x in val[2:4]] if val and val[0] == 'bin' and val[1] == 'add' else []
        if sorted((fieldname(x), root(x)) for x in parts if x) == [(f.split('.')[1], ('a', 0)), (f.split('.')[1], ('a', 1))] or \
                sorted(map(str, parts)) and not all(parts) and len(parts) == 2 and all(
                    x is None or fieldname(x) == f.split('.')[1] for x in parts):
            summed.add(f.split('.')[1])
        else:
            ctx.violation('sum', fn, i.line, f, '%s of the sum is not raised by %s of the thread but by %s' % (
                f, f, ' and '.join(str(fieldname(x)) for x in parts)))
    for f in sorted(every - summed):
        ctx.violation('sum', fn, fn.line, f, 'thread_stats.%s of the threads is not summed' % f)
    ctx.count('counters summed', len(summed))
    loops(ctx, prog, 'threadlocal_stats_aggregate')
    loops(ctx, prog, 'threadlocal_stats_reset')

    fn, w = watch(ctx, prog, 'server_stats')
    shown = {}
    for i, name, args in w.calls:
        if name and base(name) == 'append_stat' and args[0][0] == 's':
            for v in args[4:]:
                o = w.origin(v)
                f = last_field(o) if o else None
                if f and f.startswith(('thread_stats.', 'mc_stats.', 'stats.')):
                    shown.setdefault(f, []).append((args[0][1], i.line))
    for f, uses in shown.items():
        n = f.split('.')[1]
        for s, line in uses:
            ctx.count('figures shown')
            if s != NAMES.get(n, n) and s not in SHARED.get(n, ()):
                ctx.violation('shown', fn, line, s, '%s is shown as %s' % (f, s))
    for f in sorted(every):
        if 'thread_stats.' + f not in shown and f not in ('bytes_read', 'bytes_written', 'conn_yields'):
            ctx.violation('shown', fn, fn.line, f, 'thread_stats.%s is not shown' % f)


def loops(ctx, prog, name):
    """the loop over the threads goes from 0 below settings.num_threads by one"""
    fn = prog.fns[name]

    def is_count(o):
        while o[0] == 'i' and fn.insts[o[1]].op == 'cast':
            o = fn.insts[o[1]].a
        if o[0] != 'i' or fn.insts[o[1]].op != 'load':
            return False
        p = fn.insts[o[1]].p
        off = [m[1] for m in prog.structs.get('settings', ()) if m[0] == 'num_threads']
        return (prog.addr_field(fn, p) or '') in ['settings.num_threads'] + ['settings.@%d' % o for o in off] or p == ('g', 'nthreads')
    ctx.count('loops over threads')
    for i in fn.all():
        if i.op != 'icmp':
            continue
        for x, y in ((i.a, i.b), (i.b, i.a)):
            v = x
            while v[0] == 'i' and fn.insts[v[1]].op == 'cast':
                v = fn.insts[v[1]].a
            if v[0] != 'i' or fn.insts[v[1]].op != 'phi':
                continue
            phi = fn.insts[v[1]]
            start = [q for q in phi.phi.values() if q[0] == 'c']
            up = [fn.insts[q[1]] for q in phi.phi.values() if q[0] == 'i' and fn.insts[q[1]].op == 'bin']
            if start == [('c', 0)] and up and all(('c', 1) in (u.a, u.b) and u.k == 'add' for u in up):
                if is_count(y) and i.pred in (('slt', 'ult', 'ne', 'sge', 'uge', 'eq') if x == i.a else ('sgt', 'ugt', 'ne', 'sle', 'ule', 'eq')):
                    continue
            elif not start:
                continue        # another way of counting
            ctx.violation('sum', fn, i.line, 'threads', 'the loop does not run over all threads, from 0 below settings.num_threads')


class Record(Client):
    """one recorded request raises the figures of its prefix, and of each parent, by one"""
    cap = 60

    def __init__(self, ctx, op):
        self.ctx, self.op = ctx, op
        self.cnt = 'num_%ss' % op
        self.hit = 'num_hits' if op == 'get' else 'num_%s_hits' % op
        self.src, self.counted, self.bad = {}, 0, {}

    def entry(self, an, fn):
        return (None, 0, 0)     # the entry being updated, counted, hits

    def live_syms(self, prop):
        return [prop[0]] if prop[0] else []

    def load(self, an, st, i, addr, val):
        self.src[val] = addr
        if fieldname(addr) == 'parent_stat' and st.prop[0]:
            self.done(st, i.line)
            st.prop = (val, 0, 0)

    def done(self, st, line):
        cur, n, h = st.prop
        if n != 1:
            self.bad[line] = '%s is raised %s' % (self.cnt, 'twice' if n else 'for not every entry')
        if self.args > 2:
            yes, no = st.known_ne(('a', 2), 0), st.known_eq(('a', 2), 0)
            if h == 'hit':
                pass
            elif h > 1 or h == 1 and not yes or h == 0 and not no:
                self.bad[line] = '%s is not raised exactly on a hit' % self.hit

    def prestore(self, an, st, i, addr, val):
        f = last_field(addr)
        if not f or not f.startswith('_prefix_stats.num_'):
            return
        f = f.split('.')[1]
        val = an.unfold(st, val)
        if f not in (self.cnt, self.hit) or f == self.hit and self.args < 3:
            self.bad[i.line] = '%s is changed by a %s' % (f, self.op)
            return
        old = lambda x: strip(x) in self.src and last_field(self.src[strip(x)]) == last_field(addr)
        parts = [x for x in val[2:4]] if val[0] == 'bin' and val[1] == 'add' else [val, ('c', 0)]
        by = [y for x, y in (parts, parts[::-1]) if old(x)]
        by = by[0] if by else None
        if by == ('c', 0):
            return
        if by and self.args > 2 and f == self.hit and self.boolean(by) == ('a', 2):
            h = 1 if st.known_ne(('a', 2), 0) else 0 if st.known_eq(('a', 2), 0) else 'hit'
            cur, n, h0 = st.prop
            st.prop = (cur, n, h if h0 == 0 else 2)
            self.counted += 1
            return
        if by != ('c', 1):
            self.bad[i.line] = '%s is not raised by one' % f
        if root(addr) != st.prop[0] and st.prop[0] is not None and root(addr)[0] not in 'jor':
            self.bad[i.line] = '%s of another entry is raised' % f
        self.counted += 1
        cur, n, h = st.prop
        st.prop = (cur, n + (f == self.cnt), 2 if h == 'hit' and f == self.hit else h if h == 'hit' else h + (f == self.hit))

    @staticmethod
    def boolean(v):
        """the truth value v stands for: is_hit, is_hit != 0"""
        while True:
            w = strip(v)
            if w[0] == 'cmp' and w[1] == 'ne' and w[3] == ('c', 0):
                w = w[2]
            if w == v:
                return v
            v = w

    def call(self, an, st, i, name, args):
        if name and base(name) == 'stats_prefix_find':
            an.effect(st, i, name, args)
            v = ('i', i.id)
            st.env[i.id] = v
            st.prop = (v, 0, 0)
            return [st]
        return None

    def ret(self, an, st, i, val):
        cur, n, h = st.prop
        if cur is None:
            self.bad[i.line] = 'the entry of the prefix is not looked up'
        elif not st.known_eq(cur, 0):
            if n == 0:
                self.bad[i.line] = 'the request is not recorded although the prefix is known'


class Books(Client):
    """entries linked minus unlinked against num_prefixes and total_prefix_size"""
    cap = 12
    total_cap = 1500
    fields_of_interest = frozenset(["_prefix_stats.prefix_len"])

    def __init__(self, want):
        self.want, self.src, self.bad, self.seen = want, {}, {}, 0

    def entry(self, an, fn):
        return (0, 0, 0, None)     # linked - counted, counted - sized, sized so far, entry taken out

    def live_syms(self, prop):
        return [prop[3]] if prop[3] else []

    def load(self, an, st, i, addr, val):
        self.src[val] = addr

    def plain(self, an, st, v):
        for _ in range(6):
            v = strip(v)
            if v[0] == 'i' and an.fn.insts[v[1]].op == 'cast':
                v = an.val(st, an.fn.insts[v[1]].a)
        return strip(v)

    def delta(self, an, st, addr, val):
        v = self.plain(an, st, val)
        v = an.unfold(st, v)
        if v[0] != 'bin' or v[1] not in ('add', 'sub'):
            return None
        for x, y in ((v[2], v[3]), (v[3], v[2])):
            if self.src.get(self.plain(an, st, x)) == addr:
                y = self.plain(an, st, y)
                if y[0] == 'c' and y[1] < 0:
                    return (-1, ('c', -y[1]))
                return (1 if v[1] == 'add' else -1, y)
        return None

    def prestore(self, an, st, i, addr, val):
        link, size, n, cur = st.prop
        g = addr[1].split('.')[-1] if addr[0] == 'g' else None
        if g == 'num_prefixes' or fieldname(addr) == 'child_prefixes':
            d = self.delta(an, st, addr, val)
            if d is None or d[1] != ('c', 1):
                self.bad[i.line] = '%s is not changed by one' % (g or 'child_prefixes')
                st.prop = (0, 0, n, cur)
                return
            self.seen += 1
            st.prop = (max(link - d[0], -2), max(min(size + (d[0] if g else 0), 2), -2), n, cur)
        elif g == 'total_prefix_size':
            d = self.delta(an, st, addr, val)
            if d is None:
                self.bad[i.line] = 'total_prefix_size is not changed by the length of the prefix'
                return
            self.seen += 1
            o = self.src.get(d[1])
            null = d[1][0] == 'i' and an.fn.insts[d[1][1]].op == 'call' or d[1] == ('c', 6)
            if not null and d[1][0] == 'c':
                self.bad[i.line] = 'total_prefix_size is changed by a constant'
            if null and not any(st.known_eq(x, 0) for x in self.lens(st)):
                self.bad[i.line] = 'the length of the null prefix is booked for another prefix'
            if not null and self.want > 0 and st.known_eq(d[1], 0):
                self.bad[i.line] = 'the null prefix is booked with no length'
            st.prop = (link, max(min(size - d[0], 2), -2), n, cur)
        elif addr[0] == 'x' and root(addr) == ('g', addr_g(addr)) and addr_g(addr).split('.')[-1] == 'prefix_stats' or fieldname(addr) == 'next':
            if self.want > 0 and fieldname(addr) != 'next':
                st.prop = (min(link + 1, 2), size, n, cur)
            elif self.want < 0:
                st.prop = (max(link - 1, -2), size, n, cur)

    def lens(self, st):
        return [('a', 1)] + [v for v, a in self.src.items() if fieldname(a) in ('prefix_len', 'nprefix')]

    def ret(self, an, st, i, val):
        link, size, n, cur = st.prop
        if link:
            self.bad[i.line] = 'an entry is %s without num_prefixes following' % ('linked' if self.want > 0 else 'unlinked')
        if size:
            self.bad[i.line] = 'num_prefixes is changed without total_prefix_size following'


def addr_g(a):
    r = root(a)
    return r[1] if r[0] == 'g' else ''


def books(ctx, prog):
    for name, want in (('do_stats_prefix_insert', 1), ('do_stats_prefix_delete', -1)):
        fn = prog.fns[name]
        c = Books(want)
        a = Analysis(prog, fn, c)
        a.run()
        ctx.count('functions')
        ctx.count('changes of the prefix books', c.seen)
        for line, msg in c.bad.items():
            ctx.violation('books', fn, line, name, msg)


def prefixes(ctx, prog):
    books(ctx, prog)
    ops = set()
    for name, fn in sorted(prog.fns.items()):
        if not name.startswith('stats_prefix_record_') or not fn.blocks:
            continue
        op = name[len('stats_prefix_record_'):]
        ops.add(op)
        c = Record(ctx, op)
        c.args = len(fn.args)
        a = Analysis(prog, fn, c)
        a.run()
        ctx.count('recording functions')
        ctx.count('abstract states', a.nstates)
        if not c.counted:
            c.bad[fn.line] = '%s is never raised' % c.cnt
        for line, msg in c.bad.items():
            ctx.violation('record', fn, line, op, msg)

    # the dump: keyword by keyword
    words = {'get': 'num_gets', 'hit': 'num_hits', 'set': 'num_sets', 'del': 'num_deletes', 'inc': 'num_incrs', 'dec': 'num_decrs',
             'gas': 'num_getattrs', 'sas': 'num_setattrs'}
    for l, c in (('l', 'lop'), ('s', 'sop'), ('m', 'mop'), ('b', 'bop')):
        for k, o in (('c', 'create'), ('i', 'insert'), ('u', 'update'), ('d', 'delete'), ('g', 'get'), ('e', 'exist')):
            words[l + k + 's'] = 'num_%s_%ss' % (c, o)
            words[l + k + 'h'] = 'num_%s_%s_hits' % (c, o)
    for k, o in (('bp', 'incr'), ('bm', 'decr'), ('bn', 'count'), ('pf', 'position'), ('pg', 'pwg'), ('gp', 'gbp')):
        words[k + 's'], words[k + 'h'] = 'num_bop_%ss' % o, 'num_bop_%s_hits' % o
    dump, dw = watch(ctx, prog, 'stats_prefix_dump')
    wr, ww = watch(ctx, prog, 'do_stats_prefix_write_buffer')
    fmts = {a[1] for i, n, args in dw.calls for a in args if a[0] == 's' and 'PREFIX' in a[1]}
    lines = [(i, args) for i, n, args in ww.calls if n and base(n) == 'snprintf']
    if len(fmts) != 1 or not lines:
        raise SystemExit('the format of the prefix statistics is not found')
    fmt = fmts.pop()
    keys = fmt.split()[2:]
    names = keys[0::2]
    i, args = lines[0]
    vals = args[4:]
    got = [fieldname(ww.origin(v)) for v in vals]
    if len(names) != len(got):
        ctx.violation('dump', wr, i.line, 'snprintf', 'the dump has %d keywords and %d figures' % (len(names), len(got)))
    for n, g in zip(names, got):
        ctx.count('keywords of the dump')
        if words.get(n) != g:
            ctx.violation('dump', wr, i.line, n, 'keyword %s is followed by %s' % (n, g))
    every = {m[0] for m in prog.structs['_prefix_stats'] if m[0].startswith('num_')}
    for f in sorted(every - set(got)):
        ctx.violation('dump', wr, i.line, f, '%s is not shown' % f)
    # room for it
    def at(v, length, many):
        if v[0] == 'i' and dump.insts[v[1]].op == 'call':
            return length if base(prog.callee(dump.insts[v[1]]) or '') == 'strlen' else None
        o = dw.origin(v)
        return many if v == ('a', 1) or o and o[0] == 'g' and o[1].split('.')[-1] == 'num_prefixes' else 0
    numbers = fmt.count('%llu')
    for i, n, args in dw.calls:
        if not n or base(n) != 'malloc':
            continue
        for many in (0, 1, 7, 1000):
            room = size(args[0], len(fmt), many, at)
            need = many * (len(fmt) - 2 - 4 * numbers + 20 * numbers) + len('END\r\n') + 1
            ctx.count('sizes evaluated')
            if room is not None and room < need:
                ctx.violation('dump', dump, i.line, 'malloc', 'the buffer for %d prefixes is %d bytes too small' % (many, need - room))
                break


def size(v, length, many, at):
    """value of the size expression with all names empty; None if it is not made of sums and products"""
    if v[0] == 'c':
        return v[1]
    if v[0] == 'bin' and v[1] in ('add', 'sub', 'mul'):
        a, b = size(v[2], length, many, at), size(v[3], length, many, at)
        return None if a is None or b is None else a + b if v[1] == 'add' else a - b if v[1] == 'sub' else a * b
    if v[0] in ('tr', 'zx', 'sx'):
        return size(strip(v), length, many, at)
    return at(v, length, many)


def engine(ctx, prog):
    seen = set()
    for name, fn in sorted(prog.fns.items()):
        if not fn.blocks or not any(a[0].startswith('add_stat') for a in fn.args) and 'add_stat' not in name:
            continue
        fn, w = watch(ctx, prog, name)
        last = None
        for i, n, args in w.calls:
            if n and base(n) in ('sprintf', 'snprintf'):
                last = args
            if len(args) == 5 and args[0][0] == 's' and args[1][0] == 'c' and (not n or not n.startswith('llvm')) and n != 'add_statistics':
                ctx.count('names measured')
                if args[1][1] != len(args[0][1]):
                    ctx.violation('name', fn, i.line, args[0][1], 'the name %r is given as %d bytes long' % (args[0][1], args[1][1]))
                if args[2][0] == 's' and args[3][0] == 'c' and args[3][1] != len(args[2][1]):
                    ctx.violation('name', fn, i.line, args[2][1], 'the value %r is given as %d bytes long' % (args[2][1], args[3][1]))
                if last and args[2] == last[0] and last[-1] is not None:
                    o = w.origin(last[-1])
                    f = fieldname(o) if o else None
                    if f and (last_field(o).startswith(('engine_stats.', 'engine_config.', 'config.', '_stats'))):
                        ctx.count('figures shown')
                        seen.add(f)
                        if args[0][1] != NAMES.get(f, f) and args[0][1] not in SHARED.get(f, ()):
                            ctx.violation('shown', fn, i.line, args[0][1], '%s is shown as %s' % (last_field(o), args[0][1]))
    for f in ITEM:
        if f not in seen:
            ctx.violation('shown', prog.fns['do_item_stat_get'], prog.fns['do_item_stat_get'].line, f, 'engine_stats.%s is not shown' % f)


def topkeys(ctx, prog):
    fn, w = watch(ctx, prog, 'tk_iterfunc')
    for i, n, args in w.calls:
        if n and base(n) == 'snprintf' and args[2][0] == 's':
            keys = [x.split('=')[0] for x in args[2][1].split(',') if x]
            for k, v in zip(keys, args[3:]):
                o = w.origin(v)
                if o is None and strip(v)[0] == 'bin':
                    o = w.origin(strip(v)[3])
                ctx.count('figures of a top key')
                if fieldname(o) != k:
                    ctx.violation('topkeys', fn, i.line, k, '%s is followed by %s' % (k, fieldname(o)))
