"""A write happens completely or not at all, and one key names one item.

Every function of the item and collection layer that changes items is followed over all its paths.
   all-or-nothing  on a path that returns failure no change is left behind (an item linked on the way has been unlinked
                   again); functions that report failure may be relied on, by induction, to have changed nothing
   created         the created flag is raised exactly on the successes that leave a new item linked
   dropped         a collection is unlinked by an element operation only when it was asked for and the element count was found
                   zero after the removal; the dropped flag is raised exactly then
   one item        an item is linked only after a lookup of its key missed (or the item found was unlinked) since the cache lock
                   was taken; an item is replaced only by one with its key
"""
import re
from flow import Analysis, Client, last_field, ids_of
from own import base

FILES = ('coll_list', 'coll_set', 'coll_map', 'coll_btree', 'items')
PRIM = ('do_item_link', 'do_item_unlink', 'do_item_replace')
FIND = re.compile(r'^do_(list|set|map|btree)_item_find$')
ALLOC = re.compile(r'^(do_)?((list|set|map|btree)_)?item_alloc$')
FIELD = re.compile(r'^_?(list|set|map|btree|coll)_meta_info\.(ccnt|head|tail|mcnt|ovflact|mflags|bktype|maxbkeyrange)|^_hash_item\.(exptime|flags)$')
CCNT = re.compile(r'_meta_info\.ccnt$')


def strip(v):
    while v[0] in ('tr', 'zx'):
        v = v[2]
    return v


def effectful(prog):
    """functions that change items, elements or attributes, transitively; {name: (own stores, primitive calls)}"""
    direct, calls = {}, {}
    for f in prog.fns.values():
        if f.stem not in FILES or not f.blocks or ALLOC.match(base(f.name)):
            continue
        calls[f.name] = {prog.callee(i) for i in f.calls()} - {None}
        why = {prog.addr_field(f, i.p) for i in f.all() if i.op == 'store' and FIELD.match(prog.addr_field(f, i.p) or '')}
        why |= {n for n in calls[f.name] if base(n) in PRIM}
        if why:
            direct[f.name] = why
    eff = set(direct)
    while True:
        more = {n for n, c in calls.items() if n not in eff and c & eff}
        if not more:
            return eff
        eff |= more


def delete_arg(f):
    """which argument asks a reading function to remove what it reads"""
    for k, a in enumerate(f.args):
        if a[0] == 'delete' and 'ool' in a[1]:
            return k
    return None


class Ops(Client):
    cap = 100
    total_cap = 3000

    def __init__(self, ctx, prog, fn, eff, K):
        self.ctx, self.prog, self.fn, self.eff, self.K = ctx, prog, fn, eff, K
        self.out = []
        if fn.dret != 'ENGINE_ERROR_CODE':
            self.cap = 30
        self.saved = {}
        self.nlink = self.nrep = self.nunl = 0
        names = {}
        for k, a in enumerate(fn.args):
            names[a[0]] = k
        self.argno = names
        self.strict = not re.search(r'(^|_)apply_', base(fn.name)) and fn.dret == 'ENGINE_ERROR_CODE'

    def entry(self, an, fn):
        return frozenset()

    def live_syms(self, prop):
        out = []
        for x in prop:
            out += [y for y in x[1:] if isinstance(y, tuple)]
        return out

    def tok(self, st, *t):
        st.prop = st.prop | {t}

    def untok(self, st, f):
        st.prop = frozenset(x for x in st.prop if not f(x))

    def merge_old(self, an, st, ids):
        out = set()
        for x in st.prop:
            if ids_of(x) & ids:
                if x[0] in ('link', 'unlink'):
                    out.add((x[0], ('folded',)))
            else:
                out.add(x)
        return frozenset(out)

    def load(self, an, st, i, addr, val):
        f = last_field(addr)
        if f and CCNT.search(f):
            self.untok(st, lambda x: x[0] == 'cc')
            self.tok(st, 'cc', val)

    def store(self, an, st, i, addr, val):
        for k, v in self.saved.items():
            if self.root(k) != self.root(addr):
                st.mem.setdefault(k, v)

    def prestore(self, an, st, i, addr, val):
        self.saved = {k: v for k, v in st.mem.items() if self.isflag(k)}
        f, b = None, addr
        while b[0] in ('f', 'x'):
            if f is None and b[0] == 'f' and FIELD.match(b[2]):
                f = b[2]
            b = b[1]
        if f is None:
            return
        if f.endswith('.mflags') and val is not None:
            v = strip(val)
            if v[0] == 'bin' and v[1] == 'or' and v[3] == ('c', self.K['TRIMMED']):
                return          # a refused out-of-range element is recorded as an implicit trim
        if any(x[0] == 'fresh' and x[1] == b for x in st.prop):
            return
        self.tok(st, 'chg', f)
        if CCNT.search(f):
            self.untok(st, lambda x: x[0] == 'cc')

    def keyof(self, st, it):
        """symbols known to be the key of this item"""
        out = {('K', it)}
        for x in st.prop:
            if x[0] in ('fresh', 'hit') and x[1] == it:
                out.add(x[2])
        return out

    def call(self, an, st, i, name, args):
        # a flag the caller passed is only written by those it is passed on to
        keep = {k: v for k, v in st.mem.items() if self.isflag(k) and not any(self.root(k) == self.root(a) for a in args)}
        out = self.call2(an, st, i, name, args)
        if out is None and keep:
            an.effect(st, i, name, args)
            out = [] if i.noret else [st]
        for s in out or ():
            s.mem.update(keep)
        return out

    def root(self, k):
        while k[0] in ('f', 'x'):
            k = k[1]
        return k

    def isflag(self, k):
        if k[0] == 'a':
            return self.fn.args[k[1]][1].replace('_Bool', 'bool') == 'bool*'
        return k[0] == 'f' and k[2].endswith('_result.dropped')

    def call2(self, an, st, i, name, args):
        n = base(name) if name else ''
        if n == 'item_get_key':
            st.env[i.id] = ('K', args[0])
            return [st]
        if n == 'item_get_meta':
            st.env[i.id] = ('f', args[0], '#meta')
            return [st]
        if n == 'UNLOCK_CACHE' or n == 'pthread_mutex_unlock' and args and last_field(args[0]) == 'default_engine.cache_lock':
            self.untok(st, lambda x: x[0] in ('miss', 'hit'))
            return None
        if n == 'do_item_get':
            an.effect(st, i, name, args)
            v = st.env[i.id]
            miss = st.copy()
            miss.narrow(v, 0, 0, frozenset())
            miss.env[i.id] = ('c', 0)
            self.tok(miss, 'miss', args[0])
            st.narrow(v, -float('inf'), float('inf'), frozenset([0]))
            self.tok(st, 'hit', v, args[0])
            return [miss, st]
        if FIND.match(n):
            an.effect(st, i, name, args)
            v = st.env[i.id]
            out = []
            for code in (0, self.K['ENOENT'], None):
                s = st.copy()
                if code is None:
                    s.narrow(v, -float('inf'), float('inf'), frozenset([0, self.K['ENOENT']]))
                else:
                    s.env[i.id] = ('c', code)
                    if code:
                        self.tok(s, 'miss', args[0])
                out.append(s)
            return out
        if ALLOC.match(n):
            an.effect(st, i, name, args)
            self.tok(st, 'fresh', st.env[i.id], args[0])
            return [st]
        if n == 'do_item_link':
            self.nlink += 1
            x = args[0]
            ks = self.keyof(st, x)
            if not any(t[0] == 'miss' and t[1] in ks for t in st.prop):
                self.ctx.violation('one item', an.fn, i.line, 'do_item_link',
                                   'links an item whose key was not found absent since the cache lock was taken')
            an.effect(st, i, name, args)
            v = st.env[i.id]
            fail = st.copy()
            fail.narrow(v, -float('inf'), float('inf'), frozenset([0]))
            st.env[i.id] = ('c', 0)
            self.untok(st, lambda t: t[0] == 'miss')
            self.tok(st, 'link', x)
            return [st, fail]
        if n == 'do_item_unlink':
            self.nunl += 1
            x = args[0]
            self.drop(an, st, i, x)
            for k in self.keyof(st, x):
                self.tok(st, 'miss', k)
            if ('link', x) in st.prop:
                self.untok(st, lambda t: t == ('link', x))
            else:
                self.tok(st, 'unlink', x)
            an.effect(st, i, name, args)
            return [st]
        if n == 'do_item_replace':
            self.nrep += 1
            o, x = args[0], args[1]
            if not self.keyof(st, o) & self.keyof(st, x):
                self.ctx.violation('one item', an.fn, i.line, 'do_item_replace', 'replaces an item by one that may have another key')
            self.tok(st, 'chg', 'do_item_replace')
            an.effect(st, i, name, args)
            return [st]
        if name in self.eff:
            d = self.prog.fns[name].dret
            an.effect(st, i, name, args)
            k = delete_arg(self.prog.fns[name])
            both = []
            if k is not None and not st.known_ne(args[k], 0):
                ro = st.copy()
                if st.known_eq(args[k], 0):
                    return [ro]
                if ro.assume(('cmp', 'eq', args[k], ('c', 0)), True):
                    both = [ro]
                if not st.assume(('cmp', 'ne', args[k], ('c', 0)), True):
                    return both
            self.untok(st, lambda t: t[0] == 'cc')
            if d == 'void':
                self.tok(st, 'chg', n)
                return [st] + both
            v = st.env[i.id]
            no = st.copy()
            if d == 'ENGINE_ERROR_CODE':
                no.narrow(v, -float('inf'), float('inf'), frozenset([0]))
                st.env[i.id] = ('c', 0)
            else:
                no.env[i.id] = ('c', 0)
                st.narrow(v, 1, float('inf'), frozenset())
            self.tok(st, 'chg', n)
            return [st, no] + both
        return None

    def arg(self, name):
        return ('a', self.argno[name]) if name in self.argno else None

    def drop(self, an, st, i, x):
        d = self.arg('drop_if_empty')
        if d is None or ('link', x) in st.prop:
            return
        self.tok(st, 'asked', bool(st.known_ne(d, 0) or st.known_eq(d, 1)), i.line)
        self.tok(st, 'empty', any(t[0] == 'cc' and st.known_eq(t[1], 0) for t in st.prop), i.line)

    def flag(self, st, name):
        a = self.arg(name)
        if a is not None:
            return st.mem.get(a)
        for k, v in st.mem.items():
            if k[0] == 'f' and k[2].endswith('_result.' + name):
                return v
        return None

    def ret(self, an, st, i, val):
        self.out.append((st, i, val))


def finish(ctx, c, f):
    for st, i, val in c.out:
        ctx.count('paths judged')
        chg = sorted(str(t[1]) for t in st.prop if t[0] == 'chg')
        link = [t for t in st.prop if t[0] == 'link']
        unl = [t for t in st.prop if t[0] == 'unlink']
        k = delete_arg(f)
        if k is not None and chg and st.known_eq(('a', k), 0):
            ctx.violation('all-or-nothing', f, i.line, chg[0], 'changes something (%s) when it was only to read' % ', '.join(chg))
        if f.dret != 'ENGINE_ERROR_CODE':
            continue
        # eff code: anything not known to be a success may be a failure
        if c.strict and (chg or link or unl) and not st.known_eq(val, 0):
            what = 'linked item' if link else 'unlinked item' if unl else chg[0]
            ctx.violation('all-or-nothing', f, i.line, what, 'may report failure after a change (%s) that is not undone' %
                          ', '.join(['link'] * len(link) + ['unlink'] * len(unl) + chg))
        if not st.known_eq(val, 0):
            continue
        if 'created' in c.argno:
            v = c.flag(st, 'created')
            if link and (v is None or not st.known_ne(v, 0)):
                ctx.violation('created', f, i.line, 'created', 'a new item is left linked without being reported as created')
            if not link and (v is None or not st.known_eq(v, 0)):
                ctx.violation('created', f, i.line, 'created', 'may report an item as created that was not')
        if 'drop_if_empty' in c.argno:
            v = c.flag(st, 'dropped')
            d = c.arg('drop_if_empty')
            for t in st.prop:
                if t[0] == 'asked' and not t[1]:
                    ctx.violation('dropped', f, t[2], 'do_item_unlink', 'unlinks a collection although the request did not ask for dropping it')
                if t[0] == 'empty' and not t[1]:
                    ctx.violation('dropped', f, t[2], 'do_item_unlink', 'unlinks a collection that was not found empty after the removal')
            if unl and c.strict and (v is None or not st.known_ne(v, 0)):
                ctx.violation('dropped', f, i.line, 'dropped', 'a dropped collection is not reported as dropped')
            if chg and not unl:
                if (v is None or not st.known_eq(v, 0)) and c.strict:
                    ctx.violation('dropped', f, i.line, 'dropped', 'may report a collection as dropped that was not')
                cc = [t[1] for t in st.prop if t[0] == 'cc']
                if not (st.known_eq(d, 0) or any(st.known_ne(x, 0) for x in cc)):
                    ctx.violation('dropped', f, i.line, 'drop_if_empty', 'may leave an emptied collection although the request asked for dropping it')


def check(ctx, prog, K, rules):
    eff = effectful(prog)

    def one(ctx, stem):
        for name in sorted(eff):
            f = prog.fns[name]
            if f.stem != stem:
                continue
            c = Ops(ctx, prog, f, eff, K)
            a = Analysis(prog, f, c)
            a.run()
            ctx.count('functions')
            ctx.count('abstract states', a.nstates)
            ctx.count('link sites x paths', c.nlink)
            ctx.count('unlink sites x paths', c.nunl)
            ctx.count('replace sites x paths', c.nrep)
            finish(ctx, c, f)
    ctx.fanout(one, FILES)
    ctx.violations = [v for v in ctx.violations if v['rule'] in rules]
