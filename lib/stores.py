"""What the storage commands and the counters do, stated per command.

item_store(), item_delete() and item_arithmetic() are taken with their helpers expanded; every path is summarised as
lookup, item built, replaced, linked, removed and result, and compared with the meaning of the command.
"""
from flow import Analysis, Client, last_field, ids_of
from own import base
from account import lin, show, bits
from ledger import add, const

INF = float('inf')


def strip(v):
    while v[0] in ('tr', 'zx'):
        v = v[2]
    return v


class Store(Client):
    cap = 200
    total_cap = 6000

    def __init__(self, K):
        self.K = K
        self.out = []

    def live_syms(self, prop):
        out = []
        for x in prop:
            out += [y for y in x[1:] if isinstance(y, tuple)]
        return out

    def merge_old(self, an, st, ids):
        return frozenset(x for x in st.prop if not ids_of(x) & ids)

    def ev(self, st, *e):
        n = 1 + max([x[-1] for x in st.prop if x[0] == 'e'] + [0])
        st.prop = st.prop | {('e',) + e + (n,)}

    def load(self, an, st, i, addr, val):
        f = last_field(addr)
        if addr[0] == 'f' and f in ('_hash_item.nbytes', '_hash_item.flags', '_hash_item.exptime', '_hash_item.iflag', '_hash_item.nkey'):
            st.prop = st.prop | {('at', addr[1], f.split('.')[1], val)}

    def prestore(self, an, st, i, addr, val):
        if addr[0] == 'a' and val is not None:
            st.prop = frozenset(x for x in st.prop if x[:2] != ('out', addr)) | {('out', addr, val)}

    ATTR = ('_hash_item.nbytes', '_hash_item.flags', '_hash_item.exptime', '_hash_item.iflag', '_hash_item.nkey')

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        pure = {'item_get_key': 'K', 'item_get_data': 'D'}
        if n in pure:
            st.env[i.id] = (pure[n], args[0])
            return [st]
        if n == 'item_get_cas':
            # a number changes when its item is linked
            k = sum(1 for e in st.prop if e[0] == 'e' and e[1] in ('link', 'replace') and e[2] == args[0])
            st.env[i.id] = ('cas', args[0], ('c', k))
            return [st]
        if n in ('memcpy', 'memmove') or n.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.ev(st, 'copy', args[0], args[1], strip(args[2]))
            return [st]
        if n == 'snprintf':
            an.effect(st, i, name, args)
            self.ev(st, 'print', args[0], tuple(args[2:]), st.env[i.id])
            return [st]
        if n == 'safe_strtoull':
            an.effect(st, i, name, args)
            v = st.env[i.id]
            no = st.copy()
            no.env[i.id] = ('c', 0)
            st.env[i.id] = ('c', 1)
            num = ('num', args[0])
            st.mem[args[1]] = num
            st.prop = st.prop | {('n', num)}
            return [st, no]
        keep = {k: v for k, v in st.mem.items() if last_field(k) in self.ATTR or k[0] == 'al'}
        keep = {k: v for k, v in keep.items() if k not in args}
        if n == 'do_item_get':
            an.effect(st, i, name, args)
            st.mem.update(keep)
            v = st.env[i.id]
            miss = st.copy()
            miss.env[i.id] = ('c', 0)
            self.ev(miss, 'miss', args[0])
            st.narrow(v, -INF, INF, frozenset([0]))
            self.ev(st, 'hit', v, args[0])
            return [miss, st]
        if n == 'do_item_alloc':
            an.effect(st, i, name, args)
            st.mem.update(keep)
            v = st.env[i.id]
            no = st.copy()
            no.env[i.id] = ('c', 0)
            self.ev(no, 'nomem')
            st.narrow(v, -INF, INF, frozenset([0]))
            self.ev(st, 'new', v, tuple(strip(a) for a in args[:5]))
            return [st, no]
        if n == 'do_item_link':
            an.effect(st, i, name, args)
            st.mem.update(keep)
            v = st.env[i.id]
            no = st.copy()
            no.narrow(v, -INF, INF, frozenset([0]))
            self.ev(no, 'nolink', v)
            st.env[i.id] = ('c', 0)
            self.ev(st, 'link', args[0])
            return [st, no]
        if n == 'do_item_replace':
            self.ev(st, 'replace', args[1], args[0])
        elif n == 'do_item_unlink':
            self.ev(st, 'unlink', args[0])
        an.effect(st, i, name, args)
        st.mem.update(keep)
        return [st] if not i.noret else []

    def ret(self, an, st, i, val):
        self.out.append((st, i, val))


class Path:
    def __init__(self, K, st, val):
        self.K, self.st, self.val = K, st, val
        self.ev = sorted((x for x in st.prop if x[0] == 'e'), key=lambda x: x[-1])

    def get(self, kind):
        return [e for e in self.ev if e[1] == kind]

    def code(self):
        for n, v in self.K['code'].items():
            if self.st.known_eq(self.val, v):
                return n
        return None

    def at(self, x, f):
        return [strip(t[3]) for t in self.st.prop if t[0] == 'at' and t[1] == x and t[2] == f]

    def coll(self, x):
        mine = set(self.at(x, 'iflag'))
        for k in list(self.st.facts):
            if k[0] == 'bin' and k[1] == 'and' and k[3] == ('c', self.K['COLL']) and bits(k[2]) & mine:
                if self.st.known_ne(k, 0):
                    return True
                if self.st.known_eq(k, 0):
                    return False
        return None

    def eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            r = self.st.cmpval('eq', x, y)
            if r is not None:
                return r == 1
        return None

    def out(self, k):
        for t in self.st.prop:
            if t[0] == 'out' and t[1] == ('a', k):
                return t[2]
        return None


def run(ctx, prog, K, name):
    f = prog.fns[name]
    c = Store(K)
    a = Analysis(prog, f, c)
    a.run()
    ctx.count('functions')
    ctx.count('abstract states', a.nstates)
    return f, [(Path(K, st, val), i) for st, i, val in c.out]


def store(ctx, prog, K):
    f, paths = run(ctx, prog, K, 'item_store')
    it, ops = ('a', 0), K['op']
    seen = set()
    for p, i in paths:
        op = [n for n, v in ops.items() if p.st.known_eq(('a', 2), v)]
        ctx.count('paths judged')

        def bad(what, msg):
            ctx.violation('store', f, i.line, what, msg)
        links, reps, hits, new = p.get('link'), p.get('replace'), p.get('hit'), p.get('new')
        code = p.code()
        if not op:
            if links or reps or p.get('unlink'):
                bad('unknown', 'an unknown store operation changes an item')
            continue
        op = op[0]
        seen.add(op)
        if p.get('unlink'):
            bad(op, 'a store removes an item')
        miss = p.get('miss')
        if len(hits) + len(miss) != 1 or (hits or miss)[0][-2] != ('K', it):
            bad(op, 'does not decide by one lookup of the key to be stored')
            continue
        old = hits[0][2] if hits else None
        iscoll = p.coll(old) if hits else None
        attach = op in ('APPEND', 'PREPEND')
        done = links + reps
        if links and (hits or op not in ('SET', 'ADD')):
            bad(op, 'links a new item where %s must not' % op)
        if reps and op == 'ADD':
            bad(op, 'add overwrites an existing item')
        if links and links[0][2] != it:
            bad(op, 'links another item than the one to be stored')
        if reps and (not hits or reps[0][3] != old):
            bad(op, 'replaces an item that was not the one found')
        if reps and iscoll is not False:
            bad(op, 'overwrites an item that may be a collection')
        if reps and not attach and reps[0][2] != it:
            bad(op, 'stores another item than the one given')
        if len(done) > 1:
            bad(op, 'stores twice')
        # results
        if code == 'SUCCESS':
            if not done:
                bad(op, 'reports success without having stored')
            else:
                x = done[0][2]
                k = p.out(1)
                if k is None or k != ('cas', x, ('c', 1)):
                    bad(op, 'does not report the CAS number of the item stored')
        elif done:
            bad(op, 'reports a failure after having stored')
        if hits and iscoll and code != 'EBADTYPE':
            bad(op, 'a collection is not refused with the bad type status')
        if hits and iscoll is None:
            bad(op, 'does not look at the type of the item found')
        if hits and iscoll is False and code == 'EBADTYPE':
            bad(op, 'a key-value item is refused as a bad type')
        if op == 'SET' and hits and iscoll is False and not reps:
            bad(op, 'set does not store over an existing key-value item')
        if op == 'ADD' and hits and iscoll is False and code != 'NOT_STORED':
            bad(op, 'add of an existing key does not answer not-stored')
        if op == 'REPLACE':
            if miss and code != 'NOT_STORED':
                bad(op, 'replace of an absent key does not answer not-stored')
            if hits and iscoll is False and not reps:
                bad(op, 'replace does not store over an existing item')
        if op in ('SET', 'ADD') and miss and not links and not p.get('nolink'):
            bad(op, 'does not store under an absent key')
        mine, his = ('cas', it, ('c', 0)), ('cas', old, ('c', 0))
        if op == 'CAS':
            if miss and code != 'KEY_ENOENT':
                bad(op, 'cas of an absent key does not answer not-found')
            if hits and iscoll is False:
                e = p.eq(mine, his)
                if reps and e is not True:
                    bad(op, 'stores although the CAS numbers may differ')
                if not reps and e is not False:
                    bad(op, 'refuses although the CAS numbers may be equal')
                if not reps and code != 'KEY_EEXISTS':
                    bad(op, 'a differing CAS number is not answered with exists')
        if attach:
            if miss and code != 'NOT_STORED':
                bad(op, 'attach to an absent key does not answer not-stored')
            if hits and iscoll is False:
                e = p.eq(mine, his)
                if e is None and p.st.known_eq(mine, 0):
                    e = True
                if (reps or new) and e is not True:
                    bad(op, 'attaches although the CAS numbers may differ')
                if not reps and e is False and code != 'KEY_EEXISTS':
                    bad(op, 'a differing CAS number is not answered with exists')
                if not reps and e is not False and not p.get('nomem'):
                    bad(op, 'refuses to attach although nothing speaks against it')
            if reps:
                content(p, bad, op, it, old, new, reps)
    for op in ops:
        ctx.count('operations decided', 1 if op in seen else 0)


def content(p, bad, op, it, old, new, reps):
    if len(new) != 1 or new[0][2] != reps[0][2]:
        bad(op, 'the item that replaces is not the one built')
        return
    x, (key, nkey, flags, exp, nb) = new[0][2], new[0][3]
    if key != ('K', it) and key != ('K', old) or nkey not in p.at(it, 'nkey') + p.at(old, 'nkey'):
        bad(op, 'the joined item gets another key')
    if flags not in p.at(old, 'flags') or exp not in p.at(old, 'exptime'):
        bad(op, 'the joined item does not keep the flags and expiry time of the stored one')
    a, b = p.at(old, 'nbytes'), p.at(it, 'nbytes')
    if not a or not b:
        bad(op, 'the sizes of the parts are not looked at')
        return
    first, second = (old, it) if op == 'APPEND' else (it, old)
    n1, n2 = lin((a if first == old else b)[0]), lin((b if second == it else a)[0])
    if lin(nb) != add(add(n1, n2), const(-2)):
        bad(op, 'the joined item has another size than both parts')
    copies = p.get('copy')
    want = [((('D', x), ()), ('D', first), n1), ((('D', x), add(n1, const(-2))), ('D', second), n2)]
    got = []
    for e in copies:
        d, off = e[2], ()
        if d[0] == 'x':
            d, off = d[1], lin(d[2])
        while d[0] == 'x':
            d, off = d[1], add(off, lin(d[2]))
        got.append(((d, off), e[3], lin(e[4])))
    short = (want[0][0], want[0][1], add(n1, const(-2)))        # without the line end that the second part overwrites
    if got != want and sorted(got, key=repr) != sorted([short, want[1]], key=repr):
        bad(op, 'the parts are not joined in the order of the command')


def delete(ctx, prog, K):
    f, paths = run(ctx, prog, K, 'item_delete')
    for p, i in paths:
        ctx.count('paths judged')

        def bad(what, msg):
            ctx.violation('store', f, i.line, what, msg)
        hits, miss, unl, code = p.get('hit'), p.get('miss'), p.get('unlink'), p.code()
        if p.get('link') or p.get('replace'):
            bad('delete', 'a delete stores something')
        if len(hits) + len(miss) != 1 or (hits or miss)[0][-2] != ('a', 0):
            bad('delete', 'does not decide by one lookup of the key')
            continue
        if miss:
            if code != 'KEY_ENOENT' or unl:
                bad('delete', 'delete of an absent key does not answer not-found')
            continue
        cas = ('cas', hits[0][2], ('c', 0))
        e = True if p.st.known_eq(('a', 2), 0) else p.eq(('a', 2), cas)
        if unl and unl[0][2] != hits[0][2]:
            bad('delete', 'removes another item than the one found')
        if e is True and (not unl or code != 'SUCCESS'):
            bad('delete', 'an item that may be deleted is not, or is not reported so')
        elif e is False and (unl or code != 'KEY_EEXISTS'):
            bad('delete', 'a differing CAS number does not keep the item')
        elif e is None:
            bad('delete', 'does not look at the CAS number asked for')


def arithmetic(ctx, prog, K):
    """item_arithmetic(key, nkey, increment, create, delta, initial, flags, exptime, cas*, result*, cookie)"""
    f, paths = run(ctx, prog, K, 'item_arithmetic')
    incr, create, delta, initial = (('a', k) for k in (2, 3, 4, 5))
    for p, i in paths:
        ctx.count('paths judged')

        def bad(what, msg):
            ctx.violation('store', f, i.line, what, msg)
        code = p.code()
        links, reps, hits = p.get('link'), p.get('replace'), p.get('hit')
        first = [e for e in p.ev if e[1] in ('hit', 'miss')][:1]
        if not first or first[0][-2] != ('a', 0):
            bad('arithmetic', 'does not decide by a lookup of the key')
            continue
        if p.get('unlink'):
            bad('arithmetic', 'removes an item')
        if (code == 'SUCCESS') != bool(links or reps):
            bad('arithmetic', 'reports %s, stored %s' % (code or 'a failure', bool(links or reps)))
        if first[0][1] == 'miss':
            if reps:
                bad('arithmetic', 'replaces an item that was not found')
            if p.st.known_eq(create, 0):
                if links or code != 'KEY_ENOENT':
                    bad('arithmetic', 'an absent key is not answered with not-found')
                continue
            if links:
                if not p.st.known_ne(create, 0):
                    bad('arithmetic', 'creates a counter that was not asked for')
                built(p, bad, links[0][2], initial, (('a', 0), ('a', 1), ('a', 6), ('a', 7)))
            continue
        old = first[0][2]
        iscoll = p.coll(old)
        if links:
            bad('arithmetic', 'links a second item for the key')
        if iscoll is not False:
            if iscoll is None or reps or code != 'EBADTYPE':
                bad('arithmetic', 'a collection is not refused with the bad type status')
            continue
        if not reps:
            continue
        num = ('num', ('D', old))
        if ('n', num) not in p.st.prop:
            bad('arithmetic', 'counts on a value that was not read as a number')
            continue
        if reps[0][3] != old:
            bad('arithmetic', 'replaces another item than the one found')
        if p.st.known_ne(incr, 0):
            want = [lin(('bin', 'add', num, delta))]
        elif p.st.known_eq(incr, 0):
            gt = p.st.cmpval('ugt', delta, num)
            ge = p.st.cmpval('uge', delta, num)
            if gt == 1 or ge == 1:
                want = [const(0)]
            elif gt == 0 or ge == 0:
                want = [lin(('bin', 'sub', num, delta))]
            else:
                bad('arithmetic', 'subtracts without looking which number is larger')
                continue
        else:
            bad('arithmetic', 'does not look whether to add or to subtract')
            continue
        res = p.out(9)
        if res is None or lin(res) not in want:
            bad('arithmetic', 'the new value is %s' % (show(lin(res)) if res else 'missing'))
            continue
        built(p, bad, reps[0][2], res, (('K', old), p.at(old, 'nkey'), p.at(old, 'flags'), p.at(old, 'exptime')))
        k = p.out(8)
        if k != ('cas', reps[0][2], ('c', 1)):
            bad('arithmetic', 'does not report the CAS number of the new value')


def built(p, bad, x, value, like):
    new = [e for e in p.get('new') if e[2] == x]
    if len(new) != 1:
        bad('arithmetic', 'stores an item that was not built here')
        return
    args = new[0][3]
    for a, w in zip(args, like):
        if a not in (w if isinstance(w, list) else [w]):
            bad('arithmetic', 'the counter gets another key, flags or expiry time')
            return
    pr = p.get('print')
    if len(pr) != 1 or pr[0][3][-1] != value:
        bad('arithmetic', 'the text stored is not the value')
        return
    cp = [e for e in p.get('copy') if e[2] == ('D', x)]
    n = strip(pr[0][4])
    if len(cp) != 1 or cp[0][3] != pr[0][2] or cp[0][4] != n or args[4] != n:
        bad('arithmetic', 'the text stored is not the one printed')
    out = p.out(9)
    if out != value:
        bad('arithmetic', 'the value answered is not the value stored')


def check(ctx, prog, K):
    store(ctx, prog, K)
    delete(ctx, prog, K)
    arithmetic(ctx, prog, K)
