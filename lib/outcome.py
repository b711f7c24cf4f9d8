"""What a request handler tells the client, and counts, for each result of the engine.

Every handler is followed from each engine call on with one state per result code of that call.  On each path the
replies queued, the counters raised and the per-prefix records made until the next engine call or the return are collected.
"""
from flow import Analysis, Client, last_field
from own import base

KEY = {'store': 'set', 'get': 'get', 'remove': 'delete', 'arithmetic': 'arith', 'getattr': 'getattr', 'setattr': 'setattr',
       'flush': 'flush', 'prefixscan': 'prefixscan', 'keyscan': 'keyscan'}
COLL = {'struct_create': 'create', 'elem_insert': 'insert', 'elem_delete': 'delete', 'elem_get': 'get', 'elem_exist': 'exist',
        'elem_update': 'update', 'elem_count': 'count', 'posi_find': 'position', 'posi_find_with_get': 'pwg',
        'elem_get_by_posi': 'gbp', 'elem_arithmetic': 'arith', 'elem_smget': 'smget', 'elem_smget_old': 'smget'}
ALLOC = ('allocate', 'list_elem_alloc', 'set_elem_alloc', 'map_elem_alloc', 'btree_elem_alloc')
LETTER = {'list': 'lop_', 'set': 'sop_', 'map': 'mop_', 'btree': 'bop_'}


def opname(vt):
    n = vt.split('.')[-1]
    if n in KEY:
        return KEY[n]
    if n in ALLOC:
        return 'alloc'
    for k, l in LETTER.items():
        if n.startswith(k + '_') and n[len(k) + 1:] in COLL:
            return l + COLL[n[len(k) + 1:]]
    return None


WRITE = '_insert _delete _update'.split()
OPS = {k: ['%sop_%s' % (c, k) for c in 'lsmb' if '%sop_%s' % (c, k) in
           ('lop_create sop_create mop_create bop_create lop_insert sop_insert mop_insert bop_insert lop_delete sop_delete mop_delete '
            'bop_delete lop_get sop_get mop_get bop_get mop_update bop_update sop_exist bop_count bop_position bop_pwg bop_gbp '
            'bop_arith bop_smget').split()]
       for k in 'create insert delete get update exist count position pwg gbp arith smget'.split()}
ON_COLL = [o for k in 'insert delete get update exist count position pwg gbp arith'.split() for o in OPS[k]]
ELEMS = [o for k in 'delete get update position pwg gbp arith'.split() for o in OPS[k]]
READS = [o for k in 'get exist count position pwg gbp'.split() for o in OPS[k]]
BKEYS = 'bop_insert bop_update bop_delete bop_get bop_count bop_position bop_pwg bop_smget bop_arith'.split()
STORES = ['set', 'arith'] + OPS['create'] + OPS['insert']
BIN = {'SUCCESS': 0, 'KEY_ENOENT': 1, 'KEY_EEXISTS': 2, 'E2BIG': 3, 'EINVAL': 4, 'NOT_STORED': 5, 'EBADTYPE': 0x32, 'EOVERFLOW': 0x33,
       'EBADVALUE': 0x34, 'EINDEXOOR': 0x35, 'EBKEYOOR': 0x36, 'ELEM_ENOENT': 0x37, 'ELEM_EEXISTS': 0x38, 'EBADATTR': 0x39,
       'EBADBKEY': 0x3a, 'EBADEFLAG': 0x3b, 'UNREADABLE': 0x3c, 'PREFIX_ENAME': 0x51, 'PREFIX_ENOENT': 0x52, 'ENOMEM': 0x82,
       'NOT_MY_VBUCKET': 7, 'ENOTSUP': 0x83}
INTERNAL = 0x84
NOMEM = 'SERVER_ERROR out of memory'

# result -> (ascii answer, operations that must give it)
ASC = {
    'KEY_ENOENT': ('NOT_FOUND', ON_COLL + ['arith', 'set', 'delete', 'getattr', 'setattr']),
    'KEY_EEXISTS': ('EXISTS', OPS['create'] + ['set']),
    'EBADTYPE': ('TYPE_MISMATCH', ON_COLL + ['bop_smget', 'arith', 'set']),
    'ELEM_ENOENT': ('NOT_FOUND_ELEMENT', ELEMS),
    'ELEM_EEXISTS': ('ELEMENT_EXISTS', ['sop_insert', 'mop_insert', 'bop_insert']),
    'EOVERFLOW': ('OVERFLOWED', OPS['insert'] + ['bop_arith']),
    'EINDEXOOR': ('OUT_OF_RANGE', ['lop_insert']),
    'EBKEYOOR': ('OUT_OF_RANGE', ['bop_insert', 'bop_get', 'bop_arith']),
    'EBADBKEY': ('BKEY_MISMATCH', BKEYS),
    'EBADEFLAG': ('EFLAG_MISMATCH', ['bop_update']),
    'UNREADABLE': ('UNREADABLE', READS),
    'PREFIX_ENAME': ('CLIENT_ERROR invalid prefix name', STORES),
    'NOT_STORED': ('NOT_STORED', ['set']),
    'ENOMEM': (NOMEM, ['arith', 'set', 'bop_smget', 'bop_arith', 'bop_get', 'lop_get', 'sop_get', 'mop_get', 'mop_delete'] + OPS['create'] +
               OPS['insert'] + OPS['update'] + ['alloc']),
    'E2BIG': ('CLIENT_ERROR value too big', ['set', 'alloc']),
    'EINVAL': ('CLIENT_ERROR', ['arith', 'bop_arith', 'set', 'keyscan', 'prefixscan']),
    'EBADATTR': ('ATTR_ERROR not found', ['getattr', 'setattr']),
    'EBADVALUE': ('CLIENT_ERROR bad value', ['setattr', 'bop_smget', 'mop_get', 'mop_delete']),
    'ENOTSUP': ('NOT_SUPPORTED', None),
}
VARIANT = {('E2BIG', 'alloc'): ('CLIENT_ERROR too large value', 'CLIENT_ERROR object too large for cache'),
           ('EBADVALUE', 'setattr'): ('ATTR_ERROR bad value', 'CLIENT_ERROR bad value'),
           ('EBADVALUE', 'bop_smget'): ('CLIENT_ERROR bad data chunk',), ('EBADVALUE', 'mop_get'): ('CLIENT_ERROR bad data chunk',),
           ('EBADVALUE', 'mop_delete'): ('CLIENT_ERROR bad data chunk',),
           ('ELEM_ENOENT', 'lop_delete'): (0x35,), ('ELEM_ENOENT', 'lop_get'): (0x35,), ('EINVAL', 'arith'): (6,),
           ('NOT_STORED', 'set'): (1, 2), ('EINVAL', 'delete'): (4,)}
BINREQ = {'KEY_ENOENT': ['get'], 'EBADTYPE': ['get'], 'KEY_EEXISTS': ['arith', 'delete'], 'NOT_STORED': ['arith'],
          'EINVAL': ['arith', 'set'], 'NOT_MY_VBUCKET': ['set', 'get', 'delete', 'arith'], 'EBADVALUE': ['setattr', 'bop_smget']}
BINNOT = {'ENOMEM': ('bop_get', 'lop_get', 'sop_get')}
GOOD = {'create': ('CREATED',), 'insert': ('STORED', 'CREATED_STORED', 'REPLACED'), 'delete': ('DELETED', 'DELETED_DROPPED'),
        'update': ('UPDATED',), 'exist': ('EXIST', 'NOT_EXIST'), 'set': ('STORED',), 'flush': ('OK',), 'setattr': ('OK', 'TOUCHED')}
FLAG = {'CREATED_STORED': ('created', 1), 'STORED': ('created', 0), 'DELETED_DROPPED': ('dropped', 1), 'DELETED': ('dropped', 0),
        'EXIST': ('exist', 1), 'NOT_EXIST': ('exist', 0), 'REPLACED': ('replaced', 1)}
WORDS = {v[0] for v in ASC.values()} | {w for g in GOOD.values() for w in g} | {w for v in VARIANT.values() for w in v if isinstance(w, str)}


class Out(Client):
    cap = 60
    total_cap = 6000

    def __init__(self, prog, codes, fn, want):
        self.prog, self.codes, self.fn, self.want = prog, codes, fn, want
        self.done = {}      # (ops, events) -> line

    def entry(self, an, fn):
        return ((), ())

    def live_syms(self, prop):
        return [x[2] for x in prop[0]] + [y for x in prop[0] for y in x[3] if y]

    def merge_old(self, an, st, ids):
        return st.prop

    def close(self, st, line):
        ops, ev = st.prop
        self.done.setdefault((tuple((o[0], o[1]) for o in ops), ev), line)

    def add(self, st, e):
        if len(st.prop[1]) < 14:
            st.prop = (st.prop[0], st.prop[1] + (e,))

    def store(self, an, st, i, addr, val):
        f = last_field(addr)
        if not f or val is None or 'stats' not in self.want:
            return
        v = val
        while v[0] in ('tr', 'zx'):
            v = v[2]
        v = an.unfold(st, v)
        if f.startswith(('thread_stats.', 'topkey_item.')) and v[0] == 'bin' and v[1] == 'add':
            self.add(st, ('n' if f[1] == 'h' else 't', f.split('.')[1], v[3][1] if v[3][0] == 'c' else '?', self.which(st, f)))

    def which(self, st, f):
        """what the path knows about the direction of an arithmetic operation / the kind of a store"""
        if not st.prop[0]:
            return None
        op, code, s, _ = st.prop[0][-1]
        if op in ('arith', 'bop_arith', 'set') and s:
            return 1 if st.known_eq(s, 1) or op != 'set' and st.known_ne(s, 0) else 0 if st.known_eq(s, 0) else \
                'cas' if op == 'set' and st.known_eq(s, self.cas) else 'other' if op == 'set' and st.known_ne(s, self.cas) else None
        return None

    def flag(self, st, word):
        if word not in FLAG or not st.prop[0]:
            return None
        name, _ = FLAG[word]
        for k, a in enumerate(st.prop[0][-1][3]):
            if a is None or ('created', 'dropped', 'exist', 'replaced')[k] != name:
                continue
            v = st.mem.get(a)
            return None if v is None else 1 if st.known_ne(v, 0) else 0 if st.known_eq(v, 0) else None
        return 'none'

    def call(self, an, st, i, name, args):
        n = base(name) if name else ''
        ans = True
        if ans and n == 'out_string':
            w = args[1][1] if args[1][0] == 's' else '?'
            self.add(st, ('a', w, self.flag(st, w)))
        elif ans and n in ('sprintf', 'snprintf') and any(a[0] == 's' and a[1] in WORDS for a in args):
            self.add(st, ('a', [a[1] for a in args if a[0] == 's' and a[1] in WORDS][0], 'text'))
        elif ans and n == 'write_bin_packet':
            self.add(st, ('b', args[1][1] if args[1][0] == 'c' else '?'))
        elif ans and n == 'write_bin_response':
            self.add(st, ('b', 0))
        elif ans and n == 'conn_set_state' and args[1] == ('g', 'conn_closing'):
            self.add(st, ('s',))
        elif 'stats' in self.want and n.startswith('stats_prefix_record_'):
            hit = None
            if len(args) > 2:
                h = args[2]
                hit = 1 if st.known_ne(h, 0) else 0 if st.known_eq(h, 0) else '?'
            self.add(st, ('p', n[20:], hit))
        elif name and name.startswith('vt:engine_interface'):
            op = opname(name)
            if op is None or op == 'delete' and any(o[0] == 'alloc' for o in st.prop[0]):
                return None         # the old item is removed after a refused set
            sub, flags = None, (None,) * 4
            vt = name.split('.')[-1]
            if op == 'set':
                sub = args[4]
            elif op == 'arith':
                sub = args[4]
            elif op == 'bop_arith':
                sub = args[6]
            names = self.argnames(vt)
            flags = tuple(args[names.index(x)] if x in names and names.index(x) < len(args) else None
                          for x in ('created', 'dropped', 'exist', 'replaced'))
            for a in flags:
                if a:
                    st.mem.pop(a, None)
            an.effect(st, i, name, args)
            keep = op == 'setattr' and st.prop[0] and st.prop[0][-1][0] == 'get'      # get and touch
            if not keep:
                self.close(st, i.line)
            ops, ev = st.prop if keep else ((), ())
            out = []
            for c in self.codes:
                q = st.copy()
                q.env[i.id] = ('c', self.codes[c])
                q.prop = (ops + ((op, c, sub, flags),), ev)
                out.append(q)
            return out
        return None

    def argnames(self, vt):
        return SIG.get(vt, ())

    def ret(self, an, st, i, val):
        self.close(st, i.line)


SIG = {}


def signatures(eng):
    for n, f in eng.fns.items():
        if n.startswith('default_') and f.args:
            SIG[n[8:]] = [a[0] for a in f.args]


def collect(ctx, prog, codes, want, cas):
    names = [f for f in sorted(prog.fns.values(), key=lambda f: f.name) if f.file == 'memcached.c' and f.blocks and
             any(opname(prog.callee(i)) for i in f.calls() if (prog.callee(i) or '').startswith('vt:engine_interface'))]

    def part(ctx, k):
        for f in names[k::8]:
            c = Out(prog, codes, f, want)
            c.cas = cas
            a = Analysis(prog, f, c)
            a.run()
            ctx.count('functions')
            ctx.count('abstract states', a.nstates)
            touch = any(e[:2] == ('a', 'TOUCHED') for o, ev in c.done for e in ev)      # sets no other attribute than the expiry time
            good, lost = set(), {}
            for (ops, ev), line in c.done.items():
                if touch and ops and ops[-1] == ('setattr', 'EBADATTR'):
                    continue
                ctx.count('outcomes judged')
                judge(ctx, f, line, ops, ev, want, good, lost)
            for op in set(lost) - good:
                ctx.violation('count', f, lost[op][0], lost[op][1], 'no success of %s is counted as one' % op)
    ctx.fanout(part, range(8))


def kind(op):
    return op.split('_', 1)[1] if op[1:4] == 'op_' else op


def judge(ctx, f, line, ops, ev, want, good, lost):
    if 'answers' in want and ops:
        answers(ctx, f, line, ops[-1], ev)
    if 'stats' in want:
        counters(ctx, f, line, ops, ev, good, lost)


def answers(ctx, f, line, last, ev):
    op, code = last
    binary = '_bin' in f.name
    said = [e for e in ev if e[0] in 'ab']
    closed = ('s',) in ev

    def bad(msg):
        ctx.violation('answer', f, line, '%s %s' % (op, code), 'result %s of %s: %s' % (code, op, msg))
    if code == 'DISCONNECT':
        if said and op != 'delete' and op != 'flush':
            bad('the connection is answered instead of closed')
        return
    if code in ('SUCCESS', 'EWOULDBLOCK'):
        if code == 'EWOULDBLOCK' and kind(op) not in ('create', 'insert', 'delete', 'update', 'set', 'arith', 'setattr'):
            return          # these operations never wait
        for e in said:
            if e[0] == 'a' and e[2] == 'text':
                continue
            if e[0] == 'a':
                w = e[1]
                if w != '?' and w not in GOOD.get(kind(op), ()) and not w.startswith(('SERVER_ERROR out of memory', 'SERVER_ERROR error getting')):
                    bad('answered with %r' % w)
                if w in FLAG and kind(op) not in ('set',) and e[2] != 'none' and e[2] != FLAG[w][1] and kind(op) in ('insert', 'delete', 'exist') and op != 'delete':
                    bad('%r is answered although %s is not known to be %s' % (w, FLAG[w][0], 'set' if FLAG[w][1] else 'clear'))
            elif e[1] not in (0, BIN['ENOMEM'], '?'):
                bad('answered with status 0x%x' % e[1])
        return
    flush = op == 'flush'
    for e in said:
        if e[0] == 'a':
            want, must = ASC.get(code, (None, []))
            okay = {want} | set(VARIANT.get((code, op), ()))
            w = e[1]
            if flush and code == 'PREFIX_ENOENT':
                continue        # decided by the books of the statistics
            match = w in okay or want and w.startswith(want)
            generic = w.startswith(('SERVER_ERROR', 'CLIENT_ERROR', 'NOT_SUPPORTED')) and w not in (x[0] for k, x in ASC.items() if k != code)
            if not match and (must is None or op in must or not generic):
                bad('answered with %r' % w)
        else:
            want = BIN.get(code)
            okay = {want} | set(VARIANT.get((code, op), ()))
            must = (ASC.get(code, (None, []))[1] or []) + BINREQ.get(code, [])
            if op in BINNOT.get(code, ()):
                must = []
            if flush and code == 'PREFIX_ENOENT':
                continue
            if op == 'delete':
                must = ['delete'] if code in ('KEY_ENOENT', 'KEY_EEXISTS', 'NOT_MY_VBUCKET') else []
                okay |= {4}
            if op in must and code in ('KEY_EEXISTS', 'NOT_STORED') and op == 'set' and code == 'NOT_STORED':
                okay |= {1, 2}
            if e[1] not in okay and (op in must or e[1] != INTERNAL):
                bad('answered with status %s' % (e[1] if e[1] == '?' else '0x%x' % e[1]))


PREFIXED = {'set': ('set',), 'flush': (), 'arith': ('incr', 'decr'), 'bop_arith': ('bop_incr', 'bop_decr'), 'keyscan': (), 'prefixscan': (),
            'bop_smget': (), 'alloc': ()}
HITELEM = [o for o in ELEMS if o != 'mop_update']


def counters(ctx, f, line, ops, ev, good, lost):
    """the counters raised on a path against the operations it made"""
    waits = [(o, c) for o, c in ops if o not in ('alloc', 'keyscan', 'prefixscan')]
    up = [e for e in ev if e[0] == 'n']
    used = set()

    def bad(what, msg):
        ctx.violation('count', f, line, what, msg)
    for e in up:
        if e[2] != 1:
            bad(e[1], '%s is raised by %s' % (e[1], e[2]))
    for k, (op, code) in enumerate(waits):
        ok = code in ('SUCCESS', 'EWOULDBLOCK')
        fam = {'arith': ('incr', 'decr'), 'bop_arith': ('bop_incr', 'bop_decr'), 'set': ('set', 'cas'), 'flush': ('flush', 'flush_prefix')}.get(op, (op,))
        mine = [e for e in up if e[1] in ['cmd_' + x for x in fam] or e[1] in [x + y for x in fam for y in
                ('_oks', '_hits', '_elem_hits', '_none_hits', '_misses', '_badval')]]
        used |= set(mine)
        if code == 'EWOULDBLOCK' and kind(op) not in ('create', 'insert', 'delete', 'update', 'set', 'arith', 'setattr') and op != 'bop_get':
            used |= {e for e in ev if e[0] == 'p'}
            continue        # these operations never wait
        cmds = [e[1] for e in mine if e[1].startswith('cmd_')]
        other = [e[1] for e in mine if not e[1].startswith('cmd_')]
        label = '%s %s' % (op, code)
        if len(cmds) > 1:
            bad(label, 'result %s of %s: %s counted %d times' % (code, op, cmds[0], len(cmds)))
        if len(other) > 1:
            bad(label, 'result %s of %s: counted as %s' % (code, op, ' and '.join(other)))
        if len({e[1].replace('cmd_', '').replace(x, '') for e in mine for x in ('_oks', '_hits')} & set(fam)) > 1:
            bad(label, 'counted as two kinds of command')
        for e in mine:
            d = e[3]
            if op in ('arith', 'bop_arith') and d in (0, 1) and ('incr' in e[1]) != bool(d):
                bad(label, '%s is counted for the opposite operation' % e[1])
            if op == 'set' and d in ('cas', 'other') and ('cas' in e[1]) != (d == 'cas'):
                bad(label, '%s is counted for another kind of store' % e[1])
        o = other[0] if other else ''
        strict = op not in ('get', 'setattr')
        if ok:
            if o.endswith(('_misses', '_none_hits', '_badval')) and not (op == 'get'):
                bad(label, 'a success of %s is counted as %s' % (op, o))
        elif o.endswith(('_oks', '_hits')) and not o.endswith('_none_hits'):
            bad(label, 'result %s of %s is counted as %s' % (code, op, o))
        elif o.endswith('_none_hits') and code != 'ELEM_ENOENT':
            bad(label, 'result %s of %s is counted as %s' % (code, op, o))
        elif o.endswith('_badval') and code != 'KEY_EEXISTS':
            bad(label, 'result %s of %s is counted as %s' % (code, op, o))
        elif o.endswith('_misses') and strict and code not in ('KEY_ENOENT', 'UNREADABLE') and (op, code) not in (('bop_get', 'EBKEYOOR'), ('set', 'EBADTYPE')):
            bad(label, 'result %s of %s is counted as %s' % (code, op, o))
        # what must be counted
        if op in ('set', 'flush') and not cmds:
            bad(label, 'a %s is not counted' % op)
        if code == 'KEY_ENOENT' and op not in ('set', 'flush', 'bop_smget') and kind(op) != 'create' and not o.endswith('_misses'):
            bad(label, 'a miss of %s is not counted as one' % op)
        if code == 'ELEM_ENOENT' and op in ELEMS and not o.endswith('_none_hits'):
            bad(label, 'a miss of the element by %s is not counted as one' % op)
        if ok and op not in ('set', 'flush', 'get'):
            if o:
                good.add(op)
            elif not said_error(ev) and not f_returns(f):
                if kind(op) in ('get', 'pwg', 'gbp', 'smget'):
                    lost.setdefault(op, (line, label))      # the reply may have been refused by a helper
                else:
                    bad(label, 'a success of %s is not counted as one' % op)
        if not cmds and code in ('SUCCESS', 'KEY_ENOENT') and not (op == 'get' and ok):
            bad(label, 'result %s of %s: the command is not counted' % (code, op))
        # per-prefix records
        recs = [e for e in ev if e[0] == 'p' and e[1] in PREFIXED.get(op, (op,))]
        used |= set(recs)
        for r in recs:
            if r[2] in (None, '?') or code == 'EWOULDBLOCK':
                continue
            hit = ok or code == 'ELEM_ENOENT' and op in HITELEM
            if bool(r[2]) != hit and not (code == 'ELEM_ENOENT' and op == 'mop_update'):
                bad(label, 'result %s of %s is recorded for the prefix as a %s' % (code, op, 'hit' if r[2] else 'miss'))
        if len(recs) > 1:
            bad(label, '%s is recorded twice for the prefix' % op)
    for e in set(up) - used:
        if any(o for o, c in waits) and not e[1].startswith(('bytes_', 'conn_')) and not (e[1] == 'cmd_set'):
            bad(e[1], '%s is counted on a path that did %s' % (e[1], ' and '.join(o for o, c in waits)))
        elif not waits and e[1].endswith(('_oks', '_hits')) and not e[1].endswith('_none_hits') and not e[1].startswith(('bytes_', 'conn_')):
            bad(e[1], '%s is counted before the engine was asked' % e[1])
    for e in set(x for x in ev if x[0] == 'p') - used:
        if waits:
            bad(e[1], '%s is recorded for the prefix on a path that did %s' % (e[1], ' and '.join(o for o, c in waits)))
    # the top keys follow the counters
    for t in set(e[1] for e in ev if e[0] == 't'):
        if not any(e[1] == t for e in up):
            bad(t, 'the top keys count %s and the server does not' % t)


def said_error(ev):
    return any(e[0] == 'a' and e[1].startswith(('SERVER_ERROR', 'CLIENT_ERROR')) or e[0] == 'b' and e[1] != 0 for e in ev)


def f_returns(f):
    return f.dret == 'ENGINE_ERROR_CODE'
