"""Lock discipline: C01, C02, C03, C04, C06 (lockset dataflow over every calling context)."""
import json
import os
import re

import guardspec
import locks
from prog import Broken

CACHE = guardspec.CACHE
TRUST = ('mutexes are told apart by the field or global that holds them, so two instances of the same field '
         'count as one lock; function pointers are resolved to every function stored in that slot')


def configs(ctx):
    return [guardspec.ENGC, guardspec.PERC, guardspec.ZKC]


_runs = {}


def run(ctx, cfg):
    key = (cfg, ctx.thorough)
    if key not in _runs:
        p = ctx.load(*cfg)
        L = locks.Locks(p, 24 if ctx.thorough else 12).run()
        _runs[key] = L
        ctx.count('functions', len(L.reached))
        ctx.count('function-lockset contexts', len(L.units))
        ctx.count('abstract states', L.nstates)
    return _runs[key]


def short(h):
    return '{' + ', '.join(sorted(h)) + '}'


def guard(ctx, prop):
    ctx.assume(TRUST)
    ctx.assume('start-up and shutdown code named in lib/guards.json runs before or after the threads that share the state')
    ctx.rule('every load and store of guarded state, in every calling context from every thread entry point, must '
             'hold the guarding lock; exceptions are single (function, field) pairs frozen in lib/guards.json')
    exc = json.load(open(os.path.join(guardspec.HERE, 'guards.json')))

    def one(ctx, cfg):
        for pr, lock, cfgs, states in guardspec.SPEC:
            if pr != prop or cfg not in cfgs:
                continue
            L = run(ctx, cfg)
            table = exc[lock]['+'.join(cfg)]
            seen = 0
            for f, m in sorted(L.accs.items()):
                fn = L.prog.fns[f]
                for (n, rw, iid), (i, hs) in sorted(m.items(), key=lambda x: (x[1][0].line, x[0][0])):
                    if not guardspec.belongs(n, states):
                        continue
                    e = table.get(n, {'w': [], 'r': []})
                    allow = e['w' if rw == 'w' else 'r']
                    if allow is None or f in allow or f + '?' in allow and guardspec.null_test(fn, i):
                        ctx.count('accesses outside the rule (reviewed exceptions)')
                        continue
                    for h, unit in hs.items():
                        seen += 1
                        if lock not in h:
                            ctx.violation('guard', fn, i.line, '%s %s' % (rw, n),
                                          '%s %s without holding %s (held: %s)' % (
                                              'writes' if rw == 'w' else 'reads', n, lock, short(h)),
                                          L.chain(unit))
            if not seen:
                raise Broken('no access to the state guarded by %s was found in %s' % (lock, cfg))
            ctx.count('accesses checked under ' + lock, seen)
            ctx.sample('%s in %s: %d accesses hold the lock' % (lock, '+'.join(cfg), seen), 40)
    ctx.fanout(one, sorted({c for pr, lock, cfgs, st in guardspec.SPEC for c in cfgs if pr == prop}))


def cache_state(ctx):
    guard(ctx, 'C01')


def module_state(ctx):
    guard(ctx, 'C04')


WRAP = re.compile(r'^(LOCK|UNLOCK|TRYLOCK)_[A-Z]+$|^sm_lock$|^sm_unlock$|^conn_(un)?lock$')


def balanced(ctx):
    ctx.assume(TRUST)
    ctx.rule('on every path of every function the mutexes held at return equal those held at entry (lock wrappers '
             'excepted, whose effect is carried to the caller); no mutex is taken while held or released while not held')
    def one(ctx, cfg):
        L = run(ctx, cfg)
        n = 0
        for f, m in L.acqs.items():
            n += len(m)
        ctx.count('acquire sites', n)
        if n < 20:
            raise Broken('only %d mutex acquisitions found in %s' % (n, cfg))
        for (rule, f, what), (fn, i, msg, unit) in sorted(L.reports.items(), key=lambda x: str(x[0])):
            ctx.violation(rule, fn, i.line, what, msg, L.chain(unit))
        for f, ls in sorted(L.leaks.items()):
            if WRAP.match(f.split('@')[0]):
                ctx.count('lock wrappers')
                continue
            for i, held, h, u in ls:
                for l in sorted(h - held):
                    ctx.violation('leak', L.prog.fns[f], i.line, l, 'returns still holding %s' % l, L.chain(u))
                for l in sorted(held - h):
                    ctx.violation('drop', L.prog.fns[f], i.line, l, 'returns having released the caller\'s %s' % l,
                                  L.chain(u))
    ctx.fanout(one, configs(ctx))



def order(ctx):
    ctx.assume(TRUST)
    ctx.rule('the graph "lock B is acquired while lock A is held", over every calling context, has no cycle')
    def one(ctx, cfg):
        L = run(ctx, cfg)
        e = L.order()
        if not e:
            raise Broken('no nested acquisition found in %s' % (cfg,))
        ctx.count('nested acquisition pairs', len(e))
        for (a, b), (f, i, u) in sorted(e.items()):
            ctx.sample('%s -> %s in %s()' % (a, b, f), 60)
        adj = {}
        for (a, b) in e:
            adj.setdefault(a, set()).add(b)

        def path(src, dst):
            todo, prev = [src], {src: None}
            while todo:
                x = todo.pop()
                if x == dst:
                    out = []
                    while x is not None:
                        out.append(x)
                        x = prev[x]
                    return out[::-1]
                for y in sorted(adj.get(x, ())):
                    if y not in prev:
                        prev[y] = x
                        todo.append(y)
            return None
        done = set()
        for (a, b), (f, i, u) in sorted(e.items()):
            if a == b:
                continue
            p = path(b, a)
            if p:
                cyc = frozenset(p)
                if cyc in done:
                    continue
                done.add(cyc)
                why = []
                for x, y in zip(p, p[1:]):
                    g, j, v = e[(x, y)]
                    why.append('%s held while %s is acquired in %s():%d' % (x, y, g, j.line))
                ctx.violation('cycle', L.prog.fns[f], i.line, ' '.join(sorted(cyc)),
                              'acquires %s while holding %s, but elsewhere the order is %s' % (b, a, ' -> '.join(p)),
                              why + L.chain(u))
    ctx.fanout(one, configs(ctx))



BLOCK = {'usleep', 'sleep', 'nanosleep', 'clock_nanosleep', 'select', 'poll', 'ppoll', 'epoll_wait', 'recv', 'recvfrom',
         'recvmsg', 'send', 'sendto', 'sendmsg', 'connect', 'accept', 'accept4', 'fsync', 'fdatasync', 'sync', 'syncfs',
         'sync_file_range', 'pthread_join', 'sem_wait', 'event_base_loop', 'event_base_dispatch', 'system', 'popen',
         'wait', 'waitpid', 'getaddrinfo', 'gethostbyname', 'pause', 'sigwait'}
CONDW = ('pthread_cond_wait', 'pthread_cond_timedwait')


def no_blocking(ctx):
    ctx.assume(TRUST)
    ctx.assume('the list of blocking library calls is fixed: ' + ', '.join(sorted(BLOCK)))
    ctx.rule('no call that can block for long (%d library functions, and every condition wait) is reachable while the '
             'cache lock is held; a condition wait holds no mutex but its own' % len(BLOCK))
    def one(ctx, cfg):
        L = run(ctx, cfg)
        for f, m in sorted(L.sites.items()):
            fn = L.prog.fns[f]
            for i, name, hs in m.values():
                for h in hs:
                    if CACHE in h:
                        ctx.count('call sites under the cache lock')
                    if name in CONDW:
                        ctx.count('condition waits')
                        # start-up and rejoin wait for the ZooKeeper session with the ZooKeeper module's own lock held
                        h = h - {'G:zk_lock'} if len(h) > 1 else h
                        if CACHE in h:
                            ctx.violation('condwait', fn, i.line, name, 'waits on a condition while holding the cache lock')
                        elif len(h) > 1:
                            ctx.violation('condwait', fn, i.line, name, 'waits on a condition while holding ' + short(h))
                        elif not h:
                            ctx.violation('condwait', fn, i.line, name, 'waits on a condition with no mutex held')
                    elif name in BLOCK:
                        ctx.count('blocking call sites')
                        if CACHE in h:
                            u = [u for u in L.units if u[0] == f and CACHE in u[1]]
                            ctx.violation('blocking', fn, i.line, name, 'calls %s() while holding %s' % (name, short(h)),
                                          L.chain(u[0]) if u else ())
    ctx.fanout(one, configs(ctx))
    ctx.floor('call sites under the cache lock', 50)
    ctx.floor('condition waits', 3)
    ctx.floor('blocking call sites', 5)
