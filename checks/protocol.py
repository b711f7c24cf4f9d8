def one_response(ctx):
    import resp
    ctx.rule('on every path of every request handler the connection ends with exactly one outcome: one queued response, '
             'a wait for the rest of the request, or a close; a silent end is allowed only for quiet opcodes and broken pipelines')
    resp.check(ctx, ctx.load('eng', 'srv'))
    ctx.floor('handlers', 80)


def swallow(ctx):
    import swallow
    ctx.rule('a rejected ascii request that announced a data block swallows exactly that block, also when noreply '
             'suppresses the error response')
    swallow.check(ctx, ctx.load('eng', 'srv'))
    ctx.floor('swallow sites', 8)


def authorization(ctx):
    import auth
    import prog as P
    names = ('NONE', 'DELETE', 'KV', 'LIST', 'SET', 'MAP', 'BTREE', 'SCAN', 'FLUSH', 'ATTR', 'ADMIN')
    bits = {'AUTHZ_' + n: P.macro('AUTHZ_' + n, 'include/memcached/types.h', 'memcached.h') for n in names}
    ctx.rule('with SASL required, every engine call an ascii command can reach happens where check_ascii_auth() granted the '
             'class of that operation, and check_ascii_auth() grants only rights the connection holds or internal keys')
    auth.check_ascii(ctx, ctx.load('asc'), bits, P.macro('AUTHZ_FAIL', 'include/memcached/types.h', 'memcached.h'))
    ctx.floor('engine call sites', 40)


def authentication(ctx):
    import auth
    import prog as P
    p = ctx.load('eng', 'srv')
    cmds = [p.enum('PROTOCOL_BINARY_CMD_' + c) for c in ('SASL_LIST_MECHS', 'SASL_AUTH', 'SASL_STEP', 'VERSION')]
    ctx.rule('with SASL required, no binary command but the handshake reaches the engine before authentication; a connection '
             'becomes authenticated or authorized only after the SASL exchange succeeded, and starts out with neither')
    auth.check_login(ctx, p, set(cmds), P.macro('AUTHZ_FAIL', 'include/memcached/types.h', 'memcached.h'))
    ctx.floor('login store sites', 2)
    ctx.floor('body waits', 3)


def answers(ctx):
    ctx.rule('after each engine call every path is followed once per result code; the reply written is the one that code has in the '
             'protocol (a table per command and code, text and status), and word pairs follow the engine\'s flag')
    outcomes(ctx, ('answers',))


def outcomes(ctx, want):
    import os
    import re
    import outcome
    import prog as P
    p = ctx.load('ans')
    outcome.signatures(ctx.load('eng'))
    txt = open(os.path.join(P.REPO, 'include/memcached/types.h')).read()
    names = re.findall(r'^\s*ENGINE_(\w+)\s*=', txt, re.M)
    codes = {n: p.enum('ENGINE_' + n) for n in names}
    outcome.collect(ctx, p, codes, want, p.enum('OPERATION_CAS'))
    ctx.floor('functions', 60)
    ctx.floor('outcomes judged', 2000)


def counters(ctx):
    ctx.rule('after each engine call every path is followed once per result code; each path raises the counter of its command once, and '
             'the hit, miss, element or success counter that the result calls for, and none of another command')
    outcomes(ctx, ('stats',))


def figures(ctx):
    import figures
    ctx.rule('every thread counter is cleared, summed into itself and printed under its own name; every prefix figure is raised by its own '
             'request and printed behind its own keyword in a buffer with room for it; names are given with their lengths')
    p = ctx.load('srv', 'eng')
    figures.threads(ctx, p)
    figures.prefixes(ctx, p)
    figures.engine(ctx, p)
    figures.topkeys(ctx, p)
    for n, k in (('counters cleared', 100), ('counters summed', 100), ('figures shown', 120), ('recording functions', 25),
                 ('keywords of the dump', 50), ('names measured', 20), ('figures of a top key', 13)):
        ctx.floor(n, k)


def arguments(ctx):
    import argnum
    p, u = ctx.load('srv'), ctx.load('utl')
    ctx.rule('until every argument of a command is known to have been read (a complete number in the range of its type, a bkey, filter or '
             'range) neither the engine is called nor a setting stored; one that cannot be read is answered as an error of the client')
    argnum.check(ctx, p, u)
    ctx.floor('functions judged', 25)
    ctx.floor('conversions and results judged', 100)
