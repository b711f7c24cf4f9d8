"""Builds the resolved program (LLVM bitcode -> JSON facts) for a configuration of
/repo's current working tree and loads it into Python objects."""
import hashlib, json, os, subprocess, sys, pickle, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TOOL = os.path.join(VERIF, 'tool')
BUILD = os.path.join(VERIF, 'build')

ENG = ['default_engine', 'assoc', 'prefix', 'items', 'item_clog', 'item_base', 'coll_list', 'coll_set',
       'coll_map', 'coll_btree', 'slabs']
PERS = ['chkpt_snapshot', 'checkpoint', 'cmdlogmgr', 'cmdlogbuf', 'cmdlogfile', 'cmdlogrec']
CORE = ['memcached', 'daemon', 'hash', 'stats_prefix', 'thread', 'mc_util', 'topkeys', 'cmdlog', 'lqdetect',
        'cache', 'sasl_defs']
ZK = ['arcus_zk', 'arcus_hb', 'cluster_config']

ZKFLAGS = ['-DENABLE_ZK_INTEGRATION=1', '-DENABLE_CLUSTER_AWARE=1', '-DENABLE_ZK_RECONFIG=1', '-DTHREADED=1',
           '-I/usr/include/zookeeper', '-Wno-implicit-function-declaration', '-Wno-int-conversion']

CONFIGS = {
    # name: (engine files, core files, extra flags)
    'eng': (ENG, [], []),
    'srv': ([], CORE, []),
    'per': (ENG + PERS, [], ['-DENABLE_PERSISTENCE']),
    'zk': ([], ZK + ['memcached', 'thread', 'sasl_auxprop'], ZKFLAGS),
    'asc': ([], ['memcached'], ['-DASCII_SASL']),
    'ext': ([], ['ascii_scrub'], []),
    'flat': (['item_base', 'prefix'], [], []),
    'ans': ([], ['memcached'], []),
    'utl': ([], ['util'], []),
    'tab': (['assoc'], [], []),
    'dur': (ENG + PERS, [], ['-DENABLE_PERSISTENCE']),
    'psrv': ([], ['memcached'], ['-DENABLE_PERSISTENCE']),
    'ops': (['items', 'coll_list', 'coll_set', 'coll_map', 'coll_btree'], [], []),
}
# functions of the base tree that are expanded into their callers as well
EXPAND = {'tab': ['CUR_HASH_TABIDX', '_hashitem_before', '_link_scan_placeholder', '_unlink_scan_placeholder', '_init_scan_placeholder', 'assoc_expand_roottable'],
          'dur': ['do_list_elem_link', 'do_list_elem_unlink', 'do_set_elem_link', 'do_cmdlog_add_commit_waiter',
                  'do_cmdlog_waiter_entry_reset'],
          'ans': ['update_stat_cas', 'handle_unexpected_errorcode_ascii', 'handle_unexpected_errorcode_bin'],
          'flat': ['do_item_stat_link', 'do_item_stat_unlink', 'do_item_stat_replace', 'do_item_stat_bytes_incr', 'do_item_stat_bytes_decr',
                   'LOCK_STATS', 'UNLOCK_STATS', '_prefix_item_count_incr', '_prefix_item_count_decr', '_prefix_item_bytes_incr',
                   '_prefix_item_bytes_decr'],
          'ops': ['do_item_store_set', 'do_item_store_add', 'do_item_store_replace', 'do_item_store_cas', 'do_item_store_attach',
                  'do_add_delta', 'do_list_elem_link', 'do_set_elem_link']}


class Broken(Exception):
    """the analysis itself cannot give a verdict"""


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise Broken('command failed: %s\n%s' % (' '.join(cmd), r.stderr[-4000:]))
    return r.stdout


def tool_path():
    src = os.path.join(TOOL, 'irx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'irx-' + h)
    if not os.path.exists(exe):
        flags = run(['llvm-config-18', '--cxxflags']).split()
        libs = run(['llvm-config-18', '--ldflags', '--libs']).split()
        tmp = exe + '.%d' % os.getpid()
        run(['clang++-18', '-O1', '-w'] + flags + [src, '-o', tmp] + libs)
        os.rename(tmp, exe)
    return exe


def source_file(stem):
    if stem in ENG or stem in PERS:
        return 'engines/default/%s.c' % stem
    return stem + '.c'


def tree_hash(flags):
    h = hashlib.sha256()
    for root in ('.', 'include', 'include/memcached', 'engines', 'engines/default', 'trace', 'dtrace'):
        d = os.path.join(REPO, root)
        if not os.path.isdir(d):
            continue
        for f in sorted(os.listdir(d)):
            if f.endswith(('.c', '.h')):
                h.update(f.encode())
                with open(os.path.join(d, f), 'rb') as fh:
                    h.update(fh.read())
    h.update(' '.join(flags).encode())
    with open(os.path.join(TOOL, 'irx.cpp'), 'rb') as fh:
        h.update(fh.read())
    with open(__file__, 'rb') as fh:
        h.update(fh.read())
    ref = os.path.join(VERIF, 'lib', 'ref_functions.txt')
    if os.path.exists(ref):
        with open(ref, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def build(cfg):
    """returns the list of JSON fact files of a configuration"""
    eng, core, extra = CONFIGS[cfg]
    stems = eng + core
    th = tree_hash([cfg] + extra)
    out = os.path.join(BUILD, '%s-%s' % (cfg, th))
    done = os.path.join(out, 'DONE')
    if os.path.exists(done) and not os.environ.get('VERIF_NOCACHE'):
        return [os.path.join(out, s + '.json') for s in stems]
    exe = tool_path()
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=cfg + '-', dir=BUILD)
    base = ['clang-18', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-std=gnu11',
            '-pthread', '-DHAVE_CONFIG_H', '-w']
    inc = []
    if not os.path.exists(os.path.join(REPO, 'config.h')):
        inc = ['-I', os.path.join(VERIF, 'lib', 'fallback')]
    inc += ['-I', REPO, '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'engines/default')]
    # an unchanged reference list of function names: functions that are not in it are helpers that were
    # added later, and they are expanded into their callers
    ref = os.path.join(VERIF, 'lib', 'ref_functions.txt')
    if not os.path.exists(ref) or os.environ.get('VERIF_NOREF'):
        ref = os.path.join(tmp, 'empty.txt')
        open(ref, 'w').close()
    elif cfg in EXPAND:
        names = [l for l in open(ref).read().split('\n') if l not in EXPAND[cfg]]
        ref = os.path.join(tmp, 'ref.txt')
        with open(ref, 'w') as f:
            f.write('\n'.join(names))

    def one(stem):
        src = os.path.join(REPO, source_file(stem))
        bc = os.path.join(tmp, stem + '.bc')
        js = os.path.join(tmp, stem + '.json')
        if stem == 'cmdlogrec':
            # the file refuses to be compiled when <stddef.h> has defined offsetof
            w = os.path.join(tmp, 'wrap_cmdlogrec.c')
            with open(w, 'w') as f:
                f.write('#include <stddef.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include "default_engine.h"\n#undef offsetof\n#include "%s"\n' % src)
            src = w
        run(base + extra + inc + ['-emit-llvm', '-c', src, '-o', bc], cwd=REPO)
        run([exe, bc, ref, js])
        os.unlink(bc)

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, stems))
    open(os.path.join(tmp, 'DONE'), 'w').close()
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(out, ignore_errors=True) if not os.path.exists(done) else None
        if os.path.exists(done):
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            os.rename(tmp, out)
    return [os.path.join(out, s + '.json') for s in stems]


def op(o):
    """operand JSON -> hashable tuple"""
    k = o[0]
    if k == 'f':
        return ('F', op(o[1]), tuple(step(s) for s in o[2]))
    if k == 'u':
        return ('u',)
    return (k, o[1]) if len(o) > 1 else (k,)


def step(s):
    if isinstance(s, str):
        return s
    return ('[]', op(s[1]))


class Inst:
    __slots__ = ('id', 'op', 'line', 'ty', 'callee', 'args', 'p', 'v', 'steps', 'pred', 'a', 'b', 'phi', 'dst', 'c',
                 'cases', 'deflt', 'k', 'noret', 'name', 'blk', 'fn', 'at', 'vt', 'sizes')

    def __init__(self, j, blk, fn):
        self.id = j['id']
        self.op = j['op']
        self.line = j.get('l', 0)
        self.ty = j.get('t')
        self.blk = blk
        self.fn = fn
        self.args = self.callee = self.p = self.v = self.a = self.b = self.c = None
        self.dst = None
        self.noret = False
        o = self.op
        if o == 'call':
            self.callee = op(j['callee'])
            self.args = [op(a) for a in j['args']]
            self.noret = j.get('noret', False)
        elif o == 'load':
            self.p = op(j['p'])
        elif o == 'store':
            self.p = op(j['p'])
            self.v = op(j['v'])
            self.vt = j.get('vt')
        elif o == 'gep':
            self.p = op(j['p'])
            self.steps = tuple(step(s) for s in j['s'])
            self.sizes = tuple(j['es'])
        elif o == 'icmp':
            self.pred = j['pred']
            self.a = op(j['a'])
            self.b = op(j['b'])
        elif o == 'phi':
            self.phi = {p: op(v) for p, v in j['in']}
        elif o == 'br':
            self.c = op(j['c']) if 'c' in j else None
            self.dst = j['d']
        elif o == 'switch':
            self.c = op(j['c'])
            self.deflt = j['def']
            self.cases = j['cases']
            self.dst = [j['def']] + [d for _, d in j['cases']]
        elif o == 'ret':
            self.v = op(j['v']) if 'v' in j else None
        elif o == 'select':
            self.c = op(j['c'])
            self.a = op(j['a'])
            self.b = op(j['b'])
        elif o == 'cast':
            self.k = j['k']
            self.a = op(j['a'])
            self.v = j['st']
        elif o == 'bin':
            self.k = j['k']
            self.a = op(j['a'])
            self.b = op(j['b'])
        elif o == 'alloca':
            self.at = j['at']
            self.sizes = (j['sz'],)
            self.name = j['n']
        elif o == 'other':
            self.k = j['k']
            self.args = [op(a) for a in j['args']]

    def operands(self):
        r = []
        if self.args:
            r += self.args
        for x in (self.p, self.a, self.b, self.c):
            if x is not None:
                r.append(x)
        if self.v is not None and self.op in ('store', 'ret'):
            r.append(self.v)
        if self.op == 'call' and self.callee:
            r.append(self.callee)
        if self.op == 'phi':
            r += list(self.phi.values())
        if self.op == 'gep':
            for s in self.steps:
                if isinstance(s, tuple):
                    r.append(s[1])
        return r


class Fn:
    def __init__(self, j, stem):
        self.name = j['name']
        self.stem = stem
        self.file = source_file(stem)
        self.line = j['line']
        self.local = j['local']
        self.args = j['args']
        self.dret = j['dret']
        self.ret = j['ret']
        self.addrtaken = j['addrtaken']
        self.blocks = [[Inst(i, b, self) for i in blk] for b, blk in enumerate(j['blocks'])]
        self.insts = {i.id: i for b in self.blocks for i in b}
        n = len(self.blocks)
        self.succs = [[] for _ in range(n)]
        self.preds = [[] for _ in range(n)]
        for b, blk in enumerate(self.blocks):
            t = blk[-1]
            if t.dst:
                for d in dict.fromkeys(t.dst):
                    self.succs[b].append(d)
                    self.preds[d].append(b)
        self._live = None
        self._loop = None

    def __repr__(self):
        return '<Fn %s>' % self.name

    def calls(self):
        for b in self.blocks:
            for i in b:
                if i.op == 'call':
                    yield i

    def all(self):
        for b in self.blocks:
            for i in b:
                yield i

    def loop_insts(self):
        """ids of instructions that lie on a cycle of the CFG"""
        if self._loop is None:
            import sys
            n = len(self.blocks)
            index = [None] * n
            low = [0] * n
            onst = [False] * n
            st = []
            comp = []
            cnt = 0
            for root in range(n):
                if index[root] is not None:
                    continue
                work = [(root, 0)]
                while work:
                    v, pi = work[-1]
                    if pi == 0:
                        index[v] = low[v] = cnt
                        cnt += 1
                        st.append(v)
                        onst[v] = True
                    adv = False
                    for k in range(pi, len(self.succs[v])):
                        w = self.succs[v][k]
                        if index[w] is None:
                            work[-1] = (v, k + 1)
                            work.append((w, 0))
                            adv = True
                            break
                        elif onst[w]:
                            low[v] = min(low[v], index[w])
                    if adv:
                        continue
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == index[v]:
                        c = []
                        while True:
                            w = st.pop()
                            onst[w] = False
                            c.append(w)
                            if w == v:
                                break
                        comp.append(c)
            self._loop = set()
            for c in comp:
                if len(c) > 1 or c[0] in self.succs[c[0]]:
                    for b in c:
                        for i in self.blocks[b]:
                            self._loop.add(i.id)
        return self._loop

    def live_in(self):
        """per block: the instruction ids live at block entry (phi uses count at the predecessor's end)"""
        if self._live is None:
            n = len(self.blocks)
            use = [set() for _ in range(n)]
            dfn = [set() for _ in range(n)]
            phiuse = [set() for _ in range(n)]  # live at the end of block b because of phis in successors

            def ids(o, acc):
                if o[0] == 'i':
                    acc.add(o[1])
                elif o[0] == 'F':
                    ids(o[1], acc)
                    for s in o[2]:
                        if isinstance(s, tuple):
                            ids(s[1], acc)
            for b, blk in enumerate(self.blocks):
                for i in blk:
                    if i.op == 'phi':
                        for p, v in i.phi.items():
                            ids(v, phiuse[p])
                    else:
                        for o in i.operands():
                            acc = set()
                            ids(o, acc)
                            use[b] |= (acc - dfn[b])
                    dfn[b].add(i.id)
            live = [set() for _ in range(n)]
            changed = True
            while changed:
                changed = False
                for b in range(n - 1, -1, -1):
                    o = set(phiuse[b])
                    for s in self.succs[b]:
                        o |= live[s]
                    nl = use[b] | (o - dfn[b])
                    if nl != live[b]:
                        live[b] = nl
                        changed = True
            self._live = live
        return self._live


class Program:
    def __init__(self, *cfgs):
        self.cfgs = cfgs
        self.fns = {}
        self.globals = {}
        self.enums = {}
        self.structs = {}
        self.inlined = []
        self.units = []
        self.ginit = {}
        dup = {}
        for cfg in cfgs:
            for path in build(cfg):
                stem = os.path.basename(path)[:-5]
                if (cfg, stem) in self.units:
                    continue
                self.units.append((cfg, stem))
                d = json.load(open(path))
                self.enums.update(d['enums'])
                for k, v in d['structs'].items():
                    if k not in self.structs or len(v) > len(self.structs[k]):
                        self.structs[k] = v
                for k, g in d['globals'].items():
                    key = k
                    if g['local']:
                        key = stem + ':' + k
                        self.globals[key] = g
                    if k not in self.globals or (self.globals[k].get('decl') and not g['decl']):
                        self.globals[k] = g
                self.inlined += [(stem, a, b) for a, b in d['inlined']]
                for f in d['funcs']:
                    fn = Fn(f, stem)
                    if fn.name in self.fns:
                        old = self.fns[fn.name]
                        if old.stem == fn.stem:
                            continue
                        if fn.local:
                            fn.name = fn.name + '@' + stem
                        elif old.local:
                            old.name = old.name + '@' + old.stem
                            self.fns[old.name] = old
                        else:
                            continue
                    self.fns[fn.name] = fn
        self._vt = None
        self._argt = None
        self._targets = None
        self._mod = None
        self._cg = None

    def enum(self, n):
        if n not in self.enums:
            raise Broken('enumerator %s vanished' % n)
        return self.enums[n]

    def fn(self, n):
        f = self.fns.get(n)
        if f is None:
            raise Broken('anchor function %s vanished' % n)
        return f

    def has(self, n):
        return n in self.fns

    # ---- callee resolution
    def resolve_local(self, name, stem):
        k = name + '@' + stem
        return k if k in self.fns else name

    def fptr_field(self, fn, o, depth=0):
        """for a callee operand that is not a function: the struct field (or variable) it is loaded from"""
        if o[0] != 'i' or depth > 6:
            return None
        i = fn.insts[o[1]]
        if i.op == 'load':
            p = i.p
            if p[0] == 'i':
                g = fn.insts[p[1]]
                if g.op == 'gep':
                    for s in reversed(g.steps):
                        if isinstance(s, str):
                            return s
                    if g.p[0] == 'g':
                        return 'G:' + g.p[1]
                    return self.fptr_field(fn, g.p, depth + 1)
            elif p[0] == 'F':
                for s in reversed(p[2]):
                    if isinstance(s, str):
                        return s
            elif p[0] == 'g':
                return 'G:' + p[1]
        if i.op == 'phi':
            r = {self.fptr_field(fn, v, depth + 1) for v in i.phi.values()}
            r.discard(None)
            return r.pop() if len(r) == 1 else None
        return None

    def callee(self, i):
        """name of the callee: a function, 'vt:struct.field' for a call through a struct slot, or None"""
        c = i.callee
        if c[0] == 'g':
            return self.resolve_local(c[1], i.fn.stem)
        f = self.fptr_field(i.fn, c)
        if f:
            return 'vt:' + f
        if c[0] == 'a':
            return 'arg:%s:%d' % (i.fn.name, c[1])
        return None

    def arg_targets(self):
        """functions passed for a function's parameter: 'arg:fn:k' -> names (transitively through parameters)"""
        if self._argt is None:
            t = {}
            flows = {}
            for fn in self.fns.values():
                for i in fn.calls():
                    n = self.callee(i)
                    if n is None or n not in self.fns:
                        continue
                    for k, a in enumerate(i.args):
                        key = 'arg:%s:%d' % (n, k)
                        if a[0] == 'g':
                            f = self.resolve_local(a[1], fn.stem)
                            if f in self.fns:
                                t.setdefault(key, set()).add(f)
                        elif a[0] == 'a':
                            flows.setdefault('arg:%s:%d' % (fn.name, a[1]), set()).add(key)
            changed = True
            while changed:
                changed = False
                for s, ds in flows.items():
                    for d in ds:
                        n = t.get(s, set()) - t.get(d, set())
                        if n:
                            t.setdefault(d, set()).update(n)
                            changed = True
            # parameters stored into struct slots
            for fn in self.fns.values():
                for i in fn.all():
                    if i.op == 'store' and i.v[0] == 'a':
                        f = self.addr_field(fn, i.p)
                        s = t.get('arg:%s:%d' % (fn.name, i.v[1]))
                        if f and s:
                            self.slot_targets().setdefault(f, set()).update(s)
            self._argt = t
        return self._argt

    def targets(self, fn, i, name=None):
        """program functions a call may enter, including functions handed to an external callee"""
        if name is None:
            name = self.callee(i)
        if not name:
            return []
        self.arg_targets()
        if name in self.fns:
            return [name]
        if name.startswith('vt:'):
            return sorted(self.slot_targets().get(name[3:], ()))
        if name.startswith('arg:'):
            return sorted(self.arg_targets().get(name, ()))
        if name in ('qsort', 'bsearch'):
            return [self.resolve_local(a[1], fn.stem) for a in i.args
                    if a[0] == 'g' and self.resolve_local(a[1], fn.stem) in self.fns]
        return []

    def slot_targets(self):
        """functions stored in each struct slot by constant tables and stores"""
        if self._targets is None:
            t = {}
            for n, g in self.globals.items():
                stem = n.split(':')[0] if ':' in n else None
                for path, o in g.get('init', []):
                    if o[0] == 'g':
                        f = path.split('/')[-1]
                        if f.isdigit() or f.startswith('#'):
                            f = 'G:' + n
                        nm = o[1]
                        if stem:
                            nm = self.resolve_local(nm, stem)
                        if nm in self.fns:
                            t.setdefault(f, set()).add(nm)
            for fn in list(self.fns.values()):
                for i in fn.all():
                    if i.op == 'store' and i.v[0] == 'g':
                        nm = self.resolve_local(i.v[1], fn.stem)
                        if nm in self.fns:
                            f = self.addr_field(fn, i.p)
                            if f:
                                t.setdefault(f, set()).add(nm)
            self._targets = t
        return self._targets

    def first_field(self, g, stem=None):
        """'struct.member' chain naming offset 0 of a global of struct type"""
        d = (self.globals.get('%s:%s' % (stem, g)) if stem else None) or self.globals.get(g)
        r = []
        if d is None:
            return r
        t = d['t']
        while t.startswith('struct.'):
            n = t[7:]
            m = self.structs.get(n)
            if not m:
                break
            if n.startswith(('pthread_', '__')):
                break
            r.append('%s.%s' % (n, m[0][0]))
            t = 'struct.' + m[0][2] if m[0][2] in self.structs else m[0][2]
        return r

    def addr_field(self, fn, p):
        r = self._addr_field(fn, p)
        if r and r.startswith('G:'):
            ff = self.first_field(r[2:], fn.stem)
            if ff and p[0] == 'g':
                return ff[-1]
        return r

    def _addr_field(self, fn, p):
        if p[0] == 'F':
            for s in reversed(p[2]):
                if isinstance(s, str):
                    return s
            if p[1][0] == 'g':
                return 'G:' + p[1][1]
        if p[0] == 'g':
            return 'G:' + p[1]
        if p[0] == 'i':
            i = fn.insts[p[1]]
            if i.op == 'gep':
                for s in reversed(i.steps):
                    if isinstance(s, str):
                        return s
                return self.addr_field(fn, i.p)
        return None

    def callees(self, fn):
        """(inst, callee name or None, [target functions])"""
        for i in fn.calls():
            n = self.callee(i)
            yield i, n, self.targets(fn, i, n) if n else []

    def identity(self, name):
        """k when the function does nothing but return its argument k"""
        if not hasattr(self, '_ident'):
            self._ident = {}
        if name not in self._ident:
            r = None
            fn = self.fns.get(name)
            if fn is not None:
                bl = list(fn.blocks.values()) if isinstance(fn.blocks, dict) else fn.blocks
                if len(bl) == 1 and len(bl[0]) == 1 and bl[0][0].op == 'ret' and bl[0][0].v and bl[0][0].v[0] == 'a':
                    r = bl[0][0].v[1]
            self._ident[name] = r
        return self._ident[name]

    def callgraph(self):
        if self._cg is None:
            cg = {}
            for fn in self.fns.values():
                cg.setdefault(fn.name, set())
                for i, n, ts in self.callees(fn):
                    cg[fn.name].update(ts)
                    # functions passed as arguments are treated as called (callbacks)
            self._cg = cg
        return self._cg

    def reach(self, roots, stop=()):
        cg = self.callgraph()
        seen = set()
        w = [r for r in roots]
        while w:
            f = w.pop()
            if f in seen or f in stop:
                continue
            seen.add(f)
            w += list(cg.get(f, ()))
        return seen

    # ---- transitive field modification sets
    def modsets(self):
        if self._mod is None:
            direct = {}
            for fn in self.fns.values():
                m = set()
                for i in fn.all():
                    if i.op == 'store':
                        f = self.addr_field(fn, i.p)
                        if f:
                            m.add(f)
                        elif i.p[0] != 'i' or fn.insts[i.p[1]].op != 'alloca':
                            m.add('*')
                    elif i.op == 'call' and i.callee[0] == 'g' and i.callee[1].startswith(('llvm.mem', 'memcpy', 'memset', 'memmove')):
                        f = self.addr_field(fn, i.args[0])
                        if f:
                            m.add(f)
                            m.add('S:' + f)
                direct[fn.name] = m
            cg = self.callgraph()
            # SCC-free simple fixpoint
            mod = {k: set(v) for k, v in direct.items()}
            changed = True
            while changed:
                changed = False
                for k in mod:
                    s = mod[k]
                    n0 = len(s)
                    for t in cg.get(k, ()):
                        if t in mod:
                            s |= mod[t]
                    if len(s) != n0:
                        changed = True
            self._mod = mod
        return self._mod


_cache = {}


def load(*cfgs):
    if cfgs not in _cache:
        _cache[cfgs] = Program(*cfgs)
    return _cache[cfgs]


if __name__ == '__main__':
    tool_path()
    for c in (sys.argv[1:] or CONFIGS):
        build(c)
        print('built', c)


def macro(name, *files):
    """integer value of an object-like macro of the sources"""
    import re
    for f in files:
        try:
            m = re.search(r'^\s*#\s*define\s+%s\s+\(?(0x[0-9a-fA-F]+|\d+)' % name, open(os.path.join(REPO, f)).read(), re.M)
        except OSError:
            m = None
        if m:
            t = re.sub(r'/\*.*?\*/|//.*', '', m.string[m.string.index('#', m.start()):].split('\n', 1)[0]).split(name, 1)[1].strip()
            if re.fullmatch(r'[\d\sa-fA-FxX*+()-]+', t):
                return int(eval(t))
            return int(m.group(1), 0)
    raise Broken('macro %s not found' % name)
