"""Loads the fact files written by rstdump and links them into one program."""
import json
import os
import subprocess
import hashlib
import concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('RSA_REPO', '/repo')
DUMPER = os.path.join(VERIF, 'build', 'rstdump')
FLAGS = ['-std=c++17', '-I' + REPO, '-I' + os.path.join(VERIF, 'harness'), '-fno-exceptions',
         '-fno-rtti', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


class AnchorError(Exception):
    """The code under analysis cannot be found or does not compile."""


class Type(object):
    __slots__ = ('tu', 'i', 's', 'k', 'd')

    def __init__(self, tu, i, d):
        self.tu = tu
        self.i = i
        self.s = d['s']
        self.k = d['k']
        self.d = d

    @property
    def pointee(self):
        return self.tu.types[self.d['p']]

    @property
    def rec(self):
        return self.tu.recs[self.d['r']] if self.k == 'rec' else None

    def noref(self):
        return self.pointee if self.k in ('lref', 'rref') else self

    def nonconst(self):
        return not self.d.get('const')


class Func(object):
    def __init__(self, tu, d):
        self.tu = tu
        self.d = d
        self.id = d['id']
        self.q = d['q']
        self.kind = d['kind']
        self.x = d['x']
        self.params = d['params']
        self.blocks = {}
        cfg = d.get('cfg') or {}
        self.entry = cfg.get('entry')
        self.exit = cfg.get('exit')
        for b in cfg.get('blocks', []):
            self.blocks[b['id']] = b
        self._prep = False
        self.rec = tu.recs[d['rec']] if 'rec' in d else None

    def __repr__(self):
        return '%s (%s:%s)' % (self.q, self.file, self.d['line'])

    @property
    def file(self):
        return self.tu.files[self.d['file']]

    def type(self, i):
        return self.tu.types[i]

    # -- one-time preparation ------------------------------------------------
    def prep(self):
        if self._prep:
            return
        self._prep = True
        self.dest = {}
        x = self.x
        tu = self.tu
        for b in self.blocks.values():
            for e in b['e']:
                if e[0] == 'i':
                    if e[4] is not None and e[4] >= 0:
                        if e[1] == 'm':
                            self._assign(e[4], ('mem', tuple(e[2])))
                        else:
                            self._assign(e[4], ('this',))
        isctor = self.kind == 'ctor'
        for i, n in enumerate(x):
            k = n['k']
            if k == 'DeclStmt':
                for v in n['decls']:
                    if v['init'] >= 0 and tu.types[v['t']].k in ('rec', 'arr'):
                        self._assign(v['init'], ('var', v['d'], v['static']))
                    for bb in v.get('b', ()):
                        if 'hi' in bb and bb['hi'] >= 0:
                            pass
            elif k == 'ReturnStmt':
                if n['rv'] >= 0 and x[n['rv']].get('vk') == 'r' and tu.types[x[n['rv']]['t']].k == 'rec':
                    self._assign(n['rv'], ('ret',))
            elif k == 'CXXNewExpr':
                if n['init'] >= 0:
                    self._assign(n['init'], ('new', i))
            elif k == 'MaterializeTemporaryExpr':
                ch = n['c'][0]
                if x[ch].get('vk') == 'r' and tu.types[x[ch]['t']].k in ('rec', 'arr'):
                    self._assign(ch, ('tmp', i))
            elif k == 'InitListExpr':
                if tu.types[n['t']].k in ('rec', 'arr'):
                    for j, ch in enumerate(n['c']):
                        if x[ch].get('vk') == 'r' and tu.types[x[ch]['t']].k in ('rec', 'arr'):
                            self._assign(ch, ('sub', i, j))
            elif k == 'LambdaExpr':
                for c in n['caps']:
                    if c['x'] >= 0 and not c['ref'] and x[c['x']].get('vk') == 'r' \
                            and tu.types[x[c['x']]['t']].k == 'rec':
                        self._assign(c['x'], ('cap', i, c['f']))
        for i, n in enumerate(x):
            if n['k'] == 'CXXBindTemporaryExpr' and i not in self.dest:
                self._assign(i, ('tmp', i))
        # statements used outside the block that evaluates them
        where = {}
        for b in self.blocks.values():
            for e in b['e']:
                if e[0] == 's':
                    where.setdefault(e[1], set()).add(b['id'])
        keep = set()
        refs = []
        for b in self.blocks.values():
            used = set()
            for e in b['e']:
                if e[0] == 's':
                    used.update(self.uses(e[1]))
                elif e[0] == 'i':
                    if e[4] is not None and e[4] >= 0:
                        used.add(e[4])
                elif e[0] in ('td', 'dd'):
                    used.add(e[1])
            t = b.get('t')
            if t and t.get('c', -1) is not None and t['c'] >= 0:
                used.add(t['c'])
            # and the operands of expressions that are no element themselves
            todo, done = list(used), set()
            while todo:
                u = todo.pop()
                if u in done or u is None or u < 0:
                    continue
                done.add(u)
                w = where.get(u)
                if w is None:
                    todo += [c for c in x[u].get('c', ())]
                elif len(w) > 1 or b['id'] not in w:
                    keep.add(u)
        self.keep = keep
        # loop heads by DFS back edges
        self.heads = set()
        color = {}
        if self.entry is not None:
            stack = [(self.entry, iter([s for s in self.blocks[self.entry]['su'] if s is not None]))]
            color[self.entry] = 1
            while stack:
                n, it = stack[-1]
                adv = False
                for s in it:
                    if color.get(s) == 1:
                        self.heads.add(s)
                    elif s not in color:
                        color[s] = 1
                        stack.append((s, iter([z for z in self.blocks[s]['su'] if z is not None])))
                        adv = True
                        break
                if not adv:
                    color[n] = 2
                    stack.pop()
        # logical operators / conditionals : statement -> is elemented
        self.param_ids = [p['id'] for p in self.params]

    def uses(self, s):
        n = self.x[s]
        r = [c for c in n['c'] if c >= 0]
        for k in ('rv', 'obj', 'callee', 'init', 'arg'):
            if n.get(k, -1) is not None and isinstance(n.get(k), int) and n[k] >= 0:
                r.append(n[k])
        r += [a for a in n.get('args', ()) if a >= 0]
        r += [a for a in n.get('pl', ()) if a >= 0]
        for v in n.get('decls', ()):
            if v['init'] >= 0:
                r.append(v['init'])
        for c in n.get('caps', ()):
            if c['x'] >= 0:
                r.append(c['x'])
        if n['k'] in ('BinaryOperator', 'ConditionalOperator', 'ParenExpr', 'ImplicitCastExpr',
                      'ExprWithCleanups', 'CXXBindTemporaryExpr', 'UnaryOperator'):
            for c in n['c']:
                if c >= 0 and self.x[c]['k'] in ('BinaryOperator', 'ConditionalOperator', 'ParenExpr',
                                                 'ImplicitCastExpr', 'ExprWithCleanups', 'UnaryOperator',
                                                 'CXXBindTemporaryExpr'):
                    r += self.uses(c)
        return r

    PASS = ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ParenExpr', 'CXXDefaultArgExpr',
            'CXXDefaultInitExpr', 'SubstNonTypeTemplateParmExpr', 'ConstantExpr')

    def _assign(self, s, d):
        x = self.x
        while True:
            if s in self.dest:
                return
            self.dest[s] = d
            n = x[s]
            k = n['k']
            if k in self.PASS:
                s = n['c'][0]
            elif k in ('ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr') and \
                    n.get('ck') in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion'):
                s = n['c'][0]
            elif k == 'ConditionalOperator':
                self._assign(n['c'][1], d)
                s = n['c'][2]
            elif k == 'BinaryOperator' and n.get('op') == ',':
                s = n['c'][1]
            elif k == 'CXXStdInitializerListExpr':
                return
            else:
                return
            if x[s].get('vk') != 'r':
                return


class Rec(object):
    def __init__(self, tu, d):
        self.tu = tu
        self.d = d
        self.q = d['q']
        self.s = d['s']
        self.in_ = d.get('in')
        self.fields = d.get('fields', [])
        self.methods = d.get('methods', [])

    def bases(self):
        return [self.tu.types[b].rec for b in self.d.get('bases', ())]

    def moved_bases(self, moved=False):
        """(name of a base class, may its address differ from the object's?)"""
        for b, off in zip(self.bases(), self.d.get('boff', ())):
            if b is not None:
                m = moved or off != 0
                yield b.s, m
                for x in b.moved_bases(m):
                    yield x

    def all_fields(self):
        for b in self.bases():
            if b is not None:
                for f in b.all_fields():
                    yield f
        for f in self.fields:
            yield f, self

    def parts(self):
        """names of the elements of a std::pair or std::tuple"""
        if self.q == 'std::tuple':
            return tuple('_%d' % i for i in range(len(self.d.get('ta', ()))))
        return ('first', 'second')

    def targ(self, i):
        ta = self.d.get('ta', [])
        if i < len(ta) and isinstance(ta[i], int):
            return self.tu.types[ta[i]]
        return None


class TU(object):
    def __init__(self, name, d):
        self.name = name
        self.files = d['files']
        self.types = []
        self.recs = [Rec(self, r) for r in d['records']]
        self.types = [Type(self, i, t) for i, t in enumerate(d['types'])]
        self.funcs = {}
        self.globals = {g['id']: g for g in d['globals']}
        for f in d['functions']:
            fn = Func(self, f)
            self.funcs[fn.id] = fn
        self.rec_by_s = {}
        for r in self.recs:
            self.rec_by_s.setdefault(r.s, r)


class Program(object):
    def __init__(self):
        self.tus = []
        self.by_id = {}
        self.by_q = {}
        self.global_id = {}

    def add(self, tu):
        self.tus.append(tu)
        for f in tu.funcs.values():
            if not f.id.startswith('#'):
                self.by_id.setdefault(f.id, f)
            self.by_q.setdefault(f.q, []).append(f)

    def find(self, tu, fid):
        if fid is None:
            return None
        f = tu.funcs.get(fid)
        if f is None and not fid.startswith('#'):
            f = self.by_id.get(fid)
        return f

    def q(self, name):
        """distinct functions with this qualified name"""
        seen = set()
        out = []
        for f in self.by_q.get(name, []):
            key = f.id if not f.id.startswith('#') else (f.tu.name, f.id)
            if key not in seen:
                seen.add(key)
                out.append(f)
        return out

    def redirect(self, q, nargs):
        """the harness's own C++ model vfm_<name> of an external function, if there is one"""
        r = getattr(self, '_redirects', None)
        if r is None:
            r = self._redirects = {}
            for f in self.functions():
                if f.q.startswith('vfm_') and '/harness/' in f.file and f.entry is not None:
                    r[(f.q[4:], len(f.params))] = f
        if q.startswith('std::filesystem::'):
            return r.get(('fs_' + q.rsplit('::', 1)[-1], nargs))
        if q.startswith('rst::'):
            return None
        return r.get((q.rsplit('::', 1)[-1], nargs))

    def functions(self):
        seen = set()
        for tu in self.tus:
            for f in tu.funcs.values():
                key = f.id if not f.id.startswith('#') else (tu.name, f.id)
                if key not in seen:
                    seen.add(key)
                    yield f


def ensure_dumper():
    subprocess.run(['bash', os.path.join(VERIF, 'engine', 'build.sh')], check=True,
                   stdout=subprocess.DEVNULL)


def lib_sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, 'rst')):
        for f in sorted(files):
            if f.endswith('.cc') and not f.endswith('_test.cc'):
                out.append(os.path.join(root, f))
    return sorted(out)


def _dump(src, extra, outdir):
    key = hashlib.sha1((src + ' ' + ' '.join(extra)).encode()).hexdigest()[:12]
    out = os.path.join(outdir, os.path.basename(src) + '.' + key + '.json')
    p = subprocess.run([DUMPER, out, REPO + '/,' + VERIF + '/', src, '--'] + FLAGS + list(extra),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0 or not os.path.exists(out):
        raise AnchorError('cannot analyse %s: %s' % (src, p.stderr.decode(errors='replace')[-1500:]))
    with open(out) as fh:
        d = json.load(fh)
    os.unlink(out)
    return d


def load(sources, extra=(), jobs=8):
    """Dump the sources (paths) and link them. Always reads the current tree."""
    import tempfile
    ensure_dumper()
    tmp = tempfile.mkdtemp(prefix='rsa')
    p = Program()
    try:
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            ds = list(ex.map(lambda s: _dump(s, extra, tmp), sources))
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    for s, d in zip(sources, ds):
        p.add(TU(s, d))
    return p


def repo(*names):
    return [os.path.join(REPO, n) for n in names]


def harness(*names):
    return [os.path.join(VERIF, 'harness', n) for n in names]
