"""D01: what a debug build does and a release build does not.

Both builds of every function are compared as multisets of effects.  Effects
inside assertions, and those only one build has, must not touch anything but
fields that exist in debug builds only.
"""
from collections import Counter

from rsa import program
from rsa.stdmodel import PURE

# accessors of the standard library that are no const members
ACCESS = set('begin end rbegin rend cbegin cend find at data front back get value operator* operator-> top lower_bound '
             'upper_bound equal_range count size empty c_str load lock native_handle what code operator bool'.split())
LOCKS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock')
FREE_ACCESS = set('move forward begin end cbegin cend data size addressof get get_if as_const ref cref holds_alternative '
                  'launder distance next prev min max declval visit'.split())
SKIP = ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr',
        'CXXStaticCastExpr', 'CXXConstCastExpr', 'ConstantExpr')


def strip(f, i):
    while True:
        n = f.x[i]
        if n['k'] in SKIP and n.get('c'):
            i = n['c'][0]
        else:
            return i


class Build(object):
    def __init__(self, prog):
        self.prog = prog
        self.fields = {}
        for tu in prog.tus:
            for r in tu.recs:
                self.fields.setdefault(r.q, set()).update(fd['n'] for fd in r.fields)
        self.funcs = {}
        for f in prog.functions():
            self.funcs.setdefault(self.key(f), f)
        self.pure = {}
        self.unknown = set()
        self.debug_only = {}

    def key(self, f):
        if f.id.startswith('#') or '(lambda)' in f.q:
            return (f.q, f.file, f.d['line'], tuple(f.type(p['t']).s for p in f.params))
        return f.id

    # ---- what is changed --------------------------------------------------
    def root(self, f, i, locals_):
        """('local', name) | ('field', record, name) | ('global', q) | ('deref', text)"""
        i = strip(f, i)
        n = f.x[i]
        k = n['k']
        if k == 'MemberExpr' and n.get('mk') == 'field':
            if not n.get('arrow') and n.get('c') and n['c'][0] >= 0:
                r = self.root(f, n['c'][0], locals_)
                if r[0] in ('local', 'temp'):
                    return r
            return ('field', f.tu.recs[n['mrec']].q if isinstance(n.get('mrec'), int) else '', n['m'])
        if k == 'ArraySubscriptExpr' and n.get('c'):
            r = self.root(f, n['c'][0], locals_)
            return r if r[0] != 'deref' else ('deref', self.render(f, i))
        if k == 'DeclRefExpr':
            if n.get('dk') in ('parm', 'var', 'local', 'bind') or n.get('d') in locals_:
                t = locals_.get(n.get('d'))
                if t is None and n.get('dk') == 'parm':
                    t = next((f.type(p['t']) for p in f.params if p['id'] == n['d']), None)
                if t is None and n.get('slocal') or t is None and n.get('dk') != 'parm' and \
                        n.get('d') in f.tu.globals:
                    return ('global', n.get('q') or n.get('n'))
                if t is not None and t.k in ('lref', 'rref'):
                    return ('deref', n.get('n'))
                if t is None:
                    return ('captured', n.get('n'))
                return ('local', n.get('n'))
            return ('global', n.get('q') or n.get('n'))
        if k in ('CXXTemporaryObjectExpr', 'CXXConstructExpr', 'InitListExpr', 'CXXFunctionalCastExpr'):
            return ('temp',)
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') and n.get('vk') == 'r':
            return ('temp',)
        return ('deref', self.render(f, i))

    def render(self, f, i, d=0):
        if i is None or i < 0 or d > 12:
            return '?'
        n = f.x[i]
        k = n['k']
        if k in SKIP and n.get('c'):
            return self.render(f, n['c'][0], d)
        s = str(n.get('op') or n.get('m') or n.get('q') or n.get('n') or n.get('cv') or n.get('str') or k)
        if k == 'CXXThisExpr':
            return 'this'
        cs = [c for c in n.get('c', ()) if isinstance(c, int) and c >= 0]
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr'):
            cs = [c for c in ([n.get('obj', -1)] + list(n.get('args', ()))) if c is not None and c >= 0]
        return s + ('(%s)' % ','.join(self.render(f, c, d + 1) for c in cs) if cs else '')

    def effects(self, f):
        """[(label, node, is it in an assertion, is it certain)]"""
        out = []
        locals_ = {p['id']: f.type(p['t']) for p in f.params}
        for n in f.x:
            for v in n.get('decls', ()):
                if not v['static'] and not v.get('tls'):
                    locals_[v['d']] = f.tu.types[v['t']]
        seen = set()
        for b in f.blocks.values():
            for e in b['e']:
                if e[0] in ('s', 'i') and isinstance(e[-1] if e[0] == 'i' else e[1], int):
                    seen.add(e[4] if e[0] == 'i' else e[1])
        for i, n in enumerate(f.x):
            k = n['k']
            dbg = bool(n.get('dbg'))

            def add(*label, sure=True):
                out.append((label, n, dbg, sure))
            if k == 'BinaryOperator' and n.get('op') == '=' or k == 'CompoundAssignOperator':
                add('write', self.root(f, n['c'][0], locals_), n['op'], self.render(f, n['c'][1]))
            elif k == 'UnaryOperator' and n.get('op') in ('++', '--'):
                add('write', self.root(f, n['c'][0], locals_), n['op'], '')
            elif k == 'CXXNewExpr' and not n.get('pl'):
                pass
            elif k == 'CXXDeleteExpr':
                add('delete', self.render(f, n['c'][0]) if n.get('c') else '')
            elif k in ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'GotoStmt'):
                if k == 'ReturnStmt':
                    add('return', self.render(f, n['rv']) if n.get('rv', -1) >= 0 else '')
                else:
                    add('jump', k)
            elif k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr',
                       'CXXTemporaryObjectExpr'):
                self.call(f, i, n, locals_, add)
            elif k == 'LambdaExpr' and dbg:
                rec = f.tu.recs[n['rec']]
                for g in f.tu.funcs.values():
                    if g.rec is rec and g.q.endswith('operator()') and self.impure(g):
                        add('lambda', g.q)
        return out

    def call(self, f, i, n, locals_, add):
        q = n.get('q') or ''
        name = q.rsplit('::', 1)[-1]
        if q.startswith('operator bool') or q.endswith('operator bool'):
            name = 'operator bool'
        if n.get('noret'):
            return
        fn = self.prog.find(f.tu, n.get('f'))
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            if n.get('ck') in ('move', 'copymove') and n.get('args'):
                src = strip(f, n['args'][0])
                a = f.x[src]
                if a['k'] == 'CallExpr' and a.get('q') == 'std::move':
                    src = a['args'][0]
                r = self.root(f, src, locals_)
                t = f.type(n['t']) if 't' in n else None
                if not n.get('elide') and r[0] != 'temp' and (t is None or t.k == 'rec'):
                    add('moved', r)
                return
            if fn is not None and fn.entry is not None and '/usr/' not in fn.file:
                if self.impure(fn):
                    add('call', q)
            return
        args = list(n.get('args', ()))
        obj = n.get('obj', -1)
        if n['k'] == 'CXXOperatorCallExpr' and obj is not None and obj < 0 and args and 'mconst' in n:
            obj = args[0]
        owner = self.root(f, obj, locals_) if obj is not None and obj >= 0 else None
        if fn is not None and fn.entry is not None and '/usr/' not in fn.file:
            r = self.impure(fn)
            if r == 'this' and owner is not None:
                add('write', owner, 'call', q)
            elif r:
                add('call', q, sure=r != 'unknown')
            return
        if q.startswith('std::') or not n.get('in'):
            member = obj is not None and obj >= 0 and 'mstatic' in n or n['k'] == 'CXXMemberCallExpr'
            if member:
                if n.get('mconst') or n.get('mstatic'):
                    if name in ('operator()',) and q.startswith('std::function'):
                        add('call', q, sure=False)
                    return
                if name in ACCESS or name == 'operator[]' and 'map' not in q:
                    return
                if q.startswith('std::atomic') or '__atomic_base' in q:
                    if name == 'load' or name.startswith('operator') and len(args) <= 1 and name not in (
                            'operator++', 'operator--', 'operator=', 'operator+=', 'operator-='):
                        return
                if 'condition_variable' in q or 'mutex' in q or q.startswith(LOCKS):
                    add('sync', q, self.render(f, obj) if obj is not None and obj >= 0 else '')
                    return
                add('write', owner or ('deref', ''), 'call', q + self.render(f, i))
                return
            if q in PURE or name in FREE_ACCESS or name.startswith('__builtin'):
                return
            # a free function: does it get anything to change?
            if name in ('exchange', 'swap'):
                add('write', self.root(f, args[0], locals_), name, self.render(f, i))
                return
            if name.startswith('operator') and name not in ('operator<<', 'operator>>', 'operator+=', 'operator++'):
                return
            for t in n.get('pt', ()):
                t = f.type(t)
                if t.k == 'lref' and not t.pointee.d.get('const') or t.k == 'ptr' and not t.pointee.d.get('const'):
                    add('call', q, sure=not q.startswith('std::'))
                    return
            if not q.startswith('std::'):
                add('call', q, sure=False)

    # ---- summaries -----------------------------------------------------------
    def impure(self, f):
        """False, 'this' (only changes its own object), True, or 'unknown'"""
        k = self.key(f)
        if k in self.pure:
            return self.pure[k]
        self.pure[k] = False           # (recursion)
        r = False
        for label, n, dbg, sure in self.effects(f):
            e = self.bad(label, f)
            if not e:
                continue
            if not sure:
                r = r or 'unknown'
                continue
            if label[0] == 'write' and label[1][0] == 'field' and f.rec is not None and \
                    label[1][1] in (f.rec.q,) + tuple(b.q for b in f.rec.bases() if b is not None):
                if f.kind == 'ctor':
                    continue
                r = r if r is True else 'this'
                continue
            r = True
        self.pure[k] = r
        return r

    def bad(self, label, f):
        """does the effect reach beyond the function and debug-only fields?"""
        k = label[0]
        if k in ('return', 'jump', 'sync'):
            return False
        if k in ('write', 'moved'):
            r = label[1]
            if r[0] in ('local', 'temp'):
                return False
            if r[0] == 'field' and r[2] in self.debug_only.get(r[1], ()):
                return False
        return True


def d01(rep, tier):
    rep.rule('no effect (write, call of a function that changes anything, move, delete, or jump) occurs inside an '
             'assertion, or in one build of a function only, unless it changes a debug-only field or a local variable '
             'that only that build has')
    import os
    hs = sorted(h for h in os.listdir(os.path.join(program.VERIF, 'harness')) if h.endswith('.cc'))
    srcs = program.lib_sources() + program.harness(*hs)
    dbg = Build(program.load(srcs))
    rel = Build(program.load(srcs, ('-DNDEBUG',)))
    only = {q: fs - rel.fields.get(q, set()) for q, fs in dbg.fields.items() if fs - rel.fields.get(q, set())
            and q in rel.fields}
    dbg.debug_only = rel.debug_only = only
    for q, fs in sorted(only.items()):
        rep.note('debug-only fields of %s: %s' % (q, ', '.join(sorted(fs))))
    nassert = 0
    for key, f in sorted(dbg.funcs.items(), key=lambda p: (p[1].file, p[1].d['line'], p[1].q)):
        if '/harness/' in f.file or not f.file.startswith(program.REPO + '/') or f.entry is None:
            continue
        rep.analysed.add('%s %s:%s' % (f.q, f.file, f.d['line']))
        eff = dbg.effects(f)
        nassert += len({n['l'] for n in f.x if n.get('dbg')})
        name = f.q
        sev = 'ok'
        for label, n, d, sure in eff:
            if not d or label[0] in ('return', 'jump', 'sync'):
                continue
            if label[0] == 'write' and label[1][0] == 'temp' or not beyond(dbg, label, f, n):
                continue
            if sure:
                rep.violated('assertion in %s' % name, 'the condition of an assertion has an effect (%s): a release '
                             'build does not have it' % text(label), f.file, n['l'], f.q)
                sev = 'bad'
            else:
                rep.undecided('assertion in %s' % name, 'cannot tell whether it has effects: %s' % text(label))
                sev = 'und' if sev == 'ok' else sev
        if sev == 'ok' and any(n.get('dbg') for n in f.x):
            rep.ok('assertion in %s' % name)
        g = rel.funcs.get(key)
        if g is None or g.entry is None:
            continue
        same = f.d['line'] == g.d['line'] and f.file == g.file
        names = [{v['n'] for n in h.x if not n.get('dbg') for v in n.get('decls', ())} |
                 {p['n'] for p in h.params} for h in (f, g)]

        def labels(h, e):
            c = Counter()
            where = {}
            for label, n, d, sure in e:
                if d or label[0] == 'sync':
                    continue
                lb = label if same else label[:2]
                if not same and label[0] == 'write' and label[2:3] == ('call',):
                    lb = ('call', label[3].split('(')[0], label[1][-1])
                if not same and label[0] == 'return':
                    continue
                c[lb] += 1
                where[lb] = (n, sure)
            return c, where
        cf, wf = labels(f, eff)
        cg, wg = labels(g, rel.effects(g))
        sev = 'ok'
        for b, c1, c2, wh, h, mine, other in ((dbg, cf, cg, wf, f, names[0], names[1]),
                                              (rel, cg, cf, wg, g, names[1], names[0])):
            for lb in c1 - c2:
                n, sure = wh[lb]
                if lb[0] in ('write', 'moved') and isinstance(lb[1], tuple):
                    r = lb[1]
                    if r[0] == 'temp' or r[0] == 'local' and r[1] not in other:
                        continue
                    if r[0] == 'field' and r[2] in only.get(r[1], ()):
                        continue
                if lb[0] == 'return' and not same:
                    continue
                what = 'only a %s build does this: %s' % ('debug' if b is dbg else 'release', text(lb))
                if not same:
                    # a special member written by hand in one of the builds
                    rep.undecided('builds of %s' % name, what)
                    sev = 'und' if sev == 'ok' else sev
                elif sure:
                    rep.violated('builds of %s' % name, what, h.file, n['l'], h.q)
                    sev = 'bad'
                else:
                    rep.undecided('builds of %s' % name, what)
                    sev = 'und' if sev == 'ok' else sev
        if sev == 'ok':
            rep.ok('builds of %s' % name)
    rep.count('assertion_lines', nassert)
    rep.floor('assertions', nassert, 20)


def beyond(b, label, f, n):
    """an effect inside an assertion: does anything outside see it?"""
    if label[0] in ('write', 'moved'):
        r = label[1]
        if r[0] == 'local':
            # a variable declared inside the assertion (of a lambda) belongs to another function
            return True
        if r[0] == 'field' and r[2] in b.debug_only.get(r[1], ()):
            return False
        return r[0] != 'temp'
    return True


def text(label):
    out = []
    for x in label:
        if isinstance(x, tuple):
            x = ' '.join(str(y) for y in x[1:] if y) or x[0]
        if x:
            out.append(str(x)[:120])
    return ' '.join(out)
