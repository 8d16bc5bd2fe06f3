"""Queries over the type-checked syntax tree."""


def strip(f, i):
    """skip parentheses and implicit casts"""
    while True:
        n = f.x[i]
        if n['k'] in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr') and n.get('c'):
            i = n['c'][0]
        else:
            return i


def under(f, i):
    """the node and everything below it"""
    out, todo = [], [i]
    while todo:
        j = todo.pop()
        if j is None or j < 0:
            continue
        out.append(j)
        todo += [c for c in f.x[j].get('c', ()) if isinstance(c, int)]
    return out


def methods(prog, rec):
    return [f for f in prog.functions() if f.rec is not None and f.rec.q == rec]


def is_int(t):
    return t.k == 'int'


def counter_width(rep, prog, rec, bits, what):
    """A field used as a generation counter must be wide enough not to wrap and must not be narrowed on its way."""
    rep.rule('every integer field of %s that is counted up has at least %d bits and is never converted to a narrower '
             'type inside the class' % (rec, bits))
    ms = methods(prog, rec)
    counters = {}
    for f in ms:
        rep.analysed.add(f.q)
        for n in f.x:
            if n['k'] == 'UnaryOperator' and n.get('op') in ('++', '--') or \
               n['k'] in ('CompoundAssignOperator', 'BinaryOperator') and n.get('op') in ('+=', '-='):
                m = f.x[strip(f, n['c'][0])]
            elif n['k'] == 'BinaryOperator' and n.get('op') == '=':
                m = f.x[strip(f, n['c'][0])]
                if not any(f.x[j]['k'] == 'MemberExpr' and f.x[j].get('m') == m.get('m') and m.get('m')
                           for j in under(f, n['c'][1])):
                    continue
            else:
                continue
            if m['k'] == 'MemberExpr' and m.get('mk') == 'field' and is_int(f.type(m['mt'])):
                counters.setdefault(m['m'], (f, n, f.type(m['mt'])))
    for name, (f, n, t) in sorted(counters.items()):
        key = '%s: %s' % (what, rec)
        if t.d['bits'] < bits:
            rep.violated(key, 'the counter %s has only %d bits and wraps around' % (name, t.d['bits']),
                         f.file, n['l'], f.q)
        else:
            rep.ok(key)
    for f in ms:
        for n in f.x:
            if n.get('ck') == 'IntegralCast' and n.get('c') and 'mac' not in n:
                src = f.x[strip(f, n['c'][0])]
                ref = [f.x[j] for j in under(f, n['c'][0]) if f.x[j]['k'] == 'MemberExpr' and
                       f.x[j].get('m') in counters]
                if ref and is_int(f.type(n['t'])) and f.type(n['t']).d['bits'] < bits:
                    rep.violated('%s: %s narrowed' % (what, rec), 'the counter %s is narrowed to %d bits' %
                                 (ref[0]['m'], f.type(n['t']).d['bits']), f.file, n['l'], f.q)


def no_narrowing(rep, prog, part, what):
    """Counts, ids and times keep their width: no 64-bit parameter or member is converted to a narrower integer."""
    rep.rule('in %s no 64-bit integer that comes from a parameter or a member is converted to a narrower integer type'
             % part)
    n_ = 0
    for f in prog.functions():
        if part not in f.file or '/harness/' in f.file:
            continue
        rep.analysed.add(f.q)
        ps = set(p['id'] for p in f.params)
        for n in f.x:
            if n.get('ck') != 'IntegralCast' or not n.get('c') or n.get('cv') is not None or 'mac' in n:
                continue
            src = f.x[n['c'][0]]
            if 't' not in src or not is_int(f.type(src['t'])) or not is_int(f.type(n['t'])):
                continue
            n_ += 1
            if f.type(src['t']).d['bits'] < 64 or f.type(n['t']).d['bits'] >= 64 or f.type(n['t']).d['bits'] == 1:
                continue
            if any(f.x[j]['k'] == 'MemberExpr' and f.x[j].get('mk') == 'field' or
                   f.x[j]['k'] == 'DeclRefExpr' and f.x[j].get('d') in ps for j in under(f, n['c'][0])):
                rep.violated('%s: narrowed in %s' % (what, f.q), 'a 64-bit value is truncated to %d bits'
                             % f.type(n['t']).d['bits'], f.file, n['l'], f.q)
        for n in f.x:
            for i in n.get('args', ()):
                u = f.x[strip(f, i)]
                if u['k'] != 'UnaryOperator' or u.get('op') != '++':
                    continue
                m = f.x[strip(f, u['c'][0])]
                if m['k'] == 'MemberExpr' and is_int(f.type(m['mt'])):
                    n_ += 1
                    if f.type(m['mt']).d['bits'] < 64:
                        rep.violated('%s: counter %s' % (what, m['m']), 'a counter of only %d bits wraps around'
                                     % f.type(m['mt']).d['bits'], f.file, n['l'], f.q)
    rep.count('integer_conversions', n_)
    rep.ok(what)
