"""Value domain: hash-consed terms (value numbering) with a linear normal form.

A value is a Python int (integer/bool/null-pointer constant) or a Term.
Linear combinations of terms are kept in the normal form
    lin(c, ((t1, k1), ...))      meaning  c + k1*t1 + ...
"""
import math
_tab = {}
_list = []


class Term(object):
    __slots__ = ('op', 'a', 'id', 'lo', 'hi', 'isb')

    def __repr__(self):
        return show(self)


def T(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t.id = len(_list)
        t.lo = None
        t.hi = None
        t.isb = op in ('le', 'eq', 'not', 'eqv', 'fcmp', 'num', 'isfinite')
        _tab[k] = t
        _list.append(t)
    return t


_fresh = [0]


def fresh(hint='s'):
    _fresh[0] += 1
    return T('s', hint, _fresh[0])


def show(v, d=0):
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str) or v is None:
        return str(v)
    if isinstance(v, tuple):
        return '(' + ','.join(show(x, d + 1) for x in v) + ')'
    if not isinstance(v, Term):
        return repr(v)
    if d > 7:
        return '..'
    if v.op == 'lin':
        c, ts = v.a
        s = '+'.join(('%s' % show(t, d + 1)) if k == 1 else '%d*%s' % (k, show(t, d + 1)) for t, k in ts)
        return '(%s%+d)' % (s, c) if c else '(%s)' % s
    if v.op == 'fld':
        return '%s.%s' % (show(v.a[0], d + 1), v.a[1])
    if v.op == 's':
        return '%s#%s' % v.a
    if v.op == 'str':
        try:
            return repr(bytes.fromhex(v.a[0]).decode('latin1'))
        except ValueError:
            return v.a[0]
    if v.op == 'v':
        return 'var:%s' % (v.a[-1],)
    if v.op == 't':
        return 'tmp%s' % (v.a[1],)
    return '%s(%s)' % (v.op, ','.join(show(x, d + 1) for x in v.a))


# ---- linear forms -------------------------------------------------------

def lin_parts(v):
    if isinstance(v, int):
        return v, ()
    if v.op == 'lin':
        return v.a
    return 0, ((v, 1),)


def mk_lin(c, d):
    ts = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda p: p[0].id))
    if not ts:
        return c
    if c == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    return T('lin', c, ts)


def add(a, b, kb=1):
    ca, ta = lin_parts(a)
    cb, tb = lin_parts(b)
    d = dict(ta)
    for t, k in tb:
        d[t] = d.get(t, 0) + kb * k
    return mk_lin(ca + kb * cb, d)


def tdiv(a, b):
    if not b:
        return 0
    r = abs(a) // abs(b)
    return r if (a < 0) == (b < 0) else -r


def sub(a, b):
    return add(a, b, -1)


def mul_const(a, k):
    c, ts = lin_parts(a)
    return mk_lin(c * k, {t: x * k for t, x in ts})


def neg(a):
    return mul_const(a, -1)


# ---- conditions -----------------------------------------------------------

def mk_not(c):
    if isinstance(c, int):
        return 0 if c else 1
    if c.op == 'not':
        return c.a[0]
    if c.op == 'le':  # !(L <= 0)  ->  1 - L <= 0
        return mk_le0(sub(1, c.a[0]))
    return T('not', c)


def mk_le0(l):
    if isinstance(l, int):
        return 1 if l <= 0 else 0
    return T('le', l)


def mk_le(a, b):
    return mk_le0(sub(a, b))


def mk_lt(a, b):
    return mk_le0(add(sub(a, b), 1))


def canon_sign(l):
    """canonical representative of {L, -L}"""
    c, ts = lin_parts(l)
    if ts and ts[0][1] < 0:
        return neg(l)
    return l


def mk_eq(a, b):
    if a is b:
        return 1
    l = sub(a, b)
    if isinstance(l, int):
        return 1 if l == 0 else 0
    for x, y in ((a, b), (b, a)):
        if isinstance(y, int) and isinstance(x, Term) and x.isb:
            if y == 0:
                return mk_not(x)
            if y == 1:
                return x
    return T('eq', canon_sign(l))


def mk_ne(a, b):
    return mk_not(mk_eq(a, b))


def to_bool(v):
    if isinstance(v, int):
        return 1 if v else 0
    if v.isb:
        return v
    return mk_ne(v, 0)


def walk(v, seen=None):
    """all subterms"""
    if seen is None:
        seen = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.a)


def contains(v, x):
    for t in walk(v):
        if t is x:
            return True
    return False


def subst(v, m, memo=None):
    """replace subterms by m (Term->value), renormalising linear forms."""
    if memo is None:
        memo = {}
    if isinstance(v, tuple):
        return tuple(subst(x, m, memo) for x in v)
    if not isinstance(v, Term):
        return v
    r = m.get(v)
    if r is not None:
        return r
    r = memo.get(v)
    if r is not None:
        return r
    if v.op == 'lin':
        r = v.a[0]
        for t, k in v.a[1]:
            r = add(r, subst(t, m, memo), k)
    else:
        na = tuple(subst(x, m, memo) for x in v.a)
        if all(x is y for x, y in zip(na, v.a)):
            r = v
        elif v.op == 'le':
            r = mk_le0(na[0])
        elif v.op == 'eq':
            r = mk_eq(na[0], 0)
        elif v.op == 'not':
            r = mk_not(na[0])
        else:
            r = T(v.op, *na)
            r.lo, r.hi, r.isb = v.lo, v.hi, v.isb
    memo[v] = r
    return r


# ---- floating point ---------------------------------------------------------

def fconst(t):
    """the value of a floating-point constant term, or None"""
    if isinstance(t, Term) and t.op == 'f':
        try:
            return float(t.a[0])
        except ValueError:
            return None
    return None


def mk_f(x):
    return T('f', repr(float(x)))


def mk_isfinite(v):
    c = fconst(v)
    if c is not None:
        return int(math.isfinite(c))
    if isinstance(v, Term) and v.op == 'i2f':
        return 1
    if isinstance(v, Term) and v.op in ('fabs', 'fneg'):
        return mk_isfinite(v.a[0])
    return T('isfinite', v)


def mk_fabs(v):
    c = fconst(v)
    return mk_f(abs(c)) if c is not None else T('fabs', v)


def mk_fcmp(op, a, b):
    """comparison of floating-point terms; '<', '<=' and '==' only (callers negate '!=')"""
    x, y = fconst(a), fconst(b)
    if x is not None and y is not None:
        return int({'<': x < y, '<=': x <= y, '==': x == y}[op])
    if a is b:
        if op == '<':
            return 0
        return 1 if mk_isfinite(a) == 1 else T('num', a)
    lim = float(1 << 53)
    if isinstance(a, Term) and a.op == 'i2f' and y is not None and abs(y) < lim:
        i = a.a[0]
        if op == '<':
            return mk_lt(i, math.ceil(y))
        if op == '<=':
            return mk_le(i, math.floor(y))
        return mk_eq(i, int(y)) if y == int(y) else 0
    if isinstance(b, Term) and b.op == 'i2f' and x is not None and abs(x) < lim:
        i = b.a[0]
        if op == '<':
            return mk_lt(math.floor(x), i)
        if op == '<=':
            return mk_le(math.ceil(x), i)
        return mk_eq(i, int(x)) if x == int(x) else 0
    if op == '==' and isinstance(a, Term) and isinstance(b, Term) and a.id > b.id:
        a, b = b, a
    return T('fcmp', op, a, b)
