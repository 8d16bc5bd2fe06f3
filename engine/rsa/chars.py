"""Exact sets of possible values of single characters.

A condition over one character and constants is decided by evaluating it for
each of the 256 values; a state keeps, per character, the set of values that
are still possible.
"""
from .terms import *

ON = [False]
FULL = (1 << 256) - 1        # bit v + 128 stands for the value v
_cache = {}


class _No(Exception):
    pass


def _ev(t, atom, v):
    if isinstance(t, int):
        return t
    if t is atom:
        return v
    o, a = t.op, t.a
    if o == 'lin':
        return a[0] + sum(k * _ev(x, atom, v) for x, k in a[1])
    if o == 'le':
        return 1 if _ev(a[0], atom, v) <= 0 else 0
    if o == 'eq':
        return 1 if _ev(a[0], atom, v) == 0 else 0
    if o == 'not':
        return 0 if _ev(a[0], atom, v) else 1
    if o == 'and':
        return 1 if all(_ev(x, atom, v) for x in a) else 0
    if o == 'or':
        return 1 if any(_ev(x, atom, v) for x in a) else 0
    if o == 'trunc' and len(a) == 3:
        x = _ev(a[2], atom, v) & ((1 << a[0]) - 1)
        return x - (1 << a[0]) if a[1] and x >> (a[0] - 1) else x
    if o in ('&', '|', '^', '<<', '>>', '/', '%'):
        x, y = _ev(a[0], atom, v), _ev(a[1], atom, v)
        if o in ('<<', '>>') and not 0 <= y < 64 or o in '/%' and y == 0:
            raise _No
        return {'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y,
                '>>': lambda: x >> y, '/': lambda: tdiv(x, y), '%': lambda: x - y * tdiv(x, y)}[o]()
    if o == 'mul':
        return _ev(a[0], atom, v) * _ev(a[1], atom, v)
    if o == 'ctype':
        return ctype(a[0], _ev(a[1], atom, v))
    if o == 'among':             # is the character one of a constant text?
        return 1 if (_ev(a[1], atom, v) & 255) in bytes.fromhex(a[0]) else 0
    if o == 'idxof':
        return bytes.fromhex(a[0]).find(bytes([_ev(a[1], atom, v) & 255]))
    raise _No


def ctype(n, v):
    if not 0 <= v < 128:
        return v if n in ('tolower', 'toupper') else 0
    c = chr(v)
    if n == 'tolower':
        return ord(c.lower())
    if n == 'toupper':
        return ord(c.upper())
    return 1 if {'isdigit': c.isdigit, 'isalpha': c.isalpha, 'isalnum': c.isalnum, 'islower': c.islower,
                 'isupper': c.isupper, 'isspace': lambda: c in ' \t\n\v\f\r',
                 'isxdigit': lambda: c in '0123456789abcdefABCDEF',
                 'isprint': lambda: 32 <= v < 127, 'ispunct': lambda: 32 < v < 127 and not c.isalnum()}[n]() else 0


def sat(c):
    """(character, values satisfying the condition), or None if it is about more or other things"""
    r = _cache.get(c, 0)
    if r != 0:
        return r
    r = None
    atom = None
    for x in walk(c):
        if x.op == 'at':
            if atom is not None and x is not atom:
                atom = None
                break
            atom = x
    if atom is not None:
        try:
            m = 0
            for v in range(-128, 128):
                if _ev(c, atom, v):
                    m |= 1 << (v + 128)
            r = (atom, m)
        except _No:
            pass
    _cache[c] = r
    return r


def mask(pattern):
    m = 0
    for ch in {'h': b'0123456789abcdefABCDEF', 'l': b'0123456789abcdef'}.get(pattern, pattern.encode()):
        m |= 1 << (ch + 128)
    return m


def mergeable(a, b):
    """the union of the two products of sets if it is a product again"""
    d = None
    if a == b:
        return a
    ab = ba = True
    for k in set(a) | set(b):
        x, y = a.get(k, FULL), b.get(k, FULL)
        if x != y:
            d = (k, x | y) if d is None else 0
            ab = ab and y & ~x == 0
            ba = ba and x & ~y == 0
            if d == 0 and not ab and not ba:
                return None
    if ab:
        return a
    if ba:
        return b
    if not d:
        return None
    r = dict(a)
    r[d[0]] = d[1]
    return r


def _same(s, t):
    return s.mem == t.mem and s.le == t.le and s.ne == t.ne and s.tr == t.tr and s.mon == t.mon and s.opaque == t.opaque


def join(states):
    """[(state, anything)] with those joined that differ in the set of one character only"""
    out = []
    for s, v in states:
        while True:
            for i, (t, w) in enumerate(out):
                if (v is w or v == w) and _same(s, t):
                    m = mergeable(s.cs, t.cs)
                    if m is not None:
                        break
            else:
                break
            s = s.copy()
            s.cs = m
            del out[i]
        out.append((s, v))
    return out
