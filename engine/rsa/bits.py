"""Bit provenance of integer terms, and bijections modulo 2^n.

bits(v, n) gives, least significant first, for each of the n low bits of v its
constant value (0 or 1), its origin (term, bit number), or None (not known).
"""
import itertools

from .terms import *


def bits(v, n):
    if isinstance(v, int):
        return [(v >> i) & 1 for i in range(n)]
    o = v.op
    if o in ('&', '|', '^'):
        a, b = bits(v.a[0], n), bits(v.a[1], n)
        return [_bit(o, x, y) for x, y in zip(a, b)]
    if o == '>>' and isinstance(v.a[1], int):
        w = v.a[2]
        a = bits(v.a[0], w)
        k = v.a[1]
        return (a[k:] + [0] * k + [0] * n)[:n] if not _neg(v.a[0]) else (a[k:] + [None] * n)[:n]
    if o == '<<' and isinstance(v.a[1], int):
        w = v.a[2]
        r = ([0] * v.a[1] + bits(v.a[0], w))[:w]
        return (r + [0] * n)[:n]
    if o == '%' and isinstance(v.a[1], int) and v.a[1] > 0 and v.a[1] & (v.a[1] - 1) == 0 and not _neg(v.a[0]):
        k = v.a[1].bit_length() - 1
        return (bits(v.a[0], k) + [0] * n)[:n]
    if o == '/' and isinstance(v.a[1], int) and v.a[1] > 0 and v.a[1] & (v.a[1] - 1) == 0 and not _neg(v.a[0]):
        k = v.a[1].bit_length() - 1
        return (bits(v.a[0], v.a[2])[k:] + [0] * (n + k))[:n]
    if o == 'trunc' and len(v.a) == 3:
        w, sg, x = v.a
        r = bits(x, w)
        return (r + [r[-1] if sg else 0] * n)[:n]
    if o == 'lin':
        c, ts = v.a
        r = [(c >> i) & 1 for i in range(n)]
        for t, k in ts:
            if k <= 0 or k & (k - 1):
                return [None] * n
            s = k.bit_length() - 1
            b = ([0] * s + bits(t, n))[:n]
            if any(x != 0 and y != 0 for x, y in zip(r, b)):
                # a carry may happen
                return [None] * n
            r = [y if x == 0 else x for x, y in zip(r, b)]
        return r
    if v.lo is not None and v.lo >= 0 and v.hi is not None:
        w = v.hi.bit_length()
        return [(v, i) if i < w else 0 for i in range(n)]
    return [(v, i) for i in range(n)]


def _neg(v):
    return isinstance(v, Term) and v.op not in ('&', '|', '^', '>>', '<<', 'lin') and v.lo is not None and v.lo < 0


def _bit(o, x, y):
    if o == '&':
        if x == 0 or y == 0:
            return 0
        if x == 1:
            return y
        if y == 1:
            return x
        return x if x == y and x is not None else None
    if o == '|':
        if x == 1 or y == 1:
            return 1
        if x == 0:
            return y
        if y == 0:
            return x
        return x if x == y and x is not None else None
    if x == 0:
        return y
    if y == 0:
        return x
    if x == y and x is not None:
        return 0
    return None


def injective(e, v, n=64):
    """is e, modulo 2^n, an injective function of v (None: not known)?"""
    r = _injective(e, v, n)
    if r is None and isinstance(e, Term) and collides(e, v, n):
        return False
    return r


def _injective(e, v, n):
    if e is v:
        return True
    if not isinstance(e, Term) or not contains(e, v):
        return False
    o = e.op
    if o == 'lin':
        us = [(t, k) for t, k in e.a[1] if contains(t, v)]
        if len(us) == 1:
            r = injective(us[0][0], v, n)
            if us[0][1] % 2:
                return r
            return False if r is not None else None
        return None
    if o == 'trunc' and len(e.a) == 3:
        if e.a[0] >= n:
            return injective(e.a[2], v, n)
        return False if v.hi is None or v.hi >= (1 << e.a[0]) else None
    if o in ('&', '|', '^'):
        a, b = e.a[0], e.a[1]
        ia, ib = isinstance(a, Term) and contains(a, v), isinstance(b, Term) and contains(b, v)
        if ia and ib:
            if o == '^' or o == '|':
                for x, y in ((a, b), (b, a)):
                    r = _xorshift(o, x, y, n)
                    if r:
                        return injective(x, v, n)
                r = _rotation(a, b, n)
                if r is not None:
                    return injective(r, v, n)
            if o != '^':
                # x | (x >> k) takes 2^k and 2^k + 1 to one value, x & (x >> k) takes 0 and 1 to 0
                for x, y in ((a, b), (b, a)):
                    if y.op == '>>' and y.a[0] is x and isinstance(y.a[1], int) and 0 < y.a[1] < n and injective(x, v, n):
                        return False
            return None
        x, c = (a, b) if ia else (b, a)
        if o == '^':
            return injective(x, v, n)
        if isinstance(c, int):
            m = (1 << n) - 1
            if (o == '&' and c & m == m) or (o == '|' and c & m == 0):
                return injective(x, v, n)
            return False if injective(x, v, n) else None
        # combined with something that does not depend on |v| and may have any bits
        return False if injective(x, v, n) and isinstance(c, Term) else None
    if o in ('>>', '<<') and isinstance(e.a[1], int):
        if e.a[1] == 0:
            return injective(e.a[0], v, n)
        return False if injective(e.a[0], v, n) else None
    if o == 'mul':
        return None
    return None


RES = 8


def _residue(e, w, syms):
    """e as a function of w and of symbols (terms without v) in the ring of residues, or None: only operations whose
    low bits depend on low bits"""
    if e is w:
        return lambda x, env: x
    if isinstance(e, int):
        return lambda x, env, c=e % RES: c
    if not isinstance(e, Term):
        return None
    if not contains(e, w):
        if e not in syms:
            syms.append(e)
        return lambda x, env, k=syms.index(e): env[k]
    if e.op == 'trunc' and len(e.a) == 3 and e.a[0] >= 3:
        return _residue(e.a[2], w, syms)
    if e.op == 'lin':
        fs = [(_residue(t, w, syms), k) for t, k in e.a[1]]
        if not isinstance(e.a[0], int) or any(f is None or not isinstance(k, int) for f, k in fs):
            return None
        return lambda x, env: (e.a[0] + sum(k * f(x, env) for f, k in fs)) % RES
    if e.op in ('&', '|', '^', 'mul') and len(e.a) >= 2:
        f, g = _residue(e.a[0], w, syms), _residue(e.a[1], w, syms)
        if f is None or g is None:
            return None
        op = {'&': lambda p, q: p & q, '|': lambda p, q: p | q, '^': lambda p, q: p ^ q,
              'mul': lambda p, q: p * q % RES}[e.op]
        return lambda x, env: op(f(x, env), g(x, env))
    if e.op == '<<' and isinstance(e.a[1], int):
        f = _residue(e.a[0], w, syms)
        return None if f is None else (lambda x, env: (f(x, env) << e.a[1]) % RES)
    return None


def collides(e, v, n):
    """does e take two values of v to one? A bijection modulo 2^n whose low bits depend on low bits only is one modulo
    8, too; so it is none if it is none modulo 8 for some residues of the other values"""
    seen, inner = set(), []

    def go(t):
        if not isinstance(t, Term) or t.id in seen or not contains(t, v):
            return
        seen.add(t.id)
        if t is not e and _injective(t, v, n):
            inner.append(t)
        for x in t.a:
            for y in (x if isinstance(x, tuple) else (x,)):
                for z in (y if isinstance(y, tuple) else (y,)):
                    go(z)
    go(e)
    for w in inner:
        syms = []
        f = _residue(e, w, syms)
        # what the other terms range over must be known: bijections of different unknown values
        roots = [_root(s, n) for s in syms]
        if f is None or len(syms) > 2 or any(r is None or r is v for r in roots) or \
                len(set(r.id for r in roots)) != len(roots) or any(contains(s, v) for s in syms):
            continue
        for env in itertools.product(range(RES), repeat=len(syms)):
            if len(set(f(x, env) for x in range(RES))) < RES:
                return True
    return False


def _root(s, n):
    """an unknown value that s is a bijection of"""
    todo, seen = [s], set()
    while todo:
        t = todo.pop()
        if not isinstance(t, Term) or t.id in seen:
            continue
        seen.add(t.id)
        if t.op in ('s', 'hash') and (t is s or _injective(s, t, n)):
            return t
        if t.op not in ('s', 'hash'):
            for x in t.a:
                for y in (x if isinstance(x, tuple) else (x,)):
                    todo.extend(z for z in (y if isinstance(y, tuple) else (y,)) if isinstance(z, Term))
    return None


def canon(v):
    """associative and commutative operations as sorted operand lists"""
    if not isinstance(v, Term):
        return v
    o = v.op
    if o in ('^', '|', '&', 'mul'):
        out = []

        def go(x):
            if isinstance(x, Term) and x.op == o:
                go(x.a[0])
                go(x.a[1])
            else:
                out.append(canon(x))
        go(v)
        return (o,) + tuple(sorted(out, key=repr))
    if o == 'lin':
        return ('lin', v.a[0]) + tuple(sorted(((canon(t), k) for t, k in v.a[1]), key=repr))
    if o == 's' or not v.a:
        return ('t', v.id)
    return (o,) + tuple(canon(x) if isinstance(x, Term) else x for x in v.a)


def _xorshift(o, x, y, n):
    """y is x shifted: x ^ (x >> k) is a bijection"""
    return o == '^' and isinstance(y, Term) and y.op in ('>>', '<<') and y.a[0] is x and isinstance(y.a[1], int) and \
        0 < y.a[1] and y.a[2] == n


def _rotation(a, b, n):
    """(x << k) | (x >> (n - k))"""
    for p, q in ((a, b), (b, a)):
        if p.op == '<<' and q.op == '>>' and p.a[0] is q.a[0] and isinstance(p.a[1], int) and isinstance(q.a[1], int) \
                and p.a[1] + q.a[1] == n and p.a[2] == q.a[2] == n:
            return p.a[0]
        # the shift to the left as a multiplication
        if p.op == 'lin' and len(p.a[1]) == 1 and p.a[0] == 0 and q.op == '>>' and p.a[1][0][0] is q.a[0] and \
                isinstance(q.a[1], int) and p.a[1][0][1] == 1 << (n - q.a[1]):
            return q.a[0]
    return None


DIGITS = b'0123456789abcdef'


def text_digits(models, st, t):
    """per character: ('c', char) or ('d', [4 bits], most significant first) or None; None if the length is not constant"""
    out = []
    for b, o, l in models.norm(st, models.pieces(t)):
        if not isinstance(o, int):
            return None
        if not isinstance(l, int):
            u = st.ub(l)
            d = st.ub(neg(l))
            if u is None or d is None or u != -d:
                return None
            l = u
        if b.op == 'str':
            out += [('c', x) for x in bytes.fromhex(b.a[0])[o:o + l]]
        elif b.op == 'hex' and b.a[1] == 16 and not b.a[5] and not b.a[6] and o == 0:
            val, _, upper, width, zero = b.a[:5]
            bs = bits(val, 4 * l)
            ds = [('d' if not upper else 'D', bs[4 * i:4 * i + 4][::-1]) for i in range(l)][::-1]
            # without zero padding leading zeros are spaces, or not there at all
            top = max([i for i, x in enumerate(bs) if x != 0] + [0]) // 4 + 1
            if not zero and not (top == l and st.ub(sub((1 << (4 * l - 4)), val)) is not None and
                                 st.ub(sub((1 << (4 * l - 4)), val)) <= 0):
                ds = [('s', d[1]) for d in ds]
            out += ds
        elif b.op == 'repc' and isinstance(b.a[0], int):
            out += [('c', b.a[0] & 255)] * l
        elif b.op == 'ch' and isinstance(b.a[0], Term) and l == 1:
            out.append(_digit(b.a[0]))
        elif b.op == 'lit':
            return None
        else:
            out += [_digit(T('at', b, o + i)) for i in range(l)]
    return out


def _digit(c):
    if c.op == 'at' and isinstance(c.a[0], Term) and c.a[0].op in ('str', 'lit'):
        s = bytes.fromhex(c.a[0].a[0])
        if s.rstrip(b'\0') in (DIGITS, DIGITS.upper()):
            return ('d' if s.startswith(DIGITS) else 'D', bits(c.a[1], 4)[::-1])
    return None
