"""Character sequences.

A text is a Term: a literal T('str', hex), a symbolic text (any other term; its
length is size_of), a slice T('sl', V, off, len), n copies of a character
T('rep', n, c), one character T('ch', c), len bytes at an unknown pointer
T('text', p, len), indeterminate bytes T('junk', tag, len), or T('concat', ...)
of these.  All functions take the path state, which decides lengths and
positions.
"""
from .terms import *

TEXTUAL = ('str', 'sl', 'rep', 'ch', 'text', 'junk', 'concat', 'dec', 'fmt', 'hex')


def c_char(b):
    b &= 255
    return b - 256 if b > 127 else b


def clit(bs):
    return T('str', bytes(bs).hex())


class Text(object):
    def size_of(self, v):
        if isinstance(v, Term):
            o = v.op
            if o == 'str':
                return len(v.a[0]) // 2
            if o in ('text', 'junk') and len(v.a) == 2:
                return v.a[1]
            if o == 'sl':
                return v.a[2]
            if o == 'rep':
                return v.a[0]
            if o == 'ch':
                return 1
            if o == 'concat':
                n = 0
                for x in v.a:
                    n = add(n, self.size_of(x))
                return n
        t = T('size', v)
        if t.lo is None:
            t.lo, t.hi = 0, (1 << 62)
        return t.lo if t.lo == t.hi else t

    # -- pieces: (base, offset, length)
    def pieces(self, v, out=None):
        if out is None:
            out = []
        if isinstance(v, Term):
            o = v.op
            if o == 'concat':
                for x in v.a:
                    self.pieces(x, out)
                return out
            if o == 'sl':
                out.append((v.a[0], v.a[1], v.a[2]))
                return out
            if o == 'rep':
                out.append((T('repc', v.a[1]), 0, v.a[0]))
                return out
            if o == 'text' and len(v.a) == 2:
                b, off = self.split_ptr(v.a[0])
                out.append((T('buf', b if b is not None else 0), off, v.a[1]))
                return out
            if o == 'ch' and isinstance(v.a[0], Term) and v.a[0].op == 'at':
                out.append((v.a[0].a[0], v.a[0].a[1], 1))
                return out
        out.append((v, 0, self.size_of(v)))
        return out

    def eqd(self, st, a, b):
        return a is b or (isinstance(a, int) and a == b) or st.decide(mk_eq(a, b)) is True

    def norm(self, st, ps):
        out = []
        for b, o, l in ps:
            if self.eqd(st, l, 0):
                continue
            if isinstance(b, Term) and b.op == 'str' and isinstance(o, int) and isinstance(l, int):
                b, o = T('str', b.a[0][2 * o:2 * (o + l)]), 0
                if out and out[-1][0].op == 'str' and out[-1][1] == 0 and self.eqd(st, out[-1][2], self.size_of(out[-1][0])):
                    b = T('str', out.pop()[0].a[0] + b.a[0])
                    l = len(b.a[0]) // 2
            elif out:
                pb, po, pl = out[-1]
                if pb is b and (b.op == 'repc' or self.eqd(st, o, add(po, pl))):
                    out[-1] = (b, po, add(pl, l))
                    continue
            out.append((b, o, l))
        return out

    def build1(self, st, p):
        b, o, l = p
        if b.op == 'repc':
            return T('rep', l, b.a[0])
        if b.op == 'buf':
            return T('text', add(b.a[0], o), l)
        if isinstance(o, int) and o == 0 and self.eqd(st, l, self.size_of(b)):
            return b
        if isinstance(l, int) and l == 1:
            t = T('at', b, o)
            if t.lo is None:
                t.lo, t.hi = -128, 127
            return T('ch', t)
        return T('sl', b, o, l)

    def build(self, st, ps):
        ps = self.norm(st, ps)
        if not ps:
            return T('str', '')
        vs = [self.build1(st, p) for p in ps]
        return vs[0] if len(vs) == 1 else T('concat', *vs)

    def tnorm(self, st, v):
        if not isinstance(v, Term) or v.op not in TEXTUAL:
            return v
        return self.build(st, self.pieces(v))

    def concat(self, st, vs):
        ps = []
        for v in vs:
            self.pieces(v, ps)
        return self.build(st, ps)

    def slice(self, st, v, off, n):
        """v[off, off+n)"""
        ps = self.norm(st, self.pieces(v)) if isinstance(v, Term) else []
        end = add(off, n)
        out = []
        cum = 0
        i = 0
        while i < len(ps):
            nxt = add(cum, ps[i][2])
            if st.decide(mk_le(nxt, off)) is True and self.eqd(st, n, 0) is False:
                cum = nxt
                i += 1
                continue
            break
        if self.eqd(st, n, 0):
            return T('str', '')
        if i == len(ps) or st.decide(mk_le(cum, off)) is not True:
            return self.sl(v, off, n)
        if st.decide(mk_lt(off, add(cum, ps[i][2]))) is not True and len(ps) > 1 and \
                st.decide(mk_le(end, add(cum, ps[i][2]))) is not True:
            # the slice may start in this piece or in a later one
            if st.decide(mk_le(off, add(cum, ps[i][2]))) is not True:
                return self.sl(v, off, n)
        first = True
        while i < len(ps):
            b, o, l = ps[i]
            nxt = add(cum, l)
            s = sub(off, cum) if first else 0
            if st.decide(mk_le(end, nxt)) is True or (i == len(ps) - 1):
                out.append((b, add(o, s), sub(end, add(cum, s))))
                return self.build(st, out)
            if st.decide(mk_le(nxt, end)) is not True:
                return self.sl(v, off, n)
            out.append((b, add(o, s), sub(l, s)))
            cum = nxt
            first = False
            i += 1
        return self.sl(v, off, n)

    def sl(self, v, off, n):
        if isinstance(v, Term) and v.op == 'sl':
            return T('sl', v.a[0], add(v.a[1], off), n)
        return T('sl', v, off, n)

    def splice(self, st, v, off, n, new, size=None):
        total = self.size_of(v) if size is None else size
        return self.concat(st, [self.slice(st, v, 0, off), new, self.slice(st, v, add(off, n), sub(total, add(off, n)))])

    def at(self, st, v, i):
        """the character v[i], as a (signed) char"""
        ps = self.norm(st, self.pieces(v))
        cum = 0
        for b, o, l in ps:
            nxt = add(cum, l)
            if st.decide(mk_lt(i, nxt)) is True:
                if st.decide(mk_le(cum, i)) is not True:
                    break
                k = add(o, sub(i, cum))
                if b.op == 'repc':
                    return b.a[0]
                if b.op == 'ch':
                    return b.a[0]
                if b.op == 'str' and isinstance(k, int) and 0 <= k < len(b.a[0]) // 2:
                    return c_char(int(b.a[0][2 * k:2 * k + 2], 16))
                t = T('at', b, k)
                if t.lo is None:
                    t.lo, t.hi = -128, 127
                    if b.op in ('dec', 'hex'):
                        t.lo, t.hi = 32, 126
                return t
            if st.decide(mk_le(nxt, i)) is not True:
                break
            cum = nxt
        else:
            if self.eqd(st, i, cum):
                return 0            # the terminator
        t = T('at', self.build(st, ps), i)
        if t.lo is None:
            t.lo, t.hi = -128, 127
        return t

    def teq(self, st, a, b):
        """equality of two texts: 1, 0 or None with the remainders"""
        pa, pb = self.norm(st, self.pieces(a)), self.norm(st, self.pieces(b))

        def strip(pa, pb, back):
            k = -1 if back else 0
            while pa and pb:
                x, y = pa[k], pb[k]
                if x[0].op == 'str' and y[0].op == 'str' and isinstance(x[2], int) and isinstance(y[2], int):
                    m = min(x[2], y[2])
                    hx, hy = x[0].a[0], y[0].a[0]
                    if back:
                        if hx[len(hx) - 2 * m:] != hy[len(hy) - 2 * m:]:
                            return 0
                        rx, ry = hx[:len(hx) - 2 * m], hy[:len(hy) - 2 * m]
                    else:
                        if hx[:2 * m] != hy[:2 * m]:
                            return 0
                        rx, ry = hx[2 * m:], hy[2 * m:]
                    for p, r in ((pa, rx), (pb, ry)):
                        if r:
                            p[k] = (T('str', r), 0, len(r) // 2)
                        else:
                            p.pop(k)
                    continue
                if x[0] is y[0]:
                    if x[0].op == 'repc' or self.eqd(st, x[1], y[1]):
                        if self.eqd(st, x[2], y[2]):
                            pa.pop(k)
                            pb.pop(k)
                            continue
                    if not back and (x[0].op == 'repc' or self.eqd(st, x[1], y[1])):
                        for p, u, w in ((pa, x, y), (pb, y, x)):
                            if st.decide(mk_le(w[2], u[2])) is True:
                                p[0] = (u[0], add(u[1], w[2]), sub(u[2], w[2]))
                                (pb if p is pa else pa).pop(0)
                                break
                        else:
                            return None
                        continue
                return None
            return None
        if strip(pa, pb, False) == 0 or strip(pa, pb, True) == 0:
            return 0, None, None
        if not pa and not pb:
            return 1, None, None
        x, y = self.build(st, pa), self.build(st, pb)
        lx, ly = self.size_of(x), self.size_of(y)
        if st.decide(mk_eq(lx, ly)) is False:
            return 0, None, None
        for u, w, p in ((x, y, pb), (y, x, pa)):
            if u.op == 'str' and u.a[0] == '':
                n = 0
                for q in p:
                    n = add(n, q[2])
                return None, mk_eq(n, 0), None
        return None, x, y
