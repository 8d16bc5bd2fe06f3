"""Transfer functions for the standard-library classes and functions the
library (or a plausible rewrite of it) uses.  Anything not listed here is
treated as opaque and marks the path imprecise."""
import re
from . import chars
from .terms import *
from .interp import NPOS, Undecided, addr_root, under
from .text import Text, TEXTUAL, c_char

SCALAR = ('v', 't', 'h', 'fld')
STRING = ('std::basic_string', 'std::filesystem::path', 'std::filesystem::__cxx11::path')
VIEW = ('std::basic_string_view',)
VECTOR = ('std::vector', 'std::deque', 'std::queue', 'std::list', 'std::array', 'std::priority_queue')
MAP = ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set')
LOCKS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')
CV = ('std::condition_variable', 'std::condition_variable_any')
SMART = ('std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr')
class Moved(object):
    k = 'rref'
    d = {}
    rec = None

    def __init__(self, t):
        self.t = t
        self.s = t.s + ' &&'

    @property
    def pointee(self):
        return self.t

    def noref(self):
        return self.t


PURE = {
    'std::strlen', 'strlen', 'std::fabs', 'fabs', 'std::abs', 'abs', 'std::isfinite', 'std::isnan', 'std::isinf',
    'std::this_thread::get_id', 'std::thread::get_id', 'std::hash::operator()', 'std::numeric_limits::epsilon',
    'std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::lowest', '__builtin_expect',
    'std::filesystem::temp_directory_path', 'std::filesystem::path::filename', 'std::filesystem::path::stem',
    'std::filesystem::path::extension', 'std::filesystem::path::parent_path', 'std::filesystem::operator/',
    'std::filesystem::current_path', 'std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::equal', 'std::trunc', 'trunc', 'std::floor', 'floor',
    'std::labs', 'std::llabs', 'labs', 'llabs', 'std::uniform_int_distribution::operator()',
    'std::lexicographical_compare', 'std::numeric_limits::infinity', 'std::chrono::steady_clock::now',
    'std::chrono::time_point::time_since_epoch', 'std::chrono::_V2::steady_clock::now',
    'std::thread::hardware_concurrency', 'std::ceil', 'std::modf', 'std::signbit', 'std::isxdigit', 'std::isdigit',
    'isxdigit', 'isdigit', 'islower', 'std::islower', 'memcmp', 'std::memcmp', 'strcmp', 'std::strcmp',
    'isupper', 'std::isupper', 'std::toupper', 'toupper', 'tolower', 'std::tolower', 'isalpha', 'isalnum',
}


def cls(ty):
    if ty is None:
        return ''
    ty = ty.noref()
    if ty.k == 'ptr':
        return '*'
    return ty.rec.q if ty.k == 'rec' and ty.rec is not None else ty.k


def norm_q(q):
    for s in ('::__cxx11', '::__detail', '::_V2', '::__debug'):
        q = q.replace(s, '')
    if q.startswith('__gnu_cxx::'):
        q = 'std::' + q[len('__gnu_cxx::'):]
    return q


class RecTy(object):
    """the type of a class that is not mentioned as a type"""
    k = 'rec'
    d = {}

    def __init__(self, rec):
        self.rec = rec
        self.s = rec.s

    def noref(self):
        return self


class Models(Text):
    def __init__(self):
        self.seen = {}

    def is_owner(self, ty):
        return cls(ty) in ('std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr', 'std::function',
                           'std::basic_string', 'std::vector', 'std::map', 'std::thread', 'std::unordered_map')

    def moved(self, ty, v):
        c = cls(ty)
        if c in ('std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr', 'std::function'):
            return 0
        return T('moved', v)

    # ---------------------------------------------------------------- strings
    def s_size(self, I, st, a):
        n = st.mem.get(T('fld', a, '$n'))
        if n is not None:
            return n
        v = I.read(st, a)
        return self.size_of(v)

    def set_size(self, I, st, a, n):
        st.mem[T('fld', a, '$n')] = n

    def s_data(self, a):
        return T('el0', T('sdata', a))

    def view(self, I, st, a):
        p = I.read(st, T('fld', a, '$p'))
        l = I.read(st, T('fld', a, '$l'))
        if isinstance(l, Term) and l.lo is None:
            l.lo, l.hi = 0, (1 << 62)
        return p, l

    def set_view(self, I, st, a, p, l):
        I.drop(st, a)
        st.mem[T('fld', a, '$p')] = p
        st.mem[T('fld', a, '$l')] = l
        return a

    def split_ptr(self, p):
        """(base, offset) of a char pointer"""
        if isinstance(p, int):
            return None, p
        if p.op in ('el0', 'lit'):
            return p, 0
        if p.op == 'lin':
            for t, k in p.a[1]:
                if k == 1 and t.op in ('el0', 'lit'):
                    return t, sub(p, t)
            for t, k in p.a[1]:
                if k == 1 and t.op in ('arg', 'in', 's', 'phi') and (t.lo is None):
                    return t, sub(p, t)
        return p, 0

    def store_of(self, I, st, b):
        """(key of the content, size) of the character storage a pointer base designates"""
        if not isinstance(b, Term) or b.op != 'el0':
            return None, None
        x = b.a[0]
        if x.op == 'sdata':
            return x.a[0], self.s_size(I, st, x.a[0])
        cap = I.arrcap.get(x)
        if cap is None:
            return None, None
        k = T('fld', x, '$txt')
        if k not in st.mem:
            v = T('junk', x, cap)
            cells = sorted((c.a[1], c) for c in st.mem if c.op == 'el' and c.a[0] is x and isinstance(c.a[1], int))
            for i, c in cells:
                w = st.mem.pop(c)
                v = self.splice(st, v, i, 1, T('ch', w) if not isinstance(w, int) else T('str', '%02x' % (w & 255)))
            st.mem[k] = v
        return k, cap

    def text(self, I, st, p, l):
        """the character sequence p[0..l) as a value"""
        if isinstance(l, int) and l == 1 and isinstance(p, Term) and p.op in SCALAR and p in st.mem:
            c = st.mem[p]
            return T('str', '%02x' % (c & 255)) if isinstance(c, int) else T('ch', c)
        b, off = self.split_ptr(p)
        if b is None:
            return T('str', '') if l == 0 else T('text', p, l)
        if b.op == 'lit':
            s = b.a[0]
            if isinstance(off, int) and isinstance(l, int) and 0 <= off and off + l <= len(s) // 2:
                return T('str', s[2 * off:2 * (off + l)])
            return self.sl(T('str', s), off, l)
        k, n = self.store_of(I, st, b)
        if k is not None:
            v = I.read(st, k)
            if isinstance(off, int) and off == 0 and (st.decide(mk_eq(l, n)) is True):
                return self.tnorm(st, v)
            return self.slice(st, v, off, l)
        return T('text', add(b, off), l)

    def put_text(self, I, fr, st, sid, p, v, n):
        """the n characters v are written to p"""
        b, off = self.split_ptr(p)
        k, size = self.store_of(I, st, b) if b is not None else (None, None)
        if k is None:
            if b is not None and b.op == 'el0':
                I.mon.ev(I, fr, st, 'access', sid, write=True, ptr=p, off=off, n=n, size=None)
            elif isinstance(p, Term) and p.op in SCALAR:
                if isinstance(n, int) and n == 1:
                    st.mem[p] = self.at(st, v, 0)
                else:
                    st.opaque = st.opaque + (('bytes are written to an object', fr.where(sid)),)
            return False
        I.mon.ev(I, fr, st, 'access', sid, write=True, ptr=p, off=off, n=n, size=size)
        new = self.splice(st, I.read(st, k), off, n, v, size)
        st.mem[k] = new
        if b.a[0].op == 'sdata':
            st.mem[T('fld', k, '$n')] = size
        return True

    def get_text(self, I, fr, st, sid, p, n):
        """n characters are read at p"""
        b, off = self.split_ptr(p)
        k, size = self.store_of(I, st, b) if b is not None else (None, None)
        if k is not None:
            I.mon.ev(I, fr, st, 'access', sid, write=False, ptr=p, off=off, n=n, size=size)
        elif b is not None and b.op == 'lit':
            I.mon.ev(I, fr, st, 'access', sid, write=False, ptr=p, off=off, n=n, size=len(b.a[0]) // 2)
        return self.text(I, st, p, n)

    def strval(self, I, fr, st, a, ty):
        """content value of a string-like operand (string, view, char pointer or array)"""
        c = cls(ty)
        if c in STRING:
            return I.read(st, a)
        if c in VIEW:
            p, l = self.view(I, st, a)
            return self.text(I, st, p, l)
        if c == '*' or c == 'arr':
            p = a
            if isinstance(a, Term) and a.op == 'lit':
                return T('str', self.cstr(a.a[0]))
            l = self.cstrlen(I, st, p)
            return self.text(I, st, p, l)
        return I.read(st, a)

    def cstr(self, h):
        i = 0
        while i < len(h) and h[i:i + 2] != '00':
            i += 2
        return h[:i]

    def cstrlen(self, I, st, p):
        b, off = self.split_ptr(p)
        if b is not None and b.op == 'lit' and isinstance(off, int):
            return max(0, len(self.cstr(b.a[0])) // 2 - off)
        if b is not None and b.op == 'el0' and b.a[0].op == 'sdata':
            n = self.s_size(I, st, b.a[0].a[0])
            v = I.read(st, b.a[0].a[0])
            if isinstance(v, Term) and v.op == 'str' and isinstance(off, int) and isinstance(n, int) and off <= n:
                return len(self.cstr(v.a[0][2 * off:])) // 2
            return sub(n, off)
        k, n = self.store_of(I, st, b) if b is not None else (None, None)
        if k is not None and isinstance(off, int):
            cum = 0
            for pb, o, l in self.norm(st, self.pieces(st.mem[k])):
                if not isinstance(l, int):
                    u, d = st.ub(l), st.ub(neg(l))
                    if u is not None and d is not None and u == -d:
                        l = u
                if isinstance(cum, int) and isinstance(l, int) and l <= 64 and pb.op not in ('junk', 'dec', 'hex', 'fmt'):
                    for j in range(l):
                        c = self.at(st, self.build1(st, (pb, o, l)), j)
                        d = st.decide(mk_eq(c, 0))
                        if d is True and cum + j >= off:
                            return cum + j - off
                        if d is None and cum + j >= off:
                            t = T('strlen', p, st.mem[k])
                            t.lo, t.hi = 0, n
                            return t
                elif pb.op == 'str' and st.decide(mk_le(off, cum)) is True:
                    pass
                elif pb.op not in ('dec', 'hex', 'fmt') and not (pb.op == 's' and str(pb.a[0]).startswith('vf:str')):
                    break
                elif isinstance(cum, int) and cum < off:
                    break
                if pb.op == 'str' and not isinstance(cum, int) and '00' in [pb.a[0][i:i + 2] for i in range(0, len(pb.a[0]), 2)]:
                    return sub(add(cum, len(self.cstr(pb.a[0])) // 2), off)
                cum = add(cum, l)
            t = T('strlen', p, st.mem[k])
            t.lo, t.hi = 0, n
            return t
        t = T('strlen', p)
        t.lo, t.hi = 0, (1 << 62)
        return t

    def veq(self, st, a, b):
        """equality of two content values"""
        if a is b:
            return 1
        if isinstance(a, int) or isinstance(b, int):
            return mk_eq(a, b)
        if isinstance(a, Term) and isinstance(b, Term):
            if a.op == 'str' and b.op == 'str':
                return 0
            if a.op in TEXTUAL or b.op in TEXTUAL:
                r, x, y = self.teq(st, a, b)
                if r is not None:
                    return r
                if y is None:
                    return x
                a, b = x, y
            la, lb = self.size_of(a), self.size_of(b)
            if a.op in ('str', 'text') and b.op in ('str', 'text'):
                if st.decide(mk_eq(la, lb)) is False:
                    return 0
            if la == 0 and b.op == 'text':
                return mk_eq(lb, 0)
            if a.id > b.id:
                a, b = b, a
        return T('eqv', a, b)

    # ---------------------------------------------------------------- helpers
    def node_ty(self, fr, sid):
        n = fr.fn.x[sid]
        return fr.tu.types[n['t']]

    def arg_ty(self, fr, sid):
        """the type of an argument, as one of an rvalue reference for an object that may be moved from"""
        t = self.node_ty(fr, sid)
        return Moved(t) if t.k == 'rec' and fr.fn.x[sid].get('vk') in ('x', 'r') and not t.d.get('const') else t

    def is_addr(self, fr, sid):
        n = fr.fn.x[sid]
        ty = fr.tu.types[n['t']]
        return n.get('vk') in ('l', 'x') or ty.k in ('rec', 'arr')

    def sval(self, I, fr, st, a, sid):
        """scalar value of an operand"""
        n = fr.fn.x[sid]
        ty = fr.tu.types[n['t']]
        if n.get('vk') in ('l', 'x') and ty.k not in ('arr', 'fn'):
            if isinstance(a, Term):
                return I.read(st, a, ty if ty.k != 'rec' else None)
        elif ty.k == 'rec':
            return I.read(st, a)
        return a

    def fork(self, st, c):
        d = st.decide(c)
        if d is not None:
            return [(st, d)]
        s2 = st.copy()
        out = []
        if st.assume(c, True):
            out.append((st, True))
        if s2.assume(c, False):
            out.append((s2, False))
        return out

    def bool_cell(self, t):
        t.isb = True
        t.lo, t.hi = 0, 1
        return t

    def construct_at(self, I, fr, st, env, sid, dest, ty, ops, opsids, elide_ok=True):
        """construct an object of type ty at dest from already evaluated operands"""
        if ty.k not in ('rec', 'arr'):
            if not ops:
                st.mem[dest] = 0
            else:
                v = self.sval(I, fr, st, ops[0], opsids[0])
                st.mem[dest] = self.as_int(I, st, v, self.node_ty(fr, opsids[0]) if opsids[0] is not None else None, ty)
            return [(st, dest)]
        rec = ty.rec
        # same-class copy / move
        if len(ops) == 1:
            aty = self.node_ty(fr, opsids[0]).noref()
            if aty.k == 'rec' and aty.rec is not None and aty.rec.s == rec.s:
                vk = fr.fn.x[opsids[0]].get('vk')
                ck = 'copy' if vk == 'l' or aty.d.get('const') else 'move'
                return self.copy_move(I, fr, st, env, sid, ops[0], dest, ty, ck)
        if not rec.in_ and not rec.d.get('lambda'):
            n = {'q': rec.q + '::' + rec.q.split('::')[-1], 'args': list(opsids), 'ck': 'other' if ops else 'default',
                 't': None, 'k': 'CXXConstructExpr', 'pt': [], 'l': fr.fn.x[sid]['l']}
            m = self.construct(I, fr, st, env, sid, n, rec, dest, ops)
            if m is not None:
                I.mon.ev(I, fr, st, 'construct', sid, addr=dest, ty=ty, args=ops, n=n)
                return m if isinstance(m, list) else [(st, dest)]
            return None
        # a library class: pick the constructor by arity and parameter types
        fn = self.pick_ctor(I, fr, rec, ops, opsids)
        if fn is None:
            if not ops and any(m.get('ck') == 'default' for m in rec.methods):
                for f, r2 in rec.all_fields():
                    ft = r2.tu.types[f['t']]
                    if ft.k not in ('rec', 'arr'):
                        st.mem[T('fld', dest, f['n'])] = 0
                I.mon.ev(I, fr, st, 'construct', sid, addr=dest, ty=ty, args=ops, n=None)
                return [(st, dest)]
            if not ops and not rec.methods:
                I.mon.ev(I, fr, st, 'construct', sid, addr=dest, ty=ty, args=ops, n=None)
                return [(st, dest)]
            return None
        I.drop(st, dest)
        I.mon.ev(I, fr, st, 'construct', sid, addr=dest, ty=ty, args=ops, n=None)
        st.mem[T('fld', dest, '$dyn')] = T('rec', rec.tu.name, rec.tu.recs.index(rec))
        return self.run_with(I, fr, st, env, sid, fn, dest, ops, opsids, None, dest)

    def run_with(self, I, fr, st, env, sid, fn, this, ops, opsids, dest, resv):
        args = []
        outs = [(st, args)]
        for i, p in enumerate(fn.params):
            pty = fn.type(p['t'])
            nxt = []
            for s, lst in outs:
                if i >= len(ops):
                    nxt.append((s, lst + [None]))
                    continue
                o, oid = ops[i], opsids[i]
                oty = self.node_ty(fr, oid) if oid is not None else None
                isaddr = self.is_addr(fr, oid) if oid is not None else True
                nxt += [(s2, lst + [v]) for s2, v in
                        self.bind_param(I, fr, s, env, sid, i, pty, o, oid, oty, isaddr, fn)]
            outs = nxt
        res = []
        for s, lst in outs:
            o = I.invoke(fr, s, fn, this, lst, dest, sid, site=('m', sid, fn.id))
            if o is None:
                I.mon.ev(I, fr, s, 'recursion', sid, fn=fn, obj=this, args=lst, dest=dest)
                s.opaque = s.opaque + (('recursion ' + fn.q, fr.where(sid)),)
                res.append((s, resv if resv is not None else fresh('rec')))
                continue
            for s2, v in o:
                for i, p in enumerate(fn.params):
                    pty = fn.type(p['t'])
                    if pty.k == 'rec' and i < len(ops):
                        I.drop(s2, lst[i]) if isinstance(lst[i], Term) and lst[i].op == 't' and len(lst[i].a) == 2 \
                            and isinstance(lst[i].a[1], tuple) else None
                res.append((s2, resv if resv is not None else v))
        return res

    def bind_param(self, I, fr, st, env, sid, i, pty, o, oid, oty, isaddr, fn):
        if pty.k in ('lref', 'rref'):
            pt = pty.pointee
            if isaddr:
                ot = oty.noref() if oty is not None else None
                if pt.k == 'rec' and ot is not None and (ot.k != 'rec' or ot.rec.s != pt.rec.s) and \
                        not self.derives(ot, pt):
                    a = T('t', fr.ctx, ('conv', sid, i))
                    r = self.construct_at(I, fr, st, env, sid, a, pt, [o], [oid])
                    if r is not None:
                        return [(s, a) for s, _ in r]
                return [(st, o)]
            a = T('t', fr.ctx, ('arg', sid, i))
            if pt.k == 'rec':
                r = self.construct_at(I, fr, st, env, sid, a, pt, [o], [oid])
                if r is not None:
                    return [(s, a) for s, _ in r]
            st.mem[a] = o
            return [(st, a)]
        if pty.k == 'rec':
            a = T('t', fr.ctx, ('arg', sid, i))
            I.drop(st, a)
            r = self.construct_at(I, fr, st, env, sid, a, pty, [o], [oid])
            if r is None:
                if isinstance(o, Term):
                    I.copy_tree(st, o, a)
                return [(st, a)]
            return [(s, a) for s, _ in r]
        if isaddr and isinstance(o, Term) and oty is not None and oty.k not in ('arr', 'fn'):
            o = I.read(st, o, oty.noref())
        return [(st, self.as_int(I, st, o, oty, pty))]

    def as_int(self, I, st, v, src, dst):
        """the conversion between integers of a value that is forwarded"""
        src = src.noref() if src is not None else None
        if src is not None and src.k == 'int' and dst.k == 'int' and src.d.get('bits') and dst.d.get('bits', 0) > 1:
            return I.intcast(st, v, src, dst)
        return v

    def derives(self, t, base):
        if t is None or t.k != 'rec' or t.rec is None:
            return False
        if t.rec.s == base.rec.s:
            return True
        return any(b is not None and b.s == base.rec.s or
                   b is not None and self._drec(b, base.rec.s) for b in t.rec.bases())

    def _drec(self, r, s):
        return any(b is not None and (b.s == s or self._drec(b, s)) for b in r.bases())

    def pick_ctor(self, I, fr, rec, ops, opsids):
        best, bs = None, -1
        cands = []
        for m in rec.methods:
            if m.get('ck') is None and m['n'] != rec.q.split('::')[-1]:
                continue
            fn = I.prog.find(rec.tu, m['id'])
            if fn is None or fn.kind != 'ctor' or fn.entry is None:
                continue
            cands.append(fn)
        for f in list(rec.tu.funcs.values()):
            if f.kind == 'ctor' and f.rec is rec and f.entry is not None and f not in cands:
                cands.append(f)
        for fn in cands:
            if fn.d.get('ck') in ('copy', 'move'):
                continue
            if len(fn.params) != len(ops):
                continue
            sc = 0
            ok = True
            for p, oid in zip(fn.params, opsids):
                pt, ot = fn.type(p['t']).noref(), self.node_ty(fr, oid).noref()
                if cls(pt) == cls(ot):
                    sc += 2
                    if pt.s.replace('const ', '') == ot.s.replace('const ', ''):
                        sc += 1
                    if pt.k == 'rec' and fn.type(p['t']).k == 'rref' and fr.fn.x[oid].get('vk') == 'l':
                        ok = False
                elif pt.k in ('int', 'bool', 'enum', 'float') and ot.k in ('int', 'bool', 'enum', 'float'):
                    sc += 1
                elif pt.k == 'rec':
                    sc += 0
                elif pt.k == 'ptr' and ot.k in ('nullptr', 'arr'):
                    sc += 1
                else:
                    ok = False
            if ok and sc > bs:
                best, bs = fn, sc
        return best

    def copy_move(self, I, fr, st, env, sid, src, dest, ty, ck):
        """copy or move construct dest from src (same class)"""
        rec = ty.rec
        if dest is src:
            return [(st, dest)]
        if rec.in_ or rec.d.get('lambda'):
            for m in rec.methods:
                if m.get('ck') == ck:
                    fn = I.prog.find(rec.tu, m['id'])
                    if fn is not None and fn.entry is not None:
                        I.drop(st, dest)
                        st.mem[T('fld', dest, '$dyn')] = T('rec', rec.tu.name, rec.tu.recs.index(rec))
                        I.mon.ev(I, fr, st, 'construct', sid, addr=dest, ty=ty, args=[src], n=None)
                        o = I.invoke(fr, st, fn, dest, [src], None, sid, site=('cm', sid, fn.id))
                        if o is not None:
                            return [(s, dest) for s, _ in o]
            I.drop(st, dest)
            I.mon.ev(I, fr, st, 'construct', sid, addr=dest, ty=ty, args=[src], n=None)
            I.copy_fields(fr, st, src, dest, rec, ck)
            for c in rec.d.get('caps', ()) or ():
                pass
            return [(st, dest)]
        I.mon.ev(I, fr, st, 'construct', sid, addr=dest, ty=ty, args=[src], n=None)
        return self.lib_copy(I, fr, st, env, sid, src, dest, ty, ck)

    def lib_copy(self, I, fr, st, env, sid, src, dest, ty, ck):
        c = cls(ty)
        I.drop(st, dest)
        if c in VIEW:
            p, l = self.view(I, st, src)
            self.set_view(I, st, dest, p, l)
        elif c in STRING:
            v, n = I.read(st, src), self.s_size(I, st, src)
            st.mem[dest] = v
            if not (isinstance(v, Term) and n is self.size_of(v)):
                st.mem[T('fld', dest, '$n')] = n
            if ck == 'move':
                I.drop(st, src)
                st.mem[src] = T('movedstr', v)
        elif c == 'std::unique_ptr':
            st.mem[dest] = I.read(st, src)
            for k in ('$del',):
                d = st.mem.get(T('fld', src, k))
                if d is not None:
                    st.mem[T('fld', dest, k)] = d
            st.mem[src] = 0
        elif c in ('std::shared_ptr', 'std::weak_ptr'):
            v = I.read(st, src)
            st.mem[dest] = v
            if ck == 'move':
                st.mem[src] = 0
            elif c == 'std::shared_ptr':
                self.rc_add(st, v, 1)
        elif c == 'std::function':
            v = I.read(st, src)
            st.mem[dest] = v
            if ck == 'move':
                st.mem[src] = 0
            elif isinstance(v, Term) and v.op == 'cl':
                rec = self.find_rec(I, v.a[0], v.a[1])
                h = self.alloc(I, fr, st, ('fc', sid))
                out = []
                for s, _ in self.copy_move(I, fr, st, env, sid, v.a[2], h, RecTy(rec), 'copy'):
                    s.mem[dest] = T('cl', v.a[0], v.a[1], h)
                    out.append((s, dest))
                return out
        elif c == 'std::_Bind' and st.mem.get(T('fld', src, '$bind')) is not None:
            nb = st.mem[T('fld', src, '$bind')]
            outs = [(st, dest)]
            for i, t in enumerate(I.bind_types[nb.a[0]]):
                nm = '$f' if i == 0 else '$%d' % (i - 1)
                nxt = []
                for s, _ in outs:
                    s2, d2 = T('fld', src, nm), T('fld', dest, nm)
                    if t.k == 'rec':
                        nxt += self.copy_move(I, fr, s, env, sid, s2, d2, t, ck)
                    else:
                        s.mem[d2] = I.read(s, s2, t)
                        nxt.append((s, dest))
                outs = nxt
            for s, _ in outs:
                s.mem[T('fld', dest, '$bind')] = nb
            return [(s, dest) for s, _ in outs]
        elif c in VECTOR + MAP:
            v = I.read(st, src)
            n = st.mem.get(T('fld', src, '$n'))
            I.copy_tree(st, src, dest)
            st.mem[dest] = v
            if n is None:
                n = self.size_of(v)
            st.mem[T('fld', dest, '$n')] = n
            if ck == 'move':
                I.drop(st, src)
                st.mem[src] = T('empty', c)
                st.mem[T('fld', src, '$n')] = 0
        elif c in ('std::pair', 'std::tuple', 'std::optional'):
            if c == 'std::optional':
                st.mem[T('fld', dest, '$has')] = self.has(I, st, src)
                names = ('$v',)
            else:
                names = ty.rec.parts()
            outs = [(st, dest)]
            for i, nm in enumerate(names):
                ft = ty.rec.targ(i)
                nxt = []
                for s, _ in outs:
                    s2, d2 = T('fld', src, nm), T('fld', dest, nm)
                    if ft is not None and ft.k == 'rec':
                        nxt += self.copy_move(I, fr, s, env, sid, s2, d2, ft, ck)
                    else:
                        if ft is not None and ft.k in ('lref', 'rref'):
                            s.mem[d2] = I.read(s, s2)
                        else:
                            s.mem[d2] = I.read(s, s2, ft)
                        nxt.append((s, dest))
                outs = nxt
            return [(s, dest) for s, _ in outs]
        else:
            v = I.read(st, src)
            I.copy_tree(st, src, dest)
            st.mem[dest] = v
            if ck == 'move' and c in ('std::thread',):
                st.mem[src] = 0
            if ck == 'move' and c == 'std::unique_lock':
                st.mem[src] = 0
                st.mem[T('fld', src, '$own')] = 0
        return [(st, dest)]

    def has(self, I, st, a):
        v = st.mem.get(T('fld', a, '$has'))
        if v is None:
            v = self.bool_cell(I.default(st, T('fld', a, '$has')))
        return v

    # ---------------------------------------------------------------- destructors
    def dtor(self, I, fr, st, a, ty, sid, line):
        c = cls(ty)
        r = self._dtor(I, fr, st, a, ty, sid, line, c)
        return r

    def _dtor(self, I, fr, st, a, ty, sid, line, c):
        if c in LOCKS:
            return self.unlock_guard(I, fr, st, a, sid, c)
        if c == 'std::unique_ptr':
            v = I.read(st, a)
            return [(s, None) for s in self.reset_unique(I, fr, st, a, ty, v, sid)]
        if c == 'std::shared_ptr':
            v = I.read(st, a)
            return self.rc_release(I, fr, st, v, ty.rec.targ(0), sid)
        if c == 'std::weak_ptr':
            return [(st, None)]
        if c in VECTOR + MAP:
            out = self.destroy_elems(I, fr, st, a, ty, sid, line)
            for s, _ in out:
                I.mon.ev(I, fr, s, 'elems_dead', sid, addr=T('els', a))
            return out
        if c == 'std::optional':
            t0 = ty.rec.targ(0)
            if t0 is not None and t0.k == 'rec' and not t0.rec.d.get('trivdtor'):
                out = []
                for s, b in self.fork(st, to_bool(self.has(I, st, a))):
                    if b:
                        out += I.destroy(fr, s, T('fld', a, '$v'), t0, sid, line)
                    else:
                        out.append((s, None))
                return out
            return [(st, None)]
        if c in ('std::pair', 'std::tuple'):
            outs = [(st, None)]
            for i, nm in list(enumerate(ty.rec.parts()))[::-1]:
                ft = ty.rec.targ(i)
                if ft is not None and ft.k == 'rec':
                    nxt = []
                    for s, _ in outs:
                        nxt += I.destroy(fr, s, T('fld', a, nm), ft, sid, line)
                    outs = nxt
            return outs
        if c == 'std::function':
            v = I.read(st, a)
            I.mon.ev(I, fr, st, 'fn_destroy', sid, addr=a, value=v)
            return [(s, None) for s in self.drop_closure(I, fr, st, v, sid, line)]
        if c == 'std::_Bind':
            nb = st.mem.get(T('fld', a, '$bind'))
            outs = [(st, None)]
            if nb is not None:
                for i, t in reversed(list(enumerate(I.bind_types[nb.a[0]]))):
                    if t.k == 'rec':
                        nxt = []
                        for s, _ in outs:
                            nxt += I.destroy(fr, s, T('fld', a, '$f' if i == 0 else '$%d' % (i - 1)), t, sid, line)
                        outs = nxt
            return outs
        if c == 'std::thread':
            f = getattr(I.mon, 'sched_thread_dtor', None)
            if f is not None:
                return [(s, None) for s in f(I, fr, st, sid, a)]
            I.mon.ev(I, fr, st, 'thread_dtor', sid, addr=a, value=I.read(st, a))
            return [(st, None)]
        rec = ty.rec
        if rec is not None and not rec.in_ and not rec.d.get('lambda'):
            return [(st, None)]
        return None

    def destroy_elems(self, I, fr, st, a, ty, sid, line):
        """destructors of the elements that are individually known"""
        et = ty.rec.targ(0) if cls(ty) in VECTOR else ty.rec.targ(1)
        if et is None or et.k != 'rec' or et.rec.d.get('trivdtor'):
            return [(st, None)]
        if not getattr(I.mon, 'element_dtors', False):
            return [(st, None)]
        n = st.mem.get(T('fld', a, '$n'))
        outs = [(st, None)]
        if isinstance(n, int) and n <= 8:
            h = st.mem.get(T('fld', a, '$h'), 0)
            for i in range(n):
                nxt = []
                for s, _ in outs:
                    nxt += I.destroy(fr, s, T('el', T('data', a), add(h, i)), et, sid, line)
                outs = nxt
        return outs

    def reset_unique(self, I, fr, st, a, ty, v, sid):
        """destroy the pointee v of a unique_ptr cell a; returns states"""
        if isinstance(v, int) and v == 0:
            return [st]
        d = st.mem.get(T('fld', a, '$del'))
        dt = ty.rec.targ(1)
        custom = d is not None or (dt is not None and cls(dt) != 'std::default_delete')
        out = []
        if not custom:
            t0 = ty.rec.targ(0)
            if isinstance(v, Term) and v.op == 'h':
                return [s for s, _ in I.delete(fr, st, v, t0, sid)]
            dd = st.decide(mk_eq(v, 0))
            if dd is True:
                return [st]
            if getattr(I.mon, 'fork_unique', False) and dd is None:
                for s, b in self.fork(st, mk_ne(v, 0)):
                    if b:
                        out += [x for x, _ in I.delete(fr, s, v, t0, sid)]
                    else:
                        out.append(s)
                return out
            return [s for s, _ in I.delete(fr, st, v, t0, sid)]
        for s, b in self.fork(st, mk_ne(v, 0)):
            if not b:
                out.append(s)
                continue
            r = self.call_target(I, fr, s, {}, sid, d, [(v, False, None)], None, dt, T('fld', a, '$delobj'))
            out += [x for x, _ in r]
        return out

    def rc(self, v):
        return T('rc', v)

    def rc_add(self, st, v, k):
        if isinstance(v, Term):
            r = st.mem.get(T('rc', v))
            if r is not None:
                st.mem[T('rc', v)] = add(r, k)

    def rc_release(self, I, fr, st, v, ty, sid):
        if isinstance(v, Term):
            r = st.mem.get(T('rc', v))
            if r is not None:
                nr = sub(r, 1)
                st.mem[T('rc', v)] = nr
                if isinstance(nr, int) and nr <= 0:
                    if ty is not None and ty.k == 'rec':
                        o = I.destroy(fr, st, v, ty, sid, 0, virt=True)
                        for s, _ in o:
                            I.drop(s, v)
                            I.mon.ev(I, fr, s, 'rc_zero', sid, addr=v)
                            I.mon.ev(I, fr, s, 'freed', sid, addr=v)
                        return o
        return [(st, None)]

    def alive(self, I, st, v):
        """condition: the control block of v still has an owner"""
        if isinstance(v, int):
            return 0
        r = st.mem.get(T('rc', v))
        if r is not None:
            return mk_lt(0, r)
        t = T('alive_rc', v, st.mem.get(T('rcep'), 0))
        t.isb = True
        return t

    # ---------------------------------------------------------------- locks
    def unlock_guard(self, I, fr, st, a, sid, c):
        m = I.read(st, a)
        if c == 'std::unique_lock':
            own = st.mem.get(T('fld', a, '$own'), 0)
            if not own:
                return [(st, None)]
        if isinstance(m, Term):
            return [(s, None) for s in self.do_unlock(I, fr, st, sid, m.a if m.op == 'mutexes' else [m])]
        return [(st, None)]

    def do_lock(self, I, fr, st, sid, ms):
        f = getattr(I.mon, 'sched_lock', None)
        outs = [st]
        for m in ms:
            if f is None:
                I.mon.ev(I, fr, st, 'lock', sid, mutex=m)
            else:
                outs = [s2 for s in outs for s2 in f(I, fr, s, sid, m)]
        return outs

    def do_unlock(self, I, fr, st, sid, ms):
        f = getattr(I.mon, 'sched_unlock', None)
        outs = [st]
        for m in ms:
            if f is None:
                I.mon.ev(I, fr, st, 'unlock', sid, mutex=m)
            else:
                outs = [s2 for s in outs for s2 in f(I, fr, s, sid, m)]
        return outs

    def wait(self, I, fr, st, env, sid, n, q, obj, ops, argn, rt):
        lk = ops[0]
        m = I.read(st, lk)
        name = q.rsplit('::', 1)[-1]
        timed = name in ('wait_for', 'wait_until')
        npred = 3 if timed else 2
        haspred = len(ops) >= npred
        kw = dict(cv=obj, mutex=m, timed=timed, lock=lk, pred=haspred)
        sw = getattr(I.mon, 'sched_wait', None)
        if sw is not None and not haspred:
            return [(s, (1 if t else 0) if timed else 0) for s, t in sw(I, fr, st, sid, obj, m, timed)]
        if not haspred:
            I.mon.ev(I, fr, st, 'wait', sid, **kw)
            if not timed:
                I.mon.ev(I, fr, st, 'woken', sid, timeout=False, **kw)
                return [(st, 0)]
            s2 = st.copy()
            I.mon.ev(I, fr, st, 'woken', sid, timeout=False, **kw)
            I.mon.ev(I, fr, s2, 'woken', sid, timeout=True, **kw)
            I.note(fr, s2, sid, 'timeout')
            return [(st, 0), (s2, 1)]
        pv = ops[npred - 1]
        pid = argn[npred - 1]
        out = []

        def ev_pred(s):
            r = self.call_target(I, fr, s, env, sid, None, [], None, self.node_ty(fr, pid), pv)
            res = []
            for s3, v in r:
                res += self.fork(s3, to_bool(v))
            return res
        if sw is not None:
            work = [(st, False, 0)]
            while work:
                s1, t1, k = work.pop()
                for s, b in ev_pred(s1):
                    if b or t1:
                        out.append((s, 1 if b else 0))
                    elif k < 8:
                        work += [(s2, t2, k + 1) for s2, t2 in sw(I, fr, s, sid, obj, m, timed)]
            return out
        for s, b in ev_pred(st):
            if b:
                out.append((s, 1))
                continue
            I.mon.ev(I, fr, s, 'wait', sid, **kw)
            s2 = s.copy() if timed else None
            I.mon.ev(I, fr, s, 'woken', sid, timeout=False, **kw)
            for s4, b2 in ev_pred(s):
                if b2:
                    out.append((s4, 1))
            if timed:
                I.mon.ev(I, fr, s2, 'woken', sid, timeout=True, **kw)
                for s4, b2 in ev_pred(s2):
                    out.append((s4, 1 if b2 else 0))
        return out

    # ---------------------------------------------------------------- callables
    def make_target(self, I, fr, st, env, sid, dest, src, srcsid):
        """store a callable operand in a std::function cell"""
        n = fr.fn.x[srcsid]
        ty = self.node_ty(fr, srcsid).noref()
        if ty.k in ('nullptr',):
            st.mem[dest] = 0
            return [(st, dest)]
        if ty.k in ('ptr', 'fn'):
            v = src
            if ty.k == 'ptr' and n.get('vk') in ('l', 'x'):
                v = I.read(st, src)
            st.mem[dest] = v
            return [(st, dest)]
        if ty.k == 'memptr':
            st.mem[dest] = self.sval(I, fr, st, src, srcsid)
            return [(st, dest)]
        if ty.k == 'rec':
            if cls(ty) == 'std::function':
                vk = n.get('vk')
                return self.lib_copy(I, fr, st, env, sid, src, dest, ty, 'copy' if vk == 'l' else 'move')
            h = self.alloc(I, fr, st, ('fn', sid))
            ck = 'copy' if n.get('vk') == 'l' else 'move'
            r = self.copy_move(I, fr, st, env, sid, src, h, ty, ck)
            rec = ty.rec
            out = []
            for s, _ in r:
                s.mem[dest] = T('cl', rec.tu.name, rec.tu.recs.index(rec), h)
                out.append((s, dest))
            return out
        st.mem[dest] = fresh('callable')
        return [(st, dest)]

    def alloc(self, I, fr, st, tag):
        """an address for a new heap object"""
        used = set(addr_root(k) for k in st.mem)
        fr_ = st.mon.get('freed', ()) if isinstance(st.mon, dict) else ()
        h = T('h', fr.ctx, tag)
        k = 0
        while (h in used or h in fr_) and k < 6:
            k += 1
            h = T('h', fr.ctx, tag + (k,))
        return h

    def drop_closure(self, I, fr, st, v, sid, line):
        if not (isinstance(v, Term) and v.op == 'cl'):
            return [st]
        rec = self.find_rec(I, v.a[0], v.a[1])
        out = []
        for s, _ in I.destroy(fr, st, v.a[2], RecTy(rec), sid, line):
            I.drop(s, v.a[2])
            I.mon.ev(I, fr, s, 'freed', sid, addr=v.a[2])
            out.append(s)
        return out

    def find_rec(self, I, tun, idx):
        for tu in I.prog.tus:
            if tu.name == tun:
                return tu.recs[idx]
        return None

    def call_ops(self, I, rec, nargs):
        """call operators (bodies) of a class"""
        out = []
        for f in rec.tu.funcs.values():
            if f.rec is rec and f.q.endswith('operator()') and f.entry is not None and len(f.params) == nargs:
                out.append(f)
        return out

    def call_target(self, I, fr, st, env, sid, tv, args, dest, cty=None, caddr=None):
        """call a callable. tv: value in a std::function / pointer (or None);
        args: list of (v, isaddr, ty); cty/caddr: class type + address of a
        callable object"""
        rec, this = None, None
        if isinstance(tv, Term) and tv.op == 'cl':
            rec, this = self.find_rec(I, tv.a[0], tv.a[1]), tv.a[2]
        elif tv is None and cty is not None and cty.noref().k == 'rec':
            rec, this = cty.noref().rec, caddr
            if rec.q == 'std::function':
                tv = I.read(st, caddr)
                return self.call_target(I, fr, st, env, sid, tv, args, dest)
        elif tv is None and cty is not None and cty.noref().k in ('ptr', 'memptr', 'fn'):
            tv = caddr
        if isinstance(tv, Term) and tv.op == 'fnptr':
            fn = I.find_fn(tv)
            if fn is not None and fn.entry is not None:
                return self.run_vals(I, fr, st, env, sid, fn, tv.a[3] if len(tv.a) > 3 else None, args, dest)
            r = self.free_by_name(I, fr, st, env, sid, None, tv.a[2], [a[0] for a in args], dest)
            if r is not None:
                return r
            I.mon.ev(I, fr, st, 'extcall', sid, q=tv.a[2], args=[a[0] for a in args])
            return [(st, fresh('ext'))]
        if isinstance(tv, Term) and tv.op == 'memfn':
            return self.call_memfn(I, fr, st, env, sid, tv, args, dest)
        if rec is not None:
            if rec.q == 'std::_Bind' or st.mem.get(T('fld', this, '$bind')) is not None:
                return self.call_bind(I, fr, st, env, sid, this, args, dest)
            c = self.call_ops(I, rec, len(args))
            c = self.pick_overload(I, c, args)
            if c is not None:
                return self.run_vals(I, fr, st, env, sid, c, this, args, dest)
        st2 = st
        I.mon.ev(I, fr, st2, 'callback', sid, fn=tv if tv is not None else caddr, args=[a[0] for a in args], dest=dest)
        return [(st2, dest if dest is not None else self.cbres(tv))]

    def cbres(self, tv):
        return fresh('cb')

    def pick_overload(self, I, fns, args):
        if not fns:
            return None
        if len(fns) == 1:
            return fns[0]
        best, bs = None, -1
        for f in fns:
            sc, ok = 0, True
            for p, (v, isa, ty) in zip(f.params, args):
                pt = f.type(p['t']).noref()
                if ty is None:
                    continue
                t = ty.noref()
                if pt.s.replace('const ', '') == t.s.replace('const ', ''):
                    sc += 2
                elif cls(pt) == cls(t):
                    sc += 1
            if sc > bs:
                best, bs = f, sc
        return best

    def run_vals(self, I, fr, st, env, sid, fn, this, args, dest):
        outs = [(st, [])]
        for i, p in enumerate(fn.params):
            pty = fn.type(p['t'])
            nxt = []
            for s, lst in outs:
                v, isa, ty = args[i] if i < len(args) else (fresh('arg'), False, None)
                if pty.k in ('lref', 'rref'):
                    if not isa:
                        a = T('t', fr.ctx, ('cbarg', sid, i, fn.id))
                        s.mem[a] = v
                        v = a
                    nxt.append((s, lst + [v]))
                elif pty.k == 'rec':
                    a = T('t', fr.ctx, ('cbarg', sid, i, fn.id))
                    I.drop(s, a)
                    if isa and isinstance(v, Term) and (ty is None or (ty.noref().k == 'rec' and
                                                                        ty.noref().rec.s == pty.rec.s)):
                        ck = 'copy' if ty is None or ty.k == 'lref' or ty.k == 'rec' else 'move'
                        nxt += [(s2, lst + [a]) for s2, _ in
                                self.copy_move(I, fr, s, env, sid, v, a, pty, ck)]
                    else:
                        s.mem[a] = v
                        nxt.append((s, lst + [a]))
                else:
                    if isa and isinstance(v, Term):
                        v = I.read(s, v, pty)
                    nxt.append((s, lst + [v]))
            outs = nxt
        rt = fn.type(fn.d['ret'])
        res = []
        for s, lst in outs:
            d = dest
            if d is None and rt.k == 'rec':
                d = T('t', fr.ctx, ('cbret', sid, fn.id))
            o = I.invoke(fr, s, fn, this, lst, d, sid, site=('call', sid, fn.id))
            if o is None:
                I.mon.ev(I, fr, s, 'recursion', sid, fn=fn, obj=this, args=lst, dest=dest)
                s.opaque = s.opaque + (('recursion ' + fn.q, fr.where(sid)),)
                res.append((s, fresh('rec')))
                continue
            for s2, v in o:
                res.append((s2, d if rt.k == 'rec' else (v if v is not None else 0)))
        return res

    def call_memfn(self, I, fr, st, env, sid, mf, args, dest):
        obj, isa, ty = args[0]
        t = ty.noref() if ty is not None else None
        if t is not None and t.k == 'ptr':
            if isa and isinstance(obj, Term):
                obj = I.read(st, obj, t)
        elif t is not None and cls(t) in SMART:
            obj = I.read(st, obj)
        elif t is not None and t.k == 'rec' and t.rec.in_ and self.has_arrow(t.rec):
            # a smart pointer of the library itself
            for f in t.rec.tu.funcs.values():
                if f.rec is not None and f.rec.s == t.rec.s and f.q.endswith('operator->') and f.entry is not None:
                    o = I.invoke(fr, st, f, obj, [], None, sid, site=('arrow', sid))
                    if o:
                        out = []
                        for s, v in o:
                            out += self.call_memfn(I, fr, s, env, sid, mf, [(v, True, None)] + args[1:], dest)
                        return out
        fn = None
        for tu in I.prog.tus:
            if tu.name == mf.a[1]:
                fn = I.prog.find(tu, mf.a[0])
        obj = I.deref(obj) if isinstance(obj, Term) else T('null')
        if fn is None or fn.entry is None:
            I.mon.ev(I, fr, st, 'memcall', sid, q=mf.a[2], obj=obj, args=[a[0] for a in args[1:]])
            I.mon.ev(I, fr, st, 'callback', sid, fn=mf, args=[a[0] for a in args])
            return [(st, fresh('cb'))]
        I.mon.ev(I, fr, st, 'memcall', sid, q=fn.q, obj=obj, args=[a[0] for a in args[1:]])
        return self.run_vals(I, fr, st, env, sid, fn, obj, args[1:], dest)

    def has_arrow(self, rec):
        return any(m['n'] == 'operator->' for m in rec.methods)

    def m_bind(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        if name != 'operator()' or st.mem.get(T('fld', obj, '$bind')) is None:
            return None
        args = [(a, self.is_addr(fr, i), self.arg_ty(fr, i)) for a, i in zip(ops, argn)]
        return self.fix_ret(I, self.call_bind(I, fr, st, env, sid, obj, args, dest), rt, dest)

    def call_bind(self, I, fr, st, env, sid, b, args, dest):
        nb = st.mem.get(T('fld', b, '$bind'))
        f = T('fld', b, '$f')
        fty = I.bind_types[nb.a[0]]
        bargs = []
        for i, t in enumerate(fty[1:]):
            if cls(t) == 'std::_Placeholder':
                k = re.search(r'_Placeholder<(\d+)>', t.noref().s)
                if k is None or not 0 < int(k.group(1)) <= len(args):
                    return None
                bargs.append(args[int(k.group(1)) - 1])     # an argument of the call
                continue
            bargs.append((T('fld', b, '$%d' % i), True, t))
        ft = fty[0]
        if ft.noref().k == 'rec':
            return self.call_target(I, fr, st, env, sid, None, bargs, dest, ft, f)
        return self.call_target(I, fr, st, env, sid, I.read(st, f), bargs, dest)

    # ---------------------------------------------------------------- constructors
    def construct(self, I, fr, st, env, sid, n, rec, dest, args):
        q = norm_q(n.get('q', ''))
        c = q.rsplit('::', 1)[0]
        ids = n['args']
        ty = fr.tu.types[n['t']] if n.get('t') is not None else None
        if rec is None or rec.in_ or rec.d.get('lambda'):
            return None
        ck = n.get('ck')
        if n.get('t') is None:
            class _T(object):
                k = 'rec'
                d = {}
            ty = _T()
            ty.rec = rec
            ty.noref = lambda: ty
            ty.s = rec.s
        if ck in ('copy', 'move') and args and isinstance(args[0], Term):
            return self.lib_copy(I, fr, st, env, sid, args[0], dest, ty, ck)
        h = getattr(self, 'k_' + c.replace('std::', '').replace('::', '_').replace('filesystem_', ''), None)
        if h is None:
            return None
        I.drop(st, dest)
        r = h(I, fr, st, env, sid, n, rec, dest, args, ids)
        return dest if r is None else r

    def k_basic_string(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        args = [(a, i) for a, i in zip(args, ids) if 'allocator' not in cls(self.node_ty(fr, i)) and
                not self.node_ty(fr, i).s.endswith('path::format')]
        if not args:
            st.mem[dest] = T('str', '')
            return None
        t0 = self.node_ty(fr, args[0][1]).noref()
        if len(args) == 1:
            if t0.k in ('int',):
                st.mem[dest] = fresh('str')
                return None
            if cls(t0) == 'std::initializer_list':
                st.mem[dest] = fresh('str')
                return None
            v = self.strval(I, fr, st, self.sv_ptr(I, fr, st, args[0]), t0)
            st.mem[dest] = v
            return None
        vals = [self.sval(I, fr, st, a, i) for a, i in args]
        if cls(t0) in ('*', 'arr') and self.node_ty(fr, args[1][1]).k == 'int':
            st.mem[dest] = self.text(I, st, vals[0], vals[1])
            return None
        if t0.k == 'int':
            st.mem[dest] = T('rep', vals[0], vals[1])
            st.mem[T('fld', dest, '$n')] = vals[0]
            return None
        if cls(t0) in ('*', 'arr', 'std::__normal_iterator') and len(vals) == 2:
            st.mem[dest] = self.text(I, st, vals[0], sub(vals[1], vals[0]))
            return None
        if cls(t0) in STRING + VIEW and len(vals) == 3:
            if cls(t0) in STRING:
                p, l = self.s_data(args[0][0]), self.s_size(I, st, args[0][0])
            else:
                p, l = self.view(I, st, args[0][0])
            m = self.minlen(I, st, vals[2], sub(l, vals[1]))
            st.mem[dest] = self.text(I, st, add(p, vals[1]), m)
            return None
        st.mem[dest] = fresh('str')
        st.opaque = st.opaque + (('std::string ctor', fr.where(sid)),)
        return None

    def sv_ptr(self, I, fr, st, ai):
        a, i = ai
        n = fr.fn.x[i]
        t = fr.tu.types[n['t']]
        if t.k == 'ptr' and n.get('vk') in ('l', 'x'):
            return I.read(st, a, t)
        return a
    k_path = k_basic_string

    def k_basic_string_view(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        if not args:
            self.set_view(I, st, dest, 0, 0)
            return
        t0 = self.node_ty(fr, ids[0]).noref()
        p = self.sv_ptr(I, fr, st, (args[0], ids[0]))
        if len(args) == 2:
            l = self.sval(I, fr, st, args[1], ids[1])
            self.set_view(I, st, dest, p, l)
            return
        if cls(t0) in STRING:
            self.set_view(I, st, dest, self.s_data(args[0]), self.s_size(I, st, args[0]))
            return
        self.set_view(I, st, dest, p, self.cstrlen(I, st, p))

    def minlen(self, I, st, a, b):
        d = st.decide(mk_le(a, b))
        if d is True:
            return a
        if d is False:
            return b
        if isinstance(a, int) and a >= NPOS - 1:
            return b
        t = T('min', a, b)
        t.lo = 0
        return t

    def k_unique_ptr(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        if not args:
            st.mem[dest] = 0
            return
        t0 = self.node_ty(fr, ids[0]).noref()
        if cls(t0) == 'std::unique_ptr':
            st.mem[dest] = I.read(st, args[0])
            d = st.mem.get(T('fld', args[0], '$del'))
            if d is not None:
                st.mem[T('fld', dest, '$del')] = d
            st.mem[args[0]] = 0
            return
        st.mem[dest] = self.sval(I, fr, st, args[0], ids[0])
        if len(args) > 1:
            t1 = self.node_ty(fr, ids[1]).noref()
            if t1.k == 'ptr' or t1.k == 'fn':
                st.mem[T('fld', dest, '$del')] = self.sval(I, fr, st, args[1], ids[1])
            elif t1.k == 'rec':
                return [(s, dest) for s, _ in self.copy_move(I, fr, st, env, sid, args[1], T('fld', dest, '$delobj'),
                                                              t1, 'copy')]

    def k_shared_ptr(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        if not args:
            st.mem[dest] = 0
            return
        t0 = self.node_ty(fr, ids[0]).noref()
        c0 = cls(t0)
        if c0 in ('std::shared_ptr', 'std::weak_ptr'):
            v = I.read(st, args[0])
            st.mem[dest] = v
            if c0 == 'std::shared_ptr' and fr.fn.x[ids[0]].get('vk') != 'l':
                st.mem[args[0]] = 0
            else:
                self.rc_add(st, v, 1)
            if len(args) == 2:   # aliasing constructor
                st.opaque = st.opaque + (('aliasing shared_ptr', fr.where(sid)),)
            return
        if c0 == 'std::unique_ptr':
            v = I.read(st, args[0])
            st.mem[dest] = v
            st.mem[args[0]] = 0
            if isinstance(v, Term):
                st.mem[T('rc', v)] = 1
            return
        v = self.sval(I, fr, st, args[0], ids[0])
        st.mem[dest] = v
        if isinstance(v, Term):
            st.mem[T('rc', v)] = 1

    def k_weak_ptr(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        if not args:
            st.mem[dest] = 0
            return
        st.mem[dest] = I.read(st, args[0])
        if cls(self.node_ty(fr, ids[0])) == 'std::weak_ptr' and fr.fn.x[ids[0]].get('vk') != 'l':
            st.mem[args[0]] = 0

    def k_function(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        if not args:
            st.mem[dest] = 0
            return
        return self.make_target(I, fr, st, env, sid, dest, args[0], ids[0])

    def k_pair(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        if not args:
            for i, nm in enumerate(rec.parts()):
                st.mem[T('fld', dest, nm)] = 0
            return
        if len(args) == len(rec.parts()):
            outs = [(st, dest)]
            for i, nm in enumerate(rec.parts()):
                ft = rec.targ(i)
                a, oid = args[i], ids[i]
                nxt = []
                for s, _ in outs:
                    d2 = T('fld', dest, nm)
                    if ft is not None and ft.k == 'rec':
                        r = self.construct_at(I, fr, s, env, sid, d2, ft, [a], [oid])
                        if r is None:
                            s.mem[d2] = I.read(s, a)
                            r = [(s, d2)]
                        nxt += r
                    elif ft is not None and ft.k in ('lref', 'rref'):
                        s.mem[d2] = a
                        nxt.append((s, d2))
                    else:
                        s.mem[d2] = self.sval(I, fr, s, a, oid)
                        nxt.append((s, d2))
                outs = nxt
            return [(s, dest) for s, _ in outs]
        st.opaque = st.opaque + (('std::pair ctor', fr.where(sid)),)

    def k_optional(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        H = T('fld', dest, '$has')
        if not args:
            st.mem[H] = 0
            return
        t0 = self.node_ty(fr, ids[0]).noref()
        if cls(t0) in ('std::nullopt_t',):
            st.mem[H] = 0
            return
        if cls(t0) == 'std::optional':
            st.mem[H] = self.has(I, st, args[0])
            st.mem[T('fld', dest, '$v')] = I.read(st, T('fld', args[0], '$v'))
            return
        st.mem[H] = 1
        ft = rec.targ(0)
        if ft is not None and ft.k == 'rec':
            r = self.construct_at(I, fr, st, env, sid, T('fld', dest, '$v'), ft, args, ids)
            if r is not None:
                return [(s, dest) for s, _ in r]
        v = self.sval(I, fr, st, args[0], ids[0])
        if ft is not None and t0.k in ('int', 'float', 'enum', 'bool'):
            if t0.k in ('int', 'enum') and ft.k == 'int':
                v = I.intcast(st, v, t0, ft)
            elif t0.k == 'float' and ft.k == 'int':
                v = I.f2i(fr, st, v, ft, sid)
        st.mem[T('fld', dest, '$v')] = v

    def k_mutex(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        st.mem[dest] = 0

    def k_condition_variable(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        st.mem[dest] = 0
    k_allocator = k_nullopt_t = k_condition_variable
    k_greater = k_less = k_default_delete = k_condition_variable

    def k_lock_guard(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        st.mem[dest] = args[0]
        if len(args) < 2:
            return [(s, dest) for s in self.do_lock(I, fr, st, sid, args[:1])]

    def k_scoped_lock(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        st.mem[dest] = args[0] if len(args) == 1 else T('mutexes', *args)
        return [(s, dest) for s in self.do_lock(I, fr, st, sid, args)]

    def k_unique_lock(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        if not args:
            st.mem[dest] = 0
            st.mem[T('fld', dest, '$own')] = 0
            return
        st.mem[dest] = args[0]
        own = 1
        if len(args) > 1:
            tag = cls(self.node_ty(fr, ids[1]))
            if tag == 'std::defer_lock_t':
                own = 0
            elif tag == 'std::adopt_lock_t':
                st.mem[T('fld', dest, '$own')] = 1
                return
            else:
                st.opaque = st.opaque + (('unique_lock ctor', fr.where(sid)),)
        st.mem[T('fld', dest, '$own')] = own
        if own:
            return [(s, dest) for s in self.do_lock(I, fr, st, sid, args[:1])]

    def k_thread(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        if not args:
            st.mem[dest] = 0
            return
        vals = []
        for a, i in zip(args, ids):
            vals.append((a, self.is_addr(fr, i), self.arg_ty(fr, i)))
        f = getattr(I.mon, 'sched_start', None)
        if f is not None:
            return [(s, dest) for s in f(I, fr, st, sid, dest, vals)]
        st.mem[dest] = fresh('thread')
        I.mon.ev(I, fr, st, 'thread_start', sid, addr=dest, args=vals, value=st.mem[dest])

    def k_atomic(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        st.mem[dest] = self.sval(I, fr, st, args[0], ids[0]) if args else 0

    def k_duration(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        if not args:
            st.mem[dest] = T('undef', dest)
            return
        v = self.sval(I, fr, st, args[0], ids[0])
        t0 = self.node_ty(fr, ids[0]).noref()
        if cls(t0) == 'std::chrono::duration':
            f = self.dur_factor(t0)
            g = self.dur_factor_rec(rec)
            if f and g and f % g == 0:
                v = mul_const(v, f // g)
            elif f != g:
                v = T('durcast', v, f or 0, g or 0)
        st.mem[dest] = v
    k_chrono_duration = k_duration
    k_time_point = k_chrono_time_point = k_duration

    def dur_factor(self, ty):
        return self.dur_factor_rec(ty.noref().rec)

    def dur_factor_rec(self, rec):
        import re
        m = re.search(r'ratio<(\d+)(?:L)?(?:, (\d+)(?:L)?)?>', rec.s)
        if not m:
            return 10 ** 9
        num, den = int(m.group(1)), int(m.group(2) or 1)
        return num * 10 ** 9 // den

    def k_vector(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        args = [(a, i) for a, i in zip(args, ids) if 'allocator' not in cls(self.node_ty(fr, i))]
        st.mem[dest] = T('empty', rec.q)
        st.mem[T('fld', dest, '$n')] = 0
        if args:
            t0 = self.node_ty(fr, args[0][1]).noref()
            if t0.k == 'int' and len(args) == 1:
                st.mem[T('fld', dest, '$n')] = self.sval(I, fr, st, args[0][0], args[0][1])
                st.mem[dest] = T('zeros', rec.q)
                return
            vals = tuple(self.sval(I, fr, st, a, i) for a, i in args)
            st.mem[dest] = T('vecof', *[v for v in vals])
            if len(vals) == 2 and cls(t0) in ('*', 'std::__normal_iterator', 'std::reverse_iterator'):
                st.mem[T('fld', dest, '$n')] = sub(vals[1], vals[0])
            else:
                st.mem[T('fld', dest, '$n')] = fresh('n')
                st.opaque = st.opaque + (('vector ctor', fr.where(sid)),)
    k_queue = k_map = k_unordered_map = k_deque = k_set = k_vector

    def k_array(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        pass

    def k_initializer_list(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        st.mem[dest] = T('il', 0, 0)

    def k_error_code(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        st.mem[dest] = 0

    def k_random_device(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        st.mem[dest] = T('rnddev', dest)

    def k_uniform_int_distribution(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        vals = tuple(self.sval(I, fr, st, a, i) for a, i in zip(args, ids))
        st.mem[dest] = T('uid', rec.s, vals)

    def k__Rb_tree_const_iterator(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        st.mem[dest] = I.read(st, args[0]) if args else 0
    k__Rb_tree_iterator = k__Node_iterator = k__Node_const_iterator = k__Rb_tree_const_iterator
    k___normal_iterator = k__Rb_tree_const_iterator

    def k_reverse_iterator(self, I, fr, st, env, sid, n, rec, dest, args, ids):
        st.mem[dest] = self.sval(I, fr, st, args[0], ids[0]) if args else 0

    # ---------------------------------------------------------------- calls
    def call(self, I, fr, st, env, sid, n, q, obj, ops, argn, dest, rt):
        if n.get('in'):
            return None
        q = norm_q(q)
        if q.startswith('vf_') or q.startswith('vf::'):
            return None
        oc = None
        if obj is not None and 'rec' in n:
            oc = norm_q(fr.tu.recs[n['rec']].q)
        name = q.rsplit('::', 1)[-1]
        if '::operator ' in q:
            name = 'operator ' + q.split('::operator ', 1)[1]
        self.seen[q] = self.seen.get(q, 0) + 1
        if obj is not None and isinstance(obj, Term):
            obj = I.deref(obj)
        if oc is not None:
            I.mon.ev(I, fr, st, 'use', sid, addr=obj, name=name, cls=oc)
            h = self.METH.get(oc)
            if h is not None:
                r = h(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc)
                if r is not None:
                    return r
        else:
            h = self.FREE.get(q)
            if h is not None:
                r = h(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt)
                if r is not None:
                    return r
            if name.startswith('operator'):
                r = self.operators(I, fr, st, env, sid, n, name[8:], ops, argn, dest, rt)
                if r is not None:
                    return r
        if not n.get('noret') and q not in PURE and not q.startswith('std::numeric_limits'):
            if len(st.opaque) < 4:
                st.opaque = st.opaque + ((q, fr.where(sid)),)
        return None

    def ret_rec(self, st, dest, v):
        st.mem[dest] = v
        return [(st, dest)]

    # -- operators on library types
    def operators(self, I, fr, st, env, sid, n, op, ops, argn, dest, rt):
        tys = [self.node_ty(fr, i).noref() for i in argn]
        cs = [norm_q(cls(t)) for t in tys]
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if len(ops) != 2:
                return None
            a, b = ops
            strs = STRING + VIEW
            if cs[0] in strs or cs[1] in strs:
                x = self.strval(I, fr, st, self.sv_ptr(I, fr, st, (a, argn[0])), tys[0])
                y = self.strval(I, fr, st, self.sv_ptr(I, fr, st, (b, argn[1])), tys[1])
                if op in ('==', '!='):
                    r = self.veq(st, x, y)
                    return r if op == '==' else mk_not(r)
                return self.order(op, x, y)
            if cs[0] in SMART or cs[1] in SMART or cs[0] == 'std::function' or cs[1] == 'std::function':
                x = 0 if tys[0].k == 'nullptr' else I.read(st, a)
                y = 0 if tys[1].k == 'nullptr' else I.read(st, b)
                if op == '==':
                    return self.ptreq(st, x, y)
                if op == '!=':
                    return mk_not(self.ptreq(st, x, y))
                return self.cmp(op, x, y)
            if 'std::chrono::duration' in cs or 'std::chrono::time_point' in cs:
                x, y = I.read(st, a), I.read(st, b)
                if cs == ['std::chrono::duration'] * 2:
                    f, g = self.dur_factor(tys[0]), self.dur_factor(tys[1])
                    if f != g:
                        x, y = mul_const(x, f), mul_const(y, g)
                return self.cmp(op, x, y)
            if cs[0] == cs[1] and cs[0] in ('std::pair', 'std::tuple') and \
                    len(tys[0].rec.parts()) == len(tys[1].rec.parts()):
                return self.pair_cmp(I, fr, st, env, sid, op, a, b, tys[0], tys[1])
            if 'iterator' in cs[0] or 'iterator' in cs[1] or cs[0].endswith('_Bit_iterator'):
                x, y = I.read(st, a), I.read(st, b)
                r = self.iter_eq(I, st, x, y)
                if r is not None and op in ('==', '!='):
                    return r if op == '==' else mk_not(r)
                return self.cmp(op, x, y)
            if cs[0] == 'std::optional' or cs[1] == 'std::optional':
                return self.opt_cmp(I, fr, st, env, sid, op, a, b, tys, argn)
            if cs[0] == 'std::thread::id' and cs[1] == 'std::thread::id':
                return self.cmp(op, I.read(st, a), I.read(st, b))
            if cs[0] in VECTOR + MAP and cs[1] == cs[0]:
                x, y = self.contval(I, st, a), self.contval(I, st, b)
                I.mon.ev(I, fr, st, 'container_cmp', sid, op=op, a=a, b=b, ty=tys[0])
                if op in ('==', '!='):
                    r = self.veq(st, x, y)
                    return r if op == '==' else mk_not(r)
                return self.order(op, x, y)
            if tys[0].k in ('int', 'ptr', 'enum', 'bool', 'nullptr') and tys[1].k in ('int', 'ptr', 'enum', 'bool', 'nullptr'):
                return self.cmp(op, self.sval(I, fr, st, a, argn[0]), self.sval(I, fr, st, b, argn[1]))
            return None
        if op in ('+', '-') and len(ops) == 2:
            if cs == ['std::chrono::duration'] * 2 or 'std::chrono::time_point' in cs:
                x, y = I.read(st, ops[0]), I.read(st, ops[1])
                return self.ret_rec(st, dest, add(x, y) if op == '+' else sub(x, y))
            if 'iterator' in cs[0]:
                x, y = I.read(st, ops[0]), self.sval(I, fr, st, ops[1], argn[1])
                r = add(x, y) if op == '+' else sub(x, y)
                if rt.k == 'rec':
                    return self.ret_rec(st, dest, r)
                return r
            if op == '+' and (cs[0] in STRING or cs[1] in STRING):
                vs = [self.strval(I, fr, st, self.sv_ptr(I, fr, st, (a, i)), t) for a, i, t in zip(ops, argn, tys)]
                return self.str_concat(I, st, dest, vs)
        if op in ('*', '/') and 'std::chrono::duration' in cs:
            x, y = (self.sval(I, fr, st, a, i) for a, i in zip(ops, argn))
            if op == '*':
                r = mul_const(y, x) if isinstance(x, int) else (mul_const(x, y) if isinstance(y, int) else T('mul', x, y))
            else:
                r = T('/', x, y, 64)
            if rt.k == 'rec':
                return self.ret_rec(st, dest, r)
            return r
        if op == '/' and cs[0] in STRING:
            return None
        return None

    def str_concat(self, I, st, dest, vs):
        I.drop(st, dest)
        v = self.concat(st, vs)
        st.mem[dest] = v
        st.mem[T('fld', dest, '$n')] = self.size_of(v)
        return [(st, dest)]

    def cmp(self, op, x, y):
        return {'==': mk_eq, '!=': mk_ne, '<': mk_lt, '<=': mk_le, '>': lambda a, b: mk_lt(b, a),
                '>=': lambda a, b: mk_le(b, a)}[op](x, y)

    def ptreq(self, st, x, y):
        if isinstance(y, int) and y == 0 and isinstance(x, Term) and x.op in ('cl', 'fnptr', 'memfn', 'h'):
            return 0
        if isinstance(x, int) and x == 0 and isinstance(y, Term) and y.op in ('cl', 'fnptr', 'memfn', 'h'):
            return 0
        return mk_eq(x, y)

    def order(self, op, x, y):
        if op == '>':
            op, x, y = '<', y, x
        elif op == '>=':
            op, x, y = '<=', y, x
        if op == '<=':
            return mk_not(self.order('<', y, x))
        if x is y:
            return 0
        if isinstance(x, Term) and isinstance(y, Term) and x.op == 'str' and y.op == 'str':
            return int(bytes.fromhex(x.a[0]) < bytes.fromhex(y.a[0]))
        t = T('ltv', x, y)
        t.isb = True
        return t

    def three_way(self, st, x, y):
        """-1, 0 or 1 as the text x is before, equal to or after the text y"""
        out = []
        lt, gt = to_bool(self.order('<', x, y)), to_bool(self.order('<', y, x))
        for s, e in self.fork(st, to_bool(self.veq(st, x, y))):
            if e:
                if s.assume(lt, False) and s.assume(gt, False):
                    out.append((s, 0))
                continue
            for s2, b in self.fork(s, lt):
                if s2.assume(gt, not b):
                    out.append((s2, -1 if b else 1))
        return out

    def f_strcmp(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        v = []
        for o, a in zip(ops, argn):
            p = self.sval(I, fr, st, o, a)
            v.append(self.text(I, st, p, self.cstrlen(I, st, p)))
        if all(isinstance(t, Term) and t.op == 'str' for t in v):
            return self.three_way(st, *v)
        return None

    def contval(self, I, st, a):
        return T('cont', I.read(st, a), tuple(sorted(
            ((k, v) for k, v in st.mem.items() if k is not a and _under(k, a)), key=lambda p: p[0].id)))

    def pair_cmp(self, I, fr, st, env, sid, op, a, b, ta, tb):
        def get(s, x, nm, t):
            ad = T('fld', x, nm)
            if t is not None and t.k in ('lref', 'rref'):
                ad = I.read(s, ad)
            return I.read(s, ad)
        if op == '>':
            op, a, b, ta, tb = '<', b, a, tb, ta
        elif op == '>=':
            op, a, b, ta, tb = '<=', b, a, tb, ta
        xs = [get(st, a, nm, ta.rec.targ(i)) for i, nm in enumerate(ta.rec.parts())]
        ys = [get(st, b, nm, tb.rec.targ(i)) for i, nm in enumerate(tb.rec.parts())]
        neg_ = op in ('<=', '!=')
        if op == '<=':
            xs, ys = ys, xs
        out, work = [], [st]
        for i, (x, y) in enumerate(zip(xs, ys)):
            nxt = []
            for s in work:
                if op in ('==', '!='):
                    for s2, e in self.fork(s, mk_eq(x, y)):
                        if e:
                            nxt.append(s2)
                        else:
                            out.append((s2, int(neg_)))
                    continue
                for s2, lt in self.fork(s, mk_lt(x, y)):
                    if lt:
                        out.append((s2, int(not neg_)))
                    elif i == len(xs) - 1:
                        out.append((s2, int(neg_)))
                    else:
                        for s3, gt in self.fork(s2, mk_lt(y, x)):
                            if gt:
                                out.append((s3, int(neg_)))
                            else:
                                nxt.append(s3)
            work = nxt
        return out + [(s, int(not neg_ if op in ('==', '!=') else neg_)) for s in work]

    def iter_eq(self, I, st, x, y):
        if isinstance(y, Term) and y.op == 'mit' and not (isinstance(x, Term) and x.op == 'mit'):
            x, y = y, x
        if isinstance(x, Term) and x.op == 'mit' and isinstance(y, Term) and y.op == 'mend':
            return mk_not(x.a[3]) if isinstance(x.a[3], Term) else 1 - x.a[3]
        if isinstance(y, Term) and y.op == 'mend' or isinstance(x, Term) and x.op == 'mend':
            if isinstance(x, Term) and x.op == 'mend':
                x, y = y, x
            if x is y:
                return 1
            a = y.a[0]
            c, ts = lin_parts(x)
            for t, k in ts:
                if t.op == 'mbeg' and t.a[0] is a:
                    i = sub(x, t)
                    return mk_le(self.c_size(I, st, a), i)
        return None

    def opt_cmp(self, I, fr, st, env, sid, op, a, b, tys, argn):
        if op not in ('==', '!='):
            return None
        def hv(x, t, i):
            if cls(t) == 'std::optional':
                return self.has(I, st, x), I.read(st, T('fld', x, '$v'))
            if cls(t) == 'std::nullopt_t':
                return 0, 0
            return 1, self.sval(I, fr, st, x, i)
        h1, v1 = hv(a, tys[0], argn[0])
        h2, v2 = hv(b, tys[1], argn[1])
        out = []
        for s, x in self.fork(st, to_bool(h1)):
            for s2, y in self.fork(s, to_bool(h2)):
                if x != y:
                    out.append((s2, int(op == '!=')))
                elif not x:
                    out.append((s2, int(op == '==')))
                else:
                    e = mk_eq(v1, v2)
                    out.append((s2, e if op == '==' else mk_not(e)))
        return out

    # -- containers
    def c_size(self, I, st, a):
        n = st.mem.get(T('fld', a, '$n'))
        if n is None:
            n = self.size_of(I.read(st, a))
        return n

    def is_map(self, oc):
        return oc in MAP

    def keyval(self, I, fr, st, a, sid):
        ty = self.node_ty(fr, sid).noref()
        c = norm_q(cls(ty))
        if c in STRING + VIEW or c == '*' or c == 'arr':
            return self.strval(I, fr, st, self.sv_ptr(I, fr, st, (a, sid)), ty)
        return self.sval(I, fr, st, a, sid)

    def has_key(self, I, st, a, k):
        m = I.read(st, a)
        return self.has_in(I, st, m, k)

    def known_keys(self, I, st, a):
        """the keys of a map with completely known content, in order when they are constants"""
        m, ops = I.read(st, a), []
        while isinstance(m, Term) and m.op in ('ins', 'del'):
            ops.append((m.op, m.a[1]))
            m = m.a[0]
        if not (isinstance(m, Term) and m.op == 'empty'):
            return None
        ks = []
        for op, k in reversed(ops):
            if op == 'ins':
                ks.append(k)
            elif k in ks:
                ks.remove(k)
            else:
                return None
        if all(isinstance(k, Term) and k.op == 'str' for k in ks):
            ks.sort(key=lambda t: bytes.fromhex(t.a[0]))
        elif all(isinstance(k, int) for k in ks):
            ks.sort()
        return ks

    def locate(self, I, st, a, k):
        """[(state, canonical key, is it there)]: splits on equality with the keys known to be (or not be) there"""
        work, out = [(st, I.read(st, a))], []
        while work:
            s, m = work.pop()
            if isinstance(m, Term) and m.op == 'empty':
                out.append((s, k, 0))
                continue
            if isinstance(m, Term) and m.op in ('ins', 'del'):
                e = self.veq(s, m.a[1], k)
                for s2, b in self.fork(s, to_bool(e)):
                    if b:
                        out.append((s2, m.a[1], 1 if m.op == 'ins' else 0))
                    else:
                        work.append((s2, m.a[0]))
                continue
            t = T('has', m, k)
            t.isb = True
            out.append((s, k, t))
        return out

    def has_in(self, I, st, m, k):
        while isinstance(m, Term):
            if m.op == 'empty':
                return 0
            if m.op in ('ins', 'del'):
                e = self.veq(st, m.a[1], k)
                d = st.decide(e) if isinstance(e, Term) else bool(e)
                if d is True:
                    return 1 if m.op == 'ins' else 0
                if d is False:
                    m = m.a[0]
                    continue
                break
            break
        t = T('has', m, k)
        t.isb = True
        return t

    def m_string(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        if name in ('size', 'length'):
            return self.s_size(I, st, obj)
        if name == 'empty':
            return mk_eq(self.s_size(I, st, obj), 0)
        if name in ('data', 'c_str'):
            return self.s_data(obj)
        if name in ('begin', 'cbegin'):
            return self.ret_rec(st, dest, self.s_data(obj))
        if name in ('end', 'cend'):
            return self.ret_rec(st, dest, add(self.s_data(obj), self.s_size(I, st, obj)))
        if name in ('front', 'back', 'operator[]', 'at'):
            i = 0 if name == 'front' else (sub(self.s_size(I, st, obj), 1) if name == 'back' else
                                          self.sval(I, fr, st, ops[0], argn[0]))
            return T('el', T('sdata', obj), i)
        if name in ('native', 'string'):
            if rt.k == 'rec':
                return self.lib_copy(I, fr, st, env, sid, obj, dest, rt, 'copy')
            return obj
        if name.startswith('operator ') and 'string_view' in name:
            return [(st, self.set_view(I, st, dest, self.s_data(obj), self.s_size(I, st, obj)))]
        if name in ('resize', '__resize_default_init', 'resize_and_overwrite'):
            nn = self.sval(I, fr, st, ops[0], argn[0])
            old = I.read(st, obj)
            I.mon.ev(I, fr, st, 'str_resize', sid, addr=obj, old=self.s_size(I, st, obj), new=nn)
            on = self.s_size(I, st, obj)
            fill = self.sval(I, fr, st, ops[1], argn[1]) if len(ops) > 1 and name == 'resize' else 0
            if st.decide(mk_le(on, nn)) is True:
                st.mem[obj] = self.concat(st, [old, T('rep', sub(nn, on), fill)])
                st.mem[T('fld', obj, '$n')] = nn
                return 0
            out = []
            s2 = st.copy()
            if st.assume(mk_le(nn, on)):
                st.mem[obj] = self.slice(st, old, 0, nn)
                st.mem[T('fld', obj, '$n')] = nn
                out.append((st, 0))
            if s2.assume(mk_lt(on, nn)):
                s2.mem[obj] = self.concat(s2, [old, T('rep', sub(nn, on), fill)])
                s2.mem[T('fld', obj, '$n')] = nn
                out.append((s2, 0))
            return out
        if name in ('reserve', 'shrink_to_fit'):
            return 0
        if name == 'clear':
            I.drop(st, obj)
            st.mem[obj] = T('str', '')
            return 0
        if name in ('operator=', 'assign') and len(ops) == 1:
            ty = self.node_ty(fr, argn[0]).noref()
            if cls(ty) in STRING:
                if ops[0] is obj:
                    return obj
                vk = fr.fn.x[argn[0]].get('vk')
                I.mon.ev(I, fr, st, 'assign', sid, addr=obj, src=ops[0])
                self.lib_copy(I, fr, st, env, sid, ops[0], obj, ty, 'copy' if vk == 'l' or ty.d.get('const') else 'move')
                return obj
            v = self.strval(I, fr, st, self.sv_ptr(I, fr, st, (ops[0], argn[0])), ty)
            I.drop(st, obj)
            st.mem[obj] = v
            return obj
        if name in ('append', 'operator+=', 'push_back', 'assign', 'operator=', 'insert', 'erase', 'replace', 'pop_back') \
                and 'path' not in oc:
            r = self.string_edit(I, fr, st, sid, name, obj, ops, argn, dest, rt)
            if r is not None:
                return r
        if name in ('append', 'operator+=', 'concat', 'operator/=') and 'path' in oc and len(ops) == 1:
            old = self.tnorm(st, I.read(st, obj))
            v = self.strval(I, fr, st, self.sv_ptr(I, fr, st, (ops[0], argn[0])), self.node_ty(fr, argn[0]).noref())
            if name in ('concat', 'operator+='):
                self.str_concat(I, st, obj, [old, v])
                return obj
        if name == 'copy' and len(ops) >= 2:
            a = [self.sval(I, fr, st, o, i) for o, i in zip(ops, argn)]
            off = a[2] if len(a) > 2 else 0
            m = self.minlen(I, st, a[1], sub(self.s_size(I, st, obj), off))
            self.put_text(I, fr, st, sid, a[0], self.get_text(I, fr, st, sid, add(self.s_data(obj), off), m), m)
            return m
        if name == '~basic_string':
            ty = fr.tu.types[0]
            r = self.explicit_dtor(I, fr, st, sid, n, obj)
            return r
        if name == 'compare' and len(ops) == 1:
            v = I.read(st, obj)
            w = self.strval(I, fr, st, self.sv_ptr(I, fr, st, (ops[0], argn[0])), self.node_ty(fr, argn[0]).noref())
            return self.three_way(st, v, w)
        if name in ('find', 'compare', 'rfind', 'find_first_of'):
            v = I.read(st, obj)
            if name in ('find', 'rfind'):
                return self.find(I, fr, st, name, v, self.s_data(obj), self.s_size(I, st, obj), ops, argn)
        if name == 'substr':
            p, l = self.s_data(obj), self.s_size(I, st, obj)
            a = [self.sval(I, fr, st, o, i) for o, i in zip(ops, argn)]
            off = a[0] if a else 0
            m = self.minlen(I, st, a[1] if len(a) > 1 else NPOS, sub(l, off))
            st.mem[dest] = self.text(I, st, add(p, off), m)
            return [(st, dest)]
        return None

    def string_edit(self, I, fr, st, sid, name, obj, ops, argn, dest, rt):
        """std::string modifiers: the range [at, at+cnt) is replaced by v"""
        old = I.read(st, obj)
        n = self.s_size(I, st, obj)
        tys = [self.node_ty(fr, i).noref() for i in argn]
        at, cnt, k = n, 0, 0
        data = self.s_data(obj)

        def num(i):
            return self.sval(I, fr, st, ops[i], argn[i])

        def pos(i):
            """a position argument: index or iterator"""
            v = num(i)
            return v if tys[i].k == 'int' else sub(v, data)
        ret = obj
        if name in ('assign', 'operator='):
            at, cnt = 0, n
        elif name == 'pop_back':
            at, cnt = sub(n, 1), 1
        elif name == 'insert':
            at, k = pos(0), 1
        elif name in ('erase', 'replace'):
            two_its = len(ops) > 1 and tys[0].k != 'int' and tys[1].k != 'int'
            at = pos(0) if ops else 0
            if two_its:
                cnt = sub(pos(1), at)
            elif tys and tys[0].k != 'int' and len(ops) == 1:
                cnt = 1
            else:
                cnt = self.minlen(I, st, num(1) if len(ops) > 1 else NPOS, sub(n, at))
            k = 2
            if name == 'erase':
                k = len(ops)
        rest = list(range(k, len(ops)))
        if not rest:
            v = T('str', '')
        elif len(rest) == 1 and tys[rest[0]].k == 'int':
            c = num(rest[0])
            v = T('str', '%02x' % (c & 255)) if isinstance(c, int) else T('ch', c)
        elif len(rest) == 1 and cls(tys[rest[0]]) == 'std::initializer_list':
            return None
        elif len(rest) == 1:
            v = self.strval(I, fr, st, self.sv_ptr(I, fr, st, (ops[rest[0]], argn[rest[0]])), tys[rest[0]])
        elif len(rest) == 2 and tys[rest[0]].k == 'int':
            c = num(rest[1])
            v = T('rep', num(rest[0]), c) if num(rest[0]) != 1 else (
                T('str', '%02x' % (c & 255)) if isinstance(c, int) else T('ch', c))
        elif len(rest) == 2 and tys[rest[0]].k == 'ptr' and tys[rest[1]].k == 'int':
            v = self.get_text(I, fr, st, sid, num(rest[0]), num(rest[1]))
        elif len(rest) == 2 and cls(tys[rest[0]]) == cls(tys[rest[1]]) and tys[rest[0]].k != 'int':
            p, e = num(rest[0]), num(rest[1])
            v = self.get_text(I, fr, st, sid, p, sub(e, p))
        elif len(rest) in (2, 3) and cls(tys[rest[0]]) in STRING + VIEW and tys[rest[1]].k == 'int':
            v0 = self.strval(I, fr, st, ops[rest[0]], tys[rest[0]])
            off = num(rest[1])
            m = self.minlen(I, st, num(rest[2]) if len(rest) > 2 else NPOS, sub(self.size_of(v0), off))
            v = self.slice(st, v0, off, m)
        else:
            return None
        nv = self.splice(st, old, at, cnt, v, n)
        I.drop(st, obj)
        st.mem[obj] = nv
        st.mem[T('fld', obj, '$n')] = add(sub(n, cnt), self.size_of(v))
        if name in ('push_back', 'pop_back') or rt.k == 'void':
            return 0
        if rt.k == 'rec':
            return self.ret_rec(st, dest, add(data, at))
        return ret

    def explicit_dtor(self, I, fr, st, sid, n, obj):
        tyi = None
        rec = fr.tu.recs[n['rec']]
        for t in fr.tu.types:
            if t.k == 'rec' and t.rec is rec:
                tyi = t
                break
        o = I.destroy(fr, st, obj, tyi, sid, fr.fn.x[sid]['l'])
        for s, _ in o:
            I.drop(s, obj)
        return [(s, 0) for s, _ in o]

    def find(self, I, fr, st, name, v, p, l, ops, argn):
        needle = None
        ty = self.node_ty(fr, argn[0]).noref()
        if ty.k == 'int':
            needle = self.sval(I, fr, st, ops[0], argn[0])
        else:
            needle = self.strval(I, fr, st, self.sv_ptr(I, fr, st, (ops[0], argn[0])), ty)
            if isinstance(needle, Term) and needle.op == 'str' and len(needle.a[0]) == 2:
                needle = int(needle.a[0], 16)
        pos = self.sval(I, fr, st, ops[1], argn[1]) if len(ops) > 1 else (NPOS if name == 'rfind' else 0)
        tx = self.text(I, st, p, l)
        if isinstance(tx, Term) and tx.op == 'str' and isinstance(pos, int):
            nd = None
            if isinstance(needle, int):
                nd = bytes([needle & 255])
            elif isinstance(needle, Term) and needle.op == 'str':
                nd = bytes.fromhex(needle.a[0])
            if nd is not None:
                b = bytes.fromhex(tx.a[0])
                if name == 'find':
                    r = b.find(nd, pos) if pos <= len(b) else -1
                else:
                    r = b.rfind(nd, 0, min(len(b), pos + len(nd)))
                return NPOS if r < 0 else r
            if chars.ON[0] and isinstance(needle, Term) and pos == 0 and name == 'find':
                return [(s, T('idxof', tx.a[0], needle) if b else NPOS)
                        for s, b in self.fork(st, self.bool_cell(T('among', tx.a[0], needle)))]
        t = T('find' if name == 'find' else name, self.text(I, st, p, l), needle, pos)
        t.lo, t.hi = 0, NPOS
        s2 = st.copy()
        out = []
        if st.assume(mk_eq(t, NPOS)):
            out.append((st, NPOS))
        if s2.assume(mk_ne(t, NPOS)):
            s2.assume(mk_lt(t, l))
            out.append((s2, t))
        return out

    def m_view(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        p, l = self.view(I, st, obj)
        if name in ('size', 'length'):
            return l
        if name == 'empty':
            return mk_eq(l, 0)
        if name == 'data':
            return p
        if name in ('begin', 'cbegin', 'end', 'cend'):
            v = p if 'begin' in name else add(p, l)
            return v if rt.k != 'rec' else self.ret_rec(st, dest, v)
        if name in ('operator[]', 'at', 'front', 'back'):
            i = 0 if name == 'front' else (sub(l, 1) if name == 'back' else self.sval(I, fr, st, ops[0], argn[0]))
            I.mon.ev(I, fr, st, 'sv_index', sid, ptr=p, len=l, index=i)
            return I.deref(add(p, i))
        if name == 'substr':
            a = [self.sval(I, fr, st, o, i) for o, i in zip(ops, argn)]
            off = a[0] if a else 0
            rest = sub(l, off)
            m = self.minlen(I, st, a[1] if len(a) > 1 else NPOS, rest)
            return [(st, self.set_view(I, st, dest, add(p, off), m))]
        if name in ('remove_prefix', 'remove_suffix'):
            k = self.sval(I, fr, st, ops[0], argn[0])
            self.set_view(I, st, obj, add(p, k) if name == 'remove_prefix' else p, sub(l, k))
            return 0
        if name in ('find', 'rfind', 'find_first_of'):
            if name == 'find_first_of':
                t = self.node_ty(fr, argn[0])
                name = 'find' if t.k == 'int' else name
            if name != 'find_first_of':
                return self.find(I, fr, st, name, None, p, l, ops, argn)
        if name == 'operator=':
            p2, l2 = self.view(I, st, ops[0])
            self.set_view(I, st, obj, p2, l2)
            return obj
        if name == 'copy':
            d, cnt = self.sval(I, fr, st, ops[0], argn[0]), self.sval(I, fr, st, ops[1], argn[1])
            off = self.sval(I, fr, st, ops[2], argn[2]) if len(ops) > 2 else 0
            m = self.minlen(I, st, cnt, sub(l, off))
            I.mon.ev(I, fr, st, 'memcpy', sid, dst=d, src=p, n=m)
            self.put_text(I, fr, st, sid, d, self.get_text(I, fr, st, sid, add(p, off), m), m)
            return m
        return None

    def m_vector(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        D = T('data', obj)
        H = T('fld', obj, '$h')
        N = T('fld', obj, '$n')
        size = self.c_size(I, st, obj)
        rec = fr.tu.recs[n['rec']]
        head = st.mem.get(H, 0)
        if oc == 'std::array':
            size = None
        if name in ('size',):
            if size is None:
                import re
                m = re.search(r', (\d+)>$', rec.s)
                return int(m.group(1)) if m else None
            return size
        if name == 'empty':
            return mk_eq(size, 0)
        if name in ('begin', 'cbegin', 'data', 'end', 'cend'):
            if oc == 'std::array':
                import re
                m = re.search(r', (\d+)>$', rec.s)
                size = int(m.group(1)) if m else None
                D = obj
                head = 0
            v = add(T('el0', D), head)
            if 'end' in name:
                v = add(v, size)
            if rt.k == 'rec':
                return self.ret_rec(st, dest, v)
            return v
        if name in ('rbegin', 'crbegin', 'rend', 'crend'):
            v = add(T('el0', D), head)
            if 'begin' in name:
                v = add(v, size)
            return self.ret_rec(st, dest, v)
        if name in ('front', 'top'):
            I.mon.ev(I, fr, st, 'front', sid, cont=obj, size=size)
            return T('el', D, head)
        if name == 'back':
            return T('el', D, sub(add(head, size), 1))
        if name in ('operator[]', 'at'):
            i = self.sval(I, fr, st, ops[0], argn[0])
            I.mon.ev(I, fr, st, 'index', sid, cont=obj, index=i, rec=rec)
            if oc == 'std::array':
                return T('el', obj, i)
            return T('el', D, add(head, i))
        if name in ('emplace_back', 'push_back', 'emplace', 'push'):
            if name == 'emplace' and oc not in ('std::queue', 'std::priority_queue'):
                return None
            et = rec.targ(0)
            ea = T('el', D, add(head, size))
            I.mon.ev(I, fr, st, 'push', sid, cont=obj, ty=et, args=ops, size=size, oc=oc)
            st.mem[N] = add(size, 1)
            st.mem[obj] = T('pushed', I.read(st, obj))if not getattr(I.mon, 'flat_containers', False) else T('cv', obj)
            r = self.construct_at(I, fr, st, env, sid, ea, et, ops, argn)
            if r is None:
                st.opaque = st.opaque + (('element construction', fr.where(sid)),)
                I.havoc(st, ea)
                r = [(st, ea)]
            out = []
            for s, _ in r:
                I.mon.ev(I, fr, s, 'pushed', sid, cont=obj, elem=ea, ty=et, oc=oc)
                if oc == 'std::priority_queue':
                    q = None
                    if isinstance(size, int) and isinstance(head, int) and size < 8:
                        q = self.heap_insert(I, fr, s, env, sid, D, head, size + 1, et, rec.targ(2), None, 'heap')
                    if q is None:
                        s.opaque = s.opaque + (('priority queue', fr.where(sid)),)
                        q = [s]
                    out += [(s2, 0) for s2 in q]
                    continue
                out.append((s, ea if rt.k in ('lref',) else 0))
            return out
        if name in ('insert', 'emplace') and isinstance(size, int) and isinstance(head, int) and oc in (
                'std::vector', 'std::deque') and len(ops) == 2:
            k = sub(sub(self.sval(I, fr, st, ops[0], argn[0]), T('el0', D)), head)
            et = rec.targ(0)
            if not isinstance(k, int) or not 0 <= k <= size:
                return None
            if name == 'insert' and not self.same_class(self.node_ty(fr, argn[1]).noref(), et):
                return None
            I.mon.ev(I, fr, st, 'push', sid, cont=obj, ty=et, args=ops[1:], size=size, oc=oc)
            for i in reversed(range(k, size)):
                I.move_tree(st, T('el', D, head + i), T('el', D, head + i + 1))
            ea = T('el', D, head + k)
            st.mem[N] = size + 1
            st.mem[obj] = T('pushed', I.read(st, obj)) if not getattr(I.mon, 'flat_containers', False) else T('cv', obj)
            r = self.construct_at(I, fr, st, env, sid, ea, et, ops[1:], argn[1:])
            if r is None:
                return None
            out = []
            for s, _ in r:
                I.mon.ev(I, fr, s, 'pushed', sid, cont=obj, elem=ea, ty=et, oc=oc)
                out.append((s, self.ret_rec(s, dest, add(T('el0', D), head + k))))
            return out
        if name == 'erase' and isinstance(size, int) and isinstance(head, int) and oc in ('std::vector', 'std::deque'):
            a = sub(sub(self.sval(I, fr, st, ops[0], argn[0]), T('el0', D)), head)
            z = sub(sub(self.sval(I, fr, st, ops[1], argn[1]), T('el0', D)), head) if len(ops) > 1 else add(a, 1)
            et = rec.targ(0)
            if not isinstance(a, int) or not isinstance(z, int) or not 0 <= a <= z <= size or et is None:
                return None
            work = [st]
            for i in range(a, z):
                ea = T('el', D, head + i)
                nxt = []
                for s in work:
                    I.mon.ev(I, fr, s, 'pop', sid, cont=obj, elem=ea, size=size, name=name)
                    for s2, _ in (I.destroy(fr, s, ea, et, sid, fr.fn.x[sid]['l']) if et.k == 'rec' else [(s, None)]):
                        I.drop(s2, ea)
                        nxt.append(s2)
                work = nxt
            out = []
            for s in work:
                for i in range(z, size):
                    if z != a:
                        I.move_tree(s, T('el', D, head + i), T('el', D, head + i - (z - a)))
                s.mem[N] = size - (z - a)
                s.mem[obj] = T('popped', I.read(s, obj)) if not getattr(I.mon, 'flat_containers', False) else T('cv', obj)
                out.append((s, self.ret_rec(s, dest, add(T('el0', D), head + a))))
            return out
        if name in ('pop_back', 'pop', 'pop_front'):
            et = rec.targ(0)
            i = sub(add(head, size), 1) if name == 'pop_back' else head
            ea = T('el', D, i)
            I.mon.ev(I, fr, st, 'pop', sid, cont=obj, elem=ea, size=size, name=name)
            r = I.destroy(fr, st, ea, et, sid, fr.fn.x[sid]['l']) if et is not None and et.k == 'rec' else [(st, None)]
            out = []
            for s, _ in r:
                I.drop(s, ea)
                s.mem[N] = sub(size, 1)
                if name != 'pop_back':
                    s.mem[H] = add(head, 1)
                s.mem[obj] = T('popped', I.read(s, obj)) if not getattr(I.mon, 'flat_containers', False) else T('cv', obj)
                out.append((s, 0))
            return out
        if name == 'clear':
            I.mon.ev(I, fr, st, 'clear', sid, cont=obj, size=size)
            r = self.destroy_elems(I, fr, st, obj, _ty_of(fr.tu, rec), sid, 0) if _ty_of(fr.tu, rec) else [(st, None)]
            out = []
            for s, _ in r:
                I.mon.ev(I, fr, s, 'elems_dead', sid, addr=T('els', obj))
                I.drop(s, obj)
                s.mem[obj] = T('empty', rec.q)
                s.mem[N] = 0
                out.append((s, 0))
            return out
        if name == 'reserve':
            return 0
        if name == 'swap':
            t = T('t', fr.ctx, ('swap', sid))
            for x, y in ((obj, t), (ops[0], obj), (t, ops[0])):
                v = I.read(st, x)
                nn = self.c_size(I, st, x)
                I.copy_tree(st, x, y)
                st.mem[y] = v
                st.mem[T('fld', y, '$n')] = nn
            I.drop(st, t)
            I.mon.ev(I, fr, st, 'swap', sid, a=obj, b=ops[0])
            return 0
        if name == 'operator=':
            ty = self.node_ty(fr, argn[0]).noref()
            if oc == 'std::array':
                I.copy_obj(st, ops[0], obj, ty) if False else self.array_copy(I, st, ops[0], obj)
                return obj
            if ops[0] is obj:
                return obj
            if cls(ty) in VECTOR + MAP:
                self.cont_assign(I, fr, st, env, sid, ops[0], argn[0], obj, ty)
                return obj
            return None
        if name.startswith('~'):
            return self.explicit_dtor(I, fr, st, sid, n, obj)
        if name == 'resize':
            nn = self.sval(I, fr, st, ops[0], argn[0])
            st.mem[N] = nn
            return 0
        return None

    def same_class(self, a, b):
        if a.k != 'rec' or b is None or b.k != 'rec':
            return a.k == b.k if b is not None else False
        return a.rec is not None and b.rec is not None and a.rec.s == b.rec.s

    def array_copy(self, I, st, src, dst):
        v = I.read(st, src)
        I.copy_tree(st, src, dst)
        st.mem[dst] = v

    def m_map(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        rec = fr.tu.recs[n['rec']]
        N = T('fld', obj, '$n')
        if name == 'size':
            return self.c_size(I, st, obj)
        if name == 'empty':
            return mk_eq(self.c_size(I, st, obj), 0)
        if name in ('end', 'cend'):
            return self.ret_rec(st, dest, T('mend', obj))
        if name in ('begin', 'cbegin'):
            ks = self.known_keys(I, st, obj)
            if ks is not None and len(ks) <= 8:
                if not ks:
                    return self.ret_rec(st, dest, T('mend', obj))
                return self.ret_rec(st, dest, T('mit', obj, ks[0], T('seq', *ks), 1))
            return self.ret_rec(st, dest, T('mbeg', obj))
        if name in ('find', 'lower_bound') and name == 'find':
            k = self.keyval(I, fr, st, ops[0], argn[0])
            I.mon.ev(I, fr, st, 'map_find', sid, cont=obj, key=k)
            out = []
            for s, k2, h in self.locate(I, st, obj, k):
                out.append((s, self.ret_rec(s, dest, T('mit', obj, k2, I.read(s, obj), h))))
            return out
        if name in ('count', 'contains'):
            k = self.keyval(I, fr, st, ops[0], argn[0])
            return [(s, h) for s, _, h in self.locate(I, st, obj, k)]
        if name in ('at',):
            k = self.keyval(I, fr, st, ops[0], argn[0])
            return [(s, T('fld', T('mel', obj, k2), 'second')) for s, k2, _ in self.locate(I, st, obj, k)]
        if name in ('emplace', 'try_emplace', 'insert_or_assign', 'emplace_hint', 'insert', 'operator[]'):
            oo, aa = list(ops), list(argn)
            if aa and 'iterator' in cls(self.node_ty(fr, aa[0])):
                oo, aa = oo[1:], aa[1:]
            if not oo or name == 'insert':
                return None
            k0 = self.keyval(I, fr, st, oo[0], aa[0])
            kt, vt = rec.targ(0), rec.targ(1)
            out = []
            for s, b, k, h in [(s2, b, k2, h) for s1, k2, h in self.locate(I, st, obj, k0)
                               for s2, b in self.fork(s1, to_bool(h))]:
                I.mon.ev(I, fr, s, 'map_insert', sid, cont=obj, key=k, args=oo, name=name, has=h)
                ea = T('mel', obj, k)
                it = T('mit', obj, k, None, 1)
                if name == 'operator[]' and b:
                    out.append((s, T('fld', ea, 'second')))
                    continue
                if b and name in ('emplace', 'try_emplace', 'emplace_hint'):
                    out.append((self.it_pair(s, dest, it, 0, rt), dest))
                    continue
                # key operand consumed
                if aa and fr.fn.x[aa[0]].get('vk') in ('x',) and cls(self.node_ty(fr, aa[0])) in STRING:
                    kv = I.read(s, oo[0])
                    I.drop(s, oo[0])
                    s.mem[oo[0]] = T('movedstr', kv)
                if not b:
                    m0 = I.read(s, obj)
                    size = self.c_size(I, s, obj)
                    s.mem[obj] = T('ins', m0, k)
                    s.mem[N] = add(size, 1)
                    s.mem[T('fld', ea, 'first')] = k
                va = T('fld', ea, 'second')
                if b and vt is not None and vt.k == 'rec' and vt.rec.in_:
                    # assignment to the existing element
                    r = self.assign_obj(I, fr, s, env, sid, va, oo[1], aa[1], vt)
                elif vt is not None and vt.k == 'rec':
                    r = self.construct_at(I, fr, s, env, sid, va, vt, oo[1:], aa[1:])
                else:
                    s.mem[va] = self.sval(I, fr, s, oo[1], aa[1]) if len(oo) > 1 else 0
                    r = [(s, va)]
                if r is None:
                    s.opaque = s.opaque + (('map element', fr.where(sid)),)
                    I.havoc(s, va)
                    r = [(s, va)]
                for s2, _ in r:
                    if name == 'operator[]':
                        out.append((s2, va))
                    else:
                        out.append((self.it_pair(s2, dest, T('mit', obj, k, I.read(s2, obj), 1), 0 if b else 1, rt),
                                    dest))
            return out
        if name == 'erase':
            ty = self.node_ty(fr, argn[0]).noref()
            if 'iterator' in cls(ty):
                it = I.read(st, ops[0])
                if isinstance(it, Term) and it.op == 'mit':
                    k = it.a[1]
                    return self.erase_key(I, fr, st, sid, obj, k, rec, dest, rt, 1)
                return None
            k = self.keyval(I, fr, st, ops[0], argn[0])
            out = []
            for s, b, k in [(s2, b, k2) for s1, k2, h in self.locate(I, st, obj, k)
                            for s2, b in self.fork(s1, to_bool(h))]:
                if b:
                    out += self.erase_key(I, fr, s, sid, obj, k, rec, dest, rt, 1)
                else:
                    out.append((s, 0))
            return out
        if name == 'clear':
            I.mon.ev(I, fr, st, 'clear', sid, cont=obj, size=self.c_size(I, st, obj))
            I.mon.ev(I, fr, st, 'elems_dead', sid, addr=T('els', obj))
            I.drop(st, obj)
            st.mem[obj] = T('empty', rec.q)
            st.mem[N] = 0
            return 0
        if name == 'operator=':
            ty = self.node_ty(fr, argn[0]).noref()
            if ops[0] is obj:
                return obj
            self.cont_assign(I, fr, st, env, sid, ops[0], argn[0], obj, ty)
            return obj
        if name.startswith('~'):
            return self.explicit_dtor(I, fr, st, sid, n, obj)
        return None

    def cont_assign(self, I, fr, st, env, sid, src, srcsid, obj, ty):
        vk = fr.fn.x[srcsid].get('vk')
        ck = 'copy' if vk == 'l' or ty.d.get('const') else 'move'
        tmp = T('t', fr.ctx, ('casg', sid))
        nested = under(src, obj)
        if nested and cls(ty) in VECTOR:    # the implementation takes the source before it frees its own elements
            I.mon.ev(I, fr, st, 'assign', sid, addr=obj, src=src)
            self.lib_copy(I, fr, st, env, sid, src, tmp, ty, ck)
            src, ck = tmp, 'move'
            I.mon.ev(I, fr, st, 'elems_dead', sid, addr=T('els', obj))
        else:
            I.mon.ev(I, fr, st, 'elems_dead', sid, addr=T('els', obj))
            I.mon.ev(I, fr, st, 'assign', sid, addr=obj, src=src)
            if nested:
                self.lib_copy(I, fr, st, env, sid, src, tmp, ty, ck)
                src, ck = tmp, 'move'
        self.lib_copy(I, fr, st, env, sid, src, obj, ty, ck)
        if src is tmp:
            I.drop(st, tmp)
        I.mon.ev(I, fr, st, 'elems_live', sid, addr=T('els', obj))

    def erase_key(self, I, fr, st, sid, obj, k, rec, dest, rt, cnt):
        ea = T('mel', obj, k)
        vt = rec.targ(1)
        I.mon.ev(I, fr, st, 'map_erase', sid, cont=obj, key=k)
        r = [(st, None)]
        if vt is not None and vt.k == 'rec':
            r = I.destroy(fr, st, T('fld', ea, 'second'), vt, sid, fr.fn.x[sid]['l'])
        out = []
        for s, _ in r:
            I.mon.ev(I, fr, s, 'elems_dead', sid, addr=ea)
            I.drop(s, ea)
            size = self.c_size(I, s, obj)
            s.mem[obj] = T('del', I.read(s, obj), k)
            s.mem[T('fld', obj, '$n')] = sub(size, 1)
            if rt.k == 'rec':
                s.mem[dest] = fresh('it')
                out.append((s, dest))
            else:
                out.append((s, cnt))
        return out

    def it_pair(self, s, dest, it, ok, rt):
        if dest is None:
            return s
        if rt.k == 'rec' and rt.rec.q == 'std::pair':
            s.mem[T('fld', dest, 'first')] = it
            s.mem[T('fld', dest, 'second')] = ok
        else:
            s.mem[dest] = it
        return s

    def assign_obj(self, I, fr, st, env, sid, dst, src, srcsid, ty):
        """call the move/copy assignment operator of a library class"""
        ck = 'copyassign' if fr.fn.x[srcsid].get('vk') == 'l' else 'moveassign'
        for f in ty.rec.tu.funcs.values():
            if f.rec is ty.rec and f.d.get('ck') == ck and f.entry is not None:
                o = I.invoke(fr, st, f, dst, [src], None, sid, site=('as', sid))
                return None if o is None else [(s, dst) for s, _ in o]
        for tu in I.prog.tus:
            for f in tu.funcs.values():
                if f.rec is not None and f.rec.s == ty.rec.s and f.d.get('ck') == ck and f.entry is not None:
                    o = I.invoke(fr, st, f, dst, [src], None, sid, site=('as', sid))
                    return None if o is None else [(s, dst) for s, _ in o]
        return None

    def m_iter(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        v = I.read(st, obj)
        if name in ('operator->', 'operator*', 'base'):
            if name == 'base':
                return self.ret_rec(st, dest, v) if rt.k == 'rec' else v
            rev = oc == 'std::reverse_iterator'
            if rev:
                v = sub(v, 1)
            if isinstance(v, Term) and v.op == 'mit':
                ea = T('mel', v.a[0], v.a[1])
                if T('fld', ea, 'first') not in st.mem:
                    st.mem[T('fld', ea, 'first')] = v.a[1]
                return ea
            if isinstance(v, Term):
                c, ts = lin_parts(v)
                for t, k in ts:
                    if t.op == 'mbeg':
                        i = sub(v, t)
                        a = t.a[0]
                        kv = T('keyat', I.read(st, a), i)
                        ea = T('mel', a, kv)
                        st.mem[T('fld', ea, 'first')] = kv
                        return ea
                if v.op == 'mend':
                    I.mon.ev(I, fr, st, 'deref_end', sid, it=v)
                    return T('null')
                return I.deref(v)
            return None
        if name in ('operator++', 'operator--', 'operator+=', 'operator-='):
            d = 1 if '+' in name else -1
            if oc == 'std::reverse_iterator':
                d = -d
            if isinstance(v, Term) and v.op == 'mit' and d == 1:
                ks = v.a[2].a if isinstance(v.a[2], Term) and v.a[2].op == 'seq' else self.known_keys(I, st, v.a[0])
                if ks is not None and v.a[1] in ks:
                    i = list(ks).index(v.a[1]) + 1
                    st.mem[obj] = T('mit', v.a[0], ks[i], T('seq', *ks), 1) if i < len(ks) else T('mend', v.a[0])
                    if rt.k == 'rec':
                        st.mem[dest] = v
                        return [(st, dest)]
                    return obj
            if name.endswith('='):
                k = self.sval(I, fr, st, ops[0], argn[0])
                st.mem[obj] = add(v, k, d)
                return obj
            st.mem[obj] = add(v, d)
            if rt.k == 'rec':
                st.mem[dest] = v
                return [(st, dest)]
            return obj
        if name in ('operator+', 'operator-') and ops:
            k = self.sval(I, fr, st, ops[0], argn[0])
            st.mem[dest] = add(v, k, 1 if '+' in name else -1)
            return [(st, dest)]
        if name == 'operator=':
            st.mem[obj] = I.read(st, ops[0])
            return obj
        if name == 'operator[]':
            return I.deref(add(v, self.sval(I, fr, st, ops[0], argn[0])))
        if name in ('operator==', 'operator!='):
            r = self.iter_eq(I, st, v, I.read(st, ops[0]))
            if r is None:
                r = mk_eq(v, I.read(st, ops[0]))
            return r if name == 'operator==' else mk_not(r)
        return None

    def m_unique(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        v = I.read(st, obj)
        rec = fr.tu.recs[n['rec']]
        ty = _ty_of(fr.tu, rec)
        if name == 'get':
            return v
        if name in ('operator->',):
            I.mon.ev(I, fr, st, 'deref', sid, ptr=v)
            return v
        if name in ('operator*',):
            I.mon.ev(I, fr, st, 'deref', sid, ptr=v)
            return I.deref(v)
        if name == 'operator[]':
            return I.deref(add(v, self.sval(I, fr, st, ops[0], argn[0])))
        if name.startswith('operator bool') or name.startswith('operator _Bool'):
            return mk_not(self.ptreq(st, v, 0))
        if name == 'release':
            st.mem[obj] = 0
            return v
        if name == 'get_deleter':
            d = T('fld', obj, '$del')
            return d
        if name in ('reset', 'operator='):
            if name == 'reset':
                nv = self.sval(I, fr, st, ops[0], argn[0]) if ops else 0
            else:
                t0 = self.node_ty(fr, argn[0]).noref()
                if t0.k == 'nullptr':
                    nv = 0
                elif ops[0] is obj:
                    return obj
                else:
                    nv = I.read(st, ops[0])
                    st.mem[ops[0]] = 0
                    d = st.mem.get(T('fld', ops[0], '$del'))
                    if d is not None:
                        st.mem[T('fld', obj, '$newdel')] = d
            st.mem[obj] = nv
            outs = self.reset_unique(I, fr, st, obj, ty, v, sid) if ty is not None else [st]
            out = []
            for s in outs:
                d = s.mem.pop(T('fld', obj, '$newdel'), None)
                if d is not None:
                    s.mem[T('fld', obj, '$del')] = d
                out.append((s, obj if name == 'operator=' else 0))
            return out
        if name == 'swap':
            st.mem[obj], st.mem[ops[0]] = I.read(st, ops[0]), v
            return 0
        return None

    def m_shared(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        v = I.read(st, obj)
        rec = fr.tu.recs[n['rec']]
        weak = oc in ('std::weak_ptr', 'std::__weak_ptr')
        if name == 'get':
            return v
        if name == 'operator->':
            I.mon.ev(I, fr, st, 'deref', sid, ptr=v)
            return v
        if name == 'operator*':
            I.mon.ev(I, fr, st, 'deref', sid, ptr=v)
            return I.deref(v)
        if name.startswith('operator bool') or name.startswith('operator _Bool'):
            return mk_not(self.ptreq(st, v, 0))
        if name == 'expired':
            I.mon.ev(I, fr, st, 'expired', sid, weak=obj, ptr=v)
            return mk_not(self.alive(I, st, v))
        if name == 'use_count':
            r = st.mem.get(T('rc', v)) if isinstance(v, Term) else 0
            if r is None:
                a = self.alive(I, st, v)
                out = []
                for s, b in self.fork(st, a):
                    if b:
                        t = fresh('uc')
                        t.lo = 1
                        out.append((s, t))
                    else:
                        out.append((s, 0))
                return out
            return r
        if name == 'lock':
            out = []
            if I.mon.racy_weak(st):
                s = st.clone() if hasattr(st, 'clone') else st.copy()
                s.mem[dest] = 0
                out.append((s, dest))
            for s, b in self.fork(st, to_bool(self.alive(I, st, v))):
                if b:
                    s.mem[dest] = v
                    self.rc_add(s, v, 1)
                    I.mon.ev(I, fr, s, 'locked', sid, weak=obj, ptr=v)
                else:
                    s.mem[dest] = 0
                out.append((s, dest))
            return out
        if name in ('reset', 'operator='):
            pt = rec.targ(0)
            if name == 'reset':
                nv = 0
                if ops:
                    nv = self.sval(I, fr, st, ops[0], argn[0])
                    if isinstance(nv, Term) and not weak:
                        st.mem[T('rc', nv)] = 1
            else:
                t0 = self.node_ty(fr, argn[0]).noref()
                if t0.k == 'nullptr':
                    nv = 0
                elif ops[0] is obj:
                    return obj
                else:
                    nv = I.read(st, ops[0])
                    if fr.fn.x[argn[0]].get('vk') != 'l' and not t0.d.get('const') and \
                            norm_q(cls(t0)).replace('__', '') == oc.replace('__', ''):
                        st.mem[ops[0]] = 0
                    elif not weak:
                        self.rc_add(st, nv, 1)
            st.mem[obj] = nv
            if weak:
                return obj if name == 'operator=' else 0
            o = self.rc_release(I, fr, st, v, pt, sid)
            return [(s, obj if name == 'operator=' else 0) for s, _ in o]
        if name == 'swap':
            st.mem[obj], st.mem[ops[0]] = I.read(st, ops[0]), v
            return 0
        return None

    def m_function(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        v = I.read(st, obj)
        if name == 'operator()':
            args = [(a, self.is_addr(fr, i), self.arg_ty(fr, i)) for a, i in zip(ops, argn)]
            I.mon.ev(I, fr, st, 'invoke', sid, obj=obj, target=v, args=[a[0] for a in args])
            known = isinstance(v, Term) and v.op in ('cl', 'fnptr', 'memfn')
            if v == 0 and isinstance(v, int):
                I.mon.ev(I, fr, st, 'abort', sid, q='std::bad_function_call')
                return []
            if known:
                r = self.call_target(I, fr, st, env, sid, v, args, dest)
                return self.fix_ret(I, r, rt, dest)
            I.mon.ev(I, fr, st, 'callback', sid, fn=v, obj=obj, args=[a[0] for a in args], dest=dest)
            if rt.k == 'rec':
                if dest not in st.mem:
                    I.drop(st, dest)
                    st.mem[dest] = fresh('cb')
                return [(st, dest)]
            if rt.k in ('lref', 'rref'):
                return [(st, T('obj', 'cbref', v))]
            if rt.k == 'void':
                return [(st, 0)]
            f = fresh('cb')
            I.type_facts(f, rt)
            return [(st, f)]
        if name == 'operator=':
            t0 = self.node_ty(fr, argn[0]).noref()
            if ops[0] is obj:
                return obj
            I.mon.ev(I, fr, st, 'fn_assign', sid, addr=obj, old=v)
            r = self.make_target(I, fr, st, env, sid, obj, ops[0], argn[0])
            return [(s2, obj) for s, _ in r for s2 in self.drop_closure(I, fr, s, v, sid, 0)]
        if name == 'swap':
            st.mem[obj], st.mem[ops[0]] = I.read(st, ops[0]), v
            return 0
        if name.startswith('operator bool') or name.startswith('operator _Bool'):
            return mk_not(self.ptreq(st, v, 0))
        return None

    def fix_ret(self, I, r, rt, dest):
        return [(s, dest if rt.k == 'rec' else v) for s, v in r]

    def m_mutex(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        if name in ('lock', 'unlock'):
            f = self.do_lock if name == 'lock' else self.do_unlock
            return [(s, 0) for s in f(I, fr, st, sid, [obj])]
        if name == 'try_lock':
            s2 = st.copy()
            return [(s, 1) for s in self.do_lock(I, fr, st, sid, [obj])] + [(s2, 0)]
        return None

    def m_lock(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        own = T('fld', obj, '$own')
        m = I.read(st, obj)
        if name == 'lock':
            st.mem[own] = 1
            return [(s, 0) for s in self.do_lock(I, fr, st, sid, [m])]
        if name == 'unlock':
            st.mem[own] = 0
            return [(s, 0) for s in self.do_unlock(I, fr, st, sid, [m])]
        if name == 'owns_lock' or name.startswith('operator'):
            if name == 'operator=':
                return None
            return st.mem.get(own, 0)
        if name == 'mutex':
            return m
        if name == 'release':
            st.mem[own] = 0
            return m
        return None

    def m_cv(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        if name in ('notify_one', 'notify_all'):
            f = getattr(I.mon, 'sched_notify', None)
            if f is not None:
                return [(s, 0) for s in f(I, fr, st, sid, obj, name == 'notify_all')]
            I.mon.ev(I, fr, st, 'notify', sid, cv=obj, all=name == 'notify_all')
            return 0
        if name in ('wait', 'wait_for', 'wait_until'):
            return self.wait(I, fr, st, env, sid, n, n['q'], obj, ops, argn, rt)
        return None

    def m_thread(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        v = I.read(st, obj)
        if name == 'get_id':
            return self.ret_rec(st, dest, v if isinstance(v, int) else T('tid', v))
        f = getattr(I.mon, 'sched_' + name, None) if name in ('join', 'detach') else None
        if f is not None:
            return [(s, 0) for s in f(I, fr, st, sid, obj)]
        if name in ('join', 'detach'):
            I.mon.ev(I, fr, st, name, sid, addr=obj, value=v)
            st.mem[obj] = 0
            return 0
        if name == 'joinable':
            return mk_ne(v, 0)
        if name == 'operator=':
            f = getattr(I.mon, 'sched_thread_dtor', None)
            if f is not None and not f(I, fr, st, sid, obj):
                return []
            st.mem[obj] = I.read(st, ops[0])
            st.mem[ops[0]] = 0
            return obj
        return None

    def m_atomic(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        r = self.atomic_op(I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc)
        if r is None or 'atomics' not in getattr(I.mon, 'rules', ()):
            return r
        if not isinstance(r, list):
            r = [(st, r)]
        return [(s2, v) for s, v in r for s2 in I.mon.maybe_run(I, fr, s, sid)]

    def atomic_op(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        v = I.read(st, obj)
        if name in ('compare_exchange_weak', 'compare_exchange_strong'):
            want = I.read(st, ops[0])
            new = self.sval(I, fr, st, ops[1], argn[1])
            I.mon.ev(I, fr, st, 'atomic', sid, addr=obj, op=name, arg=new)
            out = []
            for s, b in self.fork(st, mk_eq(v, want)):
                if b:
                    s.mem[obj] = new
                else:
                    I.store(fr, s, ops[0], v, None, sid)
                out.append((s, 1 if b else 0))
            return out
        a = [self.sval(I, fr, st, o, i) for o, i in zip(ops, argn)]
        if name in ('fetch_add', 'fetch_sub'):
            I.mon.ev(I, fr, st, 'atomic', sid, addr=obj, op=name, arg=a[0])
            st.mem[obj] = self.wrapped(add(v, a[0], 1 if name == 'fetch_add' else -1), rt)
            return v
        if name in ('operator++', 'operator--', 'operator+=', 'operator-='):
            d = a[0] if name.endswith('=') else 1
            I.mon.ev(I, fr, st, 'atomic', sid, addr=obj, op='fetch_add' if '+' in name else 'fetch_sub', arg=d)
            nv = self.wrapped(add(v, d, 1 if '+' in name else -1), rt)
            st.mem[obj] = nv
            post = name in ('operator++', 'operator--') and len(ops) == 1
            return v if post else nv
        if name == 'load' or name.startswith('operator ') or (name.startswith('operator') and name[8:9] not in '=+-&|^'
                                                              and not name[8:9] == ''):
            return v
        if name in ('store', 'operator='):
            I.mon.ev(I, fr, st, 'atomic', sid, addr=obj, op='store', arg=a[0])
            st.mem[obj] = a[0]
            return 0 if name == 'store' else a[0]
        if name == 'exchange':
            st.mem[obj] = a[0]
            return v
        return None

    def wrapped(self, v, ty):
        """a known value after atomic arithmetic in an integer type"""
        ty = ty.noref()
        bits = ty.d.get('bits') if ty.k == 'int' else None
        if isinstance(v, int) and bits:
            v &= (1 << bits) - 1
            if ty.d.get('sg') and v >> (bits - 1):
                v -= 1 << bits
        return v

    def m_duration(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        if name in ('count', 'time_since_epoch'):
            v = I.read(st, obj)
            return v if rt.k != 'rec' else self.ret_rec(st, dest, v)
        if name == 'operator=':
            st.mem[obj] = I.read(st, ops[0])
            return obj
        if name in ('operator+=', 'operator-='):
            st.mem[obj] = add(I.read(st, obj), I.read(st, ops[0]), 1 if '+' in name else -1)
            return obj
        if name in ('operator-', 'operator+') and not ops:
            v = I.read(st, obj)
            return self.ret_rec(st, dest, neg(v) if name == 'operator-' else v)
        return None

    def m_optional(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        V = T('fld', obj, '$v')
        if name in ('has_value',) or name.startswith('operator bool') or name.startswith('operator _Bool'):
            return to_bool(self.has(I, st, obj))
        if name in ('operator*', 'value'):
            return V
        if name == 'operator->':
            return V
        if name == 'value_or':
            out = []
            for s, b in self.fork(st, to_bool(self.has(I, st, obj))):
                if rt.k == 'rec':
                    src = V if b else ops[0]
                    out += [(s2, dest) for s2, _ in self.copy_move(I, fr, s, env, sid, src, dest, rt, 'copy')]
                else:
                    out.append((s, I.read(s, V, rt) if b else self.sval(I, fr, s, ops[0], argn[0])))
            return out
        if name in ('reset',):
            st.mem[T('fld', obj, '$has')] = 0
            return 0
        if name == 'operator=' or name == 'emplace':
            t0 = self.node_ty(fr, argn[0]).noref() if argn else None
            if t0 is not None and cls(t0) == 'std::nullopt_t':
                st.mem[T('fld', obj, '$has')] = 0
                return obj
            rec = fr.tu.recs[n['rec']]
            ft = rec.targ(0)
            if t0 is not None and cls(t0) == 'std::optional':
                st.mem[T('fld', obj, '$has')] = self.has(I, st, ops[0])
                st.mem[V] = I.read(st, T('fld', ops[0], '$v'))
                return obj
            st.mem[T('fld', obj, '$has')] = 1
            if ft.k == 'rec':
                r = self.construct_at(I, fr, st, env, sid, V, ft, ops, argn)
                if r is not None:
                    return [(s, obj) for s, _ in r]
                return None
            st.mem[V] = self.sval(I, fr, st, ops[0], argn[0])
            return obj if name == 'operator=' else V
        return None

    def m_il(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        v = I.read(st, obj)
        if isinstance(v, Term) and v.op == 'il':
            p, c = v.a
        else:
            p = T('el0', T('data', v))
            c = self.size_of(v)
        if name == 'size':
            return c
        if name == 'begin':
            return p
        if name == 'end':
            return add(p, c)
        return None

    def m_ec(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        if name.startswith('operator bool') or name.startswith('operator _Bool'):
            return to_bool(I.read(st, obj))
        if name == 'value':
            return I.read(st, obj)
        if name == 'clear':
            st.mem[obj] = 0
            return 0
        if name.startswith('operator=') and not name.startswith('operator==') and len(ops) == 1:
            v = self.argv(I, fr, st, ops[0], argn[0])
            if cls(self.node_ty(fr, argn[0])) == 'std::error_code':
                v = I.read(st, ops[0])
            st.mem[obj] = v
            return obj
        return None

    def m_pair(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        return None

    def m_rnd(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        if name == 'operator()':
            d = I.read(st, obj)
            lim = None
            if isinstance(d, Term) and d.op == 'uid':
                # without arguments the range is [0, max]
                full = T('any', rt.s)
                I.type_facts(full, rt)
                lim = list(d.a[1][:2]) or [0]
                lim += [full.hi] * (2 - len(lim))
                if lim == [full.lo, full.hi]:
                    lim = None
            src = self.node_ty(fr, argn[0]).noref().s if argn else ''
            pseudo = 'engine' in src or 'mt19937' in src or 'minstd' in src
            f = fresh('rnd' if lim is None and not pseudo else 'rndlim')
            I.type_facts(f, rt)
            if lim and all(isinstance(x, int) for x in lim):
                f.lo, f.hi = lim
            I.mon.ev(I, fr, st, 'random', sid, dist=I.read(st, obj), value=f, dev=ops[0] if ops else obj)
            return f
        return None

    def m_hash(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        if name != 'operator()' or len(ops) != 1:
            return None
        ty = self.node_ty(fr, argn[0]).noref()
        v = self.strval(I, fr, st, ops[0], ty) if cls(ty) in STRING + VIEW else self.argv(I, fr, st, ops[0], argn[0])
        t = T('hash', ty.s.replace('const ', ''), v)
        if t.lo is None:
            t.lo, t.hi = 0, (1 << 64) - 1
        return t

    def m_cmpfn(self, I, fr, st, env, sid, n, name, obj, ops, argn, dest, rt, oc):
        if name == 'operator()' and len(ops) == 2:
            op = '<' if oc == 'std::less' else '>'
            return self.operators(I, fr, st, env, sid, n, op, ops, argn, dest, rt)
        return None

    METH = {}
    for _c in STRING:
        METH[_c] = m_string
    for _c in VIEW:
        METH[_c] = m_view
    for _c in VECTOR:
        METH[_c] = m_vector
    for _c in MAP:
        METH[_c] = m_map
    for _c in ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::_Node_iterator',
               'std::_Node_const_iterator', 'std::__normal_iterator', 'std::reverse_iterator',
               'std::_Node_iterator_base'):
        METH[_c] = m_iter
    METH['std::unique_ptr'] = m_unique
    for _c in ('std::shared_ptr', 'std::weak_ptr', 'std::__weak_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access'):
        METH[_c] = m_shared
    METH['std::function'] = m_function
    METH['std::_Bind'] = m_bind
    METH['std::mutex'] = METH['std::recursive_mutex'] = METH['std::timed_mutex'] = m_mutex
    METH['std::unique_lock'] = m_lock
    for _c in CV:
        METH[_c] = m_cv
    METH['std::thread'] = m_thread
    for _c in ('std::atomic', 'std::__atomic_base'):
        METH[_c] = m_atomic
    METH['std::chrono::duration'] = METH['std::chrono::time_point'] = m_duration
    METH['std::optional'] = METH['std::_Optional_base_impl'] = m_optional
    METH['std::initializer_list'] = m_il
    METH['std::error_code'] = m_ec
    METH['std::hash'] = m_hash
    METH['std::pair'] = m_pair
    METH['std::uniform_int_distribution'] = METH['std::random_device'] = m_rnd
    METH['std::less'] = METH['std::greater'] = m_cmpfn

    # ---------------------------------------------------------------- free functions
    def f_ident(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        return ops[0]

    def f_addressof(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        return I.ptrform(ops[0])

    def f_launder(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        return ops[0]

    def f_expect(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        return ops[0]

    def f_abort(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        I.mon.ev(I, fr, st, 'abort', sid, q=q)
        I.aborts += 1
        return []

    def f_make_unique(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        et = rt.rec.targ(0)
        h = self.alloc(I, fr, st, ('mk', sid))
        I.drop(st, h)
        r = self.construct_at(I, fr, st, env, sid, h, et, ops, argn)
        if r is None:
            st.opaque = st.opaque + (('make_unique', fr.where(sid)),)
            r = [(st, h)]
        out = []
        for s, _ in r:
            I.drop(s, dest)
            s.mem[dest] = h
            I.mon.ev(I, fr, s, 'new', sid, addr=h, ty=et)
            if q.endswith('make_shared'):
                s.mem[T('rc', h)] = 1
            out.append((s, dest))
        return out

    def f_bind(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        I.drop(st, dest)
        tys = [self.node_ty(fr, i).noref() for i in argn]
        key = len(I.bind_types)
        for k, t in I.bind_types.items():
            if t == tys:
                key = k
                break
        I.bind_types[key] = tys
        outs = [(st, dest)]
        for i, (a, oid, t) in enumerate(zip(ops, argn, tys)):
            fa = T('fld', dest, '$f' if i == 0 else '$%d' % (i - 1))
            nxt = []
            for s, _ in outs:
                if t.k == 'rec':
                    vk = fr.fn.x[oid].get('vk')
                    nxt += self.copy_move(I, fr, s, env, sid, a, fa, t, 'copy' if vk == 'l' or t.d.get('const') else 'move')
                else:
                    s.mem[fa] = self.sval(I, fr, s, a, oid)
                    nxt.append((s, fa))
            outs = nxt
        for s, _ in outs:
            s.mem[T('fld', dest, '$bind')] = T('bind', key)
        return [(s, dest) for s, _ in outs]

    def f_invoke(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        args = [(a, self.is_addr(fr, i), self.arg_ty(fr, i)) for a, i in zip(ops, argn)]
        f, fa, ft = args[0]
        t = ft.noref()
        I.mon.ev(I, fr, st, 'std_invoke', sid, fn=f, args=[a[0] for a in args[1:]], ty=t)
        if t.k == 'rec':
            return self.call_target(I, fr, st, env, sid, None, args[1:], dest, t, f)
        v = I.read(st, f) if fa and isinstance(f, Term) and f.op not in ('fnptr', 'memfn') else f
        return self.call_target(I, fr, st, env, sid, v, args[1:], dest)

    def f_all_of(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        """std::all_of and the like over a range of known length"""
        if len(ops) != 3:
            return None
        first, last = [self.sval(I, fr, st, a, i) for a, i in zip(ops[:2], argn[:2])]
        et = self.node_ty(fr, argn[0]).noref()
        if et.k != 'ptr' or not isinstance(first, (Term, int)) or not isinstance(last, (Term, int)):
            return None
        cnt = sub(last, first)
        if not isinstance(cnt, int):
            u, d = st.ub(cnt), st.ub(neg(cnt))
            if u is None or d is None or u != -d:
                return None
            cnt = u
        if cnt > 200:
            return None
        name = q.split('::')[-1]
        f, fa, ft = ops[2], self.is_addr(fr, argn[2]), self.node_ty(fr, argn[2])
        t = ft.noref()
        if t.k == 'rec':
            tv, cty, caddr = None, t, f
        else:
            tv, cty, caddr = (I.read(st, f) if fa and isinstance(f, Term) and f.op not in ('fnptr', 'memfn') else f), None, None
        work = [(st, 0)]       # (state, matches so far)
        out = []
        for i in range(cnt):
            nxt = []
            for s, k in work:
                a = I.deref(add(first, i))
                arg = (a, True, et.pointee)
                if et.pointee.k == 'int':
                    arg = (I.load(fr, s, a, et.pointee, sid), False, et.pointee)
                r = self.call_target(I, fr, s, env, sid, tv, [arg], None, cty, caddr)
                if not isinstance(r, list):
                    return None
                for s2, v in r:
                    for s3, b in self.fork(s2, to_bool(v)):
                        if name == 'count_if':
                            nxt.append((s3, k + b))
                        elif name == 'all_of' and not b or name == 'any_of' and b or name == 'none_of' and b:
                            out.append((s3, 1 if name == 'any_of' else 0))
                        elif name in ('find_if', 'find_if_not') and b == (name == 'find_if'):
                            out.append((s3, add(first, i)))
                        else:
                            nxt.append((s3, k))
            work = chars.join(nxt) if chars.ON[0] else nxt
            if len(work) > 500:
                raise Undecided('too many paths in ' + name)
        end = {'all_of': 1, 'any_of': 0, 'none_of': 1, 'find_if': last, 'find_if_not': last}
        out += [(s, k if name == 'count_if' else end[name]) for s, k in work]
        return chars.join(out) if chars.ON[0] else out

    def f_destroy_at(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        p = self.sval(I, fr, st, ops[0], argn[0])
        t = self.node_ty(fr, argn[0]).noref()
        if t.k != 'ptr' or not isinstance(p, Term):
            return None
        return [(s, 0) for s, _ in I.destroy(fr, st, I.deref(p), t.pointee, sid, fr.fn.x[sid].get('l', 0), virt=True)]

    def f_next(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        """std::next and std::prev of an iterator that is a position"""
        name = q.rsplit('::', 1)[-1]
        v = self.sval(I, fr, st, ops[0], argn[0])
        t = self.node_ty(fr, argn[0]).noref()
        if t.k == 'rec' and not norm_q(cls(t)).startswith('__gnu_cxx::__normal_iterator'):
            return None
        k = self.sval(I, fr, st, ops[1], argn[1]) if len(ops) > 1 else 1
        if not isinstance(v, (Term, int)) or not isinstance(k, (Term, int)):
            return None
        r = add(v, k) if name == 'next' else sub(v, k)
        if rt.k == 'rec':
            return self.ret_rec(st, dest, r)
        return r

    def f_accumulate(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        """std::accumulate of integers over a range of known length"""
        first, last = [self.sval(I, fr, st, a, i) for a, i in zip(ops[:2], argn[:2])]
        et = self.node_ty(fr, argn[0]).noref()
        if et.k != 'ptr' or rt.k != 'int' or not isinstance(first, (Term, int)) or not isinstance(last, (Term, int)):
            return None
        cnt = sub(last, first)
        if not isinstance(cnt, int):
            u, d = st.ub(cnt), st.ub(neg(cnt))
            if u is None or d is None or u != -d:
                return None
            cnt = u
        if cnt > 200 or len(ops) < 4 and et.pointee.k != 'int':
            return None
        tv = cty = caddr = None
        if len(ops) > 3:
            t = self.node_ty(fr, argn[3]).noref()
            if t.k == 'rec':
                cty, caddr = t, ops[3]
            else:
                f = ops[3]
                tv = I.read(st, f) if self.is_addr(fr, argn[3]) and isinstance(f, Term) and f.op not in ('fnptr', 'memfn') else f
        work = [(st, self.sval(I, fr, st, ops[2], argn[2]))]
        for i in range(cnt):
            nxt = []
            for s, acc in work:
                a = I.deref(add(first, i))
                arg = (a, True, et.pointee)
                if et.pointee.k == 'int':
                    arg = (I.load(fr, s, a, et.pointee, sid), False, et.pointee)
                if len(ops) < 4:
                    nxt.append((s, I.wrap(add(acc, arg[0]), rt) if hasattr(I, 'wrap') else add(acc, arg[0])))
                    continue
                r = self.call_target(I, fr, s, env, sid, tv, [(acc, False, rt), arg], None, cty, caddr)
                if not isinstance(r, list):
                    return None
                nxt += r
            work = nxt
            if len(work) > 500:
                raise Undecided('too many paths in accumulate')
        return work

    def f_ctype(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        if len(ops) != 1:
            return None
        v = self.sval(I, fr, st, ops[0], argn[0])
        name = q.split('::')[-1]
        if isinstance(v, int):
            return chars.ctype(name, v)
        t = T('ctype', name, v)
        t.lo, t.hi = (0, 1) if name.startswith('is') else (-128, 255)
        return t

    def f_min(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        if len(ops) < 2:
            return None
        vals = [self.sval(I, fr, st, a, i) for a, i in zip(ops, argn)]
        ty = self.node_ty(fr, argn[0]).noref()
        if ty.k == 'rec' and cls(ty) != 'std::chrono::duration':
            return None
        if ty.k == 'float':
            return None
        if len(ops) == 3:
            return None
        c = mk_lt(vals[1], vals[0]) if q.endswith('min') else mk_lt(vals[0], vals[1])
        out = []
        for s, b in self.fork(st, c):
            out.append((s, ops[1] if b else ops[0]))
        return out

    def f_clamp(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        v, lo, hi = [self.sval(I, fr, st, a, i) for a, i in zip(ops, argn)][:3]
        out = []
        for s, b in self.fork(st, mk_lt(v, lo)):
            if b:
                out.append((s, ops[1]))
                continue
            for s2, b2 in self.fork(s, mk_lt(hi, v)):
                out.append((s2, ops[2] if b2 else ops[0]))
        return out

    def f_get(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        ty = self.node_ty(fr, argn[0]).noref()
        ta = n.get('ta') or []
        if cls(ty) in ('std::pair', 'std::tuple') and ta and isinstance(ta[0], str) and ta[0].startswith('i') and \
                int(ta[0][1:]) < len(ty.rec.parts()):
            a = T('fld', ops[0], ty.rec.parts()[int(ta[0][1:])])
            ft = ty.rec.targ(int(ta[0][1:]))
            if ft is not None and ft.k in ('lref', 'rref'):
                a = I.read(st, a)
            return a
        return None

    def f_begin(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        ty = self.node_ty(fr, argn[0]).noref()
        c = norm_q(cls(ty))
        name = q.rsplit('::', 1)[-1]
        if c == 'arr':
            v = I.decay(ops[0], ty) if isinstance(ops[0], Term) else ops[0]
            if name == 'size':
                return ty.d.get('n', 0)
            if name == 'empty':
                return 0
            return add(v, ty.d.get('n', 0)) if 'end' in name else v
        h = self.METH.get(c)
        if h is None:
            # a class with its own begin() and end()
            nm = {'cbegin': 'begin', 'cend': 'end'}.get(name, name)
            if ty.k == 'rec' and nm in ('begin', 'end', 'rbegin', 'rend'):
                ms = [m for m in ty.rec.methods if m['n'] == nm]
                cst = [m for m in ms if m.get('const')]
                pick = (cst or ms) if not ty.nonconst() else ([m for m in ms if not m.get('const')] or ms)
                fn = I.prog.find(ty.tu, pick[0]['id']) if pick else None
                if fn is not None and fn.entry is not None:
                    o = I.invoke(fr, st, fn, ops[0], [], dest, sid)
                    if o is not None:
                        return [(s, dest if rt.k == 'rec' else v) for s, v in o]
            return None
        n2 = dict(n)
        n2['rec'] = ty.d['r']
        return h(self, I, fr, st, env, sid, n2, name if name in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'data')
                 else name, ops[0], [], [], dest, rt, c)

    def f_heap(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        """push_heap / pop_heap on a range kept in the order of the comparison (which is a heap): elements that
        compare equal may end up in any order"""
        b, e = I.read(st, ops[0]), I.read(st, ops[1])
        name = q.rsplit('::', 1)[-1]
        base, off = self.split_ptr(b)
        I.mon.ev(I, fr, st, name, sid, begin=b, end=e)
        cnt = sub(e, b)
        if base is None or base.op != 'el0' or not isinstance(cnt, int) or not isinstance(off, int) or cnt > 16:
            return None
        D = base.a[0]
        ty = self.elem_type(fr, argn[0])
        if ty is None:
            return None
        cty = self.node_ty(fr, argn[2]) if len(ops) > 2 else None
        if cnt == 0:
            return 0 if name in ('make_heap', 'sort', 'stable_sort') else None
        co = ops[2] if len(ops) > 2 else None
        if I.mon.exact_heaps(st) and name in ('push_heap', 'pop_heap'):
            return self.sift(I, fr, st, env, sid, D, off, cnt, ty, cty, co, name)
        if name == 'pop_heap':
            self.permute(I, fr, st, sid, D, off, list(range(1, cnt)) + [0])
            return 0
        if name == 'push_heap':
            r = self.heap_insert(I, fr, st, env, sid, D, off, cnt, ty, cty, co, 'heap')
        elif name in ('make_heap', 'sort', 'stable_sort'):
            r = [st]
            for k in range(2, cnt + 1):
                nxt = []
                for s in r:
                    x = self.heap_insert(I, fr, s, env, sid, D, off, k, ty, cty, co,
                                         'heap' if name == 'make_heap' else name)
                    if x is None:
                        return None
                    nxt += x
                r = nxt
        else:
            return None
        return None if r is None else [(s, 0) for s in r]

    def sift(self, I, fr, st, env, sid, D, off, cnt, ty, cty, cobj, name):
        """push_heap / pop_heap with the layout that libstdc++ gives a heap"""
        def less(s, i, j):
            r = self.elem_less(I, fr, s, env, sid, T('el', D, off + i), T('el', D, off + j), ty, cty, cobj)
            return None if r is None else [x for s2, v in r for x in self.fork(s2, to_bool(v))]

        def up(s, p, hole, top, value, out):
            while hole > top:
                r = less(s, p[(hole - 1) // 2], value)
                if r is None:
                    return None
                cont = None
                for s2, b in r:
                    if b:
                        cont = s2
                    else:
                        q = list(p)
                        q[hole] = value
                        out.append((s2, q))
                if cont is None:
                    return out
                s, p = cont, list(p)
                p[hole] = p[(hole - 1) // 2]
                hole = (hole - 1) // 2
            p[hole] = value
            out.append((s, p))
            return out
        if name == 'push_heap':
            r = up(st, list(range(cnt)), cnt - 1, 0, cnt - 1, [])
        else:
            r, p, n = [], list(range(cnt)), cnt - 1
            p[n] = 0
            work = [(st, p, 0)]
            while work:
                s, p, hole = work.pop()
                if hole < (n - 1) // 2:
                    c = 2 * (hole + 1)
                    x = less(s, p[c], p[c - 1])
                    if x is None:
                        return None
                    for s2, b in x:
                        q, k = list(p), c - 1 if b else c
                        q[hole] = q[k]
                        work.append((s2, q, k))
                    continue
                if n % 2 == 0 and n >= 2 and hole == (n - 2) // 2:
                    p = list(p)
                    p[hole] = p[2 * hole + 1]
                    hole = 2 * hole + 1
                if n == 0:
                    r.append((s, [0]))
                elif up(s, list(p), hole, 0, cnt - 1, r) is None:
                    return None
        if r is None:
            return None
        for s, p in r:
            self.permute(I, fr, s, sid, D, off, p)
        return [(s, 0) for s, p in r]

    def elem_less(self, I, fr, s, env, sid, a, b, ty, cty, cobj):
        args = [(a, True, ty), (b, True, ty)]
        if cty is None:
            return self.less_elems(I, fr, s, env, sid, args)
        if cty.noref().k == 'rec' and cls(cty.noref()) in ('std::greater', 'std::less'):
            x = args if cls(cty.noref()) == 'std::less' else args[::-1]
            return self.less_elems(I, fr, s, env, sid, x, '>' if x is not args else '<', args)
        return self.call_target(I, fr, s, env, sid, None, args, None, cty, cobj)

    def permute(self, I, fr, s, sid, D, off, perm):
        """the element at position i comes from position perm[i]"""
        cnt = len(perm)
        tmp = [T('t', fr.ctx, ('heap', sid, i)) for i in range(cnt)]
        for i in range(cnt):
            if perm[i] != i:
                I.move_tree(s, T('el', D, off + perm[i]), tmp[i])
        for i in range(cnt):
            if perm[i] != i:
                I.move_tree(s, tmp[i], T('el', D, off + i))

    def heap_insert(self, I, fr, st, env, sid, D, off, cnt, ty, cty, cobj, how):
        """insert the last of cnt elements into the others, which are in order"""
        def el(i):
            return T('el', D, off + i)

        def less(s, i, j):
            r = self.elem_less(I, fr, s, env, sid, el(i), el(j), ty, cty, cobj)
            if r is None:
                return None
            return [x for s2, v in r for x in self.fork(s2, to_bool(v))]
        new = cnt - 1
        out, work = [], [(st, new)]
        while work:
            s, j = work.pop()
            stop = [s] if j == 0 else []
            if j > 0:
                r = less(s, j - 1, new) if how == 'heap' else less(s, new, j - 1)
                if r is None:
                    return None
                for s2, before in r:
                    if before:
                        work.append((s2, j - 1))
                        continue
                    if how == 'stable_sort':
                        stop.append(s2)
                        continue
                    r2 = less(s2, new, j - 1) if how == 'heap' else less(s2, j - 1, new)
                    for s3, after in r2:
                        if not after:
                            work.append((s3.copy(), j - 1))
                        stop.append(s3)
            for s2 in stop:
                perm = list(range(cnt))
                perm.insert(j, perm.pop())
                self.permute(I, fr, s2, sid, D, off, perm)
                out.append(s2)
        return out

    def elem_type(self, fr, sid):
        ty = self.node_ty(fr, sid).noref()
        if ty.k == 'ptr':
            return ty.pointee
        if ty.k == 'rec' and ty.rec is not None:
            t = ty.rec.targ(0)
            if t is not None and t.k == 'ptr':
                return t.pointee
            return t
        return None

    def less_elems(self, I, fr, st, env, sid, args, op='<', orig=None):
        """compare two elements with their own operator"""
        a = orig or args
        ty = a[0][2]
        if ty.k in ('int', 'ptr', 'enum', 'bool'):
            x, y = I.read(st, a[0][0], ty), I.read(st, a[1][0], ty)
            return [(st, mk_lt(x, y) if op == '<' else mk_lt(y, x))]
        if ty.k != 'rec' or ty.rec is None:
            return None
        name = 'operator' + op
        for tu in I.prog.tus:
            for f in tu.funcs.values():
                if f.entry is None or not f.q.endswith('::' + name):
                    continue
                if f.rec is not None and f.rec.s == ty.rec.s and len(f.params) == 1:
                    return self.run_vals(I, fr, st, env, sid, f, a[0][0], a[1:], None)
                if f.rec is None and len(f.params) == 2 and all(
                        f.type(p['t']).noref().k == 'rec' and f.type(p['t']).noref().rec.s == ty.rec.s
                        for p in f.params):
                    return self.run_vals(I, fr, st, env, sid, f, None, a, None)
        return None

    def argv(self, I, fr, st, a, i):
        if i is None:
            return a
        return self.sval(I, fr, st, a, i)

    def f_printf(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        """the printed text goes to the harness's stream model"""
        v = [self.argv(I, fr, st, a, i) for a, i in zip(ops, argn)]
        tys = [self.node_ty(fr, i).noref() for i in argn]
        put = I.prog.redirect('fput', 3)
        if put is None or len(v) < 2:
            return None
        t = self.format_text(I, fr, st, sid, self.strval(I, fr, st, v[1], tys[1]), v[2:], tys[2:])
        if t is None:
            st.opaque = st.opaque + (('the format of ' + q, fr.where(sid)),)
            return fresh('printf')
        tmp = T('t', fr.ctx, ('printf', sid))
        z = self.size_of(t)
        I.drop(st, tmp)
        st.mem[tmp] = t
        st.mem[T('fld', tmp, '$n')] = z
        out = self.run_vals(I, fr, st, env, sid, put, None, [
            (v[0], False, None), (T('el0', T('sdata', tmp)), False, None), (z, False, None)], None)
        return out

    def f_make_ec(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        v = self.argv(I, fr, st, ops[0], argn[0])
        if dest is None:
            dest = T('t', fr.ctx, ('ec', sid))
        st.mem[dest] = v
        return dest

    def f_memcpy(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        v = [self.argv(I, fr, st, a, i) for a, i in zip(ops, argn)]
        name = q.rsplit('::', 1)[-1]
        I.mon.ev(I, fr, st, 'memcpy', sid, dst=v[0], src=v[1], n=v[2])
        if name == 'memset':
            c = v[1]
            self.put_text(I, fr, st, sid, v[0], T('rep', v[2], c_char(c) if isinstance(c, int) else c), v[2])
        elif name != 'memcmp':
            self.put_text(I, fr, st, sid, v[0], self.get_text(I, fr, st, sid, v[1], v[2]), v[2])
        return v[0]

    def f_copy_n(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        v = [self.sval(I, fr, st, a, i) for a, i in zip(ops, argn)]
        name = q.rsplit('::', 1)[-1]
        if name == 'copy_n':
            s, cnt, d = v
        else:
            s, cnt, d = v[0], sub(v[1], v[0]), v[2]
        I.mon.ev(I, fr, st, 'memcpy', sid, dst=d, src=s, n=cnt)
        b, off = self.split_ptr(d)
        k, size = self.store_of(I, st, b) if b is not None else (None, None)
        if k is None:
            return None
        self.put_text(I, fr, st, sid, d, self.get_text(I, fr, st, sid, s, cnt), cnt)
        r = add(d, cnt)
        if rt.k == 'rec':
            return self.ret_rec(st, dest, r)
        return r

    def f_strlen(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        return self.cstrlen(I, st, self.sval(I, fr, st, ops[0], argn[0]))

    def num_text(self, st, v, bits, sg, base=10, upper=False, width=0, zero=False, left=False, plus=''):
        """the rendering of the integer v of a type with that range"""
        if isinstance(v, int):
            r = ('%d' % v) if base == 10 else (('%X' if upper else '%x') % v if base == 16 else '%o' % v)
            if plus and v >= 0:
                r = plus + r
            if zero and not left:
                r = r.zfill(width)
            r = r.ljust(width) if left else r.rjust(width)
            return T('str', r.encode('latin1').hex())
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        u, l = st.ub(v), st.ub(neg(v))
        slo, shi = lo if l is None else max(lo, -l), hi if u is None else min(hi, u)

        def digits(x):
            n, x = 1, abs(x)
            while x >= base:
                x //= base
                n += 1
            return n

        def span(lo, hi):
            m = max(digits(lo) + (1 if lo < 0 else 0), digits(hi) + (1 if plus else 0))
            lo_ = max(1, width) if lo <= 0 else max(digits(lo), width)
            return lo_, max(m, width)
        op = 'dec' if base == 10 else 'hex'
        t = T(op, v) if base == 10 and not width and not plus else T(op, v, base, upper, width, zero, left, plus)
        z = T('size', t)
        if z.lo is None:
            z.lo, z.hi = span(lo, hi)
        l1, h1 = span(slo, shi)
        if l1 == h1:
            st.assume(mk_eq(z, l1))
        else:
            st.assume(mk_le(z, h1))
            st.assume(mk_le(l1, z))
        return t

    FMT = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|j|z|t|L|q)?([a-zA-Z%])')

    def format_text(self, I, fr, st, sid, fmt, args, tys):
        """the text printf would produce, or None"""
        if not isinstance(fmt, Term) or fmt.op != 'str':
            return None
        f = bytes.fromhex(fmt.a[0]).decode('latin1')
        vs = []
        pos = k = 0

        def arg():
            nonlocal k
            if k >= len(args):
                I.mon.ev(I, fr, st, 'badformat', sid, what='too few arguments for the format')
                return None, None
            k += 1
            return args[k - 1], tys[k - 1]

        def lit(x):
            if x:
                vs.append(T('str', x.encode('latin1').hex()))
        for m in self.FMT.finditer(f):
            lit(f[pos:m.start()])
            pos = m.end()
            flags, width, prec, ln, conv = m.groups()
            hasprec = '.' in m.group(0)
            if conv == '%':
                lit('%')
                continue
            if width == '*':
                width, _ = arg()
            w = int(width) if width else 0
            if prec == '*':
                prec, pt = arg()
                if pt is not None and (pt.k != 'int' or pt.d.get('bits') != 32):
                    I.mon.ev(I, fr, st, 'badformat', sid, what='a precision is not an int')
            elif hasprec:
                prec = int(prec or 0)
            v, ty = arg()
            if v is None:
                return None
            if conv in 'diuxXo':
                bits = 64 if ln in ('l', 'll', 'j', 'z', 't', 'q') else 32
                if ty.k not in ('int', 'bool', 'enum') or (ty.d.get('bits') or 32) != bits:
                    I.mon.ev(I, fr, st, 'badformat', sid, what='an argument does not fit its conversion')
                    return None
                if hasprec:
                    return None
                bits = {'h': 16, 'hh': 8}.get(ln, bits)
                sg = conv in 'di'
                v = self.as_range(st, v, bits, sg)
                vs.append(self.num_text(st, v, bits, sg, {'x': 16, 'X': 16, 'o': 8}.get(conv, 10), conv == 'X', w,
                                        '0' in flags, '-' in flags, '+' if '+' in flags else (' ' if ' ' in flags else '')))
                if '#' in flags:
                    return None
            elif conv == 'c':
                if w > 1:
                    return None
                vs.append(T('ch', v) if not isinstance(v, int) else T('str', '%02x' % (v & 255)))
            elif conv == 's':
                if ty.k != 'ptr':
                    I.mon.ev(I, fr, st, 'badformat', sid, what='an argument does not fit its conversion')
                    return None
                if hasprec:
                    # at most prec characters; the text is assumed to hold no terminator
                    z = prec
                    b, off = self.split_ptr(v)
                    kk, size = self.store_of(I, st, b) if b is not None else (None, None)
                    if isinstance(z, Term) and st.decide(mk_le(0, z)) is not True:
                        s0 = T('prec', z)
                        s0.lo, s0.hi = 0, 1 << 62
                        z = s0
                    if kk is None and (b is None or b.op == 'lit'):
                        n = self.cstrlen(I, st, v)
                        z = self.minlen(I, st, z, n)
                    vs.append(self.get_text(I, fr, st, sid, v, z))
                else:
                    vs.append(self.text(I, st, v, self.cstrlen(I, st, v)))
                    b, off = self.split_ptr(v)
                    if b is not None and b.op == 'obj':
                        return None
                    if b is not None and b.op == 'el0' and b.a[0].op == 'sdata' and b.a[0].a[0].op == 'obj':
                        I.mon.ev(I, fr, st, 'badformat', sid, what='a text that need not be terminated is printed with %s')
                if w:
                    return None
            elif conv in 'fFeEgGaA':
                if ty.k != 'float' or (ty.d.get('bits', 64) > 64) != (ln == 'L'):
                    I.mon.ev(I, fr, st, 'badformat', sid, what='an argument does not fit its conversion')
                    return None
                P = 6 if not hasprec else prec
                if not isinstance(P, int):
                    return None
                ex = 4 if ln == 'L' else 3
                alt = 1 if '#' in flags or P > 0 else 0
                if conv in 'gG':
                    P = max(P, 1)
                    # exponent form, or as few as 1e-4 in plain form
                    mx = max(P + (1 if P > 1 or '#' in flags else 0) + 2 + ex, P + 6)
                elif conv in 'eE':
                    mx = 1 + alt + P + 2 + ex
                elif conv in 'fF':
                    mx = (4933 if ln == 'L' else 309) + alt + P
                else:
                    mx = (P if hasprec else 28) + 12 + ex
                mx += 1     # sign
                t = T('fmt', m.group(0), v)
                z = T('size', t)
                if z.lo is None:
                    z.lo, z.hi = max(1, w), max(mx, w)
                vs.append(t)
            elif conv == 'p':
                t = T('fmt', m.group(0), v)
                z = T('size', t)
                z.lo, z.hi = 1, 18
                vs.append(t)
            else:
                return None
        lit(f[pos:])
        return self.concat(st, vs)

    def as_range(self, st, v, bits, sg):
        if isinstance(v, int):
            v &= (1 << bits) - 1
            return v - (1 << bits) if sg and v >> (bits - 1) else v
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        if st.implied_le(sub(v, hi), 1) and st.implied_le(sub(lo, v), 1):
            return v
        if v.op == 'trunc' and v.a[0] == bits:
            v = v.a[3]
        t = T('trunc', bits, 1 if sg else 0, v)
        if t.lo is None:
            t.lo, t.hi = lo, hi
        return t

    def f_sprintf(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        v = [self.argv(I, fr, st, a, i) for a, i in zip(ops, argn)]
        tys = [self.node_ty(fr, i).noref() for i in argn]
        name = q.rsplit('::', 1)[-1]
        I.mon.ev(I, fr, st, 'sprintf', sid, name=name, args=v, argn=argn)
        fi = 2 if name == 'snprintf' else 1
        fmt = self.strval(I, fr, st, v[fi], tys[fi])
        t = self.format_text(I, fr, st, sid, fmt, v[fi + 1:], tys[fi + 1:])
        if t is None:
            st.opaque = st.opaque + (('the format of ' + name, fr.where(sid)),)
            return fresh('sprintf')
        z = self.size_of(t)
        if name == 'sprintf':
            self.put_text(I, fr, st, sid, v[0], self.concat(st, [t, T('str', '00')]), add(z, 1))
            return z
        out = []
        s2 = st.copy()
        if st.assume(mk_lt(z, v[1])):
            self.put_text(I, fr, st, sid, v[0], self.concat(st, [t, T('str', '00')]), add(z, 1))
            out.append((st, z))
        if s2.assume(mk_le(v[1], z)):
            if s2.decide(mk_eq(v[1], 0)) is not True:
                m = sub(v[1], 1)
                self.put_text(I, fr, s2, sid, v[0], self.concat(s2, [self.slice(s2, t, 0, m), T('str', '00')]), v[1])
            out.append((s2, z))
        return out

    def f_to_chars(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        v = [self.sval(I, fr, st, a, i) for a, i in zip(ops, argn)]
        ty = self.node_ty(fr, argn[2]).noref()
        base = v[3] if len(v) > 3 else 10
        if ty.k == 'float' and len(v) == 3:
            t = T('fmt', 'shortest', v[2])
            z = T('size', t)
            z.lo, z.hi = 1, 24 if ty.d.get('bits', 64) == 64 else (15 if ty.d.get('bits', 64) == 32 else 27)
        elif ty.k not in ('int', 'enum', 'bool') or base not in (8, 10, 16):
            return None
        else:
            t = self.num_text(st, v[2], ty.d.get('bits') or 32, bool(ty.d.get('sg')), base)
            z = self.size_of(t)
        I.mon.ev(I, fr, st, 'to_chars', sid, args=v, argn=argn)
        cap = sub(v[1], v[0])
        out = []
        s2 = st.copy()
        if st.assume(mk_le(z, cap)):
            b, off = self.split_ptr(v[0])
            k, size = self.store_of(I, st, b) if b is not None else (None, None)
            if k is not None:
                # the range passed must lie within the buffer
                I.mon.ev(I, fr, st, 'access', sid, write=True, ptr=v[0], off=off, n=cap, size=size)
            self.put_text(I, fr, st, sid, v[0], t, z)
            st.mem[T('fld', dest, 'ptr')] = add(v[0], z)
            st.mem[T('fld', dest, 'ec')] = 0
            out.append((st, dest))
        if s2.assume(mk_lt(cap, z)):
            s2.mem[T('fld', dest, 'ptr')] = v[1]
            s2.mem[T('fld', dest, 'ec')] = 75
            out.append((s2, dest))
        return out

    def f_to_string(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        ty = self.node_ty(fr, argn[0]).noref()
        if ty.k != 'int':
            return None
        v = self.sval(I, fr, st, ops[0], argn[0])
        t = self.num_text(st, v, ty.d.get('bits') or 32, bool(ty.d.get('sg')))
        st.mem[dest] = t
        st.mem[T('fld', dest, '$n')] = self.size_of(t)
        return [(st, dest)]

    def f_zero(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        name = q.rsplit('::', 1)[-1]
        v = 0 if name == 'zero' else ((1 << 63) - 1 if name == 'max' else -(1 << 63))
        return self.ret_rec(st, dest, v)

    def f_durcast(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        v = I.read(st, ops[0])
        f, g = self.dur_factor(self.node_ty(fr, argn[0])), self.dur_factor(rt)
        if f % g == 0:
            v = mul_const(v, f // g)
        else:
            v = T('durcast', v, f, g)
        return self.ret_rec(st, dest, v)

    def f_fabs(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        v = self.sval(I, fr, st, ops[0], argn[0])
        ty = self.node_ty(fr, argn[0]).noref()
        if ty.k == 'int' and rt.k == 'int':
            I.mon.ev(I, fr, st, 'iabs', sid, value=v, ty=rt)
            out = []
            least = -(1 << (rt.d.get('bits', 32) - 1))
            for s, b in self.fork(st, mk_lt(v, 0)):
                if not b:
                    out.append((s, v))
                    continue
                for s2, m in self.fork(s, mk_eq(v, least)):
                    out.append((s2, least if m else neg(v)))    # |INT_MIN| overflows
            return out
        if isinstance(v, Term) and v.op == 'i2f':
            return [(s, T('i2f', neg(v.a[0])) if b else v) for s, b in self.fork(st, mk_lt(v.a[0], 0))]
        return mk_fabs(v)

    def f_isfinite(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        v = self.sval(I, fr, st, ops[0], argn[0])
        if q.endswith('isfinite'):
            return mk_isfinite(v)
        t = T(q.rsplit('::', 1)[-1], v)
        t.isb = True
        return t

    def f_exchange(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        ty = self.node_ty(fr, argn[0]).noref()
        if ty.k == 'rec':
            c = cls(ty)
            if c in SMART or c == 'std::function':
                v = I.read(st, ops[0])
                I.drop(st, dest)
                st.mem[dest] = v
                d = st.mem.get(T('fld', ops[0], '$del'))
                if d is not None:
                    st.mem[T('fld', dest, '$del')] = d
                t1 = self.node_ty(fr, argn[1]).noref()
                if t1.k == 'nullptr':
                    st.mem[ops[0]] = 0
                    return [(st, dest)]
                if c == 'std::function':
                    r = self.make_target(I, fr, st, env, sid, ops[0], ops[1], argn[1])
                    return [(s, dest) for s, _ in r]
                st.mem[ops[0]] = I.read(st, ops[1])
                st.mem[ops[1]] = 0
                return [(st, dest)]
            if c in VECTOR + MAP + STRING:
                self.lib_copy(I, fr, st, env, sid, ops[0], dest, ty, 'move')
                self.lib_copy(I, fr, st, env, sid, ops[1], ops[0], ty, 'move')
                return [(st, dest)]
            return None
        old = I.read(st, ops[0], ty)
        nv = self.sval(I, fr, st, ops[1], argn[1])
        I.store(fr, st, ops[0], nv, ty, sid)
        return old

    def f_swap(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        ty = self.node_ty(fr, argn[0]).noref()
        if ty.k != 'rec':
            x, y = I.read(st, ops[0], ty), I.read(st, ops[1], ty)
            I.store(fr, st, ops[0], y, ty, sid)
            I.store(fr, st, ops[1], x, ty, sid)
            return 0
        c = cls(ty)
        if c in SMART or c == 'std::function':
            x, y = I.read(st, ops[0]), I.read(st, ops[1])
            st.mem[ops[0]], st.mem[ops[1]] = y, x
            return 0
        if c in VECTOR + MAP + STRING:
            t = T('t', fr.ctx, ('swap', sid))
            self.lib_copy(I, fr, st, env, sid, ops[0], t, ty, 'move')
            self.lib_copy(I, fr, st, env, sid, ops[1], ops[0], ty, 'move')
            self.lib_copy(I, fr, st, env, sid, t, ops[1], ty, 'move')
            I.drop(st, t)
            I.mon.ev(I, fr, st, 'swap', sid, a=ops[0], b=ops[1])
            return 0
        rec = ty.rec
        if not rec.in_:
            return None
        ids = [m['id'] for m in rec.methods if m.get('ck') == 'moveassign' and not m.get('del')]
        ma = I.prog.find(rec.tu, ids[0]) if ids else None
        if ma is None or ma.entry is None or not any(m.get('ck') == 'move' and not m.get('del') for m in rec.methods):
            return None
        t = T('t', fr.ctx, ('swap', sid))
        outs = self.copy_move(I, fr, st, env, sid, ops[0], t, ty, 'move')
        for dst, src in ((ops[0], ops[1]), (ops[1], t)):
            nxt = []
            for s, _ in outs:
                nxt += I.invoke(fr, s, ma, dst, [src], None, sid, site=('swap', sid, dst is ops[0])) or []
            outs = nxt
        res = []
        for s, _ in outs:
            res += [(s2, 0) for s2, _ in I.destroy(fr, s, t, ty, sid, n.get('l', 0))]
        return res

    def f_make_pair(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        return self.k_pair(I, fr, st, env, sid, n, rt.rec, dest, ops, argn) or [(st, dest)]

    def f_tie(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        return None

    def f_getid(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        f = getattr(I.mon, 'sched_self', None)
        if f is not None:
            return self.ret_rec(st, dest, f(st))
        return self.ret_rec(st, dest, T('tid', T('self')))

    def f_ref(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        st.mem[dest] = ops[0]
        return [(st, dest)]

    def f_limits(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        x = fr.fn.x[sid]
        if 'cv' in x:
            return int(x['cv'])
        if 'cf' in x:
            return T('f', x['cf'])
        return None

    def f_foreach(self, I, fr, st, env, sid, n, q, ops, argn, dest, rt):
        return None

    FREE = {}
    for _n in ('std::move', 'std::forward', 'std::as_const', 'std::move_if_noexcept', 'std::cref', 'std::ref'):
        FREE[_n] = f_ident
    FREE['std::ref'] = FREE['std::cref'] = f_ref
    FREE['std::addressof'] = FREE['std::__addressof'] = f_addressof
    FREE['std::launder'] = FREE['__builtin_launder'] = f_launder
    FREE['__builtin_expect'] = f_expect
    for _n in ('abort', 'std::abort', '__assert_fail', 'std::terminate', 'exit', '_Exit', '__builtin_unreachable',
               '__builtin_abort', '__builtin_trap'):
        FREE[_n] = f_abort
    FREE['std::make_unique'] = FREE['std::make_shared'] = f_make_unique
    FREE['std::bind'] = f_bind
    FREE['std::invoke'] = f_invoke
    FREE['std::min'] = FREE['std::max'] = f_min
    FREE['std::clamp'] = f_clamp
    for _n in ('all_of', 'any_of', 'none_of', 'find_if', 'find_if_not', 'count_if'):
        FREE['std::' + _n] = f_all_of
    FREE['std::destroy_at'] = f_destroy_at
    FREE['std::next'] = FREE['std::prev'] = f_next
    FREE['std::accumulate'] = f_accumulate
    for _n in ('isdigit', 'isalpha', 'isalnum', 'islower', 'isupper', 'isspace', 'isxdigit', 'isprint', 'ispunct',
               'tolower', 'toupper'):
        FREE[_n] = FREE['std::' + _n] = f_ctype
    FREE['std::get'] = f_get
    for _n in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'data', 'rbegin', 'rend', 'crbegin', 'crend'):
        FREE['std::' + _n] = f_begin
    FREE['std::push_heap'] = FREE['std::pop_heap'] = FREE['std::make_heap'] = f_heap
    FREE['std::sort'] = FREE['std::stable_sort'] = f_heap
    FREE['fprintf'] = FREE['std::fprintf'] = f_printf
    FREE['std::make_error_code'] = f_make_ec
    for _n in ('memcpy', 'memmove', '__builtin_memcpy', '__builtin_memmove', 'memset', '__builtin_memset'):
        FREE[_n] = FREE['std::' + _n] = f_memcpy
    FREE['std::copy_n'] = FREE['std::copy'] = f_copy_n
    FREE['strlen'] = FREE['std::strlen'] = FREE['__builtin_strlen'] = FREE['std::char_traits::length'] = f_strlen
    for _n in ('sprintf', 'snprintf'):
        FREE[_n] = FREE['std::' + _n] = f_sprintf
    FREE['std::to_chars'] = f_to_chars
    FREE['std::to_string'] = f_to_string
    FREE['strcmp'] = FREE['std::strcmp'] = f_strcmp
    for _n in ('zero', 'max', 'min'):
        FREE['std::chrono::duration::' + _n] = f_zero
    FREE['std::chrono::duration_cast'] = f_durcast
    for _n in ('fabs', 'abs', 'labs', 'llabs'):
        FREE[_n] = FREE['std::' + _n] = f_fabs
    for _n in ('isfinite', 'isnan', 'isinf'):
        FREE['std::' + _n] = f_isfinite
    FREE['std::exchange'] = f_exchange
    FREE['std::swap'] = f_swap
    FREE['std::make_pair'] = FREE['std::make_tuple'] = FREE['std::tie'] = FREE['std::forward_as_tuple'] = f_make_pair
    FREE['std::this_thread::get_id'] = f_getid
    for _n in ('max', 'min', 'lowest', 'epsilon'):
        FREE['std::numeric_limits::' + _n] = f_limits

    def free_by_name(self, I, fr, st, env, sid, n, q, ops, dest):
        """call of a C function through a pointer (e.g. a deleter)"""
        name = q.rsplit('::', 1)[-1]
        rd = I.prog.redirect(q, len(ops))
        if rd is not None:
            o = I.invoke(fr, st, rd, None, ops, dest, sid)
            if o is not None:
                return [(s, v if v is not None else 0) for s, v in o]
        return None


def _under(a, base):
    while isinstance(a, Term):
        if a is base:
            return True
        if a.op in ('fld', 'el', 'data', 'sdata', 'mel', 'ep'):
            a = a.a[0]
        else:
            return False
    return False


def _ty_of(tu, rec):
    for t in tu.types:
        if t.k == 'rec' and t.rec is rec:
            return t
    return None
