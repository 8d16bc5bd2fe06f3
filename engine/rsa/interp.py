"""Abstract interpretation of clang CFGs: disjunctive (trace-partitioned) states
over a value-numbering / weakly relational linear domain, computed to a fixed
point at loop heads (anti-unification is the widening).  Client analyses are
typestate monitors that receive events."""
import sys
import time

from . import chars
from .terms import *
from .program import Func, Rec, Type

sys.setrecursionlimit(20000)

NPOS = (1 << 64) - 1


# seconds for one entry point; end of the whole check
BUDGET = {'entry': 45, 'end': time.time() + 400}


class Undecided(Exception):
    """The analysis met code it cannot interpret precisely; no verdict."""


class State(object):
    __slots__ = ('mem', 'le', 'ne', 'tr', 'mon', 'trace', 'opaque', 'cs')

    def __init__(self):
        self.mem = {}
        self.cs = {}
        self.le = {}
        self.ne = set()
        self.tr = {}
        self.mon = {}
        self.trace = None
        self.opaque = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.le = dict(self.le)
        s.ne = set(self.ne)
        s.tr = dict(self.tr)
        s.mon = dict(self.mon)
        s.trace = self.trace
        s.opaque = self.opaque
        s.cs = dict(self.cs)
        return s

    # ---- facts ----------------------------------------------------------
    def norm(self, l):
        """substitute atoms with a known truth value"""
        c, ts = lin_parts(l)
        out = None
        for t, k in ts:
            v = None
            if t.isb:
                v = self.decide(t)
                if v is not None:
                    v = 1 if v else 0
            if v is not None:
                if out is None:
                    out = l
                out = add(out, sub(v, t), k)
        return l if out is None else out

    def ub(self, l):
        """upper bound from static ranges and single-term facts"""
        c, ts = lin_parts(l)
        for t, k in ts:
            b = None
            if k > 0:
                b = t.hi
                f = self.le.get(((t, 1),))
                if f is not None and (b is None or -f < b):
                    b = -f
                if b is None and t.isb:
                    b = 1
            else:
                b = t.lo
                f = self.le.get(((t, -1),))
                if f is not None and (b is None or f > b):
                    b = f
                if b is None and t.isb:
                    b = 0
            if b is None:
                return None
            c += k * b
        return c

    def implied_le(self, l, depth=2):
        """is  l <= 0  known?"""
        c, ts = lin_parts(l)
        if not ts:
            return c <= 0
        f = self.le.get(ts)
        if f is not None and f >= c:
            return True
        u = self.ub(l)
        if u is not None and u <= 0:
            return True
        if depth > 0:
            d = dict(ts)
            for fts, fc in self.le.items():
                hit = False
                for t, k in fts:
                    x = d.get(t)
                    if x is not None and (x > 0) == (k > 0):
                        hit = True
                        break
                if not hit:
                    continue
                r = add(l, mk_lin(fc, dict(fts)), -1)
                if self.implied_le(r, depth - 1):
                    return True
            if depth == 2 and len(ts) <= 4:
                return self.implied_chain(l)
        return False

    def implied_chain(self, l):
        """longer chains of facts, none of which makes the sum longer (a shortest path for difference facts)"""
        best = {}
        todo = [l]
        n = 0
        facts = [(fts, fc) for fts, fc in self.le.items() if len(fts) <= 3]
        while todo and n < 400:
            x = todo.pop(0)
            c, ts = lin_parts(x)
            if not ts:
                if c <= 0:
                    return True
                continue
            f = self.le.get(ts)
            if f is not None and f >= c:
                return True
            if ts in best and best[ts] <= c:
                continue
            best[ts] = c
            n += 1
            d = dict(ts)
            for fts, fc in facts:
                if any(d.get(t) is not None and (d[t] > 0) == (k > 0) for t, k in fts):
                    r = add(x, mk_lin(fc, dict(fts)), -1)
                    if len(lin_parts(r)[1]) <= len(ts):
                        todo.append(r)
        return False

    def decide(self, c):
        if isinstance(c, int):
            return c != 0
        op = c.op
        if op == 'not':
            r = self.decide(c.a[0])
            return None if r is None else not r
        if chars.ON[0]:
            r = chars.sat(c)
            if r is not None:
                m = self.cs.get(r[0], chars.FULL)
                return True if not m & ~r[1] else False if not m & r[1] else None
        r = self.tr.get(c)
        if r is not None:
            return r
        if op == 'le':
            l = self.norm(c.a[0])
            if isinstance(l, int):
                return l <= 0
            if self.implied_le(l):
                return True
            if self.implied_le(sub(1, l)):
                return False
            return None
        if op == 'eq':
            l = self.norm(c.a[0])
            if isinstance(l, int):
                return l == 0
            l = canon_sign(l)
            if l in self.ne:
                return False
            r = addr_eq(l)
            if r is not None:
                return r
            if self.implied_le(add(l, 1)) or self.implied_le(sub(1, l)):
                return False
            if self.implied_le(l) and self.implied_le(neg(l)):
                return True
            return None
        if op in ('fcmp', 'num', 'isfinite'):
            return self.decide_float(c)
        if c.lo is not None and c.lo > 0:
            return True
        if c.hi == 0 and c.lo == 0:
            return False
        if not c.isb:
            return self.decide(mk_ne(c, 0))
        return None

    def finite(self, v):
        r = mk_isfinite(v)
        return r == 1 or self.tr.get(r) is True

    def decide_float(self, c):
        if c.op == 'isfinite':
            return True if self.finite(c.a[0]) else None
        if c.op == 'num':
            return True if self.finite(c.a[0]) else None
        op, a, b = c.a

        def known(op, x, y):
            t = mk_fcmp(op, x, y)
            if isinstance(t, int):
                return t != 0
            r = self.tr.get(t)
            if r is None and isinstance(t, Term) and t.op != 'fcmp':
                r = self.decide(t)
            return r
        gt = known('<', b, a)
        eq = known('==', a, b)
        lt = known('<', a, b)
        fin = self.finite(a) and self.finite(b)
        if op == '<':
            if gt or eq or known('<=', b, a):
                return False
            if fin and gt is False and eq is False:
                return True
            if fin and known('<=', b, a) is False:
                return True
        elif op == '<=':
            if lt or eq:
                return True
            if gt:
                return False
            if fin and gt is False:
                return True
        elif op == '==':
            if lt or gt:
                return False
            if fin and lt is False and gt is False:
                return True
        return None

    def float_bounds(self, v):
        """(lo, hi) with lo <= v <= hi implied (None: unknown); both None for a value that may be NaN"""
        c = fconst(v)
        if c is not None:
            return c, c
        if isinstance(v, Term) and v.op == 'i2f':
            u, l = self.ub(v.a[0]), self.ub(neg(v.a[0]))
            return (None if l is None else float(-l)), (None if u is None else float(u))
        lo = hi = None
        fin = self.finite(v)
        fab = T('fabs', v)
        for t, val in self.tr.items():
            if t.op != 'fcmp':
                continue
            op, a, b = t.a
            if not val:
                if op == '==' or not fin:
                    continue
                op, a, b = ('<=' if op == '<' else '<'), b, a
            if a is v and fconst(b) is not None:
                x = fconst(b)
                hi = x if hi is None else min(hi, x)
                if op == '==':
                    lo = x
            elif b is v and fconst(a) is not None:
                x = fconst(a)
                lo = x if lo is None else max(lo, x)
                if op == '==':
                    hi = x
            elif a is fab and fconst(b) is not None:
                x = fconst(b)
                hi = x if hi is None else min(hi, x)
                lo = -x if lo is None else max(lo, -x)
            elif b is fab and op == '==' and fconst(a) is not None:
                x = fconst(a)
                lo, hi = -x, x
        return lo, hi

    def consistent(self):
        """a deeper look for contradictions among the facts of this path"""
        for l in self.ne:
            l = self.norm(l)
            if l == 0 or (not isinstance(l, int) and self.implied_le(l) and self.implied_le(neg(l))):
                return False
        for t, v in list(self.tr.items()):
            if t.op == 'fcmp':
                d = self.decide_float(t)
                if d is not None and d != v:
                    return False
        return True

    def prove(self, c, depth=5):
        """decide by case splitting on the conditions inside c"""
        d = self.decide(c)
        if d is True or not self.consistent():
            return True
        if d is False or depth == 0:
            return False
        for t in walk(c):
            if t is c or not t.isb or t.op == 'not' or self.decide(t) is not None:
                continue
            for v in (True, False):
                s = self.copy()
                if s.assume(t, v) and not s.prove(c, depth - 1):
                    return False
            return True
        return False

    def assume(self, c, val=True):
        """add the fact; False if infeasible"""
        d = self.decide(c)
        if d is not None:
            return d == val
        if isinstance(c, int):
            return (c != 0) == val
        if c.op == 'not':
            return self.assume(c.a[0], not val)
        if chars.ON[0]:
            r = chars.sat(c)
            if r is not None:
                m = self.cs.get(r[0], chars.FULL) & (r[1] if val else ~r[1])
                self.cs[r[0]] = m
                return m != 0
        if c.op == 'le':
            l = self.norm(c.a[0])
            return self.add_le(l) if val else self.add_le(sub(1, l))
        if c.op == 'eq':
            l = canon_sign(self.norm(c.a[0]))
            if isinstance(l, int):
                return (l == 0) == val
            if val:
                self.unify(l)
                return self.add_le(l) and self.add_le(neg(l))
            self.ne.add(l)
            if self.implied_le(l):
                return self.add_le(add(l, 1))
            if self.implied_le(neg(l)):
                return self.add_le(sub(1, l))
            return True
        if not c.isb:
            return self.assume(mk_ne(c, 0), val)
        self.tr[c] = val
        return True

    def unify(self, l):
        # booleans:  a == b  with one of them known later is handled by norm()
        c, ts = lin_parts(l)
        if len(ts) == 1 and ts[0][0].isb and ts[0][1] in (1, -1):
            v = -c * ts[0][1]
            if v in (0, 1):
                self.tr[ts[0][0]] = bool(v)

    def add_le(self, l):
        c, ts = lin_parts(l)
        if not ts:
            return c <= 0
        old = self.le.get(ts)
        if old is None or c > old:
            self.le[ts] = c
        # tighten with disequality
        cl = canon_sign(l)
        if cl in self.ne:
            c2 = c + 1
            if c2 > self.le[ts]:
                self.le[ts] = c2
        return not self.implied_le(sub(1, mk_lin(self.le[ts], dict(ts))), 1)


ROOTS = ('v', 't', 'h', 'g', 'lit', 'fnptr', 'memfn', 'sub')


def addr_root(t):
    if isinstance(t, Term) and t.op == 'el0':
        t = t.a[0]
    while isinstance(t, Term) and t.op in ('fld', 'el', 'data', 'sdata', 'mel'):
        t = t.a[0]
    return t


def addr_eq(l):
    """equality of addresses: l is canonical  a - b  or  a"""
    c, ts = lin_parts(l)
    if len(ts) == 1 and c == 0 and ts[0][1] in (1, -1):
        a = ts[0][0]
        if a.op in ('v', 't', 'h', 'g', 'lit', 'fnptr', 'memfn', 'el', 'obj', 'data', 'sdata', 'pathc', 'el0', 'cl', 'mel', 'rec'):
            return False
        if a.op == 'fld' :
            return False
        return None
    if len(ts) == 2 and ts[0][1] == -ts[1][1] and ts[0][1] in (1, -1):
        a, b = ts[0][0], ts[1][0]
        if a.op == 'fld' and b.op == 'fld':
            if a.a[0] is b.a[0] and a.a[1] != b.a[1] and c == 0:
                return False
        ra, rb = addr_root(a), addr_root(b)
        # distinct named objects
        if ra is not rb and ra.op in ('v', 't', 'h', 'g') and rb.op in ('v', 't', 'h', 'g'):
            return False
        if ra is not rb and (ra.op in ('v', 't', 'h') or rb.op in ('v', 't', 'h')) and \
                ra.op in ('v', 't', 'h', 'g', 'obj', 'arg') and rb.op in ('v', 't', 'h', 'g', 'obj', 'arg'):
            return False
        if ra is not rb and ra.op == 'obj' and rb.op == 'obj':
            return False
    pos = [t for t, k in ts if k == 1 and t.op in ADDR]
    neg = [t for t, k in ts if k == -1 and t.op in ADDR]
    if len(pos) == 1 and len(neg) == 1 and pos[0] is not neg[0]:
        # what a container keeps on the heap is neither the container nor an object around it
        ra, rb = addr_root(pos[0]), addr_root(neg[0])
        if in_storage(pos[0]) != in_storage(neg[0]) and (ra is rb or ra.op in ('v', 't', 'h', 'g') and
                                                         rb.op in ('v', 't', 'h', 'g')):
            return False
    return None


ADDR = ('v', 't', 'h', 'g', 'obj', 'fld', 'el', 'el0', 'mel', 'data')


def in_storage(t):
    if isinstance(t, Term) and t.op == 'el0':
        t = t.a[0]
    while isinstance(t, Term) and t.op in ('fld', 'el', 'data', 'sdata', 'mel'):
        if t.op in ('data', 'mel'):
            return True
        t = t.a[0]
    return False


def under(a, base):
    while isinstance(a, Term):
        if a is base:
            return True
        if a.op in ('fld', 'el', 'data', 'sdata', 'mel'):
            a = a.a[0]
        else:
            return False
    return False


def unterminated(b):
    """the characters a string_view of the harness refers to"""
    return b.a[0].op == 'obj' and str(b.a[0].a[0]).startswith('vfview')


class Frame(object):
    __slots__ = ('fn', 'ctx', 'this', 'bind', 'ret', 'parent', 'site', 'tu', 'depth', 'closure')

    def __init__(self, fn, ctx, this, ret, parent, site):
        self.fn = fn
        self.ctx = ctx
        self.this = this
        self.bind = {}
        self.ret = ret
        self.parent = parent
        self.site = site
        self.tu = fn.tu
        self.depth = parent.depth + 1 if parent else 0

    def where(self, sid=None):
        line = 0
        if sid is not None and 0 <= sid < len(self.fn.x):
            line = self.fn.x[sid]['l']
        return (self.fn.file, line or self.fn.d['line'], self.fn.q)

    def stack(self):
        out = []
        f = self
        while f is not None:
            out.append(f.fn.q)
            f = f.parent
        return out


class Monitor(object):
    """Base of all client analyses."""

    def __init__(self):
        self.stats = {}

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def inline(self, I, fr, fn):
        return True

    def call(self, I, fr, st, env, sid, n, q, obj, args, dest):
        """return None to continue with the default treatment, else a list of
        (state, value)"""
        return None

    def ev(self, I, fr, st, kind, sid, **kw):
        pass

    def racy_weak(self, st):
        """may another thread drop the last reference before any lock() of a weak_ptr?"""
        return False

    def exact_heaps(self, st):
        """does push_heap / pop_heap give a heap its actual layout, or is any
        heap kept sorted?"""
        return False

    def key(self, st):
        """discrete part of the monitor state: never merged across keys"""
        return None


class Interp(object):
    def __init__(self, prog, mon, models, max_steps=400000):
        self.prog = prog
        self.mon = mon
        self.models = models
        self.ctxs = {}
        self.steps = 0
        self.max_steps = max_steps
        self.deadline = time.time() + BUDGET['entry']
        self.funcs_seen = {}
        self.undecided = {}
        self.paths = 0
        self.aborts = 0
        self.recursion = set()
        self.fixed_summaries = {}
        self.bind_types = {}
        self.arrcap = {}
        self.arrn = {}
        self.field_type = {}

    # ---- memory -------------------------------------------------------------
    def epoch_key(self, st, a):
        ks = []
        x = a
        while isinstance(x, Term):
            e = st.mem.get(T('ep', x))
            if e is not None:
                ks.append(e)
            if x.op in ('fld', 'el', 'data', 'sdata', 'mel'):
                x = x.a[0]
            elif x.op == 'lin':
                # pointer arithmetic: follow the base pointer
                p = None
                for t, k in x.a[1]:
                    if k == 1 and t.op in ('data', 'sdata', 'fld', 'el', 'obj', 'in', 'arg'):
                        p = t
                        break
                x = p
            else:
                break
        return tuple(ks)

    def default(self, st, a, ty=None):
        r = addr_root(a)
        if isinstance(r, Term) and r.op in ('v', 't') and not st.mem.get(T('known', r)):
            return T('undef', a)
        t = T('in', a, self.epoch_key(st, a))
        if ty is not None:
            self.type_facts(t, ty)
        return t

    def type_facts(self, t, ty):
        if not isinstance(t, Term):
            return t
        k = ty.k
        if k == 'bool':
            t.isb = True
            t.lo, t.hi = 0, 1
        elif k == 'int' and not ty.d.get('sg') and t.lo is None:
            t.lo = 0
            if ty.d['bits'] <= 64:
                t.hi = (1 << ty.d['bits']) - 1
        elif k == 'int' and ty.d.get('sg') and t.lo is None and ty.d['bits'] <= 64:
            t.lo = -(1 << (ty.d['bits'] - 1))
            t.hi = (1 << (ty.d['bits'] - 1)) - 1
        elif k == 'enum' and ty.d.get('vals') and t.lo is None:
            vs = [v for _, v in ty.d['vals']]
            t.lo, t.hi = min(vs), max(vs)
        return t

    def read(self, st, a, ty=None):
        v = st.mem.get(a)
        if v is None:
            v = self.default(st, a, ty)
        elif ty is not None and isinstance(v, Term) and v.op in ('in', 's', 'phi'):
            self.type_facts(v, ty)
        return v

    def write(self, st, a, v):
        st.mem[a] = v

    def drop(self, st, base):
        for k in [k for k in st.mem if under(k, base)]:
            del st.mem[k]

    def havoc(self, st, base, keep=None):
        for k in [k for k in st.mem if under(k, base)]:
            if keep is not None and keep(k):
                continue
            del st.mem[k]
        st.mem[T('ep', base)] = fresh('ep')

    def havoc_addr(self, st, a):
        """forget one location and everything below it"""
        self.havoc(st, a)

    def children(self, st, base):
        return [k for k in st.mem if k is not base and under(k, base)]

    def copy_tree(self, st, src, dst):
        self.drop(st, dst)
        items = [(k, v) for k, v in st.mem.items() if under(k, src)]
        m = {src: dst}
        for k, v in items:
            st.mem[subst(k, m)] = v

    def move_tree(self, st, src, dst):
        """the object at src gets the address dst"""
        m = {src: dst}
        ks = [k for k in st.mem if k is src or under(k, src)]
        vals = [(k, st.mem.pop(k)) for k in ks]
        for k, v in vals:
            st.mem[subst(k, m)] = v

    def copy_obj(self, st, src, dst, ty):
        """trivial (memberwise) copy of an object of type ty"""
        rec = ty.rec if ty.k == 'rec' else None
        if rec is not None and rec.fields and rec.in_:
            for f, r in rec.all_fields():
                ft = r.tu.types[f['t']]
                s2, d2 = T('fld', src, f['n']), T('fld', dst, f['n'])
                if ft.k in ('rec', 'arr'):
                    self.copy_obj(st, s2, d2, ft)
                else:
                    st.mem[d2] = self.read(st, s2, ft)
        elif rec is not None and rec.q in ('std::pair', 'std::tuple'):
            for i, nm in enumerate(rec.parts()):
                ft = rec.targ(i)
                s2, d2 = T('fld', src, nm), T('fld', dst, nm)
                if ft is not None and ft.k in ('rec', 'arr'):
                    self.copy_obj(st, s2, d2, ft)
                else:
                    st.mem[d2] = self.read(st, s2, ft)
        else:
            v = self.read(st, src)
            self.copy_tree(st, src, dst)
            st.mem[dst] = v

    # ---- contexts -------------------------------------------------------------
    def ctx(self, parent, site, fn):
        k = (parent.ctx if parent else -1, site, fn.id, fn.tu.name)
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctxs)
            self.ctxs[k] = c
        return c

    def var(self, fr, d, name=''):
        b = fr.bind.get(d)
        if b is not None:
            return b
        return T('v', fr.ctx, d)

    # ---- running a function ----------------------------------------------------
    def run(self, fn, st=None, this=None, args=None, ret=None):
        """analyse fn as a root; args: list of values (None: unknown)"""
        st = st or State()
        fr = Frame(fn, self.ctx(None, 0, fn), this, ret, None, None)
        if fn.type(fn.d['ret']).k == 'rec' and ret is None:
            fr.ret = T('obj', 'ret:' + fn.q)
        if this is None and fn.kind in ('method', 'ctor', 'dtor'):
            fr.this = T('obj', 'this:' + (fn.rec.q if fn.rec else fn.q))
        for i, p in enumerate(fn.params):
            ty = fn.type(p['t'])
            a = args[i] if args is not None and i < len(args) else None
            if ty.k in ('lref', 'rref'):
                if a is None:
                    a = T('obj', 'arg:' + (p['n'] or str(i)))
                st.mem[T('v', fr.ctx, p['id'])] = a
            elif ty.k in ('rec', 'arr'):
                if a is None:
                    a = T('obj', 'arg:' + (p['n'] or str(i)))
                fr.bind[p['id']] = a
            else:
                if a is None:
                    a = T('arg', p['n'] or str(i))
                    self.type_facts(a, ty)
                st.mem[T('v', fr.ctx, p['id'])] = a
        self.mon.ev(self, fr, st, 'root', None)
        outs = self.exec(fr, st)
        for s, v in outs:
            self.paths += 1
            self.mon.ev(self, fr, s, 'end', None, value=v)
        return outs

    def invoke(self, fr, st, fn, this, args, dest, sid, site=None):
        """inline a call. args: list of (value, kind)"""
        if fn.q.endswith('(lambda)::__invoke'):
            # the function a captureless lambda converts to
            for f in fn.tu.funcs.values():
                if f.rec is fn.rec and f.q.endswith('(lambda)::operator()') and len(f.params) == len(fn.params):
                    fn = f
                    break
        chain = fr
        n = 0
        while chain is not None:
            if chain.fn is fn:
                n += 1
            chain = chain.parent
        if n > getattr(self.mon, 'unroll_recursion', 0):
            self.recursion.add(fn.q)
            return None
        if fr.depth > getattr(self.mon, 'max_depth', 60):
            raise Undecided('inlining too deep at ' + fn.q)
        nf = Frame(fn, self.ctx(fr, site if site is not None else sid, fn), this, dest, fr, sid)
        for i, p in enumerate(fn.params):
            ty = fn.type(p['t'])
            a = args[i] if i < len(args) else None
            if a is None:
                a = fresh('arg')
            if ty.k in ('rec', 'arr'):
                nf.bind[p['id']] = a
            else:
                st.mem[T('v', nf.ctx, p['id'])] = a
        self.mon.ev(self, nf, st, 'enter', sid)
        outs = self.exec(nf, st)
        res = []
        for s, v in outs:
            self.mon.ev(self, nf, s, 'leave', sid, value=v)
            for k in [k for k in s.mem if self.local_of(k, nf.ctx)]:
                del s.mem[k]
            res.append((s, v))
        if chars.ON[0] and len(res) > 1:
            res = chars.join(res)
        return res

    def local_of(self, k, ctx):
        r = addr_root(k)
        if r.op in ('ep', 'known'):
            r = addr_root(r.a[0])
        return isinstance(r, Term) and r.op in ('v', 't') and r.a[0] == ctx

    def exec(self, fr, st):
        fn = fr.fn
        fn.prep()
        if fn.entry is None:
            raise Undecided('no CFG for ' + fn.q)
        self.funcs_seen[(fn.q, fn.d['line'])] = fn
        out = []
        work = [(fn.entry, 0, st, {})]
        summ = {}
        pend = []
        rounds = {}
        while work or pend:
            if not work:
                # states that differ in the set of one character only are followed together
                for b0 in sorted({p[0] for p in pend}):
                    rounds[b0] = rounds.get(b0, 0) + 1
                    lim = rounds[b0] <= getattr(self.mon, 'unroll', 1)
                    work += [(b0, -1 if lim else -2, s, e)
                             for s, e in chars.join([(p[1], p[2]) for p in pend if p[0] == b0])]
                pend = []
            bid, idx, st, env = work.pop()
            b = fn.blocks[bid]
            if idx <= 0:
                if bid == fn.exit:
                    out.append((st, st.mem.pop(T('ret', fr.ctx), None)))
                    continue
                if bid in fn.heads:
                    if idx == 0 and chars.ON[0] and '/harness/' not in fn.file:
                        pend.append((bid, st, env))
                        continue
                    r = (st, env) if idx == -1 else self.loop_head(fr, bid, st, env, summ)
                    idx = 0
                    if r is None:
                        continue
                    st, env = r
            es = b['e']
            i = idx
            dead = False
            while i < len(es):
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Undecided('step budget exhausted in ' + fn.q)
                if self.steps % 64 == 0:
                    now = time.time()
                    if now > self.deadline or now > BUDGET['end']:
                        BUDGET['entry'] = min(BUDGET['entry'], 15)
                        raise Undecided('time budget exhausted in ' + fn.q)
                e = es[i]
                i += 1
                rs = self.element(fr, st, env, e)
                if rs is None:
                    continue
                if not rs:
                    dead = True
                    break
                if len(rs) == 1:
                    st = rs[0][0]
                    if e[0] == 's':
                        env[e[1]] = rs[0][1]
                    continue
                for s2, v2 in rs:
                    e2 = dict(env)
                    if e[0] == 's':
                        e2[e[1]] = v2
                    work.append((bid, i, s2, e2))
                dead = True
                break
            if dead:
                continue
            if b.get('noret'):
                continue
            self.branch(fr, b, st, env, work)
        return out

    def live_env(self, fn, env):
        keep = fn.keep
        return {k: v for k, v in env.items() if k in keep}

    def branch(self, fr, b, st, env, work):
        fn = fr.fn
        su = b['su']
        t = b.get('t')
        full = env
        env = self.live_env(fn, env) if len(env) > 0 else env
        if t is None or len(su) < 2:
            for s in su:
                if s is not None:
                    work.append((s, 0, st, env))
                    break
            return
        k = t['k']
        if k == 'SwitchStmt':
            c = self.val(fr, st, full, t['c'])
            cases = []
            for s in su:
                if s is None:
                    continue
                la = fn.blocks[s].get('la')
                if la and la[0] == 'case':
                    cases.append((s, la[1], la[2] if len(la) > 2 else la[1]))
            used = False
            for s, lo, hi in cases:
                s2 = st.copy()
                ok = True
                if lo == hi:
                    ok = s2.assume(mk_eq(c, lo))
                else:
                    ok = s2.assume(mk_le(lo, c)) and s2.assume(mk_le(c, hi))
                if ok:
                    self.note(fr, s2, t['s'], 'case %s' % lo)
                    work.append((s, 0, s2, dict(env)))
            # default / fallthrough past the switch is the last successor
            s = su[-1]
            if s is not None and not (fn.blocks[s].get('la') or [''])[0] == 'case':
                s2 = st
                ok = True
                for _, lo, hi in cases:
                    if lo == hi:
                        ok = ok and s2.assume(mk_eq(c, lo), False)
                    else:
                        dlo = s2.decide(mk_le(lo, c))
                        dhi = s2.decide(mk_le(c, hi))
                        if dlo and dhi:
                            ok = False
                if ok:
                    self.note(fr, s2, t['s'], 'default')
                    work.append((s, 0, s2, env))
            return
        if k == 'TempDtorBranch':
            # temporary created only on one side of a conditional
            c = t.get('c', -1)
            tgt = None
            # destroy exactly if the temporary's constructor was evaluated
            sid = None
            for e in fn.blocks[su[0]]['e'] if su[0] is not None else ():
                if e[0] == 'td':
                    sid = e[1]
                    break
            alive = sid is not None and st.mem.get(T('alive', fr.ctx, sid)) == 1
            nxt = su[0] if alive else su[1]
            if nxt is not None:
                work.append((nxt, 0, st, env))
            return
        if k == 'DeclStmt':
            # a variable with static storage is initialised by the first execution
            a = T('alive', self.gaddr(fr, st, fn.x[t['s']]['decls'][0]['d']))
            nxt = su[0] if st.mem.get(a) == 1 else su[1]
            st.mem[a] = 1
            if nxt is not None:
                work.append((nxt, 0, st, env))
            return
        if k in ('IndirectGotoStmt', 'CXXTryStmt', 'GCCAsmStmt'):
            raise Undecided('unsupported control flow in ' + fn.q)
        c = to_bool(self.val(fr, st, full, t['c'])) if t.get('c', -1) >= 0 else fresh('c')
        d = st.decide(c)
        tb, fb = su[0], su[1]
        if d is not None:
            nx = tb if d else fb
            if nx is None:
                nx = None
            if nx is not None:
                work.append((nx, 0, st, env))
            return
        s2 = st.copy()
        if tb is not None and fb is not None:
            if s2.assume(c, False):
                self.note(fr, s2, t['c'], False)
                self.mon.ev(self, fr, s2, 'branch', t['c'], cond=c, val=False)
                work.append((fb, 0, s2, dict(env)))
            if st.assume(c, True):
                self.note(fr, st, t['c'], True)
                self.mon.ev(self, fr, st, 'branch', t['c'], cond=c, val=True)
                work.append((tb, 0, st, env))
        else:
            nx, v = (tb, True) if tb is not None else (fb, False)
            if nx is not None and st.assume(c, v):
                work.append((nx, 0, st, env))

    def note(self, fr, st, sid, what):
        st.trace = (st.trace, fr.fn.file, fr.fn.x[sid]['l'] if sid is not None and sid >= 0 else 0, fr.fn.q, what)

    # ---- loop heads -------------------------------------------------------------
    def loop_head(self, fr, bid, st, env, summ):
        lim = getattr(self.mon, 'unroll', 1)
        if '/harness/' in fr.fn.file:
            lim = 100000     # loops of the harness are bounded
        key = (bid, self.mon.key(st))
        lst = summ.setdefault(key, [])
        for (s0, e0, n) in lst:
            if self.subsumes(s0, e0, st, env):
                return None
        if len(lst) < lim:
            lst.append((st.copy(), dict(env), 0))
            return st, env
        s0, e0, n = lst[-1]
        if n > 25:
            raise Undecided('no fixed point in ' + fr.fn.q)
        w, we = self.antiunify(fr, bid, n, s0, e0, st, env)
        lst.append((w.copy(), dict(we), n + 1))
        return w, we

    def mem_at(self, s, k):
        v = s.mem.get(k)
        if v is None:
            if k.op == 'ep':
                return 0
            if k.op in ('known', 'alive', 'ret', 'rc'):
                return 0
            return self.default(s, k)
        return v

    def subsumes(self, s0, e0, st, env):
        """is st an instance of s0 (phi terms of s0 are pattern variables)?"""
        m = {}

        def match(p, v):
            if isinstance(p, int):
                return p == v if isinstance(v, int) else False
            if p.op == 'phi':
                o = m.get(p)
                if o is None and p not in m:
                    m[p] = v
                    return True
                return same(o, v)
            if p is v:
                return True
            if p.op == 'lin':
                # linear in pattern variables: bind the first unbound one
                c, ts = p.a
                r = v
                r = add(r, -c)
                unb = None
                for t, k in ts:
                    if t.op == 'phi' and t not in m:
                        if unb is not None or k not in (1, -1):
                            return False
                        unb = (t, k)
                    else:
                        x = m.get(t, t) if t.op == 'phi' else t
                        r = add(r, x, -k)
                if unb is None:
                    return isinstance(r, int) and r == 0
                m[unb[0]] = r if unb[1] == 1 else neg(r)
                return True
            if not isinstance(v, Term) or p.op != v.op or len(p.a) != len(v.a):
                return False
            for x, y in zip(p.a, v.a):
                if isinstance(x, (Term,)) or isinstance(y, Term):
                    if not isinstance(x, Term) and isinstance(x, int) or isinstance(x, Term):
                        if not match(x, y) if isinstance(y, (Term, int)) else True:
                            return False
                    else:
                        return False
                elif isinstance(x, tuple) and isinstance(y, tuple):
                    if len(x) != len(y):
                        return False
                    for x2, y2 in zip(x, y):
                        if not match(x2, y2):
                            return False
                elif x != y:
                    return False
            return True

        def same(a, b):
            return a is b or (isinstance(a, int) and isinstance(b, int) and a == b)
        if s0.opaque != st.opaque:
            return False
        if self.mon.key(s0) != self.mon.key(st):
            return False
        keys = set(s0.mem) | set(st.mem)
        order = sorted(keys, key=lambda k: k.id)
        late = []
        for k in order:
            p, v = self.mem_at(s0, k), self.mem_at(st, k)
            if isinstance(p, Term) and p.op == 'phi':
                if not match(p, v):
                    return False
            else:
                late.append((p, v))
        for p, v in late:
            if not match(p, v):
                return False
        for k in set(e0) | set(env):
            p, v = e0.get(k), env.get(k)
            if p is None or v is None:
                continue
            if not match(p, v):
                return False
        for k, v in s0.cs.items():
            if st.cs.get(k, chars.FULL) & ~v:
                return False
        # facts of s0 must hold in st
        for ts, c in s0.le.items():
            l = subst(mk_lin(c, dict(ts)), m)
            if not st.decide(mk_le0(l)):
                return False
        for l in s0.ne:
            l = subst(l, m)
            if st.decide(mk_eq(l, 0)) is not False:
                return False
        for a, v in s0.tr.items():
            a2 = subst(a, m)
            if st.decide(a2) is not v:
                return False
        return True

    def antiunify(self, fr, bid, n, s0, e0, s1, e1):
        w = State()
        w.trace = s1.trace
        w.mon = dict(s1.mon)
        w.opaque = s1.opaque
        w.cs = {k: v | s1.cs[k] for k, v in s0.cs.items() if k in s1.cs}
        if getattr(self.mon, 'no_widening', False):
            w.opaque = w.opaque + (('a loop run more often than is followed path by path', fr.where()),)
        pairs = {}     # (difference class) -> (a, b, phi)
        lst = []

        def au(a, b, hint):
            if isinstance(a, int) and isinstance(b, int):
                if a == b:
                    return a
            elif a is b:
                return a
            lina = isinstance(a, int) or a.op not in ('str',)
            for (x, y, ph) in lst:
                if x is a and y is b:
                    return ph
                d0, d1 = sub(a, x), sub(b, y)
                if d0 is d1 or (isinstance(d0, int) and isinstance(d1, int) and d0 == d1):
                    return add(ph, d0)
                # proportional change (e.g. two counters stepping differently)
            ph = T('phi', fr.ctx, bid, n, len(lst), hint)
            isb = all((isinstance(z, int) and z in (0, 1)) or (isinstance(z, Term) and z.isb) for z in (a, b))
            isterm = [z for z in (a, b) if isinstance(z, Term)]
            if isb and any(z.isb for z in isterm):
                ph.isb = True
            los = [(z if isinstance(z, int) else z.lo) for z in (a, b)]
            his = [(z if isinstance(z, int) else z.hi) for z in (a, b)]
            # keep only type-given ranges (stable), not iteration constants
            tl = [z.lo for z in isterm if z.lo is not None]
            th = [z.hi for z in isterm if z.hi is not None]
            if tl and all(l is not None for l in los) and min(los) >= min(tl):
                ph.lo = min(tl)
            if th and all(h is not None for h in his) and max(his) <= max(th):
                ph.hi = max(th)
            lst.append((a, b, ph))
            return ph
        keys = sorted(set(s0.mem) | set(s1.mem), key=lambda k: k.id)
        for k in keys:
            a, b = self.mem_at(s0, k), self.mem_at(s1, k)
            if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
                if k in s0.mem or k in s1.mem:
                    w.mem[k] = a
                continue
            w.mem[k] = au(a, b, 'm%d' % k.id)
        we = {}
        for k in set(e0) & set(e1):
            we[k] = au(e0[k], e1[k], 'e%d' % k)
        # candidate facts: facts of s0 re-expressed over phis, kept if they hold in both
        m0 = {}
        m1 = {}
        for a, b, ph in lst:
            m0[ph] = a
            m1[ph] = b
        back = {}
        for a, b, ph in lst:
            if isinstance(a, Term) and a.op != 'lin':
                back.setdefault(a, ph)
        cands = set()
        for src in (s0, s1):
            for ts, c in src.le.items():
                cands.add(mk_lin(c, dict(ts)))
        for l in list(cands):
            cands.add(subst(l, back))
        # simple interval/zone candidates on the new phis
        for a, b, ph in lst:
            if ph.isb:
                continue
            if isinstance(a, int):
                cands.add(sub(a, ph))       # ph >= first value
                cands.add(sub(ph, a))
            for a2, b2, ph2 in lst:
                if ph2 is not ph and not ph2.isb:
                    cands.add(sub(ph, ph2))
            if isinstance(a, Term):
                cands.add(sub(a, ph))
                cands.add(sub(ph, a))
        for l in cands:
            if isinstance(l, int):
                continue
            if s0.decide(mk_le0(subst(l, m0))) and s1.decide(mk_le0(subst(l, m1))):
                w.add_le(l)
        ncand = set(s0.ne) | set(s1.ne)
        for l in list(ncand):
            ncand.add(subst(l, back))
        for l in ncand:
            if isinstance(l, int):
                continue
            if s0.decide(mk_eq(subst(l, m0), 0)) is False and s1.decide(mk_eq(subst(l, m1), 0)) is False:
                w.ne.add(canon_sign(l))
        tc = set(s0.tr) | set(s1.tr)
        for c in list(tc):
            tc.add(subst(c, back))
        for c in tc:
            if isinstance(c, int):
                continue
            x, y = s0.decide(subst(c, m0)), s1.decide(subst(c, m1))
            if x is not None and x == y:
                w.tr[c] = x
        return w, we

    # ---- elements -----------------------------------------------------------------
    def element(self, fr, st, env, e):
        k = e[0]
        if k == 's':
            n = fr.fn.x[e[1]]
            return self.stmt(fr, st, env, e[1], n)
        if k == 'i':
            kind, chain, tyi, sid = e[1], e[2], e[3], e[4]
            if sid is None or sid < 0:
                return None
            if kind == 'm':
                a = fr.this
                for f in chain:
                    a = T('fld', a, f)
                ty = fr.tu.types[tyi]
                if ty.k in ('lref', 'rref'):
                    st.mem[a] = self.val(fr, st, env, sid)
                elif ty.k == 'rec':
                    self.val(fr, st, env, sid)
                    self.mon.ev(self, fr, st, 'init', sid, addr=a, ty=ty)
                elif ty.k == 'arr':
                    self.val(fr, st, env, sid)
                else:
                    v = self.val(fr, st, env, sid)
                    self.mon.ev(self, fr, st, 'init', sid, addr=a, ty=ty, value=v)
                    st.mem[a] = v
            else:
                self.val(fr, st, env, sid)
                if fr.fn.rec is not None and fr.fn.rec.d.get('poly'):
                    rec = fr.fn.rec
                    st.mem[T('fld', fr.this, '$dyn')] = T('rec', rec.tu.name, rec.tu.recs.index(rec))
            return None
        if k == 'ad':
            ty = fr.tu.types[e[2]]
            a = self.var(fr, e[1])
            if ty.k in ('lref', 'rref'):
                # lifetime-extended temporary bound to a reference
                a = st.mem.get(a)
                ty = ty.pointee
                if a is None:
                    return None
            r = self.destroy(fr, st, a, ty, None, e[3])
            for s, _ in r:
                self.drop(s, a)
            return r
        if k == 'td':
            sid = e[1]
            n = fr.fn.x[sid]
            if fr.fn.dest.get(sid, ('tmp',))[0] != 'tmp':
                return None     # initialises an object of its own: not a temporary
            a = self.destaddr(fr, st, sid)
            ty = fr.tu.types[n['t']]
            r = self.destroy(fr, st, a, ty, sid, n['l'])
            for s, _ in r:
                self.drop(s, a)
                s.mem.pop(T('alive', fr.ctx, sid), None)
            return r
        if k == 'md':
            ty = fr.tu.types[e[2]]
            if ty.k in ('rec', 'arr'):
                return self.destroy(fr, st, T('fld', fr.this, e[1]), ty, None, fr.fn.d['end'])
            return None
        if k == 'bd':
            ty = fr.tu.types[e[2]]
            return self.destroy(fr, st, fr.this, ty, None, fr.fn.d['end'])
        if k == 'dd':
            return None
        return None

    def gaddr(self, fr, st, d):
        """address of a variable with static or thread storage"""
        a = (fr.tu.name if d.startswith('#') else '') + d
        g = fr.tu.globals.get(d)
        if g is None:
            g = next((t.globals[d] for t in self.prog.tus if d in t.globals), None) if not d.startswith('#') else None
        if g is not None and g.get('tls'):
            return T('g', a, 'thread', self.mon.sched_self(st) if hasattr(self.mon, 'sched_self') else 0)
        return T('g', a)

    def destaddr(self, fr, st, sid):
        d = fr.fn.dest.get(sid)
        if d is None:
            return T('t', fr.ctx, sid)
        if d[0] == 'var':
            if d[2]:
                return self.gaddr(fr, st, d[1])
            return self.var(fr, d[1])
        if d[0] == 'ret':
            return fr.ret if fr.ret is not None else T('t', fr.ctx, sid)
        if d[0] == 'this':
            return fr.this
        if d[0] == 'mem':
            a = fr.this
            for f in d[1]:
                a = T('fld', a, f)
            return a
        if d[0] == 'new':
            return self.newaddr(fr, d[1])
        if d[0] == 'tmp':
            return T('t', fr.ctx, d[1])
        if d[0] == 'sub':
            base = self.destaddr(fr, st, d[1])
            n = fr.fn.x[d[1]]
            ty = fr.tu.types[n['t']]
            return self.subaddr(base, ty, d[2])
        if d[0] == 'cap':
            return T('fld', self.destaddr(fr, st, d[1]), d[2])
        raise Undecided('dest ' + str(d))

    def subaddr(self, base, ty, j):
        if ty.k == 'arr':
            return T('el', base, j)
        rec = ty.rec
        if rec is not None:
            fs = [f for f, _ in rec.all_fields()]
            nb = len([b for b in rec.d.get('bases', ())])
            if nb and j < nb:
                return base
            if fs and j - nb < len(fs):
                return T('fld', base, fs[j - nb]['n'])
            if rec.q == 'std::array':
                return base
        return T('el', base, j)

    def newaddr(self, fr, sid):
        a = fr.bind.get(('new', sid))
        return a if a is not None else T('h', fr.ctx, sid)

    def val(self, fr, st, env, sid):
        if sid is None or sid < 0:
            return None
        v = env.get(sid)
        if v is not None:
            return v
        n = fr.fn.x[sid]
        r = self.stmt(fr, st, env, sid, n)
        if r is None:
            v = fresh('u')
        elif len(r) == 0:
            v = fresh('dead')
        else:
            if r[0][0] is not st:
                # a fork in an on-demand evaluation: keep the first
                self.undec('fork in on-demand evaluation', fr, sid)
            v = r[0][1]
        if v is None:
            v = 0
        env[sid] = v
        return v

    def undec(self, what, fr=None, sid=None):
        w = fr.where(sid) if fr else ('', 0, '')
        self.undecided[(what, w)] = self.undecided.get((what, w), 0) + 1

    # ---- statements and expressions -----------------------------------------------
    def placed(self, fr, st, env, nsid):
        n = fr.fn.x[nsid]
        if not n['pl']:
            return
        a = self.val(fr, st, env, n['pl'][0])
        a = self.deref(a) if isinstance(a, Term) else T('null')
        if a.op == 'el' and isinstance(a.a[1], int) and a.a[1] == 0 and len(a.a) == 2:
            a = a.a[0]
        fr.bind[('new', nsid)] = a

    def stmt(self, fr, st, env, sid, n):
        d = fr.fn.dest.get(sid)
        if d is not None and d[0] == 'new':
            self.placed(fr, st, env, d[1])
        h = getattr(self, 'x_' + n['k'], None)
        if h is not None:
            r = h(fr, st, env, sid, n)
        else:
            r = self.x_default(fr, st, env, sid, n)
        if isinstance(r, list):
            return r
        return [(st, r)]

    def ty(self, fr, n):
        return fr.tu.types[n['t']]

    def x_default(self, fr, st, env, sid, n):
        if 'cv' in n:
            return int(n['cv'])
        if len(n['c']) == 1:
            return self.val(fr, st, env, n['c'][0])
        if n['k'].endswith('Stmt') or 't' not in n:
            return 0
        t = T('opq', n['k'], fr.ctx, sid)
        return t

    x_ExprWithCleanups = x_default
    x_ParenExpr = x_default
    x_ConstantExpr = x_default
    x_CXXDefaultArgExpr = x_default
    x_CXXDefaultInitExpr = x_default
    x_SubstNonTypeTemplateParmExpr = x_default

    def x_DoStmt(self, fr, st, env, sid, n):
        return 0
    x_ForStmt = x_WhileStmt = x_IfStmt = x_SwitchStmt = x_BreakStmt = x_NullStmt = x_CompoundStmt = x_DoStmt
    x_CXXForRangeStmt = x_ContinueStmt = x_DoStmt

    def x_IntegerLiteral(self, fr, st, env, sid, n):
        return int(n['cv']) if 'cv' in n else fresh('int')
    x_CharacterLiteral = x_CXXBoolLiteralExpr = x_IntegerLiteral

    def x_FloatingLiteral(self, fr, st, env, sid, n):
        try:
            return mk_f(float(n['cf']))
        except (KeyError, ValueError):
            return T('f', n.get('cf', '?'))

    def x_CXXNullPtrLiteralExpr(self, fr, st, env, sid, n):
        return 0
    x_GNUNullExpr = x_CXXNullPtrLiteralExpr

    def x_StringLiteral(self, fr, st, env, sid, n):
        return T('lit', n.get('str', ''))

    def x_PredefinedExpr(self, fr, st, env, sid, n):
        return T('lit', '')

    def x_SourceLocExpr(self, fr, st, env, sid, n):
        return int(n['cv']) if 'cv' in n else T('lit', '')

    def x_ImplicitValueInitExpr(self, fr, st, env, sid, n):
        return 0

    def x_CXXScalarValueInitExpr(self, fr, st, env, sid, n):
        return 0

    def x_UnaryExprOrTypeTraitExpr(self, fr, st, env, sid, n):
        return int(n['cv']) if 'cv' in n else fresh('sz')
    x_TypeTraitExpr = x_CXXNoexceptExpr = x_UnaryExprOrTypeTraitExpr

    def x_CXXThisExpr(self, fr, st, env, sid, n):
        # inside a lambda body 'this' is the captured one
        rec = fr.fn.rec
        if rec is not None and rec.d.get('lambda'):
            for c in rec.d.get('caps', ()):
                if c['v'] == 'this':
                    return self.read(st, T('fld', fr.this, c['f']))
        return self.ptrform(fr.this)

    def x_DeclRefExpr(self, fr, st, env, sid, n):
        dk = n.get('dk')
        if dk == 'fn':
            if n.get('mstatic') is False:
                return T('memfn', n['f'], fr.tu.name, n['q'])
            return T('fnptr', n['f'], fr.tu.name, n['q'])
        if dk == 'enum':
            return int(n['cv'])
        if dk == 'binding':
            return self.binding(fr, st, env, sid, n)
        if dk in ('var', 'parm', 'global'):
            return self.declref(fr, st, n['d'], fr.tu.types[n['vt']], dk, n)
        return T('opq', 'decl', fr.ctx, sid)

    def declref(self, fr, st, d, vt, dk, n):
        if n.get('cap') or (fr.fn.rec is not None and fr.fn.rec.d.get('lambda')
                            and d not in fr.fn.param_ids and self.is_capture(fr, d)):
            for c in fr.fn.rec.d.get('caps', ()):
                if c['v'] == d:
                    a = T('fld', fr.this, c['f'])
                    if c['ref']:
                        a = self.read(st, a)
                    elif vt.k in ('lref', 'rref'):
                        pass
                    return a
        if dk == 'global' or n.get('slocal'):
            a = self.gaddr(fr, st, d)
            if vt.k in ('lref', 'rref'):
                return self.read(st, a)
            if fr.fn.q.startswith('rst::'):
                self.field_type[a] = vt
            return a
        a = self.var(fr, d)
        if vt.k in ('lref', 'rref'):
            v = st.mem.get(a)
            if v is None:
                v = T('undef', a)
            return v
        return a

    def is_capture(self, fr, d):
        for c in fr.fn.rec.d.get('caps', ()):
            if c['v'] == d:
                return True
        return False

    def binding(self, fr, st, env, sid, n):
        if n.get('hv'):
            a = st.mem.get(T('v', fr.ctx, n['hv']))
            if a is not None:
                return a
        bx = n.get('bx', -1)
        if bx is not None and bx >= 0:
            env.pop(bx, None)
            self.purge(fr, env, bx)
            return self.val(fr, st, env, bx)
        return fresh('bind')

    def purge(self, fr, env, sid):
        env.pop(sid, None)
        for c in fr.fn.x[sid]['c']:
            if c >= 0:
                self.purge(fr, env, c)

    def x_MemberExpr(self, fr, st, env, sid, n):
        mk = n['mk']
        if mk == 'field':
            base = self.val(fr, st, env, n['c'][0])
            if not isinstance(base, Term):
                base = T('null') if base == 0 else T('ptr', base)
            base = self.deref(base)
            self.mon.ev(self, fr, st, 'member', sid, base=base, field=n['m'], arrow=n['arrow'])
            a = T('fld', base, n['m'])
            if n.get('mrec') is not None and fr.tu.recs[n['mrec']].q.startswith('rst::'):
                self.field_type[a] = fr.tu.types[n['mt']]
            if fr.tu.types[n['mt']].k in ('lref', 'rref'):
                a = self.read(st, a)
            return a
        if mk == 'static':
            a = self.gaddr(fr, st, n['d'])
            return a
        if mk == 'method':
            return T('memfn', n['f'], fr.tu.name, n['q'])
        return T('opq', 'member', fr.ctx, sid)

    def x_ArraySubscriptExpr(self, fr, st, env, sid, n):
        b = self.val(fr, st, env, n['c'][0])
        i = self.val(fr, st, env, n['c'][1])
        # base is a decayed pointer
        return self.deref(add(b, i))

    def deref(self, p):
        if isinstance(p, int):
            return T('null') if p == 0 else T('ptr', p)
        # pointer into an array object
        if p.op == 'lin':
            c, ts = p.a
            base = [t for t, k in ts if k == 1 and t.op == 'el0']
            if len(base) == 1:
                return T('el', base[0].a[0], sub(p, base[0]))
        if p.op == 'el0':
            return T('el', p.a[0], 0)
        return p

    def ptrform(self, a):
        """pointer value designating the location a"""
        if isinstance(a, Term) and a.op == 'el':
            return add(T('el0', a.a[0]), a.a[1])
        return a

    def load(self, fr, st, a, ty, sid=None):
        if isinstance(a, int):
            a = T('null')
        if a.op == 'lit' :
            s = a.a[0]
            return int(s[0:2], 16) if s else 0
        if a.op == 'lin' and len(a.a[1]) == 1 and a.a[1][0][0].op == 'lit':
            s = a.a[1][0][0].a[0]
            i = a.a[0]
            if 0 <= i < len(s) // 2:
                return int(s[2 * i:2 * i + 2], 16)
            if i == len(s) // 2:
                return 0
        if a.op == 'el' and a not in st.mem:
            b = a.a[0]
            if b.op == 'sdata' or T('fld', b, '$txt') in st.mem:
                k, size = self.models.store_of(self, st, T('el0', b))
                if k is not None:
                    self.mon.ev(self, fr, st, 'read', sid, addr=k, value=0, ty=ty)
                    self.mon.ev(self, fr, st, 'access', sid, write=False, ptr=a, off=a.a[1], n=1,
                                size=size if b.op != 'sdata' or unterminated(b) else add(size, 1))
                    v = self.models.at(st, self.read(st, k), a.a[1])
                    return v & 255 if isinstance(v, int) and ty.k == 'int' and not ty.d.get('sg') else v
            elif b in self.arrcap:
                self.mon.ev(self, fr, st, 'access', sid, write=False, ptr=a, off=a.a[1], n=1, size=self.arrcap[b])
        v = self.read(st, a, ty)
        self.mon.ev(self, fr, st, 'read', sid, addr=a, value=v, ty=ty)
        return v

    def store(self, fr, st, a, v, ty=None, sid=None):
        if isinstance(a, int):
            a = T('null')
        if a.op == 'el':
            b = a.a[0]
            if b.op == 'sdata' or T('fld', b, '$txt') in st.mem:
                k, size = self.models.store_of(self, st, T('el0', b))
                if k is not None:
                    self.mon.ev(self, fr, st, 'write', sid, addr=k, value=v, ty=ty)
                    self.models.put_text(self, fr, st, sid, add(T('el0', b), a.a[1]),
                                         T('ch', v) if not isinstance(v, int) else T('str', '%02x' % (v & 255)), 1)
                    return
            elif b in self.arrcap:
                self.mon.ev(self, fr, st, 'access', sid, write=True, ptr=a, off=a.a[1], n=1, size=self.arrcap[b])
        self.mon.ev(self, fr, st, 'write', sid, addr=a, value=v, ty=ty)
        st.mem[a] = v

    def x_ImplicitCastExpr(self, fr, st, env, sid, n):
        return self.cast(fr, st, env, sid, n)
    x_CStyleCastExpr = x_CXXStaticCastExpr = x_CXXFunctionalCastExpr = x_CXXReinterpretCastExpr = \
        x_CXXConstCastExpr = x_CXXDynamicCastExpr = x_ImplicitCastExpr

    def decay(self, v, src):
        """the address of the first element of the array v"""
        if isinstance(v, Term) and v.op in ('v', 'fld', 'g', 't', 'obj', 'el'):
            if v not in self.arrcap and src.k == 'arr' and src.d.get('n') and src.pointee.k == 'int' and \
                    src.pointee.d.get('bits') == 8:
                self.arrcap[v] = src.d['n']
            return T('el0', v)
        return v

    def cast(self, fr, st, env, sid, n):
        ck = n['ck']
        c = n['c'][0]
        if 'cv' in n and ck != 'LValueToRValue' or ('cv' in n and ck == 'LValueToRValue'):
            return int(n['cv'])
        v = self.val(fr, st, env, c)
        ty = self.ty(fr, n)
        if ck == 'LValueToRValue':
            if ty.k == 'rec':
                return v
            return self.load(fr, st, v, ty, sid)
        if ck in ('IntegralCast',):
            src = fr.tu.types[fr.fn.x[c]['t']]
            return self.intcast(st, v, src, ty)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return to_bool(v)
        if ck == 'FloatingToBoolean':
            return mk_not(mk_fcmp('==', v, mk_f(0)))
        if ck == 'IntegralToFloating':
            if isinstance(v, int):
                return mk_f(v)
            return T('i2f', v)
        if ck == 'FloatingToIntegral':
            return self.f2i(fr, st, v, ty, sid)
        if ck == 'FloatingCast':
            return T('f2f', v, ty.s)
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return 0
        if ck == 'ArrayToPointerDecay':
            return self.decay(v, fr.tu.types[fr.fn.x[c]['t']])
        if ck in ('ToVoid',):
            return 0
        if ck == 'UserDefinedConversion':
            return v
        if ck == 'BitCast' and isinstance(v, Term) and v.op == 'el0' and ty.k == 'ptr' and ty.pointee.k == 'rec':
            src = fr.tu.types[fr.fn.x[c]['t']]
            if src.k == 'ptr' and src.pointee.k in ('int', 'void', 'enum'):
                return v.a[0]       # an object stored in a byte array
        if ck in ('BitCast', 'LValueBitCast') and isinstance(v, Term):
            self.reinterpreted(fr, st, sid, v, fr.tu.types[fr.fn.x[c]['t']], ty, ck)
        return v

    def reinterpreted(self, fr, st, sid, v, src, dst, ck):
        """a pointer taken as one to another type without adjusting it: to void
        and back is fine for the same type only, between classes only when the
        base class lies at the start of the derived one"""
        s = src.pointee if src.k == 'ptr' else src if ck == 'LValueBitCast' else None
        d = dst.pointee if dst.k == 'ptr' else dst if ck == 'LValueBitCast' else None
        if s is None or d is None:
            return
        if s.k == 'rec' and s.rec is not None and d.k == 'void':
            st.mon['asvoid'] = st.mon.get('asvoid', frozenset()) | {(v, s.rec)}
            return
        if d.k != 'rec' or d.rec is None:
            return
        if s.k == 'rec' and s.rec is not None:
            srcs = [s.rec]
        elif s.k == 'void':
            srcs = [r for a, r in st.mon.get('asvoid', ()) if a is v]
        else:
            return
        if srcs and all(self.apart(r, d.rec) for r in srcs):
            self.mon.ev(self, fr, st, 'misadjusted', sid, addr=v, src=srcs[0].s, dst=d.rec.s)

    def apart(self, a, b):
        if a.s == b.s:
            return False
        ms = [m for q, m in a.moved_bases() if q == b.s] + [m for q, m in b.moved_bases() if q == a.s]
        return bool(ms) and all(ms)

    def f2i(self, fr, st, v, ty, sid):
        self.mon.ev(self, fr, st, 'f2i', sid, value=v, ty=ty)
        bits, sg = ty.d.get('bits') or 64, ty.d.get('sg')
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        c = fconst(v)
        if c is not None and lo - 1 < c < hi + 1:
            return int(c)
        if isinstance(v, Term) and v.op == 'i2f':
            x, m = v.a[0], 1 << 53
            if st.implied_le(sub(x, min(m, hi))) and st.implied_le(sub(max(-m, lo), x)):
                return x
        t = T('f2i', v, ty.s)
        t.lo, t.hi = lo, hi
        return t

    def intcast(self, st, v, src, dst):
        if isinstance(v, int):
            bits = dst.d.get('bits')
            if bits:
                v &= (1 << bits) - 1
                if dst.d.get('sg') and v >> (bits - 1):
                    v -= 1 << bits
            return v
        if dst.k not in ('int', 'enum') or not dst.d.get('bits'):
            return v
        if src.k == 'bool':
            return v
        lo, hi = (0, (1 << dst.d['bits']) - 1)
        if dst.d.get('sg'):
            lo, hi = -(1 << (dst.d['bits'] - 1)), (1 << (dst.d['bits'] - 1)) - 1
        sbits = src.d.get('bits')
        if src.k in ('int', 'enum') and sbits:
            if sbits < dst.d['bits'] and (dst.d.get('sg') or not src.d.get('sg')):
                return v
            if sbits == dst.d['bits'] and bool(src.d.get('sg')) == bool(dst.d.get('sg')):
                return v
        if st.implied_le(sub(v, hi), 1) and st.implied_le(sub(lo, v), 1):
            return v
        t = T('trunc', dst.d['bits'], 1 if dst.d.get('sg') else 0, v)
        if t.lo is None:
            t.lo, t.hi = lo, hi
        return t

    def x_MaterializeTemporaryExpr(self, fr, st, env, sid, n):
        c = n['c'][0]
        cn = fr.fn.x[c]
        v = self.val(fr, st, env, c)
        ty = fr.tu.types[cn['t']]
        if ty.k in ('rec', 'arr') and cn.get('vk') == 'r':
            return v
        a = T('t', fr.ctx, sid)
        st.mem[a] = v
        return a

    def x_CXXBindTemporaryExpr(self, fr, st, env, sid, n):
        v = self.val(fr, st, env, n['c'][0])
        if fr.fn.dest.get(sid, ('tmp',))[0] == 'tmp':
            st.mem[T('alive', fr.ctx, sid)] = 1
        return v

    def x_UnaryOperator(self, fr, st, env, sid, n):
        op = n['op']
        if 'cv' in n:
            return int(n['cv'])
        c = n['c'][0]
        v = self.val(fr, st, env, c)
        ty = self.ty(fr, n)
        if op == '&':
            return self.ptrform(v)
        if op == '*':
            return self.deref(v)
        if op == '!':
            return mk_not(to_bool(v))
        if op == '-':
            if ty.k == 'float':
                return mk_f(-fconst(v)) if fconst(v) is not None else T('fneg', v)
            return neg(v)
        if op == '+':
            return v
        if op == '~':
            return T('~', v, ty.d.get('bits', 64)) if isinstance(v, Term) else (~v) & ((1 << ty.d.get('bits', 64)) - 1)
        if op in ('++', '--'):
            old = self.load(fr, st, v, ty if n.get('vk') == 'r' else fr.tu.types[fr.fn.x[c]['t']], sid)
            new = add(old, 1 if op == '++' else -1)
            vt = fr.tu.types[fr.fn.x[c]['t']]
            if isinstance(new, int) and vt.k == 'int' and not vt.d.get('sg'):
                new &= (1 << vt.d['bits']) - 1
            if vt.k == 'int' and not vt.d.get('sg') and op == '--' and isinstance(new, Term):
                if not st.implied_le(neg(new), 1):
                    self.mon.ev(self, fr, st, 'underflow', sid, value=new)
            self.store(fr, st, v, new, vt, sid)
            if n.get('post'):
                return old
            return v if n.get('vk') == 'l' else new
        if op == '__extension__':
            return v
        return T('un' + op, v)

    def x_ConditionalOperator(self, fr, st, env, sid, n):
        ci, ti, fi = n['c']
        ty = self.ty(fr, n)
        if 'cv' in n:
            return int(n['cv'])
        c = env.get(ci)
        if c is None:
            c = self.val(fr, st, env, ci)
        d = st.decide(to_bool(c))
        pick = None
        if d is True:
            pick = ti
        elif d is False:
            pick = fi
        else:
            if ti in env and fi not in env:
                pick = ti
            elif fi in env and ti not in env:
                pick = fi
        if ty.k == 'void':
            return 0
        if pick is None:
            self.undec('conditional', fr, sid)
            return fresh('cond')
        v = self.val(fr, st, env, pick)
        for z in (ti, fi):
            env.pop(z, None)
        return v

    def x_BinaryConditionalOperator(self, fr, st, env, sid, n):
        self.undec('binary conditional', fr, sid)
        return fresh('cond')

    def x_OpaqueValueExpr(self, fr, st, env, sid, n):
        return self.x_default(fr, st, env, sid, n)

    def logical(self, fr, st, env, sid, n):
        l, r = n['c']
        lv = self.logval(fr, st, env, l)
        d = st.decide(to_bool(lv))
        if n['op'] == '&&':
            if d is False:
                return 0
        else:
            if d is True:
                return 1
        if d is None:
            self.undec('logical', fr, sid)
            return fresh('log')
        rv = self.logval(fr, st, env, r)
        v = to_bool(rv)
        dv = st.decide(v)
        return v if dv is None else int(dv)

    def logval(self, fr, st, env, sid):
        v = env.get(sid)
        if v is not None:
            return v
        n = fr.fn.x[sid]
        if n['k'] in ('ParenExpr', 'ExprWithCleanups') or (n['k'].endswith('CastExpr') and len(n['c']) == 1
                                                        and fr.fn.x[n['c'][0]]['k'] in ('BinaryOperator', 'ParenExpr')):
            return self.logval(fr, st, env, n['c'][0])
        if n['k'] == 'BinaryOperator' and n['op'] in ('&&', '||'):
            return self.logical(fr, st, env, sid, n)
        return self.val(fr, st, env, sid)

    FOPS = {'<', '>', '<=', '>=', '==', '!='}

    def x_BinaryOperator(self, fr, st, env, sid, n):
        op = n['op']
        l, r = n['c'][0], n['c'][1]
        if op in ('&&', '||'):
            return self.logical(fr, st, env, sid, n)
        if op == ',':
            self.val(fr, st, env, l)
            return self.val(fr, st, env, r)
        if 'cv' in n and op != '=':
            return int(n['cv'])
        a = self.val(fr, st, env, l)
        b = self.val(fr, st, env, r)
        lt = fr.tu.types[fr.fn.x[l]['t']]
        if op == '=':
            if lt.k == 'rec':
                self.copy_obj(st, b, a, lt)
                return a
            self.store(fr, st, a, b, lt, sid)
            return a
        return self.binop(fr, st, op, a, b, lt, self.ty(fr, n), sid)

    def binop(self, fr, st, op, a, b, lt, rt, sid):
        if lt.k == 'float':
            if op in self.FOPS:
                return self.fcmp(st, op, a, b)
            x, y = fconst(a), fconst(b)
            if x is not None and y is not None:
                try:
                    r = {'+': x + y, '-': x - y, '*': x * y}.get(op)
                    if r is not None:
                        return mk_f(r)
                except OverflowError:
                    pass
            if op == '-' and a is b and st.decide(mk_isfinite(a)) is True:
                return mk_f(0)
            return T('fop', op, a, b)
        if op in ('+', '-', '*') and isinstance(a, int) and isinstance(b, int) and rt.k == 'int' and not rt.d.get('sg'):
            return (a + b if op == '+' else a - b if op == '-' else a * b) & ((1 << rt.d['bits']) - 1)
        if op == '+':
            return add(a, b)
        if op == '-':
            r = sub(a, b)
            if rt.k == 'int' and not rt.d.get('sg') and isinstance(r, Term):
                if not st.implied_le(neg(r), 2):
                    self.mon.ev(self, fr, st, 'underflow', sid, value=r)
                    if getattr(self.mon, 'wrap_sub', False):
                        t = T('usub', a, b)
                        t.lo, t.hi = 0, (1 << rt.d['bits']) - 1
                        return t
            return r
        if op == '*':
            if isinstance(a, int):
                return mul_const(b, a)
            if isinstance(b, int):
                return mul_const(a, b)
            x, y = (a, b) if a.id <= b.id else (b, a)
            return T('mul', x, y)
        if op == '==':
            return mk_eq(a, b)
        if op == '!=':
            return mk_ne(a, b)
        if op == '<':
            return mk_lt(a, b)
        if op == '>':
            return mk_lt(b, a)
        if op == '<=':
            return mk_le(a, b)
        if op == '>=':
            return mk_le(b, a)
        bits = rt.d.get('bits', 64)
        if isinstance(a, int) and isinstance(b, int):
            try:
                r = {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                     '<<': lambda: (a << b), '>>': lambda: a >> b,
                     '/': lambda: tdiv(a, b), '%': lambda: a - b * tdiv(a, b)}[op]()
                if rt.k == 'int' and not rt.d.get('sg'):
                    r &= (1 << bits) - 1
                return r
            except (KeyError, ValueError):
                pass
        t = T(op, a, b, bits)
        if op in ('&', '>>', '%') and t.lo is None:
            t.lo = 0
            if op == '&':
                for z in (a, b):
                    if isinstance(z, int) and z >= 0:
                        t.hi = z
            if op == '%' and isinstance(b, int) and b > 0:
                t.hi = b - 1
            if op == '>>' and isinstance(b, int):
                u = a.hi if a.lo is not None and a.lo >= 0 else (1 << bits) - 1
                t.hi = u >> b
        if op in ('/', '%') and rt.d.get('sg') and not (isinstance(a, int) and a >= 0 or isinstance(a, Term) and
                                                        a.lo is not None and a.lo >= 0):
            # rounds towards zero
            t.lo = t.hi = None
            if op == '%' and isinstance(b, int) and b:
                t.lo, t.hi = -abs(b) + 1, abs(b) - 1
        elif op == '/' and t.lo is None and isinstance(b, int) and b > 0:
            hi = a.hi if a.hi is not None else (1 << bits) - 1
            t.lo, t.hi = 0, hi // b
        if op in ('|', '^') and t.lo is None:
            hs = [z if isinstance(z, int) else (z.hi if z.lo is not None and z.lo >= 0 else None) for z in (a, b)]
            if None not in hs and min(hs) >= 0:
                t.lo, t.hi = 0, (1 << max(h.bit_length() for h in hs)) - 1
        return t

    def fcmp(self, st, op, a, b):
        if op == '>':
            op, a, b = '<', b, a
        elif op == '>=':
            op, a, b = '<=', b, a
        if op == '!=':
            return mk_not(self.fcmp(st, '==', a, b))
        if isinstance(a, Term) and isinstance(b, Term) and a.op == 'i2f' and b.op == 'i2f':
            x, y, lim = a.a[0], b.a[0], 1 << 53
            if all(st.implied_le(sub(v, lim)) and st.implied_le(sub(-lim, v)) for v in (x, y)):
                return {'<': mk_lt, '<=': mk_le, '==': mk_eq}[op](x, y)
        return mk_fcmp(op, a, b)

    def x_CompoundAssignOperator(self, fr, st, env, sid, n):
        a = self.val(fr, st, env, n['c'][0])
        b = self.val(fr, st, env, n['c'][1])
        lt = fr.tu.types[fr.fn.x[n['c'][0]]['t']]
        old = self.load(fr, st, a, lt, sid)
        ct = fr.tu.types[n['ct']]
        v = self.binop(fr, st, n['op'][:-1], old, b, ct if ct.k != 'ptr' else lt, ct, sid)
        if lt.k == 'int' and ct.k == 'int':
            v = self.intcast(st, v, ct, lt)
        self.store(fr, st, a, v, lt, sid)
        return a

    def x_ReturnStmt(self, fr, st, env, sid, n):
        if n['rv'] >= 0:
            v = self.val(fr, st, env, n['rv'])
            rt = fr.fn.type(fr.fn.d['ret'])
            if rt.k == 'rec' and fr.ret is not None:
                v = fr.ret
            st.mem[T('ret', fr.ctx)] = v
            self.mon.ev(self, fr, st, 'return', sid, value=v)
        else:
            self.mon.ev(self, fr, st, 'return', sid, value=None)
        return 0

    def x_DeclStmt(self, fr, st, env, sid, n):
        for v in n['decls']:
            ty = fr.tu.types[v['t']]
            if v['static']:
                a = self.gaddr(fr, st, v['d'])
                self.mon.ev(self, fr, st, 'static', sid, decl=v, addr=a)
                if v['init'] >= 0 and ty.k not in ('rec', 'arr'):
                    st.mem[a] = self.val(fr, st, env, v['init'])
                elif v['init'] >= 0 and ty.k == 'arr':
                    self.init_chars(st, a, ty, self.val(fr, st, env, v['init']))
                continue
            a = self.var(fr, v['d'])
            if v['init'] < 0:
                if ty.k == 'arr':
                    self.drop(st, a)
                if ty.k not in ('rec',):
                    st.mem[a] = T('undef', a)
                continue
            val = self.val(fr, st, env, v['init'])
            if ty.k in ('rec', 'arr'):
                if ty.k == 'arr':
                    self.init_chars(st, a, ty, val)
            else:
                st.mem[a] = val
            if ty.k not in ('lref', 'rref'):
                self.mon.ev(self, fr, st, 'decl', sid, addr=a, value=val, ty=ty, decl=v)
            for b in v.get('b', ()):
                if 'hv' in b and b.get('hi', -1) >= 0:
                    self.purge(fr, env, b['hi'])
                    hval = self.val(fr, st, env, b['hi'])
                    st.mem[T('v', fr.ctx, b['hv'])] = hval
        return 0

    def init_chars(self, st, a, ty, val):
        """a character array initialised by a literal"""
        if isinstance(val, Term) and val.op == 'lit' and ty.pointee.d.get('bits') == 8 and ty.d.get('n'):
            h = val.a[0]
            h += '00' * (ty.d['n'] - len(h) // 2)
            st.mem[T('fld', a, '$txt')] = T('str', h[:2 * ty.d['n']])

    def x_LambdaExpr(self, fr, st, env, sid, n):
        a = self.destaddr(fr, st, sid)
        keep = set()
        for c in n['caps']:
            if c['x'] >= 0 and not c['ref']:
                xn = fr.fn.x[c['x']]
                if fr.tu.types[xn['t']].k == 'rec' and xn.get('vk') == 'r':
                    keep.add(T('fld', a, c['f']))     # constructed before
        for k in [k for k in st.mem if under(k, a)]:
            if not any(under(k, f) for f in keep):
                del st.mem[k]
        rec = fr.tu.recs[n['rec']]
        st.mem[T('fld', a, '$dyn')] = T('rec', fr.tu.name, n['rec'])
        for c in n['caps']:
            if c['x'] < 0:
                continue
            v = self.val(fr, st, env, c['x'])
            fa = T('fld', a, c['f'])
            xn = fr.fn.x[c['x']]
            if c['ref']:
                st.mem[fa] = v
            elif fr.tu.types[xn['t']].k == 'rec' and xn.get('vk') == 'r':
                pass
            else:
                st.mem[fa] = v
        self.mon.ev(self, fr, st, 'lambda', sid, addr=a, rec=rec)
        return a

    def x_InitListExpr(self, fr, st, env, sid, n):
        ty = self.ty(fr, n)
        if ty.k in ('rec', 'arr'):
            a = self.destaddr(fr, st, sid)
            for j, c in enumerate(n['c']):
                if c < 0:
                    continue
                v = self.val(fr, st, env, c)
                cn = fr.fn.x[c]
                cty = fr.tu.types[cn['t']]
                sa = self.subaddr(a, ty, j)
                if cty.k in ('rec', 'arr') and cn.get('vk') == 'r':
                    continue
                if ty.k == 'rec' and ty.rec is not None and ty.rec.q == 'std::array':
                    continue
                st.mem[sa] = v
            st.mem[T('fld', a, '$n')] = len(n['c'])
            return a
        if len(n['c']) == 1:
            return self.val(fr, st, env, n['c'][0])
        return 0

    def x_CXXStdInitializerListExpr(self, fr, st, env, sid, n):
        a = self.destaddr(fr, st, sid)
        arr = self.val(fr, st, env, n['c'][0])
        c = fr.fn.x[n['c'][0]]
        aty = fr.tu.types[c['t']]
        cnt = aty.d.get('n') if aty.k == 'arr' else None
        if cnt is None:
            cnt = self.read(st, T('fld', arr, '$n'))
        st.mem[a] = T('il', T('el0', arr), cnt)
        if isinstance(arr, Term) and isinstance(cnt, int):
            self.arrn[arr] = cnt
        return a

    def x_ArrayInitLoopExpr(self, fr, st, env, sid, n):
        self.undec('array init loop', fr, sid)
        return self.destaddr(fr, st, sid)

    # ---- objects ---------------------------------------------------------------------
    def record_dtor(self, tu, ty):
        rec = ty.rec
        if rec is None:
            return None, None
        d = rec.d.get('dtor')
        fn = self.prog.find(rec.tu, d) if d else None
        return rec, fn

    def dyn_rec(self, st, a, rec):
        v = st.mem.get(T('fld', a, '$dyn'))
        if isinstance(v, Term) and v.op == 'rec':
            for tu in self.prog.tus:
                if tu.name == v.a[0]:
                    return tu.recs[v.a[1]]
        return None

    def destroy(self, fr, st, a, ty, sid, line=0, virt=False):
        """run the destructor of the object at a; list of (state, None)"""
        r = self.destroy_(fr, st, a, ty, sid, line, virt)
        f = getattr(self.mon, 'destroyed', None)
        if f is not None:
            for s, _ in r:
                f(self, fr, s, a, ty, sid)
        return r

    def destroy_(self, fr, st, a, ty, sid, line=0, virt=False):
        if ty.k == 'arr':
            outs = [(st, None)]
            el = ty.pointee
            if el.k != 'rec' or el.rec.d.get('trivdtor'):
                return outs
            for j in range(ty.d['n'] - 1, -1, -1):
                nxt = []
                for s, _ in outs:
                    nxt += self.destroy(fr, s, T('el', a, j), el, sid, line)
                outs = nxt
            return outs
        if ty.k != 'rec':
            return [(st, None)]
        rec = ty.rec
        r = self.mon_destroy(fr, st, a, ty, sid, line)
        if r is not None:
            return r
        if rec.d.get('trivdtor'):
            return [(st, None)]
        m = self.models.dtor(self, fr, st, a, ty, sid, line)
        if m is not None:
            return m
        if virt:
            dr = self.dyn_rec(st, a, rec)
            if dr is not None:
                rec = dr
        rec2, fn = rec, self.prog.find(rec.tu, rec.d.get('dtor')) if rec.d.get('dtor') else None
        if fn is not None and fn.entry is not None and self.mon.inline(self, fr, fn):
            o = self.invoke(fr, st, fn, a, [], None, sid, site=('~', sid, line, a.id))
            if o is not None:
                return [(s, None) for s, _ in o]
        # implicit destructor: members in reverse, then bases
        outs = [(st, None)]
        for f in reversed(rec.fields):
            ft = rec.tu.types[f['t']]
            if ft.k in ('rec', 'arr') and not rec.d.get('union'):
                nxt = []
                for s, _ in outs:
                    nxt += self.destroy(fr, s, T('fld', a, f['n']), ft, sid, line)
                outs = nxt
        for b in reversed(rec.d.get('bases', ())):
            bt = rec.tu.types[b]
            nxt = []
            for s, _ in outs:
                nxt += self.destroy(fr, s, a, bt, sid, line)
            outs = nxt
        return outs

    def mon_destroy(self, fr, st, a, ty, sid, line):
        f = getattr(self.mon, 'destroy', None)
        if f is not None:
            return f(self, fr, st, a, ty, sid, line)
        self.mon.ev(self, fr, st, 'destroy', sid, addr=a, ty=ty, line=line)
        return None

    def x_CXXPseudoDestructorExpr(self, fr, st, env, sid, n):
        return 0

    def x_CXXConstructExpr(self, fr, st, env, sid, n):
        dest = self.destaddr(fr, st, sid)
        args = [self.val(fr, st, env, a) for a in n['args']]
        return self.construct(fr, st, env, sid, n, dest, args)
    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def construct(self, fr, st, env, sid, n, dest, args, ty=None):
        ty = ty or self.ty(fr, n)
        if ty.k == 'arr':
            et = ty.pointee
            if n.get('triv') or et.k != 'rec':
                return dest
            if not isinstance(ty.d.get('n'), int) or ty.d['n'] > 16:
                self.undec('array construction', fr, sid)
                return dest
            outs = [st]
            for j in range(ty.d['n']):
                nxt = []
                for s in outs:
                    r = self.construct(fr, s, env, sid, n, T('el', dest, j), args, et)
                    nxt += [x for x, _ in r] if isinstance(r, list) else [s]
                outs = nxt
            return [(s, dest) for s in outs]
        rec = ty.rec
        q = n.get('q', '')
        r = self.mon.call(self, fr, st, env, sid, n, q, dest, args, dest)
        if r is not None:
            return [(s, dest) for s, _ in r]
        self.mon.ev(self, fr, st, 'construct', sid, addr=dest, ty=ty, args=args, n=n)
        m = self.models.construct(self, fr, st, env, sid, n, rec, dest, args)
        if m is not None:
            return m if isinstance(m, list) else dest
        if n.get('in') or rec.d.get('lambda'):
            fn = self.prog.find(fr.tu, n.get('f'))
            if fn is not None and fn.entry is not None and self.mon.inline(self, fr, fn):
                st.mem[T('fld', dest, '$dyn')] = T('rec', rec.tu.name, rec.tu.recs.index(rec))
                o = self.invoke(fr, st, fn, dest, args, None, sid)
                if o is not None:
                    for s, _ in o:
                        s.mem[T('fld', dest, '$dyn')] = T('rec', rec.tu.name, rec.tu.recs.index(rec))
                    return [(s, dest) for s, _ in o]
            if n.get('ck') in ('copy', 'move') and args:
                self.copy_fields(fr, st, args[0], dest, rec, n['ck'])
                return dest
            if n.get('ck') == 'default':
                for f, r2 in rec.all_fields():
                    ft = r2.tu.types[f['t']]
                    if ft.k not in ('rec', 'arr'):
                        st.mem[T('fld', dest, f['n'])] = 0 if n.get('zero') else T('undef', T('fld', dest, f['n']))
                return dest
            self.mon.ev(self, fr, st, 'opaque', sid, q=q)
            st.opaque = st.opaque + ((q, fr.where(sid)),) if len(st.opaque) < 4 else st.opaque
            self.havoc(st, dest)
            return dest
        # unmodelled library object
        self.drop(st, dest)
        if n.get('ck') in ('copy', 'move') and args and isinstance(args[0], Term):
            self.copy_tree(st, args[0], dest)
            st.mem[dest] = self.read(st, args[0])
            if n['ck'] == 'move' and args[0] is not dest:
                st.mem[args[0]] = T('moved', st.mem[dest])
            return dest
        vals = [self.argval(fr, st, a, fr.fn.x[s], None) for a, s in zip(args, n['args'])]
        st.mem[dest] = T('new', q, tuple(vals))
        return dest

    def copy_fields(self, fr, st, src, dst, rec, ck):
        """memberwise copy/move of a class whose special member has no body"""
        for f, r2 in rec.all_fields():
            ft = r2.tu.types[f['t']]
            s2, d2 = T('fld', src, f['n']), T('fld', dst, f['n'])
            if ft.k == 'rec':
                v = self.read(st, s2)
                self.copy_tree(st, s2, d2)
                st.mem[d2] = v
                if ck == 'move' and self.models.is_owner(ft):
                    st.mem[s2] = self.models.moved(ft, v)
            elif ft.k == 'arr':
                self.copy_tree(st, s2, d2)
            else:
                st.mem[d2] = self.read(st, s2, ft)
        dv = st.mem.get(T('fld', src, '$dyn'))
        if dv is not None:
            st.mem[T('fld', dst, '$dyn')] = dv

    def x_CXXInheritedCtorInitExpr(self, fr, st, env, sid, n):
        # using Parent::Parent;  forward our parameters
        fn = self.prog.find(fr.tu, n.get('f'))
        if fn is None or fn.entry is None:
            return fr.this
        args = []
        for p in fr.fn.params:
            ty = fr.fn.type(p['t'])
            if ty.k in ('rec', 'arr'):
                args.append(fr.bind.get(p['id']))
            else:
                args.append(st.mem.get(T('v', fr.ctx, p['id'])))
        o = self.invoke(fr, st, fn, fr.this, args, None, sid)
        if o is None:
            return fr.this
        return [(s, fr.this) for s, _ in o]

    def x_CXXNewExpr(self, fr, st, env, sid, n):
        ty = fr.tu.types[n['at']]
        pl = [self.val(fr, st, env, p) for p in n['pl']]
        # NB: the initialiser element was evaluated before, into newaddr()
        src = self.newaddr(fr, sid) if pl and n['init'] >= 0 else T('h', fr.ctx, sid)
        if pl:
            a = pl[0]
            a = self.deref(a) if isinstance(a, Term) else T('null')
            if a.op == 'el' and isinstance(a.a[1], int) and a.a[1] == 0 and len(a.a) == 2:
                a = a.a[0]
            if n['init'] >= 0:
                v = self.val(fr, st, env, n['init'])
                if ty.k in ('rec', 'arr'):
                    if a is not src:
                        self.copy_tree(st, src, a)
                        self.drop(st, src)
                else:
                    st.mem[a] = v
            self.mon.ev(self, fr, st, 'placement', sid, addr=a, ty=ty)
            return a
        if n['init'] >= 0:
            v = self.val(fr, st, env, n['init'])
            if ty.k not in ('rec', 'arr'):
                st.mem[src] = v
        self.mon.ev(self, fr, st, 'new', sid, addr=src, ty=ty)
        return src

    def x_CXXDeleteExpr(self, fr, st, env, sid, n):
        p = self.val(fr, st, env, n['arg'])
        return self.delete(fr, st, p, fr.tu.types[n['dt']], sid)

    def delete(self, fr, st, p, ty, sid):
        if st.decide(mk_eq(p, 0)) is True:
            return [(st, 0)]
        self.mon.ev(self, fr, st, 'delete', sid, addr=p, ty=ty)
        if isinstance(p, Term) and (p.op == 'h' or st.mem.get(T('fld', p, '$dyn')) is not None):
            o = self.destroy(fr, st, p, ty, sid, fr.fn.x[sid]['l'] if sid is not None and sid >= 0 else 0, virt=True)
            for s, _ in o:
                self.drop(s, p)
                self.mon.ev(self, fr, s, 'freed', sid, addr=p)
            return [(s, 0) for s, _ in o]
        return [(st, 0)]

    # ---- calls ------------------------------------------------------------------------
    def argval(self, fr, st, a, xn, pty):
        """a comparable value for an argument"""
        if isinstance(a, Term):
            ty = fr.tu.types[xn['t']] if xn is not None and 't' in xn else None
            if ty is not None and xn.get('vk') in ('l', 'x') and ty.k not in ('rec', 'arr', 'fn'):
                return self.read(st, a, ty)
            if ty is not None and ty.k == 'rec':
                v = st.mem.get(a)
                if v is not None:
                    return v
                rec = ty.rec
                if rec is not None and rec.in_ and rec.fields:
                    return T('rv', rec.q, tuple(self.read(st, T('fld', a, f['n']), r.tu.types[f['t']])
                                                for f, r in rec.all_fields()))
                return self.read(st, a, ty)
        return a

    def x_CallExpr(self, fr, st, env, sid, n):
        return self.do_call(fr, st, env, sid, n)

    x_UserDefinedLiteral = x_CallExpr

    def x_CXXMemberCallExpr(self, fr, st, env, sid, n):
        return self.do_call(fr, st, env, sid, n)

    def x_CXXOperatorCallExpr(self, fr, st, env, sid, n):
        return self.do_call(fr, st, env, sid, n)

    def do_call(self, fr, st, env, sid, n):
        q = n.get('q', '')
        ops = [self.val(fr, st, env, a) for a in n['args']]
        argn = list(n['args'])
        obj = None
        if n['k'] == 'CXXMemberCallExpr':
            obj = self.val(fr, st, env, n['obj'])
        elif n['k'] == 'CXXOperatorCallExpr' and 'rec' in n and not n.get('mstatic'):
            obj = ops[0]
            ops = ops[1:]
            argn = argn[1:]
        if obj is not None and isinstance(obj, int):
            obj = T('null') if obj == 0 else T('ptr', obj)
        if obj is not None:
            obj = self.deref(obj)
        rt = fr.tu.types[n['rt']] if 'rt' in n else self.ty(fr, n)
        dest = self.destaddr(fr, st, sid) if rt.k == 'rec' else None
        r = self.mon.call(self, fr, st, env, sid, n, q, obj, ops, dest)
        if r is not None:
            return r
        if 'f' not in n:
            # call through a pointer / closure value
            cal = self.val(fr, st, env, n['callee'])
            x = n['callee']
            return self.call_value(fr, st, env, sid, n, cal, ops, dest)
        if obj is None and not n.get('in'):
            rd = self.prog.redirect(q, len(ops))
            if rd is not None:
                o = self.invoke(fr, st, rd, None, ops, dest, sid)
                if o is not None:
                    return [(s, dest if rt.k == 'rec' else (v if v is not None else 0)) for s, v in o]
        m = self.models.call(self, fr, st, env, sid, n, q, obj, ops, argn, dest, rt)
        if m is not None:
            return m if isinstance(m, list) else [(st, m)]
        fn = self.prog.find(fr.tu, n['f'])
        if n.get('virt') and not n.get('qual') and obj is not None:
            fn = self.resolve_virtual(fr, st, n, obj, fn)
        if fn is not None and fn.entry is not None and (n.get('in') or fn.rec is not None and fn.rec.d.get('lambda')) \
                and self.mon.inline(self, fr, fn):
            if fn.d.get('ck') in ('copyassign', 'moveassign') and fn.d.get('implicit') and obj is not None:
                pass
            o = self.invoke(fr, st, fn, obj, ops, dest, sid)
            if o is not None:
                out = []
                for s, v in o:
                    if rt.k == 'rec':
                        v = dest
                    out.append((s, v if v is not None else 0))
                return out
            self.mon.ev(self, fr, st, 'recursion', sid, fn=fn, obj=obj, args=ops, dest=dest)
        if n.get('in') and n['k'] == 'CXXOperatorCallExpr' and n.get('op') == '=' and fn is None and obj is not None \
                and ops and isinstance(ops[0], Term):
            # implicit trivial assignment
            rec = fr.tu.recs[n['rec']]
            x0 = fr.fn.x[argn[0]]
            self.copy_fields(fr, st, ops[0], obj, rec, 'move' if x0.get('vk') != 'l' else 'copy')
            return [(st, obj)]
        return self.opaque_call(fr, st, env, sid, n, q, obj, ops, argn, dest, rt)

    def resolve_virtual(self, fr, st, n, obj, fn):
        dr = self.dyn_rec(st, obj, None)
        if dr is None:
            # a class without further overriders
            dr2 = fr.tu.recs[n['rec']]
            return self.unique_final(fr, n, fn)
        f = self.find_override(dr, n['f'], n['q'].split('::')[-1])
        return f if f is not None else fn

    def unique_final(self, fr, n, fn):
        # calls on an object whose dynamic type is unknown are opaque unless the
        # monitor wants the statically named function
        return fn if getattr(self.mon, 'static_virtual', False) else None

    def overrides(self, rec, m, base_id):
        """does method m of rec (transitively) override base_id?"""
        todo, seen = list(m.get('ov', ())), set()
        if base_id in todo:
            return True
        ovs = getattr(self.prog, '_ovs', None)
        if ovs is None:
            ovs = self.prog._ovs = {}
            for tu in self.prog.tus:
                for r in tu.recs:
                    for x in r.methods:
                        if x.get('ov'):
                            k = x['id'] if not x['id'].startswith('#') else (tu.name, x['id'])
                            ovs.setdefault(k, set()).update(x['ov'])
        while todo:
            x = todo.pop()
            if x == base_id:
                return True
            if x in seen:
                continue
            seen.add(x)
            k = x if not x.startswith('#') else (rec.tu.name, x)
            todo += list(ovs.get(k, ()))
        return False

    def find_override(self, rec, base_id, name, nparams=None):
        for m in rec.methods:
            if m['id'] == base_id or m['n'] == name and self.overrides(rec, m, base_id):
                return self.prog.find(rec.tu, m['id'])
        for b in rec.bases():
            if b is not None:
                f = self.find_override(b, base_id, name)
                if f is not None:
                    return f
        return None

    def opaque_call(self, fr, st, env, sid, n, q, obj, ops, argn, dest, rt):
        """a call whose body is not analysed"""
        self.mon.ev(self, fr, st, 'opaque', sid, q=q, obj=obj, args=ops)
        if n.get('noret'):
            self.mon.ev(self, fr, st, 'abort', sid, q=q)
            self.aborts += 1
            return []
        vals = [self.argval(fr, st, a, fr.fn.x[x], None) for a, x in zip(ops, argn)]
        pts = [fr.tu.types[t] for t in n.get('pt', ())]
        in_ = n.get('in')
        lib = q.startswith('std::') or q.startswith('__gnu_cxx::') or q.startswith('__builtin')
        pure = lib and not in_
        ov = None
        if obj is not None:
            ov = self.read(st, obj)
        if obj is not None and not n.get('mconst') and not n.get('mstatic'):
            pure_res = T('res', q, ov, tuple(vals))
            if lib:
                st.mem[obj] = T('upd', q, ov, tuple(vals))
            else:
                self.havoc(st, obj)
                pure_res = fresh(q)
        elif pure:
            pure_res = T('call', q, ov if ov is not None else 0, tuple(vals))
        else:
            pure_res = fresh(q)
        for i, (a, x) in enumerate(zip(ops, argn)):
            if i < len(pts) and isinstance(a, Term):
                p = pts[i]
                if p.k == 'lref' and not p.pointee.d.get('const') or (p.k == 'ptr' and not p.pointee.d.get('const')
                                                                       and p.pointee.k != 'fn'):
                    if lib and p.k == 'lref':
                        st.mem[a] = T('updarg', q, i, vals[i] if isinstance(vals[i], (Term, int)) else 0, tuple(vals))
                        for c in self.children(st, a):
                            del st.mem[c]
                    elif p.k == 'lref' or p.pointee.k != 'void':
                        self.havoc(st, a)
                elif p.k == 'rref' and p.pointee.k == 'rec':
                    st.mem[a] = T('moved', vals[i] if isinstance(vals[i], (Term, int)) else 0)
        if not lib:
            st.opaque = st.opaque + ((q, fr.where(sid)),) if len(st.opaque) < 4 else st.opaque
        if rt.k == 'rec':
            self.drop(st, dest)
            st.mem[dest] = pure_res
            if not lib:
                st.mem[T('known', addr_root(dest))] = 1
            return [(st, dest)]
        if rt.k in ('lref', 'rref'):
            return [(st, T('refto', pure_res))]
        if rt.k == 'void':
            return [(st, 0)]
        self.type_facts(pure_res, rt)
        return [(st, pure_res)]

    def call_value(self, fr, st, env, sid, n, cal, ops, dest):
        """call of a first-class callable value (function pointer)"""
        if isinstance(cal, Term) and cal.op == 'fnptr':
            fn = self.find_fn(cal)
            if fn is not None and fn.entry is not None:
                this = cal.a[3] if len(cal.a) > 3 else None
                if this is None and fn.kind == 'method':
                    this = T('t', fr.ctx, ('fn', sid))
                o = self.invoke(fr, st, fn, this, ops, dest, sid)
                if o is not None:
                    return [(s, dest if dest is not None else (v if v is not None else 0)) for s, v in o]
            self.mon.ev(self, fr, st, 'extcall', sid, q=cal.a[2], args=ops)
            r = self.models.free_by_name(self, fr, st, env, sid, n, cal.a[2], ops, dest)
            if r is not None:
                return r
        self.mon.ev(self, fr, st, 'callback', sid, fn=cal, args=ops)
        rt = self.ty(fr, n)
        if rt.k == 'rec':
            st.mem[dest] = fresh('cb')
            return [(st, dest)]
        return [(st, 0 if rt.k == 'void' else fresh('cb'))]

    def find_fn(self, t):
        fid, tun = t.a[0], t.a[1]
        for tu in self.prog.tus:
            if tu.name == tun:
                return self.prog.find(tu, fid)
        return None
