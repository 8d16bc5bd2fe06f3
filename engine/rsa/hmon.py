"""Harness analysis: decides the vf_* obligations of harness entry points."""
import re
from .terms import *
from .program import *
from . import bits as bits_, chars
from .interp import Interp, Monitor, State, Undecided, addr_root, under

from .stdmodel import Models

import os
import traceback
DEBUG = os.environ.get('RSA_DEBUG')
IMPRECISE = ('call', 'res', 'upd', 'updarg', 'opq', 'refto', 'undef', 'fresh', 'new')


def imprecise(v):
    """does the value depend on code the analysis has no model for?"""
    if not isinstance(v, Term):
        return None
    for t in walk(v):
        if t.op in IMPRECISE:
            return t
        if t.op == 'text' and isinstance(t.a[0], Term) and addr_root(t.a[0]).op in ('v', 't', 'h'):
            return t
        if t.op == 's' and not str(t.a[0]).startswith('vf:'):
            if t.a[0] in ('cb', 'u', 'cond', 'log', 'dead', 'bind', 'c'):
                return t
    return None


class HarnessMonitor(Monitor):
    unroll = 1
    unroll_recursion = 2
    bounds = False

    def __init__(self, rep, entry):
        Monitor.__init__(self)
        self.rep = rep
        self.entry = entry
        self.hits = {}
        self.reached = set()
        self.events = []
        self.saw_opaque = False

    # per-path monitor state lives in st.mon:
    #   noabort: str or None      log: tuple      live: frozenset     order: tuple
    def exact_heaps(self, st):
        return bool(st.mon.get('xheap'))

    def racy_weak(self, st):
        return bool(st.mon.get('racy'))

    def key(self, st):
        m = st.mon
        return (m.get('xheap'), m.get('racy'), m.get('noabort'), m.get('log', ()), m.get('live', frozenset()), m.get('freed'), m.get('xkey'))

    def trace(self, st):
        out = []
        t = st.trace
        while t is not None:
            nxt, f, l, q, w = t
            out.append('%s:%s in %s: %s' % (f, l, q, w))
            t = nxt
        return out[::-1]

    def oid(self, what):
        return '%s: %s' % (self.entry, what)

    def site(self, fr, sid):
        """innermost frame inside the repository, else the harness"""
        f = fr
        s = sid
        while f is not None:
            if '/harness/' not in f.fn.file:
                return f.where(s)
            s = f.site
            f = f.parent
        return fr.where(sid)

    def bad(self, I, fr, st, sid, what, why=''):
        o = self.oid(what)
        if st.opaque or I.undecided:
            w = st.opaque[0] if st.opaque else list(I.undecided)[0]
            self.rep.undecided(o, 'depends on code without a model: %s' % (w,))
            return
        if not st.consistent():
            return
        w = self.site(fr, sid) if fr is not None else ('', 0, self.entry)
        self.rep.violated(o, what + (' (%s)' % why if why else ''), w[0], w[1], w[2], self.trace(st))

    def check(self, I, fr, st, sid, c, what):
        o = self.oid(what)
        c = to_bool(c)
        d = st.decide(c)
        self.hits[o] = self.hits.get(o, 0) + 1
        if d is not True and st.prove(c):
            d = True
        if d is True:
            self.rep.ok(o)
            return
        if d is None:
            r = imprecise(c)
            if r is not None:
                self.rep.undecided(o, 'value without a model: %s' % show(r)[:150])
                return
            self.bad(I, fr, st, sid, what, 'not implied: %s' % show(c)[:300])
        else:
            self.bad(I, fr, st, sid, what)

    def call(self, I, fr, st, env, sid, n, q, obj, args, dest):
        if not q.startswith('vf_'):
            if self.bounds and I.arrn and isinstance(obj, Term):
                self.in_list(I, fr, st, sid, obj)
            return self.call2(I, fr, st, env, sid, n, q, obj, args, dest)
        m = st.mon

        def s(i):
            a = args[i]
            if isinstance(a, Term) and a.op == 'el0' and a.a[0].op == 'lit':
                a = a.a[0]
            if isinstance(a, Term) and a.op == 'lit':
                return bytes.fromhex(a.a[0]).decode('latin1').rstrip('\0')
            return show(a)
        if q == 'vf_assert':
            self.check(I, fr, st, sid, args[0], s(1))
            st.assume(to_bool(args[0]))
            return [(st, 0)]
        if q == 'vf_unreachable':
            self.hits[self.oid(s(0))] = 1
            self.bad(I, fr, st, sid, s(0))
            return []
        if q == 'vf_assume':
            return [(st, 0)] if st.assume(to_bool(args[0])) else []
        if q == 'vf_no_abort':
            m['noabort'] = s(0)
            self.rep.ok(self.oid(s(0)))
            return [(st, 0)]
        if q == 'vf_may_abort':
            m.pop('noabort', None)
            return [(st, 0)]
        if q == 'vf_reach':
            self.reached.add(s(0))
            self.hits[self.oid(s(0))] = 1
            self.rep.ok(self.oid(s(0)))
            return [(st, 0)]
        if q in ('vf_int', 'vf_bool', 'vf_long', 'vf_unsigned', 'vf_size', 'vf_double', 'vf_char', 'vf_ptr'):
            k = (fr.ctx, sid, m.get('n', 0))
            v = T('s', 'vf:' + q[3:], k)
            m['n'] = m.get('n', 0) + 1
            I.type_facts(v, fr.tu.types[n['rt']])
            return [(st, v)]
        if q in ('vf_string', 'vf_view'):
            m['n'] = m.get('n', 0) + 1
            v = T('s', 'vf:' + q[3:], (fr.ctx, sid, m['n']))
            if q == 'vf_string':
                I.drop(st, dest)
                st.mem[dest] = v
                I.models.set_size(I, st, dest, I.models.size_of(v))
            else:
                p = T('obj', 'vfview%s' % (m['n'],))
                st.mem[p] = v
                I.models.set_view(I, st, dest, T('el0', T('sdata', p)), I.models.size_of(v))
            return [(st, dest)]
        if q == 'vf_fill':
            a = I.deref(args[0])
            v = T('s', 'vf:cont', args[1])
            I.drop(st, a)
            st.mem[a] = v
            return [(st, 0)]
        if q == 'vf_is':
            a = I.deref(args[0])
            return [(st, 1 if I.read(st, a) is T('s', 'vf:cont', args[1]) else 0)]
        if q in ('vf_ctor', 'vf_dtor', 'vf_use'):
            a = I.deref(args[0]) if isinstance(args[0], Term) else args[0]
            live = m.get('live', frozenset())
            if q == 'vf_ctor':
                if a in live:
                    self.bad(I, fr, st, sid, 'an object is constructed over a live object')
                live = live | {a}
            elif a not in live:
                self.bad(I, fr, st, sid, 'an object is %s that is not alive' %
                         ('destroyed' if q == 'vf_dtor' else 'used'), show(a))
                if q == 'vf_use':
                    return []
            elif q == 'vf_dtor':
                live = live - {a}
            m['live'] = live
            return [(st, 0)]
        if q == 'vf_inside':
            o, i = (I.deref(x) if isinstance(x, Term) else x for x in args[:2])
            return [(st, 1 if under(i, o) else 0)]
        if q == 'vf_live':
            return [(st, len(m.get('live', ())))]
        if q == 'vf_log':
            m['log'] = m.get('log', ()) + ((args[0], args[1]),)
            return [(st, 0)]
        if q == 'vf_log_size':
            return [(st, len(m.get('log', ())))]
        if q == 'vf_logged':
            lg = m.get('log', ())
            if isinstance(args[0], int) and args[0] < len(lg):
                t, v = lg[args[0]]
                a, b = mk_eq(t, args[1]), mk_eq(v, args[2])
                if st.decide(a) is True:
                    return [(st, b)]
                if st.decide(a) is False:
                    return [(st, 0)]
                return [(st, T('and', a, b))]
            return [(st, 0)]
        if q in ('vf_shows_f', 'vf_shows_d', 'vf_shows_l'):
            return [(st, self.shows(I, fr, st, sid, args, 'fdl'.index(q[-1])))]
        if q == 'vf_no_nul':
            # texts of the harness are taken to contain no NUL where they are used as C strings
            return [(st, 0)]
        if q == 'vf_racy_weak':
            m['racy'] = True
            return [(st, 0)]
        if q == 'vf_exact_heaps':
            m['xheap'] = True
            return [(st, 0)]
        if q == 'vf_mark':
            m['marks'] = m.get('marks', ()) + (self.counters(I, st, False),)
            return [(st, 0)]
        if q == 'vf_again':
            return [(s2, 0) for s2 in self.again(I, fr, st, sid)]
        if q == 'vf_is_guid_v4':
            return [(st, self.guid(I, fr, st, sid, args))]
        if q == 'vf_injective':
            r = bits_.injective(args[0], args[1])
            if r is None:
                st.opaque = st.opaque + (('how %s depends on %s' % (show(args[0])[:80], show(args[1])), fr.where(sid)),)
                return [(st, T('s', 'vf:unknown', (fr.ctx, sid)))]
            return [(st, 1 if r else 0)]
        if q == 'vf_same':
            return [(st, 1 if bits_.canon(args[0]) == bits_.canon(args[1]) else 0)]
        if q in ('vf_chars_in', 'vf_char_outside'):
            return [(st, self.charset(I, fr, st, sid, args[0], s(1), q == 'vf_chars_in'))]
        if q == 'vf_distinct_random':
            return [(st, self.distinct(I, fr, st, sid, args))]
        if q == 'vf_fresh_sibling':
            return [(st, self.sibling(I, fr, st, sid, args))]
        raise AnchorError('unknown harness intrinsic ' + q)

    def counters(self, I, st, typed=True):
        """the integer members of the library with a known value"""
        out = {}
        for a, v in st.mem.items():
            if isinstance(v, int) and not isinstance(v, bool) and isinstance(a, Term):
                if not typed:
                    out[a] = (v, None)
                    continue
                ty = I.field_type.get(a)
                if ty is not None and ty.k == 'rec' and ty.rec is not None and ty.rec.q == 'std::atomic':
                    ty = ty.rec.targ(0)
                if ty is not None and ty.k == 'int' and ty.d.get('bits', 0) > 1:
                    out[a] = (v, ty)
        return out

    def again(self, I, fr, st, sid):
        """The states after the history between the last two marks and here, which is one step done twice, has been
        repeated: every counter that each step changed by the same amount has advanced by n times that amount."""
        a, b = st.mon['marks'][-2:]
        c = self.counters(I, st)
        ds = [(x, v, v - b[x][0], ty) for x, (v, ty) in c.items()
              if x in a and x in b and v != b[x][0] and v - b[x][0] == b[x][0] - a[x][0]]
        st.mon['marks'] = ()
        self.rep.count('counters_advanced', len(ds))
        out = [st]
        if not ds:
            return out

        def put(n):
            s = st.copy()
            for x, v, d, ty in ds:
                bits = ty.d['bits']
                if isinstance(n, int):
                    w = (v + d * n) & ((1 << bits) - 1)
                    s.mem[x] = w - (1 << bits) if ty.d.get('sg') and w >> (bits - 1) else w
                else:
                    s.mem[x] = add(v, mul_const(n, d))
                    top = (1 << (bits - (2 if ty.d.get('sg') else 1))) - 64
                    if d > 0 and not s.assume(mk_lt(s.mem[x], top)) or d < 0 and (
                            not ty.d.get('sg') or not s.assume(mk_lt(-top, s.mem[x]))):
                        return
            out.append(s)
        n = T('s', 'vf:rounds', (fr.ctx, sid))
        n.lo, n.hi = 0, 1 << 40
        put(n)
        for x, v, d, ty in ds:
            for k in (7, 8, 15, 16, 31, 32):
                if d > 0 and (1 << k) - 1 > v:
                    put(((1 << k) - 1 - v) // d)
        return out

    def guid(self, I, fr, st, sid, args):
        ds = bits_.text_digits(I.models, st, I.read(st, args[0]))
        os_ = bits_.text_digits(I.models, st, I.read(st, args[1])) or []

        def unknown():
            st.opaque = st.opaque + (('the text of a GUID', fr.where(sid)),)
            return T('s', 'vf:unknown', (fr.ctx, sid))
        if ds is None or None in ds:
            return unknown()
        used = set(b for d in os_ if d and d[0] == 'd' for b in d[1] if isinstance(b, tuple))
        if len(ds) != 36:
            return 0
        n = 0
        for i, d in enumerate(ds):
            if i in (8, 13, 18, 23):
                if d != ('c', 45):
                    return 0
                continue
            if d[0] == 'c':
                x = bits_.DIGITS.find(bytes([d[1]]))
                if x < 0:
                    return 0
                bs = [(x >> k) & 1 for k in (3, 2, 1, 0)]
            elif d[0] != 'd':
                return 0
            else:
                bs = d[1]
            want = {12: [0, 1, 0, 0], 16: [1, 0]}.get(n, [])
            n += 1
            for k, b in enumerate(bs):
                if k < len(want):
                    if b is None or isinstance(b, tuple):
                        return 0 if b is not None else unknown()
                    if b != want[k]:
                        return 0
                elif b is None:
                    return unknown()
                elif not isinstance(b, tuple) or b in used:
                    return 0
                elif b[0].op != 's' or b[0].a[0] != 'rnd':
                    return 0 if b[0].op == 's' and b[0].a[0] == 'rndlim' else unknown()
                else:
                    used.add(b)
        return 1

    def charset(self, I, fr, st, sid, view, pattern, every):
        """is every character of the text in its set / some character certainly outside of its set?"""
        p, n = I.models.view(I, st, view)
        tx = I.models.text(I, st, p, n)
        ats = [I.models.at(st, tx, i) for i in range(len(pattern))]
        res = []
        for a, c in zip(ats, pattern):
            ok = chars.mask(c)
            m = st.cs.get(a, chars.FULL) if isinstance(a, Term) else 1 << ((a + 128) & 255)
            res.append(m & ~ok == 0 if every else m & ok == 0)
        r = all(res) if every else any(res)
        if not r:
            # do other facts of this path restrict the characters, too?
            known = set(x for x in ats if isinstance(x, Term))
            for f in (st.le, st.ne, st.tr):
                for c in f:
                    for b in (c if isinstance(c, tuple) else (c,)):
                        b = b[0] if isinstance(b, tuple) else b
                        if isinstance(b, Term) and any(x in known for x in walk(b)):
                            st.opaque = st.opaque + (('the relation %s between characters' % show(b)[:100], fr.where(sid)),)
                            return T('s', 'vf:unknown', (fr.ctx, sid))
        return 1 if r else 0

    def sibling(self, I, fr, st, sid, args):
        """is the first text the second one extended by random data and without '/'?"""
        m = I.models
        t, d = I.read(st, args[0]), I.read(st, args[1])
        ps = m.norm(st, m.pieces(t))
        if m.eqd(st, m.size_of(d), 0):
            ps = [(d, 0, 0)] + list(ps)
        elif not ps or ps[0][0] is not d or not m.eqd(st, ps[0][1], 0) or not m.eqd(st, ps[0][2], m.size_of(d)):
            if any(b is d for b, _, _ in ps) or all(isinstance(b, Term) and b.op == 'str' for b, _, _ in ps) or not ps or (
                    ps[0][0].op == 'str'):
                return 0
            if not any(self.keeps_dir(b, d) for b, _, _ in ps):
                return 0        # a name somewhere else
            st.opaque = st.opaque + (('the name of a temporary file', fr.where(sid)),)
            return T('s', 'vf:unknown', (fr.ctx, sid))
        rnd = False
        for b, o, l in ps[1:]:
            if b.op == 'str':
                if b'/' in bytes.fromhex(b.a[0]):
                    return 0
            elif b.op in ('dec', 'hex', 'rnd', 'at', 'ch', 'repc'):
                pass
            elif b is d:
                return 0
            else:
                st.opaque = st.opaque + (('the name of a temporary file', fr.where(sid)),)
                return T('s', 'vf:unknown', (fr.ctx, sid))
            rnd = rnd or any(x.op == 's' and str(x.a[0]).startswith('rnd') or x.op == 'rnd' for x in walk(b))
        return 1 if rnd else 0

    def distinct(self, I, fr, st, sid, args):
        """does each of two texts have random data which the other one does not have?"""
        m = I.models
        rs = []
        for a in args[:2]:
            r = set()
            for b, _, _ in m.norm(st, m.pieces(I.read(st, a))):
                if b.op not in ('str', 'dec', 'hex', 'rnd', 'at', 'ch', 'repc', 's'):
                    st.opaque = st.opaque + (('a random name', fr.where(sid)),)
                    return T('s', 'vf:unknown', (fr.ctx, sid))
                r |= set(x for x in walk(b) if x.op == 's' and str(x.a[0]).startswith('rnd') or x.op == 'rnd')
            rs.append(r)
        return 1 if rs[0] - rs[1] and rs[1] - rs[0] else 0

    def keeps_dir(self, t, d):
        """does the term depend on the path d with its directory?"""
        if t is d:
            return True
        if not isinstance(t, Term):
            return isinstance(t, tuple) and any(self.keeps_dir(x, d) for x in t)
        if t.op == 'call' and str(t.a[0]).rsplit('::', 1)[-1] in ('filename', 'stem', 'extension') and 'path' in str(t.a[0]):
            return False
        return any(self.keeps_dir(x, d) for x in t.a)

    def shows(self, I, fr, st, sid, args, rank):
        """is the text a rendering of that floating-point value with at least the default precision?"""
        p, n = I.models.view(I, st, args[0])
        t = I.models.text(I, st, p, n)
        if isinstance(t, Term) and t.op in ('dec', 'hex') and isinstance(args[1], Term):
            if not any(x is args[1] for f in (st.le, st.ne, st.tr) for c in f
                       for b in (c if isinstance(c, tuple) else (c,)) if isinstance(b, Term) for x in walk(b)):
                return 0
        if not isinstance(t, Term) or t.op != 'fmt':
            st.opaque = st.opaque + (('a rendering of a floating-point value', fr.where(sid)),)
            return T('s', 'vf:unknown', (fr.ctx, sid))
        spec, v = t.a
        prec = re.search(r'\.(\d+)', spec)
        if prec and int(prec.group(1)) < 6:
            return 0
        rk = {'float': 0, 'double': 1, 'long double': 2}
        e = args[1]
        while True:
            if v is e:
                return 1
            if isinstance(v, Term) and v.op == 'f2f' and rk.get(str(v.a[1]).replace('const ', ''), -1) >= rank:
                v = v.a[0]
                continue
            return 0

    def call2(self, I, fr, st, env, sid, n, q, obj, args, dest):
        return None

    def inline(self, I, fr, fn):
        return True

    def finish(self, I):
        pass

    def ev(self, I, fr, st, kind, sid, **kw):
        if DEBUG and kind not in ('read', 'member'):
            print('%s%-10s %s:%s %s' % ('  ' * fr.depth, kind, fr.fn.q, fr.where(sid)[1],
                                       {k: show(v) if isinstance(v, (Term, int)) else getattr(v, 's', '')
                                        for k, v in kw.items()}))
        if kind == 'freed':
            a = I.deref(kw['addr']) if isinstance(kw['addr'], Term) else None
            if a is not None:
                st.mon['freed'] = st.mon.get('freed', frozenset()) | {a}
        elif kind == 'elems_dead':
            st.mon['freed'] = st.mon.get('freed', frozenset()) | {kw['addr']}
        elif kind in ('construct', 'new', 'placement', 'elems_live', 'decl'):
            f = st.mon.get('freed')
            if f:
                a = kw['addr']
                if kind == 'elems_live':
                    st.mon['freed'] = f - {a}
                else:
                    r = addr_root(a)
                    st.mon['freed'] = frozenset(x for x in f if x is not r and not (
                        x.op == 'els' and (under(x.a[0], a) or under(a, x.a[0]))) and not (x.op == 'mel' and under(a, x)))
        elif kind == 'pushed' and st.mon.get('freed'):
            st.mon['freed'] = st.mon['freed'] - {T('els', kw['cont'])}
        if kind in ('read', 'write', 'use', 'lock', 'unlock', 'notify', 'assign', 'construct') and st.mon.get('freed'):
            f = st.mon['freed']
            aa = [kw.get('addr', kw.get('mutex', kw.get('cv')))]
            if kind == 'construct':
                aa = [x for x in kw['args'] if isinstance(x, Term)][:1] if kw.get('n') is None else []
            if kind == 'assign':
                aa.append(kw['src'])
            for a in aa:
                r = self.dead_part(a, f)
                if r is not None:
                    self.bad(I, fr, st, sid, 'freed memory is used', show(a))
                    st.mon['freed'] = f - {r}
                    break
        if kind in ('read', 'use') and self.bounds and I.arrn:
            self.in_list(I, fr, st, sid, kw.get('addr'))
        if kind == 'opaque' and not kw.get('q', '').startswith('std::'):
            self.saw_opaque = True
        if kind == 'abort':
            self.reached.add('abort')
            w = st.mon.get('noabort')
            if w is not None:
                self.bad(I, fr, st, sid, w)
        elif kind == 'end':
            self.reached.add('end')
        elif kind == 'access' and self.bounds:
            self.access(I, fr, st, sid, **kw)
        elif kind == 'misadjusted':
            self.bad(I, fr, st, sid, 'a pointer to a class is used as a pointer to a base or derived class at another '
                     'address', '%s as %s' % (kw['src'], kw['dst']))
        elif kind == 'badformat' and self.bounds:
            self.bad(I, fr, st, sid, 'a format string does not match its arguments', kw['what'])
        self.ev2(I, fr, st, kind, sid, **kw)

    def in_list(self, I, fr, st, sid, a):
        while isinstance(a, Term) and a.op in ('fld', 'el', 'sdata'):
            if a.op == 'el' and a.a[0] in I.arrn:
                what = 'no argument outside the list is read'
                self.check(I, fr, st, sid, mk_le(0, a.a[1]), what)
                self.check(I, fr, st, sid, mk_lt(a.a[1], I.arrn[a.a[0]]), what)
            a = a.a[0]

    def access(self, I, fr, st, sid, write, ptr, off, n, size):
        what = 'memory outside a %s is %s' % ('string or buffer', 'written' if write else 'read')
        if size is None:
            return
        self.check(I, fr, st, sid, mk_le(0, off), what)
        self.check(I, fr, st, sid, mk_le(add(off, n), size), what)

    def dead_part(self, a, f):
        while isinstance(a, Term):
            if a in f:
                return a
            if a.op == 'data':
                r = T('els', a.a[0])
                if r in f:
                    return r
            elif a.op == 'mel':
                r = T('els', a.a[0])
                if r in f:
                    return r
            elif a.op not in ('fld', 'el'):
                return None
            a = a.a[0]
        return None

    def ev2(self, I, fr, st, kind, sid, **kw):
        pass


def union_alts(a):
    """(union address, alternative address) for every anonymous-union member on the path of address a"""
    out = []
    while isinstance(a, Term) and a.op in ('fld', 'el', 'data', 'sdata', 'mel'):
        if a.op == 'fld':
            b = a.a[0]
            if isinstance(b, Term) and b.op == 'fld' and isinstance(b.a[1], str) and b.a[1][:1] == '$' and \
                    b.a[1][1:].isdigit():
                out.append((b, a))
        a = a.a[0]
    return out


class UnionMonitor(HarnessMonitor):
    """HarnessMonitor plus the lifetime rules of anonymous unions with class members: st.mon['un'] holds the unions
    whose owner was seen to be constructed, and their live alternative"""

    def key(self, st):
        return HarnessMonitor.key(self, st) + (st.mon.get('un'),)

    def is_class(self, ty):
        return ty is not None and ty.k == 'rec'

    def ev2(self, I, fr, st, kind, sid, **kw):
        un = st.mon.get('un', frozenset())
        a = kw.get('addr')
        if kind == 'f2i':
            self.conversion(I, fr, st, sid, kw['value'], kw['ty'])
            return
        if kind == 'elems_dead':
            c = a.a[0]
            st.mon['un'] = frozenset(x for x in un if not (under(x, T('data', c)) or self.in_map(x, c)))
            return
        if kind in ('construct', 'placement', 'init', 'write'):
            ty = kw.get('ty')
            if kind == 'write' and self.is_class(ty):
                return
            if kind == 'construct' and self.is_class(ty):
                un = frozenset(x for x in un if x is a or not under(x, a))
                for f, r in ty.rec.all_fields() if ty.rec is not None and ty.rec.in_ else ():
                    n = f['n']
                    if n[:1] == '$' and n[1:].isdigit() and r.tu.types[f['t']].rec is not None and \
                            r.tu.types[f['t']].rec.d.get('union'):
                        un = un | {T('fld', a, n)}
                st.mon['un'] = un
            for u, alt in union_alts(a):
                if alt is not a:
                    self.need(I, fr, st, sid, u, alt)
                    continue
                un = st.mon.get('un', frozenset())
                other = [x for x in un if x.op == 'fld' and x.a[0] is u and x is not alt and x in un and
                         self.alt_class(st, x)]
                if other:
                    self.bad(I, fr, st, sid, 'an alternative is written while another one is alive', show(alt))
                if kind == 'construct' and alt in un and self.is_class(ty) and self.alt_class(st, alt):
                    self.bad(I, fr, st, sid, 'an alternative is constructed over a live one', show(alt))
                if u in un:
                    un = frozenset(x for x in un if not (x.op == 'fld' and x.a[0] is u)) | {alt}
                    st.mon['un'] = un
                    if self.is_class(ty):
                        st.mon['uncls'] = st.mon.get('uncls', frozenset()) | {alt}
            return
        if kind == 'destroy':
            for u, alt in union_alts(a):
                self.need(I, fr, st, sid, u, alt)
                if alt is a:
                    st.mon['un'] = st.mon.get('un', frozenset()) - {alt}
            un = st.mon.get('un', frozenset())
            if a in un and not union_alts(a):
                live = [x for x in un if x.op == 'fld' and x.a[0] is a and self.alt_class(st, x)]
                if live:
                    self.bad(I, fr, st, sid, 'the owner is destroyed while its alternative is alive', show(live[0]))
                st.mon['un'] = frozenset(x for x in un if not under(x, a))
            return
        if kind in ('read', 'use'):
            for u, alt in union_alts(a):
                self.need(I, fr, st, sid, u, alt)
        elif kind == 'assign':
            for b in (a, kw['src']):
                for u, alt in union_alts(b):
                    self.need(I, fr, st, sid, u, alt)

    def conversion(self, I, fr, st, sid, v, ty):
        what = 'a conversion from floating point is out of range'
        bits, sg = ty.d.get('bits') or 64, ty.d.get('sg')
        lo, hi = (-2.0 ** (bits - 1), 2.0 ** (bits - 1)) if sg else (0.0, 2.0 ** bits)
        l, h = st.float_bounds(v)
        strict = bits < 64
        if l is not None and h is not None and (l > lo - 1 if strict else l >= lo) and h < hi:
            self.rep.ok(self.oid(what + ': never'))
            return
        r = imprecise(v)
        if r is not None:
            self.rep.undecided(self.oid(what), 'value without a model: %s' % show(r)[:150])
            return
        self.bad(I, fr, st, sid, what, 'bounds known on this path: %s .. %s' % (l, h))

    def in_map(self, x, c):
        while isinstance(x, Term) and x.op in ('fld', 'el', 'data', 'sdata', 'mel'):
            if x.op == 'mel' and x.a[0] is c:
                return True
            x = x.a[0]
        return False

    def alt_class(self, st, alt):
        return alt in st.mon.get('uncls', ())

    def need(self, I, fr, st, sid, u, alt):
        un = st.mon.get('un', frozenset())
        if u in un and alt not in un:
            self.bad(I, fr, st, sid, 'an alternative is used that is not alive', show(alt))
            st.mon['un'] = un - {u}


def lit_of(fn, sid):
    while fn.x[sid]['k'] != 'StringLiteral':
        sid = fn.x[sid]['c'][0]
    return bytes.fromhex(fn.x[sid]['str']).decode('latin1')


def run_harness(rep, prog, prefix, mk=None, models=None, max_steps=300000, cfg=None, only=None, tag=''):
    only = only or os.environ.get('RSA_ONLY')
    """analyse every harness function whose name starts with prefix"""
    n = 0
    for fn in sorted(prog.functions(), key=lambda f: (f.file, f.d['line'])):
        if not fn.q.startswith(prefix) or '::' in fn.q or '/harness/' not in fn.file or fn.entry is None:
            continue
        if only and only not in fn.q:
            continue
        n += 1
        mon = (mk or HarnessMonitor)(rep, fn.q + (' [%s]' % tag if tag else ''))
        if cfg:
            for k, v in cfg.items():
                setattr(mon, k, v)
        chars.ON[0] = bool(getattr(mon, 'charsets', False))
        I = Interp(prog, mon, models or Models(), max_steps=max_steps)
        try:
            I.run(fn)
        except Undecided as e:
            rep.undecided(fn.q, str(e))
        except AnchorError:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rep.undecided(fn.q, 'analysis error: %r at %s:%s' % (e, os.path.basename(tb.filename), tb.lineno))
        mon.finish(I)
        rep.count('harness_entry_points')
        rep.count('abstract_steps', I.steps)
        rep.count('abstract_paths', I.paths + I.aborts)
        for f in I.funcs_seen.values():
            if '/harness/' not in f.file:
                rep.analysed.add('%s %s:%s' % (f.q, f.file, f.d['line']))
        if I.undecided:
            for k, v in I.undecided.items():
                rep.note('%s: %s %s' % (fn.q, k[0], k[1]))
        if not mon.reached and I.steps and fn.q not in rep.obl:
            rep.undecided(fn.q, 'no end of the entry point reached')
        for n2 in fn.x:
            if n2['k'] == 'CallExpr' and n2.get('q') == 'vf_unreachable':
                o = mon.oid(lit_of(fn, n2['args'][-1]))
                if o not in mon.hits and o not in rep.obl:
                    if I.undecided or mon.saw_opaque:
                        rep.undecided(o, 'code without a model was met')
                    elif 'abort' not in mon.reached and 'end' not in mon.reached:
                        rep.undecided(o, 'no end reached')
                    else:
                        rep.ok(o)
        # every obligation of the entry point has to be met by at least one path
        for n2 in fn.x:
            if n2['k'] == 'CallExpr' and n2.get('q') in ('vf_assert', 'vf_reach'):
                w = lit_of(fn, n2['args'][-1])
                if mon.oid(w) not in mon.hits:
                    if I.undecided or mon.saw_opaque or rep.obl.get(fn.q) == 'undecided':
                        rep.undecided(mon.oid(w), 'not reached, but code without a model was met')
                    else:
                        rep.violated(mon.oid(w), 'no execution reaches the point where this holds: ' + w,
                                     fn.file, n2['l'], fn.q)
    rep.floor('harness_entry_points_' + prefix, n, 1)
    return n
