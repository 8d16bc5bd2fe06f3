"""Threads in the abstract interpreter: a thread started by the code under analysis is an entry in a registry and is
run, nested, where another thread yields (after it released a mutex, when it started a thread) or blocks (a wait, a
join).  All choices are explored; a thread that cannot continue is parked, i.e. the path goes on without it."""
from .terms import *
from .interp import Frame, addr_root, under
from .hmon import HarnessMonitor, DEBUG

NEW, RUN, PARK, DONE = 'new', 'run', 'park', 'done'


class SchedMonitor(HarnessMonitor):
    unroll = 40
    no_widening = True
    unroll_recursion = 4
    max_depth = 160
    element_dtors = True
    rules = ()

    def __init__(self, rep, entry):
        HarnessMonitor.__init__(self, rep, entry)
        self.budget_hit = []
        self.stuck = False
        self.snap = []

    # st.mon: thr ((status, by the library, detached), ...); ent (start values); cur; stk (tids, bottom first);
    # held ((tid, mutex), ...); blk ((tid, kind, object, timed, woken), ...); pre/spur/tmo budgets
    def key(self, st):
        m = st.mon
        return HarnessMonitor.key(self, st) + tuple(m.get(k) for k in (
            'thr', 'cur', 'stk', 'held', 'blk', 'pre', 'spur', 'tmo', 'uc', 'blt', 'dead', 'seen', 'susp', 'snc', 'snw', 'stl', 'old'))

    def cur(self, st):
        return st.mon.get('cur', 0)

    def thr(self, st):
        return st.mon.get('thr', ())

    def set_thr(self, st, t, **kw):
        l = list(self.thr(st))
        s, lib, det = l[t - 1]
        l[t - 1] = (kw.get('status', s), lib, kw.get('det', det))
        st.mon['thr'] = tuple(l)

    def mine(self, st):
        c = self.cur(st)
        return [m for t, m in st.mon.get('held', ()) if t == c]

    # ------------------------------------------------------------------ object lifetimes
    MEMBERS = ('std::mutex', 'std::condition_variable', 'std::queue', 'std::vector', 'std::unordered_map', 'std::map',
               'std::function', 'std::thread', 'std::atomic', 'std::deque', 'std::priority_queue')

    def destroyed(self, I, fr, st, a, ty, sid):
        if isinstance(a, Term) and a.op == 'fld' and ty.k == 'rec' and ty.rec is not None and \
                (ty.rec.in_ or ty.rec.q in self.MEMBERS):
            st.mon['dead'] = st.mon.get('dead', frozenset()) | {a}

    def ev2(self, I, fr, st, kind, sid, **kw):
        m = st.mon
        if m.get('snw') or m.get('snc'):
            self.snapshot(I, fr, st, kind, sid, kw)
        if kind in ('construct', 'init', 'decl', 'placement'):
            a = kw['addr']
            if m.get('dead'):
                m['dead'] = frozenset(x for x in m['dead'] if x is not a and not under(x, a))
            if m.get('uc'):
                self.built(st, a)
        elif kind in ('read', 'write', 'use', 'lock', 'unlock', 'notify', 'assign', 'wait', 'front', 'atomic'):
            for k in ('addr', 'mutex', 'cv', 'src', 'cont'):
                a = kw.get(k)
                if not isinstance(a, Term):
                    continue
                if m.get('dead'):
                    r = self.dead_part(a, m['dead'])
                    if r is not None:
                        self.bad(I, fr, st, sid, 'an object is used after its destructor has run', show(a))
                        m['dead'] = m['dead'] - {r}
                if m.get('uc'):
                    c = self.cur(st)
                    if kind in ('write', 'assign') and k == 'addr' and any(t == c for t, o in m['uc']):
                        self.built(st, a)
                    for t, o in m['uc']:
                        if t != c and under(a, o):
                            x = self.child(o, a)
                            if x is not None and x.op == 'fld' and x not in m.get('blt', ()):
                                self.bad(I, fr, st, sid, 'a thread uses a member before it is constructed', show(x))
                                m['blt'] = m.get('blt', frozenset()) | {x}
            if kind == 'front' and st.decide(mk_eq(kw['size'], 0)) is True:
                self.bad(I, fr, st, sid, 'the front of an empty queue is used')
        elif kind == 'pop':
            if st.decide(mk_eq(kw['size'], 0)) is True:
                self.bad(I, fr, st, sid, 'an element is removed from an empty queue')
        elif kind == 'enter' and fr.fn.kind == 'ctor' and isinstance(fr.this, Term):
            m['uc'] = m.get('uc', ()) + ((self.cur(st), fr.this),)
        elif kind == 'leave' and fr.fn.kind == 'ctor' and m.get('uc'):
            l = list(m['uc'])
            for i in reversed(range(len(l))):
                if l[i] == (self.cur(st), fr.this):
                    del l[i]
                    break
            m['uc'] = tuple(l)
            if not m['uc']:
                m.pop('blt', None)
        self.ev3(I, fr, st, kind, sid, **kw)

    def snapshot(self, I, fr, st, kind, sid, kw):
        m = st.mon
        c = self.cur(st)
        if kind == 'freed' and isinstance(kw['addr'], Term):
            a = addr_root(kw['addr'])
            for k in m.get('snc', ()):
                self.snap[k][2].setdefault(a, (fr, sid, st.copy()))
        elif kind == 'leave' and '/harness/' not in fr.fn.file:
            for k in m.get('snc', ()):
                self.snap[k][2].setdefault(('frame', fr.ctx), (fr, sid, st.copy()))
        elif kind in ('read', 'write', 'use', 'lock', 'unlock', 'notify', 'assign', 'wait', 'front', 'atomic'):
            for k, t in m.get('snw', ()):
                if t == c:
                    for x in ('addr', 'mutex', 'cv', 'src', 'cont'):
                        a = kw.get(x)
                        if isinstance(a, Term):
                            self.snap[k][1].setdefault(addr_root(a), fr.where(sid))
            if kind == 'lock':
                # from here on it depends on what the others have done
                m['snw'] = tuple(x for x in m.get('snw', ()) if x[1] != c)

    def child(self, o, a):
        while isinstance(a, Term) and a.a:
            if a.a[0] is o:
                return a
            a = a.a[0]
        return None

    def built(self, st, a):
        for t, o in st.mon['uc']:
            if under(a, o):
                x = self.child(o, a)
                if x is not None:
                    st.mon['blt'] = st.mon.get('blt', frozenset()) | {x}

    def ev3(self, I, fr, st, kind, sid, **kw):
        if 'retest' in self.rules:
            self.retest(I, fr, st, kind, sid, kw)

    def retest(self, I, fr, st, kind, sid, kw):
        """st.mon['seen']: ((tid, mutex, 'new' | 'tested' | 'woken'), ...) for the mutexes held"""
        m = st.mon
        if kind in ('lock', 'unlock', 'woken', 'wait'):
            c, x = self.cur(st), kw['mutex']
            seen = m.get('seen', ())
            if not (isinstance(x, Term) and x.op == 'fld'):
                return
            how = [h for t, y, h in seen if t == c and y is x]
            rest = tuple(e for e in seen if not (e[0] == c and e[1] is x))
            if kind == 'wait':
                if how == ['new'] or how == ['woken']:
                    self.bad(I, fr, st, sid, 'a wait whose condition was not tested in the same critical section')
                else:
                    self.rep.ok(self.oid('every wait follows a test in the same critical section'))
            elif kind == 'unlock' and how == ['woken']:
                self.bad(I, fr, st, sid, 'the condition is not tested again after a wait')
            m['seen'] = rest + (((c, x, 'woken' if kind == 'woken' else 'new'),) if kind in ('lock', 'woken') else ())
        elif kind in ('read', 'use') and m.get('seen'):
            c = self.cur(st)
            a = kw.get('addr')
            for i, (t, x, h) in enumerate(m['seen']):
                if t == c and h != 'tested' and isinstance(a, Term) and under(a, x.a[0]):
                    l = list(m['seen'])
                    l[i] = (t, x, 'tested')
                    m['seen'] = tuple(l)
                    break

    # ------------------------------------------------------------------ mutexes
    def sched_lock(self, I, fr, st, sid, m):
        held = st.mon.get('held', ())
        c = self.cur(st)
        for t, x in held:
            if x is m:
                if t == c:
                    self.bad(I, fr, st, sid, 'a thread locks a mutex it already holds', show(m))
                return []
        if self.mine(st) and 'nest' in self.rules and '/harness/' not in fr.fn.file:
            self.bad(I, fr, st, sid, 'a mutex is acquired while another one is held', show(m))
        if 'nest' in self.rules:
            self.rep.ok(self.oid('no mutex is acquired while another one is held'))
        st.mon['held'] = held + ((c, m),)
        self.ev(I, fr, st, 'lock', sid, mutex=m)
        return [st]

    def sched_unlock(self, I, fr, st, sid, m, quiet=False):
        c = self.cur(st)
        held = st.mon.get('held', ())
        if (c, m) not in held:
            self.bad(I, fr, st, sid, 'a thread unlocks a mutex it does not hold', show(m))
            return [st]
        st.mon['held'] = tuple(x for x in held if x != (c, m))
        self.ev(I, fr, st, 'unlock', sid, mutex=m)
        self.release(I, fr, st, sid)
        if quiet:
            return [st]
        self.suspend(I, fr, st, sid)
        return self.maybe_run(I, fr, st, sid)

    def release(self, I, fr, st, sid):
        pass

    def suspend(self, I, fr, st, sid):
        """the other threads go on while this one, nested, stays where it is (and is not followed any further).
        What they release until then and what this thread uses afterwards are collected (snap) and compared."""
        b = st.mon.get('susp', 0)
        if b <= 0 or len(st.mon.get('stk', (0,))) < 2 or self.mine(st):
            return
        k = len(self.snap)
        c = self.cur(st)
        self.snap.append((c, {}, {}))
        s = st.copy()
        s.mon['susp'] = b - 1
        s.mon['snc'] = s.mon.get('snc', ()) + (k,)
        st.mon['snw'] = st.mon.get('snw', ()) + ((k, c),)
        self.rep.count('suspensions')
        self.park(s)

    def finish(self, I):
        for c, used, freed in self.snap:
            for a, w in used.items():
                for f in (a, ('frame', a.a[0] if a.op in ('v', 't') else None)):
                    if f in freed and not freed[f][2].opaque and not I.undecided:
                        fr, sid, st = freed[f]
                        self.bad(I, fr, st, sid, 'what another thread still uses is released', '%s, used at %s' % (
                            show(a), ':'.join(map(str, w))))
                        break
            self.rep.ok(self.oid('nothing is released that a suspended thread still uses'))

    # ------------------------------------------------------------------ running threads
    def news(self, st):
        return [i + 1 for i, t in enumerate(self.thr(st)) if t[0] == NEW]

    def maybe_run(self, I, fr, st, sid):
        """voluntary preemption: any subset of the threads that have not run yet may run now"""
        if self.mine(st):
            return [st]
        out, work = [], [st]
        while work:
            s = work.pop()
            b = s.mon.get('pre', 1)
            nw = self.news(s)
            if b > 0:
                for t in nw:
                    s2 = s.copy()
                    s2.mon['pre'] = b - 1
                    work += self.run_thread(I, fr, s2, sid, t)
            out.append(s)
        return out

    def run_thread(self, I, fr, st, sid, t):
        prev, stk = self.cur(st), st.mon.get('stk', (0,))
        st.mon['cur'] = t
        st.mon['stk'] = stk + (t,)
        self.set_thr(st, t, status=RUN)
        if DEBUG:
            print('>>> thread', t)
        I.note(fr, st, sid, 'thread %d runs' % t)
        key = (fr.ctx, ('thr', t))
        c = I.ctxs.get(key)
        if c is None:
            c = I.ctxs[key] = len(I.ctxs)
        nf = Frame(fr.fn, c, fr.this, None, fr, sid)
        nf.bind = fr.bind
        self.budget_hit.append([])
        try:
            res = self.start(I, nf, st, sid, st.mon['ent'][t - 1])
        finally:
            parked = self.budget_hit.pop()
        out = []
        for s, _ in res:
            for x, m in s.mon.get('held', ()):
                if x == t:
                    self.bad(I, fr, s, sid, 'a thread ends while it holds a mutex', show(m))
            self.set_thr(s, t, status=DONE)
            s.mon['cur'], s.mon['stk'] = prev, stk
            I.note(fr, s, sid, 'thread %d has ended' % t)
            out.append(s)
        for s in parked:
            self.set_thr(s, t, status=PARK)
            s.mon['cur'], s.mon['stk'] = prev, stk
            I.note(fr, s, sid, 'thread %d is blocked' % t)
            out.append(s)
        if DEBUG:
            print('<<< thread', t, len(res), 'ends', len(parked), 'parks')
        return out

    def start(self, I, fr, st, sid, ent):
        a, isa, ty = ent[0]
        t = ty.noref() if ty is not None else None
        if t is not None and t.k == 'rec':
            r = I.models.call_target(I, fr, st, {}, sid, None, list(ent[1:]), None, t, a)
        else:
            r = I.models.call_target(I, fr, st, {}, sid, a, list(ent[1:]), None)
        out = r
        for v, isa, ty in ent:
            t = ty.noref() if ty is not None else None
            if isa and t is not None and t.k == 'rec':
                nxt = []
                for s, _ in out:
                    nxt += I.destroy(fr, s, v, t, sid)
                out = nxt
        return out

    def park(self, st):
        self.budget_hit[-1].append(st)

    def progressable(self, st):
        """can any thread but the current one continue?"""
        if self.news(st):
            return True
        c = self.cur(st)
        blk = {b[0]: b for b in st.mon.get('blk', ())}
        act = [t for t in st.mon.get('stk', (0,)) if t != c]
        act += [i + 1 for i, t in enumerate(self.thr(st)) if t[0] == PARK]
        for t in act:
            b = blk.get(t)
            if b is None or b[3] or b[4] or b[1] == 'join' and self.is_done(st, b[2]):
                return True
        return False

    def is_done(self, st, t):
        return self.thr(st)[t - 1][0] == DONE

    def block(self, I, fr, st, sid, ready, timed, what):
        """the current thread blocks until ready(state); list of (state, 'ready' | 'timeout' | 'spurious')"""
        if 'notimeout' in self.rules:
            timed = False
            if what == 'cv':
                b = st.mon['blk']
                st.mon['blk'] = b[:-1] + (b[-1][:3] + (False,) + b[-1][4:],)
        out, work = [], [st]
        while work:
            s = work.pop()
            if ready(s):
                out.append((s, 'ready'))
                continue
            alt = False
            for t in self.news(s):
                alt = True
                work += self.run_thread(I, fr, s.copy(), sid, t)
            if timed and s.mon.get('tmo', 3) > 0:
                alt = True
                s2 = s.copy()
                s2.mon['tmo'] = s.mon.get('tmo', 3) - 1
                out.append((s2, 'timeout'))
            if what == 'cv' and s.mon.get('spur', 0) > 0:
                s2 = s.copy()
                s2.mon['spur'] = s.mon.get('spur', 0) - 1
                out.append((s2, 'spurious'))
            if not alt and not timed and not self.progressable(s):
                self.rep.count('blocked_states')
                self.stranded(I, fr, s, sid)
                continue
            if len(s.mon.get('stk', (0,))) > 1:
                self.park(s)
        return out

    def stranded(self, I, fr, st, sid):
        self.bad(I, fr, st, sid, 'every thread is blocked for ever')

    # ------------------------------------------------------------------ condition variables
    def sched_wait(self, I, fr, st, sid, cv, m, timed):
        c = self.cur(st)
        self.ev(I, fr, st, 'wait', sid, cv=cv, mutex=m, timed=timed)
        if (c, m) not in st.mon.get('held', ()):
            self.bad(I, fr, st, sid, 'a wait without holding the mutex', show(m))
            return []
        if 'nest' in self.rules and len(self.mine(st)) > 1:
            self.bad(I, fr, st, sid, 'a wait while another mutex is held', show(m))
        st.mon['held'] = tuple(x for x in st.mon['held'] if x != (c, m))
        if st.mon.get('bat') == (c, True):
            # it was woken and waits again, without having passed the notification on
            left = [b[0] for b in st.mon.get('blk', ()) if b[0] in st.mon.get('old', ()) and not b[4]]
            if left:
                self.bad(I, fr, st, sid, 'a sleeping worker is not notified of the shutdown', 'thread %d' % left[0])
        if c in st.mon.get('old', ()):
            st.mon['old'] = st.mon['old'] - {c}
        st.mon['blk'] = st.mon.get('blk', ()) + ((c, 'cv', cv, timed, False),)
        self.rep.count('waits_analysed')
        self.release(I, fr, st, sid)

        def ready(s):
            return any(b[0] == c and b[4] for b in s.mon.get('blk', ()))
        out = []
        res = []
        for s, how in self.block(I, fr, st, sid, ready, timed, 'cv'):
            # the wait is over, but other threads may get the mutex first
            s.mon['blk'] = tuple(b for b in s.mon['blk'] if b[0] != c)
            res += [(s2, how) for s2 in self.maybe_run(I, fr, s, sid)]
        for s, how in res:
            if any(x is m for _, x in s.mon.get('held', ())):
                continue
            s.mon['held'] = s.mon.get('held', ()) + ((c, m),)
            I.note(fr, s, sid, 'the wait ends: ' + how)
            if how == 'ready' and s.mon.get('bat') == (c, False):
                s.mon['bat'] = (c, True)
            self.ev(I, fr, s, 'woken', sid, cv=cv, mutex=m, timeout=how == 'timeout')
            out.append((s, how == 'timeout'))
        return out

    def sched_notify(self, I, fr, st, sid, cv, all_):
        self.ev(I, fr, st, 'notify', sid, cv=cv, all=all_)
        blk = st.mon.get('blk', ())
        idx = [i for i, b in enumerate(blk) if b[1] == 'cv' and b[2] is cv and not b[4]]
        if not idx:
            return [st]
        if all_:
            st.mon['blk'] = tuple(b[:4] + (True,) if i in idx else b for i, b in enumerate(blk))
            return [st]
        out = []
        for i in idx:
            s = st.copy() if i != idx[-1] else st
            s.mon['blk'] = tuple(b[:4] + (True,) if j == i else b for j, b in enumerate(blk))
            out.append(s)
        return out

    # ------------------------------------------------------------------ threads
    def sched_start(self, I, fr, st, sid, dest, vals):
        t = len(self.thr(st)) + 1
        outs = [(st, ())]
        for j, (a, isa, ty) in enumerate(vals):
            nt = ty.noref()
            d = T('obj', 'thread%d.%d' % (t, j))
            nxt = []
            for s, l in outs:
                if nt.k == 'rec':
                    for s2, _ in I.models.copy_move(I, fr, s, {}, sid, a, d, nt, 'copy' if ty.k == 'lref' else 'move'):
                        nxt.append((s2, l + ((d, True, nt),)))
                elif isa and isinstance(a, Term) and nt.k != 'arr':
                    v = I.read(s, a, nt)
                    nxt.append((s, l + ((v, False, nt),)))
                else:
                    nxt.append((s, l + ((a, False, nt),)))
            outs = nxt
        res = []
        f = fr
        while f is not None and f.fn.d.get('lambda'):
            f = f.parent
        lib = '/harness/' not in fr.fn.file
        for s, l in outs:
            s.mon['thr'] = self.thr(s) + ((NEW, lib, False),)
            s.mon['ent'] = s.mon.get('ent', ()) + (l,)
            s.mem[dest] = 1000 + t
            self.ev(I, fr, s, 'thread_start', sid, addr=dest, args=l, value=1000 + t, lib=lib)
            self.started(I, fr, s, sid, t)
            res += self.maybe_run(I, fr, s, sid) if 'eager' in self.rules or lib else [s]
        return res

    def started(self, I, fr, st, sid, t):
        pass

    def sched_join(self, I, fr, st, sid, obj):
        v = I.read(st, obj)
        if v == 0:
            self.ev(I, fr, st, 'abort', sid)
            return []
        if not isinstance(v, int):
            st.opaque = st.opaque + (('thread value', fr.where(sid)),)
            return [st]
        t = v - 1000
        c = self.cur(st)
        if t == c:
            self.bad(I, fr, st, sid, 'a thread joins itself')
            return []
        st.mon['blk'] = st.mon.get('blk', ()) + ((c, 'join', t, False, False),)
        out = []
        for s, _ in self.block(I, fr, st, sid, lambda s: self.is_done(s, t), False, 'join'):
            s.mon['blk'] = tuple(b for b in s.mon['blk'] if b[0] != c)
            s.mem[obj] = 0
            self.ev(I, fr, s, 'join', sid, addr=obj, value=v)
            out.append(s)
        return out

    def sched_detach(self, I, fr, st, sid, obj):
        v = I.read(st, obj)
        if v == 0:
            self.ev(I, fr, st, 'abort', sid)
            return []
        if isinstance(v, int):
            self.set_thr(st, v - 1000, det=True)
        st.mem[obj] = 0
        self.ev(I, fr, st, 'detach', sid, addr=obj, value=v)
        return [st]

    def sched_thread_dtor(self, I, fr, st, sid, a):
        v = I.read(st, a)
        if isinstance(v, int) and v != 0:
            self.ev(I, fr, st, 'abort', sid)
            return []
        return [st]

    def sched_self(self, st):
        return 1000 + self.cur(st)

    # ------------------------------------------------------------------ intrinsics
    def call2(self, I, fr, st, env, sid, n, q, obj, args, dest):
        return None

    def call(self, I, fr, st, env, sid, n, q, obj, args, dest):
        if q.startswith('vfs_'):
            m = st.mon
            if q == 'vfs_sched':
                m['pre'], m['spur'], m['tmo'] = args[0], args[1], args[2]
                return [(st, 0)]
            if q == 'vfs_suspend':
                m['susp'] = args[0]
                return [(st, 0)]
            if q == 'vfs_yield':
                self.suspend(I, fr, st, sid)
                return [(s, 0) for s in self.maybe_run(I, fr, st, sid)]
            if q in ('vfs_settle', 'vfs_quiesce'):
                return [(s, 0) for s in self.settle(I, fr, st, sid, q == 'vfs_quiesce')]
            if q == 'vfs_flush':
                work = [st]
                out = []
                while work:
                    s = work.pop()
                    nw = self.news(s)
                    if not nw:
                        out.append((s, 0))
                    else:
                        work += self.run_thread(I, fr, s, sid, nw[0])
                return out
            if q == 'vfs_started':
                return [(st, sum(1 for t in self.thr(st) if t[1]))]
            if q == 'vfs_live':
                return [(st, sum(1 for t in self.thr(st) if t[1] and t[0] != DONE and not t[2]))]
            if q == 'vfs_unfinished':
                return [(st, sum(1 for t in self.thr(st) if t[1] and t[0] != DONE))]
            if q == 'vfs_mark_asleep':
                st.mon['old'] = frozenset(b[0] for b in st.mon.get('blk', ()) if b[1] == 'cv' and not b[4])
                return [(st, 0)]
            if q == 'vfs_still_asleep':
                return [(st, sum(1 for b in st.mon.get('blk', ()) if b[0] in st.mon.get('old', ()) and not b[4]))]
            if q == 'vfs_shutting_down':
                st.mon['bat'] = (self.cur(st), False)
                return [(st, 0)]
            if q == 'vfs_asleep':
                lib = [i + 1 for i, t in enumerate(self.thr(st)) if t[1]]
                return [(st, sum(1 for b in st.mon.get('blk', ()) if b[0] in lib and b[1] == 'cv' and not b[4]))]
            if q == 'vfs_runnable':
                me, n = self.cur(st), 0
                for i, t in enumerate(((RUN,),) + tuple(self.thr(st))):
                    if i == me or t[0] == DONE or not i and st.mon.get('stl'):
                        continue
                    b = [b for b in st.mon.get('blk', ()) if b[0] == i]
                    n += not b or b[0][3] or b[0][4] or b[0][1] == 'join' and self.is_done(st, b[0][2])
                return [(st, int(n))]
            if q == 'vfs_held':
                return [(st, len(self.mine(st)))]
            if q == 'vfs_self':
                return [(st, self.cur(st))]
            if q == 'vfs_cut':
                return []
        return HarnessMonitor.call(self, I, fr, st, env, sid, n, q, obj, args, dest)

    def settle(self, I, fr, st, sid, strict):
        out, work = [], [st]
        st.mon['stl'] = True
        while work:
            s = work.pop()
            nw = self.news(s)
            if nw:
                for t in nw:
                    work += self.run_thread(I, fr, s.copy(), sid, t)
                continue
            parked = [i + 1 for i, t in enumerate(self.thr(s)) if t[0] == PARK]
            if parked and strict and not self.progressable_parked(s, parked):
                self.stranded(I, fr, s, sid)
                continue
            if parked and self.progressable_parked(s, parked):
                continue
            s.mon['stl'] = False
            out.append(s)
        return out

    def progressable_parked(self, st, parked):
        for b in st.mon.get('blk', ()):
            if b[0] in parked and (b[3] or b[4] or b[1] == 'join' and self.is_done(st, b[2])):
                return True
        return False


class LocksetMonitor(SchedMonitor):
    """Every two accesses of different threads to the same library data, one of them a write, hold a common mutex,
    unless creating or joining a thread orders them.  st.mon['lk']: the accesses of the path, ((variable, thread,
    writes, locks, threads that may run at the same time, where), ...); st.mon['jn']: ((thread, joined), ...)."""

    WRITERS = frozenset((
        'push', 'pop', 'emplace', 'emplace_back', 'push_back', 'pop_back', 'push_front', 'pop_front', 'emplace_front',
        'insert', 'erase', 'clear', 'resize', 'reset', 'swap', 'assign', 'try_emplace', 'insert_or_assign', 'extract',
        'merge', 'append', 'operator=', 'operator+=', 'reserve', 'shrink_to_fit', 'join', 'detach', 'release', 'splice',
        'remove', 'sort', 'operator++', 'operator--', 'operator-='))
    SYNC = ('std::mutex', 'std::condition_variable', 'std::atomic', 'std::unique_lock', 'std::lock_guard',
            'std::scoped_lock', 'std::shared_mutex', 'std::timed_mutex', 'std::recursive_mutex',
            'std::condition_variable_any', 'std::once_flag', 'std::shared_ptr', 'std::__shared_ptr', 'std::weak_ptr')

    def variable(self, a):
        """the member or variable an address belongs to: up to the first container element or pseudo field"""
        l = []
        while isinstance(a, Term):
            l.append(a)
            if a.op in ('fld', 'el', 'mel', 'data', 'sdata', 'els'):
                a = a.a[0]
            else:
                break
        if not isinstance(a, Term):
            return None
        r = l[-1]
        for x in reversed(l[:-1]):
            if x.op != 'fld' or (isinstance(x.a[1], str) and x.a[1].startswith('$')):
                break
            r = x
        return r

    def joined(self, st, c):
        return frozenset(j for t, j in st.mon.get('jn', ()) if t == c)

    def conc(self, st, c):
        n = len(self.thr(st))
        return frozenset(range(n + 1)) - self.joined(st, c) - {c}

    def owner(self, st, v, conc):
        """does a thread that may run at the same time belong to (an object around) the variable's object?"""
        for t in conc:
            if t == 0:
                continue
            for x, isa, ty in st.mon['ent'][t - 1]:
                if isinstance(x, Term) and not isa and under(v, x):
                    return True
        return False

    def ev3(self, I, fr, st, kind, sid, **kw):
        SchedMonitor.ev3(self, I, fr, st, kind, sid, **kw)
        if kind == 'join':
            v = kw['value']
            c = self.cur(st)
            if isinstance(v, int):
                t = v - 1000
                st.mon['jn'] = st.mon.get('jn', ()) + ((c, t),) + tuple((c, j) for x, j in st.mon.get('jn', ())
                                                                         if x == t)
            return
        if not self.thr(st) or '/harness/' in fr.fn.file:
            return
        if kind in ('read', 'write'):
            self.access(I, fr, st, sid, kw['addr'], kind == 'write')
        elif kind == 'assign':
            self.access(I, fr, st, sid, kw['addr'], True)
        elif kind in ('fn_assign',):
            self.access(I, fr, st, sid, kw['addr'], True)
        elif kind in ('push', 'pop', 'clear', 'map_insert', 'map_erase'):
            self.access(I, fr, st, sid, kw['cont'], True)
        elif kind == 'use' and kw['cls'] not in self.SYNC and 'atomic' not in kw['cls']:
            self.access(I, fr, st, sid, kw['addr'], kw['name'] in self.WRITERS)

    def access(self, I, fr, st, sid, a, w):
        v = self.variable(a)
        if v is None or not isinstance(v, Term):
            return
        c = self.cur(st)
        conc = self.conc(st, c)
        f = fr
        while f is not None:
            if f.fn.kind in ('ctor', 'dtor') and isinstance(f.this, Term) and under(v, f.this):
                if not self.owner(st, v, conc):
                    return
                break
            f = f.parent
        locks = frozenset(self.mine(st))
        recs = st.mon.get('lk', ())
        wh = fr.where(sid)
        e = (v, c, w, locks, conc, wh)
        if e in recs:
            return
        self.rep.count('shared_accesses')
        for v2, c2, w2, l2, k2, wh2 in recs:
            if v2 is v and c2 != c and (w or w2) and c2 in conc and c in k2:
                name = self.nice(v)
                if not (locks & l2):
                    self.bad(I, fr, st, sid, 'shared data is accessed without a common mutex', '%s, also accessed at %s'
                             % (name, ':'.join(map(str, wh2))))
                    return
                self.rep.ok(self.oid('every two accesses to %s hold a common mutex' % name))
        st.mon['lk'] = recs + (e,)

    def nice(self, v):
        l = []
        while isinstance(v, Term) and v.op == 'fld':
            l.append(str(v.a[1]))
            v = v.a[0]
        return '.'.join(reversed(l)) or 'a variable'
