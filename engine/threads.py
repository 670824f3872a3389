"""Thread interference: context-bounded interleavings of thread bodies, happens-before race detection.

Switches are considered before every synchronising action (mutex, atomic access, fence, thread end).  Between two of them a
thread runs alone, which loses nothing for race-free code, and any race is itself found with vector clocks."""
from interp import Violation, Undecided, Frame, Pruned, Switch as Switched
from values import *
import fold
import bisect


class Thr:
    __slots__ = ('tid', 'frames', 'caught', 'flags', 'wait', 'done', 'skip')

    def copy(self):
        t = Thr.__new__(Thr)
        t.tid, t.frames, t.caught = self.tid, [f.copy() for f in self.frames], self.caught
        t.flags, t.wait, t.done, t.skip = dict(self.flags), self.wait, self.done, self.skip
        return t


class VC:
    __slots__ = ('c', 'rel', 'w', 'r', 'pend')

    def __init__(self):
        self.c = {0: {0: 1}}
        self.rel = {}
        self.w = {}
        self.r = {}
        self.pend = {}

    def copy(self):
        v = VC.__new__(VC)
        v.c = {t: dict(x) for t, x in self.c.items()}
        v.rel = dict(self.rel)
        v.w = dict(self.w)
        v.r = dict(self.r)
        v.pend = dict(self.pend)
        return v

    @staticmethod
    def join(a, b):
        for k, x in b.items():
            if a.get(k, 0) < x:
                a[k] = x

    def tick(self, t):
        self.c[t][t] = self.c[t].get(t, 0) + 1

    def acquire(self, t, k):
        x = self.rel.get(k)
        if x:
            self.join(self.c[t], x)

    def release(self, t, k, merge=False):
        x = dict(self.c[t])
        if merge and k in self.rel:
            self.join(x, self.rel[k])
        self.rel[k] = x
        self.tick(t)

    def hb(self, t, ep):
        return ep[0] == t or self.c[t].get(ep[0], 0) >= ep[1]


EXC_FLAGS = ('lp', 'exc')


def install(I, bound=2):
    I.bound = bound
    I.tseen = set()
    H = I.handlers
    I.thread_mode = True

    def spawn(s, a, ins):
        if s.vc is None:
            s.vc = VC()
        f = I.m.func(a[0].n)
        nf = Frame(f)
        if f.params:
            nf.env[0] = a[1] if len(a) > 1 else 0
        t = Thr()
        t.tid = len(s.threads) + 1
        t.frames = [nf]
        t.caught = ()
        t.flags = {}
        t.wait = None
        t.done = False
        t.skip = True
        s.threads = tuple(s.threads) + (t,)
        s.vc.c[t.tid] = dict(s.vc.c[s.tid])
        s.vc.c[t.tid][t.tid] = 1
        s.vc.tick(s.tid)
        return None
    H['vf_spawn'] = spawn

    def cur(s):
        """park the running thread"""
        t = Thr()
        t.tid, t.frames, t.caught = s.tid, s.frames, s.caught
        t.flags = {k: s.flags.get(k) for k in EXC_FLAGS}
        t.wait, t.done, t.skip = None, False, True
        return t

    def runnable(s, t, ending):
        if t.done:
            return False
        if t.wait is None:
            return True
        if t.wait == 'join':
            return ending and all(x.done for x in s.threads if x.tid != t.tid and x.tid != s.tid)
        if len(t.wait) == 3:        # a writer waits for every owner
            return not any(q[:2] == t.wait[:2] for q in s.locks)
        return t.wait not in s.locks

    def load(s, t):
        s.tid = t.tid
        s.frames = t.frames
        s.caught = t.caught
        for k in EXC_FLAGS:
            v = t.flags.get(k)
            if v is None:
                s.flags.pop(k, None)
            else:
                s.flags[k] = v
        s.flags['skip'] = t.skip

    def switch_to(s, tid, me):
        lst = [x for x in s.threads if x.tid != s.tid]
        if me is not None:
            lst.append(me)
        t = [x for x in lst if x.tid == tid][0]
        s.threads = tuple(x for x in lst if x.tid != tid)
        l = I.loc(me.frames[-1]) if me is not None and me.frames else None
        I.note(s, 'thread %d %s -> thread %d runs' % (s.tid, ('stops before %s:%s' % (l[0].split('/')[-1], l[1])) if l else 'has ended', tid))
        load(s, t.copy())
        s.pending = ()
        s.npend = 0
        raise Switched()

    def cands(s, ending=False):
        return [x.tid for x in s.threads if x.tid != s.tid and runnable(s, x, ending)]

    def fresh(s, me):
        """full exploration: has this set of parked threads been seen before?"""
        if I.bound is not None or s.npend < len(s.pending):
            return
        k = hash((tcanon(I, s, me), s.pending))
        if k in I.tseen:
            I.r.subsumed += 1
            raise Pruned()
        I.tseen.add(k)

    def sync(s, ins):
        if s.vc is None or not s.threads:
            return
        if s.flags.get('skip'):
            return
        if I.bound is not None and s.nsync >= I.bound:
            return
        c = cands(s)
        if not c:
            return
        me = cur(s)
        fresh(s, me)
        k = I.choose(s, 1 + len(c))
        if k == 0:
            return
        s.nsync += 1
        switch_to(s, c[k - 1], me)
    I.sync_hook = sync
    I.sync_after = lambda s, ins: None

    def must_switch(s, me):
        c = cands(s, me.done)
        if not c:
            raise Violation('deadlock', 'every thread waits for another one for ever')
        fresh(s, me)
        switch_to(s, c[I.choose(s, len(c))], me)

    def block(s, k):
        if s.vc is None:
            raise Violation('deadlock', 'a thread waits for ever')
        me = cur(s)
        me.wait = k
        must_switch(s, me)
    I.block = block

    def join(s, a, ins):
        if all(x.done for x in s.threads):
            for x in s.threads:
                VC.join(s.vc.c[s.tid], s.vc.c[x.tid])
            s.threads = ()
            s.vc = None
            s.nsync = 0
            s.flags['skip'] = False
            return None
        me = cur(s)
        me.wait = 'join'
        must_switch(s, me)
    H['vf_join'] = join

    def thread_end(s):
        """the current (non-main) thread returned from its body"""
        if any(t == s.tid for t in s.locks.values()):
            raise Violation('mutex', 'a thread ends while it still holds a mutex')
        me = cur(s)
        me.frames = []
        me.done = True
        c = cands(s, True)
        if not c:
            raise Violation('deadlock', 'every thread waits for another one for ever')
        fresh(s, me)
        k = c[I.choose(s, len(c))]
        for a in s.frames[-1].allocas:
            s.mem.pop(a, None)
        switch_to(s, k, me)
    I.thread_end = thread_end

    def fence(s, ins, order):
        if s.vc is not None and order in ('acquire', 'acq_rel', 'seq_cst'):
            x = s.vc.pend.get(s.tid)
            if x:
                VC.join(s.vc.c[s.tid], x)
    I.fence_hook = fence

    def access(s, p, size, wr, order, ins, free=False, rmw=False):
        vc = s.vc
        if vc is None or type(p) is not P or type(p.f) is not int:
            return
        if type(p.o) is str:
            g = s.mem.get(p.o)
            if g is not None and g.kind == 'const':
                return
        t = s.tid
        me = (t, vc.c[t][t], order is not None)
        o = s.mem.get(p.o)
        if o is not None and o.kind == 'stack' and o.tag == ('own', t):
            return
        lo, hi = p.f, p.f + size
        if free:
            for q in [q for q in vc.w if q[0] == p.o] + [q for q in vc.r if q[0] == p.o]:
                check(s, vc, t, q, True, False, 'released')
            return
        for b in range(lo, hi):
            q = (p.o, b)
            check(s, vc, t, q, wr, order is not None, None)
            if wr:
                vc.w[q] = me
                if not rmw:
                    vc.r.pop(q, None)
            else:
                r = vc.r.get(q)
                if r is None:
                    vc.r[q] = (me,)
                else:
                    vc.r[q] = tuple(x for x in r if x[0] != t or x[2] != me[2]) + (me,)
        if order is not None:
            k = (p.o, p.f)
            acq = order in ('acquire', 'acq_rel', 'seq_cst')
            rel = order in ('release', 'acq_rel', 'seq_cst')
            if not wr or rmw:
                if acq:
                    vc.acquire(t, k)
                elif k in vc.rel:
                    x = dict(vc.pend.get(t, {}))
                    VC.join(x, vc.rel[k])
                    vc.pend[t] = x
            if wr:
                if rel:
                    vc.release(t, k, rmw)
                elif not rmw:
                    vc.rel.pop(k, None)
    I.races = True
    I.access_hook = access

    def check(s, vc, t, q, wr, at, what):
        if not I.races:
            return
        I.r.ob('race-check')
        w = vc.w.get(q)
        if w is not None and not (at and w[2]) and not vc.hb(t, w):
            race(s, 'written', wr, what)
        if wr:
            for r in vc.r.get(q, ()):
                if not (at and r[2]) and not vc.hb(t, r):
                    race(s, 'read', wr, what)

    def race(s, prev, wr, what):
        raise Violation('data-race', 'memory %s by one thread is %s by another without synchronisation' % (prev, what or ('written' if wr else 'read')))


def install_off(I):
    def no(s, a, ins):
        raise Undecided('threads are not enabled')
    I.handlers['vf_spawn'] = no
    I.handlers['vf_join'] = no


def tcanon(I, s, me):
    """canonical form of a state whose threads are all parked before a synchronising action"""
    toks = []
    num = {}
    queue = []
    mem = s.mem

    def oref(oid):
        if type(oid) is str and (oid not in mem or mem[oid].kind == 'const'):
            return oid
        if oid not in mem:
            return 'dangling'
        n = num.get(oid)
        if n is None:
            n = num[oid] = len(num)
            queue.append(oid)
        return n

    def val(v):
        t = type(v)
        if t is P:
            toks.append((oref(v.o), v.f))
        elif t is Agg:
            toks.append(('(', len(v)))
            for x in v:
                val(x)
        elif t is Term:
            toks.append((v.op, len(v.args)))
            for x in v.args:
                val(x)
        elif t is Fn:
            toks.append(v.n)
        else:
            toks.append(v if t is int or t is str else repr(v))

    ths = sorted([x for x in s.threads if x.tid != me.tid] + [me], key=lambda x: x.tid)
    wrap = Wrap()
    for t in ths:
        toks.append((t.tid, t.done, len(t.caught)))
        w = t.wait
        toks.append((oref(w[0]),) + w[1:] if type(w) is tuple else w)
        for e in t.caught:
            toks.append(oref(e))
        for k in EXC_FLAGS:
            val(t.flags.get(k))
        wrap.frames = t.frames
        for n, fr in enumerate(t.frames):
            toks.append((fr.f.name, fr.b, fr.i))
            for i in sorted(fold.frame_live(I, wrap, n)):
                toks.append(i)
                val(fr.env[i])
    toks.append((s.oom, s.more, tuple(sorted((str(k), str(v)) for k, v in s.flags.items() if k not in EXC_FLAGS and k != 'skip'))))
    for k, t in sorted(s.locks.items(), key=lambda x: (str(x[0]), x[1])):
        toks.append(('lock', oref(k[0]), k[1:], t))
    for oid in sorted(x for x in mem if type(x) is str):
        if mem[oid].kind == 'glob':
            oref(oid)
    qi = 0
    while qi < len(queue):
        o = mem[queue[qi]]
        qi += 1
        toks.append((o.kind, o.size, o.tag if o.kind == 'stack' else None))
        for q in sorted(o.cells):
            n, v = o.cells[q]
            toks.append((q, n))
            val(v)
        if o.ents is not None:
            for e in o.ents:
                toks.append(e[0])
                if e[0] != 'S':
                    raise Undecided('summarised list in a threaded program')
                for q in sorted(e[1]):
                    n, v = e[1][q]
                    toks.append((q, n))
                    val(v)
    for t, v in sorted(s.facts.items(), key=lambda x: repr(x)):
        toks.append(('fact', repr(t), v))
    toks.append(sum(1 for oid, o in mem.items() if o.kind in ('heap', 'seq', 'exc') and oid not in num))
    # happens-before information, clock values replaced by their rank
    vc = s.vc
    if vc is not None and any(not t.done and t.tid for t in ths):
        act = [t.tid for t in ths if not t.done and t.tid != 0]
        for d in (vc.w, vc.r):
            for q in [q for q in d if q[0] not in mem]:
                del d[q]
        for q in [q for q, ep in vc.w.items() if all(vc.hb(t, ep) for t in act)]:
            del vc.w[q]
        for q, eps in list(vc.r.items()):
            e2 = tuple(ep for ep in eps if not all(vc.hb(t, ep) for t in act))
            if not e2:
                del vc.r[q]
            elif len(e2) != len(eps):
                vc.r[q] = e2
        eps = {}
        for ep in vc.w.values():
            eps.setdefault(ep[0], set()).add(ep[1])
        for l in vc.r.values():
            for ep in l:
                eps.setdefault(ep[0], set()).add(ep[1])
        # a clock matters only for which of the recorded accesses it covers
        eps = {u: sorted(v) for u, v in eps.items()}
        rank = {u: {x: i + 1 for i, x in enumerate(v)} for u, v in eps.items()}

        def ck(c):
            return tuple(sorted((u, n) for u, n in ((u, bisect.bisect_right(eps[u], x)) for u, x in c.items() if u in eps) if n))
        for t in sorted(vc.c):
            toks.append((t, ck(vc.c[t]), ck(vc.pend[t]) if t in vc.pend else None))
        out = []
        for k, c in vc.rel.items():
            x = ck(c)
            if x and k[0] in ('m', 'mr'):
                if k[1] in num or type(k[1]) is str:
                    out.append((k[0], str(num.get(k[1], k[1])), k[2], x))
            elif x and (k[0] in num or type(k[0]) is str):
                out.append((str(num.get(k[0], k[0])), k[1], 'l', x))
        for q, ep in vc.w.items():
            if q[0] in num:
                out.append((str(num[q[0]]), q[1], 'w', (ep[0], rank[ep[0]][ep[1]], ep[2])))
        for q, eps in vc.r.items():
            if q[0] in num:
                out.append((str(num[q[0]]), q[1], 'r', tuple(sorted((e[0], rank[e[0]][e[1]], e[2]) for e in eps))))
        out.sort(key=repr)
        toks.extend(out)
    return tuple(toks)


class Wrap:
    frames = None
