"""Loop headers: folding of list elements into groups, generalisation of lengths, subsumption."""
from values import *
from interp import Pruned, Undecided, Obj, K, nonneg, sgn

KL = Lin(0, ((K, 1),))


def frame_live(I, s, n):
    """live SSA values of frame number n"""
    fr = s.frames[n]
    if n == len(s.frames) - 1:
        if fr.i == 0:
            return fr.f.blocks[fr.b].livein
        return I.m.live_after(fr.f, fr.b, fr.i - 1)
    r = I.m.live_after(fr.f, fr.b, fr.i)
    d = fr.f.blocks[fr.b].ins[fr.i].d
    if d in r:
        r = r - {d}
    return r


def clean_dead(I, s):
    for n, fr in enumerate(s.frames):
        live = frame_live(I, s, n)
        env = fr.env
        for i in range(len(env)):
            if i not in live:
                env[i] = UNDEF


DANGLING = P(-1, 0)


def clean_dangling(I, s):
    """pointers kept in list elements whose object is gone carry no information but 'dangling'"""
    mem = s.mem
    for oid, o in list(mem.items()):
        if o.ents is None:
            continue
        for ei, e in enumerate(o.ents):
            if e[0] == 'S' and any(type(v) is P and v.o not in mem and v.o != -1 and type(v.o) is int for _, v in e[1].values()):
                w = s.wobj(oid)
                w.ents[ei] = ('S', {q: (n, DANGLING if type(v) is P and type(v.o) is int and v.o not in mem else v) for q, (n, v) in e[1].items()})


# ---------------------------------------------------------------- folding
def pvals(v):
    t = type(v)
    if t is P:
        yield v
    elif t is Agg or t is Term:
        for x in (v if t is Agg else v.args):
            if type(x) in (P, Agg, Term):
                yield from pvals(x)


def ekey(e):
    if e[0] == 'G':
        return ('G', e[1])
    return ('S', tuple(sorted(e[1].items(), key=lambda x: x[0])))


def referrers(I, s):
    R = {}

    def add(v, src):
        for p in pvals(v):
            R.setdefault(p.o, set()).add(src)
    for fr in s.frames:
        for v in fr.env:
            if type(v) in (P, Agg, Term):
                add(v, 'root')
    for oid, o in s.mem.items():
        for _, v in o.cells.values():
            if type(v) in (P, Agg, Term):
                add(v, oid)
        if o.ents is not None:
            for e in o.ents:
                if e[0] == 'S':
                    k = ekey(e)
                    for _, v in e[1].values():
                        if type(v) in (P, Agg, Term):
                            add(v, k)
    for g, (n, cells) in s.groups.items():
        for _, v in cells.values():
            if type(v) in (P, Agg, Term):
                add(v, ('G', g))
    for k in s.locks:
        R.setdefault(k[0], set()).add('root')
    for e in s.caught:
        R.setdefault(e, set()).add('root')
    return R


def owned(I, s, e, R):
    cells = e[1] if e[0] == 'S' else s.groups[e[1]][1]
    key = ekey(e)
    reach = []
    st = [v for _, v in cells.values()]
    seen = set()
    while st:
        v = st.pop()
        for p in pvals(v):
            if p.o in seen:
                continue
            seen.add(p.o)
            o = s.mem.get(p.o)
            if o is None or o.kind != 'heap':
                continue
            reach.append(p.o)
            st.extend(x for _, x in o.cells.values())
    own = set(reach)
    ch = True
    while ch:
        ch = False
        for oid in list(own):
            for r in R.get(oid, ()):
                if r == key or r in own:
                    continue
                own.discard(oid)
                ch = True
                break
    return own


def tnum(v):
    return type(v) in (int, Lin)


def sg(v):
    if type(v) is int and v >= 1 << 63:
        return v - (1 << 64)
    return v


class NoMatch(Exception):
    pass


def merge_val(va, vb, ka, kb, na, size, ren):
    """template value covering element(s) a followed by b; ka/kb: 'S' or 'G'"""
    ta, tb = type(va), type(vb)
    if tnum(va) and tnum(vb):
        va, vb = sg(va), sg(vb)
        if ka == 'S' and kb == 'S':
            d = ladd(vb, va, -1)
            if type(d) is not int:
                raise NoMatch
            if d == 0:
                return va
            if size < 4:
                raise NoMatch
            return ladd(va, KL, d)
        if ka == 'G' and kb == 'S':
            if lsubst(va, K, na) == vb:
                return va
            raise NoMatch
        if ka == 'S' and kb == 'G':
            if lsubst(vb, K, -1) == va:
                return lsubst(vb, K, ladd(KL, -1))
            raise NoMatch
        if lsubst(va, K, ladd(KL, na)) == vb:
            return va
        raise NoMatch
    if ta is P and tb is P:
        if va.o in ren[0]:
            if ren[0][va.o] != vb.o:
                raise NoMatch
        elif vb.o in ren[1]:
            raise NoMatch
        elif va.o != vb.o:
            raise NoMatch
        f = merge_val(va.f, vb.f, ka, kb, na, 8, ren)
        return P(va.o, f)
    if va is UNDEF and vb is UNDEF:
        return UNDEF
    if ta is tb and va == vb:
        return va
    raise NoMatch


def try_merge(I, s, oid, i, R):
    o = s.mem[oid]
    a, b = o.ents[i], o.ents[i + 1]
    if a[0] == 'S' and b[0] == 'S':
        # only fold within runs (keeps short lists precise): always allowed, it is exact
        pass
    ca = a[1] if a[0] == 'S' else s.groups[a[1]][1]
    cb = b[1] if b[0] == 'S' else s.groups[b[1]][1]
    if set(ca) != set(cb):
        return False
    oa, ob = owned(I, s, a, R), owned(I, s, b, R)
    if len(oa) != len(ob) or (oa & ob):
        return False
    na = 1 if a[0] == 'S' else s.groups[a[1]][0]
    nb = 1 if b[0] == 'S' else s.groups[b[1]][0]
    # where else do these elements occur?
    places = []
    if oa or a[0] == 'G' or b[0] == 'G':
        ka, kb = ekey(a), ekey(b)
        for q, x in s.mem.items():
            if x.ents is None:
                continue
            ia = [j for j, e in enumerate(x.ents) if ekey(e) == ka] if (oa or a[0] == 'G') else []
            ib = [j for j, e in enumerate(x.ents) if ekey(e) == kb] if (ob or b[0] == 'G') else []
            if not oa:
                if q != oid:
                    if ia or ib:
                        return False        # a shared plain group: leave it
                    continue
                ia, ib = [i], [i + 1]
            if not ia and not ib:
                continue
            if len(ia) != 1 or len(ib) != 1 or ib[0] != ia[0] + 1:
                return False
            places.append((q, ia[0]))
    else:
        places = [(oid, i)]
    # pair the owned objects
    ren = ({}, {})
    order = []

    def pair(va, vb):
        pa, pb = list(pvals(va)), list(pvals(vb))
        if len(pa) != len(pb):
            raise NoMatch
        for x, y in zip(pa, pb):
            if x.o in oa or y.o in ob:
                if x.o not in oa or y.o not in ob:
                    raise NoMatch
                if x.o in ren[0]:
                    if ren[0][x.o] != y.o:
                        raise NoMatch
                    continue
                if y.o in ren[1]:
                    raise NoMatch
                ren[0][x.o] = y.o
                ren[1][y.o] = x.o
                order.append((x.o, y.o))
    try:
        for q in sorted(ca):
            if ca[q][0] != cb[q][0]:
                raise NoMatch
            pair(ca[q][1], cb[q][1])
        j = 0
        while j < len(order):
            x, y = s.mem[order[j][0]], s.mem[order[j][1]]
            if x.size != y.size or set(x.cells) != set(y.cells) or x.ents is not None or y.ents is not None:
                raise NoMatch
            for q in sorted(x.cells):
                if x.cells[q][0] != y.cells[q][0]:
                    raise NoMatch
                pair(x.cells[q][1], y.cells[q][1])
            j += 1
        newc = {q: (ca[q][0], merge_val(ca[q][1], cb[q][1], a[0], b[0], na, ca[q][0], ren)) for q in ca}
        newo = []
        for x, y in order:
            cx, cy = s.mem[x].cells, s.mem[y].cells
            newo.append((x, {q: (cx[q][0], merge_val(cx[q][1], cy[q][1], a[0], b[0], na, cx[q][0], ren)) for q in cx}))
    except NoMatch:
        return False
    n = ladd(na, nb)
    for x, cells in newo:
        w = s.wobj(x)
        w.cells = cells
        w.tmpl = True
    for x, y in order:
        del s.mem[y]
    g = 'g%d' % I.nid
    I.nid += 1
    s.groups[g] = (n, newc)
    for q, j in places:
        w = s.wobj(q)
        w.ents[j:j + 2] = [('G', g)]
    for e in (a, b):
        if e[0] == 'G':
            s.groups.pop(e[1], None)
    return True


def fold_all(I, s):
    R = None
    again = True
    while again:
        again = False
        for oid, o in list(s.mem.items()):
            if o.ents is None or len(o.ents) < 2 or o.tmpl:
                continue
            i = 0
            while i + 1 < len(s.mem[oid].ents):
                if R is None:
                    R = referrers(I, s)
                if try_merge(I, s, oid, i, R):
                    R = None
                    again = True
                else:
                    i += 1


# ---------------------------------------------------------------- canonical form
def canon(I, s):
    """(skeleton, holes, where): isomorphic states have equal skeletons and aligned holes"""
    toks = []
    holes = []
    where = []
    num = {}
    gnum = {}
    syms = {}
    queue = []

    def oref(oid):
        if type(oid) is str:
            o = s.mem.get(oid)
            if o is None or o.kind == 'const':
                return oid
        n = num.get(oid)
        if n is None:
            n = num[oid] = len(num)
            if oid in s.mem:
                queue.append(oid)
            else:
                return 'dangling'
        return n if oid in s.mem else 'dangling'

    def hole(v, size, loc):
        toks.append('#')
        holes.append(v)
        where.append((size, loc))

    def val(v, size, loc):
        t = type(v)
        if t is int or t is Lin:
            if t is int and size < 4:
                toks.append(v)
            else:
                hole(sg(v), size, loc)
        elif t is P:
            o = s.mem.get(v.o)
            toks.append(oref(v.o))
            if o is not None and o.ents is not None:
                hole(v.f, 8, ('p',) + loc)
            else:
                toks.append(v.f)
        elif t is Fn:
            toks.append(v.n)
        elif t is Agg:
            toks.append('(')
            for i, x in enumerate(v):
                val(x, 8, ('a', i) + loc)
        elif t is Term:
            if v.op == 'sym':
                toks.append(('$', syms.setdefault(v, len(syms))))
            else:
                toks.append(v.op)
                for i, x in enumerate(v.args):
                    if i == 1 and v.op == 'add' and type(x) in (int, Lin):
                        hole(sg(x), 8, ('t', i) + loc)
                    elif type(x) in (int, str):
                        toks.append(x)
                    else:
                        val(x, 0 if type(x) is int else 8, ('t', i) + loc)
        elif v is UNDEF:
            toks.append('U')
        else:
            toks.append(repr(v))

    for n, fr in enumerate(s.frames):
        toks.append((fr.f.name, fr.b, fr.i))
        for i in sorted(frame_live(I, s, n)):
            toks.append(i)
            val(fr.env[i], 8, ('env', n, i))
    toks.append(('misc', s.oom, s.more, s.tid, len(s.caught), tuple(sorted((str(k), str(v)) for k, v in s.flags.items() if type(k) is str and k not in ('exc',)))))
    for e in s.caught:
        toks.append(oref(e))
    for k, t in sorted(s.locks.items(), key=lambda x: (str(x[0]), x[1])):
        toks.append(('lock', oref(k[0]), k[1:], t))
    for oid in sorted((x for x in s.mem if type(x) is str), key=str):
        if s.mem[oid].kind == 'glob':
            toks.append(oref(oid))
    qi = 0
    while qi < len(queue):
        oid = queue[qi]
        qi += 1
        o = s.mem[oid]
        toks.append((o.kind, o.size))
        for q in sorted(o.cells):
            n, v = o.cells[q]
            toks.append((q, n))
            val(v, n, ('cell', oid, q))
        if o.ents is not None:
            for ei, e in enumerate(o.ents):
                if e[0] == 'S':
                    toks.append('S')
                    for q in sorted(e[1]):
                        n, v = e[1][q]
                        toks.append((q, n))
                        val(v, n, ('ent', oid, ei, q))
                else:
                    g = e[1]
                    if g in gnum:
                        toks.append(('G', gnum[g]))
                        continue
                    gnum[g] = len(gnum)
                    n, cells = s.groups[g]
                    toks.append('G')
                    hole(n, 99, ('grp', g))
                    for q in sorted(cells):
                        k, v = cells[q]
                        toks.append((q, k))
                        val(v, k, ('gcell', g, q))
    for t, v in sorted(s.facts.items(), key=lambda x: repr(x)):
        toks.append(('fact', repr(t), v))
    for oid, o in s.mem.items():
        if o.kind in ('heap', 'seq', 'exc') and oid not in num and not o.tmpl:
            toks.append(('lost', str(o.tag)))
    return tuple(toks), holes, where


def put(s, loc, nv):
    """write numeric hole value nv back to its location"""
    path = []
    while loc[0] in ('p', 'a', 't'):
        if loc[0] == 'p':
            path.append(('p',))
            loc = loc[1:]
        else:
            path.append((loc[0], loc[1]))
            loc = loc[2:]
    path.reverse()

    def upd(old, path):
        if not path:
            if type(nv) is int and nv < 0:
                return nv & ((1 << 64) - 1)
            return nv
        k = path[0]
        if k[0] == 'p':
            return P(old.o, nv)
        if k[0] == 'a':
            return Agg(upd(x, path[1:]) if i == k[1] else x for i, x in enumerate(old))
        return Term(old.op, tuple(upd(x, path[1:]) if i == k[1] else x for i, x in enumerate(old.args)))
    if loc[0] == 'env':
        env = s.frames[loc[1]].env
        env[loc[2]] = upd(env[loc[2]], path)
    elif loc[0] == 'cell':
        o = s.wobj(loc[1])
        n, v = o.cells[loc[2]]
        o.cells[loc[2]] = (n, upd(v, path))
    elif loc[0] == 'ent':
        o = s.wobj(loc[1])
        c = dict(o.ents[loc[2]][1])
        n, v = c[loc[3]]
        c[loc[3]] = (n, upd(v, path))
        o.ents[loc[2]] = ('S', c)
    elif loc[0] == 'grp':
        n, c = s.groups[loc[1]]
        s.groups[loc[1]] = (nv, c)
    elif loc[0] == 'gcell':
        n, c = s.groups[loc[1]]
        c = dict(c)
        k, v = c[loc[2]]
        c[loc[2]] = (k, upd(v, path))
        s.groups[loc[1]] = (n, c)


def subsumes(t, s, out=None):
    """hole vectors: is there a valuation of t's symbols (non-negative) giving s's values?"""
    sub = {}
    pend = list(zip(t, s))
    progress = True
    while pend and progress:
        progress = False
        rest = []
        for a, b in pend:
            if type(a) is Lin:
                v = a.c
                un = None
                ok = True
                acc = a.c
                for q, k in a.t:
                    if q == K:
                        acc = ladd(acc, Lin(0, ((K, k),)))
                    elif q in sub:
                        acc = ladd(acc, sub[q], k)
                    elif un is None:
                        un = (q, k)
                    else:
                        ok = False
                if not ok:
                    rest.append((a, b))
                    continue
                if un is None:
                    if acc != b:
                        return False
                    progress = True
                    continue
                d = ladd(b, acc, -1)
                k = un[1]
                if type(d) is int:
                    if d % k:
                        return False
                    d = d // k
                    if d < 0:
                        return False
                else:
                    if d.c % k or any(q % k for _, q in d.t):
                        return False
                    d = mklin(d.c // k, {q: x // k for q, x in d.t})
                    if not nonneg(d) or has_sym(d, K):
                        return False
                sub[un[0]] = d
                progress = True
            else:
                if a != b:
                    return False
                progress = True
        pend = rest
        if pend and not progress:
            # several unknowns in one place: guess one of them (the guess is verified like everything else)
            a, b = pend[0]
            bt = dict(b.t) if type(b) is Lin else {}
            for q, k in a.t:
                if q == K or q in sub:
                    continue
                c = [x for x, y in bt.items() if y == k and x != K]
                x = q if q in c else c[0] if c else None
                sub[q] = Lin(0, ((x, 1),)) if x is not None else 0
                progress = True
                break
    if out is not None:
        out.update(sub)
    return not pend


def weaken(I, s, lst, h, w):
    """loop states that keep differing only in plain numbers stored in heap objects: forget these numbers"""
    soft = [i for i, (size, loc) in enumerate(w) if loc[0] == 'cell' and size == 8 and s.mem[loc[1]].kind == 'heap']
    if not soft:
        return False
    ss = set(soft)
    hard = [i for i in range(len(h)) if i not in ss]
    hh = [h[i] for i in hard]
    for t in reversed(lst[:-1]):
        sub = {}
        if not subsumes([t[i] for i in hard], hh, sub):
            continue
        bad = []
        for i in soft:
            a = t[i]
            if type(a) is Lin:
                for q, _ in a.t:
                    if q != K and q not in sub:
                        a = None
                        break
                    if q != K:
                        a = lsubst(a, q, sub[q])
            if a is None or a != h[i]:
                bad.append(i)
        if 0 < len(bad) <= 3:
            for i in bad:
                v = h[i]
                if type(v) is Lin and has_sym(v, K):
                    break
                I.nsym += 1
                put(s, w[i][1], Lin(0, (('n%d' % I.nsym, 1),)))
            else:
                return True
    return False


def merge_symbols(I, s, h):
    """length symbols that occur only as one and the same sum are replaced by a single one (exact)"""
    sig = {}
    for i, v in enumerate(h):
        if type(v) is Lin:
            for q, k in v.t:
                if q != K:
                    sig.setdefault(q, []).append((i, k))
    if len(sig) < 2:
        return False
    by = {}
    ch = False
    for q in sorted(sig):
        k = tuple(sig[q])
        if k in by:
            I.subst(s, q, 0)
            ch = True
        else:
            by[k] = q
    return ch


def generalise(I, t, s, where):
    """hole vectors t (earlier) and s (now): None, or new hole vector covering both"""
    out = []
    grow = False
    m = None
    for a, b, (size, loc) in zip(t, s, where):
        d = ladd(b, a, -1)
        if type(d) is not int:
            return None
        if d and size < 4 or d < 0:
            return None
        if size == 99:
            if d > 0:
                grow = True
        out.append(d)
    if not grow:
        return None
    I.nsym += 1
    m = Lin(0, (('n%d' % I.nsym, 1),))
    return [ladd(a, m, d) if d else a for a, d in zip(t, out)]


def at_header(I, s, fr):
    if not I.abstract:
        if fr.f.name in I.joinfuncs:
            clean_dead(I, s)
            sk, h, w = canon(I, s)
            key = hash((sk, tuple(h)))
            st = I.seen.setdefault(None, set())
            if key in st:
                I.r.subsumed += 1
                raise Pruned()
            st.add(key)
        return
    clean_dead(I, s)
    clean_dangling(I, s)
    fold_all(I, s)
    if len(s.groups) > I.r.maxgroups:
        I.r.maxgroups = len(s.groups)
    weak = False
    for _ in range(4):
        sk, h, w = canon(I, s)
        if merge_symbols(I, s, h):
            sk, h, w = canon(I, s)
        lst = I.seen.setdefault(sk, [])
        for t in lst:
            if subsumes(t, h):
                I.r.subsumed += 1
                raise Pruned()
        done = True
        for t in reversed(lst):
            g = generalise(I, t, h, w)
            if g is not None:
                if sum(1 for x in set(q for v in g if type(v) is Lin for q, _ in v.t) if x != K) > I.maxsyms:
                    raise Undecided('too many length symbols')
                for nv, ov, (size, loc) in zip(g, h, w):
                    if nv != ov:
                        put(s, loc, nv)
                I.r.generalised += 1
                done = False
                break
        if done and len(lst) > 24 and not weak:
            weak = True
            if weaken(I, s, lst, h, w):
                I.r.weakened += 1
                continue
        if done:
            lst.append(h)
            if len(lst) > 250:
                raise Undecided('too many abstract states at a loop header')
            return
    sk, h, w = canon(I, s)
    I.seen.setdefault(sk, []).append(h)
