"""Abstract interpreter over LLVM IR.

Abstract domain: a path-sensitive heap of objects with typed cells, whose values are the
abstract values of values.py; sequences (the shimmed std::vector storage) are lists of
entries, each a single element or a *group*: a summary of n elements (n a linear expression
over non-negative symbols) given by one template whose integer fields are linear in the
element's ordinal.  Loop headers fold elements into groups, generalise lengths and stop on
subsumption, so loops over lists of any length reach a fixpoint.
"""
import time
from values import *
from llvmc import Con, Instr, demangle

K = '#k'          # ordinal symbol inside group templates


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, kind + ': ' + msg)
        self.kind, self.msg = kind, msg


class Undecided(Exception):
    pass


class Forked(Exception):
    pass


class Switch(Exception):
    pass


class Pruned(Exception):
    pass


class Obj:
    __slots__ = ('kind', 'size', 'cells', 'ents', 'esz', 'tag', 'tmpl')

    def __init__(self, kind, size, cells=None, tag=None):
        self.kind = kind
        self.size = size
        self.cells = {} if cells is None else cells
        self.ents = None
        self.esz = 0
        self.tag = tag
        self.tmpl = False

    def copy(self):
        o = Obj(self.kind, self.size, self.cells, self.tag)
        o.ents, o.esz, o.tmpl = self.ents, self.esz, self.tmpl
        return o


class Frame:
    __slots__ = ('f', 'b', 'i', 'env', 'allocas', 'cleanup')

    def __init__(self, f):
        self.f = f
        self.b = 0
        self.i = 0
        self.env = [UNDEF] * f.nv
        self.allocas = []
        self.cleanup = None     # continuation run when the frame returns

    def copy(self):
        g = Frame.__new__(Frame)
        g.f, g.b, g.i = self.f, self.b, self.i
        g.env = list(self.env)
        g.allocas = list(self.allocas)
        g.cleanup = self.cleanup
        return g


class State:
    __slots__ = ('mem', 'own', 'frames', 'locks', 'caught', 'facts', 'groups', 'pending', 'npend', 'trace',
                 'more', 'oom', 'nsplit', 'tid', 'threads', 'intf', 'vc', 'nsync', 'flags', 'order')

    def __init__(self):
        self.mem = {}
        self.own = set()        # object ids whose Obj is private to this state
        self.frames = []
        self.locks = {}
        self.caught = ()
        self.facts = {}
        self.groups = {}
        self.pending = ()
        self.npend = 0
        self.trace = None
        self.more = 0
        self.oom = 0
        self.nsplit = 0
        self.tid = 0
        self.threads = ()
        self.intf = None
        self.vc = None
        self.nsync = 0
        self.flags = {}
        self.order = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.frames = [f.copy() for f in self.frames]
        s.locks = dict(self.locks)
        s.caught = self.caught
        s.facts = dict(self.facts)
        s.groups = dict(self.groups)
        s.pending = self.pending
        s.npend = self.npend
        s.trace = self.trace
        s.more, s.oom, s.nsplit = self.more, self.oom, self.nsplit
        s.tid, s.threads, s.intf = self.tid, self.threads, self.intf
        s.vc = self.vc.copy() if self.vc is not None else None
        s.nsync = self.nsync
        s.flags = dict(self.flags)
        s.order = self.order
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy()
            o.cells = dict(o.cells)
            if o.ents is not None:
                o.ents = list(o.ents)
            self.mem[oid] = o
            self.own.add(oid)
        return o


# ------------------------------------------------------------------ helpers on ints
def sgn(v, w):
    """mathematical value (signed) of an int in width w, or the Lin itself"""
    if type(v) is int:
        return to_signed(v, w)
    return v


def isnum(v):
    return type(v) is int or type(v) is Lin


def nonneg(v):
    """provably >= 0 for every valuation of the (non-negative) symbols"""
    if type(v) is int:
        return v >= 0
    return v.c >= 0 and all(k > 0 for _, k in v.t)


def neg(v):
    """provably < 0"""
    if type(v) is int:
        return v < 0
    return v.c < 0 and all(k < 0 for _, k in v.t)


_STD_BASES = {
    '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt9exception': None,
    '_ZTISt12system_error': '_ZTISt13runtime_error', '_ZTISt13runtime_error': '_ZTISt9exception',
    '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt12length_error': '_ZTISt11logic_error',
    '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt17bad_function_call': '_ZTISt9exception',
    '_ZTISt12bad_weak_ptr': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception',
    '_ZTISt10bad_typeid': '_ZTISt9exception', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
}


class Result:
    def __init__(self):
        self.violations = []      # (kind, msg, site, stack, trace)
        self.undecided = []
        self.steps = 0
        self.paths = 0
        self.forks = 0
        self.funcs = set()
        self.sites = set()
        self.headers = 0
        self.subsumed = 0
        self.generalised = 0
        self.asserts = {}
        self.maxgroups = 0
        self.covers = {}
        self.obligations = {}
        self.time = 0
        self.ends = 0
        self.more = 0
        self.weakened = 0

    def ob(self, kind):
        self.obligations[kind] = self.obligations.get(kind, 0) + 1


class Interp:
    def __init__(self, mod, abstract=True, maxmore=3, budget_steps=3000000, budget_time=120, max_viol=1,
                 prefix='/repo/', root='/repo/', trace_calls=False):
        self.m = mod
        self.abstract = abstract
        self.maxmore = maxmore
        self.budget_steps = budget_steps
        self.budget_time = budget_time
        self.max_viol = max_viol
        self.root = root
        self.r = Result()
        self.work = []
        self.nid = 1
        self.nsym = 0
        self.seen = {}
        self.tids = {}
        self.glob_cache = {}
        self.handlers = {}
        self.disp = {n[3:]: getattr(self, n) for n in dir(self) if n.startswith('op_')}
        self.resolve_cache = {}
        self.joinfuncs = set()
        self.sync_hook = None
        self.access_hook = None
        self.fence_hook = None
        self.thread_mode = False
        self.ignore = lambda kind: False
        self.props = None           # property ids being decided (None: all labels count)
        self.maxsyms = 14
        self.fixmore = None         # fixed number of iterations of every vf_more loop
        import models
        models.install(self)
        self.end_check = models.end_check

    # ------------------------------------------------------------------ objects
    def new(self, s, kind, size, tag=None):
        oid = self.nid
        self.nid += 1
        o = Obj(kind, size, None, tag)
        s.mem[oid] = o
        s.own.add(oid)
        return oid

    def sym(self, name):
        self.nsym += 1
        return Term('sym', ('%s%d' % (name, self.nsym),))

    def glob(self, s, gid):
        """materialise global on first touch"""
        o = s.mem.get(gid)
        if o is not None:
            return o
        gi = self.m.global_init(gid[1:])
        if gi is None:
            raise Undecided('unknown global ' + gid)
        size, cells, const = gi
        o = Obj('const' if const else 'glob', size, {off: (sz, v) for off, sz, v in cells}, gid)
        if size is None:
            v = self.extern_global(gid)
            if v is None:
                raise Undecided('access to external global ' + gid)
            o = Obj('glob', 16, v, gid)
        s.mem[gid] = o
        return o

    def extern_global(self, gid):
        if gid == '@__libc_single_threaded':
            return {0: (1, 0)}
        return None

    def describe(self, oid):
        return str(oid)

    def obj(self, s, p, what):
        """object of a pointer about to be accessed"""
        t = type(p)
        if t is not P:
            if p is UNDEF:
                raise Violation('uninit', '%s through an uninitialised pointer' % what)
            if t is int:
                if p < 4096 or p > (1 << 64) - 4096:
                    raise Violation('null-deref', '%s through a null pointer%s' % (what, ' (+%d)' % to_signed(p, 64) if p else ''))
                raise Violation('wild', '%s through a non-pointer value' % what)
            if t is Fn:
                raise Violation('wild', '%s through a function address' % what)
            raise Undecided('%s through opaque pointer %r' % (what, p))
        o = s.mem.get(p.o)
        if o is None:
            if type(p.o) is str:
                return self.glob(s, p.o)
            raise Violation('use-after-free', '%s of memory whose lifetime has ended' % what)
        if o.kind == 'dead':
            raise Violation('use-after-scope', '%s of a local variable whose lifetime has ended' % what)
        return o

    # ------------------------------------------------------------------ memory access
    def load(self, s, p, size, ty='int'):
        o = self.obj(s, p, 'read')
        self.r.ob('memory-access')
        off = p.f
        if o.ents is not None:
            cells, off = self.seq_cells(s, p.o, off, size, False)
        else:
            cells = o.cells
            if type(off) is not int:
                off = self.concretise(s, off)
            if off < 0 or (o.size is not None and off + size > o.size):
                raise Violation('out-of-bounds', 'read of %d bytes at offset %d of an object of %s bytes' % (size, off, o.size))
        return self.cread(cells, off, size)

    def cread(self, cells, off, size):
        c = cells.get(off)
        if c is not None:
            if c[0] == size:
                return c[1]
            if c[0] > size:
                return self.part(c[1], 0, size)
        # compose
        parts = []
        pos = off
        end = off + size
        while pos < end:
            c = cells.get(pos)
            if c is not None and pos + c[0] <= end:
                parts.append((pos - off, c[0], c[1]))
                pos += c[0]
                continue
            if c is not None:
                parts.append((pos - off, end - pos, self.part(c[1], 0, end - pos)))
                pos = end
                continue
            # a cell starting before pos and covering it?
            hit = None
            for q in range(pos - 1, max(pos - 16, -1), -1):
                c = cells.get(q)
                if c is not None:
                    if q + c[0] > pos:
                        hit = (q, c)
                    break
            if hit:
                q, c = hit
                n = min(q + c[0], end) - pos
                parts.append((pos - off, n, self.part(c[1], pos - q, n)))
                pos += n
                continue
            parts.append((pos - off, 1, UNDEF))
            pos += 1
        if all(v is UNDEF for _, _, v in parts):
            return UNDEF
        if all(type(v) is int for _, _, v in parts):
            r = 0
            for q, n, v in parts:
                r |= (v & ((1 << (8 * n)) - 1)) << (8 * q)
            return r
        if len(parts) == 1:
            return parts[0][2]
        if len(parts) == 2 and all(v is not UNDEF for _, _, v in parts):
            return Term('cat', (parts[0][2], parts[1][2], 8 * parts[0][1], 8 * parts[1][1]))
        return UNDEF

    def part(self, v, q, n):
        if type(v) is int:
            return (v >> (8 * q)) & ((1 << (8 * n)) - 1)
        if v is UNDEF:
            return UNDEF
        if type(v) is Lin and q == 0:
            return v
        if type(v) is Term and v.op == 'cat':
            if q == 0 and n * 8 == v.args[2]:
                return v.args[0]
            if q * 8 == v.args[2] and n * 8 == v.args[3]:
                return v.args[1]
        return Term('part', (v, q, n))

    def store(self, s, p, size, v):
        o = self.obj(s, p, 'write')
        self.r.ob('memory-access')
        off = p.f
        if o.ents is not None:
            idx, ei, off = self.seq_find(s, p.o, off, size, True)
            o = s.wobj(p.o)
            ent = o.ents[ei]
            cells = dict(ent[1])
            self.cwrite(cells, off, size, v)
            o.ents[ei] = ('S', cells)
            return
        if type(off) is not int:
            off = self.concretise(s, off)
        if off < 0 or (o.size is not None and off + size > o.size):
            raise Violation('out-of-bounds', 'write of %d bytes at offset %d of an object of %s bytes' % (size, off, o.size))
        if o.kind == 'const':
            raise Violation('wild', 'write to a constant object')
        o = s.wobj(p.o)
        self.cwrite(o.cells, off, size, v)

    def cwrite(self, cells, off, size, v):
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        self.cclear(cells, off, size)
        cells[off] = (size, v)

    def cclear(self, cells, off, size):
        """remove [off, off+size), splitting partially covered cells"""
        end = off + size
        for q in [q for q in cells if q < end and q + cells[q][0] > off]:
            n, v = cells.pop(q)
            if q < off:
                cells[q] = (off - q, self.part(v, 0, off - q))
            if q + n > end:
                cells[end] = (q + n - end, self.part(v, end - q, q + n - end))

    def concretise(self, s, v):
        """a Lin that must be an int here: split its symbols a few times"""
        if type(v) is int:
            return v
        raise Undecided('symbolic offset %r into a plain object' % (v,))

    def copy_range(self, s, dst, src, n):
        """memmove of n bytes, cell-wise"""
        so = self.obj(s, src, 'read')
        do = self.obj(s, dst, 'write')
        if type(n) is not int:
            raise Undecided('memcpy of symbolic size')
        if n == 0:
            return
        if so.ents is not None or do.ents is not None:
            e = so.esz or do.esz
            # element by element through ordinary accesses
            vals = []
            pos = 0
            while pos < n:
                step = min(e, n - pos)
                if so.ents is not None:
                    cells, off = self.seq_cells(s, src.o, ladd(src.f, pos), step, False)
                else:
                    cells, off = s.mem[src.o].cells, src.f + pos
                got = [(q - off, c[0], c[1]) for q, c in sorted(cells.items()) if q >= off and q + c[0] <= off + step]
                vals.append((pos, step, got))
                pos += step
            for pos, step, got in vals:
                if do.ents is not None:
                    idx, ei, off = self.seq_find(s, dst.o, ladd(dst.f, pos), step, True)
                    o = s.wobj(dst.o)
                    cells = dict(o.ents[ei][1])
                    self.cclear(cells, off, step)
                    for q, sz, v in got:
                        cells[off + q] = (sz, v)
                    o.ents[ei] = ('S', cells)
                else:
                    o = s.wobj(dst.o)
                    self.cclear(o.cells, dst.f + pos, step)
                    for q, sz, v in got:
                        o.cells[dst.f + pos + q] = (sz, v)
            return
        a, b = src.f, dst.f
        if type(a) is not int or type(b) is not int:
            raise Undecided('memcpy at symbolic offset')
        if a < 0 or (so.size is not None and a + n > so.size):
            raise Violation('out-of-bounds', 'memcpy reads %d bytes at offset %d of an object of %s bytes' % (n, a, so.size))
        if b < 0 or (do.size is not None and b + n > do.size):
            raise Violation('out-of-bounds', 'memcpy writes %d bytes at offset %d of an object of %s bytes' % (n, b, do.size))
        got = []
        for q, (sz, v) in so.cells.items():
            if q >= a + n or q + sz <= a:
                continue
            lo, hi = max(q, a), min(q + sz, a + n)
            if lo == q and hi == q + sz:
                got.append((lo - a, sz, v))
            else:
                got.append((lo - a, hi - lo, self.part(v, lo - q, hi - lo)))
        o = s.wobj(dst.o)
        self.cclear(o.cells, b, n)
        for q, sz, v in got:
            o.cells[b + q] = (sz, v)

    def set_range(self, s, dst, byte, n):
        o = self.obj(s, dst, 'write')
        if type(n) is not int:
            raise Undecided('memset of symbolic size')
        if n == 0:
            return
        if o.ents is not None:
            for q in range(0, n, 8):
                k = min(8, n - q)
                self.store(s, P(dst.o, ladd(dst.f, q)), k, int.from_bytes(bytes([byte]) * k, 'little') if type(byte) is int else byte)
            return
        if dst.f < 0 or (o.size is not None and dst.f + n > o.size):
            raise Violation('out-of-bounds', 'memset of %d bytes at offset %d of an object of %s bytes' % (n, dst.f, o.size))
        o = s.wobj(dst.o)
        self.cclear(o.cells, dst.f, n)
        q = 0
        while q < n:
            k = 8 if (dst.f + q) % 8 == 0 and n - q >= 8 else (4 if (dst.f + q) % 4 == 0 and n - q >= 4 else 1)
            if type(byte) is int:
                o.cells[dst.f + q] = (k, int.from_bytes(bytes([byte & 255]) * k, 'little'))
            q += k

    # ------------------------------------------------------------------ sequences
    def ent_len(self, s, e):
        return 1 if e[0] == 'S' else s.groups[e[1]][0]

    def seq_len(self, s, oid):
        n = 0
        for e in s.mem[oid].ents:
            n = ladd(n, self.ent_len(s, e))
        return n

    def seq_cells(self, s, oid, off, size, w):
        idx, ei, o = self.seq_find(s, oid, off, size, w)
        return s.mem[oid].ents[ei][1], o

    def seq_find(self, s, oid, off, size, w):
        """locate (and materialise) the element holding bytes [off, off+size): (index, entry number, offset in element)"""
        o = s.mem[oid]
        e = o.esz
        what = 'write' if w else 'read'
        if type(off) is int:
            idx, rem = off // e, off % e
        else:
            if any(k % e for _, k in off.t):
                raise Undecided('sequence offset %r not a multiple of the element size' % (off,))
            rem = off.c % e
            idx = mklin((off.c - rem) // e, {q: k // e for q, k in off.t})
        if rem + size > e:
            raise Violation('out-of-bounds', '%s crosses an element of a std::vector' % what)
        p = 0
        i = 0
        if type(idx) is int and idx < 0 or type(idx) is Lin and neg(idx):
            raise Violation('out-of-bounds', '%s before the first element of a std::vector' % what)
        while i < len(o.ents):
            ent = o.ents[i]
            n = self.ent_len(s, ent)
            d = ladd(idx, p, -1)
            if self.ge0(s, ladd(ladd(n, d, -1), -1)):       # d < n   (d >= 0 invariant)
                if ent[0] == 'S':
                    return idx, i, rem
                # inside group: split off the prefix of length d, then its first element
                ei = self.split_at(s, oid, i, ent[1], d)
                return idx, ei, rem
            p = ladd(p, n)
            i += 1
        raise Violation('out-of-bounds', '%s past the last element of a std::vector' % what)

    def ge0(self, s, v):
        """decide v >= 0, splitting symbols when needed"""
        if type(v) is int:
            return v >= 0
        if nonneg(v):
            return True
        if neg(v):
            return False
        self.split_symbol(s, v)

    def eq0(self, s, v):
        if type(v) is int:
            return v == 0
        if (v.c > 0 and all(k > 0 for _, k in v.t)) or (v.c < 0 and all(k < 0 for _, k in v.t)):
            return False
        g = 0
        for _, k in v.t:
            g = _gcd(g, abs(k))
        if g and v.c % g:
            return False
        self.split_symbol(s, v)

    def split_symbol(self, s, v):
        """case split: symbol == 0, or symbol >= 1 (substituted by symbol + 1)"""
        s.nsplit += 1
        if s.nsplit > 60:
            raise Undecided('case splits on lengths do not converge: %r' % (v,))
        # prefer the symbol whose sign opposes the constant
        best = v.t[0][0]
        for q, k in v.t:
            if (v.c >= 0 and k < 0) or (v.c < 0 and k > 0):
                best = q
                break
        for c in (0, 1):
            t = s.copy()
            t.npend = 0
            self.subst(t, best, 0 if c == 0 else Lin(1, ((best, 1),)))
            self.push(t)
        self.r.forks += 1
        raise Forked()

    def subst(self, s, sym, rep):
        def f(v):
            return lsubst(v, sym, rep)
        self.map_state(s, f)

    def map_state(self, s, f):
        """apply f to every Lin of the state"""
        def mv(v):
            t = type(v)
            if t is Lin:
                r = f(v)
                if type(r) is int and r < 0:
                    r = r & ((1 << 64) - 1)
                return r
            if t is P or t is Agg or t is Term:
                return map_lin(v, f)
            return v
        for fr in s.frames:
            env = fr.env
            for i, v in enumerate(env):
                t = type(v)
                if t is int or t is Fn:
                    continue
                env[i] = mv(v)
        for oid, o in list(s.mem.items()):
            ch = False
            for q, (n, v) in o.cells.items():
                if type(v) in (Lin, P, Term, Agg):
                    r = mv(v)
                    if r is not v and r != v:
                        ch = True
                        break
            if ch:
                o = s.wobj(oid)
                for q, (n, v) in list(o.cells.items()):
                    o.cells[q] = (n, mv(v))
            if o.ents is not None:
                ne = []
                for e in o.ents:
                    if e[0] == 'S':
                        ne.append(('S', {q: (n, mv(v)) for q, (n, v) in e[1].items()}))
                    else:
                        ne.append(e)
                o = s.wobj(oid)
                o.ents = ne
        dead = []
        for g, (n, cells) in list(s.groups.items()):
            n2 = f(n) if type(n) is Lin else n
            s.groups[g] = (n2, {q: (k, mv(v)) for q, (k, v) in cells.items()})
            if n2 == 0:
                dead.append(g)
        for g in dead:
            self.drop_group(s, g)
        s.facts = {mv(k): v for k, v in s.facts.items()}
        if s.flags:
            s.flags = {k: mv(v) for k, v in s.flags.items()}

    def drop_group(self, s, g):
        n, cells = s.groups.pop(g)
        for oid in self.tmpl_objs(s, cells):
            del s.mem[oid]
        for oid, o in list(s.mem.items()):
            if o.ents is not None and any(e[0] == 'G' and e[1] == g for e in o.ents):
                o = s.wobj(oid)
                o.ents = [e for e in o.ents if not (e[0] == 'G' and e[1] == g)]

    def tmpl_objs(self, s, cells):
        """template objects reachable from a group's cells"""
        out = []
        st = [v for _, v in cells.values()]
        while st:
            v = st.pop()
            if type(v) is P:
                o = s.mem.get(v.o)
                if o is not None and o.tmpl and v.o not in out:
                    out.append(v.o)
                    st.extend(x for _, x in o.cells.values())
                    if o.ents is not None:
                        for e in o.ents:
                            if e[0] == 'S':
                                st.extend(x for _, x in e[1].values())
        return out

    def instantiate(self, s, cells, kval, tmpl=False):
        """fresh copy of a template (cells + objects) with the ordinal set to kval"""
        objs = self.tmpl_objs(s, cells)
        ren = {}
        for oid in objs:
            ren[oid] = self.nid
            self.nid += 1

        def mv(v):
            t = type(v)
            if t is P:
                f = lsubst(v.f, K, kval) if type(v.f) is Lin else v.f
                return P(ren.get(v.o, v.o), f)
            if t is Lin:
                r = lsubst(v, K, kval)
                if type(r) is int and r < 0:
                    r &= (1 << 64) - 1
                return r
            if t is Term or t is Agg:
                return map_lin(v, lambda x: lsubst(x, K, kval))
            return v
        for oid in objs:
            o = s.mem[oid]
            c = Obj(o.kind, o.size, {q: (n, mv(v)) for q, (n, v) in o.cells.items()}, o.tag)
            c.tmpl = tmpl
            c.esz = o.esz
            if o.ents is not None:
                c.ents = [('S', {q: (n, mv(v)) for q, (n, v) in e[1].items()}) for e in o.ents]
            s.mem[ren[oid]] = c
            s.own.add(ren[oid])
        return {q: (n, mv(v)) for q, (n, v) in cells.items()}

    def split_at(self, s, oid, i, g, d):
        """split group g so that its element number d becomes a single; returns the entry number of it in oid"""
        n, cells = s.groups[g]
        rest = ladd(ladd(n, d, -1), -1)
        if not nonneg(d) or not nonneg(rest):
            raise Undecided('group split at %r of %r' % (d, n))
        new = []
        if d != 0:
            g1 = 'g%d' % self.nid
            self.nid += 1
            s.groups[g1] = (d, self.instantiate(s, cells, Lin(0, ((K, 1),)), True))
            new.append(('G', g1))
        pos = len(new)
        single = self.instantiate(s, cells, d)
        new.append(('S', single))
        if rest != 0:
            g2 = 'g%d' % self.nid
            self.nid += 1
            s.groups[g2] = (rest, self.instantiate(s, cells, ladd(ladd(d, 1), Lin(0, ((K, 1),))), True))
            new.append(('G', g2))
        ret = None
        for q, o in list(s.mem.items()):
            if o.ents is not None and any(e[0] == 'G' and e[1] == g for e in o.ents):
                o = s.wobj(q)
                ne = []
                for e in o.ents:
                    if e[0] == 'G' and e[1] == g:
                        if q == oid:
                            ret = len(ne) + pos
                        ne.extend(new)
                    else:
                        ne.append(e)
                o.ents = ne
        for t in self.tmpl_objs(s, cells):
            del s.mem[t]
        del s.groups[g]
        return ret

    # ------------------------------------------------------------------ control
    def push(self, s):
        self.work.append(s)

    def choose(self, s, n):
        if s.npend < len(s.pending):
            c = s.pending[s.npend]
            s.npend += 1
            return c
        if n == 1:
            return 0
        base = s.pending
        for c in range(n - 1, -1, -1):
            t = s.copy()
            t.pending = base + (c,)
            t.npend = 0
            self.push(t)
        self.r.forks += n - 1
        raise Forked()

    def fact(self, s, t):
        """decide an opaque boolean term, forking and remembering"""
        v = s.facts.get(t)
        if v is None and t.op in ('eq', 'ult', 'slt', 'lt') and s.facts:
            v = self.implied(s.facts, t)
        if v is None:
            for c in (True, False):
                q = s.copy()
                q.facts[t] = c
                q.npend = 0
                self.push(q)
            self.r.forks += 1
            raise Forked()
        return v

    def implied(self, F, t):
        """consequences of totality and irreflexivity of an order on two opaque values"""
        a, b = t.args
        if t.op == 'eq':
            for o in ('ult', 'slt', 'lt'):
                x, y = F.get(Term(o, (a, b))), F.get(Term(o, (b, a)))
                if x or y:
                    return False
                if x is False and y is False:
                    return True
            return None
        if a == b:
            return False
        if F.get(Term(t.op, (b, a))):
            return False
        k = (a, b) if repr(a) <= repr(b) else (b, a)
        e = F.get(Term('eq', k))
        if e:
            return False
        if e is False and F.get(Term(t.op, (b, a))) is False:
            return True
        return None

    def run(self, entry):
        f = self.m.func(entry)
        if f is None or f.decl:
            raise Undecided('no entry ' + entry)
        s = State()
        s.frames.append(Frame(f))
        t0 = time.time()
        self.work = [s]
        while self.work:
            s = self.work.pop()
            try:
                self.exec(s)
            except Forked:
                pass
            except Pruned:
                pass
            except Violation as e:
                if self.ignore(e.kind):
                    continue
                self.report(s, e.kind, e.msg)
                if len(self.r.violations) >= self.max_viol:
                    break
            except Undecided as e:
                self.r.undecided.append((str(e), self.site(s), self.stack(s)))
                if len(self.r.undecided) > 20:
                    break
            if self.r.steps > self.budget_steps or time.time() - t0 > self.budget_time:
                if self.work:
                    self.r.undecided.append(('budget exhausted (%d steps, %d states left)' % (self.r.steps, len(self.work)), '', []))
                break
        self.r.time = time.time() - t0
        return self.r

    def loc(self, fr):
        b = fr.f.blocks[fr.b]
        for j in range(min(fr.i, len(b.ins) - 1), -1, -1):
            if b.ins[j].loc:
                return b.ins[j].loc
        for j in range(fr.i, len(b.ins)):
            if b.ins[j].loc:
                return b.ins[j].loc
        return None

    def stack(self, s):
        out = []
        for fr in reversed(s.frames):
            l = self.loc(fr)
            out.append('%s (%s:%s)' % (fr.f.dname[:160], l[0] if l else '?', l[1] if l else '?'))
        return out

    def site(self, s):
        for fr in reversed(s.frames):
            l = self.loc(fr)
            if l and (l[0].startswith(self.root)):
                return '%s:%d in %s' % (l[0], l[1], fr.f.dname[:140])
        for fr in reversed(s.frames):
            l = self.loc(fr)
            if l:
                return '%s:%d in %s' % (l[0], l[1], fr.f.dname[:140])
        return '?'

    def report(self, s, kind, msg):
        tr = []
        t = s.trace
        while t is not None:
            tr.append(t[1])
            t = t[0]
        tr.reverse()
        self.r.violations.append((kind, msg, self.site(s), self.stack(s), tr))

    def note(self, s, txt):
        s.trace = (s.trace, txt)

    def exec(self, s):
        while True:
            try:
                return self.exec1(s)
            except Switch:
                pass

    def exec1(self, s):
        disp = self.disp
        r = self.r
        while True:
            fr = s.frames[-1]
            ins = fr.f.blocks[fr.b].ins[fr.i]
            r.steps += 1
            if not (r.steps & 0xfff):
                if r.steps > self.budget_steps:
                    raise Undecided('step budget exhausted')
            h = disp.get(ins.op)
            if h is None:
                raise Undecided('unsupported instruction %s' % (ins.x,))
            h(s, fr, ins)
            s.pending = ()
            s.npend = 0
            s.nsplit = 0
            if self.thread_mode:
                s.flags['skip'] = False
            if not s.frames:
                r.paths += 1
                return

    def val(self, fr, o):
        if type(o) is int:
            return fr.env[o]
        return o.v

    def setd(self, fr, ins, v):
        if ins.d >= 0:
            fr.env[ins.d] = v

    # ------------------------------------------------------------------ branches
    def goto(self, s, fr, nb):
        pb = fr.b
        blk = fr.f.blocks[nb]
        if blk.phis:
            vals = []
            for d, m in blk.phis:
                o = m[pb]
                vals.append((d, fr.env[o] if type(o) is int else o.v))
            for d, v in vals:
                fr.env[d] = v
        fr.b = nb
        fr.i = 0
        if blk.header:
            self.at_header(s, fr)

    def truth(self, s, v, what='branch'):
        t = type(v)
        if t is int:
            return bool(v & 1)
        if v is UNDEF:
            raise Violation('uninit', '%s on an uninitialised value' % what)
        if t is Term:
            if v.op == 'not':
                return not self.truth(s, v.args[0])
            if v.op == 'cmp':
                return self.cmp(s, v.args[0], v.args[1], v.args[2], v.args[3])
            return self.fact(s, v)
        if t is Lin:
            return not self.eq0(s, v)
        raise Undecided('branch on %r' % (v,))

    def op_br(self, s, fr, ins):
        self.goto(s, fr, ins.x[0])

    def op_condbr(self, s, fr, ins):
        c = self.truth(s, self.val(fr, ins.a[0]))
        self.goto(s, fr, ins.x[0] if c else ins.x[1])

    def op_switch(self, s, fr, ins):
        v = self.val(fr, ins.a[0])
        df, cases = ins.x
        if v is UNDEF:
            raise Violation('uninit', 'switch on an uninitialised value')
        if type(v) is int:
            for c, b in cases:
                if c == v:
                    self.goto(s, fr, b)
                    return
            self.goto(s, fr, df)
            return
        if type(v) is Term:
            for c, b in cases:
                if self.fact(s, Term('eq', (v, c))):
                    self.goto(s, fr, b)
                    return
            self.goto(s, fr, df)
            return
        raise Undecided('switch on %r' % (v,))

    def op_unreachable(self, s, fr, ins):
        raise Violation('undefined-behaviour', 'control reaches a point the compiler marks unreachable (flowing off a non-void function, or after a noreturn call)')

    def op_ret(self, s, fr, ins):
        v = self.val(fr, ins.a[0]) if ins.a else None
        if s.tid and len(s.frames) == 1 and fr.cleanup is None:
            self.thread_end(s)
            return
        self.pop_frame(s, fr)
        if fr.cleanup is not None:
            fr.cleanup(s, v)
            return
        if not s.frames:
            self.at_end(s)
            return
        self.ret_to(s, v)

    def pop_frame(self, s, fr):
        for a in fr.allocas:
            s.mem.pop(a, None)
        s.frames.pop()

    def ret_to(self, s, v):
        """resume the caller after its call with value v"""
        fr = s.frames[-1]
        ins = fr.f.blocks[fr.b].ins[fr.i]
        if v is not None and ins.d >= 0:
            fr.env[ins.d] = v
        if ins.op == 'invoke':
            self.goto(s, fr, ins.x[3])
        else:
            fr.i += 1

    def at_end(self, s):
        self.r.ends += 1
        self.end_check(self, s)

    # ------------------------------------------------------------------ calls
    def op_call(self, s, fr, ins):
        callee = ins.x[0]
        fn = fr.env[callee] if type(callee) is int else callee.v
        if type(fn) is not Fn:
            if fn is UNDEF:
                raise Violation('uninit', 'call through an uninitialised function pointer')
            if fn == 0:
                raise Violation('null-deref', 'call through a null function pointer')
            if type(fn) is Term and fn.op == 'asm':
                fr.i += 1
                return
            if type(fn) is P:
                raise Violation('wild', 'call through a data pointer')
            raise Undecided('call through %r' % (fn,))
        args = [fr.env[a] if type(a) is int else a.v for a in ins.a]
        self.call(s, fn.n, args, ins)

    op_invoke = op_call

    def call(self, s, name, args, ins=None, cleanup=None):
        h = self.resolve_cache.get(name, False)
        if h is False:
            h = self.resolve(name)
            self.resolve_cache[name] = h
        if h is not None:
            r = h(s, args, ins)
            if r is NotImplemented:
                return                      # handler changed control itself
            if cleanup is not None:
                cleanup(s, r)
            else:
                self.ret_to(s, r)
            return
        f = self.m.func(name)
        if f is None or f.decl:
            raise Undecided('call to unmodelled function %s' % demangle(name))
        if len(s.frames) > 160 + (12 * max(self.fixmore) if self.fixmore else 0):
            raise Violation('unbounded-recursion', 'call depth exceeds 160 at %s' % f.dname[:120])
        self.r.funcs.add(name)
        nf = Frame(f)
        n = len(f.params)
        for i in range(min(n, len(args))):
            nf.env[i] = args[i]
        if f.byval:
            for i, size in f.byval.items():
                oid = self.new(s, 'stack', size, 'byval')
                nf.allocas.append(oid)
                self.copy_range(s, P(oid, 0), args[i], size)
                nf.env[i] = P(oid, 0)
        nf.cleanup = cleanup
        s.frames.append(nf)
        if f.blocks[0].header:
            self.at_header(s, nf)

    def resolve(self, name):
        h = self.handlers.get(name)
        if h is not None:
            return h
        for p, h in self.prefixes:
            if name.startswith(p):
                return h
        return None

    # ------------------------------------------------------------------ exceptions
    def throw(self, s, exc, tinfo):
        """unwind from the current top frame (the thrower's frame)"""
        while s.frames:
            fr = s.frames[-1]
            ins = fr.f.blocks[fr.b].ins[fr.i]
            if ins.op == 'invoke' :
                ub = ins.x[4]
                lp = None
                blk = fr.f.blocks[ub]
                for k, li in enumerate(blk.ins):
                    if li.op == 'landingpad':
                        lp = li
                        break
                sel = 0
                hit = lp.x[0]
                for c in lp.x[1]:
                    if type(c) is Agg:
                        # filter clause
                        hit = True
                        continue
                    if c == 0 or self.ti_match(s, c, tinfo):
                        sel = self.typeid(c)
                        hit = True
                        break
                if hit:
                    self.goto(s, fr, ub)
                    s.flags['lp'] = (exc, sel)
                    s.flags['exc'] = exc
                    return
            if fr.cleanup is not None:
                raise Violation('terminate', 'an exception leaves a callback run by the runtime')
            self.pop_frame(s, fr)
        raise Violation('uncaught', 'an exception (%s) propagates out of the scenario' % (tinfo,))

    def typeid(self, c):
        if c == 0:
            c = 0
        k = c if c == 0 else c.o
        if k not in self.tids:
            self.tids[k] = len(self.tids) + 1
        return self.tids[k]

    def ti_bases(self, s, ti):
        """[(base typeinfo name, offset)]"""
        n = ti[1:]
        if n in _STD_BASES:
            b = _STD_BASES[n]
            return [('@' + b, 0)] if b else []
        gi = self.m.global_init(n)
        if gi is None or gi[0] is None:
            return []
        cells = {off: v for off, sz, v in gi[1]}
        vt = cells.get(0)
        vn = vt.o if type(vt) is P else ''
        if 'si_class' in vn:
            return [(cells[16].o, 0)]
        if 'vmi_class' in vn:
            out = []
            nb = cells.get(20, 0)
            for i in range(nb):
                b = cells[24 + 16 * i].o
                fl = cells[32 + 16 * i]
                out.append((b, to_signed(fl, 64) >> 8))
            return out
        return []

    def ti_match(self, s, c, tinfo):
        if type(c) is not P:
            return False
        want = c.o
        st = [tinfo]
        while st:
            x = st.pop()
            if x == want:
                return True
            st.extend(b for b, _ in self.ti_bases(s, x))
        return False

    def op_landingpad(self, s, fr, ins):
        exc, sel = s.flags.pop('lp')
        fr.env[ins.d] = Agg((P(exc, 0), sel))
        fr.i += 1

    def op_resume(self, s, fr, ins):
        v = self.val(fr, ins.a[0])
        exc = v[0].o
        ti = s.mem[exc].tag
        if fr.cleanup is not None:
            raise Violation('terminate', 'an exception leaves a callback run by the runtime')
        self.pop_frame(s, fr)
        self.throw(s, exc, ti)

    # ------------------------------------------------------------------ memory instructions
    def op_alloca(self, s, fr, ins):
        n = self.val(fr, ins.a[0])
        oid = self.new(s, 'dead' if ins.w else 'stack', ins.x * (n if type(n) is int else 1), None)
        fr.allocas.append(oid)
        fr.env[ins.d] = P(oid, 0)
        fr.i += 1

    def tysize(self, ty):
        k = ty[0]
        if k == 'int':
            return (ty[1] + 7) // 8
        if k == 'ptr':
            return 8
        if k == 'fp':
            return ty[1] // 8
        if k == 'struct':
            return ty[2]
        if k == 'array':
            return ty[1] * ty[3]
        raise Undecided('memory access of type %r' % (ty,))

    def op_load(self, s, fr, ins):
        ty, order = ins.x
        p = self.val(fr, ins.a[0])
        if order and self.sync_hook:
            self.sync_hook(s, ins)
        if self.access_hook:
            self.access_hook(s, p, self.tysize(ty), False, order, ins)
        if type(p) is P and type(p.f) is int and p.f % ins.w:
            raise Violation('misaligned', 'a read that needs %d-byte alignment at offset %d of its object' % (ins.w, p.f))
        v = self.load_ty(s, p, ty)
        fr.env[ins.d] = v
        fr.i += 1

    def load_ty(self, s, p, ty):
        if ty[0] == 'struct':
            return Agg(self.load_ty(s, P(p.o, ladd(p.f, o)) if type(p) is P else p, t) for o, t in ty[1])
        if ty[0] == 'array':
            return Agg(self.load_ty(s, P(p.o, ladd(p.f, i * ty[3])) if type(p) is P else p, ty[2]) for i in range(ty[1]))
        v = self.load(s, p, self.tysize(ty))
        if ty[0] == 'int' and ty[1] < 8 and type(v) is int:
            v &= (1 << ty[1]) - 1
        return v

    def op_store(self, s, fr, ins):
        ty, order = ins.x
        v = self.val(fr, ins.a[0])
        p = self.val(fr, ins.a[1])
        if order and self.sync_hook:
            self.sync_hook(s, ins)
        if self.access_hook:
            self.access_hook(s, p, self.tysize(ty), True, order, ins)
        if type(p) is P and type(p.f) is int and p.f % ins.w:
            raise Violation('misaligned', 'a write that needs %d-byte alignment at offset %d of its object' % (ins.w, p.f))
        self.store_ty(s, p, ty, v)
        fr.i += 1

    def store_ty(self, s, p, ty, v):
        if ty[0] == 'struct':
            if v is UNDEF:
                return
            for (o, t), x in zip(ty[1], v):
                self.store_ty(s, P(p.o, ladd(p.f, o)) if type(p) is P else p, t, x)
            return
        if ty[0] == 'array':
            if v is UNDEF:
                return
            for i, x in enumerate(v):
                self.store_ty(s, P(p.o, ladd(p.f, i * ty[3])) if type(p) is P else p, ty[2], x)
            return
        self.store(s, p, self.tysize(ty), v)

    def op_gep(self, s, fr, ins):
        p = self.val(fr, ins.a[0])
        off, dyn = ins.x
        for o, sz, w in dyn:
            i = self.val(fr, o)
            if type(i) is int:
                off = ladd(off, to_signed(i, w) * sz)
            elif type(i) is Lin:
                off = ladd(off, lmul(i, sz))
            elif i is UNDEF:
                off = UNDEF
                break
            elif type(i) is Term and type(p) is P:
                fr.env[ins.d] = Term('gep', (p, i, sz, off))
                fr.i += 1
                return
            else:
                raise Undecided('address computed from %r' % (i,))
        t = type(p)
        if off is UNDEF or p is UNDEF:
            r = UNDEF
        elif t is P:
            r = P(p.o, ladd(p.f, off))
        elif t is int:
            r = (p + off) & ((1 << 64) - 1) if type(off) is int else Term('add', (p, off))
        elif t is Fn:
            r = p if off == 0 else Term('add', (p, off))
        else:
            r = p if off == 0 else Term('gep', (p, 0, 0, off))
        fr.env[ins.d] = r
        fr.i += 1

    def op_atomicrmw(self, s, fr, ins):
        op, ty, order = ins.x
        p = self.val(fr, ins.a[0])
        x = self.val(fr, ins.a[1])
        if self.sync_hook:
            self.sync_hook(s, ins)
        if self.access_hook:
            self.access_hook(s, p, self.tysize(ty), True, order, ins, rmw=True)
        old = self.load_ty(s, p, ty)
        if op == 'xchg':
            new = x
        else:
            new = self.arith(s, op, old, x, ty[1])
        self.store_ty(s, p, ty, new)
        fr.env[ins.d] = old
        fr.i += 1

    def op_cmpxchg(self, s, fr, ins):
        ty, order = ins.x
        p, exp, new = [self.val(fr, a) for a in ins.a]
        if self.sync_hook:
            self.sync_hook(s, ins)
        if self.access_hook:
            self.access_hook(s, p, self.tysize(ty), True, order, ins, rmw=True)
        old = self.load_ty(s, p, ty)
        ok = self.cmp(s, 'eq', old, exp, ty[1])
        if ok:
            self.store_ty(s, p, ty, new)
        fr.env[ins.d] = Agg((old, 1 if ok else 0))
        fr.i += 1

    def op_fence(self, s, fr, ins):
        if self.fence_hook:
            self.fence_hook(s, ins, ins.x)
        fr.i += 1

    # ------------------------------------------------------------------ arithmetic
    def op_bin(self, s, fr, ins):
        a = self.val(fr, ins.a[0])
        b = self.val(fr, ins.a[1])
        fr.env[ins.d] = self.arith(s, ins.x, a, b, ins.w)
        fr.i += 1

    def arith(self, s, op, a, b, w):
        ta, tb = type(a), type(b)
        m = (1 << w) - 1
        if ta is int and tb is int:
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w:
                    raise Violation('undefined-behaviour', 'shift by %d of a %d-bit value' % (b, w))
                if op == 'shl':
                    return (a << b) & m
                if op == 'lshr':
                    return a >> b
                return (to_signed(a, w) >> b) & m
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    raise Violation('undefined-behaviour', 'division by zero')
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                x, y = to_signed(a, w), to_signed(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == 'sdiv' else x - q * y) & m
            if op in ('max', 'min'):
                return (max if op == 'max' else min)(to_signed(a, w), to_signed(b, w)) & m
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op == 'urem' and type(a) is P and type(b) is int and b > 0 and type(a.o) is int and type(a.f) is int:
            return (64 * a.o + a.f) % b         # a hash of an address: one of the possible placements of the object
        if isnum(a) and isnum(b):
            x, y = sgn(a, w), sgn(b, w)
            if op == 'add':
                return self.fit(ladd(x, y), w)
            if op == 'sub':
                return self.fit(ladd(x, y, -1), w)
            if op == 'mul':
                if type(x) is int:
                    return self.fit(lmul(y, x), w)
                if type(y) is int:
                    return self.fit(lmul(x, y), w)
            if op == 'shl' and type(y) is int:
                return self.fit(lmul(x, 1 << y), w)
            if op in ('sdiv', 'udiv', 'ashr', 'lshr') and type(y) is int and y > 0:
                d = y if op in ('sdiv', 'udiv') else 1 << y
                if type(x) is Lin and x.c % d == 0 and all(k % d == 0 for _, k in x.t):
                    return mklin(x.c // d, {q: k // d for q, k in x.t})
            if op == 'and' and type(y) is int and type(x) is Lin:
                return Term('and', (x, y, w))
        # pointers
        if ta is P and tb is P and op == 'sub':
            if a.o == b.o:
                return self.fit(ladd(a.f, b.f, -1), w)
            return Term('sub', (a, b))
        if ta is P and isnum(b) and op in ('add', 'sub'):
            y = sgn(b, w)
            return P(a.o, ladd(a.f, y, 1 if op == 'add' else -1))
        if tb is P and isnum(a) and op == 'add':
            return P(b.o, ladd(b.f, sgn(a, w)))
        if op == 'and' and (ta is P or ta is Fn) and tb is int and b < 16:
            if ta is P and type(a.f) is int:
                return a.f & b
            return 0
        if ta is Fn and tb is int and op in ('sub', 'add', 'or'):
            return a if b == 0 else Term(op, (a, b))
        if op in ('and', 'or', 'xor') and w == 1:
            if op == 'and':
                if a == 0 or b == 0:
                    return 0
                if a == 1:
                    return b
                if b == 1:
                    return a
            if op == 'or':
                if a == 1 or b == 1:
                    return 1
                if a == 0:
                    return b
                if b == 0:
                    return a
            if op == 'xor':
                if b == 1:
                    return self.bnot(a)
                if a == 1:
                    return self.bnot(b)
                if b == 0:
                    return a
                if a == 0:
                    return b
        if op in ('add', 'or', 'xor', 'sub', 'shl', 'lshr', 'ashr') and tb is int and b == 0:
            return a
        if op in ('add', 'or', 'xor') and ta is int and a == 0:
            return b
        if op in ('sub', 'xor') and a == b:
            return 0
        if op == 'and' and tb is int and b == 1 and ta is Term and a.op == 'zext':
            return a
        if op in ('add', 'sub') and ta is Term and isnum(b) or op == 'add' and tb is Term and isnum(a):
            if ta is not Term:
                a, b = b, a
            y = sgn(b, w)
            if op == 'sub':
                y = lmul(y, -1)
            if a.op == 'add' and a.args[2] == w and isnum(a.args[1]):
                y = ladd(sgn(a.args[1], w), y)
                a = a.args[0]
            y = self.fit(y, w)
            return a if y == 0 else Term('add', (a, y, w))
        return Term(op, (a, b, w))

    def fit(self, v, w):
        if type(v) is int:
            return v & ((1 << w) - 1)
        return v

    def bnot(self, a):
        if type(a) is int:
            return a ^ 1
        if type(a) is Term and a.op == 'not':
            return a.args[0]
        if a is UNDEF:
            return UNDEF
        return Term('not', (a,))

    def op_icmp(self, s, fr, ins):
        a = self.val(fr, ins.a[0])
        b = self.val(fr, ins.a[1])
        fr.env[ins.d] = self.cmp_val(s, ins.x, a, b, ins.w)
        fr.i += 1

    def cmp_val(self, s, pred, a, b, w):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        return 1 if self.cmp(s, pred, a, b, w) else 0

    def cmp(self, s, pred, a, b, w):
        ta, tb = type(a), type(b)
        if ta is int and tb is int:
            if pred == 'eq':
                return a == b
            if pred == 'ne':
                return a != b
            if pred[0] == 's':
                a, b = to_signed(a, w), to_signed(b, w)
            p = pred[1:]
            return a > b if p == 'gt' else a >= b if p == 'ge' else a < b if p == 'lt' else a <= b
        if pred == 'ne':
            return not self.cmp(s, 'eq', a, b, w)
        if pred == 'eq':
            if a == b:
                return True
            if isnum(a) and isnum(b):
                return self.eq0(s, ladd(sgn(a, w), sgn(b, w), -1))
            if ta is P and tb is P:
                if a.o != b.o:
                    return False
                return self.eq0(s, ladd(a.f, b.f, -1))
            if (ta in (P, Fn) and (tb in (int, Fn, P))) or (tb in (P, Fn) and ta in (int, Fn, P)):
                return False
            if ta is Term and a.op == 'cat' and tb is int:
                lo, hi, wl, wh = a.args
                return self.cmp(s, 'eq', lo, b & ((1 << wl) - 1), wl) and self.cmp(s, 'eq', hi, b >> wl, wh)
            if tb is Term and b.op == 'cat' and ta is int:
                return self.cmp(s, 'eq', b, a, w)
            if ta is Term and a.op in ('zext', 'sext') and tb is int and a.args[1] == 1:
                if b == 0:
                    return not self.truth(s, a.args[0])
                return self.truth(s, a.args[0]) if (b == 1 or a.op == 'sext') else False
            if ta is Term or tb is Term:
                k = (a, b) if repr(a) <= repr(b) else (b, a)
                return self.fact(s, Term('eq', k))
            if ta is F or tb is F:
                return a == b
            raise Undecided('comparison of %r and %r' % (a, b))
        if ta is P and tb is P and a.o == b.o:
            d = ladd(a.f, b.f, -1)
            return self.rel(s, pred, d)
        if isnum(a) and isnum(b):
            x, y = sgn(a, w), sgn(b, w)
            if pred[0] == 'u':
                # both sides must be non-negative for the mathematical order to be the unsigned one
                if type(a) is int and to_signed(a, w) < 0:
                    if nonneg(y):      # a is huge
                        return pred in ('ugt', 'uge')
                    raise Undecided('unsigned comparison of %r and %r' % (a, b))
                if type(b) is int and to_signed(b, w) < 0:
                    if nonneg(x):
                        return pred in ('ult', 'ule')
                    raise Undecided('unsigned comparison of %r and %r' % (a, b))
                for v, o in ((x, 0), (y, 1)):
                    if type(v) is Lin and not nonneg(v):
                        if not self.ge0(s, v):
                            # negative -> wraps to a huge unsigned number
                            return (pred in ('ugt', 'uge')) if o == 0 else (pred in ('ult', 'ule'))
            return self.rel(s, pred, ladd(x, y, -1))
        if (ta is P and b == 0) or (tb is P and a == 0):
            if ta is P:
                return pred in ('ugt', 'uge')
            return pred in ('ult', 'ule')
        if ta is P and tb is P:
            # addresses of different objects: an arbitrary but fixed order
            lt = pred[1:] in ('lt', 'le')
            k = (a.o, b.o)
            if repr(a.o) > repr(b.o):
                k = (b.o, a.o)
                lt = not lt
            return self.fact(s, Term('below', k)) == lt
        if ta is Term or tb is Term:
            p = pred
            # normalise to lt / negation
            if p in ('ugt', 'sgt'):
                return self.fact(s, Term(p[0] + 'lt', (b, a)))
            if p in ('ule', 'sle'):
                return not self.fact(s, Term(p[0] + 'lt', (b, a)))
            if p in ('uge', 'sge'):
                return not self.fact(s, Term(p[0] + 'lt', (a, b)))
            return self.fact(s, Term(p, (a, b)))
        raise Undecided('comparison %s of %r and %r' % (pred, a, b))

    def rel(self, s, pred, d):
        p = pred[1:]
        if p == 'ge':
            return self.ge0(s, d)
        if p == 'lt':
            return not self.ge0(s, d)
        if p == 'gt':
            return self.ge0(s, ladd(d, -1))
        return not self.ge0(s, ladd(d, -1))

    def op_fcmp(self, s, fr, ins):
        a, b = [self.val(fr, x) for x in ins.a]
        if type(a) is F and type(b) is F:
            x, y = a.v, b.v
            nan = x != x or y != y
            p = ins.x
            r = {'oeq': x == y, 'une': x != y or nan, 'one': x != y and not nan, 'ueq': x == y or nan, 'ogt': x > y,
                 'oge': x >= y, 'olt': x < y, 'ole': x <= y, 'ugt': x > y or nan, 'uge': x >= y or nan,
                 'ult': x < y or nan, 'ule': x <= y or nan, 'ord': not nan, 'uno': nan}[p]
            fr.env[ins.d] = int(r)
        elif a is UNDEF or b is UNDEF:
            fr.env[ins.d] = UNDEF
        else:
            p = ins.x
            if p in ('oeq', 'une'):
                v = 1 if a == b else int(self.fact(s, Term('feq', (a, b) if repr(a) <= repr(b) else (b, a))))
                fr.env[ins.d] = v if p == 'oeq' else 1 - v
            elif p in ('olt', 'ogt'):
                x = (a, b) if p == 'olt' else (b, a)
                fr.env[ins.d] = int(self.fact(s, Term('flt', x)))
            else:
                fr.env[ins.d] = int(self.fact(s, Term('f' + p, (a, b))))
        fr.i += 1

    def op_fbin(self, s, fr, ins):
        v = [self.val(fr, x) for x in ins.a]
        if any(x is UNDEF for x in v):
            r = UNDEF
        elif all(type(x) is F for x in v):
            o = ins.x
            x = v[0].v
            y = v[1].v if len(v) > 1 else None
            try:
                r = F({'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y,
                       'fneg': lambda: -x}[o]())
            except (KeyError, ZeroDivisionError):
                r = Term(ins.x, tuple(v))
        else:
            r = Term(ins.x, tuple(v))
        fr.env[ins.d] = r
        fr.i += 1

    def op_cast(self, s, fr, ins):
        v = self.val(fr, ins.a[0])
        op, st, dt = ins.x
        fr.env[ins.d] = self.cast(v, op, st, dt)
        fr.i += 1

    def cast(self, v, op, st, dt):
        t = type(v)
        if v is UNDEF or op in ('freeze', 'ptrtoint', 'inttoptr', 'bitcast'):
            if op == 'ptrtoint' and t is int:
                return v & ((1 << dt[1]) - 1)
            return v
        if op == 'trunc':
            if t is int:
                return v & ((1 << dt[1]) - 1)
            if t is Lin:
                return v
            if t is Term and v.op in ('zext', 'sext') and v.args[1] == dt[1]:
                return v.args[0]
            if t is Term and v.op == 'cat' and v.args[2] == dt[1]:
                return v.args[0]
            return Term('trunc', (v, dt[1]))
        if op == 'zext':
            if t in (int, Lin):
                return v
            return Term('zext', (v, st[1], dt[1]))
        if op == 'sext':
            if t is int:
                return to_signed(v, st[1]) & ((1 << dt[1]) - 1)
            if t is Lin:
                return v
            return Term('sext', (v, st[1], dt[1]))
        if t is int and op in ('uitofp', 'sitofp'):
            return F(float(v if op[0] == 'u' else to_signed(v, st[1])))
        if t is F and op in ('fptrunc', 'fpext'):
            return v
        if t is F and op in ('fptosi', 'fptoui'):
            return int(v.v) & ((1 << dt[1]) - 1)
        return Term(op, (v, st[1] if len(st) > 1 else 0, dt[1] if len(dt) > 1 else 0))

    def op_select(self, s, fr, ins):
        c, a, b = [self.val(fr, x) for x in ins.a]
        if c is UNDEF:
            r = UNDEF
        elif a == b:
            r = a
        else:
            r = a if self.truth(s, c) else b
        fr.env[ins.d] = r
        fr.i += 1

    def op_extractvalue(self, s, fr, ins):
        v = self.val(fr, ins.a[0])
        for i in ins.x:
            if v is UNDEF:
                break
            v = v[i]
        fr.env[ins.d] = v
        fr.i += 1

    def op_insertvalue(self, s, fr, ins):
        a = self.val(fr, ins.a[0])
        v = self.val(fr, ins.a[1])
        fr.env[ins.d] = self._ins(a, ins.x, v)
        fr.i += 1

    def _ins(self, a, ix, v):
        if not ix:
            return v
        l = list(a) if a is not UNDEF else []
        while len(l) <= ix[0]:
            l.append(UNDEF)
        l[ix[0]] = self._ins(l[ix[0]], ix[1:], v)
        return Agg(l)

    # ------------------------------------------------------------------ loop headers
    def at_header(self, s, fr):
        self.r.headers += 1
        import fold
        fold.at_header(self, s, fr)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a
