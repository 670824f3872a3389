"""Models of runtime-library functions and of the driver intrinsics (vf_*)."""
from values import *
from interp import Violation, Undecided, Forked, Pruned, Obj, Frame, isnum, sgn
from llvmc import demangle


def cstr(I, s, p):
    out = []
    if type(p) is not P:
        return '?'
    try:
        o = I.obj(s, p, 'read')
    except Exception:
        return '?'
    q = p.f
    while True:
        c = o.cells.get(q)
        if c is None or type(c[1]) is not int or c[1] == 0:
            break
        out.append(chr(c[1]))
        q += 1
    return ''.join(out)


def install(I):
    H = I.handlers
    PX = []
    I.prefixes = PX

    def h(*names):
        def deco(f):
            for n in names:
                H[n] = f
            return f
        return deco

    def px(*names):
        def deco(f):
            for n in names:
                PX.append((n, f))
            return f
        return deco

    # ---------------------------------------------------------------- exceptions
    def raise_exc(s, ti, dtor=None, cells=None):
        oid = I.new(s, 'exc', 16, '@' + ti)
        I.note(s, 'throws ' + demangle(ti))
        s.wobj(oid).cells.update({0: (8, 0)})
        s.flags[('exc', oid)] = (dtor, 0)
        I.throw(s, oid, '@' + ti)
        return NotImplemented

    I.raise_exc = raise_exc

    @h('__cxa_allocate_exception')
    def _(s, a, ins):
        oid = I.new(s, 'exc', a[0], None)
        return P(oid, 0)

    @h('__cxa_free_exception')
    def _(s, a, ins):
        s.mem.pop(a[0].o, None)
        return None

    @h('__cxa_throw')
    def _(s, a, ins):
        o = s.wobj(a[0].o)
        o.tag = a[1].o
        s.flags[('exc', a[0].o)] = (a[2], 0)
        I.note(s, 'throws ' + demangle(a[1].o[1:]))
        I.throw(s, a[0].o, a[1].o)
        return NotImplemented

    @h('__cxa_rethrow')
    def _(s, a, ins):
        if not s.caught:
            raise Violation('terminate', 'rethrow with no exception being handled')
        e = s.caught[-1]
        d, n = s.flags[('exc', e)]
        s.flags[('exc', e)] = (d, -abs(n))
        I.throw(s, e, s.mem[e].tag)
        return NotImplemented

    # std::exception_ptr: shares the exception object with the handlers
    @h('_ZSt17current_exceptionv')
    def _(s, a, ins):
        e = s.caught[-1] if s.caught else None
        I.store(s, a[0], 8, P(e, 0) if e is not None else 0)
        if e is not None:
            s.flags[('exr', e)] = s.flags.get(('exr', e), 0) + 1
        return None

    @h('_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv')
    def _(s, a, ins):
        p = I.load(s, a[0], 8)
        if type(p) is P:
            s.flags[('exr', p.o)] = s.flags.get(('exr', p.o), 0) + 1
        return None

    @h('_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv')
    def _(s, a, ins):
        p = I.load(s, a[0], 8)
        if type(p) is not P:
            return None
        e = p.o
        n = s.flags.get(('exr', e), 0) - 1
        if n > 0:
            s.flags[('exr', e)] = n
        else:
            s.flags.pop(('exr', e), None)
        I.store(s, a[0], 8, 0)
        d, k = s.flags.get(('exc', e), (None, 0))
        if n <= 0 and k == 0 and not s.flags.get(('exf', e)):
            return drop(s, e, d)
        return None

    @h('_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE')
    def _(s, a, ins):
        p = I.load(s, a[0], 8)
        if type(p) is not P:
            raise Violation('terminate', 'rethrow_exception of a null pointer')
        s.flags[('exf', p.o)] = 1
        I.throw(s, p.o, s.mem[p.o].tag)
        return NotImplemented

    def drop(s, e, d):
        s.flags.pop(('exc', e), None)
        if type(d) is Fn:
            def done(s, v, e=e):
                s.mem.pop(e, None)
                I.ret_to(s, None)
            I.call(s, d.n, [P(e, 0)], None, cleanup=done)
            return NotImplemented
        s.mem.pop(e, None)
        return None

    @h('__cxa_begin_catch')
    def _(s, a, ins):
        e = a[0].o
        s.flags.pop(('exf', e), None)
        d, n = s.flags.get(('exc', e), (None, 0))
        s.flags[('exc', e)] = (d, abs(n) + 1)
        s.caught = s.caught + (e,)
        if str(s.mem[e].tag).startswith('@_ZTIP'):      # a thrown pointer: the handler is given the pointer itself
            return I.load(s, P(e, 0), 8)
        return P(e, 0)

    @h('__cxa_get_exception_ptr')
    def _(s, a, ins):
        return a[0]

    @h('__cxa_end_catch')
    def _(s, a, ins):
        e = s.caught[-1]
        s.caught = s.caught[:-1]
        d, n = s.flags[('exc', e)]
        if n < 0:
            n += 1
            s.flags[('exc', e)] = (d, n)
            return None
        n -= 1
        s.flags[('exc', e)] = (d, n)
        if n == 0 and not s.flags.get(('exr', e)):
            return drop(s, e, d)
        return None

    @h('__cxa_call_unexpected', '_ZSt9terminatev')
    def _(s, a, ins):
        raise Violation('terminate', 'std::terminate is called (an exception leaves a noexcept function or a destructor during unwinding)')

    @h('abort', '__cxa_pure_virtual', '__cxa_deleted_virtual', '__stack_chk_fail', 'exit', '_exit', 'quick_exit')
    def _(s, a, ins):
        raise Violation('abort', 'the program is aborted')

    @h('__assert_fail', '__glibcxx_assert_fail', '_ZSt21__glibcxx_assert_failPKciS0_S0_')
    def _(s, a, ins):
        raise Violation('assert', 'an assertion of the library fails: %s' % (cstr(I, s, a[0]),))

    @px('_ZSt17__throw_bad_alloc', '_ZSt28__throw_bad_array_new_length')
    def _(s, a, ins):
        return raise_exc(s, '_ZTISt9bad_alloc')

    @px('_ZSt20__throw_system_error')
    def _(s, a, ins):
        return raise_exc(s, '_ZTISt12system_error')

    @px('_ZSt25__throw_bad_function_call')
    def _(s, a, ins):
        return raise_exc(s, '_ZTISt17bad_function_call')

    @px('_ZSt20__throw_length_error', '_ZSt19__throw_logic_error')
    def _(s, a, ins):
        return raise_exc(s, '_ZTISt12length_error')

    @px('_ZSt20__throw_bad_weak_ptr', '_ZSt20__throw_bad_weak_ptrv')
    def _(s, a, ins):
        return raise_exc(s, '_ZTISt12bad_weak_ptr')

    @px('_ZSt26__throw_bad_variant_access', '_ZSt26__throw_bad_optional_access', '_ZSt22__throw_bad_any_cast', '_ZSt16__throw_bad_cast')
    def _(s, a, ins):
        return raise_exc(s, '_ZTISt8bad_cast')

    @px('_ZSt24__throw_invalid_argument')
    def _(s, a, ins):
        return raise_exc(s, '_ZTISt16invalid_argument')

    @px('_ZSt20__throw_out_of_range', '_ZSt24__throw_out_of_range_fmt')
    def _(s, a, ins):
        return raise_exc(s, '_ZTISt12out_of_range')

    @px('_ZNSt9exceptionD', '_ZNSt17bad_function_callD', '_ZNSt10bad_typeidD', '_ZNSt12length_errorD', '_ZNSt12length_errorC', '_ZNSt12domain_errorD', '_ZNSt12domain_errorC', '_ZNSt12bad_weak_ptrD', '_ZNSt9bad_allocD', '_ZNSt8bad_castD', '_ZNSt11logic_errorD', '_ZNSt13runtime_errorD',
        '_ZNSt11logic_errorC', '_ZNSt13runtime_errorC', '_ZNSt16invalid_argumentD', '_ZNSt16invalid_argumentC', '_ZNSt12out_of_rangeC', '_ZNSt12out_of_rangeD')
    def _(s, a, ins):
        if len(a) > 1:      # constructors: the object has a virtual table and a message, neither of which is modelled
            I.store(s, a[0], 8, Term('sym', ('vptr',)))
            I.store(s, P(a[0].o, a[0].f + 8), 8, Term('sym', ('message',)))
        return None

    @h('_ZNKSt9exception4whatEv')
    def _(s, a, ins):
        return Term('sym', ('what',))

    # ---------------------------------------------------------------- heap
    def new_(s, a, ins):
        if s.oom and s.tid == 0:
            if I.choose(s, 2):
                I.note(s, 'operator new fails (bad_alloc)')
                s.flags['oomed'] = 1
                return raise_exc(s, '_ZTISt9bad_alloc')
        n = a[0]
        l = I.loc(s.frames[-1])
        oid = I.new(s, 'heap', n if type(n) is int else None, l)
        I.r.ob('allocation')
        return P(oid, 0)
    h('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')(new_)

    @h('malloc', '_ZnwmRKSt9nothrow_t')
    def _(s, a, ins):
        return P(I.new(s, 'heap', a[0] if type(a[0]) is int else None, I.loc(s.frames[-1])), 0)

    def free_(s, a, ins):
        p = a[0]
        if type(p) is int and p == 0:
            return None
        if p is UNDEF:
            raise Violation('uninit', 'delete of an uninitialised pointer')
        if type(p) is not P:
            raise Undecided('delete of %r' % (p,))
        o = s.mem.get(p.o)
        if o is None:
            raise Violation('double-free', 'memory is released twice')
        if o.kind not in ('heap', 'seq') or p.f != 0:
            raise Violation('bad-free', 'release of memory that is not the start of a heap allocation')
        for k in s.locks:
            if k[0] == p.o:
                raise Violation('mutex', 'an object holding a locked mutex is destroyed')
        I.r.ob('release')
        if I.access_hook and o.size:
            I.access_hook(s, p, o.size, True, None, ins, free=True)
        if o.tmpl:
            raise Undecided('release of a summary object')
        del s.mem[p.o]
        return None
    h('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', 'free', '_ZdlPvRKSt9nothrow_t')(free_)

    # ---------------------------------------------------------------- sequences
    @h('vf_seq_new')
    def _(s, a, ins):
        if s.oom and s.tid == 0 and I.choose(s, 2):
            I.note(s, 'allocation of vector storage fails (bad_alloc)')
            s.flags['oomed'] = 1
            return raise_exc(s, '_ZTISt9bad_alloc')
        oid = I.new(s, 'seq', None, I.loc(s.frames[-1]))
        o = s.mem[oid]
        o.ents = []
        o.esz = a[0]
        return P(oid, 0)

    @h('vf_seq_grow')
    def _(s, a, ins):
        # append one uninitialised element
        o = I.obj(s, a[0], 'write')
        if I.access_hook:
            I.access_hook(s, a[0], 8, True, None, ins)
        o = s.wobj(a[0].o)
        o.ents.append(('S', {}))
        return None

    @h('vf_seq_grow_n')
    def _(s, a, ins):
        n = a[1]
        o = s.wobj(a[0].o)
        if type(n) is int:
            for _ in range(n):
                o.ents.append(('S', {}))
        else:
            g = 'g%d' % I.nid
            I.nid += 1
            s.groups[g] = (n, {})
            o.ents.append(('G', g))
        return None

    @h('vf_seq_move')
    def _(s, a, ins):
        # bitwise relocation of every element into fresh storage; the old storage is released
        if s.oom and s.tid == 0 and I.choose(s, 2):
            I.note(s, 'allocation of vector storage fails (bad_alloc)')
            s.flags['oomed'] = 1
            return raise_exc(s, '_ZTISt9bad_alloc')
        o = I.obj(s, a[0], 'read')
        if I.access_hook:
            I.access_hook(s, a[0], 8, True, None, ins, free=True)
        oid = I.new(s, 'seq', None, I.loc(s.frames[-1]))
        n = s.mem[oid]
        n.ents = list(o.ents)
        n.esz = o.esz
        del s.mem[a[0].o]
        return P(oid, 0)

    @h('vf_seq_pop')
    def _(s, a, ins):
        o = I.obj(s, a[0], 'write')
        if I.access_hook:
            I.access_hook(s, a[0], 8, True, None, ins)
        if not o.ents:
            raise Violation('out-of-bounds', 'pop_back of an empty std::vector')
        e = o.ents[-1]
        if e[0] == 'G':
            n = s.groups[e[1]][0]
            I.seq_find(s, a[0].o, lmul(ladd(I.seq_len(s, a[0].o), -1), o.esz), 1, True)
        o = s.wobj(a[0].o)
        o.ents.pop()
        return None

    @h('vf_seq_free')
    def _(s, a, ins):
        p = a[0]
        if type(p) is int and p == 0:
            return None
        if s.mem.get(p.o) is None:
            raise Violation('double-free', 'vector storage is released twice')
        if I.access_hook:
            I.access_hook(s, p, 8, True, None, ins, free=True)
        # groups referenced only here disappear with it
        o = s.mem.pop(p.o)
        gs = [e[1] for e in o.ents if e[0] == 'G']
        for g in gs:
            if not any(q.ents is not None and any(e[0] == 'G' and e[1] == g for e in q.ents) for q in s.mem.values()):
                n, cells = s.groups.pop(g)
                if I.tmpl_objs(s, cells):
                    for t in I.tmpl_objs(s, cells):
                        x = s.mem[t]
                        # the elements were not destroyed: keep one as evidence of the leak
                        y = x.copy()
                        y.tmpl = False
                        s.mem[t] = y
        return None

    @h('vf_seq_size')
    def _(s, a, ins):
        I.obj(s, a[0], 'read')
        if I.access_hook:
            I.access_hook(s, a[0], 8, False, None, ins)
        n = I.seq_len(s, a[0].o)
        return n

    # ---------------------------------------------------------------- mem intrinsics
    @px('llvm.memcpy', 'llvm.memmove')
    def _(s, a, ins):
        if type(a[2]) is int and a[2] == 0:
            return None
        if I.access_hook and type(a[2]) is int:
            I.access_hook(s, a[1], a[2], False, None, ins)
            I.access_hook(s, a[0], a[2], True, None, ins)
        I.copy_range(s, a[0], a[1], a[2])
        return None

    @h('memcpy', 'memmove')
    def _(s, a, ins):
        if not (type(a[2]) is int and a[2] == 0):
            I.copy_range(s, a[0], a[1], a[2])
        return a[0]

    @px('llvm.memset')
    def _(s, a, ins):
        if type(a[2]) is int and a[2] == 0:
            return None
        if I.access_hook and type(a[2]) is int:
            I.access_hook(s, a[0], a[2], True, None, ins)
        I.set_range(s, a[0], a[1], a[2])
        return None

    @h('strlen')
    def _(s, a, ins):
        return len(cstr(I, s, a[0]))

    @h('memchr')
    def _(s, a, ins):
        if type(a[0]) is not P or type(a[1]) is not int or type(a[2]) is not int:
            raise Undecided('memchr of unknown extent')
        for q in range(a[2]):
            p = P(a[0].o, ladd(a[0].f, q))
            c = I.load(s, p, 1)
            if type(c) is not int:
                raise Undecided('memchr in unknown text')
            if c == a[1] & 255:
                return p
        return 0

    @h('memcmp', 'strcmp', '__builtin_memcmp', 'bcmp')
    def _(s, a, ins):
        if len(a) > 2 and type(a[2]) is int and type(a[0]) is P and type(a[1]) is P:
            for q in range(0, a[2]):
                x = I.load(s, P(a[0].o, ladd(a[0].f, q)), 1)
                y = I.load(s, P(a[1].o, ladd(a[1].f, q)), 1)
                if type(x) is not int or type(y) is not int:
                    break
                if x != y:
                    return 1 if x > y else 0xffffffff
            else:
                return 0
            # cell-wise equality
            def cells(p):
                o = I.obj(s, p, 'read')
                return sorted((k - p.f, c) for k, c in o.cells.items() if p.f <= k < p.f + a[2])
            if cells(a[0]) == cells(a[1]):
                return 0
            return Term('memcmp', (repr(cells(a[0])), repr(cells(a[1]))))
        x, y = cstr(I, s, a[0]), cstr(I, s, a[1])
        return 0 if x == y else (1 if x > y else 0xffffffff)

    @px('llvm.lifetime.start')
    def _(s, a, ins):
        p = a[1]
        o = s.mem.get(p.o) if type(p) is P else None
        if o is not None:
            o = s.wobj(p.o)
            o.cells = {}
            if o.kind == 'dead':
                o.kind = 'stack'
        return None

    @px('llvm.lifetime.end')
    def _(s, a, ins):
        p = a[1]
        o = s.mem.get(p.o) if type(p) is P else None
        if o is not None:
            for k in s.locks:
                if k[0] == p.o:
                    raise Violation('mutex', 'an object holding a locked mutex is destroyed')
            o = s.wobj(p.o)
            o.cells = {}
            o.kind = 'dead'
        return None

    @px('llvm.dbg', 'llvm.invariant.end', 'llvm.donothing', 'llvm.experimental.noalias', 'llvm.stackrestore', 'llvm.prefetch', 'llvm.assume', 'llvm.va_')
    def _(s, a, ins):
        return None

    @px('llvm.invariant.start', 'llvm.stacksave')
    def _(s, a, ins):
        return 0

    @px('llvm.expect', 'llvm.launder', 'llvm.strip', 'llvm.ssa.copy')
    def _(s, a, ins):
        return a[0]

    @px('llvm.threadlocal.address')
    def _(s, a, ins):
        p = a[0]
        if s.tid == 0 or type(p) is not P:
            return p
        gid = '%s@%d' % (p.o, s.tid)
        if gid not in s.mem:
            gi = I.m.global_init(p.o[1:])
            if gi is None or gi[0] is None:
                raise Undecided('unknown thread-local ' + p.o)
            s.mem[gid] = Obj('glob', gi[0], {off: (sz, v) for off, sz, v in gi[1]}, gid)
        return P(gid, p.f)

    @px('llvm.is.constant')
    def _(s, a, ins):
        return 0

    @px('llvm.objectsize')
    def _(s, a, ins):
        return (1 << 64) - 1

    @px('llvm.trap', 'llvm.ubsantrap', 'llvm.debugtrap')
    def _(s, a, ins):
        raise Violation('abort', 'trap')

    @px('llvm.eh.typeid.for')
    def _(s, a, ins):
        return I.typeid(a[0])

    @px('llvm.umul.with.overflow')
    def _(s, a, ins):
        return Agg((I.arith(s, 'mul', a[0], a[1], 64), 0))

    @px('llvm.uadd.with.overflow', 'llvm.sadd.with.overflow')
    def _(s, a, ins):
        return Agg((I.arith(s, 'add', a[0], a[1], 64), 0))

    def mm(name, pred):
        def f(s, a, ins):
            return a[0] if I.cmp(s, pred, a[0], a[1], 64) else a[1]
        px('llvm.' + name)(f)
    mm('umax', 'uge')
    mm('umin', 'ule')
    mm('smax', 'sge')
    mm('smin', 'sle')

    @px('llvm.ctlz', 'llvm.ctpop', 'llvm.cttz', 'llvm.fabs', 'llvm.abs', 'llvm.fshl', 'llvm.bswap', 'llvm.sqrt')
    def _(s, a, ins):
        n = ins.x[0].v.n if not type(ins.x[0]) is int else ''
        if all(type(x) is int for x in a):
            w = int(n.split('.i')[-1])
            if 'ctlz' in n:
                return w - a[0].bit_length()
            if 'ctpop' in n:
                return bin(a[0]).count('1')
            if 'cttz' in n:
                return (a[0] & -a[0]).bit_length() - 1 if a[0] else w
            if 'abs' in n:
                v = to_signed(a[0], w)
                return abs(v)
        return Term(n, tuple(a))

    # ---------------------------------------------------------------- RTTI
    @h('__dynamic_cast')
    def _(s, a, ins):
        src, sti, dti, hint = a
        vt = I.load(s, src, 8)
        if type(vt) is not P:
            raise Violation('uninit', 'dynamic_cast of an object without a valid vtable')
        top = I.load(s, P(vt.o, vt.f - 16), 8)
        ti = I.load(s, P(vt.o, vt.f - 8), 8)
        full = P(src.o, ladd(src.f, to_signed(top, 64)))
        st = [(ti.o, 0)]
        while st:
            x, off = st.pop()
            if x == dti.o:
                return P(full.o, ladd(full.f, off))
            for b, bo in I.ti_bases(s, x):
                st.append((b, off + bo))
        return 0

    @h('_ZNKSt9type_infoeqERKS_')
    def _(s, a, ins):
        return 1 if a[0] == a[1] else 0

    # ---------------------------------------------------------------- mutexes
    # s.locks: (object, offset) -> owner; further levels of a recursive mutex are (object, offset, 'x', level), shared owners of a
    # read-write lock (object, offset, 'r', thread)
    def mkey(s, p):
        I.obj(s, p, 'locking')
        return (p.o, p.f)

    def order(s, k):
        held = {q[:2] for q, t in s.locks.items() if t == s.tid}
        held.discard(k)
        if held:
            e = s.flags.get('lockorder', frozenset())
            for q in held:
                if (k, q) in e:
                    raise Violation('lock-order', 'two mutexes are acquired (blocking) in opposite orders by two operations: two threads doing this deadlock')
            s.flags['lockorder'] = e | {(q, k) for q in held}

    def got(s, k, who):
        s.locks[k] = s.tid
        if s.vc is not None:
            s.vc.acquire(s.tid, ('m',) + k[:2])
            if who != 'r':
                s.vc.acquire(s.tid, ('mr',) + k[:2])

    def recursive(s, p):
        try:
            return I.load(s, P(p.o, ladd(p.f, 16)), 4) == 1
        except Violation:
            return False

    def level(s, k):
        n = 0
        while k + ('x', n + 1) in s.locks:
            n += 1
        return n

    @h('pthread_mutex_lock')
    def _(s, a, ins):
        k = mkey(s, a[0])
        if I.sync_hook:
            I.sync_hook(s, ins)
        I.r.ob('lock')
        if k in s.locks:
            if s.locks[k] == s.tid:
                if recursive(s, a[0]):
                    s.locks[k + ('x', level(s, k) + 1)] = s.tid
                    return 0
                raise Violation('deadlock', 'a thread blocks on a mutex it already holds')
            I.block(s, k)
        order(s, k)
        got(s, k, 'w')
        return 0

    @h('pthread_mutex_clocklock', 'pthread_mutex_timedlock', 'pthread_mutex_trylock')
    def _(s, a, ins):
        k = mkey(s, a[0])
        if I.sync_hook:
            I.sync_hook(s, ins)
        if k in s.locks:
            if s.locks[k] == s.tid:
                if recursive(s, a[0]):
                    s.locks[k + ('x', level(s, k) + 1)] = s.tid
                    return 0
                raise Violation('deadlock', 'try_lock on a mutex the thread already holds')
            return 16
        got(s, k, 'w')
        return 0

    @h('pthread_mutex_unlock')
    def _(s, a, ins):
        k = mkey(s, a[0])
        if s.locks.get(k) != s.tid:
            raise Violation('mutex', 'a mutex is unlocked by a thread that does not hold it')
        n = level(s, k)
        if n:
            del s.locks[k + ('x', n)]
            return 0
        if s.vc is not None:
            s.vc.release(s.tid, ('m',) + k)
        del s.locks[k]
        if I.sync_hook:
            I.sync_after(s, ins)
        return 0

    @h('pthread_mutex_init', 'pthread_rwlock_init', 'pthread_mutexattr_init', 'pthread_mutexattr_settype', 'pthread_mutexattr_destroy')
    def _(s, a, ins):
        return 0

    @h('pthread_mutex_destroy', 'pthread_rwlock_destroy')
    def _(s, a, ins):
        k = mkey(s, a[0])
        if any(q[:2] == k for q in s.locks):
            raise Violation('mutex', 'a locked mutex is destroyed')
        return 0

    def rw(shared, tr):
        def f(s, a, ins):
            k = mkey(s, a[0])
            if I.sync_hook:
                I.sync_hook(s, ins)
            I.r.ob('lock')
            mine = s.locks.get(k) == s.tid or k + ('r', s.tid) in s.locks
            if mine:
                raise Violation('deadlock', 'a thread locks a read-write mutex it already holds')
            busy = k in s.locks or (not shared and any(q[:2] == k for q in s.locks))
            if busy:
                if tr:
                    return 16
                I.block(s, k if shared else k + ('w',))
            if not tr:
                order(s, k)
            got(s, k + ('r', s.tid) if shared else k, 'r' if shared else 'w')
            return 0
        return f
    h('pthread_rwlock_rdlock')(rw(True, False))
    h('pthread_rwlock_wrlock')(rw(False, False))
    h('pthread_rwlock_tryrdlock')(rw(True, True))
    h('pthread_rwlock_trywrlock')(rw(False, True))

    @h('pthread_rwlock_unlock')
    def _(s, a, ins):
        k = mkey(s, a[0])
        if s.locks.get(k) == s.tid:
            if s.vc is not None:
                s.vc.release(s.tid, ('m',) + k)
            del s.locks[k]
        elif k + ('r', s.tid) in s.locks:
            if s.vc is not None:
                s.vc.release(s.tid, ('mr',) + k, True)
            del s.locks[k + ('r', s.tid)]
        else:
            raise Violation('mutex', 'a mutex is unlocked by a thread that does not hold it')
        if I.sync_hook:
            I.sync_after(s, ins)
        return 0

    @h('pthread_self')
    def _(s, a, ins):
        return s.tid + 1

    @h('pthread_equal')
    def _(s, a, ins):
        return 1 if a[0] == a[1] else 0

    # initialisation of function-local statics: one thread at a time, the others wait
    @h('__cxa_guard_acquire')
    def _(s, a, ins):
        k = (a[0].o, a[0].f)
        if I.load(s, a[0], 1) != 1 and k in s.locks:
            if s.locks[k] == s.tid:
                raise Violation('deadlock', 'the initialisation of a static variable waits for itself')
            I.block(s, k)
        if s.vc is not None:
            s.vc.acquire(s.tid, ('m',) + k)
        if I.load(s, a[0], 1) == 1:
            return 0
        s.locks[k] = s.tid
        return 1

    def guard_done(v):
        def f(s, a, ins):
            k = (a[0].o, a[0].f)
            if v:
                I.store(s, a[0], 1, 1)
            s.locks.pop(k, None)
            if s.vc is not None:
                s.vc.release(s.tid, ('m',) + k)
                s.vc.release(s.tid, k)
            return None
        return f
    h('__cxa_guard_release')(guard_done(1))
    h('__cxa_guard_abort')(guard_done(0))

    @h('__cxa_atexit', '__cxa_thread_atexit', '__cxa_thread_atexit_impl')
    def _(s, a, ins):
        # destroyed when the program (thread) ends, after everything the scenario does
        if type(a[1]) is P:
            s.flags['atexit'] = s.flags.get('atexit', frozenset()) | {a[1].o}
        return 0

    @h('sched_yield', '__gthread_active_p', 'nanosleep', 'clock_nanosleep', 'usleep', 'pthread_cond_init', 'pthread_cond_destroy', 'pthread_cond_signal', 'pthread_cond_broadcast')
    def _(s, a, ins):
        return 0

    # ---------------------------------------------------------------- driver intrinsics
    @h('vf_nd')
    def _(s, a, ins):
        c = I.choose(s, a[0])
        l = I.loc(s.frames[-1])
        I.note(s, 'choice %d of %d at %s:%s' % (c, a[0], l[0].split('/')[-1] if l else '?', l[1] if l else '?'))
        return c

    @h('vf_more')
    def _(s, a, ins):
        I.r.more += 1
        if I.fixmore is not None:
            fr = s.frames[-1]
            k = ('more', fr.f.name, fr.b, fr.i)
            n = s.flags.get(k, 0)
            if k not in s.flags:
                j = s.flags.get('nmore', 0)
                s.flags['nmore'] = j + 1
                s.flags[k + ('j',)] = j
            j = s.flags.get(k + ('j',), 0)
            s.flags[k] = n + 1
            return 1 if n < I.fixmore[j % len(I.fixmore)] else 0
        if not I.abstract and s.more >= I.maxmore:
            return 0
        c = I.choose(s, 2)
        if c:
            if not I.abstract:
                s.more += 1
            l = I.loc(s.frames[-1])
            I.note(s, 'one more element at %s:%s' % (l[0].split('/')[-1] if l else '?', l[1] if l else '?'))
        return c

    @h('vf_more_reset')
    def _(s, a, ins):
        s.more = 0
        return None

    @h('vf_assert')
    def _(s, a, ins):
        lab = cstr(I, s, a[1])
        mine = active(lab)
        v = a[0]
        if not mine:
            return None
        I.r.asserts[lab] = I.r.asserts.get(lab, 0) + 1
        I.r.ob('assertion')
        if v is UNDEF:
            raise Violation('uninit', 'the checked condition "%s" depends on an uninitialised value' % lab)
        if not I.truth(s, v, 'assertion'):
            raise Violation('property', lab)
        return None

    def active(lab):
        """is the obligation one of the properties being decided?  labels look like 'C01 C08|text'"""
        if I.props is None or '|' not in lab:
            return True
        return not I.props.isdisjoint(lab.split('|', 1)[0].split())

    @h('vf_cover')
    def _(s, a, ins):
        lab = cstr(I, s, a[0])
        I.r.covers[lab] = I.r.covers.get(lab, 0) + 1
        return None

    @h('vf_fail')
    def _(s, a, ins):
        lab = cstr(I, s, a[0])
        if active(lab):
            raise Violation('property', lab)
        return None

    @h('vf_assume')
    def _(s, a, ins):
        if not I.truth(s, a[0]):
            raise Pruned()
        return None

    @h('vf_note')
    def _(s, a, ins):
        I.note(s, cstr(I, s, a[0]))
        return None

    @h('vf_sym')
    def _(s, a, ins):
        return I.sym(cstr(I, s, a[0]))

    @h('vf_held')
    def _(s, a, ins):
        return sum(1 for t in s.locks.values() if t == s.tid)

    @h('vf_oom')
    def _(s, a, ins):
        s.oom = a[0]
        return None

    @h('vf_oomed')
    def _(s, a, ins):
        return s.flags.get('oomed', 0)

    @h('vf_abstract')
    def _(s, a, ins):
        return 1 if I.abstract else 0

    @h('vf_noleak')
    def _(s, a, ins):
        s.flags['noleak'] = 1
        return None

    @h('vf_heap')
    def _(s, a, ins):
        return sum(1 for o in s.mem.values() if o.kind in ('heap', 'seq', 'exc') and not o.tmpl) & 0xffffffff

    @h('vf_alive')
    def _(s, a, ins):
        p = a[0]
        return 1 if type(p) is P and p.o in s.mem and s.mem[p.o].kind != 'dead' else 0

    @h('vf_initialised')
    def _(s, a, ins):
        v = I.load(s, a[0], a[1])
        return 0 if v is UNDEF else 1

    @h('vf_prune')
    def _(s, a, ins):
        raise Pruned()

    @h('vf_tid')
    def _(s, a, ins):
        return s.tid


def end_check(I, s):
    if s.locks:
        raise Violation('mutex', 'a mutex is still locked after the operation returned')
    if s.flags.get('noleak'):
        return
    I.r.ob('leak-check')
    keep = set()
    todo = list(s.flags.get('atexit', ()))
    while todo:
        oid = todo.pop()
        if oid in keep or oid not in s.mem:
            continue
        keep.add(oid)
        o = s.mem[oid]
        cs = [o.cells] + [e[1] if e[0] == 'S' else s.groups[e[1]][1] for e in o.ents or ()]
        todo.extend(v.o for c in cs for n, v in c.values() if type(v) is P)
    for oid, o in s.mem.items():
        if o.kind in ('heap', 'seq', 'exc') and not o.tmpl and oid not in keep:
            l = o.tag
            w = '%s:%s' % (l[0], l[1]) if type(l) is tuple else '?'
            raise Violation('leak', 'memory allocated at %s is never released' % w)
