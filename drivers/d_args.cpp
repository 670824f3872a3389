// Arguments reach every slot unchanged (C14).
#include "lib.hpp"
using namespace w;

namespace
{
    struct Val                                   // a value with identity, moves are visible
    {
        long v; bool moved = false; unsigned magic = 0x7a1;
        static inline long alive;
        explicit Val(long x) : v(x) { ++alive; }
        Val(const Val& o) : v(o.v), moved(o.moved) { o.use(); ++alive; }
        Val(Val&& o) noexcept : v(o.v), moved(o.moved) { o.use(); o.v = -1; o.moved = true; ++alive; }
        Val& operator=(const Val& o) { use(); o.use(); v = o.v; moved = o.moved; return *this; }
        Val& operator=(Val&& o) noexcept { use(); o.use(); v = o.v; moved = o.moved; o.v = -1; o.moved = true; return *this; }
        ~Val() { vf_assert(magic == 0x7a1, "C14 C23|an argument is destroyed twice"); magic = 0; --alive; }
        void use() const { vf_assert(magic == 0x7a1, "C14 C23|a destroyed argument is used"); }
    };
    std::size_t count; long expA, expB; 
    void got(const Val& v, long e) { v.use(); vf_assert(v.v == e && !v.moved, "C14|a slot receives a value changed or moved from by an earlier slot"); ++count; }

    // slots that take (and ruin) their argument in every possible way
    struct ByVal { void operator()(Val a) const { got(a, expA); a.v = 77; a.moved = true; } bool operator==(const ByVal&) const { return true; } };
    struct ByRef { void operator()(const Val& a) const { got(a, expA); } };
    struct ByMove { void operator()(Val&& a) const { got(a, expA); Val steal(std::move(a)); steal.v = 3; } };
    struct Mem
    {
        void val(Val a) { got(a, expA); Val x(std::move(a)); x.v = 5; }
        void ref(const Val& a) const { got(a, expA); }
    };
    struct IByVal { int operator()(Val a) const { got(a, expA); a.v = 77; return 1; } };
}
template<class R> void any_slot(sig::signal<R(Val)>& s, Mem& m, std::shared_ptr<Mem>& sp)
{
    switch (vf_nd(7))
    {
    case 0: s.connect(ByVal()); break;
    case 1: s.connect(ByRef()); break;
    case 2: s.connect(ByMove()); break;
    case 3: s.connect(&Mem::val, &m); break;
    case 4: s.connect(&Mem::ref, std::ref(m)); break;
    case 5: s.connect(&Mem::val, sp); break;
    case 6: s.connect(&Mem::val, Mem()); break;
    }
}
SCN(args_value, "C14 C23|abs=0 more=3")
{
    {
        Mem m; auto sp = std::make_shared<Mem>();
        sig::signal<void(Val)> s;
        std::size_t n = 0;
        while (vf_more()) { any_slot(s, m, sp); ++n; }
        expA = vf_sym("a");
        {
            Val a(expA);
            count = 0;
            if (vf_nd(2)) s(a); else s(Val(expA));
            vf_assert(count == n, "C14 C01|a slot does not receive the arguments");
            vf_assert(a.v == expA && !a.moved, "C14|the argument of the caller is changed");
        }
        vf_assert(Val::alive == 0, "C14 C23|an emission leaks copies of its arguments");
        expA = 9; count = 0;
        s(Val(9));
        vf_assert(count == n && Val::alive == 0, "C14 C23|a second emission does not receive its own arguments");
    }
}
SCN(args_value_many, "C14 C23")
{
    {
        sig::signal<int(Val)> s;
        std::size_t n = 0;
        while (vf_more()) { s.connect(IByVal()); ++n; }
        expA = vf_sym("a"); count = 0;
        { Val a(expA); s(a); vf_assert(count == n, "C14 C01|a slot does not receive the arguments"); vf_assert(a.v == expA && !a.moved, "C14|the argument of the caller is changed"); }
        vf_assert(Val::alive == 0, "C14 C23|an emission leaks copies of its arguments");
    }
}
// references refer to the object of the caller, and changes accumulate
namespace
{
    Val* where;
    struct RefSlot { void operator()(Val& v) const { vf_assert(&v == where, "C14|a reference parameter does not refer to the object of the caller"); ++v.v; ++count; } };
    struct RefMem { void go(Val& v) { vf_assert(&v == where, "C14|a reference parameter does not refer to the object of the caller"); ++v.v; ++count; } };
    struct CRefSlot { void operator()(const Val& v) const { vf_assert(&v == where && v.v == expA, "C14|a const reference parameter does not refer to the object of the caller"); ++count; } };
    struct CRefVal { void operator()(Val v) const { vf_assert(&v != where && v.v == expA, "C14|a slot receives a wrong argument"); v.v = 8; ++count; } };
    struct CRefMem { void go(const Val& v) const { vf_assert(&v == where && v.v == expA, "C14|a const reference parameter does not refer to the object of the caller"); ++count; } };
}
SCN(args_ref, "C14 C23|more=3")
{
    {
        RefMem m; auto sp = std::make_shared<RefMem>();
        sig::signal<void(Val&)> s;
        long n = 0;
        while (vf_more()) { s.connect(RefSlot()); ++n; }
        if (vf_nd(2)) { s.connect(&RefMem::go, &m); ++n; }
        if (vf_nd(2)) { s.connect(&RefMem::go, sp); ++n; }
        if (vf_nd(2)) { s.connect(&RefMem::go, RefMem()); ++n; }
        Val a(100); where = &a; count = 0;
        s(a);
        vf_assert((long)count == n && a.v == 100 + n, "C14|changes through a reference parameter do not reach the object of the caller");
        s(a);
        vf_assert(a.v == 100 + 2 * n, "C14|changes through a reference parameter do not reach the object of the caller");
        vf_assert(Val::alive == 1, "C14|reference arguments are copied");
    }
}
SCN(args_cref, "C14 C23|abs=0 more=3")
{
    {
        CRefMem m; auto sp = std::make_shared<CRefMem>();
        sig::signal<int(const Val&)> si;
        sig::signal<void(const Val&)> s;
        std::size_t n = 0;
        while (vf_more()) { switch (vf_nd(5)) { case 0: s.connect(CRefSlot()); break; case 1: s.connect(CRefVal()); break; case 2: s.connect(&CRefMem::go, &m); break; case 3: s.connect(&CRefMem::go, sp); break; case 4: s.connect(&CRefMem::go, m); break; } ++n; }
        expA = vf_sym("a");
        const Val a(expA); where = const_cast<Val*>(&a); count = 0;
        s(a);
        vf_assert(count == n, "C14 C01|a slot does not receive the arguments");
        vf_assert(Val::alive == 1, "C14 C23|an emission leaks copies of its arguments");
    }
}
// several parameters of different kinds, in position
namespace
{
    long pa, pb; unsigned char pc; Val* pv; double* pd; 
    struct Many { int operator()(long a, Val& v, long b, unsigned char c, const Val& w, double* d) const { vf_assert(a == pa && b == pb && c == pc, "C14|arguments arrive in the wrong position or changed"); vf_assert(&v == pv && &w == pv + 1 && d == pd, "C14|reference or pointer arguments are not those of the caller"); ++count; return 1; } };
    struct ManyMem { int go(long a, Val& v, long b, unsigned char c, const Val& w, double* d) { return Many()(a, v, b, c, w, d); } };
    struct Same2 { void operator()(Val a, Val b) const { got(a, expA); got(b, expB); a.v = b.v = 0; } };
    struct Same2R { void operator()(const Val& a, Val b) const { got(a, expA); got(b, expB); b.v = 0; } };
    struct Same2M { void operator()(Val&& a, Val&& b) const { got(a, expA); got(b, expB); Val x(std::move(a)), y(std::move(b)); } };
}
SCN(args_many, "C14|more=3")
{
    {
        ManyMem m; auto sp = std::make_shared<ManyMem>();
        sig::signal<int(long, Val&, long, unsigned char, const Val&, double*)> s;
        std::size_t n = 0;
        while (vf_more()) { s.connect(Many()); ++n; }
        s.connect(&ManyMem::go, &m); ++n;
        s.connect(&ManyMem::go, sp); ++n;
        s.connect(&ManyMem::go, m); ++n;
        Val v[2] = { Val(1), Val(2) }; double d = 1;
        pa = vf_sym("a"); pb = vf_sym("b"); pc = 200; pv = v; pd = &d; count = 0;
        s(pa, v[0], pb, pc, v[1], &d);
        vf_assert(count == n, "C14 C01|a slot does not receive the arguments");
    }
}
SCN(args_two, "C14 C23|abs=0 more=4")
{
    {
        sig::signal<void(Val, Val)> s;
        std::size_t n = 0;
        while (vf_more()) { switch (vf_nd(3)) { case 0: s.connect(Same2()); break; case 1: s.connect(Same2R()); break; case 2: s.connect(Same2M()); break; } ++n; }
        expA = vf_sym("a"); expB = vf_sym("b"); count = 0;
        s(Val(expA), Val(expB));
        vf_assert(count == 2 * n, "C14 C01|a slot does not receive the arguments");
        vf_assert(Val::alive == 0, "C14 C23|an emission leaks copies of its arguments");
    }
}
// a nested emission with other arguments does not disturb the outer one
namespace
{
    sig::signal<void(Val)>* gs; int depth; long outer, inner;
    struct Nest { void operator()(Val a) const { got(a, depth ? inner : outer); if (!depth) { depth = 1; (*gs)(Val(inner)); depth = 0; } a.v = 0; } };
}
SCN(args_nested, "C14 C08 C23|abs=0 more=3")
{
    {
        sig::signal<void(Val)> s; gs = &s;
        std::size_t n = 0;
        while (vf_more()) { s.connect(Nest()); ++n; }
        outer = vf_sym("o"); inner = vf_sym("i"); count = 0; depth = 0;
        s(Val(outer));
        vf_assert(count == n + n * n, "C14 C08|a nested emission disturbs the one in progress");
        vf_assert(Val::alive == 0, "C14 C23|an emission leaks copies of its arguments");
    }
}
