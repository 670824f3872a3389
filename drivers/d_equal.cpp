// Slot equality and disconnection by callable (C15).
#include "lib.hpp"
using namespace w;

namespace
{
    using S = sig::signal<int(int)>;
    using Sl = sig::slot<int(int)>;
    int f1(int a) { return a; }
    int f2(int a) { return a + 1; }
    struct E { long k; int operator()(int a) const { return a; } bool operator==(const E& o) const { return k == o.k; } };
    struct E2 { long k; int operator()(int a) const { return a; } bool operator==(const E2& o) const { return k == o.k; } };
    struct O { long k = 0; int a(int x) { return x; } int b(int x) { return x; } int c(int x) const { return x; } bool operator==(const O& o) const { return k == o.k; } };
    struct D : O {};
    struct NC { int operator()(int a) const { return a; } };
    struct NO { int a(int x) { return x; } };
    void eq(const Sl& x, const Sl& y, bool e)
    {
        vf_assert((x == y) == e, "C15|slots do not compare equal exactly when they hold equal callables");
        vf_assert((y == x) == e, "C15|slot equality is not symmetric");
        vf_assert((x != y) == !e, "C15|slot inequality is not the negation of equality");
    }
    template<class F> bool throws_nc(F f) { try { f(); } catch (const sig::not_comparable_exception&) { return true; } return false; }
}
SCN(eq_functions, "C15")
{
    Sl a{ f1 }, b{ &f1 }, c{ f2 }, e, e2; int (*p)(int) = f1; Sl d{ p };
    eq(a, a, true); eq(a, c, false); eq(b, d, true); eq(e, e2, true); eq(e, a, false);
    Sl x{ E{ 1 } }, y{ E{ 1 } }, z{ E{ 2 } }, w2{ E2{ 1 } };
    eq(x, y, true); eq(x, z, false); eq(x, w2, false); eq(x, a, false); eq(x, e, false);
    long i = vf_sym("i"), j = vf_sym("j");
    Sl u{ E{ i } }, v{ E{ j } };
    eq(u, v, i == j);
    Sl copy(u); eq(copy, u, true); Sl moved(std::move(copy)); eq(moved, u, true); eq(copy, u, false); eq(copy, e, true);
    // lvalue and rvalue, const and non-const callables are the same kind
    E l{ i }; const E cl{ i };
    Sl fl{ l }, fcl{ cl };
    eq(fl, u, true); eq(fcl, u, true);
}
SCN(eq_members, "C15")
{
    O o1, o2; D d; const O co;
    Sl a{ &O::a, &o1 }, a2{ &O::a, &o1 }, b{ &O::b, &o1 }, c{ &O::a, &o2 }, k{ &O::c, &o1 };
    eq(a, a2, true); eq(a, b, false); eq(a, c, false); eq(a, k, false);
    O* p = &o1; Sl l{ &O::a, p }; eq(a, l, true);
    long i = vf_sym("i"), j = vf_sym("j");
    O v1; v1.k = i; O v2; v2.k = j;
    Sl va{ &O::a, v1 }, vb{ &O::a, v2 }, vc{ &O::b, v1 };
    eq(va, vb, i == j); eq(va, vc, false); eq(va, a, false);
    Sl f{ f1 }, e; eq(a, f, false); eq(a, e, false); eq(va, f, false);
    auto sp = std::make_shared<O>(); Sl t{ &O::a, sp }; eq(t, a, false); eq(t, e, false); eq(t, f, false);
    using G = sig::slot<long()>; G m1{ &O::k, &o1 }, m2{ &O::k, &o1 }, m3{ &O::k, &o2 };
    vf_assert(m1 == m2 && !(m1 == m3), "C15|pointers to data members do not compare equal exactly when they and their objects do");
}
// the same for slots without a result, and for tracked objects
namespace
{
    using Vl = sig::slot<void(int)>;
    void g1(int) {} void g2(int) {}
    struct VE { long k; void operator()(int) const {} bool operator==(const VE& o) const { return k == o.k; } };
    struct VE2 { long k; int operator()(int) const { return 0; } bool operator==(const VE2& o) const { return k == o.k; } };
    struct VO { long k = 0; void a(int) {} void b(int) {} int c(int) const { return 0; } bool operator==(const VO& o) const { return k == o.k; } };
    void eqv(const Vl& x, const Vl& y, bool e)
    {
        vf_assert((x == y) == e, "C15|slots do not compare equal exactly when they hold equal callables");
        vf_assert((y == x) == e, "C15|slot equality is not symmetric");
        vf_assert((x != y) == !e, "C15|slot inequality is not the negation of equality");
    }
}
SCN(eq_functions_void, "C15")
{
    Vl a{ g1 }, b{ &g1 }, c{ g2 }, e, e2; void (*p)(int) = g1; Vl d{ p };
    eqv(a, a, true); eqv(a, c, false); eqv(b, d, true); eqv(e, e2, true); eqv(e, a, false);
    Vl x{ VE{ 1 } }, y{ VE{ 1 } }, z{ VE{ 2 } }, w2{ VE2{ 1 } };
    eqv(x, y, true); eqv(x, z, false); eqv(x, w2, false); eqv(x, a, false); eqv(x, e, false);
    long i = vf_sym("i"), j = vf_sym("j");
    Vl u{ VE{ i } }, v{ VE{ j } };
    eqv(u, v, i == j);
    Vl copy(u); eqv(copy, u, true); Vl as; as = u; eqv(as, u, true); Vl moved(std::move(copy)); eqv(moved, u, true); eqv(copy, u, false); eqv(copy, e, true);
    VE l{ i }; const VE cl{ i }; Vl fl{ l }, fcl{ cl }; eqv(fl, u, true); eqv(fcl, u, true);
}
SCN(eq_members_void, "C15")
{
    VO o1, o2;
    Vl a{ &VO::a, &o1 }, a2{ &VO::a, &o1 }, b{ &VO::b, &o1 }, c{ &VO::a, &o2 }, k{ &VO::c, &o1 };
    eqv(a, a2, true); eqv(a, b, false); eqv(a, c, false); eqv(a, k, false); eqv(b, c, false);
    VO* p = &o1; Vl l{ &VO::a, p }; eqv(a, l, true);
    long i = vf_sym("i"), j = vf_sym("j");
    VO v1; v1.k = i; VO v2; v2.k = j;
    Vl va{ &VO::a, v1 }, vb{ &VO::a, v2 }, vc{ &VO::b, v1 };
    eqv(va, vb, i == j); eqv(va, vc, false); eqv(va, a, false);
    Vl f{ g1 }, e; eqv(a, f, false); eqv(a, e, false); eqv(va, f, false);
    Vl copy(a); eqv(copy, a, true); eqv(copy, c, false); Vl vcopy(va); eqv(vcopy, vb, i == j);
    auto sp = std::make_shared<VO>(); Vl t{ &VO::a, sp }; eqv(t, a, false); eqv(t, e, false); eqv(t, f, false);
}
// slots that track an object: never unequal to a slot with the same function and object, never equal to another
namespace
{
    template<class L> int tri(const L& x, const L& y)
    {
        int r = 2; try { r = x == y; } catch (const sig::not_comparable_exception&) {}
        int q = 2; try { q = y == x; } catch (const sig::not_comparable_exception&) {}
        int n = 2; try { n = x != y ? 0 : 1; } catch (const sig::not_comparable_exception&) {}
        vf_assert(r == q, "C15|slot equality is not symmetric"); vf_assert(r == n, "C15|slot inequality is not the negation of equality");
        return r;
    }
    template<class L, class Ob> void eqt()
    {
        auto s1 = std::make_shared<Ob>(), s2 = std::make_shared<Ob>(), s3 = s1; Ob raw;
        L a{ &Ob::a, s1 }, a2{ &Ob::a, s3 }, b{ &Ob::b, s1 }, c{ &Ob::a, s2 }, r{ &Ob::a, &raw }, e;
        vf_assert(tri(a, a2) != 0 && tri(a, a) != 0, "C15|slots tracking the same object are unequal");
        vf_assert(tri(a, b) != 1, "C15|slots with different member functions are equal");
        vf_assert(tri(a, c) != 1, "C15|slots tracking different objects are equal");
        vf_assert(tri(a, r) != 1 && tri(a, e) != 1, "C15|slots of different kinds are equal");
        L cp(a); vf_assert(tri(cp, a) != 0 && tri(cp, c) != 1, "C15|a copied tracked slot does not equal its source");
        s2 = nullptr; vf_assert(tri(a, c) != 1, "C15|slots tracking different objects are equal");
    }
}
SCN(eq_tracked, "C15") { eqt<Sl, O>(); }
SCN(eq_tracked_void, "C15") { eqt<Vl, VO>(); }
SCN(eq_notcomparable, "C15 C13")
{
    Sl a{ NC() }, b{ NC() }, f{ f1 }, e;
    vf_assert(throws_nc([&] { (void)(a == b); }), "C15|comparing callables without equality does not throw not_comparable_exception");
    vf_assert(throws_nc([&] { (void)(a != b); }), "C15|comparing callables without equality does not throw not_comparable_exception");
    vf_assert(throws_nc([&] { (void)(a == a); }), "C15|comparing callables without equality does not throw not_comparable_exception");
    eq(a, f, false); eq(a, e, false);
    Sl o1{ &NO::a, NO() }, o2{ &NO::a, NO() };
    vf_assert(throws_nc([&] { (void)(o1 == o2); }), "C15|comparing objects without equality does not throw not_comparable_exception");
    auto sp = std::make_shared<O>();
    Sl t1{ &O::a, sp }, t2{ &O::a, sp };
    bool nc = throws_nc([&] { vf_assert(t1 == t2, "C15|slots tracking the same object are unequal"); });
    (void)nc;
}
// removal: arbitrary lists over several kinds of slots, including duplicates; exactly the equal ones go
namespace
{
    unsigned cnt[6]; unsigned got[6];
    struct K { unsigned k; int operator()(int) const { ++got[k]; return 0; } bool operator==(const K& o) const { return k == o.k; } };
    struct KO { unsigned k; int a(int) { ++got[k]; return 0; } int b(int) { ++got[k + 1]; return 0; } bool operator==(const KO& o) const { return k == o.k; } };
    KO ko{ 2 }, ko2{ 4 };
    void add(S& s, unsigned k)
    {
        switch (k)
        {
        case 0: case 1: s.connect(K{ k }); break;
        case 2: s.connect(&KO::a, &ko); break;
        case 3: s.connect(&KO::b, &ko); break;
        case 4: s.connect(&KO::a, &ko2); break;
        case 5: s.connect(&KO::b, KO{ 4 }); break;
        }
        ++cnt[k];
    }
    std::size_t del(S& s, unsigned k)
    {
        switch (k)
        {
        case 0: case 1: { if (vf_nd(2)) return s.disconnect(K{ k }); K l{ k }; const K& c = l; return vf_nd(2) ? s.disconnect(l) : s.disconnect(c); }
        case 2: return s.disconnect(&KO::a, &ko);
        case 3: { if (vf_nd(2)) return s.disconnect(&KO::b, &ko); Sl x{ &KO::b, &ko }; return s.disconnect(x); }
        case 4: return s.disconnect(&KO::a, &ko2);
        case 5: { KO v{ 4 }; return vf_nd(2) ? s.disconnect(&KO::b, v) : s.disconnect(&KO::b, KO{ 4 }); }
        }
        return 0;
    }
    void verify(S& s)
    {
        for (auto& g : got) g = 0;
        s(1);
        for (unsigned k = 0; k < 6; ++k) vf_assert(got[k] == cnt[k], "C15 C03 C01|disconnect by callable does not remove exactly the matching slots");
    }
}
template<unsigned m> void remove_kinds()
{
    S s;
    unsigned base = vf_nd(2) ? 0 : 2;
    while (vf_more()) add(s, base + vf_nd(m));
    verify(s);
    unsigned k = base + vf_nd(m);
    std::size_t r = del(s, k);
    vf_assert(r == cnt[k], "C15|disconnect by callable does not return how many slots were removed");
    cnt[k] = 0;
    verify(s);
    vf_assert(del(s, k) == 0, "C15|a slot is removed twice");
    add(s, k); verify(s);
    unsigned k2 = base + vf_nd(m);
    r = del(s, k2);
    vf_assert(r == cnt[k2], "C15|disconnect by callable does not return how many slots were removed");
    cnt[k2] = 0;
    verify(s);
}
SCN(eq_remove, "C15 C03 C01|abs=0 more=2 fix=0") { remove_kinds<4>(); }
// the same for slots without a result
namespace
{
    using T0 = sig::signal<void(int)>;
    struct VK { unsigned k; void operator()(int) const { ++got[k]; } bool operator==(const VK& o) const { return k == o.k; } };
    struct VKO { unsigned k; void a(int) { ++got[k]; } void b(int) const { ++got[k + 1]; } bool operator==(const VKO& o) const { return k == o.k; } };
    VKO vo{ 2 }, vo2{ 4 };
    void addv(T0& s, unsigned k)
    {
        switch (k)
        {
        case 0: case 1: s.connect(VK{ k }); break;
        case 2: s.connect(&VKO::a, &vo); break;
        case 3: s.connect(&VKO::b, &vo); break;
        case 4: s.connect(&VKO::a, &vo2); break;
        case 5: s.connect(&VKO::b, VKO{ 4 }); break;
        }
        ++cnt[k];
    }
    std::size_t delv(T0& s, unsigned k)
    {
        switch (k)
        {
        case 0: case 1: { VK l{ k }; return vf_nd(2) ? s.disconnect(l) : s.disconnect(VK{ k }); }
        case 2: return s.disconnect(&VKO::a, &vo);
        case 3: return s.disconnect(&VKO::b, &vo);
        case 4: return s.disconnect(&VKO::a, &vo2);
        case 5: return s.disconnect(&VKO::b, VKO{ 4 });
        }
        return 0;
    }
    void verifyv(T0& s)
    {
        for (auto& g : got) g = 0;
        s(1);
        for (unsigned k = 0; k < 6; ++k) vf_assert(got[k] == cnt[k], "C15 C03 C01|disconnect by callable does not remove exactly the matching slots");
    }
}
SCN(eq_remove_void, "C15 C03 C01|abs=0 more=3 fix=0")
{
    T0 s;
    unsigned base = vf_nd(2) ? 0 : 2;
    while (vf_more()) addv(s, base + vf_nd(4));
    verifyv(s);
    unsigned k = base + vf_nd(4);
    std::size_t r = delv(s, k);
    vf_assert(r == cnt[k], "C15|disconnect by callable does not return how many slots were removed");
    cnt[k] = 0;
    verifyv(s);
    addv(s, k); verifyv(s);
}
SCN(eq_remove2, "C15 C03 C01|abs=0 more=6")
{
    S s;
    while (vf_more()) add(s, vf_nd(2));
    std::size_t r = s.disconnect(K{ 0 });
    vf_assert(r == cnt[0], "C15|disconnect by callable does not return how many slots were removed");
    cnt[0] = 0; verify(s);
    r = s.disconnect(K{ 1 }); vf_assert(r == cnt[1], "C15|disconnect by callable does not return how many slots were removed"); cnt[1] = 0; verify(s);
}
// empty slots and moved-from signals
SCN(eq_empty, "C15 C20 C19")
{
    S s; s.connect(K{ 0 }); cnt[0] = 1;
    Sl e; vf_assert(s.disconnect(e) == 0, "C15 C20|disconnecting an empty slot removes something"); verify(s);
    S t(std::move(s)); vf_assert(s.disconnect(K{ 0 }) == 0, "C19 C15|a moved-from signal still has slots"); verify(t);
    vf_assert(t.disconnect(K{ 0 }) == 1, "C15|disconnect by callable does not return how many slots were removed"); cnt[0] = 0; verify(t);
}
