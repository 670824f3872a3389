// Copy-on-write pointers (C10): every history of operations on three pointers.
#include "lib.hpp"
using namespace w;
using sig::detail::cow_ptr;
namespace
{
    long alive, copies;
    struct V { long k; unsigned magic = 0xc0; explicit V(long x) : k(x) { ++alive; } V(const V& o) : k(o.k) { o.use(); ++alive; ++copies; } V& operator=(const V& o) { use(); o.use(); k = o.k; return *this; } bool operator==(const V& o) const { return k == o.k; } bool operator!=(const V& o) const { return k != o.k; } ~V() { use(); magic = 0; --alive; } void use() const { vf_assert(magic == 0xc0, "C10 C23|a shared object is used after or destroyed twice"); } };
    using C = cow_ptr<V>;
    C* p[3]; long val[3]; unsigned grp[3];       // expected value and sharing class (0: null)
    unsigned fresh() { return 4; }               // canon() follows every use
    unsigned sharers(unsigned i) { unsigned n = 0; for (auto g : grp) n += g == grp[i]; return n; }
    void check()
    {
        long objs = 0;
        for (unsigned i = 0; i < 3; ++i)
        {
            const C& c = *p[i];
            vf_assert(bool(c) == (grp[i] != 0), "C10|a pointer is not null exactly when it should be");
            if (!grp[i]) continue;
            c->use();
            vf_assert(c.read().k == val[i] && (*c).k == val[i] && c->k == val[i] && c.data()->k == val[i], "C10|a write through one copy shows through another");
            bool first = true;
            for (unsigned j = 0; j < 3; ++j)
            {
                const C& d = *p[j];
                if (j < i && grp[j] == grp[i]) first = false;
                if (grp[j]) vf_assert((c.data() == d.data()) == (grp[i] == grp[j]), "C10|copies that are only read do not share one object (or written ones do)");
                vf_assert((c == d) == (grp[i] == grp[j]) && (c != d) == (grp[i] != grp[j]), "C10|comparison of pointers is wrong");
            }
            objs += first;
        }
        vf_assert(alive == objs, "C10 C23|a shared object is not destroyed exactly with its last owner");
    }
    void wrote(unsigned i, long x) { if (sharers(i) > 1) { grp[i] = 0; grp[i] = fresh(); } val[i] = x; }
    void canon()                                  // renumber the sharing classes
    {
        unsigned m[5] = { 0, 0, 0, 0, 0 }, n = 0;
        for (auto& g : grp) { if (g && !m[g]) m[g] = ++n; g = m[g]; }
        for (unsigned i = 0; i < 3; ++i) if (!grp[i]) val[i] = 0;
    }
}
SCN(cow_hist, "C10 C23")
{
    for (auto& x : p) x = new C();
    while (vf_more())
    {
        unsigned i = vf_nd(3), j = (i + 1 + vf_nd(2)) % 3;
        unsigned before = sharers(i); (void)before;
        const V* addr = static_cast<const C&>(*p[i]).data();
        bool sole = grp[i] && sharers(i) == 1;
        long x = 1 + vf_nd(2);
        copies = 0;
        switch (vf_nd(11))
        {
        case 0: *p[i] = C(new V(x)); grp[i] = 0; grp[i] = fresh(); val[i] = x; break;
        case 1: *p[i] = *p[j]; grp[i] = grp[j]; val[i] = val[j]; break;
        case 2: *p[i] = std::move(*p[j]); grp[i] = grp[j]; val[i] = val[j]; grp[j] = 0; break;
        case 3: delete p[i]; p[i] = new C(*p[j]); grp[i] = grp[j]; val[i] = val[j]; break;
        case 4: delete p[i]; p[i] = new C(std::move(*p[j])); grp[i] = grp[j]; val[i] = val[j]; grp[j] = 0; break;
        case 5: if (grp[i]) { bool s = sole; p[i]->write().k = x; if (s) vf_assert(static_cast<const C&>(*p[i]).data() == addr && copies == 0, "C10|writing through a sole owner copies the object"); else vf_assert(copies == 1, "C10|writing through a copy does not copy the object exactly once"); wrote(i, x); } break;
        case 6: if (grp[i]) { (**p[i]).k = x; wrote(i, x); } break;
        case 7: if (grp[i]) { (*p[i])->k = x; wrote(i, x); } break;
        case 8: if (grp[i]) { p[i]->data()->k = x; wrote(i, x); } break;
        case 9: *p[i] = new V(x); grp[i] = 0; grp[i] = fresh(); val[i] = x; break;
        case 10: { C& r = *p[i]; *p[i] = r; break; }
        }
        copies = 0;
        canon();
        check();
    }
    for (auto& x : p) delete x;
    vf_assert(alive == 0, "C10 C23|a shared object is leaked");
}
// writing fails when memory runs out: nothing changes
SCN(cow_oom, "C10 C13 C23")
{
    {
        auto a = sig::detail::make_cow<V>(7); C b(a);
        vf_oom(1); bool ok = true;
        try { b.write().k = 8; } catch (const std::bad_alloc&) { ok = false; }
        vf_oom(0);
        const C &ca = a, &cb = b;
        vf_assert(ca->k == 7, "C10|a write through one copy shows through another");
        vf_assert(ok ? cb->k == 8 : cb->k == 7, "C10 C13|a failed write leaves a broken pointer");
        vf_assert(alive == (ok ? 2 : 1), "C10 C13 C23|a failed write leaks");
    }
    vf_assert(alive == 0, "C10 C23|a shared object is leaked");
}
// constant access gives no way to write, conversions and construction helpers
namespace
{
    template<class T> constexpr bool ro() { return std::is_const<typename std::remove_pointer<typename std::remove_reference<T>::type>::type>::value; }
    struct IL { long sum = 0, n = 0; IL(std::initializer_list<long> l) { for (long x : l) { sum += x; ++n; } } IL(std::initializer_list<long> l, long k) : IL(l) { sum += k; } IL(long a, long b) : sum(a - b), n(-1) {} };
    struct Ar { long a = 5; long* p = nullptr; };
}
SCN(cow_access, "C10 C23")
{
    {
        const C c(new V(4)); const C d(c); C e(c);
        vf_assert(ro<decltype(*c)>() && ro<decltype(c.operator->())>() && ro<decltype(c.data())>() && ro<decltype(c.read())>() && ro<decltype(e.read())>(), "C10|a constant or reading access gives a writable object");
        vf_assert((!std::is_convertible<const C&, V*>::value), "C10|a constant pointer converts to a writable object");
        const V* pc = c; const V* pd = d;
        vf_assert(pc && pc == pd && pc == c.data() && pc == &*c && pc == c.operator->() && pc == &c.read(), "C10|the accessors of one pointer give different objects");
        vf_assert(&e.read() == pc && alive == 1, "C10|reading copies the object");
        V* pe = e;                                  // a writable object: no longer shared
        vf_assert(pe && pe != pc && alive == 2, "C10|a write through one copy shows through another");
        pe->k = 9;
        vf_assert(c->k == 4 && d->k == 4 && e.read().k == 9 && pe == static_cast<V*>(e) && pe == &e.write() && pe == &*e && pe == e.data() && pe == e.operator->(), "C10|a write through one copy shows through another, or a sole owner copies");
        V& r = *e; r.k = 10; C f(e);
        vf_assert(f.read().k == 10 && &f.read() == &e.read(), "C10|copies that are only read do not share one object");
        f->k = 11; vf_assert(e.read().k == 10, "C10|a write through one copy shows through another");
        e = c; vf_assert(e.read().k == 4 && &e.read() == pc && alive == 2, "C10|assignment does not share the object of the other pointer");
        vf_assert(c == d && !(c != d) && c == e && c != f && !(c == f), "C10|comparison of pointers is wrong");
        C n, m(n); const C& cn = n;
        vf_assert(!n && !m && cn == m && cn != c && cn.data() == nullptr && static_cast<const V*>(cn) == nullptr && n.data() == nullptr && static_cast<V*>(n) == nullptr, "C10|an empty pointer gives an object");
        n = std::move(f); vf_assert(n.read().k == 11 && !f, "C10|moving does not transfer the object");
        n = nullptr; vf_assert(!n && alive == 1, "C10 C23|assigning a null pointer does not release the object");
        f = C(n); vf_assert(!f, "C10|a copy of an empty pointer is not empty");
    }
    vf_assert(alive == 0, "C10 C23|a shared object is leaked");
    {
        auto a = sig::detail::make_cow<IL>({ 1L, 2L, 3L }); auto b = sig::detail::make_cow<IL>({ 1L, 2L }, 10L); auto c = sig::detail::make_cow<IL>(7L, 2L); auto d = sig::detail::make_cow<Ar>();
        vf_assert(a.read().sum == 6 && a.read().n == 3 && b.read().sum == 13 && b.read().n == 2 && c.read().sum == 5 && c.read().n == -1 && d.read().a == 5 && !d.read().p, "C10|an object is not built from the given arguments");
        auto e = d; e.write().p = &e.write().a; vf_assert(!d.read().p && d.read().a == 5, "C10|a write through one copy shows through another");
    }
}
