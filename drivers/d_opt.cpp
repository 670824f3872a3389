// optional: construction, destruction, values, comparison (C17, C18): every history of operations on optionals.
#include "lib.hpp"
using namespace w;
namespace
{
    long alive, budget = -1; bool thrown;                 // live values; >= 0: the operation that fails
    struct Boom {};
    void may_throw() { if (budget >= 0 && budget-- == 0) { thrown = true; throw Boom(); } }
    enum { GONE = -1, NONE = -2 };                        // moved-from value, disengaged
    struct U2 { long k; };
    struct V
    {
        long k; unsigned magic;
        void ok() const { vf_assert(magic == 0xface, "C17 C18 C23|a value is used that is not alive"); }
        void born(long x) { k = 0; magic = 0; may_throw(); k = x; magic = 0xface; ++alive; }
        V(long x) { born(x); }
        V(long x, long y) { born(x + y); }
        V(const U2& u) { born(u.k); }
        V(std::initializer_list<long> l) { born(*l.begin()); }
        V(const V& o) { o.ok(); born(o.k); }
        V(V&& o) { o.ok(); born(o.k); o.k = GONE; }
        V& operator=(const V& o) { ok(); o.ok(); may_throw(); k = o.k; return *this; }
        V& operator=(V&& o) { ok(); o.ok(); may_throw(); if (this != &o) { k = o.k; o.k = GONE; } return *this; }
        ~V() { vf_assert(magic == 0xface, "C17 C23|a value is destroyed twice or was never constructed"); magic = 0; k = 0; --alive; }
        bool operator==(const V& o) const { ok(); o.ok(); return k == o.k; }
        bool operator!=(const V& o) const { ok(); o.ok(); return k != o.k; }
        bool operator<(const V& o) const { ok(); o.ok(); return k < o.k; }
        bool operator>(const V& o) const { ok(); o.ok(); return k > o.k; }
        bool operator<=(const V& o) const { ok(); o.ok(); return k <= o.k; }
        bool operator>=(const V& o) const { ok(); o.ok(); return k >= o.k; }
    };
    using O = opt::optional<V>;
    long key(const V& v) { v.ok(); return v.k; }
    long key(long v) { return v; }
    // the state of an optional through every accessor
    template<class T> long see(opt::optional<T>& o)
    {
        const opt::optional<T>& c = o;
        bool e = o.has_value();
        vf_assert(bool(o) == e && bool(c) == e && o.is_initialized() == e && c.has_value() == e, "C18|the accessors disagree on whether there is a value");
        vf_assert((o.get_ptr() != nullptr) == e && (c.get_ptr() != nullptr) == e, "C18|get_ptr() is not null exactly when there is no value");
        vf_assert((opt::get_pointer(o) != nullptr) == e && opt::get_pointer(c) == c.get_ptr() && opt::get(&o) == o.get_ptr() && opt::get(&c) == c.get_ptr(), "C18|get_pointer() is not the address of the value");
        vf_assert((o == opt::nullopt) == !e && (opt::nullopt == o) == !e && (o != opt::nullopt) == e && (opt::nullopt != o) == e, "C18|comparison with nullopt");
        vf_assert(!(o < opt::nullopt) && (opt::nullopt < o) == e && (o <= opt::nullopt) == !e && (opt::nullopt <= o), "C18|comparison with nullopt");
        vf_assert((o > opt::nullopt) == e && !(opt::nullopt > o) && (o >= opt::nullopt) && (opt::nullopt >= o) == !e, "C18|comparison with nullopt");
        if (!e)
        {
            bool t = false, u = false, v = false;
            try { (void)o.value(); } catch (const opt::bad_optional_access&) { t = true; }
            try { (void)c.value(); } catch (const opt::bad_optional_access&) { u = true; }
            try { (void)std::move(o).value(); } catch (const opt::bad_optional_access&) { v = true; }
            vf_assert(t && u && v, "C18|value() of a disengaged optional does not throw");
            return NONE;
        }
        long k = key(*o);
        vf_assert(&*o == &*c && &o.value() == &*o && &c.value() == &*o && &o.get() == &*o && &c.get() == &*o && o.get_ptr() == &*o && c.get_ptr() == &*o, "C18|the accessors do not all give the value");
        vf_assert(&opt::get(o) == &*o && &opt::get(c) == &*o && o.operator->() == &*o && c.operator->() == &*o, "C18|the accessors do not all give the value");
        auto&& r = *std::move(o); auto&& s = std::move(o).value();
        vf_assert(&r == &*c && &s == &*c, "C18|the accessors do not all give the value");
        return k;
    }
    O* o[2]; long st[2];
    template<class F> void op(F f)      // run an operation any of whose steps on the value type may throw
    {
        budget = vf_nd(2) ? (long)vf_nd(4) : -1; thrown = false;
        bool ex = false;
        try { f(); } catch (const Boom&) { ex = true; }
        vf_assert(ex == thrown, "C17|an exception of the value type does not reach the caller");
        budget = -1;
    }
    long n;
    void settle1(O& a, long& t)
    {
        long k = a.has_value() ? key(*a) : (long)NONE;
        if (!thrown) vf_assert(k == t, "C17 C18|an optional does not hold the value it was given");
        else vf_assert(k == NONE || k == GONE || (k >= 1 && k <= 3), "C17|an optional holds garbage after an exception");
        t = k; n += k != NONE;
    }
    void settle()
    {
        n = 0; settle1(*o[0], st[0]); settle1(*o[1], st[1]);
        vf_assert(alive == n, "C17 C23|values are not constructed and destroyed exactly once");
        thrown = false; n = 0;
    }
}
SCN(opt_hist, "C17 C18 C23")
{
    o[0] = new O(); o[1] = new O();
    st[0] = st[1] = NONE;
    while (vf_more())
    {
        unsigned i = vf_nd(2), j = 1 - i;
        long x = 1 + vf_nd(2);
        O &a = *o[i], &b = *o[j];
        switch (vf_nd(19))
        {
        case 18: vf_assert(see(a) == st[i], "C18|the accessors do not all give the value"); break;
        case 0: op([&] { V v(x); a = v; }); st[i] = x; break;
        case 1: op([&] { a = V(x); }); st[i] = x; break;
        case 2: op([&] { a = b; }); st[i] = st[j]; break;
        case 3: op([&] { a = std::move(b); }); st[i] = st[j]; if (st[j] != NONE) st[j] = GONE; break;
        case 4: op([&] { a = opt::nullopt; }); st[i] = NONE; break;
        case 5: op([&] { a.reset(); }); st[i] = NONE; break;
        case 6: op([&] { a.emplace(x); }); st[i] = x; break;
        case 7: op([&] { a.emplace(x - 1, 1); }); st[i] = x; break;
        case 8: op([&] { a.emplace({ x }); }); st[i] = x; break;
        case 9: op([&] { a.swap(b); }); { long t = st[0]; st[0] = st[1]; st[1] = t; } break;
        case 10: op([&] { using std::swap; swap(a, b); }); { long t = st[0]; st[0] = st[1]; st[1] = t; } break;
        case 11: { opt::optional<U2> u(U2{ x }); op([&] { a = u; }); st[i] = x; } break;
        case 12: { opt::optional<U2> u(U2{ x }); op([&] { a = std::move(u); }); st[i] = x; } break;
        case 13: { opt::optional<U2> u; if (vf_nd(2)) op([&] { a = u; }); else op([&] { a = std::move(u); }); st[i] = NONE; } break;
        case 14: op([&] { O& r = a; a = r; }); break;
        case 15: op([&] { O t(b); a = t; }); st[i] = st[j]; break;
        case 16: op([&] { O t(std::move(b)); a = std::move(t); }); st[i] = st[j]; if (st[j] != NONE) st[j] = GONE; break;
        case 17: op([&] { O& r = a; a = std::move(r); }); break;
        }
        settle();
    }
    delete o[0]; delete o[1];
    vf_assert(alive == 0, "C17 C23|a value is leaked");
}
// every way to construct one
SCN(opt_ctor, "C17 C18 C23")
{
    long want = NONE; O* p = nullptr; bool cond = vf_nd(2);
    unsigned w = vf_nd(20); V* v = nullptr; O* s = nullptr; opt::optional<U2>* u = nullptr;
    if (w == 2 || w == 3) v = new V(2);
    if (w == 6 || w == 7) { s = cond ? new O(V(3)) : new O(); }
    if (w == 8 || w == 9) { u = cond ? new opt::optional<U2>(U2{ 3 }) : new opt::optional<U2>(); }
    op([&] {
        switch (w)
        {
        case 0: p = new O(); break;
        case 1: p = new O(opt::nullopt); break;
        case 2: p = new O(*v); want = 2; break;
        case 3: p = new O(std::move(*v)); want = 2; break;
        case 4: p = new O(cond, V(3)); want = cond ? 3 : NONE; break;
        case 5: p = new O(opt::in_place, 1L, 1L); want = 2; break;
        case 6: p = new O(*s); want = cond ? 3 : NONE; break;
        case 7: p = new O(std::move(*s)); want = cond ? 3 : NONE; break;
        case 8: p = new O(*u); want = cond ? 3 : NONE; break;
        case 9: p = new O(std::move(*u)); want = cond ? 3 : NONE; break;
        case 10: p = new O(opt::in_place_if, cond, 1L, 2L); want = cond ? 3 : NONE; break;
        case 11: p = new O(opt::in_place, { 2L }); want = 2; break;
        case 12: p = new O(opt::in_place_if, cond, { 2L }); want = cond ? 2 : NONE; break;
        case 13: p = new O(opt::make_optional(V(3))); want = 3; break;
        case 14: p = new O(opt::make_optional(cond, V(3))); want = cond ? 3 : NONE; break;
        case 15: p = new O(opt::make_optional<V>(1L, 1L)); want = 2; break;
        case 16: p = new O(opt::make_optional<V>(2L)); want = 2; break;
        case 17: p = new O(opt::make_optional<V>(cond, 1L, 2L)); want = cond ? 3 : NONE; break;
        case 18: { const V cv(2); p = new O(opt::make_optional(cv)); want = 2; } break;
        case 19: { V lv(2); p = new O(opt::make_optional(cond, lv)); want = cond ? 2 : NONE; vf_assert(lv.k == 2, "C17|copying changes the source"); } break;
        }
    });
    if (p) { vf_assert(see(*p) == want, "C17 C18|a constructed optional does not hold the value it was given"); if (s && cond) vf_assert(key(**s) == (w == 7 ? (long)GONE : 3L), "C17|copying changes the source, or moving does not"); }
    delete p; delete v; delete s; delete u;
    vf_assert(alive == 0, "C17 C23|a value is leaked");
}
// value_or and the like
SCN(opt_value_or, "C18 C17 C23")
{
    {
        bool e = vf_nd(2);
        O a; const O& c = a; if (e) a = V(1);
        V d(2); const V& cd = d;
        vf_assert(c.value_or(d).k == (e ? 1 : 2) && d.k == 2, "C18|value_or() does not give the value or else the fallback");
        vf_assert(a.value_or(V(3)).k == (e ? 1 : 3), "C18|value_or() does not give the value or else the fallback");
        vf_assert(a.value_or(3L).k == (e ? 1 : 3), "C18|value_or() does not give the value or else the fallback");
        vf_assert(&a.get_value_or(d) == (e ? &*a : &d) && &c.get_value_or(cd) == (e ? &*a : &d), "C18|get_value_or() does not give the value or else the fallback");
        vf_assert(&opt::get_optional_value_or(a, d) == (e ? &*a : &d) && &opt::get_optional_value_or(c, cd) == (e ? &*a : &d), "C18|get_optional_value_or() does not give the value or else the fallback");
        vf_assert(e == a.has_value() && (!e || a->k == 1), "C18|value_or() changes the optional");
        V m = std::move(a).value_or(V(3)); vf_assert(m.k == (e ? 1 : 3), "C18|value_or() does not give the value or else the fallback");
        if (e) { vf_assert(a->k == GONE, "C18|value_or() of a temporary copies"); *a = V(2); V q = *std::move(a); vf_assert(q.k == 2 && a->k == GONE, "C18|the value of a temporary is not moved"); a->k = 3; V z = std::move(a).value(); vf_assert(z.k == 3 && a->k == GONE, "C18|the value of a temporary is not moved"); (*a).k = 1; vf_assert(c->k == 1 && a.value().k == 1 && a.get().k == 1, "C18|a write through the optional is lost"); }
    }
    vf_assert(alive == 0, "C17 C23|a value is leaked");
}
// comparisons: every combination of engaged, disengaged, smaller, equal and larger
namespace
{
    template<class OX> long rank(const OX& x) { return x ? (long)key(*x) : (long)NONE; }
    template<class A, class B> void ord(const A& x, const B& y, long p, long q, const char*)
    {
        vf_assert((x == y) == (p == q), "C18|== is wrong"); vf_assert((x != y) == (p != q), "C18|!= is wrong");
        vf_assert((x < y) == (p < q), "C18|< is wrong"); vf_assert((x > y) == (p > q), "C18|> is wrong");
        vf_assert((x <= y) == (p <= q), "C18|<= is wrong"); vf_assert((x >= y) == (p >= q), "C18|>= is wrong");
    }
    template<class T> void cmp()
    {
        opt::optional<T> x, y; long p = vf_nd(2) ? (long)NONE : (long)vf_nd(3), q = vf_nd(2) ? (long)NONE : (long)vf_nd(3);
        if (p != NONE) x = T(p);
        if (q != NONE) y = T(q);
        ord(x, y, p, q, ""); ord(y, x, q, p, "");
        long r = vf_nd(3); T v(r);
        ord(x, v, p, r, ""); ord(v, x, r, p, "");
    }
    template<class T, class RT> void cmpref()
    {
        T a(long(vf_nd(3))), b(long(vf_nd(3))); long pa = key(a), pb = key(b);
        bool ea = vf_nd(2), eb = vf_nd(2);
        opt::optional<RT&> x, y; if (ea) x.emplace(a); if (eb) y.emplace(b);
        long p = ea ? pa : (long)NONE, q = eb ? pb : (long)NONE;
        ord(x, y, p, q, ""); ord(y, x, q, p, "");
        const T& cb = b; ord(x, cb, p, pb, ""); ord(cb, x, pb, p, "");
        vf_assert((x == opt::nullopt) == !ea && (opt::nullopt == x) == !ea && (x != opt::nullopt) == ea && (opt::nullopt != x) == ea, "C18|comparison with nullopt");
        vf_assert(!(x < opt::nullopt) && (opt::nullopt < x) == ea && (x <= opt::nullopt) == !ea && (opt::nullopt <= x) && (x > opt::nullopt) == ea && !(opt::nullopt > x) && (x >= opt::nullopt) && (opt::nullopt >= x) == !ea, "C18|comparison with nullopt");
    }
}
SCN(opt_cmp_class, "C18 C17") { cmp<V>(); vf_assert(alive == 0, "C17|a value is leaked"); }
SCN(opt_cmp_scalar, "C18") { cmp<long>(); }
SCN(opt_cmp_ref, "C18") { cmpref<V, V>(); }
SCN(opt_cmp_refl, "C18") { cmpref<long, long>(); }
// a reference to const: against another optional only through the const T& overloads
SCN(opt_cmp_cref, "C18")
{
    V a(long(vf_nd(3))), b(long(vf_nd(3))); bool ea = vf_nd(2), eb = vf_nd(2);
    opt::optional<const V&> x, y; const V &ca = a, &cb = b; if (ea) x = opt::optional<const V&>(ca); if (eb) y = opt::optional<const V&>(cb);
    long p = ea ? a.k : (long)NONE, q = eb ? b.k : (long)NONE;
    ord(x, y, p, q, "");
    ord(x, cb, p, b.k, ""); ord(cb, x, b.k, p, "");
}
SCN(opt_cmp_crefl, "C18")
{
    long a = vf_nd(3), b = vf_nd(3); bool ea = vf_nd(2), eb = vf_nd(2);
    opt::optional<const long&> x, y; const long &ca = a, &cb = b; if (ea) x.emplace(ca); if (eb) y.emplace(cb);
    long p = ea ? a : (long)NONE, q = eb ? b : (long)NONE;
    ord(x, y, p, q, "");
    ord(x, cb, p, b, ""); ord(cb, x, b, p, "");
    vf_assert((x == opt::nullopt) == !ea && (opt::nullopt != x) == ea, "C18|comparison with nullopt");
}
// scalars
SCN(opt_scalar_hist, "C18 C17")
{
    using S = opt::optional<long>;
    S* q[2] = { new S(), new S() }; long t[2] = { NONE, NONE };
    while (vf_more())
    {
        unsigned i = vf_nd(2), j = 1 - i; long x = 1 + vf_nd(2); S &a = *q[i], &b = *q[j];
        bool full = false;
        switch (vf_nd(18))
        {
        case 17: full = true; break;
        case 0: a = x; t[i] = x; break;
        case 1: a = b; t[i] = t[j]; break;
        case 2: a = std::move(b); t[i] = t[j]; break;
        case 3: a = opt::nullopt; t[i] = NONE; break;
        case 4: a.reset(); t[i] = NONE; break;
        case 5: a.emplace(x); t[i] = x; break;
        case 6: a.swap(b); { long u = t[0]; t[0] = t[1]; t[1] = u; } break;
        case 7: { using std::swap; swap(a, b); long u = t[0]; t[0] = t[1]; t[1] = u; } break;
        case 8: { opt::optional<int> u; if (vf_nd(2)) u = int(x); a = u; t[i] = u ? x : (long)NONE; } break;
        case 9: { opt::optional<int> u; if (vf_nd(2)) u = int(x); a = std::move(u); t[i] = u ? x : (long)NONE; } break;
        case 10: delete q[i]; q[i] = new S(x); t[i] = x; break;
        case 11: delete q[i]; q[i] = new S(b); t[i] = t[j]; break;
        case 12: delete q[i]; q[i] = new S(std::move(b)); t[i] = t[j]; break;
        case 13: delete q[i]; q[i] = new S(opt::in_place, x); t[i] = x; break;
        case 14: { bool c = vf_nd(2); delete q[i]; q[i] = new S(opt::in_place_if, c, x); t[i] = c ? x : (long)NONE; } break;
        case 15: { bool c = vf_nd(2); delete q[i]; q[i] = new S(c, 3L - x); t[i] = c ? 3 - x : (long)NONE; } break;
        case 16: { delete q[i]; opt::optional<int> u; if (vf_nd(2)) u = int(x); q[i] = vf_nd(2) ? new S(u) : new S(std::move(u)); t[i] = u ? x : (long)NONE; } break;
        }
        auto look = [&](S& z, long k) {
            vf_assert((z ? *z : (long)NONE) == k, "C18 C17|an optional does not hold the value it was given");
            if (!full) return;
            vf_assert(see(z) == k, "C18 C17|an optional does not hold the value it was given");
            vf_assert(z.value_or(9) == (k == NONE ? 9 : k) && std::move(z).value_or(9) == (k == NONE ? 9 : k), "C18|value_or() does not give the value or else the fallback");
        };
        look(*q[0], t[0]); look(*q[1], t[1]);
    }
    delete q[0]; delete q[1];
}
SCN(opt_scalar_sym, "C18")
{
    long a = vf_sym("a"), b = vf_sym("b");
    opt::optional<long> x(a), y; y = b;
    vf_assert(*x == a && y.value() == b && x.value_or(b) == a && x.get() == a && *x.get_ptr() == a, "C18|a scalar is altered by storing it");
    x.swap(y); vf_assert(*x == b && *y == a, "C18|swap alters a scalar");
    y.reset(); vf_assert(y.value_or(b) == b && !y, "C18|value_or() alters the fallback");
    *x = a; y = std::move(x); vf_assert(*y == a, "C18|a scalar is altered by moving it");
    const void* p = &a; opt::optional<const void*> z(p); vf_assert(z.value() == p && *z == p, "C18|a pointer is altered by storing it");
    opt::optional<bool> f(false), t(true), n; vf_assert(f.has_value() && !*f && t.has_value() && *t && !n && f != t && n < f && f < t && f.value_or(true) == false && n.value_or(true), "C18|an optional bool confuses its value with having one");
}
// references
SCN(opt_ref_hist, "C18 C17")
{
    using S = opt::optional<V&>;
    {
        V u(1), v(2); S q[2]; V* t[2] = { nullptr, nullptr };
        while (vf_more())
        {
            unsigned i = vf_nd(2), j = 1 - i; V& x = vf_nd(2) ? u : v; S &a = q[i], &b = q[j];
            switch (vf_nd(9))
            {
            case 0: a = S(x); t[i] = &x; break;
            case 1: a = b; t[i] = t[j]; break;
            case 2: a = std::move(b); t[i] = t[j]; t[j] = b ? &*b : nullptr; vf_assert(!t[j] || t[j] == t[i], "C18|moving an optional reference alters it"); break;
            case 3: a = opt::nullopt; t[i] = nullptr; break;
            case 4: a.reset(); t[i] = nullptr; break;
            case 5: a.emplace(x); t[i] = &x; break;
            case 6: a.swap(b); { V* k = t[0]; t[0] = t[1]; t[1] = k; } break;
            case 7: { S z(opt::in_place, x); S y(z); a = y; t[i] = &x; } break;
            case 8: { auto z = opt::make_optional(std::ref(x)); const S& y = z; a = y; t[i] = &x; } break;
            }
            for (unsigned k = 0; k < 2; ++k)
            {
                const S& c = q[k]; bool e = t[k] != nullptr;
                vf_assert(bool(c) == e && c.has_value() == e, "C18|an optional reference does not report whether it is bound");
                V d(9); vf_assert(c.value_or(d).k == (e ? t[k]->k : 9), "C18|value_or() does not give the value or else the fallback");
                if (e) vf_assert(&*c == t[k] && &c.value() == t[k] && c.operator->() == t[k], "C18|an optional reference is not bound to the object it was given");
                else { bool th = false; try { (void)c.value(); } catch (const opt::bad_optional_access&) { th = true; } vf_assert(th, "C18|value() of a disengaged optional does not throw"); }
            }
            vf_assert(u.k == 1 && v.k == 2 && alive == 2, "C18 C17|an assignment to an optional reference writes through it");
        }
    }
    vf_assert(alive == 0, "C17 C23|a value is leaked");
}
SCN(opt_void, "C18 C16")
{
    opt::optional<void> a, b(opt::nullopt), c(a);
    a = b; a = opt::nullopt; a = 3; a.reset(); a.emplace(1); a.swap(b);
    vf_assert(!a && !b.has_value() && !c, "C18|a void optional is engaged");
    bool th = false; try { a.value(); } catch (const opt::bad_optional_access&) { th = true; }
    vf_assert(th, "C18|value() of a disengaged optional does not throw");
    vf_assert(a.value_or(5) == 5, "C18|value_or() does not give the fallback");
}
// a value type whose moves cannot throw and one that can only be moved
namespace { struct MO { std::unique_ptr<V> p; MO(long k) : p(new V(k)) {} MO(MO&&) noexcept = default; MO& operator=(MO&&) noexcept = default; }; }
SCN(opt_move_only, "C17 C18 C23")
{
    {
        using M = opt::optional<MO>;
        M a(MO(1)), b; b = std::move(a); vf_assert(b && (*b).p->k == 1 && (!a || !a->p), "C17 C18|moving an optional does not move its value");
        a = MO(2); a.swap(b); vf_assert(a->p->k == 1 && b->p->k == 2, "C18|swap does not exchange the values");
        b.emplace(3); MO c = *std::move(b); vf_assert(c.p->k == 3, "C18|the value of a temporary is not moved");
        a = opt::nullopt; b.reset(); M d(opt::in_place, 4); M e(std::move(d)); vf_assert(e.value().p->k == 4, "C18|moving an optional does not move its value");
        MO f = std::move(e).value_or(MO(5)); vf_assert(f.p->k == 4, "C18|value_or() does not give the value");
        MO g = M().value_or(MO(6)); vf_assert(g.p->k == 6, "C18|value_or() does not give the fallback");
    }
    vf_assert(alive == 0, "C17 C23|a value is leaked");
}
