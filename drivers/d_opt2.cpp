// optional over many kinds of value type (C17, C18, C23): the operations do not depend on what the value type is like.
#include "kinds.hpp"
using namespace w;
namespace
{
    template<class T> struct held_t
    {
        using O = opt::optional<T>;
        static void look(O& o, int k)                    // k < 0: no value
        {
            const O& c = o; bool e = k >= 0;
            vf_assert(o.has_value() == e && (o.get_ptr() != nullptr) == e, "C18|an optional of some value type does not report whether it has a value");
            if (e) vf_assert(is<T>(*c, k), "C17 C18|an optional of some value type does not hold the value it was given");
        }
        static void full(O& o, int k)                    // through every accessor
        {
            const O& c = o; bool e = k >= 0;
            vf_assert(o.has_value() == e && bool(o) == e && c.is_initialized() == e && bool(c) == e, "C18|an optional of some value type does not report whether it has a value");
            vf_assert((o.get_ptr() != nullptr) == e && (c.get_ptr() != nullptr) == e && opt::get_pointer(c) == c.get_ptr(), "C18|get_ptr() is not null exactly when there is no value");
            vf_assert((c == opt::nullopt) == !e && (opt::nullopt != c) == e && (opt::nullopt < c) == e && (c <= opt::nullopt) == !e, "C18|comparison with nullopt");
            if (e)
            {
                const void* a = std::addressof(*o);
                vf_assert(is<T>(*c, k), "C17 C18|an optional of some value type does not hold the value it was given");
                vf_assert(std::addressof(*c) == a && std::addressof(o.value()) == a && std::addressof(c.value()) == a && std::addressof(o.get()) == a && std::addressof(c.get()) == a && c.get_ptr() == a && o.get_ptr() == a && c.operator->() == a && o.operator->() == a && std::addressof(opt::get(o)) == a, "C18|the accessors do not all give the value");
            }
            else
            {
                bool t = false; try { (void)c.value(); } catch (const opt::bad_optional_access&) { t = true; }
                bool u = false; try { (void)o.value(); } catch (const std::logic_error&) { u = true; }
                vf_assert(t && u, "C18|value() of a disengaged optional does not throw");
            }
            int j = 2 * vf_nd(2);
            T d = mk<T>::get(j); const T& cd = d;
            vf_assert(is<T>(c.value_or(d), e ? k : j) && is<T>(c.value_or(mk<T>::get(j)), e ? k : j) && is<T>(d, j), "C18|value_or() does not give the value or else the fallback");
            vf_assert(std::addressof(c.get_value_or(cd)) == (e ? c.get_ptr() : std::addressof(cd)) && std::addressof(o.get_value_or(d)) == (e ? o.get_ptr() : std::addressof(d)), "C18|get_value_or() does not give the value or else the fallback");
        }
    };
    // construction and destruction only
    template<class T> void made()
    {
        using O = opt::optional<T>; using H = held_t<T>;
        unsigned act = vf_nd(13); int k = vf_nd(3), j = act == 6 || act == 8 || act == 9 || act == 11 ? vf_nd(3) : 0; bool c = act == 3 || act == 7 ? vf_nd(2) : 0;
        T v = mk<T>::get(k); const T& cv = v;
        switch (act)
        {
        case 12: { O o, p(cv); H::full(o, -1); H::full(p, k); } break;
        case 0: { O o; H::look(o, -1); O n(opt::nullopt); H::look(n, -1); O p(o), q(std::move(n)); H::look(p, -1); H::look(q, -1); } break;
        case 1: { O o(cv); H::look(o, k); O p(v); H::look(p, k); H::look(o, k); } break;
        case 2: { O o(mk<T>::get(k)); H::look(o, k); } break;
        case 3: { O o(c, mk<T>::get(k)); H::look(o, c ? k : -1); } break;
        case 4: { O o(cv); const O& co = o; O p(co), q(o), r(p); H::look(p, k); H::look(q, k); H::look(r, k); H::look(o, k); } break;
        case 5: { O o(cv), p(std::move(o)); H::look(p, k); vf_assert(o.has_value(), "C17|moving from an optional disengages it"); } break;
        case 6: { O o(opt::in_place, cv); H::look(o, k); O p(opt::in_place, mk<T>::get(j)); H::look(p, j); } break;
        case 7: { O o(opt::in_place_if, c, cv); H::look(o, c ? k : -1); } break;
        case 8: { O o(opt::make_optional(cv)), p(opt::make_optional(mk<T>::get(j))), q(opt::make_optional(v)); H::look(o, k); H::look(p, j); H::look(q, k); } break;
        case 9: { O o; o.emplace(cv); H::look(o, k); o.emplace(mk<T>::get(j)); H::look(o, j); o.reset(); H::look(o, -1); o.emplace(v); H::look(o, k); o = opt::nullopt; H::look(o, -1); } break;
        case 10: { O* o = new O(cv); const O& r = *o; O p(r); delete o; H::look(p, k); } break;
        case 11: { O o(cv); T t = *o; T u(std::move(*o)); vf_assert(is<T>(t, k) && is<T>(u, k), "C18|a value is altered on its way out of an optional"); O q(cv); T x = *std::move(q); vf_assert(is<T>(x, k), "C18|a value is altered on its way out of an optional"); O r(cv); T y = std::move(r).value(); vf_assert(is<T>(y, k), "C18|a value is altered on its way out of an optional"); O s(cv); T z = std::move(s).value_or(mk<T>::get(j)); vf_assert(is<T>(z, k), "C18|value_or() does not give the value or else the fallback"); T w0 = O().value_or(mk<T>::get(j)); vf_assert(is<T>(w0, j), "C18|value_or() does not give the value or else the fallback"); } break;
        }
        vf_assert(is<T>(v, k), "C17 C18|storing a copy of a value alters the original");
    }
    // assignment, exchange: from every state to every state
    template<class T> void kept()
    {
        using O = opt::optional<T>; using H = held_t<T>;
        unsigned act = vf_nd(12); bool ui = act == 2 || act == 3 || act == 8 || act == 9 || act == 10, uj = act < 2 || act == 4 || act == 5 || act == 6 || act == 9;
        int k = int(vf_nd(3)) - 1, j = uj ? int(vf_nd(3)) - 1 : -1, i = ui ? vf_nd(3) : 0;
        O a, b; if (k >= 0) a = mk<T>::get(k); if (j >= 0) { T v = mk<T>::get(++j); b = v; }
        const O& cb = b; T v = mk<T>::get(i); const T& cv = v;
        switch (act)
        {
        case 0: a = cb; H::look(a, j); H::look(b, j); break;
        case 1: a = std::move(b); H::look(a, j); vf_assert(b.has_value() == (j >= 0), "C17|moving from an optional changes whether it has a value"); break;
        case 2: a = cv; H::look(a, i); vf_assert(is<T>(v, i), "C17 C18|storing a copy of a value alters the original"); break;
        case 3: a = mk<T>::get(i); H::look(a, i); break;
        case 4: a = opt::nullopt; H::look(a, -1); a = b; H::look(a, j); break;
        case 5: a.swap(b); H::look(a, j); H::look(b, k); break;
        case 6: { using std::swap; swap(a, b); H::look(a, j); H::look(b, k); } break;
        case 7: { O& r = a; a = r; H::look(a, k); a = std::move(r); } break;
        case 8: a.emplace(cv); H::look(a, i); a = O(); H::look(a, -1); break;
        case 9: a = O(cv); H::look(a, i); a = O(b); H::look(a, j); break;
        case 10: if (a) { *a = cv; H::look(a, i); a.value() = mk<T>::get(2); H::look(a, 2); *a.get_ptr() = mk<T>::get(0); H::look(a, 0); } break;
        case 11: a.swap(a); vf_assert(a.has_value() == (k >= 0), "C17|exchange with itself changes whether there is a value"); break;
        }
        vf_assert(is<T>(v, i), "C17 C18|storing a copy of a value alters the original");
    }
    template<class T> void compared()
    {
        using O = opt::optional<T>;
        int k = int(vf_nd(4)) - 1, j = int(vf_nd(4)) - 1, i = vf_nd(3);
        O a, b; if (k >= 0) a = mk<T>::get(k); if (j >= 0) b = mk<T>::get(j);
        T v = mk<T>::get(i);
        vf_assert((a == b) == (k == j) && (b == a) == (k == j), "C18|== of optionals of some value type");
        vf_assert((a == v) == (k == i) && (v == a) == (k == i), "C18|== of an optional and a value");
    }
    template<class T> void all() { if (vf_nd(2)) made<T>(); else kept<T>(); vf_assert(pop == 0, "C17 C23|values are not constructed and destroyed exactly once"); }
}
#define KIND(n, ...) SCN(opt_kind_##n, "C17 C18 C23") { all<__VA_ARGS__>(); }
SCN(opt_kind_bool, "C17 C18 C23")        // only two values
{
    opt::optional<bool> a, b; int k = int(vf_nd(3)) - 1, j = int(vf_nd(3)) - 1; bool f = vf_nd(2);
    if (k >= 0) a = bool(k); if (j >= 0) b.emplace(bool(j));
    vf_assert(a.has_value() == (k >= 0) && b.has_value() == (j >= 0) && a.value_or(f) == (k >= 0 ? bool(k) : f) && (a == b) == (k == j) && (a < b) == (k < j) && (a == f) == (k == int(f)), "C18|an optional bool confuses its value with having one");
    switch (vf_nd(7))
    {
    case 0: a = b; vf_assert(a.has_value() == (j >= 0) && (!a || *a == bool(j)), "C17 C18|an optional bool is not copied"); break;
    case 1: a.swap(b); vf_assert(a.has_value() == (j >= 0) && (!a || *a == bool(j)) && b.has_value() == (k >= 0) && (!b || *b == bool(k)), "C18|optional bools are not exchanged"); break;
    case 2: { opt::optional<bool> c(f); vf_assert(c && *c == f, "C18|an optional bool does not hold the value it was given"); } break;
    case 3: { bool g = vf_nd(2); opt::optional<bool> c(f, bool(g)); vf_assert(c.has_value() == f && (!f || *c == g), "C18|an optional bool does not hold the value it was given"); opt::optional<bool> d(opt::in_place_if, f, g); vf_assert(d.has_value() == f && (!f || *d == g), "C18|an optional bool does not hold the value it was given"); auto m = opt::make_optional(f, bool(g)); vf_assert(m.has_value() == f && (!f || *m == g), "C18|an optional bool does not hold the value it was given"); } break;
    case 4: { opt::optional<int> c; if (k >= 0) c = k; a = c; vf_assert(a.has_value() == (k >= 0) && (!a || *a == bool(k)), "C18|conversion between optionals"); a = std::move(c); vf_assert(a.has_value() == (k >= 0), "C18|conversion between optionals"); opt::optional<bool> d(c); vf_assert(d.has_value() == (k >= 0) && (!d || *d == bool(k)), "C18|conversion between optionals"); } break;
    case 5: a = f; vf_assert(a && *a == f && a.get_ptr() && *a.get_ptr() == f, "C18|an optional bool does not hold the value it was given"); a.reset(); vf_assert(!a && !a.get_ptr(), "C18|reset() leaves a value"); break;
    case 6: if (a) { *a = f; vf_assert(a && *a == f, "C18|a write through the optional is lost"); } break;
    }
}
KIND(char, char)
KIND(float, double)
KIND(enum, E0)
KIND(enumcls, E1)
KIND(ptr, int*)
KIND(fptr, int (*)())
KIND(mptr, int Cls::*)
KIND(mfptr, int (Cls::*)())
KIND(amp, Amp)
KIND(new, New)
KIND(agg, Agg)
KIND(empty, Empty)
KIND(virt, Virt)
KIND(final, Final)
KIND(over, Over)
KIND(self, Self)
KIND(bytes, Bytes)
KIND(string, std::string)
KIND(vector, std::vector<int>)
KIND(shared, std::shared_ptr<int>)
KIND(pair, std::pair<int, Self>)
KIND(opt, opt::optional<int>)
KIND(optself, opt::optional<Self>)
KIND(throwy, Throwy)
KIND(conv, Conv)
KIND(init, Init)
SCN(opt_kind_noassign, "C17 C18 C23") { made<NoAsg>(); vf_assert(pop == 0, "C17 C23|values are not constructed and destroyed exactly once"); }
SCN(opt_kind_const, "C17 C18 C23") { if (vf_nd(2)) made<const int>(); else made<const Self>(); vf_assert(pop == 0, "C17 C23|values are not constructed and destroyed exactly once"); }
SCN(opt_kind_cmp, "C18 C17 C23")
{
    switch (vf_nd(7))
    {
    case 0: compared<char>(); break; case 1: compared<E1>(); break; case 2: compared<int*>(); break; case 3: compared<Self>(); break;
    case 4: compared<std::string>(); break; case 5: compared<Throwy>(); break; case 6: compared<double>(); break;
    }
    vf_assert(pop == 0, "C17 C23|values are not constructed and destroyed exactly once");
}
// ownership in the value: an optional keeps exactly one reference
SCN(opt_shares, "C17 C18 C23")
{
    std::shared_ptr<int> s(new int(5)); using O = opt::optional<std::shared_ptr<int>>;
    {
        O a(s), b; vf_assert(s.use_count() == 2, "C17|an optional does not hold exactly one copy of its value");
        b = a; vf_assert(s.use_count() == 3, "C17|an optional does not hold exactly one copy of its value");
        a = std::move(b); vf_assert(s.use_count() == 2 && a && *a == s, "C17|moving an optional copies its value");
        b = s; a.swap(b); vf_assert(s.use_count() == 3, "C17|exchanging optionals copies their values");
        O c(std::move(a)); vf_assert(s.use_count() == 3, "C17|moving an optional copies its value");
        b.reset(); vf_assert(s.use_count() == 2, "C17|reset() does not destroy the value"); c = opt::nullopt; vf_assert(s.use_count() == 1, "C17|assigning nullopt does not destroy the value");
        c.emplace(s); c.emplace(s); vf_assert(s.use_count() == 2, "C17|emplace() does not destroy the old value");
        std::shared_ptr<int> t = *std::move(c); vf_assert(s.use_count() == 2 && t == s, "C18|the value of a temporary is not moved");
        O d(opt::in_place, s); std::shared_ptr<int> u = std::move(d).value_or(nullptr); vf_assert(s.use_count() == 3 && u == s, "C18|value_or() of a temporary copies"); u = O().value_or(std::move(u)); vf_assert(s.use_count() == 3 && u == s, "C18|value_or() of a temporary copies the fallback");
        const O e(s); std::shared_ptr<int> v = e.value_or(nullptr); vf_assert(s.use_count() == 5 && v == s && e && *e == s, "C18|value_or() does not give the value or else the fallback");
    }
    vf_assert(s.use_count() == 1, "C17 C23|a value is leaked");
}
// between optionals of different types
namespace
{
    struct Src { int k; explicit Src(int x) : k(x) { ++pop; } Src(const Src& o) : k(o.k) { ++pop; } ~Src() { --pop; } };
    struct Dst { int k; bool moved; Dst(const Src& s) : k(s.k), moved(false) { ++pop; } Dst(Src&& s) : k(s.k), moved(true) { s.k = -1; ++pop; } Dst(const Dst& o) : k(o.k), moved(o.moved) { ++pop; } Dst& operator=(const Dst& o) { k = o.k; moved = o.moved; return *this; } ~Dst() { --pop; } };
    struct B0 { int k; explicit B0(int x) : k(x) {} virtual ~B0() {} }; struct D0 : B0 { explicit D0(int x) : B0(x) {} };
}
SCN(opt_convert, "C17 C18 C23")
{
    {
        using S = opt::optional<Src>; using D = opt::optional<Dst>;
        bool e = vf_nd(2), f = vf_nd(2);
        S s; if (e) s.emplace(4); const S& cs = s; D d; if (f) d = D(S(opt::in_place, 9));
        switch (vf_nd(6))
        {
        case 0: { D x(cs); vf_assert(x.has_value() == e && (!e || x->k == 4 && s->k == 4 && !x->moved), "C17 C18|conversion between optionals"); } break;
        case 1: { D x(std::move(s)); vf_assert(x.has_value() == e && (!e || x->k == 4 && s->k == -1 && x->moved), "C17 C18|conversion between optionals"); } break;
        case 2: d = cs; vf_assert(d.has_value() == e && (!e || d->k == 4 && s->k == 4 && !d->moved), "C17 C18|conversion between optionals"); break;
        case 3: d = std::move(s); vf_assert(d.has_value() == e && (!e || d->k == 4 && s->k == -1 && d->moved), "C17 C18|conversion between optionals"); break;
        case 4: { D x(S{}); vf_assert(!x, "C17 C18|conversion between optionals"); d = S(); vf_assert(!d, "C17 C18|conversion between optionals"); } break;
        case 5: { opt::optional<std::shared_ptr<D0>> p; if (e) p.emplace(new D0(3)); opt::optional<std::shared_ptr<B0>> q(p), r; r = p; vf_assert(q.has_value() == e && r.has_value() == e && (!e || (*q)->k == 3 && *r == *p && p->use_count() == 3), "C17 C18|conversion between optionals"); r = std::move(p); vf_assert(!e || q->use_count() == 2, "C17 C18|conversion between optionals"); } break;
        }
    }
    vf_assert(pop == 0, "C17 C23|values are not constructed and destroyed exactly once");
}
// the const char* and number conversions a client writes
SCN(opt_strings, "C17 C18 C23")
{
    bool e = vf_nd(2); opt::optional<const char*> p; if (e) p = "a text that does not fit into the object itself";
    opt::optional<std::string> s(p), t; t = p;
    vf_assert(s.has_value() == e && t.has_value() == e && (!e || *s == *p && t->size() == s->size() && *t == *s), "C17 C18|conversion between optionals");
    std::string u = t.value_or("fallback"); vf_assert(e ? u == *s : u == "fallback", "C18|value_or() does not give the value or else the fallback");
    std::string v = std::move(t).value_or(std::string("other")); vf_assert(e ? v == *s : v == "other", "C18|value_or() does not give the value or else the fallback");
    opt::optional<std::string> w0(opt::in_place, 3, 'x'), x0(opt::in_place, { 'a', 'b' }); vf_assert(*w0 == "xxx" && *x0 == "ab" && *w0 != *x0 && w0 > x0, "C17 C18|in-place construction");
    w0.emplace(2, 'y'); x0.emplace({ 'c' }); vf_assert(*w0 == "yy" && *x0 == "c", "C17 C18|emplace()");
    opt::optional<std::vector<int>> y0(opt::in_place, { 1, 2, 3 }), z0(opt::in_place, 3, 1); vf_assert(y0->size() == 3 && (*y0)[2] == 3 && z0->size() == 3 && (*z0)[2] == 1, "C17 C18|in-place construction"); y0.emplace({ 7 }); vf_assert(y0->size() == 1 && y0->front() == 7, "C17 C18|emplace()");
}
