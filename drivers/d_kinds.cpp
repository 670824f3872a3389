// Parameters, results, state of callables, bound objects and copy-on-write values of many kinds of type (C10, C14, C15, C16, C20, C21, C23):
// nothing depends on what the type is like.
#include "kinds.hpp"
#include <functional>
using namespace w;
namespace
{
    template<> struct mk<std::function<int(int)>> { static std::function<int(int)> get(int k) { if (!k) return nullptr; return [k](int a) { return a + k; }; } static bool eq(const std::function<int(int)>& a, const std::function<int(int)>& b) { return bool(a) == bool(b) && (!a || a(3) == b(3)); } };
    template<> struct mk<std::vector<std::string>> { static std::vector<std::string> get(int k) { std::vector<std::string> v; v.reserve(4); for (int i = 0; i < k; ++i) v.push_back(mk<std::string>::get(i + 1)); return v; } static bool eq(const std::vector<std::string>& a, const std::vector<std::string>& b) { return a == b; } };
    int want_; unsigned n_;
    template<class T> void got(const T& a) { vf_assert(vf_held() == 0, "C07|a slot runs while the library holds a mutex"); vf_assert(is<T>(a, want_), "C14|a slot receives an argument that an earlier slot changed or moved from"); ++n_; }
    template<class T> struct AV { void operator()(T a) const { got<T>(a); a = mk<T>::get(0); } };
    template<class T> struct AR { void operator()(T&& a) const { got<T>(a); a = mk<T>::get(0); } };
    template<class T> struct AM { void operator()(T&& a) const { got<T>(a); T b(std::move(a)); got<T>(b); --n_; } };
    template<class T> struct AC { void operator()(const T& a) const { got<T>(a); } };
    template<class T> void free_v(T a) { got<T>(a); a = mk<T>::get(0); }
    template<class T> struct AO { void v(T a) { got<T>(a); T b(std::move(a)); } void r(T&& a) const { got<T>(a); T b(std::move(a)); } };
    template<class T> struct Two { void operator()(T a, int, T b) const { got<T>(a); vf_assert(is<T>(b, 2), "C14|an argument arrives changed"); a = std::move(b); } void rr(T&& a, int, T&& b) { got<T>(a); vf_assert(is<T>(b, 2), "C14|an argument arrives changed"); T c(std::move(b)); b = std::move(a); } };
    template<class T> struct Ad { const T* at; T* mut; void operator()(const T& a, T& b) const { vf_assert(std::addressof(a) == at && std::addressof(b) == mut, "C14|a reference parameter does not refer to the object of the caller"); got<T>(a); b = a; } };
    template<class T> void args()
    {
        AO<T> o; auto sp = std::make_shared<AO<T>>(); want_ = 1;
        {
            sig::signal<void(T)> s;
            switch (vf_nd(7))
            {
            case 0: s.connect(AV<T>()); break; case 1: s.connect(AR<T>()); break; case 2: s.connect(AM<T>()); break; case 3: s.connect(free_v<T>); break;
            case 4: s.connect(&AO<T>::v, &o); break; case 5: s.connect(&AO<T>::r, sp); break; case 6: s.connect(&AO<T>::v, o); break;
            }
            s.connect(AC<T>()); s.connect(AR<T>()); s.connect(AC<T>());
            T a = mk<T>::get(1); const T c = mk<T>::get(1);
            n_ = 0; s(a); vf_assert(n_ == 4 && is<T>(a, 1), "C14 C01|a slot is not called exactly once, or the argument of the caller is changed");
            s(c); s(mk<T>::get(1)); vf_assert(n_ == 12 && is<T>(c, 1), "C14 C01|a slot is not called exactly once, or the argument of the caller is changed");
            s(std::move(a)); vf_assert(n_ == 16, "C14 C01|a slot is not called exactly once");
        }
        {
            Two<T> t; sig::signal<void(T, int, T)> s; s.connect(Two<T>()); s.connect(&Two<T>::rr, &t); s.connect(Two<T>());
            T a = mk<T>::get(1), b = mk<T>::get(2); n_ = 0; s(a, 5, b); vf_assert(n_ == 3 && is<T>(a, 1) && is<T>(b, 2), "C14|the argument of the caller is changed");
        }
        { T a = mk<T>::get(1), b = mk<T>::get(2); sig::signal<void(const T&, T&)> s; s.connect(Ad<T>{ std::addressof(a), std::addressof(b) }); s.connect(Ad<T>{ std::addressof(a), std::addressof(b) }); n_ = 0; s(a, b); vf_assert(n_ == 2 && is<T>(a, 1) && is<T>(b, 1), "C14|a reference parameter does not refer to the object of the caller"); }
    }
    template<class T> struct RF { int k; T operator()() const { return mk<T>::get(k); } T go() { return mk<T>::get(k); } };
    template<class T> void res()
    {
        using S = sig::signal<T()>; S s; RF<T> m{ 1 }; auto sp = std::make_shared<RF<T>>(RF<T>{ 1 });
        auto none = s(); vf_assert(!none, "C16|an emission without slots returns a value");
        int a = vf_nd(3); auto x = s.connect(RF<T>{ a }); sig::connection y;
        switch (vf_nd(4)) { case 0: y = s.connect(RF<T>{ 1 }); break; case 1: y = s.connect(&RF<T>::go, &m); break; case 2: y = s.connect(&RF<T>::go, sp); break; case 3: y = s.connect(sig::slot<T()>(RF<T>{ 1 })); break; }
        auto r = s(); vf_assert(r && is<T>(*r, 1), "C16 C21|an emission does not return the result of the last slot");
        y.block(); r = s(); vf_assert(r && is<T>(*r, a), "C16 C05|an emission does not return the result of the last slot that yielded one");
        auto q = s(); vf_assert(q && is<T>(*q, a) && is<T>(*r, a), "C16|an emission does not return the result of the last slot that yielded one");
        x.block(); q = s(); vf_assert(!q && is<T>(*r, a), "C16|an emission whose slots are blocked returns a value"); y.unblock(); x.disconnect(); q = s(); vf_assert(q && is<T>(*q, 1), "C16|an emission does not return the result of the last slot");
        sig::slot<T()> sl(RF<T>{ 2 }); auto z = sl(); vf_assert(z && is<T>(*z, 2), "C21|a slot does not yield what its callable returns");
    }
    // state of a callable: copied once, kept between emissions, compared, destroyed
    template<class T> struct St { T t; mutable int used; St(const T& v) : t(v), used(0) {} bool operator()(int k) { bool r = is<T>(t, k); ++used; return r; } bool operator==(const St& o) const { return mk<T>::eq(t, o.t); } };
    template<class T> struct Sm { T t; explicit Sm(const T& v) : t(v) {} bool operator()(int k) { bool r = is<T>(t, k); t = mk<T>::get((k + 1) % 3); return r; } };
    template<class T> struct Ob { T t; explicit Ob(const T& v) : t(v) {} bool go(int k) const { return is<T>(t, k); } bool set(int k) { bool r = is<T>(t, k); t = mk<T>::get((k + 1) % 3); return r; } bool operator==(const Ob& o) const { return mk<T>::eq(t, o.t); } };
    void yes(const opt::optional<bool>& r, const char* what) { vf_assert(r && *r, what); }
    template<class T> void state(bool distinct)
    {
        const char* const w1 = "C21|a callable or object given by value does not keep its state"; const char* const w2 = "C20|a slot is affected by another slot it was copied from";
        const long before = pop;
        {
            sig::signal<bool(int)> s; const T a = mk<T>::get(1), b = mk<T>::get(2);
            switch (vf_nd(6))
            {
            case 0: { const St<T> f(a); auto c = s.connect(f); s.connect(St<T>(b)); yes(s(2), w1); { auto k = c.blocker(); yes(s(2), w1); } vf_assert(f.used == 0 && is<T>(f.t, 1), "C21|a callable given by value is used in place");
                std::size_t n = s.disconnect(St<T>(b)); vf_assert(n == (distinct ? 1u : 2u) && c.connected() == distinct, "C15|disconnecting by callable does not remove exactly the equal ones"); if (distinct) { yes(s(1), w1); vf_assert(s.disconnect(f) == 1, "C15|disconnecting by callable does not remove exactly the equal ones"); } vf_assert(!s(1), "C02 C15|a disconnected slot is called"); } break;
            case 1: { s.connect(Sm<T>(a)); yes(s(1), w1); yes(s(2), w1); yes(s(0), w1); sig::signal<bool(int)> t(std::move(s)); yes(t(1), w1); s = std::move(t); yes(s(2), w1); } break;
            case 2: { sig::slot<bool(int)> f{ Sm<T>(a) }, g(f); yes(f(1), w1); yes(g(1), w2); sig::slot<bool(int)> h(std::move(f)); yes(h(2), w1); vf_assert(!f, "C20|a slot that was moved from is not empty"); g = h; yes(g(0), w2); yes(h(0), w2); yes(g(1), w2); auto c = s.connect(g); yes(s(2), w2); yes(g(2), w2); g = sig::slot<bool(int)>(); yes(s(0), w2); } break;
            case 3: { Ob<T> o(a); auto c = s.connect(&Ob<T>::set, o); yes(s(1), w1); yes(s(2), w1); vf_assert(is<T>(o.t, 1), "C21|an object given by value is used in place"); c.disconnect(); c = s.connect(&Ob<T>::set, &o); yes(s(1), w1); vf_assert(is<T>(o.t, 2), "C21|an object given by pointer is copied");
                c.disconnect(); c = s.connect(&Ob<T>::set, std::ref(o)); yes(s(2), w1); vf_assert(is<T>(o.t, 0), "C21|an object given by reference is copied"); auto p = std::make_shared<Ob<T>>(b); c = s.connect(&Ob<T>::set, p); yes(s(2), w1); vf_assert(is<T>(p->t, 0) && p.use_count() == 1, "C06 C21|a tracked object is copied or kept alive"); } break;
            case 4: { Ob<T> o(a), p(b); s.connect(&Ob<T>::go, o); s.connect(&Ob<T>::go, p); yes(s(2), w1); std::size_t n = s.disconnect(&Ob<T>::go, p); vf_assert(n == (distinct ? 1u : 2u), "C15|disconnecting by object does not remove exactly the equal ones"); if (distinct) yes(s(1), w1); } break;
            case 5: { sig::signal<T()> d; Ob<T> o(a); auto c = d.connect(&Ob<T>::t, &o); auto r = d(); vf_assert(r && is<T>(*r, 1) && is<T>(o.t, 1), "C21 C16|a data member is not read"); o.t = mk<T>::get(2); r = d(); vf_assert(r && is<T>(*r, 2) && is<T>(o.t, 2), "C21 C16|a data member is not read"); r = d(); vf_assert(r && is<T>(*r, 2), "C21|reading a data member changes it");
                c.disconnect(); d.connect(&Ob<T>::t, o); r = d(); auto q = d(); vf_assert(r && q && is<T>(*r, 2) && is<T>(*q, 2), "C21|reading a data member changes it"); } break;
            }
        }
        vf_assert(pop == before, "C23 C12|a callable or object is leaked");
    }
    template<class T> void cow()
    {
        using C = sig::detail::cow_ptr<T>; const long before = pop;
        {
            C a(new T(mk<T>::get(1))), b(a), e; const C &ca = a, &cb = b;
            vf_assert(bool(ca) && !e && &ca.read() == &cb.read() && ca.data() == cb.data() && is<T>(*ca, 1), "C10|copies that are only read do not share one object");
            switch (vf_nd(6))
            {
            case 0: a.write() = mk<T>::get(2); break; case 1: *a = mk<T>::get(2); break; case 2: *a.data() = mk<T>::get(2); break; case 3: *(a.operator->()) = mk<T>::get(2); break; case 4: *static_cast<T*>(a) = mk<T>::get(2); break;
            case 5: { C t(std::move(a)); vf_assert(!a && is<T>(static_cast<const C&>(t).read(), 1), "C10|a moved-from copy-on-write pointer is not empty"); t.write() = mk<T>::get(2); a = std::move(t); } break;
            }
            vf_assert(is<T>(ca.read(), 2) && is<T>(cb.read(), 1) && ca.data() != cb.data(), "C10|a write through one copy shows through another");
            const T* p = cb.data(); b.write() = mk<T>::get(0); vf_assert(cb.data() == p && is<T>(cb.read(), 0) && is<T>(ca.read(), 2), "C10|a write by the only owner does not modify the object in place");
            a = b; e = a; a.write() = mk<T>::get(1); vf_assert(is<T>(ca.read(), 1) && is<T>(cb.read(), 0) && &cb.read() == &static_cast<const C&>(e).read(), "C10|a write through one copy shows through another");
            { C t(std::move(a)); a = std::move(b); b = std::move(t); } vf_assert(is<T>(ca.read(), 0) && is<T>(cb.read(), 1), "C10|moving does not exchange copy-on-write pointers");
        }
        vf_assert(pop == before, "C10 C23|a shared object is not destroyed exactly once");
    }
}
#define AT "C14 C01 C23"
#define KIND3(n, d, ...) \
    SCN(kind_args_##n, AT) { for (auto& p : pool) p = std::make_shared<int>(1); args<__VA_ARGS__>(); for (auto& p : pool) p.reset(); vf_assert(pop == 0, "C14 C23|copies of arguments are leaked"); } \
    SCN(kind_res_##n, "C16 C21 C23") { for (auto& p : pool) p = std::make_shared<int>(1); res<__VA_ARGS__>(); for (auto& p : pool) p.reset(); vf_assert(pop == 0, "C16 C23|results are leaked"); } \
    SCN(kind_state_##n, "C21 C20 C15 C23") { for (auto& p : pool) p = std::make_shared<int>(1); state<__VA_ARGS__>(d); for (auto& p : pool) p.reset(); vf_assert(pop == 0, "C23|a callable or object is leaked"); }
#define KIND(n, d, ...) KIND3(n, d, __VA_ARGS__) \
    SCN(kind_cow_##n, "C10 C23") { for (auto& p : pool) p = std::make_shared<int>(1); cow<__VA_ARGS__>(); for (auto& p : pool) p.reset(); vf_assert(pop == 0, "C10 C23|a shared object is leaked"); }
KIND(char, true, char)
KIND(double, true, double)
KIND(enum, true, E1)
KIND(pointer, true, int*)
KIND(function, true, int (*)())
KIND(amp, true, Amp)
KIND3(new, true, New)
KIND(agg, true, Agg)
KIND(empty, false, Empty)
KIND(virt, true, Virt)
KIND(final, true, Final)
KIND(over, true, Over)
KIND(self, true, Self)
KIND(bytes, true, Bytes)
KIND(string, true, std::string)
KIND(vector, true, std::vector<int>)
KIND(strings, true, std::vector<std::string>)
KIND(shared, true, std::shared_ptr<int>)
KIND(pair, true, std::pair<int, Self>)
KIND(opt, true, opt::optional<int>)
KIND(optself, true, opt::optional<Self>)
KIND(throwy, true, Throwy)
KIND(conv, true, Conv)
KIND(fun, true, std::function<int(int)>)
KIND(deep8, true, Deep<0>)
KIND(deep16, true, Deep<8>)
KIND(deep24, true, Deep<16>)
KIND(deep32, true, Deep<24>)
KIND(deep64, true, Deep<56>)
KIND(deep_ex, true, Deep<24, false>)
