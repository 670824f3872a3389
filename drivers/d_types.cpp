// The same guarantees for parameters, results, callables, bound objects, combiners and exceptions of many different types.
#include "lib.hpp"
#include <stdexcept>
#include <tuple>
#include <string>
using namespace w;

namespace
{
    void held() { vf_assert(vf_held() == 0, "C07|a slot runs while the library holds a mutex"); ++calls[BG]; }
    enum E1 { e1a, e1b = 70000 };
    enum class E2 : unsigned char { a, b = 250 };
    struct alignas(32) Over { long v; explicit Over(long k) : v(k) {} Over(const Over& o) : v(o.v) {} Over& operator=(const Over& o) { v = o.v; return *this; } bool operator==(const Over& o) const { return v == o.v; } };
    struct Big { long v[6]; };                      // larger than any register
    struct Tiny { char c; };
    struct BaseP { long k = 1; virtual ~BaseP() = default; };
    struct DerP : BaseP { long j = 2; };
    long fp1(long a) { return a; }
    struct M { long m1(long a) { return a; } long d = 1; };

    // what the caller passes
    E1 xe1; E2 xe2; long (*xfp)(long); long (M::*xpm)(long); long M::*xpd; std::shared_ptr<long> xsp; std::weak_ptr<long> xwp; int xarr[3] = { 1, 2, 3 }; Big xbig; long xk; DerP xder; const BaseP* xpb; bool xb; char xc; const char* xstr; unsigned long long xull; Tiny xt; int* xpi;
    using Sig1 = void(E1, E2, long (*)(long), const int (&)[3], Big, const Big&, long (M::*)(long), long M::*, bool, char);
    using Sig2 = int(const long, std::shared_ptr<long>, const std::shared_ptr<long>&, std::weak_ptr<long>, BaseP&, const BaseP*, const char*, unsigned long long, Tiny, int*&);
    bool eq(const Big& a, const Big& b) { for (int i = 0; i < 6; ++i) if (a.v[i] != b.v[i]) return false; return true; }
    void check1(E1 a, E2 b, long (*c)(long), const int (&d)[3], Big e, const Big& f, long (M::*g)(long), long M::*h, bool i, char j)
    {
        held();
        vf_assert(a == xe1 && b == xe2 && i == xb && j == xc, "C14|an enumeration, bool or char argument arrives changed");
        vf_assert(c == xfp && g == xpm && h == xpd, "C14|a function or member pointer argument arrives changed");
        vf_assert(&d == &xarr, "C14|an array argument is not that of the caller");
        vf_assert(eq(e, xbig) && &f == &xbig, "C14|an argument of aggregate type arrives changed, or a reference does not refer to the object of the caller");
        for (auto& q : e.v) q = -1;
    }
    int check2(long a, std::shared_ptr<long> b, const std::shared_ptr<long>& c, std::weak_ptr<long> d, BaseP& e, const BaseP* f, const char* g, unsigned long long h, Tiny i, int*& j)
    {
        held();
        vf_assert(a == xk && h == xull && i.c == xt.c && g == xstr, "C14|an argument arrives changed");
        vf_assert(b && b == xsp && &c == &xsp && d.lock() == xsp, "C14|a smart pointer argument arrives changed or moved from");
        vf_assert(&e == &xder && f == xpb, "C14|a reference or pointer argument is not that of the caller");
        vf_assert(&j == &xpi, "C14|a reference to a pointer does not refer to the pointer of the caller");
        b.reset(); d.reset();
        ++j;
        return 1;
    }
    struct F1 { template<class... A> void operator()(A&&... a) const { check1(std::forward<A>(a)...); } };
    struct F2 { template<class... A> int operator()(A&&... a) const { return check2(std::forward<A>(a)...); } };
    struct O
    {
        void m1(E1 a, E2 b, long (*c)(long), const int (&d)[3], Big e, const Big& f, long (M::*g)(long), long M::*h, bool i, char j) { check1(a, b, c, d, e, f, g, h, i, j); }
        int m2(long a, std::shared_ptr<long> b, const std::shared_ptr<long>& c, std::weak_ptr<long> d, BaseP& e, const BaseP* f, const char* g, unsigned long long h, Tiny i, int*& j) { return check2(a, b, c, d, e, f, g, h, i, j); }
    };
}
SCN(types_args1, "C14 C21 C23")
{
    {
        O o; auto sp = std::make_shared<O>();
        sig::signal<Sig1> s;
        s.connect(check1); s.connect(F1()); s.connect(&O::m1, &o); s.connect(&O::m1, o); s.connect(&O::m1, sp); s.connect(&O::m1, std::ref(o)); s.connect([](E1 a, E2 b, long (*c)(long), const int (&d)[3], Big e, const Big& f, long (M::*g)(long), long M::*h, bool i, char j) { check1(a, b, c, d, e, f, g, h, i, j); }); s.connect(check1);
        xe1 = e1b; xe2 = E2::b; xfp = fp1; xpm = &M::m1; xpd = &M::d; xb = true; xc = -3;
        for (int i = 0; i < 6; ++i) xbig.v[i] = vf_sym("b");
        for (int r = 0; r < 2; ++r) { calls[BG] = 0; s(xe1, xe2, xfp, xarr, xbig, xbig, xpm, xpd, xb, xc); vf_assert(calls[BG] == 8, "C14 C01|a slot is not called exactly once"); }
        xe1 = e1a; xe2 = E2::a; xfp = nullptr; xpm = nullptr; xpd = nullptr; xb = false; xc = 0;
        calls[BG] = 0; s(xe1, xe2, xfp, xarr, xbig, xbig, xpm, xpd, xb, xc); vf_assert(calls[BG] == 8, "C14 C01|a slot is not called exactly once");
    }
}
SCN(types_args2, "C14 C21 C23")
{
    {
        O o; auto sp = std::make_shared<O>();
        sig::signal<Sig2> s;
        s.connect(check2); s.connect(F2()); s.connect(&O::m2, &o); s.connect(&O::m2, o); s.connect(&O::m2, sp); s.connect(&O::m2, std::ref(o)); s.connect(check2);
        int a[32]; 
        xk = vf_sym("k"); xsp = std::make_shared<long>(4); xwp = xsp; xpb = &xder; xstr = "abc"; xull = (unsigned long long)vf_sym("u"); xt.c = 9; xpi = a;
        for (int r = 0; r < 2; ++r)
        {
            calls[BG] = 0; auto q = s(xk, xsp, xsp, xwp, xder, xpb, xstr, xull, xt, xpi);
            vf_assert(calls[BG] == 7 && q && *q == 1, "C14 C01|a slot is not called exactly once");
            vf_assert(xsp && *xsp == 4 && xsp.use_count() == 1 && !xwp.expired(), "C14 C23|the arguments of the caller are changed, or copies of them leak");
            vf_assert(xpi == a + 7 * (r + 1), "C14|changes through a reference parameter do not accumulate");
        }
        xpb = nullptr; xstr = nullptr; xk = 0; xull = 0;
        calls[BG] = 0; s(xk, xsp, xsp, xwp, xder, xpb, xstr, xull, xt, xpi); vf_assert(calls[BG] == 7, "C14 C01|a slot is not called exactly once");
        xsp.reset(); xwp.reset();
    }
}
// slots that change their own argument in place, for values of many types and sizes
namespace
{
    template<class T> struct Mk;                    // two distinguishable values
    template<class T> struct MkNum { static T get(int k) { return static_cast<T>(k ? 5 : 90); } };
    template<> struct Mk<char> : MkNum<char> {}; template<> struct Mk<short> : MkNum<short> {}; template<> struct Mk<int> : MkNum<int> {}; template<> struct Mk<long> : MkNum<long> {}; template<> struct Mk<double> : MkNum<double> {}; template<> struct Mk<E2> : MkNum<E2> {};
    template<> struct Mk<bool> { static bool get(int k) { return k != 0; } };
    template<> struct Mk<long*> { static long* get(int k) { static long a[2]; return &a[k]; } };
    struct Pod16 { long a, b; bool operator==(const Pod16& o) const { return a == o.a && b == o.b; } };
    struct Pod40 { long a, b, c, d, e; bool operator==(const Pod40& o) const { return a == o.a && b == o.b && c == o.c && d == o.d && e == o.e; } };
    struct Pod400 { long a[50]; bool operator==(const Pod400& o) const { return a[0] == o.a[0] && a[49] == o.a[49]; } };
    struct Own16 { std::unique_ptr<long> p; long pad = 0; explicit Own16(long v) : p(new long(v)) {} Own16(const Own16& o) : p(o.p ? new long(*o.p) : nullptr) {} Own16(Own16&&) = default; Own16& operator=(Own16&&) = default; bool operator==(const Own16& o) const { return p && o.p && *p == *o.p; } };
    struct Own80 : Own16 { long more[8]; using Own16::Own16; };
    struct CopyOnly { long v; explicit CopyOnly(long k) : v(k) {} CopyOnly(const CopyOnly& o) : v(o.v) {} CopyOnly& operator=(const CopyOnly& o) { v = o.v; return *this; } bool operator==(const CopyOnly& o) const { return v == o.v; } };
    template<> struct Mk<Pod16> { static Pod16 get(int k) { return { k, 3 }; } };
    template<> struct Mk<Pod40> { static Pod40 get(int k) { return { k, 3, 4, 5, k }; } };
    template<> struct Mk<Pod400> { static Pod400 get(int k) { Pod400 p{}; p.a[0] = p.a[49] = k; return p; } };
    template<> struct Mk<Own16> { static Own16 get(int k) { return Own16(k); } };
    template<> struct Mk<Own80> { static Own80 get(int k) { return Own80(k); } };
    template<> struct Mk<CopyOnly> { static CopyOnly get(int k) { return CopyOnly(k); } };
    template<> struct Mk<std::shared_ptr<long>> { static std::shared_ptr<long> get(int k) { static long a[2]; return std::shared_ptr<long>(std::shared_ptr<long>(), &a[k]); } };
    template<> struct Mk<Over> { static Over get(int k) { return Over(k); } };
    template<class T> void want(const T& a) { held(); vf_assert(a == Mk<T>::get(1), "C14|a slot receives an argument that an earlier slot changed or moved from"); }
    template<class T> struct RuinV { void operator()(T a) const { want<T>(a); a = Mk<T>::get(0); } };
    template<class T> struct RuinR { void operator()(T&& a) const { want<T>(a); a = Mk<T>::get(0); } };
    template<class T> struct RuinM { void operator()(T&& a) const { want<T>(a); T b(std::move(a)); want<T>(b); --calls[BG]; } };
    template<class T> struct Look { void operator()(const T& a) const { want<T>(a); } };
    template<class T> struct RuinO { void r(T&& a) { want<T>(a); a = Mk<T>::get(0); } void v(T a) { want<T>(a); a = Mk<T>::get(0); } };
    template<class T> void ruin()
    {
        {
            RuinO<T> o; auto sp = std::make_shared<RuinO<T>>();
            sig::signal<void(T)> s;
            s.connect(RuinR<T>()); s.connect(RuinV<T>()); s.connect(RuinM<T>()); s.connect(Look<T>()); s.connect(&RuinO<T>::r, &o); s.connect(&RuinO<T>::v, o); s.connect(&RuinO<T>::r, sp); s.connect(Look<T>());
            T a = Mk<T>::get(1);
            calls[BG] = 0; s(a);
            vf_assert(calls[BG] == 8, "C14 C01|a slot is not called exactly once");
            vf_assert(a == Mk<T>::get(1), "C14|the argument of the caller is changed");
            s(Mk<T>::get(1));
            vf_assert(calls[BG] == 16, "C14 C01|a slot is not called exactly once");
        }
    }
}
SCN(types_ruin_num, "C14 C23") { ruin<char>(); ruin<bool>(); ruin<short>(); ruin<int>(); ruin<long>(); ruin<double>(); ruin<E2>(); ruin<long*>(); }
SCN(types_ruin_pod, "C14 C23") { ruin<Pod16>(); ruin<Pod40>(); ruin<Pod400>(); ruin<CopyOnly>(); ruin<Over>(); }
SCN(types_ruin_own, "C14 C23") { ruin<Own16>(); ruin<Own80>(); ruin<std::shared_ptr<long>>(); }
// rvalue references and move-only values reach (at least) the first slot
namespace
{
    struct Mv { long v; explicit Mv(long x) : v(x) {} Mv(Mv&& o) noexcept : v(o.v) { o.v = -1; } Mv(const Mv&) = delete; };
    const void* wh; long vv;
    struct RvF { void operator()(Mv&& m) const { held(); vf_assert(&m == wh && m.v == vv, "C14|an rvalue reference does not refer to the object of the caller"); } };
    struct RvM { void go(Mv&& m) { held(); vf_assert(&m == wh && m.v == vv, "C14|an rvalue reference does not refer to the object of the caller"); } };
    struct MoF { int operator()(Mv m) const { held(); vf_assert(m.v == vv, "C14|a move-only argument arrives changed"); return 3; } };
    struct MoM { int go(Mv m) { held(); vf_assert(m.v == vv, "C14|a move-only argument arrives changed"); return 3; } int cr(const Mv& m) const { held(); vf_assert(m.v == vv, "C14|a move-only argument arrives changed"); return 4; } };
    struct MoC { int operator()(const Mv& m) const { held(); vf_assert(m.v == vv, "C14|a move-only argument arrives changed"); return 4; } };
}
SCN(types_rvalue, "C14 C23")
{
    {
        RvM m; auto sp = std::make_shared<RvM>();
        sig::signal<void(Mv&&)> s; s.connect(RvF()); s.connect(&RvM::go, &m); s.connect(&RvM::go, sp); s.connect(&RvM::go, m);
        vv = vf_sym("v"); Mv x(vv); wh = &x; calls[BG] = 0; s(std::move(x)); vf_assert(calls[BG] == 4 && x.v == vv, "C14 C01|a slot is not called exactly once");
    }
    vv = vf_sym("v");
    for (int k = 0; k < 4; ++k)
    {
        MoM m; auto sp = std::make_shared<MoM>();
        sig::signal<int(Mv)> s;
        s.connect(MoC()); s.connect(&MoM::cr, &m); s.connect(&MoM::cr, sp);
        if (k == 0) s.connect(MoF()); if (k == 1) s.connect(&MoM::go, &m); if (k == 2) s.connect(&MoM::go, sp); if (k == 3) s.connect(&MoM::go, m);
        calls[BG] = 0; auto r = s(Mv(vv)); vf_assert(calls[BG] == 4 && r && *r == 3, "C14 C01|a slot is not called exactly once");
    }
}
// parameters that are themselves tuples, optionals, functions, containers; none at all; and one
namespace
{
    using Tp = std::tuple<long, long>;
    long ta, tb;
    struct TpF { long operator()(Tp t) const { held(); vf_assert(std::get<0>(t) == ta && std::get<1>(t) == tb, "C14|a tuple argument arrives changed"); std::get<0>(t) = 0; return 1; } };
    struct Tp1F { long operator()(std::tuple<long> t) const { held(); vf_assert(std::get<0>(t) == ta, "C14|a tuple argument arrives changed"); std::get<0>(t) = 0; return 1; } };
    struct OpF { long operator()(opt::optional<long> t) const { held(); vf_assert(t && *t == ta, "C14|an optional argument arrives changed"); t.reset(); return 1; } };
    struct PrF { long operator()(std::pair<Tp, long>& t, const opt::optional<Tp>& o) const { held(); vf_assert(std::get<1>(t.first) == tb && t.second == ta && o && std::get<0>(*o) == ta, "C14|an argument arrives changed"); return 1; } };
    struct NoF { long operator()() const { held(); return 5; } };
    struct OnF { long operator()(long a) const { held(); return a; } };
}
SCN(types_tuple, "C14 C16 C23")
{
    ta = vf_sym("a"); tb = vf_sym("b");
    { sig::signal<long(Tp)> s; s.connect(TpF()); s.connect(TpF()); Tp t(ta, tb); calls[BG] = 0; s(t); s(Tp(ta, tb)); vf_assert(calls[BG] == 4 && std::get<0>(t) == ta, "C14|the argument of the caller is changed"); }
    { sig::signal<long(std::tuple<long>)> s; s.connect(Tp1F()); s.connect(Tp1F()); std::tuple<long> t(ta); calls[BG] = 0; s(t); s(std::tuple<long>(ta)); vf_assert(calls[BG] == 4 && std::get<0>(t) == ta, "C14|the argument of the caller is changed"); }
    { sig::signal<long(opt::optional<long>)> s; s.connect(OpF()); s.connect(OpF()); opt::optional<long> t(ta); calls[BG] = 0; s(t); s(opt::optional<long>(ta)); vf_assert(calls[BG] == 4 && t && *t == ta, "C14|the argument of the caller is changed"); }
    { sig::signal<long(std::pair<Tp, long>&, const opt::optional<Tp>&)> s; s.connect(PrF()); s.connect(PrF()); std::pair<Tp, long> p(Tp(1, tb), ta); opt::optional<Tp> o(Tp(ta, 1)); calls[BG] = 0; s(p, o); vf_assert(calls[BG] == 2, "C14|a slot is not called exactly once"); }
    { sig::signal<long()> s; s.connect(NoF()); s.connect(NoF()); calls[BG] = 0; auto r = s(); vf_assert(calls[BG] == 2 && r && *r == 5, "C14 C16|a signal without parameters does not work"); }
    { sig::signal<long(long)> s; s.connect(OnF()); calls[BG] = 0; auto r = s(ta); vf_assert(calls[BG] == 1 && r && *r == ta, "C14 C16|a signal with one parameter does not work"); }
}
// slots whose parameters differ from those of the signal
namespace
{
    struct FromLong { long v; FromLong(long x) : v(x) {} };
    struct CvF { void operator()(FromLong f, const BaseP& b) const { held(); vf_assert(f.v == ta && &b == &xder, "C14 C21|a converted argument is wrong"); } };
    struct CvS { void operator()(unsigned char c, BaseP& b) const { held(); vf_assert(c == (unsigned char)ta && &b == &xder, "C14 C21|a converted argument is wrong"); } };
    struct Cv2 { template<class... A> void operator()(A&&...) const { static_assert(sizeof...(A) == 2, ""); held(); } };
    struct CvM { void go(long a, DerP& d) { held(); vf_assert(a == ta && &d == &xder, "C14 C21|an argument is wrong"); } void conv(FromLong a, BaseP& d) const { held(); vf_assert(a.v == ta && &d == &xder, "C14 C21|a converted argument is wrong"); } };
}
SCN(types_conv, "C14 C21 C23")
{
    {
        CvM m; auto sp = std::make_shared<CvM>();
        sig::signal<void(long, DerP&)> s; s.connect(CvF()); s.connect(CvS()); s.connect(&CvM::go, &m); s.connect(&CvM::conv, &m); s.connect(&CvM::conv, sp); s.connect(Cv2());
        ta = 77; calls[BG] = 0; s(ta, xder); vf_assert(calls[BG] == 6, "C14 C01|a slot is not called exactly once");
    }
}
// results of many types, with the default combiner
namespace
{
    struct RObj { Mark m; long k; explicit RObj(long x) : m(Z), k(x) {} };
    long gl = 6; const Big gb = { { 1, 2, 3, 4, 5, 6 } };
    template<class T> struct val;
    template<> struct val<bool> { static bool get(long k) { return k & 1; } };
    template<> struct val<char> { static char get(long k) { return (char)k; } };
    template<> struct val<E2> { static E2 get(long k) { return k & 1 ? E2::b : E2::a; } };
    template<> struct val<long*> { static long* get(long k) { return k & 1 ? &gl : nullptr; } };
    template<> struct val<Big> { static Big get(long k) { Big b = gb; b.v[5] = k; return b; } };
    template<> struct val<std::shared_ptr<long>> { static std::shared_ptr<long> get(long k) { return std::make_shared<long>(k); } };
    template<> struct val<RObj> { static RObj get(long k) { return RObj(k); } };
    template<> struct val<Over> { static Over get(long k) { return Over(k); } };
    template<> struct val<Tp> { static Tp get(long k) { return Tp(k, -k); } };
    template<class T> bool same(const T& a, const T& b) { return a == b; }
    template<> bool same(const Big& a, const Big& b) { return eq(a, b); }
    template<> bool same(const std::shared_ptr<long>& a, const std::shared_ptr<long>& b) { return a && b && *a == *b && a.use_count() == 1; }
    template<> bool same(const RObj& a, const RObj& b) { a.m.use(); return a.k == b.k; }
    template<class T> struct RF { long k; T operator()() const { held(); return val<T>::get(k); } };
    template<class T> struct RM { long k; T go() { held(); return val<T>::get(k); } T cgo() const { held(); return val<T>::get(k); } };
}
template<class T> void res()
{
    {
        for (int last = 0; last < 4; ++last)
        {
            RM<T> m{ 10 }; auto sp = std::make_shared<RM<T>>(RM<T>{ 11 });
            sig::signal<T()> s;
            s.connect(RF<T>{ 4 });
            sig::connection c;
            if (last == 0) c = s.connect(RF<T>{ 9 });
            if (last == 1) c = s.connect(&RM<T>::go, &m);
            if (last == 2) c = s.connect(&RM<T>::go, sp);
            if (last == 3) c = s.connect(&RM<T>::cgo, m);
            long e[4] = { 9, 10, 11, 10 };
            calls[BG] = 0;
            auto r = s();
            vf_assert(r && same(*r, val<T>::get(e[last])) && calls[BG] == 2, "C16 C21|an emission does not return the result of the last slot");
            c.block(); r = s(); vf_assert(r && same(*r, val<T>::get(4)), "C16 C05|an emission does not return the result of the last slot that yielded one"); c.unblock();
            auto r2 = s(); vf_assert(r2 && same(*r2, val<T>::get(e[last])), "C16 C21|an emission does not return the result of the last slot");
            c.disconnect(); r2 = s(); vf_assert(r2 && same(*r2, val<T>::get(4)), "C16 C02|an emission does not return the result of the last slot");
            s = sig::signal<T()>(); r2 = s(); vf_assert(!r2, "C16|an emission without slots returns a value");
        }
    }
    vf_assert(live[Z] == 0, "C16 C23|an emission leaks results");
}
#define TR "C16 C21 C23"
SCN(types_res_bool, TR) { res<bool>(); }
SCN(types_res_char, TR) { res<char>(); res<E2>(); }
SCN(types_res_ptr, TR) { res<long*>(); }
SCN(types_res_big, TR) { res<Big>(); }
SCN(types_res_aligned, TR " C17") { res<Over>(); { opt::optional<Over> o(val<Over>::get(3)), p(o), q; q = o; q.emplace(val<Over>::get(4)); o.swap(q); vf_assert(same(*o, val<Over>::get(4)) && same(*q, *p), "C17|an over-aligned value is not kept"); } }
SCN(types_res_shared, TR) { res<std::shared_ptr<long>>(); }
SCN(types_res_obj, TR) { res<RObj>(); }
SCN(types_res_tuple, TR) { res<Tp>(); }
// callables of many types
namespace
{
    struct Rq { long k = 7; long lv(long a) & { held(); return a + k; } long clv(long a) const& { held(); return a + 2 * k; } long nx(long a) const noexcept { held(); return a + 3 * k; } static long st(long a) { held(); return a + 70; } long dflt(long a, long b = 4) { held(); return a + b; } template<class T> long tm(T a) { held(); return (long)a + k + 1; } };
    struct RefQ { long k; long operator()(long a) & { held(); return a + k; } long operator()(long a) && { held(); k = -1; return a - 999; } long operator()(long a) const& { held(); return a + k; } };
    struct ObjQ { long k = 5; long go(long a) & { held(); return a + k; } };
    template<class T> struct HandleQ { T* p; T& operator*() & { return *p; } T& operator*() const& { return *p; } T& operator*() && { static T dead{ 66 }; return dead; } };
    template<class T> struct Handle { T* p; T& operator*() const { return *p; } T* operator->() const { return p; } };
    struct Gen { template<class T> T operator()(T a) const { held(); return a + 41; } };
    struct Tpl { template<class T> long operator()(T a) const { held(); return (long)a + 11; } };
    struct Two { long operator()(long a) const { held(); return a + 21; } long operator()(long a, long) const { held(); return 0; } long operator()(const char*) const { held(); return -1; } };
    struct Conv { using fn = long (*)(long); operator fn() const { return &Rq::st; } };
    long nxf(long a) noexcept { held(); return a + 31; }
    using S = sig::signal<long(long)>;
    void one(S& s, long plus, const char* = nullptr)
    {
        long a = vf_sym("a"); calls[BG] = 0; auto r = s(a);
        vf_assert(calls[BG] == 1, "C21 C01|a callable is not called exactly once");
        vf_assert(r && *r == a + plus, "C21 C16|a call does not reach the right function or object, or its result is lost");
    }
}
SCN(types_call, "C21 C23")
{
    {
        Rq q; const Rq cq; Rq arr[2]; Rq* it = arr; Handle<Rq> h{ &q };
        { S s; s.connect(&Rq::lv, &q); one(s, 7); q.k = 8; one(s, 8); q.k = 7; }
        { S s; s.connect(&Rq::lv, std::ref(q)); one(s, 7); }
        { S s; s.connect(&Rq::clv, &cq); one(s, 14); }
        { S s; s.connect(&Rq::nx, std::cref(cq)); one(s, 21); }
        { S s; s.connect(&Rq::nx, cq); one(s, 21); }
        { S s; s.connect(&Rq::st); one(s, 70); }
        { S s; s.connect(&Rq::tm<long>, &q); one(s, 8); }
        { S s; s.connect(&Rq::lv, h); one(s, 7); q.k = 9; one(s, 9); q.k = 7; }
        { S s; arr[1].k = 3; s.connect(&Rq::lv, it + 1); ++it; one(s, 3); }
        { S s; s.connect(RefQ{ 13 }); one(s, 13); one(s, 13); sig::slot<long(long)> sl(RefQ{ 14 }); s = S(); s.connect(sl); one(s, 14); one(s, 14); }
        { S s; ObjQ oq; s.connect(&ObjQ::go, oq); one(s, 5); s = S(); s.connect(&ObjQ::go, HandleQ<ObjQ>{ &oq }); oq.k = 6; one(s, 6); one(s, 6); }
        { S s; s.connect(Tpl()); one(s, 11); }
        { S s; s.connect(Two()); one(s, 21); }
        { S s; s.connect(Conv()); one(s, 70); }
        { S s; s.connect(nxf); one(s, 31); }
        { S s; s.connect(Gen()); one(s, 41); }
        { S s; s.connect([&](long a) { return q.dflt(a); }); one(s, 4); }
        { S s; std::function<long(long)> f = nxf; s.connect(f); f = Tpl(); one(s, 31); }
        { S s; s.connect(std::bind(&Rq::lv, &q, std::placeholders::_1)); one(s, 7); }
        { S s; S inner; inner.connect(nxf); s.connect([&inner](long a) { return *inner(a); }); one(s, 31); }
        { S s; sig::slot<long(long)> sl(nxf); s.connect(sl); one(s, 31); }
        // scoped, and by disconnection
        { S s; { auto c = s.connect_scoped(&Rq::lv, &q); one(s, 7); } calls[BG] = 0; vf_assert(!s(1) && calls[BG] == 0, "C11 C21|a scoped connection does not disconnect its slot"); }
        { S s; { auto c = s.connect_scoped(nxf); one(s, 31); } calls[BG] = 0; vf_assert(!s(1) && calls[BG] == 0, "C11 C21|a scoped connection does not disconnect its slot"); }
        { S s; { auto c = s.connect_scoped(&Rq::clv, cq); one(s, 14); } { auto c = s.connect_scoped(&Rq::lv, std::ref(q)); one(s, 7); } { auto sp = std::make_shared<Rq>(); auto c = s.connect_scoped(&Rq::lv, sp); one(s, 7); } calls[BG] = 0; vf_assert(!s(1) && calls[BG] == 0, "C11 C21|a scoped connection does not disconnect its slot"); }
        { S s; { sig::slot<long(long)> sl(nxf); auto c = s.connect_scoped(sl); one(s, 31); } calls[BG] = 0; vf_assert(!s(1) && calls[BG] == 0, "C11 C21|a scoped connection does not disconnect its slot"); }
        { S s; s.connect(&Rq::lv, &q); s.connect(&Rq::lv, &arr[0]); vf_assert(s.disconnect(&Rq::lv, &q) == 1 && s.disconnect(&Rq::clv, &arr[0]) == 0, "C15|disconnect by member function and object does not match exactly"); one(s, 7); }
        { S s; s.connect(nxf); s.connect(&Rq::st); vf_assert(s.disconnect(nxf) == 1, "C15|disconnect by function does not match exactly"); one(s, 70); vf_assert(s.disconnect(&Rq::st) == 1, "C15|disconnect by function does not match exactly"); }
    }
}
// combiners of many shapes
namespace
{
    struct TwoPass { using result_type = long; template<class I> long operator()(I f, I l) const { long n = 0, t = 0; for (I i = f; i != l; ++i) ++n; for (I i = f; i != l; ++i) { auto r = *i; t += r ? *r : 0; } for (; !(f == l); f++) { auto r = *f; t += r ? 100 * *r : 0; } return n * 10000 + t; } };
    struct NonConst { using result_type = long; long acc = 5; template<class I> long operator()(I f, I l) { for (; f != l; ++f) { auto r = *f; if (r) acc += *r; } return acc; } };
    struct MoveOnly { using result_type = std::unique_ptr<long>; template<class I> result_type operator()(I f, I l) const { std::unique_ptr<long> p(new long(0)); for (; f != l; ++f) { auto r = *f; if (r) *p += *r; } return p; } };
    struct Cnt { using result_type = bool; template<class I> bool operator()(I f, I l) const { while (f != l) { auto r = *f; if (!r || !*r) return false; ++f; } return true; } };   // stops early
    struct None { using result_type = int; template<class I> int operator()(I, I) const { return 42; } };
    struct K { long k; long operator()() const { held(); return k; } };
}
SCN(types_comb, "C16 C13 C23")
{
    {
        { sig::signal<long(), TwoPass> s; s.connect(K{ 1 }); s.connect(K{ 2 }); calls[BG] = 0; vf_assert(s() == 20303 && calls[BG] == 4, "C16|iterating twice does not call each slot twice"); }
        { sig::signal<long(), NonConst> s; s.connect(K{ 1 }); s.connect(K{ 2 }); vf_assert(s() == 8 && s() == 8, "C16|each emission does not use a fresh combiner"); }
        { sig::signal<long(), MoveOnly> s; s.connect(K{ 1 }); s.connect(K{ 2 }); auto p = s(); vf_assert(p && *p == 3, "C16|what the combiner returns is not what the emission returns"); }
        { sig::signal<long(), Cnt> s; s.connect(K{ 1 }); s.connect(K{ 0 }); s.connect(K{ 3 }); calls[BG] = 0; vf_assert(!s() && calls[BG] == 2, "C16|slots are called that the combiner did not dereference"); }
        { sig::signal<long(), None> s; s.connect(K{ 1 }); calls[BG] = 0; vf_assert(s() == 42 && calls[BG] == 0, "C16|slots are called that the combiner did not dereference"); }
        { sig::signal<long(), Cnt> s; vf_assert(s(), "C16|a combiner is not run on an empty range"); }
        { sig::signal<long(), None> s; vf_assert(s() == 42, "C16|a combiner is not run on an empty range"); }
        { sig::signal<long(), None> s; sig::signal<long(), None> t(std::move(s)); vf_assert(s() == 42 && t() == 42, "C16 C19|a combiner is not run for a moved-from signal"); }
    }
}
// exceptions of many types, thrown by every kind of slot
namespace
{
    struct Own : std::exception {};
    unsigned kind;
    void boom()
    {
        switch (kind)
        {
        case 0: throw 5;
        case 1: throw std::bad_alloc();
        case 2: throw sig::not_comparable_exception();
        case 3: throw opt::bad_optional_access("x");
        case 4: throw std::bad_weak_ptr();
        case 5: throw std::bad_function_call();
        case 6: throw Own();
        case 7: throw "text";
        case 8: throw std::runtime_error("x");
        case 9: throw std::logic_error("x");
        case 10: throw (const void*)nullptr;
        case 11: throw std::bad_cast();
        case 12: throw std::out_of_range("x");
        }
    }
    const unsigned kinds = 13;
    template<class F> int caught(F f)
    {
        try { f(); }
        catch (int k) { return k == 5 ? 0 : -2; }
        catch (const sig::not_comparable_exception&) { return 2; }
        catch (const opt::bad_optional_access&) { return 3; }
        catch (const std::bad_weak_ptr&) { return 4; }
        catch (const std::bad_function_call&) { return 5; }
        catch (const Own&) { return 6; }
        catch (const char* t) { return t[0] == 't' ? 7 : -2; }
        catch (const std::bad_alloc&) { return 1; }
        catch (const std::runtime_error&) { return 8; }
        catch (const std::out_of_range&) { return 12; }
        catch (const std::logic_error&) { return 9; }
        catch (const std::bad_cast&) { return 11; }
        catch (const void*) { return 10; }
        catch (...) { return -3; }
        return -1;
    }
    template<class R> struct TF { R operator()(long) const { fire(X); boom(); return R(); } };
    template<class R> struct TM { Mark m{ Y }; R go(long) { fire(X); boom(); return R(); } R cgo(long) const { fire(X); boom(); return R(); } };
}
template<class R> void exc(unsigned where)
{
    {
        TM<R> m; auto sp = std::make_shared<TM<R>>();
        sig::signal<R(long)> s;
        auto c0 = s.connect(Fn<R, long>(BG));
        sig::connection c;
        switch (where)
        {
        case 0: c = s.connect(TF<R>()); break;
        case 1: c = s.connect(&TM<R>::go, &m); break;
        case 2: c = s.connect(&TM<R>::cgo, m); break;
        case 3: c = s.connect(&TM<R>::go, sp); break;
        case 4: c = s.connect(sig::slot<R(long)>(&TM<R>::go, std::weak_ptr<TM<R>>(sp))); break;
        case 5: c = s.connect(&TM<R>::go, std::ref(m)); break;
        }
        auto c2 = s.connect(Fn<R, long>(N));
        for (kind = 0; kind < kinds; ++kind)
        {
            reset();
            int k = caught([&] { s(1); });
            vf_assert(k == (int)kind, "C13|an exception thrown by a slot does not reach the caller of the signal, or another one does");
            vf_assert(calls[BG] == 1 && calls[X] == 1 && calls[N] == 0, "C13|slots are called after one has thrown, or not before");
            vf_assert(vf_held() == 0, "C13 C07|a mutex stays locked after an exception");
            vf_assert(c0.connected() && c.connected() && c2.connected() && !c0.blocked() && !c.blocked() && !c2.blocked(), "C13|an exception disconnects or blocks a slot");
        }
        kind = 99; reset(); s(1);
        vf_assert(calls[BG] == 1 && calls[X] == 1 && calls[N] == 1, "C13 C01|the signal does not work after an exception");
        vf_assert(sp.use_count() == 1, "C13 C06 C23|an exception leaks an owner of a tracked object");
        vf_assert(c.disconnect() && !c.disconnect(), "C13 C04|a slot cannot be disconnected after it threw");
        reset(); s(1);
        vf_assert(calls[BG] == 1 && calls[X] == 0 && calls[N] == 1, "C13 C03|the signal does not work after an exception");
    }
    vf_assert(live[Y] == 0 && live[BG] == 0 && live[N] == 0, "C13 C23|an exception leaks");
}
#define TE "C13 C07 C23"
SCN(types_exc_void, TE) { exc<void>(vf_nd(6)); }
SCN(types_exc_int, TE) { exc<int>(vf_nd(6)); }
// ... by a bare slot, by a combiner, by the copy of a callable or an argument, by a comparison
namespace
{
    template<bool early> struct TComb { using result_type = long; template<class I> long operator()(I f, I l) const { if (early) boom(); long k = 0; for (; f != l; ++f) { *f; ++k; } boom(); return k; } };
    bool armed;
    struct TArg { TArg() = default; TArg(const TArg&) { if (armed) boom(); } };
    struct TCopy { Mark m{ Y }; TCopy() = default; TCopy(const TCopy& o) : m(o.m) { if (armed) boom(); } void operator()(long) const { fire(X); } void go(long) const { fire(X); } bool operator==(const TCopy&) const { if (armed) boom(); return true; } };
}
SCN(types_exc_other, TE " C15 C16")
{
    {
        auto sp = std::make_shared<TM<long>>();
        sig::slot<void(long)> a(TF<void>{}); sig::slot<long(long)> b(&TM<long>::go, sp);
        sig::signal<long(long), TComb<true>> ce; sig::signal<long(long), TComb<false>> cl; ce.connect(Fn<long, long>(BG)); cl.connect(Fn<long, long>(BG));
        sig::signal<void(TArg)> sa; sa.connect([](const TArg&) { fire(BG); }); sa.connect([](TArg) { fire(BG); });
        sig::signal<void(long)> sc; sc.connect(Fn<void, long>(BG)); TCopy tc; auto kept = sc.connect(tc);
        for (kind = 0; kind < kinds; ++kind)
        {
            reset(); armed = false;
            vf_assert(caught([&] { a(1); }) == (int)kind && a.connected(), "C13 C20|an exception thrown by a slot does not reach its caller");
            vf_assert(caught([&] { b(1); }) == (int)kind && b.connected(), "C13 C20|an exception thrown by a slot does not reach its caller");
            vf_assert(caught([&] { ce(1); }) == (int)kind && calls[BG] == 0, "C13 C16|an exception thrown by a combiner does not reach the caller");
            vf_assert(caught([&] { cl(1); }) == (int)kind && calls[BG] == 1, "C13 C16|an exception thrown by a combiner does not reach the caller");
            TArg ta; armed = true; reset();
            vf_assert(caught([&] { sa(ta); }) == (int)kind && calls[BG] == 0, "C13 C14|an exception thrown by the copy of an argument does not reach the caller");
            sig::connection c;
            vf_assert(caught([&] { c = sc.connect(tc); }) == (int)kind && !c.connected(), "C13|an exception thrown by the copy of a callable does not reach the caller");
            vf_assert(caught([&] { c = sc.connect(&TCopy::go, tc); }) == (int)kind && !c.connected(), "C13|an exception thrown by the copy of an object does not reach the caller");
            armed = false;
            sig::slot<void(long)> cmp(tc);
            armed = true;
            vf_assert(caught([&] { sc.disconnect(cmp); }) == (int)kind, "C13 C15|an exception thrown by a comparison does not reach the caller");
            vf_assert(vf_held() == 0, "C13 C07|a mutex stays locked after an exception");
            armed = false; reset(); sc(1);
            vf_assert(calls[BG] == 1 && calls[X] == 1 && kept.connected(), "C13|the signal does not work after an exception");
        }
        kind = 99; reset(); TArg ta; sa(ta); vf_assert(calls[BG] == 2 && ce(1) == 1 && cl(1) == 1, "C13|the signal does not work after an exception");
        vf_assert(sp.use_count() == 1, "C13 C06 C23|an exception leaks an owner of a tracked object");
    }
    vf_assert(live[Y] == 0 && live[BG] == 0, "C13 C23|an exception leaks");
}
