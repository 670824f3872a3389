// Failing allocations, copies, comparisons, arguments and combiners (C13).
#include "lib.hpp"
#include <new>
using namespace w;

namespace
{
    struct Boom { int k; };
    int fuse = -1;                       // copies left before one throws; -1: never
    bool burn() { if (fuse < 0) return false; if (fuse == 0) { fuse = -1; return true; } --fuse; return false; }
    // a callable (or object) whose copies may throw
    template<class R, class... A> struct TF
    {
        Mark m;
        explicit TF(unsigned t) : m(t) {}
        TF(const TF& o) : m(o.m) { if (burn()) throw Boom{ 1 }; }
        R operator()(A...) const { m.use(); fire(m.tag); return ret<R>::get(m.tag); }
        R mem(A...) { m.use(); fire(m.tag); return ret<R>::get(m.tag); }
        bool operator==(const TF& o) const { return m.tag == o.m.tag; }
    };
    template<class R> struct W
    {
        using S = sig::signal<R(int)>;
        S s; std::size_t n = 0; sig::connection cx;
        void build() { while (vf_more()) { s.connect(Fn<R, int>(BG)); ++n; } cx = s.connect(Fn<R, int>(X)); while (vf_more()) { s.connect(Fn<R, int>(BG)); ++n; } }
        void check(unsigned x, unsigned nn)
        {
            reset(); s(1);
            vf_assert(calls[X] == x && calls[N] == nn && calls[BG] == n, "C13|after a failed operation an emission does not call exactly the slots that were connected");
            vf_assert(cx.connected() == (x != 0), "C13|a failed operation changes the connections of other slots");
            vf_assert(live[X] == (long)x && live[N] == (long)nn && live[BG] == (long)n, "C13 C23|a failed operation leaks or destroys callables");
        }
    };
}
template<class R, int kind> void fail_connect(bool oom)
{
    {
        W<R> w; w.build();
        sig::connection c; bool ok = false;
        auto obj = std::make_shared<TF<R, int>>(N);
        if (kind != 3) obj.reset();
        TF<R, int> f(N);
        sig::slot<R(int)> sl;
        if (kind == 2) sl = sig::slot<R(int)>(f);
        if (oom) vf_oom(1); else fuse = (int)vf_nd(3);
        try
        {
            if (kind == 0) c = w.s.connect(f);
            if (kind == 1) c = w.s.connect(&TF<R, int>::mem, f);
            if (kind == 2) c = w.s.connect(sl);
            if (kind == 3) c = w.s.connect(&TF<R, int>::mem, obj);
            if (kind == 4) { sig::scoped_connection sc = w.s.connect_scoped(f); c = sc.release(); }
            if (kind == 5) c = w.s.connect(TF<R, int>(N));
            ok = true;
        }
        catch (const std::bad_alloc&) { vf_assert(oom, "C13|the wrong exception propagates"); }
        catch (const Boom&) { vf_assert(!oom, "C13|the wrong exception propagates"); }
        vf_oom(0); fuse = -1;
        --live[N]; if (kind == 2 || kind == 3) --live[N];           // f, sl or obj
        if (kind == 3 && ok) ++live[N];                             // the tracked object is not a copy
        vf_assert(c.connected() == ok, "C13|a failed connect leaves a connection behind");
        w.check(1, ok ? 1 : 0);
        if (kind == 3 && ok) --live[N];
        vf_assert(w.cx.disconnect(), "C13 C04|a slot cannot be disconnected after a failed operation");
        if (kind == 3 && ok) ++live[N];
        w.check(0, ok ? 1 : 0);
        if (kind == 3 && ok) --live[N];
        if (ok) vf_assert(c.disconnect(), "C13 C04|a slot cannot be disconnected");
        w.check(0, 0);
        w.cx = w.s.connect(Fn<R, int>(X));
        w.check(1, 0);
        ++live[N]; if (kind == 2 || kind == 3) ++live[N];
    }
    vf_assert(live[BG] == 0 && live[X] == 0 && live[N] == 0, "C13 C23|a failed operation leaks a callable");
}
#define T "C13 C23 C07"
SCN(oom_connect_fn, T) { fail_connect<void, 0>(true); }
SCN(oom_connect_pmf, T "|abs=0") { fail_connect<int, 1>(true); }
SCN(oom_connect_slot, T "|abs=0") { fail_connect<void, 2>(true); }
SCN(oom_connect_tracked, T "|abs=0") { fail_connect<int, 3>(true); }
SCN(oom_connect_scoped, T "|abs=0") { fail_connect<void, 4>(true); }
SCN(throw_connect_fn, T) { fail_connect<int, 0>(false); }
SCN(throw_connect_pmf, T "|abs=0") { fail_connect<void, 1>(false); }
SCN(throw_connect_slot, T "|abs=0") { fail_connect<int, 2>(false); }
SCN(throw_connect_tmp, T "|abs=0") { fail_connect<int, 5>(false); }
SCN(throw_connect_scoped, T "|abs=0") { fail_connect<int, 4>(false); }

// connecting while an emission holds the list (the list must be copied first)
namespace { sig::signal<void(int)>* gs; bool failed; }
static void a_conn() { vf_oom(1); try { gs->connect(Fn<void, int>(N)); failed = false; } catch (const std::bad_alloc&) { failed = true; } vf_oom(0); }
SCN(oom_connect_inside, T " C08|abs=0")
{
    {
        W<void> w; w.build(); gs = &w.s;
        reset(); actor = X; action = a_conn; w.s(1);
        vf_assert(calls[BG] == w.n && calls[X] == 1 && calls[N] == 0, "C13 C08|a failed connect disturbs the emission in progress");
        w.check(1, failed ? 0 : 1);
    }
    vf_assert(live[BG] == 0 && live[X] == 0 && live[N] == 0, "C13 C23|a failed operation leaks a callable");
}
// disconnecting by callable when memory is short or the list is shared
template<class R, bool inside> void fail_erase();
namespace { std::size_t removed; }
static void a_erase() { vf_oom(1); failed = false; try { removed = gs->disconnect(Fn<void, int>(Y)); } catch (const std::bad_alloc&) { failed = true; } vf_oom(0); }
template<bool inside> void oom_erase()
{
    {
        W<void> w; gs = &w.s;
        while (vf_more()) { w.s.connect(Fn<void, int>(BG)); ++w.n; }
        auto y1 = w.s.connect(Fn<void, int>(Y));
        w.cx = w.s.connect(Fn<void, int>(X));
        while (vf_more()) { w.s.connect(Fn<void, int>(BG)); ++w.n; }
        auto y2 = w.s.connect(Fn<void, int>(Y));
        reset();
        if (inside) { actor = X; action = a_erase; w.s(1); vf_assert(calls[BG] == w.n, "C13 C08 C03|a failed disconnection makes the emission in progress skip a slot"); }
        else a_erase();
        if (!failed) vf_assert(removed == 2 && !y1.connected() && !y2.connected(), "C15|disconnect by callable does not remove every matching slot");
        reset(); w.s(1);
        unsigned left = (y1.connected() ? 1u : 0u) + (y2.connected() ? 1u : 0u);
        vf_assert(calls[Y] == left, "C13|after a failed disconnection, slots are called that are not connected, or connected ones are not called");
        vf_assert(live[Y] == (long)left, "C13 C23 C12|a failed disconnection leaks a callable");
        vf_assert(calls[X] == 1 && calls[BG] == w.n, "C13 C03|a failed disconnection drops other slots");
        bool c1 = y1.connected();
        vf_assert(y1.disconnect() == c1, "C13 C04|after a failed disconnection, disconnect() does not report success exactly once");
        reset(); w.s(1);
        vf_assert(calls[Y] == (y2.connected() ? 1u : 0u) && calls[X] == 1 && calls[BG] == w.n, "C13 C03|after a failed disconnection, a connection controls the wrong slot");
        std::size_t k = w.s.disconnect(Fn<void, int>(Y));
        vf_assert(k + (c1 ? 1 : 0) == left, "C13 C15|a failed disconnection cannot be repeated");
        reset(); w.s(1);
        vf_assert(calls[Y] == 0 && calls[X] == 1 && calls[BG] == w.n, "C13|a failed disconnection cannot be repeated");
    }
    vf_assert(live[BG] == 0 && live[X] == 0 && live[Y] == 0, "C13 C23|a failed operation leaks a callable");
}
SCN(oom_erase, T " C15 C03|abs=0") { oom_erase<false>(); }
SCN(oom_erase_inside, T " C15 C03 C08|abs=0") { oom_erase<true>(); }

// a comparison that throws
namespace
{
    struct CmpF
    {
        Mark m; explicit CmpF(unsigned t) : m(t) {}
        void operator()(int) const { m.use(); fire(m.tag); }
        bool operator==(const CmpF& o) const { if (burn()) throw Boom{ 2 }; return m.tag == o.m.tag; }
    };
}
SCN(throw_compare, T " C15|abs=0")
{
    {
        sig::signal<void(int)> s; sig::connection c[4]; std::size_t n = 0;
        unsigned tag[4] = { BG, Y, X, Y };
        for (int i = 0; i < 4; ++i) { if (i == 0) while (vf_more()) { s.connect(CmpF(BG)); ++n; } c[i] = s.connect(CmpF(tag[i])); }
        fuse = (int)vf_nd(6);
        bool threw = false; std::size_t k = 0;
        try { k = s.disconnect(CmpF(Y)); } catch (const Boom& b) { threw = b.k == 2; }
        bool armed = fuse >= 0;
        fuse = -1;
        vf_assert(vf_held() == 0, "C07 C13|a mutex stays locked after an exception");
        if (!threw) vf_assert(k == 2 && !c[1].connected() && !c[3].connected(), "C15|disconnect by callable does not remove every matching slot");
        (void)armed;
        reset(); s(1);
        vf_assert(calls[Y] == (c[1].connected() ? 1u : 0u) + (c[3].connected() ? 1u : 0u) && calls[X] == 1 && calls[BG] == n + 1, "C13|a disconnection that throws leaves an inconsistent list");
        vf_assert(c[0].connected() && c[2].connected(), "C13 C03|a disconnection that throws disconnects other slots");
        vf_assert(c[2].disconnect() && c[0].disconnect(), "C13 C04|a slot cannot be disconnected after an exception");
        reset(); s(1);
        vf_assert(calls[X] == 0 && calls[BG] == n, "C13 C03|after an exception, a connection controls the wrong slot");
        s.disconnect(CmpF(Y));
        reset(); s(1);
        vf_assert(calls[Y] == 0, "C13|a disconnection that threw cannot be repeated");
    }
    vf_assert(live[BG] == 0 && live[X] == 0 && live[Y] == 0, "C13 C23|an exception leaks a callable");
}
namespace { struct NoCmp { Mark m; explicit NoCmp(unsigned t) : m(t) {} void operator()(int) const { m.use(); fire(m.tag); } }; }
SCN(not_comparable, T " C15|abs=0")
{
    {
        W<void> w; w.build();
        auto c = w.s.connect(NoCmp(N));
        bool threw = false;
        try { w.s.disconnect(NoCmp(N)); } catch (const sig::not_comparable_exception&) { threw = true; }
        vf_assert(threw, "C15|comparing callables without equality does not throw not_comparable_exception");
        vf_assert(vf_held() == 0, "C07 C13|a mutex stays locked after an exception");
        w.check(1, 1);
        vf_assert(w.s.disconnect(Fn<void, int>(BG)) == w.n, "C15|callables of different kinds are not merely unequal"); w.n = 0;
        w.check(1, 1);
        vf_assert(c.disconnect(), "C04 C13|disconnect() fails");
        w.check(1, 0);
    }
}
// arguments whose copies throw
namespace
{
    struct Arg
    {
        int v; unsigned magic = 0xa51;
        static inline long alive;
        explicit Arg(int x) : v(x) { ++alive; }
        Arg(const Arg& o) : v(o.v) { if (burn()) throw Boom{ 3 }; ++alive; }
        Arg(Arg&& o) noexcept : v(o.v) { o.v = -1; ++alive; }
        ~Arg() { vf_assert(magic == 0xa51, "C13 C23|an argument is destroyed twice"); magic = 0; --alive; }
    };
    unsigned seen;
    struct ArgF { Mark m; explicit ArgF(unsigned t) : m(t) {} void operator()(Arg a) const { vf_assert(a.v == 42, "C14 C13|a slot receives a wrong argument"); fire(m.tag); } };
    struct ArgC { Mark m; explicit ArgC(unsigned t) : m(t) {} void operator()(const Arg& a) const { vf_assert(a.v == 42, "C14 C13|a slot receives a wrong argument"); fire(m.tag); } };
}
SCN(throw_arg, T " C14|abs=0")
{
    {
        sig::signal<void(Arg)> s;
        std::size_t n = 0;
        while (vf_more()) { if (vf_nd(2)) s.connect(ArgF(BG)); else s.connect(ArgC(BG)); ++n; }
        reset();
        bool threw = false;
        {
            Arg a(42);
            fuse = (int)vf_nd(8);
            try { s(a); } catch (const Boom& b) { threw = b.k == 3; }
            vf_assert(threw || calls[BG] == n, "C13 C01|an emission ends early without an exception");
            vf_assert(!threw || calls[BG] <= n, "C13|a slot is called twice");
            fuse = -1;
            vf_assert(a.v == 42, "C14|the argument of the caller is changed");
        }
        vf_assert(Arg::alive == 0, "C13 C23|an exception leaks an argument");
        reset();
        s(Arg(42));
        vf_assert(calls[BG] == n, "C13|an exception from an argument disconnects slots");
        vf_assert(Arg::alive == 0, "C13 C23 C14|an emission leaks an argument");
    }
}
// a combiner that throws
namespace
{
    struct ThrowComb { using result_type = int; template<class I> int operator()(I f, I l) const { int k = 0; while (f != l) { auto r = *f; if (r) k += *r; if (burn()) throw Boom{ 4 }; ++f; } return k; } };
}
SCN(throw_combiner, T " C16|abs=0")
{
    {
        sig::signal<int(int), ThrowComb> s;
        std::size_t n = 0;
        while (vf_more()) { s.connect(Fn<int, int>(Y)); ++n; }
        for (int round = 0; round < 2; ++round)
        {
            reset();
            fuse = (int)vf_nd(4);
            std::size_t f = fuse;
            bool threw = false; int r = 0;
            try { r = s(1); } catch (const Boom& b) { threw = b.k == 4; }
            fuse = -1;
            vf_assert(threw == (f < n), "C13|an exception thrown by a combiner does not reach the caller");
            vf_assert(calls[Y] == (threw ? f + 1 : n), "C13|slots are called after the combiner has thrown");
            if (!threw) vf_assert(r == (int)(2 * n), "C16|what the combiner returns is not what the emission returns");
        }
    }
    vf_assert(live[Y] == 0, "C13 C23|an exception leaks a callable");
}
