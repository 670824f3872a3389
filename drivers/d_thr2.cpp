// Threads using other kinds of signals, and threads using signals that have nothing to do with each other (C09, C14, C16).
#include "lib.hpp"
using namespace w;
namespace
{
    struct V { long v; explicit V(long x) : v(x) {} V(const V& o) : v(o.v) {} V(V&& o) noexcept : v(o.v) { o.v = -1; } V& operator=(const V& o) { v = o.v; return *this; } V& operator=(V&& o) noexcept { v = o.v; o.v = -1; return *this; } ~V() { v = -2; } };
    void ok(bool c) { vf_assert(c, "C09 C14|a slot called by one of several threads receives a wrong argument"); vf_assert(vf_held() == 0, "C07|a slot runs while the library holds a mutex"); }
    struct FV { long operator()(V a, const V& b) const { ok(a.v + 1 == b.v); a.v = 0; return b.v; } };
    struct MV { long go(V a, const V& b) { ok(a.v + 1 == b.v); a.v = 0; return b.v; } void vgo(V a) { ok(a.v > 0); a.v = 0; } };
    using SV = sig::signal<long(V, const V&)>; using SW = sig::signal<void(V)>;
    SV* s; SW* w_; std::shared_ptr<MV>* sp; MV* mv; sig::connection* c; sig::connection* c2;
    template<long K> void emit(void*) { auto r = (*s)(V(K), V(K + 1)); vf_assert(!r || *r == K + 1, "C09 C16|an emission returns the result of another one"); }
    template<long K> void emitw(void*) { (*w_)(V(K)); }
    void mk(int kind)
    {
        s = new SV(); sp = new std::shared_ptr<MV>(std::make_shared<MV>()); mv = new MV(); c = new sig::connection(); c2 = new sig::connection();
        if (kind == 0) *c = s->connect(FV());
        if (kind == 1) *c = s->connect(&MV::go, mv);
        if (kind == 2) *c = s->connect(&MV::go, *sp);
        if (kind == 3) *c = s->connect(&MV::go, *mv);
        if (kind == 4) { *c = s->connect(sig::slot<long(V, const V&)>(&MV::go, std::ref(*mv))); }
    }
    void done() { delete c; delete c2; delete s; delete sp; delete mv; }
    void dis(void*) { vf_assert(c->disconnect(), "C04|disconnect() of a connected slot returns false"); }
    void con(void*) { *c2 = s->connect(FV()); }
    void blk(void*) { auto b = c->blocker(); }
    void qry(void*) { (void)c->connected(); (void)c->blocked(); }
}
#define P(name, k, A, B) SCN(name, "C09 C14 C16|thr=3") { mk(k); vf_spawn(A, nullptr); vf_spawn(B, nullptr); vf_join(); done(); }
P(thr2_fn, 0, emit<10>, emit<20>)
P(thr2_pmf, 1, emit<10>, emit<20>)
P(thr2_tracked, 2, emit<10>, emit<20>)
P(thr2_value, 3, emit<10>, emit<20>)
P(thr2_ref, 4, emit<10>, emit<20>)
P(thr2_fn_dis, 0, emit<10>, dis)
P(thr2_pmf_dis, 1, emit<10>, dis)
P(thr2_tracked_dis, 2, emit<10>, dis)
P(thr2_value_con, 3, emit<10>, con)
P(thr2_tracked_blk, 2, emit<10>, blk)
P(thr2_tracked_qry, 2, dis, qry)
#define W(name, N, ...) SCN(name, "C09 C14|thr=3") { w_ = new SW(); sp = new std::shared_ptr<MV>(std::make_shared<MV>()); mv = new MV(); w_->connect(&MV::vgo, __VA_ARGS__); vf_spawn(emitw<10>, nullptr); vf_spawn(emitw<20>, nullptr); vf_join(); delete w_; delete sp; delete mv; }
W(thr2_void_pmf, , mv)
W(thr2_void_tracked, , *sp)
W(thr2_void_value, , *mv)

// everything, on objects that are not shared: no two threads may meet anywhere in the library
namespace
{
    struct K { long k; long operator()(long a) const { return a + k; } bool operator==(const K& o) const { return k == o.k; } };
    struct Q { long k; long go(long a) { return a + k; } };
    void chk(bool c) { vf_assert(c, "C09|a thread using only its own signal gets a wrong result"); }
    struct Sum { using result_type = long; template<class I> long operator()(I f, I l) const { long t = 0; for (; f != l; ++f) { auto r = *f; t += r ? *r : 0; } return t; } };
    void own_signal(void*) { sig::signal<long(long)> s; auto a = s.connect(K{ 1 }); Q q{ 2 }; s.connect(&Q::go, &q); auto r = s(5); chk(r && *r == 7); a.disconnect(); r = s(6); chk(r && *r == 8); }
    void own_erase(void*) { sig::signal<long(long), Sum> s; s.connect(K{ 1 }); s.connect(K{ 1 }); s.connect(K{ 3 }); chk(s(1) == 8 && s.disconnect(K{ 1 }) == 2 && s(1) == 4); }
    void own_block(void*) { sig::signal<long(long)> s; auto c = s.connect(K{ 1 }); { auto b = c.blocker(); chk(!s(1)); } chk(bool(s(1))); sig::scoped_connection sc(c); }
    void own_move(void*) { sig::signal<long(long)> s; s.connect(K{ 1 }); sig::signal<long(long)> t(std::move(s)); chk(t(1) && !s(1)); s = std::move(t); chk(s(1) && !t(1)); }
    void own_slot(void*) { sig::slot<long(long)> a(K{ 1 }), b(a), d; chk(a == b && a != d && b(3) && *b(3) == 4); d = std::move(a); chk(!a && d == b); }
    void own_track(void*) { auto p = std::make_shared<Q>(Q{ 1 }); sig::signal<long(long)> s; auto c = s.connect(&Q::go, p); chk(s(1) && c.connected()); p.reset(); chk(!s(1) && !c.connected()); }
    void own_throw(void*) { sig::signal<void(long)> s; s.connect([](long a) { throw a; }); long got = 0; try { s(4); } catch (long x) { got = x; } chk(got == 4); }
    void own_opt(void*) { opt::optional<V> a(V(1)), b(a), d; d = b; b.reset(); a = std::move(d); chk(a && a->v == 1 && !b); long x = 1; opt::optional<long&> r(x); *r = 2; chk(x == 2 && r == 2L && opt::optional<long>() < opt::optional<long>(1)); }
    void own_cow(void*) { auto p = sig::detail::make_cow<long>(1L), q = p; q.write() = 2; chk(p.read() == 1 && q.read() == 2); }
}
#define OWN(n) SCN(thr_##n, "C09|thr=1 few=1") { vf_spawn(n, nullptr); vf_spawn(n, nullptr); vf_join(); }
OWN(own_signal)
OWN(own_erase)
OWN(own_block)
OWN(own_move)
OWN(own_slot)
OWN(own_track)
OWN(own_throw)
OWN(own_opt)
OWN(own_cow)
// a slot that changes its signal while another thread does
namespace
{
    using S = sig::signal<void(int)>;
    S* g; sig::connection *ca, *cb, *cc; int na, nb;
    int who;                                    // what the acting slot does (set before the threads start)
    struct Act { void operator()(int k) const { if (k != 1) return; if (who == 0) na = ca->disconnect(); if (who == 1) *cc = g->connect([](int) {}); if (who == 2) (*g)(2); if (who == 3) nb = cb->disconnect(); if (who == 4) cb->block(); } };
    void e1(void*) { (*g)(1); }
    void e2(void*) { (*g)(2); }
    void k2(void*) { g->connect([](int) {}); }
    void d2(void*) { nb = cb->disconnect(); }
}
template<int W> void act(void (*B)(void*))
{
    who = W; na = nb = 0;
    g = new S(); ca = new sig::connection(g->connect(Act())); cb = new sig::connection(g->connect([](int) {})); cc = new sig::connection();
    vf_spawn(e1, nullptr); vf_spawn(B, nullptr); vf_join();
    if (W == 0) vf_assert(na && !ca->connected(), "C04 C09|a disconnection from inside a slot fails");
    if (W == 1) vf_assert(cc->connected(), "C09 C08|a connection from inside a slot fails");
    if (W == 3 || B == d2) vf_assert(!cb->connected() && nb == 1, "C04 C09|a disconnection fails");
    delete g; vf_assert(!ca->connected() && !cb->connected() && !cc->connected(), "C12 C09|a slot outlives its signal");
    delete ca; delete cb; delete cc;
}
#define ACT(name, W, B) SCN(name, "C09 C07 C08|thr=2") { act<W>(B); }
ACT(thr_act_self_emit, 0, e2)
ACT(thr_act_self_conn, 0, k2)
ACT(thr_act_self_dis, 0, d2)
ACT(thr_act_conn_emit, 1, e2)
ACT(thr_act_conn_dis, 1, d2)
ACT(thr_act_nest_dis, 2, d2)
ACT(thr_act_nest_conn, 2, k2)
ACT(thr_act_other_emit, 3, e2)
ACT(thr_act_block_emit, 4, e2)
