// Long uses of the same objects: nothing may depend on how often something was done before. Each loop is analysed to a fixpoint; where
// that fails (a counter in the library), fixed numbers of iterations around the constants found in the code are analysed.
#include "lib.hpp"
using namespace w;
namespace
{
    unsigned long cnt[4];
    struct K { unsigned k; int operator()(int a) const { ++cnt[k]; return a + int(k); } bool operator==(const K& o) const { return k == o.k; } };
    struct V { unsigned k; void operator()() const { ++cnt[k]; } bool operator==(const V& o) const { return k == o.k; } };
    void zero() { for (auto& c : cnt) c = 0; }
    void look(sig::signal<int(int)>& s, unsigned a, unsigned b)
    {
        zero(); auto r = s(5);
        vf_assert(cnt[0] == a && cnt[1] == b, "C01 C02 C03 C05|an emission does not call exactly the connected unblocked slots once");
        vf_assert(r.has_value() == (a + b > 0) && (!r || *r == 5 + int(b ? 1 : 0)), "C16 C14|the result is not that of the last slot called");
    }
}
#define LBL "C01 C02 C03 C04 C05 C12 C13 C14 C16 C23"
SCN(long_emit, LBL "|more=4")
{
    sig::signal<int(int)> s; auto c = s.connect(K{ 0 }); s.connect(K{ 1 });
    while (vf_more()) look(s, 1, 1);
    vf_assert(c.connected() && c.valid() && !c.blocked(), "C04 C12|a connection is lost");
    vf_assert(c.disconnect(), "C04|disconnect() of a connected slot returns false"); look(s, 0, 1);
    s.connect(K{ 0 }); zero(); s(1); vf_assert(cnt[0] == 1 && cnt[1] == 1, "C01|a connected slot is not called exactly once");
}
SCN(long_emit_void, "C01 C12 C23|more=4")
{
    const sig::signal<void()> s; auto& m = const_cast<sig::signal<void()>&>(s); m.connect(V{ 0 }); m.connect(V{ 1 });
    while (vf_more()) { zero(); s(); vf_assert(cnt[0] == 1 && cnt[1] == 1, "C01|a connected slot is not called exactly once"); }
}
SCN(long_connect_disconnect, LBL "|more=4")
{
    sig::signal<int(int)> s; auto a = s.connect(K{ 0 });
    while (vf_more())
    {
        auto b = s.connect(K{ 1 }); look(s, 1, 1);
        vf_assert(b.disconnect() && !b.disconnect() && !b.connected(), "C04|disconnect() does not report the disconnection exactly once"); look(s, 1, 0);
        vf_assert(a.connected(), "C03|disconnecting a slot affects another one");
    }
    vf_assert(a.disconnect(), "C04|disconnect() of a connected slot returns false"); look(s, 0, 0);
}
SCN(long_by_callable, LBL " C15|more=4")
{
    sig::signal<int(int)> s; auto a = s.connect(K{ 0 });
    while (vf_more())
    {
        s.connect(K{ 1 }); s.connect(K{ 1 }); zero(); s(0); vf_assert(cnt[0] == 1 && cnt[1] == 2, "C01|a connected slot is not called exactly once");
        vf_assert(s.disconnect(K{ 1 }) == 2, "C15|disconnect by callable does not return how many slots were removed"); look(s, 1, 0);
    }
    vf_assert(a.disconnect(), "C04|disconnect() of a connected slot returns false");
}
SCN(long_block, LBL "|more=4")
{
    sig::signal<int(int)> s; auto a = s.connect(K{ 0 }), b = s.connect(K{ 1 });
    while (vf_more())
    {
        if (vf_nd(2)) { b.block(); vf_assert(b.blocked(), "C05|block() does not block"); look(s, 1, 0); b.unblock(); }
        else { auto k = a.blocker(); vf_assert(a.blocked(), "C05|a blocker does not block"); look(s, 0, 1); }
        vf_assert(!a.blocked() && !b.blocked(), "C05|unblocking does not unblock"); look(s, 1, 1);
    }
}
SCN(long_scoped, LBL " C11|more=4")
{
    sig::signal<int(int)> s; auto a = s.connect(K{ 0 });
    while (vf_more())
    {
        { auto b = s.connect_scoped(K{ 1 }); look(s, 1, 1); sig::scoped_connection c(std::move(b)); look(s, 1, 1); }
        look(s, 1, 0);
    }
    vf_assert(a.connected(), "C03 C11|a scoped connection disconnects another slot");
}
SCN(long_move, LBL " C19|more=4")
{
    sig::signal<int(int)> s, t; auto a = s.connect(K{ 0 }), b = s.connect(K{ 1 });
    while (vf_more()) { t = std::move(s); look(t, 1, 1); s = std::move(t); look(s, 1, 1); vf_assert(a.connected() && b.connected(), "C19|a move loses a connection"); }
    vf_assert(a.disconnect(), "C19 C04|a connection does not work after moves"); look(s, 0, 1); vf_assert(b.disconnect(), "C19 C04|a connection does not work after moves");
}
SCN(long_nested, "C01 C08 C07 C23|abs=0 more=3")
{
    static sig::signal<void()>* s; static unsigned long depth, most;
    s = new sig::signal<void()>; depth = most = 0;
    s->connect([] { ++cnt[0]; if (depth < most) { ++depth; (*s)(); } });
    s->connect(V{ 1 });
    while (vf_more()) ++most;
    zero(); (*s)();
    vf_assert(cnt[0] == most + 1 && cnt[1] == most + 1, "C01 C08|a nested emission does not call every slot");
    delete s;
}
SCN(long_slots, LBL " C20|more=4")
{
    sig::signal<int(int)> s; sig::slot<int(int)> k{ K{ 1 } }; s.connect(K{ 0 });
    while (vf_more())
    {
        auto c = s.connect(k); look(s, 1, 1); vf_assert(c.disconnect(), "C04|disconnect() of a connected slot returns false"); look(s, 1, 0);
        sig::slot<int(int)> q(k); k = std::move(q); vf_assert(bool(k) && *k(4) == 5, "C20|a slot loses its callable");
    }
}
SCN(long_tracked, "C06 C01 C12 C23|more=4")
{
    struct T { int f(int a) { ++cnt[1]; return a + 1; } };
    sig::signal<int(int)> s; s.connect(K{ 0 }); auto p = std::make_shared<T>();
    auto c = s.connect(&T::f, p);
    while (vf_more()) look(s, 1, 1);
    vf_assert(p.use_count() == 1 && c.connected(), "C06|a tracked object is kept alive, or its slot is lost");
    p = nullptr; look(s, 1, 0); vf_assert(!c.connected(), "C06|a slot whose object died is still connected");
}
SCN(long_cow, "C10 C23|more=4")
{
    auto p = sig::detail::make_cow<long>(0L);
    long n = 0;
    while (vf_more()) { auto q = p; q.write() = 1; vf_assert(p.read() == 0 && q.read() == 1, "C10|a write is seen through a copy"); p.write() = 2; vf_assert(p.read() == 2 && q.read() == 1, "C10|a write is seen through a copy"); p.write() = 0; }
    vf_assert(p.read() == 0 && n == 0, "C10|a value is lost");
}
SCN(long_copies, "C10 C23|abs=0 more=4")
{
    struct L { sig::detail::cow_ptr<long> c; L* next; };
    auto p = sig::detail::make_cow<long>(7L); const auto& cp = p; const long* at = &cp.read();
    L* h = nullptr;
    while (vf_more()) { h = new L{ p, h }; }
    if (h) { h->c.write() = 8; vf_assert(cp.read() == 7 && &cp.read() == at, "C10|a write is seen through a copy"); if (h->next) { const auto& o = h->next->c; vf_assert(o.read() == 7 && &o.read() == at, "C10|a copy does not share until written"); } }
    p.write() = 9; if (h && h->next) { const auto& o = h->next->c; vf_assert(o.read() == 7, "C10|a write is seen through a copy"); }
    while (h) { auto x = h->next; delete h; h = x; }
}
SCN(long_optional, "C17 C18 C23|more=4")
{
    opt::optional<std::shared_ptr<int>> o; auto p = std::make_shared<int>(3);
    while (vf_more()) { o = p; vf_assert(p.use_count() == 2 && o && **o == 3, "C17 C18|an optional does not hold the value it was given"); opt::optional<std::shared_ptr<int>> q(o); vf_assert(p.use_count() == 3, "C17|a copy of an optional does not copy its value"); o.reset(); vf_assert(p.use_count() == 2 && !o, "C17|a value is not destroyed exactly once"); }
    vf_assert(p.use_count() == 1, "C17|a value is not destroyed exactly once");
}
