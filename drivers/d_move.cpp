// Moving signals (C19).
#include "lib.hpp"
using namespace w;

namespace
{
    using S = sig::signal<int(int)>;
    using F = Fn<int, int>;
    struct Part { std::size_t n = 0; sig::connection c; };
    void fill(S& s, Part& p, unsigned tag) { while (vf_more()) { s.connect(F(BG)); ++p.n; } p.c = s.connect(F(tag)); while (vf_more()) { s.connect(F(BG)); ++p.n; } }
    void emits(S& s, std::size_t bg, unsigned x, unsigned y, unsigned n)
    {
        reset(); s(1);
        vf_assert(calls[BG] == bg && calls[X] == x && calls[Y] == y && calls[N] == n, "C19 C01|after a move, a signal does not call exactly the slots it should have");
    }
    void reuse(S& s)                             // a moved-from signal is empty and fully usable
    {
        emits(s, 0, 0, 0, 0);
        vf_assert(s.disconnect(F(BG)) == 0, "C19 C15|a moved-from signal still has slots");
        auto c = s.connect(F(N)); emits(s, 0, 0, 0, 1);
        vf_assert(c.connected(), "C19|a moved-from signal cannot be connected to");
        if (vf_nd(2)) { vf_assert(c.disconnect(), "C19 C04|a slot of a moved-from signal cannot be disconnected"); emits(s, 0, 0, 0, 0); }
        else { vf_assert(s.disconnect(F(N)) == 1, "C19 C15|a slot of a moved-from signal cannot be disconnected"); emits(s, 0, 0, 0, 0); }
    }
    void control(S& t, Part& p, unsigned bg)     // the connection works on the target
    {
        vf_assert(p.c.connected() && !p.c.blocked(), "C19|a connection is lost when its signal moves");
        p.c.block(); emits(t, bg, 0, 0, 0); vf_assert(p.c.blocked(), "C19 C05|a slot cannot be blocked after its signal moved");
        p.c.unblock(); emits(t, bg, 1, 0, 0);
        auto k = t.connect(F(N)); emits(t, bg, 1, 0, 1);
        vf_assert(p.c.disconnect(), "C19 C04|a slot cannot be disconnected after its signal moved"); emits(t, bg, 0, 0, 1);
        vf_assert(!p.c.connected() && !p.c.disconnect(), "C19 C04|a slot is disconnected twice");
        vf_assert(k.disconnect(), "C19 C04|a slot cannot be disconnected"); emits(t, bg, 0, 0, 0);
    }
}
#define T "C19 C01 C23 C12 C07"
SCN(move_ctor, T)
{
    {
        S a; Part p; fill(a, p, X);
        S b(std::move(a));
        emits(b, p.n, 1, 0, 0);
        reuse(a);
        control(b, p, p.n);
    }
    vf_assert(live[BG] == 0 && live[X] == 0 && live[N] == 0, "C19 C23|moving a signal leaks a callable");
}
SCN(move_assign, T)
{
    {
        S a; Part p; fill(a, p, X);
        S b; Part q; q.c = b.connect(F(Y)); while (vf_more()) { b.connect(F(Z)); }
        b = std::move(a);
        vf_assert(!q.c.connected() && !q.c.disconnect() && live[Y] == 0 && live[Z] == 0, "C19 C02 C12|the slots replaced by an assignment are not disconnected");
        emits(b, p.n, 1, 0, 0);
        vf_assert(calls[Z] == 0, "C19 C02|the slots replaced by an assignment are still called");
        reuse(a);
        control(b, p, p.n);
    }
    vf_assert(live[BG] == 0 && live[X] == 0 && live[N] == 0, "C19 C23|moving a signal leaks a callable");
}
SCN(move_back, T)
{
    {
        S a; Part p; fill(a, p, X);
        { S b(std::move(a)); a = std::move(b); emits(b, 0, 0, 0, 0); }
        emits(a, p.n, 1, 0, 0);
        control(a, p, p.n);
    }
}
SCN(move_self, T)
{
    {
        S a; Part p; fill(a, p, X);
        S& r = a; a = std::move(r);
        emits(a, p.n, 1, 0, 0);
        control(a, p, p.n);
    }
    vf_assert(live[BG] == 0, "C19 C23|moving a signal leaks a callable");
}
SCN(move_swap, T)
{
    {
        S a, b; Part p; fill(a, p, X); Part q; q.c = b.connect(F(Y));
        using std::swap; swap(a, b);
        emits(a, 0, 0, 1, 0); emits(b, p.n, 1, 0, 0);
        vf_assert(q.c.disconnect(), "C19 C04|a slot cannot be disconnected after its signal was swapped"); emits(a, 0, 0, 0, 0);
        control(b, p, p.n);
    }
}
SCN(move_source_dies, T)
{
    {
        S* a = new S(); Part p; fill(*a, p, X);
        S* b = new S(std::move(*a)); delete a;
        emits(*b, p.n, 1, 0, 0);
        control(*b, p, p.n);
        delete b;
    }
    vf_assert(live[BG] == 0, "C19 C23|moving a signal leaks a callable");
}
SCN(move_target_dies, T)
{
    {
        S a; Part p; fill(a, p, X);
        { S b(std::move(a)); }
        vf_assert(!p.c.connected() && !p.c.disconnect() && live[X] == 0 && live[BG] == 0, "C19 C12 C02|the slots do not end with the signal they were moved to");
        reuse(a);
    }
}
// empty and moved-from sources
SCN(move_empty, T)
{
    { S a; S b(std::move(a)); reuse(a); reuse(b); S c(std::move(a)); S d; d = std::move(c); reuse(c); reuse(d); }
    {
        S a; S b; Part p; p.c = b.connect(F(X));
        S c(std::move(a));            // a is moved-from and empty
        b = std::move(a);             // replaces the slots of b by none
        vf_assert(!p.c.connected() && live[X] == 0, "C19 C02|the slots replaced by an assignment are not disconnected");
        reuse(b); reuse(a);
        a = std::move(b); b = std::move(a); reuse(a); reuse(b);
    }
}
// blockers and scoped connections keep working across moves
SCN(move_handles, T " C11 C05")
{
    {
        S a; std::size_t n = 0; while (vf_more()) { a.connect(F(BG)); ++n; }
        auto c = a.connect(F(X)); auto* bl = new sig::connection_blocker(c.blocker());
        auto* sc = new sig::scoped_connection(a.connect_scoped(F(Y)));
        S b(std::move(a));
        emits(b, n, 0, 1, 0); delete bl; emits(b, n, 1, 1, 0); delete sc; emits(b, n, 1, 0, 0);
        vf_assert(c.disconnect(), "C19 C04|a slot cannot be disconnected after its signal moved"); emits(b, n, 0, 0, 0);
    }
}
// moving in the middle of an emission of either signal
namespace { S *ga, *gb; }
static void a_mv() { *gb = std::move(*ga); }
static void a_mvback() { *ga = std::move(*gb); }
SCN(move_during, T " C08 C02")
{
    {
        S a, b; ga = &a; gb = &b; std::size_t n = 0, m = 0;
        auto ca = a.connect(F(X)); while (vf_more()) { a.connect(F(BG)); ++n; }
        auto cb = b.connect(F(Y)); while (vf_more()) { b.connect(F(Z)); ++m; }
        reset();
        if (vf_nd(2))
        {
            actor = X; action = a_mv; a(1);
            vf_assert(calls[X] == 1 && calls[BG] == n, "C19 C08 C01|moving a signal during an emission makes it skip a slot");
            emits(b, n, 1, 0, 0);
        }
        else
        {
            actor = Y; action = a_mv; b(1);                 // b's own slots are replaced while they are being called
            vf_assert(calls[Y] == 1 && calls[Z] == 0, "C19 C02|slots replaced by an assignment are still called");
            emits(b, n, 1, 0, 0);
        }
        vf_assert(!cb.connected() && live[Y] == 0 && live[Z] == 0, "C19 C02 C23|the slots replaced by an assignment are not destroyed");
        reset(); actor = X; action = a_mvback; b(1);
        vf_assert(calls[X] == 1 && calls[BG] == n, "C19 C08 C01|moving a signal during an emission makes it skip a slot");
        emits(a, n, 1, 0, 0); emits(b, 0, 0, 0, 0);
        vf_assert(ca.disconnect(), "C19 C04|a slot cannot be disconnected after its signal moved");
        emits(a, n, 0, 0, 0);
    }
    vf_assert(live[BG] == 0 && live[X] == 0, "C19 C23|moving a signal leaks a callable");
}
