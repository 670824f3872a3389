// A slot in the middle of arbitrarily many others changes its own signal while it is being called.
#include "lib.hpp"
using namespace w;

namespace
{
    using S = sig::signal<int(int)>;
    using F = Fn<int, int>;
    S* s; 
    sig::connection cx, cy, cn;
    sig::scoped_connection* sy;
    sig::connection_blocker* by;
    std::size_t n1, n2, n3;       // lengths of the segments before, between and after X and Y
    bool ybefore;
    bool boom;

    std::size_t n() { return n1 + n2 + n3; }
    std::size_t bgbefore() { return ybefore ? n1 + n2 : n1; }    // background slots in front of X
    void build()
    {
        s = new S();
        reset();
        ybefore = vf_nd(2);
        while (vf_more()) { s->connect(F(BG)); ++n1; }
        if (ybefore) cy = s->connect(F(Y)); else cx = s->connect(F(X));
        while (vf_more()) { s->connect(F(BG)); ++n2; }
        if (ybefore) cx = s->connect(F(X)); else cy = s->connect(F(Y));
        while (vf_more()) { s->connect(F(BG)); ++n3; }
    }
    void emit_acting(void (*a)()) { reset(); actor = X; action = a; (*s)(1); actor = 99; action = nullptr; }
    void others(std::size_t k)
    {
        vf_assert(calls[BG] == k, "C01 C03 C08|a change made from inside a slot makes the emission in progress skip or repeat another connected slot");
    }
    void once_x() { vf_assert(calls[X] == 1, "C01 C08|the slot making a change is not called exactly once by the emission in progress"); }
    void later(std::size_t x, std::size_t y, std::size_t nn, std::size_t b)
    {
        reset();
        (*s)(2);
        vf_assert(calls[X] == x || x == 0, "C01 C03 C08|a connected slot is not called exactly once after a change made during an emission");
        vf_assert(calls[Y] == y || y == 0, "C01 C03 C08|a connected slot is not called exactly once after a change made during an emission");
        vf_assert(calls[X] == x || x != 0, "C02 C03|a slot disconnected during an emission is called later");
        vf_assert(calls[Y] == y || y != 0, "C02 C03 C05|a slot disconnected or blocked during an emission is called later");
        vf_assert(calls[N] == nn, "C01 C08|a slot connected during an emission is not called exactly once by the next one");
        vf_assert(calls[BG] == b, "C01 C03 C08|the other slots are not all called exactly once after a change made during an emission");
    }
    void finish()
    {
        delete s;
        cx = cy = cn = sig::connection();
        vf_assert(live[BG] == 0 && live[X] == 0 && live[Y] == 0 && live[N] == 0, "C12 C23|a callable is not destroyed with its signal");
    }
}
#define T "C01 C02 C03 C07 C08 C12 C23"

static void a_self() { vf_assert(cx.disconnect(), "C04|disconnect() from inside the slot fails"); vf_assert(!cx.connected() && !cx.disconnect(), "C02 C04|a disconnected slot reports connected"); vf_assert(live[X] == 1, "C23 C08|a callable is destroyed while it is being called"); }
SCN(re_self, T " C04" "|abs=t") { build(); emit_acting(a_self); once_x(); vf_assert(calls[Y] == 1, "C01 C03 C08|another slot is skipped or repeated"); others(n()); vf_assert(live[X] == 0, "C12 C23|the callable of a disconnected slot is not destroyed"); later(0, 1, 0, n()); finish(); }

static void a_other() { vf_assert(cy.disconnect(), "C04|disconnect() from inside a slot fails"); vf_assert(!cy.connected() && !cy.disconnect(), "C02 C04|a disconnected slot reports connected"); }
static void chk_y() { vf_assert(calls[Y] == 1 || !ybefore, "C01|a slot is not called exactly once"); vf_assert(calls[Y] == 0 || ybefore, "C02|a slot disconnected during an emission is still called by it"); }
SCN(re_other, T " C04") { build(); emit_acting(a_other); once_x(); chk_y(); others(n()); later(1, 0, 0, n()); vf_assert(live[Y] == 0, "C12 C23|the callable of a disconnected slot is not destroyed"); vf_assert(cx.disconnect(), "C04 C03|disconnect() fails"); later(0, 0, 0, n()); finish(); }

static void a_byfn() { vf_assert(s->disconnect(F(Y)) == 1, "C15|disconnect by callable from inside a slot does not remove exactly the matching slot"); vf_assert(!cy.connected() && !cy.disconnect(), "C02 C04 C15|a disconnected slot reports connected"); }
SCN(re_byfn, T " C15 C04" "|abs=t") { build(); emit_acting(a_byfn); once_x(); chk_y(); others(n()); later(1, 0, 0, n()); vf_assert(live[Y] == 0, "C12 C23|the callable of a disconnected slot is not destroyed"); finish(); }

static void a_byfnself() { vf_assert(s->disconnect(F(X)) == 1, "C15|disconnect by callable from inside a slot does not remove exactly the matching slot"); vf_assert(live[X] == 1, "C23 C08|a callable is destroyed while it is being called"); }
SCN(re_byfnself, T " C15" "|abs=t") { build(); emit_acting(a_byfnself); once_x(); vf_assert(calls[Y] == 1, "C01 C03 C08|another slot is skipped or repeated"); others(n()); later(0, 1, 0, n()); finish(); }

static void a_byfnmany() { std::size_t k = s->disconnect(F(BG)); vf_assert(k == n(), "C15|disconnect by callable does not report the number of matching slots"); }
SCN(re_byfnmany, T " C15" "|abs=t") { build(); emit_acting(a_byfnmany); once_x(); vf_assert(calls[Y] == 1, "C01 C03 C08|another slot is skipped or repeated"); vf_assert(calls[BG] == bgbefore(), "C02|a slot disconnected by callable during an emission is still called by it"); later(1, 1, 0, 0); finish(); }

static void a_connect() { cn = s->connect(F(N)); vf_assert(cn.connected(), "C01|a new connection is not connected"); }
SCN(re_connect, T) { build(); emit_acting(a_connect); once_x(); vf_assert(calls[Y] == 1, "C01 C08|another slot is skipped or repeated"); others(n()); vf_assert(calls[N] == 0, "C08|a slot connected during an emission is called by it"); later(1, 1, 1, n()); vf_assert(cn.disconnect(), "C04|disconnect() fails"); later(1, 1, 0, n()); finish(); }

static void a_nested() { (*s)(2); }
SCN(re_nested, T) { build(); emit_acting(a_nested); vf_assert(calls[X] == 2 && calls[Y] == 2 && calls[BG] == 2 * n(), "C01 C08|a nested emission disturbs the one in progress"); later(1, 1, 0, n()); finish(); }

static void a_connnest() { a_connect(); (*s)(2); }
SCN(re_connect_nested, T "|abs=t") { build(); emit_acting(a_connnest); vf_assert(calls[X] == 2 && calls[Y] == 2 && calls[BG] == 2 * n(), "C01 C08|a nested emission disturbs the one in progress"); vf_assert(calls[N] == 1, "C08|a slot connected during an emission is not called exactly by the emissions started later"); later(1, 1, 1, n()); finish(); }

static void a_selfconn() { a_self(); a_connect(); }
SCN(re_self_connect, T " C04" "|abs=t") { build(); emit_acting(a_selfconn); once_x(); vf_assert(calls[Y] == 1, "C01 C03 C08|another slot is skipped or repeated"); others(n()); vf_assert(calls[N] == 0, "C08|a slot connected during an emission is called by it"); later(0, 1, 1, n()); finish(); }

static void a_discnest() { a_other(); (*s)(2); }
SCN(re_other_nested, T " C04" "|abs=t") { build(); emit_acting(a_discnest); vf_assert(calls[X] == 2 && calls[BG] == 2 * n(), "C01 C03 C08|a nested emission disturbs the one in progress"); vf_assert(calls[Y] == (ybefore ? 1 : 0), "C02|a slot disconnected during an emission is still called by it"); later(1, 0, 0, n()); finish(); }

static void a_block() { cy.block(); vf_assert(cy.blocked(), "C05|a blocked slot does not report blocked"); }
SCN(re_block, T " C05") { build(); emit_acting(a_block); once_x(); vf_assert(calls[Y] == (ybefore ? 1 : 0), "C05|a slot blocked during an emission is still called by it"); others(n()); later(1, 0, 0, n()); cy.unblock(); later(1, 1, 0, n()); finish(); }

static void a_unblock() { delete by; }
SCN(re_unblock, T " C05") { build(); by = new sig::connection_blocker(cy.blocker()); emit_acting(a_unblock); once_x(); vf_assert(calls[Y] == (ybefore ? 0 : 1), "C05|a slot unblocked during an emission is not called by it"); others(n()); later(1, 1, 0, n()); finish(); }

static void a_scoped() { delete sy; vf_assert(!cy.connected(), "C02 C11|a slot whose scoped connection is gone is still connected"); }
SCN(re_scoped, T " C11" "|abs=t") { build(); sy = new sig::scoped_connection(cy); emit_acting(a_scoped); once_x(); chk_y(); others(n()); later(1, 0, 0, n()); finish(); }

static void a_destroy() { delete s; s = nullptr; vf_assert(!cx.connected() && !cy.connected() && !cy.disconnect() && !cx.disconnect(), "C12 C02 C04|a connection of a destroyed signal is still connected"); }
SCN(re_destroy, T " C04")
{
    build(); emit_acting(a_destroy); once_x(); chk_y();
    vf_assert(calls[BG] == bgbefore(), "C02|a slot of a signal destroyed during an emission is still called by it");
    vf_assert(!cx.connected() && !cx.disconnect() && !cy.disconnect() && !cx.blocked(), "C12|a connection of a destroyed signal is still connected");
    cx = cy = cn = sig::connection();
    vf_assert(live[BG] == 0 && live[X] == 0 && live[Y] == 0, "C12 C23|a callable outlives its signal and the emissions in progress");
}

static void a_move() { S* t = new S(std::move(*s)); delete s; s = t; }
SCN(re_move, "C01 C19 C07 C08 C12 C23" "|abs=t") { build(); emit_acting(a_move); once_x(); vf_assert(calls[Y] == 1, "C01 C19 C08|moving a signal during an emission makes it skip a slot"); vf_assert(calls[BG] == n(), "C01 C19 C08|moving a signal during an emission makes it skip a slot"); later(1, 1, 0, n()); vf_assert(cy.disconnect(), "C19 C04|a connection is lost by moving its signal"); later(1, 0, 0, n()); finish(); }

struct Boom { int k; };
static void a_throw() { throw Boom{ 5 }; }
SCN(re_throw, "C01 C03 C07 C13 C23")
{
    build();
    bool thrown = false;
    try { emit_acting(a_throw); } catch (const Boom& b) { thrown = b.k == 5; }
    actor = 99; action = nullptr;
    vf_assert(thrown, "C13|an exception thrown by a slot does not reach the caller of the signal");
    vf_assert(calls[X] == 1 && calls[Y] == (ybefore ? 1 : 0) && calls[BG] == bgbefore(), "C13|slots are called after one has thrown, or not before");
    vf_assert(cx.connected() && cy.connected() && !cx.blocked(), "C13|an exception disconnects a slot");
    vf_assert(live[BG] == (long)n() && live[X] == 1 && live[Y] == 1, "C13 C23|an exception leaks or destroys callables");
    later(1, 1, 0, n());
    cn = s->connect(F(N)); later(1, 1, 1, n());
    vf_assert(cx.disconnect(), "C13 C04|a slot cannot be disconnected after it threw"); later(0, 1, 1, n());
    finish();
}
static void a_discthrow() { cy.disconnect(); s->connect(F(N)); throw Boom{ 5 }; }
SCN(re_changethrow, "C01 C02 C03 C07 C13 C23" "|abs=t")
{
    build();
    bool thrown = false;
    try { emit_acting(a_discthrow); } catch (const Boom& b) { thrown = b.k == 5; }
    actor = 99; action = nullptr;
    vf_assert(thrown, "C13|an exception thrown by a slot does not reach the caller of the signal");
    vf_assert(calls[X] == 1 && calls[Y] == (ybefore ? 1 : 0) && calls[BG] == bgbefore(), "C13|slots are called after one has thrown, or not before");
    later(1, 0, 1, n());
    finish();
}
