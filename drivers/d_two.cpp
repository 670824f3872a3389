// Several signals side by side: what happens to one never shows in another, slots may be connected to both, and whole signals change places.
#include "lib.hpp"
using namespace w;

namespace
{
    using S = sig::signal<int(int)>;
    using F = Fn<int, int>;
    using Slot = sig::slot<int(int)>;
    S* s[2];
    sig::connection c[3];
    int at[3];                      // 0: not connected, 1, 2: connected to the first or second signal
    bool bl[3];
    void observe()
    {
        for (unsigned t = 1; t <= 2; ++t)
        {
            vf_assert(c[t].connected() == (at[t] != 0), "C02 C03 C12 C19|a connection does not report whether its slot is connected");
            vf_assert(c[t].blocked() == (at[t] && bl[t]), "C05 C03 C12 C19|a connection does not report whether its slot is blocked");
            vf_assert(live[t] == (at[t] ? 1 : 0), "C12 C23 C19|a callable is not destroyed exactly when its slot is disconnected");
        }
    }
    void emit(unsigned k)
    {
        reset();
        auto r = (*s[k])(1);
        int n = 0;
        for (unsigned t = 1; t <= 2; ++t)
        {
            bool now = at[t] == (int)k + 1 && !bl[t];
            n += now;
            vf_assert(calls[t] == (now ? 1u : 0u), "C01 C02 C03 C05 C19|an emission does not call exactly the connected, unblocked slots of its own signal");
        }
        vf_assert(bool(r) == (n != 0), "C16 C01|the default combiner does not return a value exactly when a slot yielded one");
        reset();
    }
    void op_connect(unsigned k, unsigned t) { if (!at[t]) { c[t] = s[k]->connect(F(t)); at[t] = (int)k + 1; bl[t] = false; } }
    void op_disc(unsigned t) { bool r = c[t].disconnect(); vf_assert(r == (at[t] != 0), "C04 C03 C12 C19|disconnect() does not report success exactly once per slot"); at[t] = 0; }
    void op_byfn(unsigned k, unsigned t) { auto n = s[k]->disconnect(F(t)); bool was = at[t] == (int)k + 1; vf_assert(n == (was ? 1u : 0u), "C15 C03|disconnect by callable does not report the number of matching slots of its own signal"); if (was) at[t] = 0; }
    void op_assign(unsigned k) { *s[k] = std::move(*s[1 - k]); for (unsigned t = 1; t <= 2; ++t) at[t] = at[t] == 2 - (int)k ? (int)k + 1 : 0; }
    void op_swap() { std::swap(*s[0], *s[1]); for (unsigned t = 1; t <= 2; ++t) at[t] = at[t] ? 3 - at[t] : 0; }
    void op_destroy(unsigned k) { delete s[k]; for (unsigned t = 1; t <= 2; ++t) if (at[t] == (int)k + 1) at[t] = 0; observe(); s[k] = new S(); }
    void op_block(unsigned t) { c[t].block(); bl[t] = at[t] != 0; }
    void op_unblock(unsigned t) { c[t].unblock(); bl[t] = false; }
    unsigned pick() { return 1 + vf_nd(2); }
    void begin() { s[0] = new S(); s[1] = new S(); }
    void end()
    {
        emit(0); emit(1);
        unsigned k = vf_nd(2);
        delete s[k]; for (unsigned t = 1; t <= 2; ++t) if (at[t] == (int)k + 1) at[t] = 0;
        observe(); emit(1 - k);
        delete s[1 - k]; at[1] = at[2] = 0; observe();
        for (unsigned t = 1; t <= 2; ++t) { vf_assert(!c[t].disconnect(), "C04 C12|a connection of a destroyed signal can be disconnected"); c[t] = sig::connection(); }
    }
    // what a slot of one signal does to the other one
    unsigned other; unsigned victim;
    void in_emit() { (*s[other])(1); }
    void in_disc() { vf_assert(c[victim].disconnect() == (at[victim] != 0), "C04|disconnect() does not report success exactly once per slot"); at[victim] = 0; }
    void in_assign() { op_assign(other); }
    void in_kill() { op_destroy(other); }
    void acting(unsigned k, unsigned who, unsigned what)
    {
        if (at[who] != (int)k + 1 || bl[who]) return;
        unsigned y = 3 - who;
        int ay = at[y]; bool on_y = ay && !bl[y];
        other = 1 - k; victim = y; actor = who; reset();
        if (what == 1 && ay == (int)k + 1) { actor = 99; return; }   // removal from the signal being emitted: d_reent
        action = what == 0 ? in_emit : what == 1 ? in_disc : in_kill;
        (*s[k])(1);
        actor = 99; action = nullptr;
        vf_assert(calls[who] == 1, "C08 C01|an emission is disturbed by what its slot does to another signal");
        if (ay == (int)k + 1) vf_assert(calls[y] == (on_y ? 1u : 0u), "C08 C01 C03|an emission is disturbed by what its slot does to another signal");
        else vf_assert(calls[y] == (what == 0 && on_y ? 1u : 0u), "C08 C01|a nested emission does not call the slots of its own signal");
        reset(); other = victim = 0;
    }
}
#define T "C01 C02 C03 C04 C12 C23"
SCN(two_hist, T " C15|more=3")
{
    begin();
    while (vf_more())
    {
        switch (vf_nd(4)) { case 0: op_connect(vf_nd(2), pick()); break; case 1: op_disc(pick()); break; case 2: op_byfn(vf_nd(2), pick()); break; case 3: op_destroy(vf_nd(2)); break; }
        observe(); emit(0); emit(1);
    }
    end();
}
SCN(two_move, T " C19 C07|more=3")
{
    begin();
    while (vf_more())
    {
        switch (vf_nd(4)) { case 0: op_connect(vf_nd(2), pick()); break; case 1: op_disc(pick()); break; case 2: op_assign(vf_nd(2)); break; case 3: op_swap(); break; }
        observe(); emit(0); emit(1);
    }
    end();
}
SCN(two_block, T " C05 C19|more=3")
{
    begin();
    while (vf_more())
    {
        switch (vf_nd(5)) { case 0: op_connect(vf_nd(2), pick()); break; case 1: op_block(pick()); break; case 2: op_unblock(pick()); break; case 3: op_assign(vf_nd(2)); break; case 4: op_disc(pick()); break; }
        observe(); emit(0); emit(1);
    }
    end();
}
SCN(two_nested, T " C08 C07|more=3")
{
    begin();
    while (vf_more())
    {
        switch (vf_nd(2)) { case 0: op_connect(vf_nd(2), pick()); break; case 1: acting(vf_nd(2), pick(), vf_nd(3)); break; }
        observe();
    }
    end();
}
// one slot object connected to two signals, several times
SCN(two_same_slot, T " C20 C15")
{
    S a, b; Slot sl{ F(X) };
    auto a1 = a.connect(sl), a2 = a.connect(sl), b1 = b.connect(sl);
    vf_assert(a1.connected() && a2.connected() && b1.connected(), "C20|connecting a slot twice does not work");
    switch (vf_nd(6)) { case 0: a1.block(); break; case 1: a1.disconnect(); break; case 2: sl.block(); break; case 3: sl.disconnect(); break; case 4: { sig::scoped_connection q(a2); } break; case 5: break; }
    bool o1 = a1.connected() && !a1.blocked(), o2 = a2.connected();
    reset(); a(1); vf_assert(calls[X] == (o1 ? 1u : 0u) + (o2 ? 1u : 0u), "C20 C01 C03|slots copied from one slot are not independent of it and of each other");
    reset(); b(1); vf_assert(calls[X] == 1, "C20 C01 C03|slots copied from one slot are not independent of it and of each other");
    if (vf_nd(2)) { vf_assert(b.disconnect(sl) == 1 || !sl.connected(), "C15|disconnect by slot does not remove the slot"); reset(); a(1); vf_assert(calls[X] == (o1 ? 1u : 0u) + (o2 ? 1u : 0u), "C03 C20|disconnecting from one signal changes another"); }
}
// any number of slots on both signals, interleaved; then one signal goes away
SCN(two_lists, T " C19|join=1")
{
    S *a = new S(), *b = new S();
    while (vf_more()) { a->connect(F(Y)); b->connect(F(Z)); }
    auto x = vf_nd(2) ? a->connect(F(X)) : b->connect(F(X));
    while (vf_more()) { b->connect(F(Z)); a->connect(F(Y)); }
    std::size_t n = live[Y], m = live[Z];
    reset(); (*a)(1); vf_assert(calls[Y] == n && calls[Z] == 0, "C01|an emission does not call exactly the slots of its own signal");
    reset(); (*b)(1); vf_assert(calls[Z] == m && calls[Y] == 0, "C01|an emission does not call exactly the slots of its own signal");
    if (vf_nd(2)) { vf_assert(x.disconnect() && live[X] == 0, "C04 C12|a slot is not disconnected"); }
    if (vf_nd(2)) { delete a; vf_assert(live[Y] == 0 && (std::size_t)live[Z] == m, "C12 C23|destroying a signal does not destroy exactly its own callables"); reset(); (*b)(1); vf_assert(calls[Z] == m, "C01 C03|destroying a signal disturbs another"); delete b; }
    else { *a = std::move(*b); vf_assert(live[Y] == 0 && (std::size_t)live[Z] == m, "C19 C12 C23|assigning a signal does not replace exactly its slots"); reset(); (*a)(1); (*b)(1); vf_assert(calls[Z] == m, "C19 C01|a moved signal does not call exactly the slots of its source"); delete b; reset(); (*a)(1); vf_assert(calls[Z] == m, "C19|destroying the moved-from signal disturbs the target"); delete a; }
    vf_assert(live[X] + live[Y] + live[Z] == 0 && !x.connected(), "C12 C23|callables survive their signal");
}
