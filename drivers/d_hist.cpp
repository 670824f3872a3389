// Every history of operations on a few slots of one signal, checked against the obvious reference model.
#include "lib.hpp"
using namespace w;

namespace
{
    using S = sig::signal<int(int)>;
    using F = Fn<int, int>;
    using Slot = sig::slot<int(int)>;
    S* s;
    sig::connection c[4], d[4];      // handles of the slots X, Y, Z; d: copies
    bool on[4], bl[4];
    unsigned NS;                     // number of slots used

    void observe()
    {
        for (unsigned t = 1; t <= NS; ++t)
        {
            vf_assert(c[t].connected() == on[t], "C02 C03 C04 C11 C12 C13 C19|a connection does not report whether its slot is connected");
            vf_assert(d[t].connected() == on[t], "C04 C12|copies of a connection disagree");
            vf_assert(c[t].blocked() == (on[t] && bl[t]) && d[t].blocked() == (on[t] && bl[t]), "C05 C03 C12|a connection does not report whether its slot is blocked");
            vf_assert(live[t] == (on[t] ? 1 : 0), "C12 C23|a callable is not destroyed exactly when its slot is disconnected");
        }
    }
    void expect()
    {
        for (unsigned t = 1; t <= NS; ++t)
        {
            vf_assert(calls[t] == 1 || !on[t] || bl[t], "C01 C03 C05 C19|a connected, unblocked slot is not called exactly once");
            vf_assert(calls[t] == 0 || on[t], "C02 C19|a disconnected slot is called");
            vf_assert(calls[t] == 0 || !on[t] || !bl[t], "C05|a blocked slot is called");
        }
        reset();
    }
    void emit()
    {
        reset();
        auto r = (*s)(1);
        bool any = false;
        for (unsigned t = 1; t <= NS; ++t) any = any || (on[t] && !bl[t]);
        vf_assert(bool(r) == any, "C16|the default combiner does not return a value exactly when a slot yielded one");
        if (any) vf_assert(*r >= 1 && *r <= (int)NS && on[*r] && !bl[*r], "C16|the default combiner does not return the value of one of the slots called");
        expect();
    }
    void op_connect(unsigned t) { if (!on[t]) { c[t] = s->connect(F(t)); d[t] = c[t]; on[t] = true; bl[t] = false; } }
    void op_disc(unsigned t) { bool r = vf_nd(2) ? c[t].disconnect() : d[t].disconnect(); vf_assert(r == on[t], "C04 C03 C12 C19|disconnect() does not report success exactly once per slot"); on[t] = false; }
    void op_byfn(unsigned t) { std::size_t k = s->disconnect(F(t)); vf_assert(k == (on[t] ? 1u : 0u), "C15|disconnect by callable does not report the number of matching slots"); on[t] = false; }
    void op_byslot(unsigned t) { Slot sl{ F(t) }; std::size_t k = s->disconnect(sl); vf_assert(k == (on[t] ? 1u : 0u), "C15|disconnect by slot does not report the number of matching slots"); on[t] = false; }
    void op_block(unsigned t) { bl[t] = on[t]; c[t].block(); }
    void op_unblock(unsigned t) { bl[t] = false; d[t].unblock(); }
    void op_blocker(unsigned t)
    {
        auto b = c[t].blocker();
        if (vf_nd(2)) { op_disc(t); }
        bl[t] = on[t];
        emit();
        bl[t] = false;
    }
    void op_scoped(unsigned t)
    {
        bool was = on[t];
        { sig::scoped_connection sc(c[t]); vf_assert(sc.connected() == was, "C11|a scoped connection does not report whether its slot is connected"); }
        on[t] = false;
    }
    void op_move() { S* n = new S(std::move(*s)); if (vf_nd(2)) { reset(); (*s)(1); vf_assert(total() == 0, "C19|a moved-from signal still has slots"); } delete s; s = n; }
    void op_moveassign() { S* n = new S(); n->connect(F(N)); *n = std::move(*s); vf_assert(live[N] == 0, "C19 C02 C23|the slots replaced by an assignment are not destroyed"); delete s; s = n; }
    void op_destroy() { delete s; s = nullptr; for (auto& o : on) o = false; observe(); s = new S(); }

    // an emission during which the first called slot performs an operation
    unsigned arg;
    bool called_before;
    void in_disc() { called_before = calls[arg] != 0; bool r = c[arg].disconnect(); vf_assert(r == on[arg], "C04|disconnect() does not report success exactly once per slot"); on[arg] = false; }
    void in_byfn() { called_before = calls[arg] != 0; vf_assert(s->disconnect(F(arg)) == (on[arg] ? 1u : 0u), "C15|disconnect by callable does not report the number of matching slots"); on[arg] = false; }
    void in_connect() { called_before = false; if (!on[arg]) { c[arg] = s->connect(F(arg)); d[arg] = c[arg]; on[arg] = true; bl[arg] = false; } }
    void acting(unsigned who, unsigned what, unsigned a)
    {
        if (!on[who] || bl[who]) return;
        bool was = on[a];
        reset();
        arg = a; actor = who;
        action = what == 0 ? in_disc : what == 1 ? in_byfn : in_connect;
        (*s)(1);
        actor = 99; action = nullptr;
        for (unsigned t = 1; t <= NS; ++t)
        {
            if (t == a)
            {
                if (what == 2) vf_assert(was || calls[t] == 0, "C08|a slot connected during an emission is called by it");
                if (what != 2 && !bl[t]) vf_assert(calls[t] == (called_before ? 1u : 0u), "C02|a slot disconnected during an emission is still called by it");
            }
            else if (on[t]) vf_assert(calls[t] == (bl[t] ? 0u : 1u), "C01 C03 C08|a change made during an emission makes it skip or repeat a slot");
        }
        arg = 0; called_before = false;
        reset();
    }
    void begin(unsigned n) { s = new S(); NS = n; }
    void end()
    {
        emit();
        delete s;
        for (auto& o : on) o = false;
        observe();
        for (unsigned t = 1; t <= NS; ++t) { vf_assert(!c[t].disconnect() && !d[t].disconnect(), "C04 C12|a connection of a destroyed signal can be disconnected"); c[t].block(); d[t].unblock(); c[t] = d[t] = sig::connection(); }
    }
    unsigned pick() { return 1 + vf_nd(NS); }
}
#define T "C01 C02 C03 C04 C12 C23 C07"
SCN(hist_core3, T "|more=3")
{
    begin(3);
    while (vf_more())
    {
        switch (vf_nd(3)) { case 0: op_connect(pick()); break; case 1: op_disc(pick()); break; case 2: emit(); break; }
        observe();
    }
    end();
}
SCN(hist_values2, T " C15|more=3")
{
    begin(2);
    while (vf_more())
    {
        switch (vf_nd(5)) { case 0: op_connect(pick()); break; case 1: op_disc(pick()); break; case 2: op_byfn(pick()); break; case 3: op_byslot(pick()); break; case 4: emit(); break; }
        observe();
    }
    end();
}
SCN(hist_block2, T " C05|more=3")
{
    begin(2);
    while (vf_more())
    {
        switch (vf_nd(5)) { case 0: op_connect(pick()); break; case 1: op_disc(pick()); break; case 2: op_block(pick()); break; case 3: op_unblock(pick()); break; case 4: op_blocker(pick()); break; }
        observe();
    }
    end();
}
SCN(hist_life2, T " C11 C19|more=3")
{
    begin(2);
    while (vf_more())
    {
        switch (vf_nd(6)) { case 0: op_connect(pick()); break; case 1: op_disc(pick()); break; case 2: op_scoped(pick()); break; case 3: op_move(); break; case 4: op_moveassign(); break; case 5: op_destroy(); break; }
        observe();
        emit();
    }
    end();
}
SCN(hist_reent3, T " C08|more=4")
{
    begin(3);
    while (vf_more())
    {
        switch (vf_nd(2)) { case 0: op_connect(pick()); break; case 1: acting(pick(), 0, pick()); break; }
        observe();
    }
    end();
}
SCN(hist_reent2, T " C08 C15|more=3")
{
    begin(2);
    while (vf_more())
    {
        switch (vf_nd(3)) { case 0: op_connect(pick()); break; case 1: op_disc(pick()); break; case 2: acting(pick(), vf_nd(3), pick()); break; }
        observe();
    }
    end();
}
