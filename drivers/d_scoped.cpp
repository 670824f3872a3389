// Scoped connections: every history of ownership transfers between two owners of two slots (C11), and blockers likewise (C05).
#include "lib.hpp"
using namespace w;

namespace
{
    using S = sig::signal<void(int)>;
    using F = Fn<void, int>;
    S* s;
    bool on[3];
    sig::connection c[3];               // observers
    sig::scoped_connection* h[2];
    unsigned own[2];                    // slot owned by each handle, 0: none

    void lose(unsigned i) { if (own[i]) on[own[i]] = false; own[i] = 0; }
    void check()
    {
        for (unsigned t = 1; t <= 2; ++t)
        {
            vf_assert(c[t].connected() || !on[t], "C11 C03|a slot is disconnected although its scoped connection still owns it or gave it back");
            vf_assert(!c[t].connected() || on[t], "C11 C02|a slot stays connected although the scoped connection owning it is gone");
        }
        for (unsigned i = 0; i < 2; ++i)
            vf_assert(h[i]->connected() == (own[i] != 0 && on[own[i]]), "C11 C12|a scoped connection does not report whether it owns a connected slot");
        reset();
        (*s)(1);
        vf_assert(calls[X] == on[X] && calls[Y] == on[Y], "C11 C02 C01|an emission does not call exactly the slots still connected");
        reset();
    }
    void connect(unsigned i, unsigned t, unsigned how)
    {
        if (on[t]) return;
        lose(i);
        if (how == 0) *h[i] = s->connect_scoped(F(t));
        else if (how == 1) *h[i] = sig::scoped_connection(s->connect(F(t)));
        else if (how == 2) { sig::slot<void(int)> sl{ F(t) }; *h[i] = s->connect_scoped(sl); }
        else { sig::connection k = s->connect(F(t)); *h[i] = sig::scoped_connection(k); vf_assert(k.connected(), "C11|copying a connection into a scoped connection loses it"); }
        // an observer through a released copy
        sig::connection r = h[i]->release();
        c[t] = r;
        *h[i] = sig::scoped_connection(std::move(r));
        own[i] = t; on[t] = true;
    }
    void swap_own() { unsigned t = own[0]; own[0] = own[1]; own[1] = t; }
}
template<unsigned nslots, unsigned hows, unsigned ops> void scoped_hist()
{
    s = new S();
    h[0] = new sig::scoped_connection(); h[1] = new sig::scoped_connection();
    while (vf_more())
    {
        unsigned i = vf_nd(2), j = 1 - i;
        switch (vf_nd(ops))
        {
        case 0: connect(i, 1 + vf_nd(nslots), vf_nd(hows)); break;
        case 1: *h[i] = std::move(*h[j]); lose(i); own[i] = own[j]; own[j] = 0; break;
        case 2: { using std::swap; swap(*h[0], *h[1]); swap_own(); break; }
        case 3: h[i]->swap(*h[j]); swap_own(); break;
        case 4: { sig::connection r = h[i]->release(); vf_assert(r.connected() == (own[i] && on[own[i]]), "C11|release() does not hand back the slot"); own[i] = 0; break; }
        case 5: *h[i] = sig::scoped_connection(); lose(i); break;
        case 6: { sig::scoped_connection t(std::move(*h[i])); vf_assert(t.connected() == (own[i] && on[own[i]]), "C11|moving a scoped connection disconnects its slot"); vf_assert(!h[i]->connected(), "C11 C12|a moved-from scoped connection still owns a slot"); } lose(i); break;
        case 7: { sig::scoped_connection t(std::move(*h[i])); *h[i] = std::move(t); break; }
        case 10: { bool r = h[i]->disconnect(); vf_assert(r == (own[i] && on[own[i]]), "C04 C11|disconnect() of a scoped connection does not report success exactly once"); if (own[i]) on[own[i]] = false; break; }
        case 8: delete h[i]; lose(i); h[i] = new sig::scoped_connection(); break;
        case 11: { unsigned t = 1 + vf_nd(nslots); c[t].disconnect(); on[t] = false; break; }
        case 9: { sig::scoped_connection* n = new sig::scoped_connection(std::move(*h[i])); delete h[i]; h[i] = n; break; }
        }
        for (auto& o : own) if (o && !on[o]) o = 0;         // owning a disconnected slot is owning nothing
        check();
    }
    if (vf_nd(2)) { delete s; s = nullptr; for (unsigned i = 0; i < 2; ++i) { vf_assert(!h[i]->connected() && !h[i]->disconnect(), "C12 C04|a scoped connection of a destroyed signal is still connected"); } delete h[0]; delete h[1]; }
    else { delete h[0]; delete h[1]; for (unsigned i = 0; i < 2; ++i) lose(i); vf_assert(c[X].connected() == on[X] && c[Y].connected() == on[Y], "C11|destroying scoped connections does not disconnect exactly the slots they own"); delete s; }
    c[1] = c[2] = sig::connection();
    vf_assert(live[X] == 0 && live[Y] == 0, "C12 C23|a callable is not destroyed with its signal");
}

SCN(scoped_hist2, "C11 C02 C12 C23 C07 C03") { scoped_hist<2, 1, 10>(); }
SCN(scoped_hist1, "C11 C02 C12 C23 C07 C03 C04") { scoped_hist<1, 4, 12>(); }
SCN(scoped_hist2all, "C11 C02 C12 C23 C03 C04|tier=thorough") { scoped_hist<2, 4, 12>(); }

// blockers
namespace
{
    sig::connection_blocker* b[2];
    unsigned blk[2];
    bool bl[3];
    void unb(unsigned i) { if (blk[i]) bl[blk[i]] = false; blk[i] = 0; }
    void checkb()
    {
        for (unsigned t = 1; t <= 2; ++t)
            vf_assert(c[t].blocked() == (on[t] && bl[t]), "C05 C12|a slot is not blocked exactly while its blocker is in force");
        reset();
        (*s)(1);
        vf_assert(calls[X] == (on[X] && !bl[X]) && calls[Y] == (on[Y] && !bl[Y]), "C05 C01|an emission does not call exactly the slots that are not blocked");
        reset();
    }
}
SCN(blocker_hist, "C05 C12 C23 C07")
{
    s = new S();
    b[0] = new sig::connection_blocker(); b[1] = new sig::connection_blocker();
    c[1] = s->connect(F(1)); c[2] = s->connect(F(2)); on[1] = on[2] = true;
    while (vf_more())
    {
        unsigned i = vf_nd(2), j = 1 - i;
        switch (vf_nd(9))
        {
        case 0: { unsigned t = 1 + vf_nd(2); if (!bl[t] && on[t]) { unb(i); *b[i] = c[t].blocker(); blk[i] = t; bl[t] = true; } break; }
        case 1: *b[i] = std::move(*b[j]); unb(i); blk[i] = blk[j]; blk[j] = 0; break;
        case 2: { using std::swap; swap(*b[0], *b[1]); unsigned t = blk[0]; blk[0] = blk[1]; blk[1] = t; break; }
        case 3: *b[i] = sig::connection_blocker(); unb(i); break;
        case 4: { sig::connection_blocker t(std::move(*b[i])); checkb(); } unb(i); break;
        case 5: delete b[i]; unb(i); b[i] = new sig::connection_blocker(); break;
        case 6: { unsigned t = 1 + vf_nd(2); c[t].disconnect(); on[t] = false; break; }
        case 7: { sig::connection_blocker* n = new sig::connection_blocker(std::move(*b[i])); delete b[i]; b[i] = n; break; }
        case 8: { unsigned t = 1 + vf_nd(2); if (!on[t]) { c[t] = s->connect(F(t)); on[t] = true; bl[t] = false; for (auto& k : blk) if (k == t) k = 0; } break; }
        }
        checkb();
    }
    if (vf_nd(2)) { delete s; delete b[0]; delete b[1]; }
    else { delete b[0]; delete b[1]; unb(0); unb(1); checkb(); delete s; }
    c[1] = c[2] = sig::connection();
}

// ownership is transferred whatever state the slot is in: connected, blocked, its object gone, disconnected, its signal gone
namespace
{
    struct Tobj { unsigned n = 0; void f(int) { ++n; } };
    template<class V> bool same(const V& a, bool connected, bool blocked) { return a.connected() == connected && a.blocked() == blocked; }
}
template<int how> static void scoped_state()
{
    S* sg = new S();
    auto p = std::make_shared<Tobj>();
    auto* a = new sig::scoped_connection(vf_nd(2) ? sg->connect_scoped(&Tobj::f, p) : sig::scoped_connection(sg->connect(sig::slot<void(int)>(&Tobj::f, std::weak_ptr<Tobj>(p)))));
    bool con = true, blk = false, valid = true, gone = false;
    unsigned st = vf_nd(6);
    if (st == 1) { a->block(); blk = true; }
    if (st == 2) { p.reset(); con = false; }
    if (st == 3) { a->block(); p.reset(); con = false; blk = true; }
    if (st == 4) { a->disconnect(); con = false; valid = false; }
    if (st == 5) { delete sg; sg = nullptr; con = false; valid = false; gone = true; }
    vf_assert(same(*a, con, blk), "C11 C06 C12|a scoped connection does not report the state of its slot");
    vf_assert(a->valid() == valid, "C12|the slot of a scoped connection is gone too early or too late");
    if (how == 0)
    {
        sig::connection r = a->release();
        vf_assert(!a->valid() && !a->connected() && !a->blocked(), "C11|a released scoped connection still refers to its slot");
        a->block(); a->unblock();
        vf_assert(!a->disconnect(), "C11 C04|a released scoped connection disconnects its slot");
        delete a; a = nullptr;
        vf_assert(same(r, con, blk) && r.valid() == valid, "C11|release() does not hand back the slot as it was");
    }
    else
    {
        sig::scoped_connection b;
        if (how == 1) { sig::scoped_connection t(std::move(*a)); b.swap(t); }
        if (how == 2) b = std::move(*a);
        if (how == 3) b.swap(*a);
        vf_assert(!a->valid() && !a->connected() && !a->blocked(), "C11 C12|a moved-from scoped connection still refers to its slot");
        a->block(); a->unblock();
        vf_assert(!a->disconnect(), "C11 C04 C12|a moved-from scoped connection disconnects a slot");
        delete a; a = nullptr;
        vf_assert(same(b, con, blk) && b.valid() == valid, "C11|moving or swapping a scoped connection changes the state of the slot");
        if (vf_nd(2)) { bool d = b.disconnect(); vf_assert(d == con || st == 2 || st == 3, "C11 C04|the new owner cannot disconnect the slot"); vf_assert(!b.connected(), "C11 C02|the slot is still connected"); }
    }
    if (!gone) { if (p) { p->n = 0; } (*sg)(1); if (p && how) vf_assert(p->n == 0, "C11 C02|a slot is called although its scoped connection is gone"); if (p && !how && con) vf_assert(p->n == (blk ? 0u : 1u), "C11 C01|a released slot is not called"); }
    delete sg;
}
SCN(scoped_state_release, "C11 C12 C06 C04") { scoped_state<0>(); }
SCN(scoped_state_move, "C11 C12 C06 C04") { scoped_state<1>(); }
SCN(scoped_state_assign, "C11 C12 C06 C04") { scoped_state<2>(); }
SCN(scoped_state_swap, "C11 C12 C06 C04") { scoped_state<3>(); }

// a plain connection: copy, move, swap (member and free function)
SCN(conn_swap, "C12 C03 C04")
{
    S sg; reset();
    sig::connection a, b;
    unsigned na = vf_nd(2), nb = vf_nd(2);
    if (na) a = sg.connect(F(X));
    if (nb) b = sg.connect(F(Y));
    unsigned k = vf_nd(5);
    if (k == 0) a.swap(b);
    if (k == 1) { using std::swap; swap(a, b); }
    if (k == 2) { sig::connection t(std::move(a)); a = std::move(b); b = std::move(t); }
    if (k == 3) { sig::connection t(a); a = b; b = t; }
    if (k == 4) { std::swap(a, b); }
    vf_assert(a.connected() == (nb != 0) && b.connected() == (na != 0) && a.valid() == (nb != 0) && b.valid() == (na != 0), "C12|swapping two connections loses one");
    vf_assert(a.disconnect() == (nb != 0), "C04 C03|a swapped connection does not control the slot it was swapped with");
    sg(1);
    vf_assert(calls[X] == na && calls[Y] == 0, "C03|a swapped connection does not control the slot it was swapped with");
}
// handles assigned to or swapped with themselves, or built in the storage of dead ones
SCN(handle_self, "C11 C05 C12 C04 C23")
{
    S sg; auto a = sg.connect(F(X)), o = sg.connect(F(Y));
    {
        sig::connection k = a; auto& r = k;
        k = r; vf_assert(k.connected(), "C12|a connection is lost by assigning it to itself");
        k.swap(r); vf_assert(k.connected(), "C12|a connection is lost by swapping it with itself");
        k = std::move(r); vf_assert(a.connected() && o.connected() && k.connected() <= a.connected(), "C12 C03|assigning a connection to itself disconnects its slot");
    }
    {
        sig::connection_blocker b = a.blocker(); auto& r = b;
        b.swap(r); vf_assert(a.blocked() && !o.blocked(), "C05|swapping a blocker with itself ends it");
        b = std::move(r);
        vf_assert(a.connected() && !o.blocked(), "C05|assigning a blocker to itself disconnects or blocks a slot");
    }
    vf_assert(!a.blocked() && a.connected(), "C05|a slot stays blocked for ever after its blocker was assigned to itself");
    {
        sig::connection_blocker b, &r = b; b = std::move(r); b.swap(r);
        sig::scoped_connection e, &q = e; e = std::move(q); e.swap(q); vf_assert(!e.connected() && !e.release().connected(), "C11 C12|an empty scoped connection is connected");
    }
    reset(); sg(1); vf_assert(calls[X] == 1 && calls[Y] == 1, "C01 C05|a slot is not called exactly once");
    {
        sig::scoped_connection q(a), &r = q;
        q.swap(r); vf_assert(q.connected() && a.connected(), "C11|swapping a scoped connection with itself disconnects its slot");
        q = std::move(r); vf_assert(o.connected(), "C11 C03|assigning a scoped connection to itself disconnects another slot");
    }
    vf_assert(!a.connected(), "C11|a slot stays connected for ever after its scoped connection was assigned to itself");
    reset(); sg(1); vf_assert(calls[X] == 0 && calls[Y] == 1, "C02 C11|an emission does not call exactly the slots still connected");
    {
        a = sg.connect(F(X));
        sig::scoped_connection q(a), p(a);            // two owners of one slot
        p = sig::scoped_connection(); vf_assert(!a.connected() && !q.connected(), "C11|assigning to a scoped connection does not disconnect the slot it owns");
        vf_assert(!q.disconnect() && !a.disconnect(), "C04|disconnect() reports success twice");
        a = sg.connect(F(X)); q = a; vf_assert(a.connected() && q.connected(), "C11|a scoped connection cannot take over a connection");
        p = sg.connect(F(N)); vf_assert(p.connected() && a.connected() && p.disconnect() && !p.connected(), "C11 C04|a scoped connection cannot be disconnected");
        reset(); sg(1); vf_assert(calls[X] == 1 && calls[Y] == 1 && calls[N] == 0, "C11 C01|an emission does not call exactly the slots still connected");
    }
    vf_assert(!a.connected() && o.connected(), "C11|a slot stays connected although the scoped connection owning it is gone");
    reset(); sg(1); vf_assert(calls[X] == 0 && calls[Y] == 1, "C02 C11|an emission does not call exactly the slots still connected");
    vf_assert(live[X] == 0 && live[N] == 0 && live[Y] == 1, "C12 C23|the callable of a disconnected slot is not destroyed");
}
// whatever state the slot is in and wherever ownership ends, the slot is disconnected then
namespace
{
    template<class R> struct End
    {
        using G = sig::signal<R(int)>;
        static inline G* s; static inline sig::scoped_connection *own, *other; static inline sig::connection cy, cz; static inline unsigned how, where; static inline bool ended;
        static void end()
        {
            if (ended) return; ended = true;
            if (where == 2 || where == 5) { s->connect(Fn<R, int>(N)); }
            if (where == 4) { ended = false; const auto a = actor; actor = X; action = end2; (*s)(1); actor = a; return; }
            end2();
        }
        static void end2()
        {
            ended = true;
            switch (how)
            {
            case 0: delete own; own = nullptr; break;
            case 1: *own = sig::scoped_connection(); break;
            case 2: *own = std::move(*other); break;
            case 3: { sig::scoped_connection t(std::move(*own)); } break;
            case 4: { sig::scoped_connection t; t.swap(*own); } break;
            case 5: { std::unique_ptr<sig::scoped_connection> t(new sig::scoped_connection()); *t = std::move(*own); sig::scoped_connection u; using std::swap; swap(u, *t); } break;
            }
            vf_assert(!cy.connected() && !cy.disconnect(), "C11 C02|a slot stays connected although the scoped connection owning it is gone");
            vf_assert(cz.connected(), "C11 C03|the end of one scoped connection disconnects the slot of another");
        }
        static void run()
        {
            s = new G(); reset(); ended = false; how = vf_nd(6); where = vf_nd(6); unsigned st = vf_nd(4); bool scopedly = vf_nd(2);
            s->connect(Fn<R, int>(X));
            if (scopedly) { own = new sig::scoped_connection(s->connect_scoped(Fn<R, int>(Y))); cy = own->release(); *own = sig::scoped_connection(cy); }
            else { cy = s->connect(Fn<R, int>(Y)); own = new sig::scoped_connection(cy); }
            other = new sig::scoped_connection(cz = s->connect(Fn<R, int>(Z)));
            sig::connection_blocker b;
            if (st == 1) cy.block(); if (st == 2) b = cy.blocker(); if (st == 3) { own->block(); cy.unblock(); }
            bool blocked = st == 1 || st == 2;
            if (where == 0) end();
            else if (where == 5) { (*s)(1); end(); }
            else { actor = where == 3 && !blocked ? Y : X; action = end; (*s)(1); action = nullptr; actor = 99; vf_assert(ended && calls[Y] == (where == 3 && !blocked ? 1u : 0u), "C02 C11|a disconnected slot is called"); }
            vf_assert(live[Y] == 0, "C11 C12 C23|a callable outlives the scoped connection that owned its slot");
            vf_assert(!cy.connected() && !cy.valid() && !cy.blocked() && !cy.disconnect(), "C11 C02 C12|a slot stays connected although the scoped connection owning it is gone");
            cy.unblock(); b = sig::connection_blocker();
            bool late = where == 2 || where == 5;
            reset(); (*s)(1); vf_assert(calls[Y] == 0 && calls[X] == 1 && calls[Z] == 1 && calls[N] == (late ? 1u : 0u), "C11 C02 C03 C01|an emission does not call exactly the slots still connected");
            delete own; delete other; own = other = nullptr;
            vf_assert(!cz.connected() && live[Z] == 0, "C11 C12|a slot stays connected although the scoped connection owning it is gone");
            delete s; s = nullptr; cy = cz = sig::connection();
            vf_assert(live[X] == 0 && live[N] == 0, "C23 C12|a callable is leaked");
        }
    };
}
SCN(scoped_end_void, "C11 C02 C05 C12 C23 C03") { End<void>::run(); }
SCN(scoped_end_int, "C11 C02 C05 C12 C23 C03") { End<int>::run(); }
