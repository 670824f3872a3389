// Slots as values (C20): every history of operations on three slot variables.
#include "lib.hpp"
using namespace w;

namespace
{
    using F = Fn<int, int>;
    using Sl = sig::slot<int(int)>;
    Sl* v[3]; unsigned held[3];                  // the variables and the tag of the callable each should hold (0: empty)
    sig::signal<int(int)>* sg; unsigned conn;
    void check()
    {
        long n[4] = { 0, 0, 0, 0 };
        for (unsigned i = 0; i < 3; ++i)
        {
            ++n[held[i]];
            vf_assert(bool(*v[i]) == (held[i] != 0), "C20|a slot is not empty exactly when it holds no callable");
            reset();
            auto r = (*v[i])(1);
            vf_assert(bool(r) == (held[i] != 0) && (!r || *r == (int)held[i]), "C20|invoking a slot does not call its callable");
            vf_assert(total() == (held[i] ? 1u : 0u) && calls[held[i]] == total(), "C20|invoking a slot calls something else");
            vf_assert(v[i]->connected() == (held[i] != 0) && !v[i]->blocked(), "C20|a slot does not report its state");
            for (unsigned j = 0; j < 3; ++j) { vf_assert((*v[i] == *v[j]) == (held[i] == held[j]), "C20 C15|slots do not compare equal exactly when their callables do"); vf_assert((*v[i] != *v[j]) == (held[i] != held[j]), "C20 C15|slots do not compare unequal exactly when their callables do"); }
        }
        ++n[conn];
        for (unsigned t = 1; t < 4; ++t) vf_assert(live[t] == n[t], "C20 C23|a callable is not copied or destroyed exactly when its slot is");
        reset(); (*sg)(1); vf_assert(total() == (conn ? 1u : 0u) && calls[conn] == total(), "C20|a slot connected to a signal is affected by the slot it was copied from");
        reset();
    }
}
SCN(slot_hist, "C20 C23 C07 C15")
{
    for (auto& x : v) x = new Sl();
    sg = new sig::signal<int(int)>();
    sig::connection c;
    while (vf_more())
    {
        unsigned i = vf_nd(2), j = 1 - i;
        switch (vf_nd(13))
        {
        case 0: { unsigned t = 1 + vf_nd(2); *v[i] = Sl(F(t)); held[i] = t; break; }
        case 1: *v[i] = *v[j]; held[i] = held[j]; break;
        case 2: *v[i] = std::move(*v[j]); held[i] = held[j]; held[j] = 0; break;
        case 3: { Sl t(*v[i]); const Sl& ct = t; Sl u(ct); vf_assert(t == *v[i] && u == *v[i], "C20 C15|a copy of a slot is not equal to it"); *v[j] = u; held[j] = held[i]; break; }
        case 4: { Sl t(std::move(*v[i])); vf_assert(!*v[i], "C20|a moved-from slot is not empty"); *v[j] = std::move(t); held[j] = held[i]; held[i] = 0; break; }
        case 5: { Sl& r = *v[i]; *v[i] = r; break; }
        case 6: *v[i] = Sl(); held[i] = 0; break;
        case 7: delete v[i]; v[i] = new Sl(); held[i] = 0; break;
        case 8: { using std::swap; swap(*v[0], *v[1]); unsigned t = held[0]; held[0] = held[1]; held[1] = t; break; }
        case 9: if (!conn) { c = sg->connect(*v[i]); conn = held[i]; vf_assert(c.connected() == (held[i] != 0), "C20|connecting a slot does not give a connection to it"); } break;
        case 10: c.disconnect(); conn = 0; break;
        case 11: v[i]->block(); vf_assert(v[i]->blocked() == (held[i] != 0), "C20 C05|a slot does not report that it is blocked"); { reset(); auto r = (*v[i])(1); vf_assert(!r && total() == 0, "C20 C05|a blocked slot is called"); } v[i]->unblock(); break;
        case 12: vf_assert(!v[i]->disconnect(), "C20 C04|a slot that belongs to no signal reports a disconnection"); break;
        }
        check();
    }
    delete sg; c = sig::connection();
    for (auto& x : v) delete x;
    for (unsigned t = 1; t < 4; ++t) vf_assert(live[t] == 0, "C20 C23|a callable is leaked");
}
// empty slots are harmless everywhere
SCN(slot_empty, "C20 C12")
{
    {
        Sl e, f; sig::signal<int(int)> s; sig::signal<void(int)> sv; sig::slot<void(int)> ev;
        vf_assert(!e && !e.connected() && !e.blocked() && !e.disconnect() && e == f && !(e != f), "C20|an empty slot misbehaves");
        e.block(); e.unblock(); vf_assert(!e.blocked(), "C20|an empty slot misbehaves");
        vf_assert(!e(1), "C20|an empty slot yields a value"); ev(1);
        auto c = s.connect(e); auto d = sv.connect(ev); auto sc = s.connect_scoped(e);
        vf_assert(!c.connected() && !c.blocked() && !c.disconnect() && !d.connected() && !sc.connected(), "C20 C12|connecting an empty slot gives a live connection");
        c.block(); c.unblock(); { auto b = c.blocker(); }
        vf_assert(!s(1), "C20 C16|an empty slot yields a value"); sv(1);
        s.connect(F(X)); vf_assert(s.disconnect(e) == 0, "C20 C15|disconnecting an empty slot removes something");
        reset(); auto r = s(1); vf_assert(r && calls[X] == 1, "C20|an empty slot disturbs an emission");
        Sl g(std::move(e)); e = std::move(g); g = e; Sl h(g); vf_assert(!e && !g && !h, "C20|copying or moving an empty slot gives a callable");
    }
    vf_assert(live[X] == 0, "C20 C23|a callable is leaked");
}
// copies are independent: state of the callable, blocking, disconnection
namespace { struct Count { Mark m{ Y }; int k = 0; int operator()(int) { m.use(); return ++k; } }; }
SCN(slot_indep, "C20 C23 C21")
{
    {
        Sl a{ Count() }; a(1);
        Sl b(a); auto r = a(1); vf_assert(r && *r == 2, "C20 C21|a slot does not keep the state of its callable"); r = b(1); vf_assert(r && *r == 2, "C20|copies of a slot share their callable"); r = b(1); vf_assert(r && *r == 3, "C20|copies of a slot share their callable"); r = a(1); vf_assert(r && *r == 3, "C20|copies of a slot share their callable");
        sig::signal<int(int)> s; auto c = s.connect(a); r = s(1); vf_assert(r && *r == 4, "C20|a connected slot is not a copy"); r = a(1); vf_assert(r && *r == 4, "C20|a connected slot shares its callable with the slot it was copied from"); r = s(1); vf_assert(r && *r == 5, "C20|a connected slot shares its callable with the slot it was copied from");
        c.block(); vf_assert(!a.blocked(), "C20 C05|blocking a connected slot blocks the slot it was copied from"); r = a(1); vf_assert(r && *r == 5, "C20|a slot is affected by a copy of it"); c.unblock();
        a.block(); vf_assert(!c.blocked() && !b.blocked(), "C20 C05|blocking a slot blocks copies of it"); r = s(1); vf_assert(r && *r == 6, "C20|a connected slot is affected by the slot it was copied from"); a.unblock();
        c.disconnect(); vf_assert(a.connected(), "C20|disconnecting a slot disconnects the one it was copied from"); r = a(1); vf_assert(r && *r == 6, "C20|a slot is affected by a copy of it");
        a = Sl(); r = b(1); vf_assert(r && *r == 4, "C20|a slot is affected by a copy of it");
        auto c2 = s.connect(b), c3 = s.connect(b); b = Sl(); vf_assert(live[Y] == 2, "C20 C23|a replaced callable is not destroyed"); r = s(1); vf_assert(r && *r == 5, "C20|a connected slot is affected by the slot it was copied from"); c2.disconnect(); r = s(1); vf_assert(r && *r == 6, "C20 C03|copies of a slot connected twice are not independent");
    }
    vf_assert(live[Y] == 0, "C20 C23|a callable is leaked");
}
namespace { struct Ob9 { static std::size_t n; int get(int a) { ++n; return a; } }; std::size_t Ob9::n; }
// a slot is blocked or not, and its copies are as it was when they were made
SCN(slot_blocked, "C20 C05")
{
    {
        bool ba = vf_nd(2), bb = vf_nd(2); Ob9 o;
        Sl k[2] = { Sl{ F(X) }, Sl(&Ob9::get, &o) };
        Sl a(vf_nd(2) ? k[0] : k[1]), b{ F(Y) }, e; if (ba) a.block(); if (bb) b.block(); e.block();
        const Sl& ca = a; bool want = ba; Sl r; const char* l = "C20 C05|a copied or moved slot is not blocked exactly when the original was";
        switch (vf_nd(9))
        {
        case 0: { Sl t(ca); r = std::move(t); } break;
        case 1: r = ca; break;
        case 2: { Sl t(std::move(a)); r = t; } break;
        case 3: r = b; r = ca; break;
        case 4: b = ca; vf_assert(b.blocked() == ba, l); r = b; break;
        case 5: b = std::move(a); vf_assert(b.blocked() == ba, l); r = b; break;
        case 6: { using std::swap; swap(a, b); vf_assert(b.blocked() == ba && a.blocked() == bb, l); r = a; want = bb; } break;
        case 7: r = e; want = false; e = ca; vf_assert(e.blocked() == ba, l); break;
        case 8: { sig::signal<int(int)> s; auto c = s.connect(a), d = s.connect(b); vf_assert(c.blocked() == ba && d.blocked() == bb && c.connected() && d.connected(), l); reset(); Ob9::n = 0; s(1); vf_assert(total() + Ob9::n == (ba ? 0u : 1u) + (bb ? 0u : 1u) && calls[Y] == (bb ? 0u : 1u), "C20 C05|connecting a copy of a slot unblocks or blocks it"); c.unblock(); d.block(); vf_assert(a.blocked() == ba && b.blocked() == bb, "C20 C05|a slot is affected by a copy of it"); reset(); Ob9::n = 0; s(1); vf_assert(total() + Ob9::n == 1 && calls[Y] == 0, "C20 C05|blocking one slot affects another"); want = false; } break;
        }
        vf_assert(r.blocked() == want, l);
        if (r) { reset(); Ob9::n = 0; auto q = r(1); vf_assert(bool(q) == !want && total() + Ob9::n == (want ? 0u : 1u), l); r.unblock(); auto p = r(1); vf_assert(bool(p) && total() + Ob9::n == (want ? 1u : 2u), "C20 C05|an unblocked slot is not called"); }
    }
    vf_assert(live[X] == 0 && live[Y] == 0, "C20 C23|a callable is leaked");
}
// slots of every kind of implementation are copied faithfully
namespace { struct Ob { Mark m; long k; explicit Ob(long x) : m(Z), k(x) {} int get(int a) { m.use(); return (int)k + a; } bool operator==(const Ob& o) const { return k == o.k; } }; }
SCN(slot_kinds, "C20 C23 C21 C06")
{
    {
        Ob o(10); auto sp = std::make_shared<Ob>(20);
        Sl k[4] = { Sl(&Ob::get, &o), Sl(&Ob::get, Ob(30)), Sl(&Ob::get, sp), Sl(&Ob::get, std::ref(o)) };
        int e[4] = { 11, 31, 21, 11 };
        for (int i = 0; i < 4; ++i)
        {
            Sl c(k[i]); auto r = c(1); vf_assert(r && *r == e[i], "C20|a copy of a slot calls something else");
            Sl m(std::move(c)); r = m(1); vf_assert(r && *r == e[i] && !c, "C20|a moved slot calls something else");
            Sl a; a = m; r = a(1); vf_assert(r && *r == e[i], "C20|an assigned slot calls something else");
            a = Sl(F(X)); r = a(1); vf_assert(r && *r == X, "C20|an assigned slot calls something else");
            a = k[(i + 1) % 4]; r = a(1); vf_assert(r && *r == e[(i + 1) % 4], "C20|an assigned slot calls something else");
        }
        vf_assert(live[Z] == 3 && live[X] == 0 && sp.use_count() == 1, "C20 C23 C06|copies of slots leak their callables");
    }
    vf_assert(live[Z] == 0, "C20 C23|a callable is leaked");
}
