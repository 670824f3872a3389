// Every route of disconnection or blocking, for every kind of slot, in every state of the slot, at every place (outside emissions, in one,
// after the list was copied by one, in a nested one).
#include "lib.hpp"
using namespace w;
namespace
{
    template<class R> struct Po { Mark m; explicit Po(unsigned t) : m(t) {} R go(int) { m.use(); fire(m.tag); m.use(); return ret<R>::get(m.tag); } bool operator==(const Po& o) const { return m.tag == o.m.tag; } };
    template<class R> struct Lam { Mark m; explicit Lam(unsigned t) : m(t) {} R operator()(int) { m.use(); fire(m.tag); return ret<R>::get(m.tag); } };    // not comparable
    template<class R> struct Ctx
    {
        using G = sig::signal<R(int)>;
        static inline G *s, *t; static inline sig::connection cx, cy, cz, cc; static inline std::shared_ptr<Po<R>> sp; static inline Po<R>* raw; static inline unsigned kind, where, route; static inline bool done, all, blocked;
        static void make()
        {
            done = all = blocked = false; reset(); s = new G(); t = nullptr; raw = nullptr; sp = nullptr;
            cx = s->connect(Fn<R, int>(X));
            switch (kind)
            {
            case 0: cy = s->connect(Fn<R, int>(Y)); break;
            case 1: raw = new Po<R>(Y); cy = s->connect(&Po<R>::go, raw); break;
            case 2: cy = s->connect(&Po<R>::go, Po<R>(Y)); break;
            case 3: sp = std::make_shared<Po<R>>(Y); cy = s->connect(&Po<R>::go, sp); break;
            case 4: cy = s->connect(Lam<R>(Y)); break;
            }
            cz = s->connect(Fn<R, int>(Z));
        }
        static void at(void (*f)())      // runs f at the chosen place
        {
            what = f;
            switch (where)
            {
            case 0: f(); break;
            case 1: case 2: case 3: actor = X; action = where == 1 ? f : where == 2 ? after_connect : nested; (*s)(1); break;
            case 4: (*s)(1); s->connect(Fn<R, int>(N)); f(); break;
            case 5: actor = X; action = add; (*s)(1); f(); break;
            case 6: actor = Z; action = f; (*s)(1); break;
            case 7: actor = Y; action = f; (*s)(1); break;
            }
            action = nullptr; actor = 99; what = nullptr;
        }
        static inline void (*what)();
        static void add() { s->connect(Fn<R, int>(N)); }
        static void after_connect() { add(); what(); }
        static void nested() { actor = X; action = what; (*s)(1); action = nullptr; actor = 99; }
        static bool early() { return where == 1 || where == 2 || where == 3; }
        static unsigned extra() { return where == 2 || where == 4 || where == 5 ? 1u : 0u; }
        static long kept() { return kind == 1 || kind == 3 ? 1 : 0; }
        static void end() { delete s; delete t; s = t = nullptr; delete raw; raw = nullptr; sp = nullptr; cx = cy = cz = cc = sig::connection(); vf_assert(live[X] == 0 && live[Y] == 0 && live[Z] == 0 && live[N] == 0, "C23 C12|a callable is leaked"); }

        // --- disconnection
        static void off()
        {
            done = true; std::size_t n = 1; bool b = true;
            switch (route)
            {
            case 0: b = cy.disconnect(); break;
            case 1: { sig::connection k(cy); b = k.disconnect(); } break;
            case 2: { sig::connection k(std::move(cy)); b = k.disconnect(); cy = k; } break;
            case 3: n = kind == 0 ? s->disconnect(Fn<R, int>(Y)) : kind == 1 ? s->disconnect(&Po<R>::go, raw) : s->disconnect(&Po<R>::go, Po<R>(Y)); break;
            case 4: { sig::slot<R(int)> v = kind == 0 ? sig::slot<R(int)>(Fn<R, int>(Y)) : kind == 1 ? sig::slot<R(int)>(&Po<R>::go, raw) : sig::slot<R(int)>(&Po<R>::go, Po<R>(Y)); n = s->disconnect(v); } break;
            case 5: { sig::scoped_connection k(cy); } break;
            case 6: { sig::connection k(cy); std::swap(k, cz); cz.swap(k); b = k.disconnect(); } break;
            case 7: t = new G(std::move(*s)); b = cy.disconnect(); break;
            case 8: delete s; s = nullptr; all = true; break;
            case 9: { G e; *s = std::move(e); } all = true; break;
            }
            vf_assert(b, "C04|disconnect() of a connected slot returns false"); vf_assert(n == 1, "C15|disconnecting by callable or slot does not return how many were removed");
            vf_assert(!cy.connected() && !cy.disconnect(), "C02 C04|a disconnected slot is still connected");
            vf_assert(cx.connected() == !all && cz.connected() == !all, "C03 C02|disconnecting one slot disconnects another, or a signal that is gone leaves slots connected");
        }
        static void run_off()
        {
            kind = vf_nd(5); where = vf_nd(8); route = vf_nd(10); unsigned st = vf_nd(4);
            if ((route == 3 || route == 4) && kind > 2) return;
            make();
            sig::connection_blocker b; if (st == 1) cy.block(); if (st == 2) b = cy.blocker(); if (st == 3) { cy.block(); cy.unblock(); } blocked = st == 1 || st == 2;
            if (where == 7 && blocked) where = 0;
            at(off);
            vf_assert(done, "C01 C08|a connected slot is not called");
            if (early()) vf_assert(calls[Y] == 0, "C02|a disconnected slot is called by the emission in progress");
            if (early() && where != 3) vf_assert(calls[Z] == (all ? 0u : 1u), "C08 C02 C01|the emission in progress does not call exactly the slots still connected");
            vf_assert(live[Y] == kept(), "C12 C23|the callable of a disconnected slot is not destroyed");
            if (all) vf_assert(live[X] == 0 && live[Z] == 0, "C12 C23|the callables of a signal outlive it");
            vf_assert(!cy.connected() && !cy.valid() && !cy.blocked() && !cy.disconnect(), "C02 C04 C12|a disconnected slot is still connected");
            cy.unblock(); b = sig::connection_blocker();
            G* g = t ? t : s;
            if (g) { reset(); (*g)(1); vf_assert(calls[Y] == 0 && calls[X] == (all ? 0u : 1u) && calls[Z] == (all ? 0u : 1u), "C02 C03 C01 C19|an emission does not call exactly the slots still connected"); if (!all) { vf_assert(calls[N] == extra(), "C01 C08 C19|a slot connected during an emission is not called by the next one"); vf_assert(cx.disconnect() && cz.disconnect(), "C03 C04|a remaining connection does not control its slot"); } }
            end();
        }
        // --- blocking
        static inline sig::connection_blocker bb;
        static void blk()
        {
            done = true;
            switch (route)
            {
            case 0: cy.block(); break;
            case 1: { sig::connection k(cy); k.block(); } break;
            case 2: bb = cy.blocker(); break;
            case 3: { sig::connection_blocker u(cy.blocker()); bb = std::move(u); } break;
            case 4: { sig::connection_blocker u(cy.blocker()); std::swap(u, bb); } break;
            case 5: { sig::connection k(cy); bb = k.blocker(); } break;
            case 6: { sig::scoped_connection k(cy); k.block(); cy = k.release(); } break;
            }
            vf_assert(cy.blocked() && cy.connected() && !cx.blocked() && !cz.blocked(), "C05|blocking one slot does not block exactly that slot");
        }
        static void unb()
        {
            done = true;
            switch (route)
            {
            case 0: case 1: case 6: { sig::connection k(cy); k.unblock(); } break;
            case 2: bb = sig::connection_blocker(); break;
            case 3: { sig::connection_blocker u(std::move(bb)); } break;
            case 4: { sig::connection_blocker u; std::swap(u, bb); } break;
            case 5: bb = cx.blocker(); break;
            }
            vf_assert(!cy.blocked() && cy.connected() && cx.blocked() == (route == 5) && !cz.blocked(), "C05|unblocking one slot does not unblock exactly that slot");
        }
        static void run_blk()
        {
            kind = vf_nd(5); where = vf_nd(8); route = vf_nd(7); bool first = vf_nd(2);
            make();
            if (first)
            {
                at(blk); vf_assert(done, "C01 C08|a connected slot is not called");
                if (early()) vf_assert(calls[Y] == 0 && calls[Z] == (where == 3 ? 2u : 1u), "C05|a slot blocked during an emission is called by it, or another one is not");
                reset(); (*s)(1); vf_assert(calls[Y] == 0 && calls[X] == 1 && calls[Z] == 1 && calls[N] == extra(), "C05 C01|an emission does not call exactly the unblocked slots");
                unb();
            }
            else
            {
                { unsigned wh = where; where = 0; blk(); where = wh; } done = false; if (where == 7) where = 6;
                at(unb); vf_assert(done, "C01 C08|a connected slot is not called");
                if (early() && route != 5) vf_assert(calls[Y] == (where == 3 ? 2u : 1u) && calls[Z] == calls[Y], "C05|a slot unblocked during an emission before its turn is not called by it");
            }
            bb = sig::connection_blocker(); cx.unblock();
            reset(); (*s)(1); vf_assert(calls[Y] == 1 && calls[X] == 1 && calls[Z] == 1 && calls[N] == extra(), "C05 C01|an emission does not call exactly the unblocked slots");
            vf_assert(cy.disconnect(), "C04 C05|disconnect() of a connected slot returns false");
            end();
        }
    };
}
#define OT "C02 C03 C04 C12 C15 C19 C23 C08 C01"
#define BT "C05 C01 C04 C03 C23"
SCN(off_void, OT "|abs=0") { Ctx<void>::run_off(); }
SCN(off_int, OT "|abs=0") { Ctx<int>::run_off(); }
SCN(off_block_void, BT "|abs=0") { Ctx<void>::run_blk(); }
SCN(off_block_int, BT "|abs=0") { Ctx<int>::run_blk(); }
