// Tracked objects: never used after their death, never kept alive, alive during calls (C06).
#include "lib.hpp"
using namespace w;

namespace
{
    std::shared_ptr<struct TO> obj[3];
    long alive[3]; bool incall[3]; bool busy;
    void (*inside)(unsigned);
    struct TO
    {
        unsigned id; unsigned magic = 0x0b1;
        explicit TO(unsigned i) : id(i) { ++alive[i]; }
        TO(const TO&) = delete;
        ~TO()
        {
            vf_assert(magic == 0x0b1, "C06 C23|a tracked object is destroyed twice");
            vf_assert(!incall[id], "C06|a tracked object is destroyed while a call into it is running");
            vf_assert(vf_held() == 0, "C07|a tracked object is destroyed while the library holds a mutex");
            magic = 0; --alive[id];
        }
        void check() const { vf_assert(magic == 0x0b1, "C06|a slot calls into a dead tracked object"); }
        template<class R> R body()
        {
            check();
            vf_assert(vf_held() == 0, "C07|a slot runs while the library holds a mutex");
            incall[id] = true;
            ++calls[id];
            if (inside) { auto f = inside; inside = nullptr; f(id); }
            check();
            incall[id] = false;
            return ret<R>::get(id);
        }
        void v(int) { body<void>(); }
        int i(int) const { return const_cast<TO*>(this)->body<int>(); }
    };
    void kill(unsigned t) { obj[t].reset(); }
    bool has(unsigned t) { return (bool)obj[t]; }
}
template<class R> struct pm;
template<> struct pm<void> { static void (TO::*get())(int) { return &TO::v; } };
template<> struct pm<int> { static int (TO::*get())(int) const { return &TO::i; } };

template<class R> struct H
{
    using S = sig::signal<R(int)>;
    using Sl = sig::slot<R(int)>;
    static inline S* s; static inline sig::connection c[3]; static inline bool on[3], bl[3];
    static void connect(unsigned t, bool weak)
    {
        if (on[t] || !has(t)) return;
        if (weak) c[t] = s->connect(Sl(pm<R>::get(), std::weak_ptr<TO>(obj[t]))); else c[t] = s->connect(pm<R>::get(), obj[t]);
        on[t] = true; bl[t] = false;
        vf_assert(obj[t].use_count() == 1, "C06|a connection owns its tracked object");
    }
    static void observe()
    {
        for (unsigned t = 1; t <= 2; ++t)
        {
            vf_assert(alive[t] == (has(t) ? 1 : 0), "C06|a tracked object outlives its last owner (or dies too early)");
            if (!on[t]) { vf_assert(!c[t].connected(), "C02 C06|a disconnected slot reports connected"); continue; }
            vf_assert(c[t].connected() == has(t), "C06|a slot does not count as connected exactly while its tracked object is alive");
        }
    }
    static void emit()
    {
        reset();
        (*s)(1);
        for (unsigned t = 1; t <= 2; ++t)
        {
            bool live = on[t] && has(t) && !bl[t];
            vf_assert(calls[t] == 1 || !live, "C01 C06|a slot with a live tracked object is not called exactly once");
            vf_assert(calls[t] == 0 || live, "C06 C02 C05|a slot is called whose tracked object is dead");
        }
        reset();
    }
    static inline unsigned victim;
    static inline bool early;
    static void in_kill(unsigned who) { early = calls[victim] != 0; kill(victim); vf_assert(victim != who || alive[who] == 1, "C06|a tracked object is destroyed while a call into it is running"); vf_assert(victim == who || alive[victim] == 0, "C06|an emission keeps a tracked object alive"); }
    static void in_killdisc(unsigned who) { early = calls[victim] != 0; c[victim].disconnect(); kill(victim); vf_assert(victim != who || alive[who] == 1, "C06|a tracked object is destroyed while a call into it is running"); on[victim] = false; }
    static void emit_killing(unsigned v, bool disc)
    {
        bool l[3] = { false, on[1] && has(1) && !bl[1], on[2] && has(2) && !bl[2] };
        if (!l[1] && !l[2]) return;
        victim = v; early = false; inside = disc ? in_killdisc : in_kill;
        reset();
        (*s)(1);
        inside = nullptr;
        vf_assert(alive[v] == 0, "C06|a tracked object outlives the call during which its last owner let go");
        unsigned o = 3 - v;
        vf_assert(calls[o] == (l[o] ? 1u : 0u), "C01 C06 C03|the death of a tracked object makes an emission skip another slot");
        vf_assert(calls[v] == (early ? 1u : 0u), "C06|a slot calls into an object that died during the emission");
        victim = 0; early = false;
        reset();
    }
    static void hist(bool more_ops)
    {
        s = new S();
        while (vf_more())
        {
            unsigned t = 1 + vf_nd(2);
            switch (vf_nd(more_ops ? 7 : 4))
            {
            case 0: if (!has(t)) { if (on[t]) { c[t].disconnect(); on[t] = false; } obj[t] = std::make_shared<TO>(t); } break;
            case 1: connect(t, vf_nd(2)); break;
            case 2: kill(t); break;
            case 3: emit_killing(t, vf_nd(2)); break;
            case 4: if (on[t] && has(t)) { vf_assert(c[t].disconnect(), "C04|disconnect() does not report success"); on[t] = false; } break;
            case 5: c[t].block(); bl[t] = on[t]; break;
            case 6: c[t].unblock(); bl[t] = false; break;
            }
            observe();
            emit();
            observe();
        }
        delete s;
        for (unsigned t = 1; t <= 2; ++t) { vf_assert(alive[t] == (has(t) ? 1 : 0), "C06|destroying the signal destroys or keeps a tracked object"); vf_assert(!c[t].connected(), "C12 C02|a connection of a destroyed signal is connected"); kill(t); c[t] = sig::connection(); vf_assert(alive[t] == 0, "C06 C23|a tracked object is leaked"); }
    }
};
SCN(track_hist_void, "C06 C07 C23 C12 C03 C01") { H<void>::hist(false); }
SCN(track_hist_int, "C06 C07 C23 C12 C03 C01") { H<int>::hist(false); }
SCN(track_hist_all, "C06 C07 C23 C12 C03 C05") { H<int>::hist(true); }
SCN(track_hist_allv, "C06 C07 C23 C12 C03 C05") { H<void>::hist(true); }

// an object whose destructor uses the signal
namespace
{
    sig::signal<void()>* gs; sig::connection gc; long dl;
    struct Self { sig::scoped_connection sc; Self() { ++dl; } ~Self() { --dl; sc.disconnect(); (*gs)(); gs->connect(Fn<void>(N)); } void go() { fire(X); } };
    std::shared_ptr<Self> sp;
}
static void a_drop() { sp.reset(); vf_assert(dl == 1, "C06|a tracked object is destroyed while a call into it is running"); }
SCN(track_dtor, "C06 C07 C08 C23")
{
    {
        sig::signal<void()> s; gs = &s; std::size_t n = 0;
        while (vf_more()) { s.connect(Fn<void>(BG)); ++n; }
        sp = std::make_shared<Self>(); sp->sc = s.connect_scoped(&Self::go, sp);
        while (vf_more()) { s.connect(Fn<void>(BG)); ++n; }
        reset(); actor = X; action = a_drop;
        s();
        vf_assert(dl == 0, "C06|a tracked object outlives the call during which its last owner let go");
        vf_assert(calls[X] == 1 && calls[BG] == 2 * n && calls[N] == 0, "C06 C08 C01|destroying an object that uses the signal disturbs the emission in progress");
        reset(); s(); vf_assert(calls[X] == 0 && calls[BG] == n && calls[N] == 1, "C06 C08 C01|destroying an object that uses the signal disturbs later emissions");
    }
    vf_assert(live[BG] == 0 && live[N] == 0, "C23|a callable is not destroyed with its signal");
}
// objects given by value or pointer are not tracked, unique ownership works too
SCN(track_alias, "C06 C23")
{
    {
        struct Pair { TO a{ 1 }, b{ 2 }; };
        auto p = std::make_shared<Pair>();
        std::shared_ptr<TO> b(p, &p->b);                       // aliasing pointer
        sig::signal<int(int)> s; s.connect(&TO::i, b);
        reset(); auto r = s(1); vf_assert(r && *r == 2 && calls[2] == 1 && calls[1] == 0, "C06 C21|a tracked aliasing pointer reaches the wrong object");
        p.reset(); vf_assert(alive[1] == 1, "C06|an owner is lost"); r = s(1); vf_assert(r && calls[2] == 2, "C06|a live object counts as dead");
        b.reset(); vf_assert(alive[1] == 0 && alive[2] == 0, "C06|a connection keeps a tracked object alive");
        r = s(1); vf_assert(!r && calls[2] == 2, "C06|a slot calls into a dead object");
    }
}
// a smart pointer of the client's own, made trackable by its to_weak()
namespace cp
{
    struct ctl { long strong, weak; };
    template<class T> struct wptr;
    template<class T> struct ptr
    {
        T* p; ctl* c;
        ptr() : p(nullptr), c(nullptr) {} explicit ptr(T* t) : p(t), c(new ctl{ 1, 1 }) {}
        ptr(T* t, ctl* k) : p(t), c(k) { ++c->strong; }
        ptr(const ptr& o) : p(o.p), c(o.c) { if (c) ++c->strong; }
        ptr& operator=(const ptr& o) { ptr t(o); std::swap(p, t.p); std::swap(c, t.c); return *this; }
        ~ptr() { reset(); }
        void reset() { ctl* k = c; T* t = p; c = nullptr; p = nullptr; if (k && --k->strong == 0) { delete t; if (--k->weak == 0) delete k; } }
        T& operator*() const { vf_assert(p != nullptr, "C06|an empty pointer is dereferenced"); return *p; }
        explicit operator bool() const { return p != nullptr; }
        bool operator!() const { return p == nullptr; }
    };
    template<class T> struct wptr
    {
        T* p; ctl* c;
        wptr(T* t, ctl* k) : p(t), c(k) { if (c) ++c->weak; }
        wptr(const wptr& o) : wptr(o.p, o.c) {}
        wptr(wptr&& o) noexcept : p(o.p), c(o.c) { o.c = nullptr; }
        wptr& operator=(const wptr&) = delete;
        ~wptr() { reset(); }
        void reset() { ctl* k = c; c = nullptr; if (k && --k->weak == 0) delete k; }
        bool expired() const { return !c || c->strong == 0; }
        ptr<T> lock() const { return expired() ? ptr<T>() : ptr<T>(p, c); }
    };
    template<class T> wptr<T> to_weak(const ptr<T>& s) { return wptr<T>(s.p, s.c); }
}
namespace
{
    cp::ptr<TO>* cown;
    template<class R> void custom()
    {
        {
            cp::ptr<TO> own(new TO(1)); cown = &own; sig::signal<R(int)> s; std::size_t n = 0;
            s.connect(Fn<R, int>(BG)); ++n;
            auto c = vf_nd(2) ? s.connect(pm<R>::get(), own) : s.connect(sig::slot<R(int)>(pm<R>::get(), own));
            s.connect(Fn<R, int>(BG)); ++n;
            vf_assert(own.c->strong == 1, "C06|a connection owns its tracked object");
            switch (vf_nd(4))
            {
            case 0: reset(); s(1); vf_assert(calls[1] == 1 && own.c->strong == 1 && c.connected(), "C06 C01|a slot with a live tracked object is not called exactly once"); break;
            case 1: reset(); inside = [](unsigned) { cown->reset(); vf_assert(alive[1] == 1, "C06|a tracked object is destroyed while a call into it is running"); }; s(1); inside = nullptr; vf_assert(calls[1] == 1, "C06|a slot with a live tracked object is not called exactly once"); break;
            case 2: own.reset(); break;
            case 3: { cp::ptr<TO> two(own); own.reset(); reset(); s(1); vf_assert(calls[1] == 1 && c.connected(), "C06 C01|a slot with a live tracked object is not called exactly once"); } break;
            }
            vf_assert(alive[1] == (own ? 1 : 0), "C06|a tracked object outlives its last owner (or dies too early)");
            vf_assert(c.connected() == bool(own), "C06|a slot does not count as connected exactly while its tracked object is alive");
            own.reset(); vf_assert(alive[1] == 0 && !c.connected(), "C06|a connection keeps a tracked object alive");
            reset(); s(1); vf_assert(calls[1] == 0 && calls[BG] == n, "C06 C02|a slot is called whose tracked object is dead");
        }
        vf_assert(live[BG] == 0 && alive[1] == 0, "C06 C23|a callable is leaked");
    }
}
SCN(track_custom, "C06 C21 C23") { if (vf_nd(2)) custom<void>(); else custom<int>(); }
// what the pointer given to connect looks like does not matter: const, temporary, to a derived or const object, weak
namespace { struct DTO : TO { long pad = 0; explicit DTO(unsigned i) : TO(i) {} ~DTO() { pad = -1; } }; struct Lead { long z = 3; virtual ~Lead() {} }; struct MTO : Lead, TO { explicit MTO(unsigned i) : TO(i) {} }; }
SCN(track_forms, "C06 C21 C23")
{
    {
        sig::signal<int(int)> s; sig::slot<int(int)> sl; sig::connection c; const unsigned t = 1;
        std::shared_ptr<TO> p; std::shared_ptr<const TO> pc; std::shared_ptr<DTO> pd; std::shared_ptr<MTO> pm;
        switch (vf_nd(12))
        {
        case 0: p = std::make_shared<TO>(t); { const std::shared_ptr<TO> q(p); c = s.connect(&TO::i, q); } break;
        case 1: p = std::make_shared<TO>(t); c = s.connect(&TO::i, std::shared_ptr<TO>(p)); break;
        case 2: p.reset(new TO(t)); { auto q = p; c = s.connect(&TO::i, std::move(q)); } break;
        case 3: pc = std::make_shared<TO>(t); c = s.connect(&TO::i, pc); break;
        case 4: pd = std::make_shared<DTO>(t); c = s.connect(&TO::i, pd); break;
        case 5: pm = std::make_shared<MTO>(t); c = s.connect(&TO::i, pm); break;
        case 6: p = std::make_shared<MTO>(t); c = s.connect(&TO::i, p); break;
        case 7: p = std::make_shared<TO>(t); { std::weak_ptr<TO> w(p); c = s.connect(sig::slot<int(int)>(&TO::i, w)); } break;
        case 8: p = std::make_shared<TO>(t); { const std::weak_ptr<TO> w(p); c = s.connect(sig::slot<int(int)>(&TO::i, w)); } break;
        case 9: pd = std::make_shared<DTO>(t); { std::weak_ptr<DTO> w(pd); sl = sig::slot<int(int)>(&TO::i, std::move(w)); c = s.connect(sl); } break;
        case 10: pm = std::make_shared<MTO>(t); { std::weak_ptr<const TO> w(pm); c = s.connect(sig::slot<int(int)>(&TO::i, w)); } break;
        case 11: p = std::make_shared<TO>(t); { int (TO::* const f)(int) const = &TO::i; sig::scoped_connection k(s.connect_scoped(f, p)); c = k.release(); } break;
        }
        vf_assert(p.use_count() + pc.use_count() + pd.use_count() + pm.use_count() == 1 && c.connected(), "C06|a connection owns its tracked object");
        reset(); auto r = s(1); vf_assert(r && *r == 1 && calls[1] == 1, "C06 C21|a slot with a live tracked object is not called exactly once");
        if (vf_nd(2)) { reset(); sig::slot<int(int)> z(sl); auto q = z(1); vf_assert(bool(q) == bool(sl) && (!q || *q == 1 && calls[1] == 1), "C06 C20|a copy of a slot does not call its tracked object"); }
        p.reset(); pc.reset(); pd.reset(); pm.reset();
        vf_assert(alive[1] == 0 && !c.connected() && !sl.connected(), "C06|a connection keeps a tracked object alive");
        reset(); r = s(1); vf_assert(!r && calls[1] == 0, "C06|a slot calls into a dead object");
        vf_assert(!sl(1), "C06|a slot calls into a dead object");
    }
}
// a data member of a tracked object
namespace { struct Dat { long k; long* dead; Dat(long x, long* d) : k(x), dead(d) {} ~Dat() { ++*dead; k = -1; } }; }
SCN(track_data, "C06 C21 C23")
{
    long dead = 0; long a = vf_sym("a");
    {
        auto p = std::make_shared<Dat>(a, &dead); sig::signal<long()> s; auto c = s.connect(&Dat::k, p); sig::slot<long()> sl(&Dat::k, std::weak_ptr<Dat>(p)); auto d = s.connect(sl);
        auto r = s(); vf_assert(r && *r == a && p.use_count() == 1, "C06 C21|a data member of a tracked object is not read"); p->k = a + 1; r = s(); vf_assert(r && *r == a + 1, "C06 C21|a data member of a tracked object is not read");
        c.disconnect(); r = s(); vf_assert(r && *r == a + 1, "C03 C06|disconnecting one slot of an object disconnects another");
        p.reset(); vf_assert(dead == 1 && !d.connected(), "C06|a connection keeps a tracked object alive"); r = s(); vf_assert(!r && !sl(), "C06|a slot reads a dead object");
    }
    vf_assert(dead == 1, "C06 C23|a tracked object is destroyed twice");
}
// two kinds of slots for one object; equality and disconnection by slot value of tracked slots
SCN(track_two, "C06 C15 C03 C23")
{
    {
        auto p = std::make_shared<TO>(1), q = std::make_shared<TO>(2); sig::signal<int(int)> s; TO* raw = p.get();
        auto a = s.connect(&TO::i, p), b = s.connect(&TO::i, q), d = s.connect(&TO::i, raw), e = s.connect(&TO::i, p);
        reset(); s(1); vf_assert(calls[1] == 3 && calls[2] == 1, "C01 C06|a slot with a live tracked object is not called exactly once");
        switch (vf_nd(4))
        {
        case 0: a.disconnect(); reset(); s(1); vf_assert(calls[1] == 2 && calls[2] == 1 && e.connected() && d.connected(), "C03 C06|disconnecting one slot of an object disconnects another"); break;
        case 1: vf_assert(s.disconnect(&TO::i, raw) == 1 && !d.connected(), "C15|disconnecting by object pointer removes the wrong slots"); reset(); s(1); vf_assert(calls[1] == 2 && calls[2] == 1, "C15 C03|disconnecting by object pointer removes the wrong slots"); break;
        case 2: d.disconnect(); p.reset(); vf_assert(!a.connected() && !e.connected() && b.connected() && alive[1] == 0, "C06|the death of one object affects the slots of another"); reset(); s(1); vf_assert(calls[1] == 0 && calls[2] == 1, "C06 C03|the death of one object affects the slots of another"); break;
        case 3: q.reset(); vf_assert(a.connected() && !b.connected() && d.connected(), "C06|the death of one object affects the slots of another"); reset(); s(1); vf_assert(calls[1] == 3 && calls[2] == 0, "C06 C03|the death of one object affects the slots of another"); break;
        }
        a.block(); vf_assert(!e.blocked() && !b.blocked(), "C05|blocking one slot affects another");
    }
    vf_assert(alive[1] == 0 && alive[2] == 0, "C06 C23|a tracked object is leaked");
}
// slots whose object is dead stay in the list until the signal goes: they do not disturb what happens to the others
namespace
{
    template<class R> struct Ded
    {
        using S = sig::signal<R(int)>;
        static inline S* s; static inline sig::connection cx, cy, ct;
        static void gone() { vf_assert(!cx.connected() && !cy.connected() && !ct.connected() && !cx.disconnect() && !cy.disconnect(), "C02 C12 C06|a connection of a destroyed signal is still connected"); }
        static void a_destroy() { delete s; s = nullptr; gone(); }
        static void a_assign() { S t; t.connect(Fn<R, int>(N)); *s = std::move(t); gone(); }
        static void a_disc() { vf_assert(cy.disconnect() && cx.disconnect(), "C04 C06|disconnect() fails next to a slot whose object is dead"); }
        static void a_byfn() { vf_assert(s->disconnect(Fn<R, int>(Y)) == 1 && s->disconnect(Fn<R, int>(X)) == 1, "C15 C06|disconnect by callable fails next to a slot whose object is dead"); }
        static void run()
        {
            s = new S(); unsigned at = vf_nd(3); auto p = std::make_shared<TO>(0);
            auto dead = [&] { ct = vf_nd(2) ? s->connect(pm<R>::get(), p) : s->connect(sig::slot<R(int)>(pm<R>::get(), std::weak_ptr<TO>(p))); };
            if (at == 0) dead();
            cx = s->connect(Fn<R, int>(X));
            if (at == 1) dead();
            cy = s->connect(Fn<R, int>(Y));
            if (at == 2) dead();
            if (vf_nd(2)) { reset(); (*s)(1); vf_assert(calls[X] == 1 && calls[Y] == 1 && calls[0] == 1, "C01 C06|a slot is not called exactly once"); }
            p.reset();
            if (vf_nd(2)) { reset(); (*s)(1); vf_assert(calls[X] == 1 && calls[Y] == 1, "C01 C06|a slot is not called exactly once next to one whose object is dead"); }
            bool emitting = vf_nd(2); unsigned act = vf_nd(4); void (*const acts[])() = { a_destroy, a_assign, a_disc, a_byfn };
            reset();
            if (emitting) { actor = X; action = acts[act]; (*s)(1); actor = 99; action = nullptr; vf_assert(calls[X] == 1 && calls[Y] == 0 && calls[N] == 0, "C02 C06|a slot disconnected during an emission is still called by it"); }
            else acts[act]();
            vf_assert(!cx.connected() && !cy.connected() && !ct.connected() && live[X] == 0 && live[Y] == 0, "C02 C12 C06 C23|a disconnected slot lives on next to one whose object is dead");
            if (s) { reset(); (*s)(1); vf_assert(calls[X] == 0 && calls[Y] == 0 && calls[N] == (act == 1 ? 1u : 0u), "C02 C19 C06|a disconnected slot is called next to one whose object is dead"); delete s; s = nullptr; }
            ct.block(); vf_assert(!ct.disconnect() && !ct.connected(), "C12 C06|a connection of a destroyed signal is still connected");
            cx = cy = ct = sig::connection();
        }
    };
}
SCN(track_dead_void, "C06 C02 C12 C23 C04 C03") { Ded<void>::run(); vf_assert(live[X] == 0 && live[Y] == 0 && live[N] == 0, "C23 C06|a callable is leaked"); }
SCN(track_dead_int, "C06 C02 C12 C23 C04 C03") { Ded<int>::run(); vf_assert(live[X] == 0 && live[Y] == 0 && live[N] == 0, "C23 C06|a callable is leaked"); }
