// Threads (C09, C04, C02, C05, C06, C08, C15, C19): threads operating on one signal at the same time.
#include "lib.hpp"
using namespace w;
namespace
{
    using S = sig::signal<void(int)>;
    bool counting;
    // a callable whose own state needs no synchronisation
    struct G { unsigned t; void operator()(int) const { vf_assert(vf_held() == 0, "C07|a slot runs while the library holds a mutex"); if (counting) ++calls[t]; } bool operator==(const G& o) const { return t == o.t; } };
    S* s; sig::connection *c1, *c2, *c3, *c4; int n1, n2, n3;
    S& mk(unsigned n)
    {
        s = new S(); c1 = new sig::connection(); c2 = new sig::connection(); c3 = new sig::connection(); c4 = new sig::connection();
        if (n > 0) *c1 = s->connect(G{ 1 });
        if (n > 1) *c2 = s->connect(G{ 2 });
        n1 = n2 = n3 = 0; return *s;
    }
    bool in(const char* e, char t) { for (; *e; ++e) if (*e == t) return true; return false; }
    // afterwards exactly the slots in e are connected, called once each, and can be disconnected
    void done(const char* e)
    {
        sig::connection* c[4] = { c1, c2, c3, c4 };
        counting = true; reset(); (*s)(1); counting = false;
        for (unsigned t = 1; t <= 4; ++t)
        {
            bool x = in(e, char('0' + t));
            vf_assert(calls[t] == (x ? 1u : 0u), "C09 C04 C01 C03|after concurrent operations an emission does not call exactly the connected slots");
            vf_assert(c[t - 1]->connected() == x && !c[t - 1]->blocked(), "C09 C04 C02|after concurrent operations a connection does not report its state");
        }
        for (unsigned t = 1; t <= 4; ++t) vf_assert(c[t - 1]->disconnect() == in(e, char('0' + t)), "C09 C04|after concurrent operations a slot cannot be disconnected exactly once");
        counting = true; reset(); (*s)(1); counting = false;
        for (unsigned t = 1; t <= 4; ++t) vf_assert(calls[t] == 0, "C09 C02 C03|after concurrent operations a disconnected slot is called");
        delete s; delete c1; delete c2; delete c3; delete c4;
    }
    void t_emit(void*) { (*s)(1); }
    void t_emit2(void*) { (*s)(1); (*s)(1); }
    void t_conn(void*) { *c3 = s->connect(G{ 3 }); }
    void t_conn4(void*) { *c4 = s->connect(G{ 4 }); }
    void t_connslot(void*) { sig::slot<void(int)> x(G{ 3 }); *c3 = s->connect(x); }
    void t_conndis(void*) { auto c = s->connect(G{ 3 }); n3 = c.disconnect(); }
    void t_dis(void*) { n1 = c1->disconnect(); }
    void t_dis1b(void*) { sig::connection c(*c1); n2 = c.disconnect(); }
    void t_dis2(void*) { n2 = c2->disconnect(); }
    void t_by1(void*) { n2 = (int)s->disconnect(G{ 1 }); }
    void t_by1b(void*) { n1 = (int)s->disconnect(G{ 1 }); }
    void t_by2(void*) { n2 = (int)s->disconnect(G{ 2 }); }
    void t_block(void*) { c1->block(); c1->unblock(); }
    void t_query(void*) { (void)c1->connected(); (void)c1->blocked(); (void)c1->valid(); }
    void t_blocker(void*) { auto b = c1->blocker(); }
    void t_scoped(void*) { sig::scoped_connection x(*c1); }
}
#define PAIR(name, tags, n, A, B, e, CHECK) SCN(name, tags "|thr=3") { mk(n); vf_spawn(A, nullptr); vf_spawn(B, nullptr); vf_join(); CHECK; done(e); }
#define TRIO(name, tags, n, A, B, C, e, CHECK) SCN(name, tags "|thr=2") { mk(n); vf_spawn(A, nullptr); vf_spawn(B, nullptr); vf_spawn(C, nullptr); vf_join(); CHECK; done(e); }
PAIR(thr_emit_emit, "C09 C08", 1, t_emit, t_emit, "1", )
PAIR(thr_emit_conn, "C09 C08", 1, t_emit, t_conn, "13", )
PAIR(thr_emit_conn0, "C09 C08", 0, t_emit, t_conn, "3", )
PAIR(thr_emit_connslot, "C09 C08 C20", 1, t_emit, t_connslot, "13", )
PAIR(thr_emit_dis, "C09 C08 C04", 2, t_emit, t_dis, "2", vf_assert(n1, "C09 C04|a disconnection during an emission fails"))
PAIR(thr_emit2_dis, "C09 C08", 1, t_emit2, t_dis, "", vf_assert(n1, "C09 C04|a disconnection during an emission fails"))
PAIR(thr_emit_by, "C09 C08 C15", 2, t_emit, t_by1, "2", vf_assert(n2 == 1, "C09 C15|a disconnection during an emission fails"))
PAIR(thr_emit_scoped, "C09 C11", 2, t_emit, t_scoped, "2", )
PAIR(thr_conn_conn, "C09 C04", 1, t_conn, t_conn4, "134", )
PAIR(thr_conn_dis, "C09 C04 C03", 2, t_conn, t_dis, "23", vf_assert(n1, "C04|disconnect() of a connected slot returns false"))
PAIR(thr_conndis_dis, "C09 C04 C03", 2, t_conndis, t_dis, "2", vf_assert(n1 && n3, "C04|disconnect() of a connected slot returns false"))
PAIR(thr_conn_by, "C09 C04 C15", 2, t_conn, t_by1, "23", vf_assert(n2 == 1, "C15|disconnecting by callable does not remove exactly the equal slots"))
PAIR(thr_dis_dis, "C09 C04 C02", 2, t_dis, t_dis1b, "2", vf_assert(n1 + n2 == 1, "C04 C09|two threads disconnecting one slot do not get exactly one success"))
PAIR(thr_dis_dis2, "C09 C04 C03", 2, t_dis, t_dis2, "", vf_assert(n1 && n2, "C04 C09|two threads disconnecting different slots disturb each other"))
PAIR(thr_dis_by, "C09 C04 C15 C02", 2, t_dis, t_by1, "2", )
PAIR(thr_by_by, "C09 C15 C02", 2, t_by1, t_by1b, "2", vf_assert(n1 + n2 == 1, "C15 C09|two threads disconnecting one slot by callable count it twice"))
PAIR(thr_dis_by2, "C09 C04 C15 C03", 2, t_dis, t_by2, "", vf_assert(n1 && n2 == 1, "C04 C09|two threads disconnecting different slots disturb each other"))
PAIR(thr_dis_scoped, "C09 C04 C11", 2, t_dis2, t_scoped, "", )
PAIR(thr_block_emit, "C09 C05", 1, t_block, t_emit, "1", )
PAIR(thr_query_dis, "C09 C04", 1, t_query, t_dis, "", )
PAIR(thr_query_block, "C09 C05", 1, t_query, t_block, "1", )
PAIR(thr_blocker_dis, "C09 C05", 1, t_blocker, t_dis, "", )
PAIR(thr_blocker_emit, "C09 C05", 1, t_blocker, t_emit, "1", )
TRIO(thr_emit_conn_dis, "C09 C04 C08", 2, t_emit, t_conn, t_dis, "23", vf_assert(n1, "C04|disconnect() of a connected slot returns false"))
TRIO(thr_dis3, "C09 C04 C03", 2, t_dis, t_dis2, t_conn, "3", vf_assert(n1 && n2, "C04 C09|threads disconnecting different slots disturb each other"))
TRIO(thr_emit_emit_dis, "C09 C08", 2, t_emit, t_emit, t_dis, "2", )

// an emission that starts after disconnect() returned in another thread does not call the slot
namespace { int gone, dead_calls; struct H { unsigned t; void operator()(int) const { if (t == 1 && gone == 2) ++dead_calls; } }; void d_dis(void*) { c1->disconnect(); gone = 1; } void d_emit(void*) { if (gone) gone = 2; (*s)(1); } }
SCN(thr_dead_call, "C02|thr=3") { s = new S(); c1 = new sig::connection(s->connect(H{ 1 })); gone = dead_calls = 0; vf_spawn(d_dis, nullptr); vf_spawn(d_emit, nullptr); vf_join(); vf_assert(dead_calls == 0, "C02|a slot disconnected by another thread is called"); delete s; delete c1; }

// moving signals in opposite directions
namespace { S *sa, *sb; void m_ab(void*) { *sa = std::move(*sb); } void m_ba(void*) { *sb = std::move(*sa); } void m_emit(void*) { (*sa)(1); } void m_conn(void*) { sa->connect(G{ 3 }); } void m_dis(void*) { sa->disconnect(G{ 1 }); } }
#define MOVE(name, A, B) SCN(name, "C19 C07|thr=3") { sa = new S(); sb = new S(); auto a = sa->connect(G{ 1 }), b = sb->connect(G{ 2 }); vf_spawn(A, nullptr); vf_spawn(B, nullptr); vf_join(); counting = true; reset(); (*sa)(1); (*sb)(1); counting = false; \
    vf_assert(calls[1] == (a.connected() ? 1u : 0u) && calls[2] == (b.connected() ? 1u : 0u), "C19|after concurrent moves the connected slots are not the ones that are called"); delete sa; delete sb; vf_assert(!a.connected() && !b.connected(), "C19 C12|a slot outlives its signal"); }
MOVE(thr_move_opposite, m_ab, m_ba)
MOVE(thr_move_same, m_ab, m_ab)
MOVE(thr_move_emit, m_ab, m_emit)
MOVE(thr_move_conn, m_ab, m_conn)
MOVE(thr_move_by, m_ab, m_dis)
namespace { S* sc; void m_new(void*) { sc = new S(std::move(*sa)); } }
#define MOVEC(name, B) SCN(name, "C19 C07|thr=3") { sa = new S(); auto a = sa->connect(G{ 1 }), b = sa->connect(G{ 2 }); vf_spawn(m_new, nullptr); vf_spawn(B, nullptr); vf_join(); counting = true; reset(); (*sa)(1); vf_assert(calls[1] == 0 && calls[2] == 0, "C19|a moved-from signal keeps its slots"); (*sc)(1); counting = false; \
    vf_assert(calls[1] == (a.connected() ? 1u : 0u) && calls[2] == 1 && b.connected(), "C19|after a concurrent move the connected slots are not the ones that are called"); delete sa; vf_assert(b.connected(), "C19|destroying a moved-from signal disconnects the slots it had"); delete sc; vf_assert(!a.connected() && !b.connected(), "C19 C12|a slot outlives its signal"); }
MOVEC(thr_movec_emit, m_emit)
MOVEC(thr_movec_conn, m_conn)
MOVEC(thr_movec_by, m_dis)

// a tracked object that dies in another thread
namespace { struct T { Mark m{ X }; void f(int) { m.use(); if (counting) ++calls[1]; m.use(); } int g(int) { m.use(); return 1; } }; std::shared_ptr<T>* sp; sig::signal<int(int)>* si; void k_die(void*) { sp->reset(); } void k_emit(void*) { (*s)(1); } void k_emiti(void*) { (*si)(1); } void k_q(void*) { (void)c1->connected(); } void k_lock(void*) { std::shared_ptr<T> x(*sp); x.reset(); } }
SCN(thr_track_die, "C06 C09|thr=3") { s = new S(); sp = new std::shared_ptr<T>(std::make_shared<T>()); c1 = new sig::connection(s->connect(&T::f, *sp)); vf_spawn(k_die, nullptr); vf_spawn(k_emit, nullptr); vf_join(); vf_assert(live[X] == 0 && !c1->connected(), "C06|a tracked object is kept alive"); (*s)(1); delete s; delete c1; delete sp; }
SCN(thr_track_diei, "C06 C09|thr=3") { si = new sig::signal<int(int)>(); sp = new std::shared_ptr<T>(std::make_shared<T>()); c1 = new sig::connection(si->connect(&T::g, *sp)); vf_spawn(k_die, nullptr); vf_spawn(k_emiti, nullptr); vf_join(); vf_assert(live[X] == 0 && !c1->connected() && !(*si)(1), "C06|a tracked object is kept alive"); delete si; delete c1; delete sp; }
// a slot that an emission found dead stays in the list next to others, which lose their signal during a later emission
namespace { void (*ending)(); struct Ender { void operator()(int) { if (ending) ending(); } }; void e_del() { delete s; s = nullptr; } void e_assign() { S t; *s = std::move(t); } void e_dis() { vf_assert(c2->disconnect(), "C04|disconnect() fails next to a dead slot"); } }
#define DEADN(name, END) SCN(name, "C06 C02 C12|thr=2") { s = new S(); sp = new std::shared_ptr<T>(std::make_shared<T>()); ending = nullptr; c1 = new sig::connection(s->connect(&T::f, *sp)); auto c = s->connect(Ender{}); c2 = new sig::connection(s->connect(G{ 2 })); \
    vf_spawn(k_die, nullptr); vf_spawn(k_emit, nullptr); vf_join(); vf_assert(live[X] == 0 && !c1->connected() && c2->connected(), "C06|a tracked object is kept alive"); reset(); counting = true; ending = END; (*s)(1); ending = nullptr; counting = false; \
    vf_assert(calls[2] == 0 && !c1->connected() && !c2->connected() && !c2->disconnect(), "C02 C12|a slot that lost its signal is called"); delete s; delete c1; delete c2; delete sp; }
DEADN(thr_track_next, e_del)
DEADN(thr_track_assign, e_assign)
DEADN(thr_track_remove, e_dis)
SCN(thr_track_query, "C06 C09|thr=3") { s = new S(); sp = new std::shared_ptr<T>(std::make_shared<T>()); c1 = new sig::connection(s->connect(&T::f, *sp)); vf_spawn(k_die, nullptr); vf_spawn(k_q, nullptr); vf_join(); vf_assert(live[X] == 0 && !c1->connected(), "C06|a tracked object is kept alive"); delete s; delete c1; delete sp; }
