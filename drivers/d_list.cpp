// One or two slots in the middle of arbitrary many others: disconnect, block, remove by value ...
#include "lib.hpp"
using namespace w;

template<class R> struct World
{
    using S = sig::signal<R(int)>;
    using F = Fn<R, int>;
    using Slot = sig::slot<R(int)>;
    S s;
    sig::connection cx, cy;
    std::size_t n = 0;
    void seg() { while (vf_more()) { s.connect(F(BG)); ++n; } }
    void build(bool swapped)
    {
        seg();
        if (swapped) cy = s.connect(F(Y)); else cx = s.connect(F(X));
        seg();
        if (swapped) cx = s.connect(F(X)); else cy = s.connect(F(Y));
        seg();
    }
    void emit() { reset(); s(1); }
    void expect(unsigned x, unsigned y, const char*)
    {
        emit();
        vf_assert(calls[X] == x || x == 0, "C01 C03 C05|a connected, unblocked slot is not called exactly once");
        vf_assert(calls[X] == x || x != 0, "C02 C05|a slot that is disconnected or blocked is called");
        vf_assert(calls[Y] == y || y == 0, "C01 C03 C05|a slot disappears, is duplicated or stays blocked when another slot is changed");
        vf_assert(calls[Y] == y || y != 0, "C02 C05|a slot that is disconnected or blocked is called");
        vf_assert(calls[BG] == n, "C01 C03|the other slots are not all called exactly once");
    }
    void gone_x()
    {
        vf_assert(!cx.connected(), "C02 C04|a disconnected slot reports connected");
        vf_assert(!cx.disconnect(), "C04|disconnect() reports success twice");
        expect(0, 1, "");
    }
    void finish()
    {
        // the other slot is still fully under the control of its own connection
        vf_assert(cy.connected(), "C03|disconnecting one slot disconnects another");
        vf_assert(!cy.blocked(), "C03 C05|an operation on one slot blocks another");
        cy.block();
        expect(0, 0, "");
        cy.unblock();
        expect(0, 1, "");
        vf_assert(cy.disconnect(), "C04 C03|the first disconnect() of a connected slot does not report success");
        vf_assert(!cy.connected(), "C04 C02|a disconnected slot reports connected");
        vf_assert(!cy.disconnect(), "C04|disconnect() reports success twice");
        expect(0, 0, "");
        auto c = s.connect(F(N));
        expect(0, 0, "");
        vf_assert(calls[N] == 1, "C01 C03|a slot connected after a removal is not called exactly once");
        vf_assert(c.disconnect(), "C04 C03|the first disconnect() of a connected slot does not report success");
        expect(0, 0, "");
        vf_assert(calls[N] == 0, "C02|a disconnected slot is called");
    }
};
enum How { CONN, COPY, MOVED, SCOPED, SCASSIGN, BYSLOT, BYFN };

template<class R, int how> void remove()
{
    {
        World<R> w;
        w.build(vf_nd(2));
        sig::connection keep = w.cx;
        vf_assert(w.cx.connected() && w.cy.connected(), "C01|a new connection is not connected");
        if (how == CONN) vf_assert(w.cx.disconnect(), "C04|the first disconnect() of a connected slot does not report success");
        if (how == COPY) vf_assert(keep.disconnect(), "C04|the first disconnect() of a connected slot does not report success");
        if (how == MOVED) { sig::connection m(std::move(keep)); vf_assert(m.disconnect(), "C04 C12|a moved connection has lost its slot"); vf_assert(!keep.connected() && !keep.disconnect(), "C04 C12|a moved-from connection still controls the slot"); }
        if (how == SCOPED) { sig::scoped_connection sc(keep); vf_assert(sc.connected() && w.cx.connected(), "C11|a scoped connection disconnects its slot too early"); }
        if (how == SCASSIGN) { sig::scoped_connection sc(keep), e; sc = std::move(e); vf_assert(!w.cx.connected(), "C11 C02|assigning to a scoped connection does not disconnect the slot it owned"); }
        if (how == BYSLOT) { typename World<R>::Slot sl{ Fn<R, int>(X) }; vf_assert(w.s.disconnect(sl) == 1, "C15|disconnect by slot value does not report the number of removed slots"); }
        if (how == BYFN) vf_assert(w.s.disconnect(Fn<R, int>(X)) == 1, "C15|disconnect by callable does not report the number of removed slots");
        vf_assert(live[X] == 0, "C12 C23|the callable of a disconnected slot is not destroyed");
        vf_assert(!keep.connected() && !keep.disconnect(), "C04 C11 C15|a slot is still connected after its disconnection");
        w.gone_x();
        w.finish();
    }
    vf_assert(live[BG] == 0 && live[X] == 0 && live[Y] == 0 && live[N] == 0, "C23 C12|a callable is not destroyed with its signal");
}
#define TAGS "C01 C02 C03 C04 C07 C12 C23"
SCN(rm_conn_void, TAGS) { remove<void, CONN>(); }
SCN(rm_conn_int, TAGS) { remove<int, CONN>(); }
SCN(rm_copy, TAGS) { remove<void, COPY>(); }
SCN(rm_moved, TAGS) { remove<void, MOVED>(); }
SCN(rm_scoped, TAGS " C11") { remove<void, SCOPED>(); }
SCN(rm_scassign, TAGS " C11") { remove<int, SCASSIGN>(); }
SCN(rm_byslot, TAGS " C15") { remove<void, BYSLOT>(); }
SCN(rm_byfn_void, TAGS " C15") { remove<void, BYFN>(); }
SCN(rm_byfn_int, TAGS " C15") { remove<int, BYFN>(); }

// both slots removed, either order
template<class R> void remove2()
{
    {
        World<R> w;
        w.build(vf_nd(2));
        if (vf_nd(2)) { vf_assert(w.cx.disconnect(), "C04|the first disconnect() of a connected slot does not report success"); vf_assert(w.cy.disconnect(), "C04 C03|the first disconnect() of a connected slot does not report success"); }
        else { vf_assert(w.cy.disconnect(), "C04|the first disconnect() of a connected slot does not report success"); vf_assert(w.cx.disconnect(), "C04 C03|the first disconnect() of a connected slot does not report success"); }
        w.expect(0, 0, "");
        w.seg();
        auto c = w.s.connect(Fn<R, int>(N));
        w.seg();
        w.expect(0, 0, "");
        vf_assert(calls[N] == 1, "C01 C03|a slot connected after a removal is not called exactly once");
    }
}
SCN(rm_both, TAGS) { remove2<void>(); }

// blocking
template<class R, int how> void blocking()
{
    {
        World<R> w;
        w.build(vf_nd(2));
        sig::connection c2 = w.cx;
        if (how == 0)
        {
            w.cx.block();
            vf_assert(w.cx.blocked() && c2.blocked(), "C05|a blocked slot does not report blocked on every copy of its connection");
            vf_assert(w.cx.connected(), "C05|blocking a slot disconnects it");
            vf_assert(!w.cy.blocked(), "C05|blocking one slot blocks another");
            w.expect(0, 1, "");
            c2.unblock();
            vf_assert(!w.cx.blocked() && !c2.blocked(), "C05|an unblocked slot reports blocked");
        }
        if (how == 1)
        {
            auto b = w.cx.blocker();
            vf_assert(w.cx.blocked() && c2.blocked() && w.cx.connected() && !w.cy.blocked(), "C05|a blocker does not block exactly its slot");
            w.expect(0, 1, "");
            sig::connection_blocker b2(std::move(b));
            w.expect(0, 1, "");
            b = std::move(b2);
            w.expect(0, 1, "");
        }
        if (how == 2)
        {
            sig::connection_blocker e;
            {
                auto b = w.cx.blocker();
                auto d = w.cy.blocker();
                w.expect(0, 0, "");
                b = std::move(d);       // releases x, keeps y blocked
                vf_assert(!w.cx.blocked() && w.cy.blocked(), "C05|assigning to a blocker does not release its slot and take over the other");
                w.expect(1, 0, "");
                using std::swap;
                swap(b, e);
                vf_assert(w.cy.blocked(), "C05|swapping blockers releases the slot");
            }
            w.expect(1, 0, "");
            e = sig::connection_blocker();
        }
        if (how == 3)
        {
            auto b = w.cx.blocker();
            vf_assert(w.cx.disconnect(), "C04 C05|a blocked slot cannot be disconnected");
            w.expect(0, 1, "");
            vf_assert(!w.cx.blocked() && !w.cx.connected(), "C12|a stale connection reports blocked or connected");
            return;
        }
        vf_assert(!w.cx.blocked() && !w.cy.blocked(), "C05|a slot stays blocked after its blocker ended");
        w.expect(1, 1, "");
        vf_assert(w.cx.disconnect(), "C04|the first disconnect() of a connected slot does not report success");
        w.gone_x();
    }
}
SCN(block_conn, "C05 C01 C02 C03 C04") { blocking<void, 0>(); }
SCN(block_conn_int, "C05 C01 C02 C03 C04") { blocking<int, 0>(); }
SCN(block_blocker, "C05 C01 C12") { blocking<void, 1>(); }
SCN(block_move, "C05 C01 C12") { blocking<void, 2>(); }
SCN(block_stale, "C05 C12 C02") { blocking<int, 3>(); }

// removal by value with any number of matches (the matches are the segments themselves)
template<class R> void byvalue()
{
    {
        World<R> w;
        w.build(vf_nd(2));
        std::size_t k = w.s.disconnect(Fn<R, int>(BG));
        vf_assert(k == w.n, "C15|disconnect by callable does not report the number of matching slots");
        w.n = 0;
        vf_assert(live[BG] == 0, "C12 C23 C15|the callable of a disconnected slot is not destroyed");
        w.expect(1, 1, "");
        vf_assert(w.s.disconnect(Fn<R, int>(BG)) == 0 && w.s.disconnect(Fn<R, int>(N)) == 0, "C15|disconnect by callable removes slots that do not match");
        w.expect(1, 1, "");
        vf_assert(w.cx.disconnect(), "C03 C04|the first disconnect() of a connected slot does not report success");
        w.gone_x();
        w.finish();
    }
}
SCN(byvalue_void, "C15 C03 C01 C02 C12 C04 C23") { byvalue<void>(); }
SCN(byvalue_int, "C15 C03 C01 C02 C12 C04 C23") { byvalue<int>(); }
