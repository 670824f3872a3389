// Emission over lists of any length: every slot once, in connection order (C01), lock-free (C07), results (C16), release (C23).
#include "lib.hpp"
using namespace w;

template<class R, class... A> struct OrdFn
{
    std::size_t id; Mark m;
    explicit OrdFn(std::size_t i) : id(i), m(BG) {}
    R operator()(A...) const
    {
        m.use();
        vf_assert(vf_held() == 0, "C07|a slot runs while the library holds a mutex");
        vf_assert(id == next_id, "C01|slots are not called once each in the order of connection");
        ++next_id;
        return ret<R>::get(7);
    }
};
struct OrdObj
{
    std::size_t id; Mark m;
    explicit OrdObj(std::size_t i) : id(i), m(BG) {}
    void go()
    {
        m.use();
        vf_assert(vf_held() == 0, "C07|a slot runs while the library holds a mutex");
        vf_assert(id == next_id, "C01|slots are not called once each in the order of connection");
        ++next_id;
    }
    void goc(int) const { const_cast<OrdObj*>(this)->go(); }
    int goi(int a) { go(); return a; }
};

struct CfgFnVoid { using S = sig::signal<void(int)>; template<class T> void con(T& s, std::size_t i) { s.connect(OrdFn<void, int>(i)); } template<class T> void emit(T& s) { s(3); } };
struct CfgFnInt  { using S = sig::signal<int(int)>;  template<class T> void con(T& s, std::size_t i) { s.connect(OrdFn<int, int>(i)); }  template<class T> void emit(T& s) { s(3); } };
struct CfgFnNone { using S = sig::signal<void()>;    template<class T> void con(T& s, std::size_t i) { s.connect(OrdFn<void>(i)); }      template<class T> void emit(T& s) { s(); } };
struct CfgFn2    { using S = sig::signal<int(int, long)>; template<class T> void con(T& s, std::size_t i) { s.connect(OrdFn<int, int, long>(i)); } template<class T> void emit(T& s) { s(3, 4l); } };
struct CfgVal    { using S = sig::signal<void()>;    template<class T> void con(T& s, std::size_t i) { s.connect(&OrdObj::go, OrdObj(i)); } template<class T> void emit(T& s) { s(); } };
struct CfgValC   { using S = sig::signal<void(int)>; template<class T> void con(T& s, std::size_t i) { s.connect(&OrdObj::goc, OrdObj(i)); } template<class T> void emit(T& s) { s(1); } };
struct CfgValI   { using S = sig::signal<int(int)>;  template<class T> void con(T& s, std::size_t i) { s.connect(&OrdObj::goi, OrdObj(i)); } template<class T> void emit(T& s) { s(1); } };
struct CfgSlot   { using S = sig::signal<void(int)>; template<class T> void con(T& s, std::size_t i) { sig::slot<void(int)> sl{ OrdFn<void, int>(i) }; s.connect(sl); } template<class T> void emit(T& s) { s(3); } };
struct CfgConst  { using S = sig::signal<void(int)>; template<class T> void con(T& s, std::size_t i) { s.connect(OrdFn<void, int>(i)); } template<class T> void emit(T& s) { const T& c = s; c(3); } };

template<class C> void order()
{
    reset();
    {
        typename C::S s; C c;
        std::size_t n = 0;
        while (vf_more()) { c.con(s, n); ++n; }
        c.emit(s);
        vf_assert(next_id == n, "C01|a connected slot is not called by an emission");
        next_id = 0;
        c.emit(s);
        vf_assert(next_id == n, "C01|a connected slot is not called by a second emission");
        vf_assert(live[BG] == (long)n, "C23|an emission leaves copies of callables behind");
    }
    vf_assert(live[BG] == 0, "C23 C12|a callable is not destroyed with its signal");
}
#define ORDER(C) SCN(order_##C, "C01 C07 C23 C12") { order<C>(); }
ORDER(CfgFnVoid) ORDER(CfgFnInt) ORDER(CfgFnNone) ORDER(CfgFn2) ORDER(CfgVal) ORDER(CfgValC) ORDER(CfgValI) ORDER(CfgSlot) ORDER(CfgConst)

// interleaved connects and emissions: each emission calls exactly the slots connected so far
SCN(order_grow, "C01 C08 C23")
{
    reset();
    {
        sig::signal<void(int)> s;
        std::size_t n = 0;
        while (vf_more()) { s.connect(OrdFn<void, int>(n)); ++n; next_id = 0; s(1); vf_assert(next_id == n, "C01|an emission does not call exactly the connected slots"); }
    }
}

// tracked objects: any number of slots bound to one object
template<class R> void tracked()
{
    reset();
    {
        sig::signal<R(int)> s;
        auto sp = std::make_shared<Obj>(X);
        std::size_t n = 0;
        while (vf_more()) { s.connect(&Obj::i, sp); ++n; }
        s(1);
        vf_assert(calls[X] == n, "C01 C06|a slot with a live tracked object is not called exactly once");
        vf_assert(live[X] == 1, "C06 C23|tracking copies the object");
        reset();
        sp.reset();
        vf_assert(live[X] == 0, "C06|a connection keeps a tracked object alive");
        s(1);
        vf_assert(total() == 0, "C06|a slot calls into a dead tracked object");
    }
}
SCN(tracked_int, "C01 C06 C07 C23") { tracked<int>(); }
SCN(tracked_void, "C01 C06 C07 C23") { tracked<void>(); }

// tracked objects: every slot has its own object
template<class R> void tracked_each()
{
    reset();
    {
        sig::signal<R(int)> s;
        std::vector<std::shared_ptr<OrdObj>> keep;
        std::size_t n = 0;
        while (vf_more()) { keep.push_back(std::make_shared<OrdObj>(n)); s.connect(&OrdObj::goi, keep.back()); ++n; }
        s(1);
        vf_assert(next_id == n, "C01 C06|a slot with a live tracked object is not called");
        vf_assert(live[BG] == (long)n, "C06|tracking copies the object");
        next_id = 0;
        keep.clear();
        vf_assert(live[BG] == 0, "C06|a connection keeps a tracked object alive");
        s(1);
        vf_assert(next_id == 0, "C06|a slot calls into a dead tracked object");
    }
}
SCN(tracked_each_int, "C01 C06 C07 C23|abs=0 more=4") { tracked_each<int>(); }
SCN(tracked_each_void, "C01 C06 C07 C23|abs=0 more=4") { tracked_each<void>(); }
