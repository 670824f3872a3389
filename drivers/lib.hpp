// Common client-side machinery of the drivers: instrumented callables and ghost counters.
#pragma once
#include "signals.hpp"
#include "vf.hpp"
#include "rt.hpp"
#include <memory>
#include <functional>
#include <utility>

namespace w
{
    enum Tag : unsigned { BG = 0, X = 1, Y = 2, Z = 3, N = 4, NTAGS = 5 };

    inline std::size_t calls[NTAGS];        // calls per tag in the emission under observation
    inline long live[NTAGS];                // live instances per tag
    inline unsigned actor = 99;             // the tag whose call performs the action
    inline void (*action)() = nullptr;      // what it does
    inline std::size_t next_id;             // expected id of the next ordered call
    inline void reset() { for (auto& c : calls) c = 0; next_id = 0; }
    inline std::size_t total() { return calls[0] + calls[1] + calls[2] + calls[3] + calls[4]; }

    inline void fire(unsigned tag)
    {
        vf_assert(vf_held() == 0, "C07|a slot runs while the library holds a mutex");
        ++calls[tag];
        if (tag == actor && action)
        {
            auto a = action;
            actor = 99;                     // once
            a();
        }
    }

    // A value carrying a liveness mark; every copy, destruction and use is checked.
    struct Mark
    {
        unsigned tag; unsigned magic = 0x600d;
        explicit Mark(unsigned t) : tag(t) { ++live[t]; }
        Mark(const Mark& o) : tag(o.tag)
        {
            o.use();
            vf_assert(vf_held() == 0, "C07|a callable is copied while the library holds a mutex");
            ++live[tag];
        }
        Mark& operator=(const Mark& o) { o.use(); use(); --live[tag]; tag = o.tag; ++live[tag]; return *this; }
        ~Mark()
        {
            vf_assert(magic == 0x600d, "C23 C12 C17 C20|a stored object is destroyed twice, or was never constructed");
            vf_assert(vf_held() == 0, "C07|a callable is destroyed while the library holds a mutex");
            magic = 0xdead;
            --live[tag];
        }
        void use() const { vf_assert(magic == 0x600d, "C23 C12 C17 C20 C06|a destroyed object is used"); }
    };

    template<class R> struct ret { static R get(unsigned t) { return R(t); } };
    template<> struct ret<void> { static void get(unsigned) {} };

    // Function object with identity; equal when the tags are equal.
    template<class R, class... A>
    struct Fn
    {
        Mark m;
        explicit Fn(unsigned t) : m(t) {}
        R operator()(A...) const { m.use(); fire(m.tag); m.use(); return ret<R>::get(m.tag); }
        bool operator==(const Fn& o) const { m.use(); o.m.use(); return m.tag == o.m.tag; }
    };

    // Object with member functions.
    struct Obj
    {
        Mark m;
        explicit Obj(unsigned t) : m(t) {}
        void v() { m.use(); fire(m.tag); m.use(); }
        void vc() const { m.use(); fire(m.tag); m.use(); }
        int i(int a) { m.use(); fire(m.tag); m.use(); return a; }
        bool operator==(const Obj& o) const { m.use(); o.m.use(); return m.tag == o.m.tag; }
    };
}
