// Combiners and results (C16).
#include "lib.hpp"
using namespace w;

namespace
{
    struct Ord { long id; long operator()(long a) const { vf_assert(vf_held() == 0, "C07|a slot runs while the library holds a mutex"); ++calls[BG]; return a + id; } };
    long expect_id;
    // walks the range and checks every element
    struct Walk
    {
        using result_type = long;
        template<class I> long operator()(I f, I l) const
        {
            vf_assert(vf_held() == 0, "C07 C16|a combiner runs while the library holds a mutex");
            long k = 0;
            for (; f != l; ++f)
            {
                std::size_t before = calls[BG];
                opt::optional<long> r = *f;
                vf_assert(calls[BG] == before + 1, "C16|dereferencing an element does not call its slot exactly once");
                vf_assert(r && *r == 100 + k, "C16|an element of the range does not yield the result of its slot, in order");
                vf_assert(!(f == l), "C16|equal iterators compare unequal");
                ++k;
            }
            vf_assert(f == l, "C16|equal iterators compare unequal");
            return k * 10 + 3;
        }
    };
    struct WalkV
    {
        using result_type = std::size_t;
        template<class I> std::size_t operator()(I f, I l) const { std::size_t k = 0; while (f != l) { vf_assert(calls[BG] == k, "C16|slots are called before they are dereferenced"); *f; ++k; vf_assert(calls[BG] == k, "C16|dereferencing an element does not call its slot exactly once"); f++; } return k; }
    };
}
SCN(comb_walk, "C16 C01")
{
    sig::signal<long(long), Walk> s;
    long n = 0;
    while (vf_more()) { s.connect(Ord{ n }); ++n; }
    calls[BG] = 0;
    long r = s(100);
    vf_assert(r == n * 10 + 3, "C16|what the combiner returns is not what the emission returns, or the range has the wrong length");
    vf_assert(calls[BG] == (std::size_t)n, "C16 C01|the emission calls slots the combiner did not dereference");
}
SCN(comb_void, "C16 C01")
{
    sig::signal<void(int), WalkV> s;
    std::size_t n = 0;
    while (vf_more()) { s.connect(Fn<void, int>(BG)); ++n; }
    reset();
    std::size_t r = s(1);
    vf_assert(r == n, "C16|the range has the wrong length");
}
// the default combiner: value of the last slot that yields one
SCN(comb_last, "C16")
{
    sig::signal<long(long)> s;
    long n = 0;
    while (vf_more()) { s.connect(Ord{ n }); ++n; }
    long a = vf_sym("a");
    auto r = s(a);
    vf_assert(bool(r) == (n > 0), "C16|the default combiner does not return a value exactly when there is one");
    if (n > 0) vf_assert(*r == a + n - 1, "C16|the default combiner does not return the result of the last slot");
}
// ... with blocked and disconnected slots (removed while the emission is running) at any place
namespace
{
    struct Rm { unsigned k; bool* dead; long operator()(long a) const; };
    sig::connection kill_c; bool doit; unsigned killer;
    long Rm::operator()(long a) const { if (doit && k == killer) { doit = false; kill_c.disconnect(); } ++calls[BG]; return a + k; }
    bool skip[8]; unsigned nslots;
    // records, per element, whether it was engaged
    struct Rec { using result_type = int; template<class I> int operator()(I f, I l) const { unsigned k = 0; for (; f != l; ++f, ++k) { auto r = *f; vf_assert(bool(r) == !skip[k], "C16|an element is not disengaged exactly when its slot is blocked or disconnected"); if (r) vf_assert(*r == 50 + (long)k, "C16|an element of the range does not yield the result of its slot, in order"); } vf_assert(k == nslots, "C16|the range does not have one element per slot"); return 7; } };
}
template<class Comb> void blocked_any(bool rec)
{
    sig::signal<long(long), Comb> s;
    sig::connection c[8]; unsigned n = 0;
    while (vf_more()) { c[n] = s.connect(Rm{ n, nullptr }); if (vf_nd(2)) { c[n].block(); skip[n] = true; } ++n; }
    nslots = n;
    unsigned act = vf_nd(2);
    if (act && n) { killer = vf_nd(n); unsigned v = vf_nd(n); vf_assume(!skip[killer]); vf_assume(v > killer); kill_c = c[v]; doit = true; skip[v] = true; }
    int last = -1; std::size_t tot = 0;
    for (unsigned i = 0; i < n; ++i) if (!skip[i]) { last = (int)i; ++tot; }
    calls[BG] = 0;
    auto r = s(50);
    vf_assert(calls[BG] == tot, "C16 C05 C02|an emission calls blocked or disconnected slots");
    if constexpr (std::is_same<Comb, Rec>::value) vf_assert(r == 7, "C16|what the combiner returns is not what the emission returns");
    else { vf_assert(bool(r) == (last >= 0), "C16|the default combiner does not return a value exactly when a slot yielded one"); if (last >= 0) vf_assert(*r == 50 + last, "C16|the default combiner does not return the result of the last slot that yielded one"); }
    kill_c = sig::connection();
}
SCN(comb_blocked, "C16 C05 C02|abs=0 more=4 fix=0") { blocked_any<sig::optional_last_value<long>>(false); }
SCN(comb_record, "C16 C05 C02|abs=0 more=4 fix=0") { blocked_any<Rec>(true); }
// partial use of the range: only what is dereferenced is called; post-increment and copies work
namespace
{
    struct First { using result_type = opt::optional<long>; template<class I> result_type operator()(I f, I l) const { result_type r; if (f != l) { I g = f++; r = *g; } return r; } };
    struct Ref3 { Mark m; long k; explicit Ref3(long x) : m(Y), k(x) {} };
    struct RefF { long id; Ref3 operator()(long a) const { return Ref3(a + id); } };
}
SCN(comb_first, "C16 C01")
{
    sig::signal<long(long), First> s;
    long n = 0;
    while (vf_more()) { s.connect(Ord{ n }); ++n; }
    calls[BG] = 0;
    auto r = s(5);
    vf_assert(calls[BG] == (n ? 1u : 0u), "C16|slots are called that the combiner did not dereference");
    vf_assert(bool(r) == (n > 0) && (!r || *r == 5), "C16|what the combiner returns is not what the emission returns");
}
// results of class type are neither leaked nor mixed up
SCN(comb_class, "C16 C23")
{
    {
        sig::signal<Ref3(long)> s;
        long n = 0;
        while (vf_more()) { s.connect(RefF{ n }); ++n; }
        auto r = s(5);
        vf_assert(bool(r) == (n > 0), "C16|the default combiner does not return a value exactly when there is one");
        if (r) vf_assert(r->k == 4 + n, "C16|the default combiner does not return the result of the last slot");
        vf_assert(live[Y] == (n > 0 ? 1 : 0), "C16 C23|an emission leaks results");
    }
    vf_assert(live[Y] == 0, "C16 C23|an emission leaks results");
}
// void signals yield a disengaged optional
SCN(comb_voidopt, "C16")
{
    sig::signal<void(int)> s; while (vf_more()) s.connect(Fn<void, int>(BG));
    auto r = s(1);
    vf_assert(!r && !r.has_value(), "C16|a signal returning void yields a value");
}
// the range is made of iterators: equality is position, copies are independent, increments return what they should, every dereference is a call
namespace
{
    struct It { using result_type = bool; template<class I> bool operator()(const I f, const I l) const
    {
        unsigned n = 0; { I i(f); while (!(i == l)) { vf_assert(i != l && !(l == i) && l != i, "C16|the iterators of the range do not compare by position"); ++i; ++n; } vf_assert(!(i != l) && l == i && !(l != i), "C16|the iterators of the range do not compare by position"); }
        vf_assert(n == nslots, "C16|the range does not have one element per slot");
        unsigned a = vf_nd(nslots + 1), b = vf_nd(nslots + 1); I i(f), j(f);
        for (unsigned k = 0; k < a; ++k) { if (k & 1) { I& r = ++i; vf_assert(&r == &i, "C16|an increment does not return the iterator"); } else { I o(i); I r = i++; vf_assert(r == o && r != i, "C16|a post-increment does not return the old position"); } }
        for (unsigned k = 0; k < b; ++k) ++j;
        vf_assert((i == j) == (a == b) && (i != j) == (a != b) && (f == i) == (a == 0) && (l == i) == (a == n), "C16|the iterators of the range do not compare by position");
        for (auto& c : calls) c = 0;
        I m(i), t(std::move(m));
        if (a < n) { *i; *t; vf_assert(calls[a] == 2, "C16|dereferencing an iterator does not call its slot"); if (b < n) { *j; vf_assert(calls[b] == (a == b ? 3u : 1u), "C16|dereferencing an iterator does not call its slot"); } }
        unsigned tot = 0; for (auto c : calls) tot += c; vf_assert(tot == (a < n ? 2u + (b < n) : 0u), "C16|slots are called that the combiner did not dereference");
        return true;
    } };
    template<class R> struct ItF { unsigned k; R operator()(int) const { ++calls[k]; return R(); } };
    template<class R> void iters() { sig::signal<R(int), It> s; nslots = vf_nd(4); for (unsigned k = 0; k < nslots; ++k) s.connect(ItF<R>{ k }); bool r = s(1); vf_assert(r, "C16|what the combiner returns is not what the emission returns"); }
}
SCN(comb_iter, "C16 C01|abs=0") { iters<int>(); }
SCN(comb_iter_void, "C16 C01|abs=0") { iters<void>(); }
