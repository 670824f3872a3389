// Many kinds of value types: mk<T>::get(k), k = 0..2, are three different values; pop counts the live instances of the counted ones.
#pragma once
#include "lib.hpp"
#include <string>
#include <vector>
using namespace w;
namespace
{
    long pop;                                            // live instances of the counted types
    // values: mk<T>::get(k), k = 0..2, are three different values
    template<class T, class = void> struct mk { static T get(int k) { return T(k); } static bool eq(const T& a, const T& b) { return a == b; } };
    template<class T> bool is(const T& v, int k) { return mk<T>::eq(v, mk<T>::get(k)); }

    enum E0 { e0, e1, e2 }; enum class E1 : char { a, b, c };
    struct Cls { int m0, m1, m2; int f0() { return 0; } int f1() { return 1; } int f2() { return 2; } };
    int g0() { return 0; } int g1() { return 1; } int g2() { return 2; }
    int cell[3];
    template<> struct mk<E0> { static E0 get(int k) { return E0(k); } static bool eq(E0 a, E0 b) { return a == b; } };
    template<> struct mk<int*> { static int* get(int k) { return k ? &cell[k] : nullptr; } static bool eq(int* a, int* b) { return a == b; } };
    template<> struct mk<int (*)()> { static int (*get(int k))() { return k == 0 ? nullptr : k == 1 ? g1 : g2; } static bool eq(int (*a)(), int (*b)()) { return a == b; } };
    template<> struct mk<int Cls::*> { static int Cls::* get(int k) { return k == 0 ? &Cls::m0 : k == 1 ? &Cls::m1 : nullptr; } static bool eq(int Cls::* a, int Cls::* b) { return a == b; } };
    template<> struct mk<int (Cls::*)()> { static int (Cls::* get(int k))() { return k == 0 ? &Cls::f0 : k == 1 ? &Cls::f1 : nullptr; } static bool eq(int (Cls::* a)(), int (Cls::* b)()) { return a == b; } };

    struct Amp                                           // an overloaded address-of operator
    {
        int k; explicit Amp(int x) : k(x) {}
        Amp* operator&() { vf_fail("C17 C18|the overloaded operator& of a value is used for its address"); return nullptr; }
        const Amp* operator&() const { vf_fail("C17 C18|the overloaded operator& of a value is used for its address"); return nullptr; }
        bool operator==(const Amp& o) const { return k == o.k; }
    };
    struct New                                           // allocation functions of its own: an optional does not allocate
    {
        int k; explicit New(int x) : k(x) { ++pop; } New(const New& o) : k(o.k) { ++pop; } New& operator=(const New& o) { k = o.k; return *this; } ~New() { --pop; }
        static void* operator new(std::size_t) { vf_fail("C17|an optional allocates its value"); return nullptr; }
        static void* operator new(std::size_t, void*) { vf_fail("C17|an optional uses the placement new of its value type"); return nullptr; }
        static void operator delete(void*) { vf_fail("C17|an optional deallocates its value"); }
        bool operator==(const New& o) const { return k == o.k; }
    };
    struct Agg { int a; long b; char c[3]; };
    template<> struct mk<Agg> { static Agg get(int k) { return Agg{ k, 7L - k, { char(k), 2, 3 } }; } static bool eq(const Agg& a, const Agg& b) { return a.a == b.a && a.b == b.b && a.c[0] == b.c[0] && a.c[2] == b.c[2]; } };
    struct Empty {};
    template<> struct mk<Empty> { static Empty get(int) { return Empty(); } static bool eq(Empty, Empty) { return true; } };
    struct Virt { int k; explicit Virt(int x) : k(x) {} Virt(const Virt&) = default; Virt& operator=(const Virt&) = default; virtual ~Virt() {} virtual int f() const { return k; } };
    template<> struct mk<Virt> { static Virt get(int k) { return Virt(k); } static bool eq(const Virt& a, const Virt& b) { const Virt *p = &a, *q = &b; return p->f() == q->f(); } };
    struct Final final { int k; explicit Final(int x) : k(x) {} bool operator==(const Final& o) const { return k == o.k; } };
    struct alignas(64) Over { int k; explicit Over(int x) : k(x) {} bool operator==(const Over& o) const { return k == o.k; } };
    struct Self                                          // knows its own address
    {
        int k; const Self* me;
        explicit Self(int x) : k(x), me(this) { ++pop; } Self(const Self& o) : k(o.k), me(this) { o.ok(); ++pop; }
        Self& operator=(const Self& o) { ok(); o.ok(); k = o.k; return *this; } ~Self() { ok(); me = nullptr; --pop; }
        void ok() const { vf_assert(me == this, "C17 C18 C23|a value is moved bytewise, or used when it is not alive"); }
        bool operator==(const Self& o) const { ok(); o.ok(); return k == o.k; }
    };
    struct Bytes { unsigned char b[300]; };              // large
    template<> struct mk<Bytes> { static Bytes get(int k) { Bytes r; r.b[0] = r.b[299] = (unsigned char)k; r.b[8] = r.b[64] = r.b[128] = r.b[255] = r.b[256] = (unsigned char)(k + 7); return r; }
        static bool eq(const Bytes& a, const Bytes& b) { return a.b[0] == b.b[0] && a.b[299] == b.b[299] && a.b[8] == b.b[8] && a.b[64] == b.b[64] && a.b[128] == b.b[128] && a.b[255] == b.b[255] && a.b[256] == b.b[256]; } };
    template<> struct mk<std::string> { static std::string get(int k) { return k == 0 ? std::string() : k == 1 ? std::string("short") : std::string("a string that is too long to be stored in place"); } static bool eq(const std::string& a, const std::string& b) { return a == b; } };
    template<> struct mk<std::vector<int>> { static std::vector<int> get(int k) { std::vector<int> v; for (int i = 0; i < k; ++i) v.push_back(i + 5); return v; } static bool eq(const std::vector<int>& a, const std::vector<int>& b) { return a == b; } };
    std::shared_ptr<int> pool[3];
    template<> struct mk<std::shared_ptr<int>> { static std::shared_ptr<int> get(int k) { return pool[k]; } static bool eq(const std::shared_ptr<int>& a, const std::shared_ptr<int>& b) { return a == b; } };
    template<> struct mk<std::pair<int, Self>> { static std::pair<int, Self> get(int k) { return std::pair<int, Self>(k, Self(2 - k)); } static bool eq(const std::pair<int, Self>& a, const std::pair<int, Self>& b) { return a == b; } };
    template<> struct mk<opt::optional<int>> { static opt::optional<int> get(int k) { opt::optional<int> r; if (k) r = k; return r; } static bool eq(const opt::optional<int>& a, const opt::optional<int>& b) { return a == b; } };
    template<> struct mk<opt::optional<Self>> { static opt::optional<Self> get(int k) { opt::optional<Self> r; if (k) r.emplace(k); return r; } static bool eq(const opt::optional<Self>& a, const opt::optional<Self>& b) { return a == b; } };
    struct Throwy                                        // a copy may fail, a move may not
    {
        int k; explicit Throwy(int x) : k(x) { ++pop; } Throwy(const Throwy& o) noexcept(false) : k(o.k) { ++pop; } Throwy(Throwy&& o) noexcept : k(o.k) { o.k = -1; ++pop; }
        Throwy& operator=(const Throwy& o) noexcept(false) { k = o.k; return *this; } Throwy& operator=(Throwy&& o) noexcept { if (this != &o) { k = o.k; o.k = -1; } return *this; } ~Throwy() { --pop; }
        bool operator==(const Throwy& o) const { return k == o.k; }
    };
    struct Conv { int k; Conv(int x) : k(x) {} operator bool() const { return k == 1; } bool operator==(const Conv& o) const { return k == o.k; } };   // convertible to and from
    struct Init { int k; Init(std::initializer_list<int> l) : k(l.size() == 1 ? *l.begin() : 100) {} explicit Init(int x) : k(x) {} Init(const Init&) = default; Init& operator=(const Init&) = default; bool operator==(const Init& o) const { return k == o.k; } };
    struct NoAsg { const int k; explicit NoAsg(int x) : k(x) { ++pop; } NoAsg(const NoAsg& o) : k(o.k) { ++pop; } ~NoAsg() { --pop; } bool operator==(const NoAsg& o) const { return k == o.k; } };  // no assignment
    // sizes, with deep copies and stealing moves
    template<int N> struct Pad { char pad[N] = {}; };
    template<> struct Pad<0> {};
    template<int N, bool Nx = true> struct Deep : Pad<N>
    {
        int* p; explicit Deep(int x) : p(new int(x)) { ++pop; } Deep(const Deep& o) : Pad<N>(o), p(o.p ? new int(*o.p) : nullptr) { ++pop; } Deep(Deep&& o) noexcept(Nx) : Pad<N>(o), p(o.p) { o.p = nullptr; ++pop; }
        Deep& operator=(const Deep& o) { if (this != &o) { delete p; p = nullptr; p = o.p ? new int(*o.p) : nullptr; } return *this; } Deep& operator=(Deep&& o) noexcept(Nx) { std::swap(p, o.p); return *this; } ~Deep() { delete p; --pop; }
        bool operator==(const Deep& o) const { return p && o.p && *p == *o.p; }
    };
}
