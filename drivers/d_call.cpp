// Every kind of callable and bound object reaches the right target with the right result (C21).
#include "lib.hpp"
using namespace w;

namespace
{
    long last; const void* self; int how;         // what was called last
    void hit(int h, const void* p, long a) { vf_assert(vf_held() == 0, "C07|a slot runs while the library holds a mutex"); how = h; self = p; last = a; ++calls[BG]; }
    long free1(long a) { hit(1, nullptr, a); return a + 1; }
    long free2(long a) { hit(2, nullptr, a); return a + 2; }
    struct Fun { long k; long operator()(long a) { hit(3, nullptr, a); return a + k++; } };
    struct FunC { long k; long operator()(long a) const { hit(4, nullptr, a); return a + k; } };
    struct Over { long operator()(long a) { hit(5, nullptr, a); return 5; } long operator()(long a) const { hit(6, nullptr, a); return 6; } };
    struct Base
    {
        long pad = 1, val = 40;
        virtual ~Base() = default;
        long plain(long a) { hit(10, this, a); return a + val; }
        long cplain(long a) const { hit(11, this, a); return a + val; }
        virtual long virt(long a) { hit(12, this, a); return a; }
        virtual long cvirt(long a) const { hit(13, this, a); return a; }
        long nx(long a) noexcept { hit(14, this, a); return a + val; }
        long ov(long a) { hit(15, this, a); return a; }
        long ov(long a) const { hit(16, this, a); return a; }
    };
    struct Other { long q = 3; virtual ~Other() = default; virtual long oth(long a) { hit(20, this, a); return a + q; } };
    struct Derived : Other, Base              // Base is not at offset 0
    {
        long virt(long a) override { hit(22, static_cast<Base*>(this), a); return a + 1000; }
        long cvirt(long a) const override { hit(23, static_cast<const Base*>(this), a); return a + 2000; }
        long own(long a) { hit(24, this, a); return a + 3; }
    };
    using S = sig::signal<long(long)>;
    // emit with an arbitrary value; the one slot must have been called on `obj` through function `h` and yield r(a)
    template<class F> void one(S& s, int h, const void* obj, F r)
    {
        long a = vf_sym("arg");
        calls[BG] = 0; how = 0; self = nullptr; last = 0;
        auto res = s(a);
        vf_assert(calls[BG] == 1, "C21 C01|a callable is not called exactly once");
        vf_assert(how == h, "C21|the call reaches the wrong function");
        vf_assert(self == obj, "C21|the call reaches the wrong object");
        vf_assert(last == a, "C21 C14|the call receives a wrong argument");
        vf_assert(res && *res == r(a), "C21 C16|the value returned by the callable is not what the slot yields");
    }
    struct Plus { long k; long operator()(long a) const { return a + k; } };
    Plus plus(long k) { return Plus{ k }; }
}
#define T "C21 C23"
SCN(call_free, T)
{
    { S s; s.connect(free1); one(s, 1, nullptr, plus(1)); }
    { S s; s.connect(&free2); one(s, 2, nullptr, plus(2)); }
    { S s; long (*p)(long) = free1; s.connect(p); p = free2; one(s, 1, nullptr, plus(1)); }
    { S s; long (&p)(long) = free2; s.connect(p); one(s, 2, nullptr, plus(2)); }
    { S s; auto c = s.connect(free1); s.connect(free2); vf_assert(s.disconnect(free1) == 1, "C15|disconnect by function pointer fails"); vf_assert(!c.connected(), "C15 C02|the wrong function is disconnected"); one(s, 2, nullptr, plus(2)); }
}
SCN(call_fun, T)
{
    { S s; Fun f{ 7 }; s.connect(f); one(s, 3, nullptr, plus(7)); one(s, 3, nullptr, plus(8)); vf_assert(f.k == 7, "C21|a callable given by value is not copied"); f.k = 100; one(s, 3, nullptr, plus(9)); }
    { S s; Fun f{ 7 }; s.connect(std::move(f)); one(s, 3, nullptr, plus(7)); one(s, 3, nullptr, plus(8)); }
    { S s; s.connect(Fun{ 7 }); one(s, 3, nullptr, plus(7)); one(s, 3, nullptr, plus(8)); }
    { S s; Fun f{ 7 }; s.connect(std::ref(f)); one(s, 3, nullptr, plus(7)); vf_assert(f.k == 8, "C21|a callable given by reference wrapper is not used in place"); f.k = 50; one(s, 3, nullptr, plus(50)); }
    { S s; const FunC f{ 9 }; s.connect(f); one(s, 4, nullptr, plus(9)); }
    { S s; const FunC f{ 9 }; s.connect(std::cref(f)); one(s, 4, nullptr, plus(9)); }
    { S s; Over o; s.connect(o); calls[BG] = 0; auto r = s(1); vf_assert(r && *r == how && calls[BG] == 1, "C21|the value returned by the callable is not what the slot yields"); }
    { S s; long k = 11; s.connect([&k](long a) { hit(30, nullptr, a); return a + k; }); k = 12; one(s, 30, nullptr, plus(12)); }
    { S s; long k = 11; s.connect([k](long a) mutable { hit(30, nullptr, a); return a + k++; }); k = 99; one(s, 30, nullptr, plus(11)); one(s, 30, nullptr, plus(12)); }
}
SCN(call_obj_ptr, T)
{
    Derived d; Base* bp = static_cast<Base*>(&d); Base b;
    { S s; s.connect(&Base::plain, &b); one(s, 10, &b, plus(40)); b.val = 41; one(s, 10, &b, plus(41)); b.val = 40; }
    { S s; s.connect(&Base::cplain, &b); one(s, 11, &b, plus(40)); }
    { S s; const Base* cb = &b; s.connect(&Base::cplain, cb); one(s, 11, &b, plus(40)); }
    { S s; s.connect(&Base::nx, &b); one(s, 14, &b, plus(40)); }
    { S s; s.connect(&Base::virt, &b); one(s, 12, &b, plus(0)); }
    { S s; s.connect(&Base::virt, &d); one(s, 22, bp, plus(1000)); }
    { S s; s.connect(&Base::virt, bp); one(s, 22, bp, plus(1000)); }
    { S s; s.connect(&Base::cvirt, bp); one(s, 23, bp, plus(2000)); }
    { S s; s.connect(&Base::plain, &d); one(s, 10, bp, plus(40)); }
    { S s; s.connect(&Derived::own, &d); one(s, 24, &d, plus(3)); }
    { S s; s.connect(&Derived::oth, &d); one(s, 20, static_cast<Other*>(&d), plus(3)); }
    { S s; Base* p = &b; s.connect(&Base::plain, p); p = nullptr; one(s, 10, &b, plus(40)); }
    { S s; s.connect(static_cast<long (Base::*)(long)>(&Base::ov), &b); one(s, 15, &b, plus(0)); }
    { S s; s.connect(static_cast<long (Base::*)(long) const>(&Base::ov), &b); one(s, 16, &b, plus(0)); }
}
SCN(call_obj_ref, T)
{
    Derived d; Base* bp = static_cast<Base*>(&d); Base b; const Base cb;
    { S s; s.connect(&Base::plain, std::ref(b)); b.val = 43; one(s, 10, &b, plus(43)); b.val = 40; }
    { S s; s.connect(&Base::virt, std::ref(d)); one(s, 22, bp, plus(1000)); }
    { S s; s.connect(&Base::virt, std::ref(*bp)); one(s, 22, bp, plus(1000)); }
    { S s; s.connect(&Base::cplain, std::cref(cb)); one(s, 11, &cb, plus(40)); }
    { S s; s.connect(&Base::cplain, std::ref(b)); one(s, 11, &b, plus(40)); }
    { S s; s.connect(&Derived::own, std::ref(d)); one(s, 24, &d, plus(3)); }
}
namespace
{
    struct Cnt { Mark m; long k; explicit Cnt(long x) : m(X), k(x) {} long go(long a) { m.use(); hit(40, this, a); return a + k++; } long look(long a) const { m.use(); hit(41, this, a); return a + k; } };
}
SCN(call_obj_value, T)
{
    {
        Cnt c(5);
        S s; s.connect(&Cnt::go, c);
        long a = 1; calls[BG] = 0;
        auto r = s(a); vf_assert(r && *r == 6 && self != &c && how == 40, "C21|an object given by value is not copied");
        const void* p = self;
        r = s(a); vf_assert(r && *r == 7 && self == p && c.k == 5, "C21|an object given by value does not keep its state between emissions");
        c.k = 90; r = s(a); vf_assert(r && *r == 8 && self == p && calls[BG] == 3, "C21|an object given by value is not copied");
        vf_assert(live[X] == 2, "C21 C23|an object given by value is not copied once");
        s.connect(&Cnt::look, Cnt(4)); calls[BG] = 0; r = s(a); vf_assert(r && *r == 5 && calls[BG] == 2, "C21|a const member function is not called on the stored object");
        vf_assert(live[X] == 3, "C21 C23|an object given by value is not copied once");
        Derived d; S s2; s2.connect(&Base::virt, d); calls[BG] = 0; r = s2(a); vf_assert(r && *r == 1001 && how == 22, "C21|an object given by value loses its type");
    }
    vf_assert(live[X] == 0, "C21 C23|an object given by value is not destroyed with its signal");
}
SCN(call_smart, T " C06")
{
    {
        auto d = std::make_shared<Derived>(); Base* bp = d.get(); std::shared_ptr<Base> b = d; std::weak_ptr<Base> wb = d; std::shared_ptr<const Base> cb = d;
        { S s; s.connect(&Base::virt, d); one(s, 22, bp, plus(1000)); }
        { S s; s.connect(&Base::virt, b); one(s, 22, bp, plus(1000)); }
        { S s; s.connect(sig::slot<long(long)>(&Base::virt, wb)); one(s, 22, bp, plus(1000)); }
        { S s; s.connect(&Base::plain, d); one(s, 10, bp, plus(40)); }
        { S s; s.connect(&Base::cplain, cb); one(s, 11, bp, plus(40)); }
        { S s; s.connect(&Derived::own, d); one(s, 24, d.get(), plus(3)); }
        { S s; s.connect(sig::slot<long(long)>(&Derived::own, std::weak_ptr<Derived>(d))); one(s, 24, d.get(), plus(3)); }
        vf_assert(d.use_count() == 3, "C06 C21|a connection or an emission keeps an owner of a tracked object");
    }
}
// pointers to data members
SCN(call_data, T)
{
    {
        sig::signal<long()> s; Base b; b.val = 21; Derived d; static_cast<Base&>(d).val = 5; auto sp = std::make_shared<Base>(); sp->val = 6;
        auto c1 = s.connect(&Base::val, &b); auto r = s(); vf_assert(r && *r == 21, "C21|a pointer to a data member does not yield the member"); b.val = 22; r = s(); vf_assert(r && *r == 22, "C21|a pointer to a data member is not read in place"); c1.disconnect();
        auto c2 = s.connect(&Base::val, std::ref(b)); b.val = 23; r = s(); vf_assert(r && *r == 23, "C21|a pointer to a data member is not read in place"); c2.disconnect();
        auto c3 = s.connect(&Base::val, b); b.val = 24; r = s(); vf_assert(r && *r == 23, "C21|an object given by value is not copied"); c3.disconnect();
        auto c4 = s.connect(&Base::val, &d); r = s(); vf_assert(r && *r == 5, "C21|an inherited data member is not found"); c4.disconnect();
        auto c5 = s.connect(&Base::val, sp); r = s(); vf_assert(r && *r == 6, "C21|a data member of a tracked object is not found"); sp.reset(); r = s(); vf_assert(!r, "C06 C21|a data member of a dead object is read"); c5.disconnect();
    }
}
// conversions of results and arguments
namespace
{
    struct Small { short operator()(unsigned char c) const { hit(50, nullptr, c); return -3; } };
    struct Ret { Mark m; long k; explicit Ret(long x) : m(Y), k(x) {} Ret(const Ret&) = default; };
    struct RetF { Ret operator()(long a) const { return Ret(a + 1); } };
    struct RetM { Ret go(long a) { return Ret(a + 2); } };
    struct VoidF { long operator()(long a) const { hit(51, nullptr, a); return 9; } };
}
SCN(call_conv, T " C16")
{
    { S s; s.connect(Small()); calls[BG] = 0; auto r = s(7); vf_assert(r && *r == -3 && last == 7 && calls[BG] == 1, "C21|a convertible result or argument is converted wrongly"); }
    { sig::signal<void(long)> s; s.connect(VoidF()); calls[BG] = 0; auto r = s(7); vf_assert(!r && last == 7 && calls[BG] == 1, "C16 C21|a signal returning void yields a value"); }
    {
        sig::signal<Ret(long)> s; long a = vf_sym("a"); s.connect(RetF()); auto r = s(a); vf_assert(r && r->k == a + 1, "C21 C16|the value returned by the callable is not what the emission returns");
        auto sp = std::make_shared<RetM>(); RetM m; s.connect(&RetM::go, &m); r = s(a); vf_assert(r && r->k == a + 2, "C21 C16|the value returned by the callable is not what the emission returns"); s.connect(&RetM::go, sp); r = s(a); vf_assert(r && r->k == a + 2, "C21 C16|the value returned by the callable is not what the emission returns");
    }
    vf_assert(live[Y] == 0, "C16 C23|a result is not destroyed");
}
// the slot type itself
SCN(call_slot, T " C20")
{
    Base b; Derived d;
    using Sl = sig::slot<long(long)>;
    { Sl s{ free1 }; auto r = s(4); vf_assert(r && *r == 5, "C21 C20|a slot does not call its callable"); }
    { Sl s{ &Base::virt, &d }; auto r = s(4); vf_assert(r && *r == 1004, "C21 C20|a slot does not call its callable"); }
    { Sl s{ &Base::plain, std::ref(b) }; b.val = 1; auto r = s(4); vf_assert(r && *r == 5 && self == &b, "C21 C20|a slot does not call its callable"); }
    { auto sp = std::make_shared<Derived>(); Sl s{ &Derived::own, sp }; auto r = s(4); vf_assert(r && *r == 7, "C21 C20|a slot does not call its callable"); vf_assert(s.connected(), "C20|a slot with a live object is not connected"); sp.reset(); calls[BG] = 0; r = s(4); vf_assert(!r && calls[BG] == 0 && !s.connected(), "C06 C20|a slot calls into a dead object"); }
}
