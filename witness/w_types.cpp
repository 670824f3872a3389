#include "signals.hpp"
#include <string>
#include <memory>
#include <functional>
#include <type_traits>
using std::declval;
template<class...> using vt = void;
template<class S, class V, class... F> struct conn_ : std::false_type {};
template<class S, class... F> struct conn_<S, vt<decltype(declval<S&>().connect(declval<F>()...))>, F...> : std::true_type {};
template<class S, class V, class... F> struct scop_ : std::false_type {};
template<class S, class... F> struct scop_<S, vt<decltype(declval<S&>().connect_scoped(declval<F>()...))>, F...> : std::true_type {};
template<class S, class V, class... F> struct disc_ : std::false_type {};
template<class S, class... F> struct disc_<S, vt<decltype(declval<S&>().disconnect(declval<F>()...))>, F...> : std::true_type {};
template<class S, class V, class... F> struct emit_ : std::false_type {};
template<class S, class... F> struct emit_<S, vt<decltype(declval<S&>()(declval<F>()...))>, F...> : std::true_type {};
template<class S, class... F> constexpr bool con = conn_<S, void, F...>::value;
template<class S, class... F> constexpr bool sco = scop_<S, void, F...>::value;
template<class S, class... F> constexpr bool dis = disc_<S, void, F...>::value;
template<class S, class... F> constexpr bool emi = emit_<S, void, F...>::value;
template<class S, class... F> constexpr bool all = con<S, F...> && sco<S, F...> && dis<S, F...>;
template<class S, class... F> constexpr bool none = !con<S, F...> && !sco<S, F...> && !dis<S, F...>;
struct B { int x; void f(int); int g(int) const; std::string h(int); virtual void v(int); void n(); bool operator==(const B&) const; };
struct D : B {};
struct Q { int x; void f(int); };
struct Fi { int operator()(int) const; bool operator==(const Fi&) const; };
struct Fs { std::string operator()(int) const; };
struct F0 { int operator()() const; };
struct F2 { int operator()(int, int) const; };
struct Fv { void operator()(int) const; };
struct Fd { double operator()(double) const; };
struct Fp { int operator()(int*) const; };
struct Fstr { int operator()(std::string) const; };
struct Fmut { int operator()(int); };
struct Flr { int operator()(int&) const; };
struct Fcr { int operator()(const int&) const; };
using SI = sig::signal<int(int)>;
using SV = sig::signal<void(int)>;
using SR = sig::signal<void(int&)>;
using S0 = sig::signal<void()>;

//// C22 accept connect_accepts_functions
static_assert(all<SI, Fi> && all<SI, Fi&> && all<SI, const Fi&>, "");
static_assert(all<SI, int(*)(int)> && all<SI, int(&)(int)>, "");
static_assert(all<SI, Fd> && all<SI, Fcr> && all<SI, std::function<int(int)>>, "");
static_assert(con<SI, Fmut> && con<SI, Fmut&>, "");
static_assert(all<SV, Fi> && all<SV, Fs> && all<SV, Fv>, "");
static_assert(all<S0, F0> && all<S0, void(*)()>, "");
static_assert(con<SR, Flr> && con<SR, Fcr> && con<SR, void(*)(int&)>, "");
int main() {}

//// C22 reject connect_string_result
int main() { SI s; (void)s.connect(Fs()); }

//// C22 reject connect_scoped_string_result
int main() { SI s; (void)s.connect_scoped(Fs()); }

//// C22 reject disconnect_string_result
int main() { SI s; (void)s.disconnect(Fs()); }

//// C22 reject connect_void_result
int main() { SI s; (void)s.connect(Fv()); }

//// C22 reject connect_scoped_void_result
int main() { SI s; (void)s.connect_scoped(Fv()); }

//// C22 reject disconnect_void_result
int main() { SI s; (void)s.disconnect(Fv()); }

//// C22 reject connect_void_function
int main() { SI s; (void)s.connect((void(*)(int))nullptr); }

//// C22 reject connect_scoped_void_function
int main() { SI s; (void)s.connect_scoped((void(*)(int))nullptr); }

//// C22 reject disconnect_void_function
int main() { SI s; (void)s.disconnect((void(*)(int))nullptr); }

//// C22 reject connect_too_few_parameters
int main() { SI s; (void)s.connect(F0()); }

//// C22 reject connect_scoped_too_few_parameters
int main() { SI s; (void)s.connect_scoped(F0()); }

//// C22 reject disconnect_too_few_parameters
int main() { SI s; (void)s.disconnect(F0()); }

//// C22 reject connect_too_many_parameters
int main() { SI s; (void)s.connect(F2()); }

//// C22 reject connect_scoped_too_many_parameters
int main() { SI s; (void)s.connect_scoped(F2()); }

//// C22 reject disconnect_too_many_parameters
int main() { SI s; (void)s.disconnect(F2()); }

//// C22 reject connect_pointer_parameter
int main() { SI s; (void)s.connect(Fp()); }

//// C22 reject connect_scoped_pointer_parameter
int main() { SI s; (void)s.connect_scoped(Fp()); }

//// C22 reject disconnect_pointer_parameter
int main() { SI s; (void)s.disconnect(Fp()); }

//// C22 reject connect_void_too_few
int main() { SV s; (void)s.connect(F0()); }

//// C22 reject connect_scoped_void_too_few
int main() { SV s; (void)s.connect_scoped(F0()); }

//// C22 reject disconnect_void_too_few
int main() { SV s; (void)s.disconnect(F0()); }

//// C22 reject connect_void_too_many
int main() { SV s; (void)s.connect(F2()); }

//// C22 reject connect_scoped_void_too_many
int main() { SV s; (void)s.connect_scoped(F2()); }

//// C22 reject disconnect_void_too_many
int main() { SV s; (void)s.disconnect(F2()); }

//// C22 reject connect_void_pointer
int main() { SV s; (void)s.connect(Fp()); }

//// C22 reject connect_scoped_void_pointer
int main() { SV s; (void)s.connect_scoped(Fp()); }

//// C22 reject disconnect_void_pointer
int main() { SV s; (void)s.disconnect(Fp()); }

//// C22 reject connect_none_expected
int main() { S0 s; (void)s.connect(Fi()); }

//// C22 reject connect_scoped_none_expected
int main() { S0 s; (void)s.connect_scoped(Fi()); }

//// C22 reject disconnect_none_expected
int main() { S0 s; (void)s.disconnect(Fi()); }

//// C22 reject connect_not_callable_int
int main() { SI s; (void)s.connect(int()); }

//// C22 reject connect_scoped_not_callable_int
int main() { SI s; (void)s.connect_scoped(int()); }

//// C22 reject disconnect_not_callable_int
int main() { SI s; (void)s.disconnect(int()); }

//// C22 reject connect_not_callable_class
int main() { SI s; (void)s.connect(B()); }

//// C22 reject connect_scoped_not_callable_class
int main() { SI s; (void)s.connect_scoped(B()); }

//// C22 reject disconnect_not_callable_class
int main() { SI s; (void)s.disconnect(B()); }

//// C22 reject connect_not_callable_string
int main() { SI s; (void)s.connect(std::string()); }

//// C22 reject connect_scoped_not_callable_string
int main() { SI s; (void)s.connect_scoped(std::string()); }

//// C22 reject disconnect_not_callable_string
int main() { SI s; (void)s.disconnect(std::string()); }

//// C22 accept connect_accepts_members
static_assert(all<SV, void (B::*)(int), B*> && all<SV, void (B::*)(int), B> && all<SV, void (B::*)(int), std::reference_wrapper<B>>, "");
static_assert(all<SV, void (B::*)(int), B&>, "");
static_assert(all<SV, void (B::*)(int), D*> && all<SV, void (B::*)(int), D> && all<SV, void (B::*)(int), std::reference_wrapper<D>>, "");
static_assert(all<SI, int (B::*)(int) const, B*> && all<SI, int (B::*)(int) const, const B*> && all<SI, int (B::*)(int) const, std::reference_wrapper<const B>>, "");
static_assert(all<SV, void (B::*)(int), std::shared_ptr<B>> && all<SV, void (B::*)(int), std::shared_ptr<D>> && all<SV, void (B::*)(int), std::shared_ptr<B>&>, "");
static_assert(all<S0, void (B::*)(), B*>, "");
static_assert(all<sig::signal<int()>, int B::*, B*> && all<sig::signal<int()>, int B::*, std::reference_wrapper<B>> && all<sig::signal<int()>, int B::*, D*>, "");
int main() {}

//// C22 accept connect_rejects_members
static_assert(none<SV, void (B::*)(int), Q*> && none<SV, void (B::*)(int), Q> && none<SV, void (B::*)(int), std::shared_ptr<Q>>, "an object of another class");
static_assert(none<SV, void (B::*)(int), const B*>, "a const object and a non-const member function");
static_assert(none<SI, void (B::*)(int), B*> && none<SI, std::string (B::*)(int), B*>, "a result that does not convert");
static_assert(none<S0, void (B::*)(int), B*> && none<SV, void (B::*)(), B*>, "wrong number of arguments");
static_assert(none<sig::signal<std::string()>, int B::*, B*>, "a member of another type");
static_assert(none<SI, Fi, B*>, "a function object and an object");
static_assert(none<SI, int, B*>, "not callable");
int main() {}

//// C22 accept connect_slots
using SL = sig::slot<int(int)>;
static_assert(all<SI, SL> && all<SI, SL&> && all<SI, const SL&>, "");
static_assert(std::is_same<decltype(declval<SI&>().connect(declval<SL>())), sig::connection>::value, "");
static_assert(std::is_same<decltype(declval<SI&>().connect_scoped(declval<SL>())), sig::scoped_connection>::value, "");
static_assert(std::is_same<decltype(declval<SI&>().connect(declval<Fi>())), sig::connection>::value, "");
static_assert(std::is_same<decltype(declval<SI&>().connect_scoped(declval<Fi>())), sig::scoped_connection>::value, "");
static_assert(std::is_same<decltype(declval<SI&>().connect_scoped(declval<int (B::*)(int) const>(), declval<B*>())), sig::scoped_connection>::value, "");
static_assert(std::is_same<decltype(declval<SI&>().disconnect(declval<Fi>())), std::size_t>::value, "");
static_assert(!con<SI, sig::slot<std::string(int)>> && !con<SI, sig::slot<int(std::string)>>, "a slot of another signature");
static_assert(!dis<SI, sig::slot<std::string(int)>>, "");
static_assert(!con<SV, sig::slot<int(int, int)>>, "");
int main() {}

//// C22 accept emission_types
static_assert(emi<SI, int> && emi<const SI, int> && emi<SI, short>, "a signal is called with its arguments, also through const");
static_assert(!emi<SI> && !emi<SI, int, int> && !emi<SI, std::string>, "a signal is called with other arguments");
static_assert(emi<SR, int&> && !emi<SR, int> && !emi<SR, const int&>, "a reference parameter binds a temporary");
static_assert(std::is_same<decltype(declval<SI&>()(1)), opt::optional<int>>::value, "");
static_assert(std::is_same<decltype(declval<SV&>()(1)), opt::optional<void>>::value, "");
static_assert(std::is_same<SI::result_type, opt::optional<int>>::value, "");
struct Sum { using result_type = long; template<class I> long operator()(I, I) const; };
static_assert(std::is_same<decltype(declval<sig::signal<int(int), Sum>&>()(1)), long>::value, "");
int main() {}

//// C22 accept copy_and_move
static_assert(!std::is_copy_constructible<SI>::value && !std::is_copy_assignable<SI>::value, "a signal is copied");
static_assert(std::is_move_constructible<SI>::value && std::is_move_assignable<SI>::value, "a signal is not moved");
static_assert(!std::is_copy_constructible<sig::scoped_connection>::value && !std::is_copy_assignable<sig::scoped_connection>::value, "a scoped connection is copied");
static_assert(std::is_move_constructible<sig::scoped_connection>::value && std::is_move_assignable<sig::scoped_connection>::value, "a scoped connection is not moved");
static_assert(!std::is_assignable<sig::scoped_connection&, const sig::scoped_connection&>::value && !std::is_constructible<sig::scoped_connection, sig::scoped_connection&>::value, "a scoped connection is copied");
static_assert(!std::is_copy_constructible<sig::connection_blocker>::value && !std::is_copy_assignable<sig::connection_blocker>::value, "a blocker is copied");
static_assert(!std::is_constructible<sig::connection_blocker, sig::connection_blocker&>::value, "a blocker is copied");
static_assert(std::is_move_constructible<sig::connection_blocker>::value && std::is_move_assignable<sig::connection_blocker>::value, "a blocker is not moved");
static_assert(std::is_copy_constructible<sig::connection>::value && std::is_copy_assignable<sig::connection>::value && std::is_move_constructible<sig::connection>::value && std::is_move_assignable<sig::connection>::value, "a connection is not copied or moved");
static_assert(std::is_constructible<sig::scoped_connection, sig::connection>::value && std::is_constructible<sig::scoped_connection, const sig::connection&>::value, "a scoped connection is not made from a connection");
static_assert(std::is_copy_constructible<sig::slot<int(int)>>::value && std::is_copy_assignable<sig::slot<int(int)>>::value && std::is_move_constructible<sig::slot<int(int)>>::value && std::is_move_assignable<sig::slot<int(int)>>::value, "a slot is not copied or moved");
static_assert(std::is_default_constructible<SI>::value && std::is_default_constructible<sig::connection>::value && std::is_default_constructible<sig::scoped_connection>::value && std::is_default_constructible<sig::connection_blocker>::value && std::is_default_constructible<sig::slot<int(int)>>::value, "a handle has no empty state");
int main() {}

//// C22 accept optional_types
using O = opt::optional<int>; using R = opt::optional<B&>; using CR = opt::optional<const B&>; using V = opt::optional<void>;
static_assert(std::is_constructible<R, B&>::value && !std::is_constructible<R, B>::value && !std::is_constructible<R, B&&>::value, "an optional reference binds a temporary");
static_assert(!std::is_constructible<R, opt::in_place_t, B>::value && std::is_constructible<R, opt::in_place_t, B&>::value, "an optional reference binds a temporary");
static_assert(!std::is_constructible<R, const B&>::value, "an optional reference drops const");
static_assert(!std::is_assignable<R&, B&>::value && !std::is_assignable<R&, B>::value, "an optional reference is written through by assignment");
static_assert(std::is_assignable<R&, const R&>::value && std::is_assignable<R&, R>::value && std::is_assignable<R&, opt::nullopt_t>::value, "an optional reference is not assigned");
static_assert(!std::is_convertible<O, bool>::value && !std::is_convertible<R, bool>::value && !std::is_convertible<V, bool>::value, "an optional silently converts to bool");
static_assert(std::is_constructible<bool, O>::value && std::is_constructible<bool, const R&>::value && std::is_constructible<bool, V>::value, "an optional does not convert to bool on request");
static_assert(std::is_copy_constructible<O>::value && std::is_move_constructible<O>::value && std::is_copy_assignable<O>::value && std::is_move_assignable<O>::value, "");
static_assert(std::is_same<decltype(*declval<O&>()), int&>::value && std::is_same<decltype(*declval<const O&>()), const int&>::value && std::is_same<decltype(*declval<O>()), int&&>::value, "");
static_assert(std::is_same<decltype(declval<O&>().value()), int&>::value && std::is_same<decltype(declval<const O&>().value()), const int&>::value && std::is_same<decltype(declval<O>().value()), int&&>::value, "");
static_assert(std::is_same<decltype(*declval<const R&>()), B&>::value && std::is_same<decltype(declval<const R&>().value()), B&>::value, "");
int main() {}

//// C22 reject optional_reference_emplace_temporary
int main() { opt::optional<B&> r; r.emplace(B()); }

//// C22 accept optional_const_reference_types
using CR = opt::optional<const B&>; using CI = opt::optional<const int&>;
static_assert(std::is_constructible<CR, B&>::value && std::is_constructible<CR, const B&>::value && std::is_constructible<CI, int&>::value && std::is_constructible<CI, const int&>::value, "an optional const reference does not bind an object");
int main() { B b; const B& c = b; CR r; r.emplace(b); r.emplace(c); r = CR(b); r = opt::nullopt; CR s(opt::in_place, c); }

//// C22 reject optional_const_reference_temporary
int main() { opt::optional<const B&> r{ B() }; }

//// C22 reject optional_const_reference_temporary_int
int main() { opt::optional<const int&> r(5); }

//// C22 reject optional_const_reference_in_place_temporary
int main() { opt::optional<const B&> r(opt::in_place, B()); }

//// C22 reject optional_const_reference_in_place_temporary_int
int main() { opt::optional<const int&> r(opt::in_place, 5); }

//// C22 reject optional_const_reference_emplace_temporary
int main() { opt::optional<const B&> r; r.emplace(B()); }

//// C22 reject optional_const_reference_emplace_temporary_int
int main() { opt::optional<const int&> r; r.emplace(5); }

//// C22 reject optional_const_reference_assign_temporary
int main() { opt::optional<const B&> r; r = B(); }

//// C22 reject optional_const_reference_assign_temporary_int
int main() { opt::optional<const int&> r; r = 5; }

//// C22 reject optional_const_reference_implicit_temporary
void f(opt::optional<const int&>); int main() { f(5); }

//// C22 reject optional_reference_assign_value
int main() { int i = 1; opt::optional<int&> r(i); r = i; }

//// C22 reject optional_rvalue_reference
int main() { opt::optional<int&&> r; }

//// C22 reject make_optional_reference_of_temporary
int main() { opt::optional<std::string&> r = std::string("x"); }

//// C22 accept make_optional_reference
int main() { std::string s; opt::optional<std::string&> r = s; auto q = opt::make_optional(std::ref(s)); }

//// C22 reject connect_wrong_argument
int main() { SI s; s.connect(Fstr()); }

//// C22 accept connect_right_argument
int main() { SI s; s.connect(Fi()); s.connect([](int) { return 1; }); s.connect([](auto x) { return x; }); s.connect([](double) -> char { return 'x'; }); }

//// C22 reject connect_wrong_result
int main() { SI s; s.connect([](int) { return std::string(); }); }

//// C22 reject connect_no_result
int main() { SI s; s.connect([](int) {}); }

//// C22 reject connect_member_of_other_class
int main() { SV s; Q q; s.connect(&B::f, &q); }

//// C22 reject connect_scoped_member_of_other_class
int main() { SV s; Q q; auto c = s.connect_scoped(&B::f, &q); }

//// C22 reject disconnect_wrong_argument
int main() { SI s; s.disconnect(Fstr()); }

//// C22 reject copy_signal
int main() { SI s; SI t(s); }

//// C22 reject copy_assign_signal
int main() { SI s, t; t = s; }

//// C22 reject copy_scoped
int main() { SI s; auto c = s.connect_scoped(Fi()); auto d = c; }

//// C22 reject copy_assign_scoped
int main() { SI s; auto c = s.connect_scoped(Fi()); sig::scoped_connection d; d = c; }

//// C22 accept move_scoped
int main() { SI s; auto c = s.connect_scoped(Fi()); auto d = std::move(c); d = s.connect(Fi()); sig::scoped_connection e(s.connect(Fi())); sig::connection f = e.release(); swap(c, d); }

//// C22 reject copy_blocker
int main() { SI s; auto c = s.connect(Fi()); auto b = c.blocker(); auto d = b; }

//// C22 accept move_blocker
int main() { SI s; auto c = s.connect(Fi()); auto b = c.blocker(); auto d = std::move(b); d = c.blocker(); sig::connection_blocker e; e = std::move(d); swap(d, e); }

//// C22 accept move_signal
int main() { SI s; s.connect(Fi()); SI t(std::move(s)); s = std::move(t); std::swap(s, t); }

//// C22 accept use_members
int main() { SV s; B b; D d; auto p = std::make_shared<B>(); s.connect(&B::f, &b); s.connect(&B::f, b); s.connect(&B::f, std::ref(b)); s.connect(&B::f, p); s.connect(&B::v, &d); s.connect_scoped(&B::f, p); s.disconnect(&B::f, &b); s.disconnect(&B::f, std::ref(b)); sig::signal<int()> g; g.connect(&B::x, &b); const B cb{}; SI i; i.connect(&B::g, &cb); i.connect(&B::g, std::cref(cb)); sig::slot<void(int)> w{ &B::f, std::weak_ptr<B>(p) }; s.connect(w); }
