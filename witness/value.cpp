#include "common.h"
#include "templates/optional.h"
#include "templates/function.h"
#include "templates/functional.h"
using O = Optional<Opq>;
extern "C" void k_obs(uint64 tag, uint64 has, const Opq * p);
extern "C" void k_same(uint64 tag, const void * a, const void * b);
static inline void see(uint64 tag, const O & o) { k_obs(tag, o.hasValue(), o.hasValue() ? &*o : nullptr); }
#define SCN(name) extern "C" void s_##name
/// every operation from both states; the operands are observed while alive and destroyed at the end
SCN(default)() { O a; see(1, a); }
SCN(boolean)(const Opq & e) { O a, b{e}; k_obs(1, (bool)a, nullptr); k_obs(2, (bool)b, &*b); }
SCN(ctorCopy)(const Opq & e) { O a{e}; see(1, a); }
SCN(ctorMove)(Opq & e) { O a{move(e)}; see(1, a); }
SCN(ctorArgs)(const Opq & e) { struct Two { Opq x; uint64 n; }; Optional<Two> a{Two{e, 7}}; k_obs(1, a.hasValue(), &a->x); k_obs(2, a->n, nullptr); }
SCN(copyCtor_e)(const Opq & e) { const O a{e}; O b{a}; see(1, b); see(2, a); k_same(3, &*a, &*b); }
SCN(copyCtor_n)(const Opq & e) { const O a; O b{a}; see(1, b); see(2, a); }
SCN(copyCtorNC_e)(const Opq & e) { O a{e}; O b{a}; see(1, b); see(2, a); k_same(3, &*a, &*b); }
SCN(copyCtorNC_n)(const Opq & e) { O a; O b{a}; see(1, b); see(2, a); }
SCN(moveCtor_e)(const Opq & e) { O a{e}; O b{move(a)}; see(1, b); }
SCN(moveCtor_n)(const Opq & e) { O a; O b{move(a)}; see(1, b); see(2, a); }
SCN(copyAssign_ee)(const Opq & e, const Opq & f) { O a{e}; const O b{f}; a = b; see(1, a); see(2, b); k_same(3, &*a, &*b); }
SCN(copyAssign_ne)(const Opq & e, const Opq & f) { O a; const O b{f}; a = b; see(1, a); see(2, b); k_same(3, &*a, &*b); }
SCN(copyAssign_en)(const Opq & e, const Opq & f) { O a{e}; const O b; a = b; see(1, a); see(2, b); }
SCN(copyAssign_nn)(const Opq & e, const Opq & f) { O a; const O b; a = b; see(1, a); see(2, b); }
SCN(copyAssign_self_e)(const Opq & e) { O a{e}; const O & b = a; a = b; see(1, a); }
SCN(copyAssign_self_n)(const Opq & e) { O a; const O & b = a; a = b; see(1, a); }
SCN(moveAssign_ee)(const Opq & e, const Opq & f) { O a{e}, b{f}; a = move(b); see(1, a); }
SCN(moveAssign_ne)(const Opq & e, const Opq & f) { O a, b{f}; a = move(b); see(1, a); }
SCN(moveAssign_en)(const Opq & e, const Opq & f) { O a{e}, b; a = move(b); see(1, a); see(2, b); }
SCN(moveAssign_nn)(const Opq & e, const Opq & f) { O a, b; a = move(b); see(1, a); see(2, b); }
SCN(assignRet)(const Opq & e, Opq & f) { O a, b{e}; const O & cb = b; k_same(1, &(a = cb), &a); k_same(2, &(a = move(b)), &a); k_same(3, &(a = e), &a); k_same(4, &(a = move(f)), &a); }
SCN(value_e)(const Opq & e, const Opq & f) { O a{e}; a = f; see(1, a); }
SCN(value_n)(const Opq & e, const Opq & f) { O a; a = f; see(1, a); }
SCN(valueMove_e)(const Opq & e, Opq & f) { O a{e}; a = move(f); see(1, a); }
SCN(valueMove_n)(const Opq & e, Opq & f) { O a; a = move(f); see(1, a); }
SCN(value_self)(const Opq & e) { O a{e}; const O & b = a; a = *b; see(1, a); }
SCN(emplace_e)(const Opq & e, const Opq & f) { O a{e}; a.emplace(f); see(1, a); }
SCN(emplace_n)(const Opq & e, const Opq & f) { O a; a.emplace(f); see(1, a); }
SCN(emplaceMove_e)(const Opq & e, Opq & f) { O a{e}; a.emplace(move(f)); see(1, a); }
SCN(emplaceMove_n)(const Opq & e, Opq & f) { O a; a.emplace(move(f)); see(1, a); }
SCN(emplace0_e)(const Opq & e) { O a{e}; a.emplace(); see(1, a); }
SCN(emplace0_n)(const Opq & e) { O a; a.emplace(); see(1, a); }
SCN(reset_e)(const Opq & e) { O a{e}; a.reset(); see(1, a); }
SCN(reset_n)(const Opq & e) { O a; a.reset(); see(1, a); }
SCN(resetTwice)(const Opq & e) { O a{e}; a.reset(); a.reset(); see(1, a); }
SCN(resetRefill)(const Opq & e, const Opq & f) { O a{e}; a.reset(); a = f; see(1, a); a.reset(); a.emplace(e); see(2, a); }
SCN(arrow)(const Opq & e) { O a{e}; const O & b = a; k_same(1, a.operator->(), &*a); k_same(2, b.operator->(), &*b); k_same(3, &*a, &*b); k_same(4, &(Opq&)(const Opq&)*move(a), &*b); }
SCN(rvalue)(const Opq & e) { O a{e}; Opq x{*move(a)}; k_obs(1, 1, &x); }
SCN(crvalue)(const Opq & e) { const O a{e}; Opq x{*static_cast<const O &&>(a)}; k_obs(1, 1, &x); k_obs(2, 1, &*a); }
SCN(moveOnly)() { Optional<uint64> a{5ull}; Optional<uint64> b{a}; b = 7ull; Optional<uint64> c; c = move(b); k_obs(1, *a, nullptr); k_obs(2, *c, nullptr); a.reset(); k_obs(3, a.hasValue(), nullptr); }

/// callable with opaque special members and an opaque call
struct Fn : Opq { using Opq::Opq; Fn() = default; Fn(const Fn &) = default; Fn(Fn &&) = default; uint64 operator()(uint64 a, Opq & r); };
extern "C" uint64 k_call(const Opq * self, uint64 a, Opq * r);
#ifdef WITNESS_MAIN
uint64 Fn::operator()(uint64 a, Opq & r) { return k_call(this, a, &r); }
#endif
extern "C" void k_val(uint64 tag, uint64 v);
extern "C" uint64 k_plain(uint64 a, Opq & r);
struct VFn : Opq { VFn() = default; VFn(const VFn &) = default; void operator()(uint64 a) const { k_call(this, a, nullptr); } };
using F = Function<uint64(uint64, Opq &)>;
SCN(f_default)() { F f; k_val(1, (bool)f); }
SCN(f_rvalue)(Fn & c, uint64 x, Opq & r) { F f{move(c)}; k_val(1, (bool)f); k_val(2, f(x, r)); k_val(3, f(x, r)); }
SCN(f_lvalue)(Fn & c, uint64 x, Opq & r) { F f{c}; k_val(1, (bool)f); k_val(2, f(x, r)); }
SCN(f_clvalue)(const Fn & c, uint64 x, Opq & r) { F f{c}; k_val(1, (bool)f); k_val(2, f(x, r)); }
SCN(f_own)(const Fn & d, uint64 x, Opq & r) { F f; { Fn c{d}; f = F{c}; } k_val(1, f(x, r)); }
SCN(f_convert)(const Fn & c, const Fn & d, uint64 x, Opq & r) { F f{d}; f = c; k_val(1, f(x, r)); }
SCN(f_const)(const Fn & c, uint64 x, Opq & r) { const F f{c}; k_val(1, f(x, r)); }
SCN(f_plain)(uint64 x, Opq & r) { F f{&k_plain}; k_val(1, (bool)f); k_val(2, f(x, r)); F g{f}; k_val(3, g(x, r)); F h{k_plain}; k_val(4, h(x, r)); }
SCN(f_lambda)(uint64 x, uint64 y, Opq & r) { F f{[y](uint64 a, Opq & b) { return a + y; }}; k_val(1, f(x, r)); F g{f}; k_val(2, g(x, r)); }
SCN(f_void)(const VFn & c, uint64 x) { Function<void(uint64)> f{c}; f(x); const Function<void(uint64)> g{f}; g(x); }
SCN(f_ref)(uint64 x) { struct Inc { void operator()(uint64 & a, uint64 b) { a += b; } }; Function<void(uint64 &, uint64)> f{Inc{}}; uint64 v = x; f(v, 3); f(v, 4); k_val(1, v); }
SCN(f_state)(uint64 x) { uint64 n = 0; struct Acc { uint64 s; uint64 operator()(uint64 a) { return s += a; } }; Function<uint64(uint64)> f{Acc{0}}; f(x); Function<uint64(uint64)> g{f}; k_val(1, f(1)); k_val(2, g(2)); k_val(3, f(1)); }
SCN(f_copyCtor_e)(const Fn & c, uint64 x, Opq & r) { const F f{c}; F g{f}; k_val(1, (bool)f); k_val(2, (bool)g); k_val(3, f(x, r)); k_val(4, g(x, r)); }
SCN(f_copyCtor_n)(const Fn & c) { const F f; F g{f}; k_val(1, (bool)f); k_val(2, (bool)g); }
SCN(f_copyCtorNC_e)(const Fn & c, uint64 x, Opq & r) { F f{c}; F g{f}; k_val(1, (bool)f); k_val(2, (bool)g); k_val(3, f(x, r)); k_val(4, g(x, r)); }
SCN(f_copyOutlives)(const Fn & c, uint64 x, Opq & r) { F g; { const F f{c}; g = f; } k_val(1, g(x, r)); }
SCN(f_moveCtor_e)(const Fn & c, uint64 x, Opq & r) { F f{c}; F g{move(f)}; k_val(1, (bool)g); k_val(2, g(x, r)); }
SCN(f_moveCtor_n)(const Fn & c) { F f; F g{move(f)}; k_val(1, (bool)f); k_val(2, (bool)g); }
SCN(f_copyAssign_ee)(const Fn & c, const Fn & d, uint64 x, Opq & r) { F f{c}; const F g{d}; f = g; k_val(1, (bool)f); k_val(2, f(x, r)); k_val(3, g(x, r)); }
SCN(f_copyAssign_ne)(const Fn & c, const Fn & d, uint64 x, Opq & r) { F f; const F g{d}; f = g; k_val(1, (bool)f); k_val(2, f(x, r)); k_val(3, g(x, r)); }
SCN(f_copyAssign_en)(const Fn & c, const Fn & d, uint64 x, Opq & r) { F f{c}; const F g; f = g; k_val(1, (bool)f); k_val(2, (bool)g); }
SCN(f_copyAssign_nn)(const Fn & c) { F f; const F g; f = g; k_val(1, (bool)f); k_val(2, (bool)g); }
SCN(f_copyAssign_self_e)(const Fn & c, uint64 x, Opq & r) { F f{c}; const F & g = f; f = g; k_val(1, (bool)f); k_val(2, f(x, r)); }
SCN(f_copyAssign_self_n)(const Fn & c) { F f; const F & g = f; f = g; k_val(1, (bool)f); }
SCN(f_moveAssign_ee)(const Fn & c, const Fn & d, uint64 x, Opq & r) { F f{c}, g{d}; f = move(g); k_val(1, (bool)f); k_val(2, f(x, r)); }
SCN(f_moveAssign_ne)(const Fn & c, const Fn & d, uint64 x, Opq & r) { F f, g{d}; f = move(g); k_val(1, (bool)f); k_val(2, f(x, r)); }
SCN(f_moveAssign_en)(const Fn & c, const Fn & d) { F f{c}, g; f = move(g); k_val(1, (bool)f); }
SCN(f_moveAssign_nn)(const Fn & c) { F f, g; f = move(g); k_val(1, (bool)f); }
SCN(f_assignRet)(const Fn & c) { F f, g{c}; const F & cg = g; k_same(1, &(f = cg), &f); k_same(2, &(f = move(g)), &f); }
SCN(f_array)(const Fn & c, uint64 x, Opq & r) { F a[2]; a[0] = F{c}; a[1] = a[0]; a[0] = F{}; k_val(1, (bool)a[0]); k_val(2, a[1](x, r)); }
SCN(f_byvalue)(const Opq & e, const Opq & d) { struct Take { void operator()(Opq o) { k_obs(1, 1, &o); } }; Function<void(Opq)> f{Take{}}; f(e); f(Opq{d}); k_obs(2, 1, &e); }
SCN(invoke)(Fn & c, uint64 x, Opq & r) { k_val(1, invoke(c, x, r)); k_val(2, invoke(k_plain, x, r)); }
