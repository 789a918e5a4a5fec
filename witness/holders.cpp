#include "common.h"
#include "containers/tuple.h"
#include "containers/pair.h"
#include "containers/array.h"
#include "templates/array.h"
#include "templates/name.h"
#include "templates/type_info.h"
extern "C" void k_obs(uint64 tag, uint64 has, const Opq * p);
extern "C" void k_val(uint64 tag, uint64 v);
extern "C" void k_same(uint64 tag, const void * a, const void * b);
#define SCN(name) extern "C" void s_##name
struct By { int32 operator()(const Opq & a, const Opq & b) const { return a < b ? -1 : a > b; } };
struct W : Opq { using Opq::Opq; W() = default; W(const W &) = default; W(W &&) = default; W(const Opq & o) : Opq{o} {} W(Opq && o) : Opq{move(o)} {} W & operator=(const W &) = default; W & operator=(W &&) = default; };
using T3 = Tuple<Opq, uint64, W>;
using T1 = Tuple<Opq>;
using P = Pair<Opq, W, By>;
using S = StaticArray<Opq, 2>;
static inline void see(const T3 & t) { k_obs(1, 0, &t.get<0>()); k_val(2, t.get<1>()); k_obs(3, 0, &t.get<2>()); }
static inline void see(const P & p) { k_obs(1, 0, &p.first); k_obs(2, 0, &p.second); }
static inline void see(const S & s) { k_obs(1, 0, &s[0]); k_obs(2, 0, &s[1]); }
/// tuples
SCN(t_ctor)(const Opq & e, uint64 x, const Opq & f) { T3 t{e, x, W{f}}; see(t); }
SCN(t_ctorMove)(Opq & e, uint64 x, Opq & f) { T3 t{move(e), x, move(f)}; see(t); }
SCN(t_ctorMixed)(Opq & e, uint64 x, const Opq & f) { T3 t{move(e), x, f}; see(t); }
SCN(t_access)(const Opq & e, uint64 x, const Opq & f) { T3 t{e, x, f}; const T3 & c = t; k_same(1, &t.get<0>(), &c.get<0>()); k_same(2, &t.get<1>(), &c.get<1>()); k_same(3, &t.get<2>(), &c.get<2>()); k_same(4, &t.get<Opq>(), &t.get<0>()); k_same(5, &t.get<uint64>(), &t.get<1>()); k_same(6, &t.get<W>(), &t.get<2>()); k_same(7, &c.get<Opq>(), &t.get<0>()); k_same(8, &c.get<uint64>(), &t.get<1>()); k_same(9, &c.get<W>(), &t.get<2>()); k_val(10, t.getCount()); k_val(11, t.getLength()); k_val(12, t.getSize()); }
SCN(t_firstOfType)(uint64 x, uint64 y, const Opq & e, uint64 z) { Tuple<uint64, Opq, uint64, uint64> t{x, e, y, z}; k_val(1, t.get<uint64>()); k_val(2, t.get<0>()); k_obs(3, 0, &t.get<1>()); k_val(4, t.get<2>()); k_val(5, t.get<3>()); k_val(6, t.getCount()); const auto & c = t; k_val(7, c.get<uint64>()); k_val(8, c.get<3>()); }
SCN(t_write)(const Opq & e, uint64 x, const Opq & f, uint64 y, const Opq & g) { T3 t{e, x, f}; t.get<1>() = y; see(t); t.get<0>() = g; see(t); t.get<W>() = W{e}; see(t); }
SCN(t_copy)(const Opq & e, uint64 x, const Opq & f) { const T3 t{e, x, f}; T3 u{t}; see(u); see(t); k_same(9, &t.get<0>(), &u.get<0>()); k_same(9, &t.get<2>(), &u.get<2>()); }
SCN(t_copyNC)(const Opq & e, uint64 x, const Opq & f) { T3 t{e, x, f}; T3 u{t}; see(u); see(t); k_same(9, &t.get<0>(), &u.get<0>()); }
SCN(t_move)(const Opq & e, uint64 x, const Opq & f) { T3 t{e, x, f}; T3 u{move(t)}; see(u); }
SCN(t_assign)(const Opq & e, uint64 x, const Opq & f, const Opq & g) { T3 t{e, x, f}; T3 u{g, 7ull, g}; const T3 & c = t; u = c; see(u); see(t); }
SCN(t_assignNC)(const Opq & e, uint64 x, const Opq & f, const Opq & g) { T3 t{e, x, f}; T3 u{g, 7ull, g}; u = t; see(u); see(t); }
SCN(t_assignMove)(const Opq & e, uint64 x, const Opq & f, const Opq & g) { T3 t{e, x, f}; T3 u{g, 7ull, g}; u = move(t); see(u); }
SCN(t_swap)(const Opq & e, uint64 x, const Opq & f, uint64 y) { T3 t{e, x, f}, u{f, y, e}; swap(t, u); see(t); see(u); }
SCN(t_default)() { Tuple<Opq, W> t; k_obs(1, 0, &t.get<0>()); k_obs(2, 0, &t.get<1>()); }
SCN(t_one)(const Opq & e, const Opq & f) { T1 t{e}; T1 u{t}; const T1 c{f}; T1 v{c}; k_obs(1, 0, &u.get<0>()); k_obs(2, 0, &v.get<0>()); k_obs(3, 0, &t.get<Opq>()); T1 w{move(u)}; k_obs(4, 0, &w.get<0>()); w = c; k_obs(5, 0, &w.get<0>()); w = move(t); k_obs(6, 0, &w.get<0>()); k_val(7, w.getCount()); }
SCN(t_nested)(const Opq & e, uint64 x, const Opq & f) { Tuple<T1, uint64, Tuple<uint64, Opq>> t{T1{e}, x, Tuple<uint64, Opq>{5ull, f}}; auto u = t; k_obs(1, 0, &u.get<0>().get<0>()); k_val(2, u.get<1>()); k_val(3, u.get<2>().get<0>()); k_obs(4, 0, &u.get<2>().get<1>()); }
SCN(t_ctorLvalue)(Opq & e, uint64 x, Opq & f) { T3 t{e, x, f}; see(t); }
SCN(t_ctorConst)(const Opq & e, uint64 x, const Opq & f) { T3 t{(const Opq &&)e, x, (const Opq &)f}; see(t); }
/// pairs
SCN(p_ctorLvalue)(Opq & e, Opq & f) { P p{e, f}; see(p); }
SCN(p_ctor)(const Opq & e, const Opq & f) { P p{e, f}; see(p); }
SCN(p_ctorMove)(Opq & e, Opq & f) { P p{move(e), move(f)}; see(p); }
SCN(p_ctorMixed)(const Opq & e, Opq & f) { P p{e, move(f)}; see(p); }
SCN(p_access)(const Opq & e, const Opq & f) { P p{e, f}; const P & c = p; k_same(1, &p.getKey(), &p.first); k_same(2, &p.getVal(), &p.second); k_same(3, &c.getKey(), &p.first); k_same(4, &c.getVal(), &p.second); }
SCN(p_copy)(const Opq & e, const Opq & f) { P p{e, f}; P q{p}; const P & c = p; P r{c}; see(q); see(r); see(p); }
SCN(p_move)(const Opq & e, const Opq & f) { P p{e, f}; P q{move(p)}; see(q); }
SCN(p_assign)(const Opq & e, const Opq & f, const Opq & g) { P p{e, f}, q{g, g}; q = p; see(q); see(p); q.getVal() = W{g}; see(q); }
SCN(p_assignMove)(const Opq & e, const Opq & f, const Opq & g) { P p{e, f}, q{g, g}; q = move(p); see(q); }
SCN(p_swap)(const Opq & e, const Opq & f, const Opq & g, const Opq & h) { P p{e, f}, q{g, h}; swap(p, q); see(p); see(q); }
/// static arrays
SCN(a_items)(const Opq & e, const Opq & f) { S s{e, f}; see(s); k_val(3, s.getCount()); }
SCN(a_itemsMove)(Opq & e, Opq & f) { S s{move(e), move(f)}; see(s); }
SCN(a_default)() { S s; see(s); k_val(3, s.getCount()); }
SCN(a_buffer)(const Opq & e, const Opq & f) { const Opq b[2] = {{e}, {f}}; S s{&b[0]}; see(s); k_obs(3, 0, b); k_obs(4, 0, b + 1); k_val(5, s.getCount()); }
SCN(a_make)(const Opq & e, const Opq & f) { const Opq b[2] = {{e}, {f}}; auto s = makeStaticArray(b); see(s); k_obs(3, 0, b); k_val(5, s.getCount()); }
SCN(a_copy)(const Opq & e, const Opq & f) { S s{e, f}; S t{s}; const S & c = s; S u{c}; see(t); see(u); see(s); k_same(3, &s[0], &t[0]); k_val(4, t.getCount()); }
SCN(a_move)(const Opq & e, const Opq & f) { S s{e, f}; S t{move(s)}; see(t); k_val(4, t.getCount()); }
SCN(a_assign)(const Opq & e, const Opq & f, const Opq & g) { S s{e, f}, t{g, g}; t = s; see(t); see(s); k_val(4, t.getCount()); }
SCN(a_assignMove)(const Opq & e, const Opq & f, const Opq & g) { S s{e, f}, t{g, g}; t = move(s); see(t); k_val(4, t.getCount()); }
SCN(a_swap)(const Opq & e, const Opq & f, const Opq & g, const Opq & h) { S s{e, f}, t{g, h}; swap(s, t); see(s); see(t); }
SCN(a_access)(const Opq & e, const Opq & f, const Opq & g) { S s{e, f}; const S & c = s; k_same(1, &s[0], *s); k_same(2, &s[1], *s + 1); k_same(3, &c[0], *c); k_same(4, &c[1], *s + 1); s[1] = g; see(s); (*s)[0] = f; see(s); }
SCN(a_numbers)(uint64 x, uint64 y, uint64 z) { StaticArray<uint64, 3> s{x, y, z}; StaticArray<uint64, 3> t{s}; t[1] = x; k_val(1, s[0]); k_val(2, s[1]); k_val(3, s[2]); k_val(4, t[0]); k_val(5, t[1]); k_val(6, t[2]); auto u = makeStaticArray({x, y, z}); k_val(7, u[2]); StaticArray<uint64, 3> d; k_val(8, d[0]); k_val(9, d[2]); }
SCN(a_one)(const Opq & e) { StaticArray<Opq, 1> s{e}; StaticArray<Opq, 1> t{s}; StaticArray<Opq, 1> u{move(s)}; k_obs(1, 0, &t[0]); k_obs(2, 0, &u[0]); k_val(3, u.getCount()); }
SCN(a_itemsLvalue)(Opq & e, Opq & f) { S s{e, f}; see(s); k_val(3, s.getCount()); }
SCN(a_itemsMixed)(Opq & e, Opq & f) { S s{e, move(f)}; see(s); k_val(3, s.getCount()); }
/// exchanging
SCN(swapInputs)(Opq & e, Opq & f) { swap(e, f); k_obs(1, 0, &e); k_obs(2, 0, &f); }
SCN(t_swapInputs)(Opq & e, Opq & f) { T1 t{move(e)}, u{move(f)}; swap(t, u); k_obs(1, 0, &t.get<0>()); k_obs(2, 0, &u.get<0>()); }
SCN(swap)(const Opq & e, const Opq & f) { Opq a{e}, b{f}; swap(a, b); k_obs(1, 0, &a); k_obs(2, 0, &b); }
SCN(swapSelf)(uint64 x) { uint64 a = x; swap(a, a); k_val(1, a); }
SCN(swapNumbers)(uint64 x, uint64 y) { uint64 a = x, b = y; swap(a, b); k_val(1, a); k_val(2, b); uint64 * p = &a, * q = &b; swap(p, q); k_same(3, p, &b); k_same(4, q, &a); }
/// names
static constexpr Name nA = "ab", nE = "", nC = "cde";
template<typename N> static inline void seeName(const N & n) { k_val(1, n.getLength()); for (sizet i = 0; i <= n.getLength(); ++i) k_val(2, (*n)[i]); for (sizet i = 0; i < n.getLength(); ++i) k_val(3, n[i] == (*n)[i]); }
SCN(n_literal)() { constexpr Name n = "korin"; seeName(n); Name m = "x"; seeName(m); Name e = ""; seeName(e); }
SCN(n_part)() { static const char b[] = "abcdef"; Name n{b, 6}; seeName(n); }
SCN(n_array)() { static constexpr StaticArray<ansichar, 4> b{'a', 'b', 'c', '\0'}; Name n{b}; seeName(n); }
SCN(n_copy)() { Name n = "abc"; Name m{n}; seeName(m); k_same(4, *n, *m); }
SCN(n_join0)() { seeName(JOIN_NAME()); }
SCN(n_join1)() { seeName(JOIN_NAME(nA)); }
SCN(n_join)() { seeName(JOIN_NAME(nA, nE, nC, nA)); seeName(JOIN_NAME(nC, nA)); }
SCN(n_types)() { seeName(TypeDebugInfo<int8>::debugName); seeName(TypeDebugInfo<uint64>::debugName); seeName(TypeDebugInfo<void>::debugName); seeName(TypeDebugInfo<int32>::debugName); }
