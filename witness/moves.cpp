#include "common.h"
#include "containers/list.h"
#include "containers/array.h"
#include "containers/tree.h"
#include "containers/set.h"
#include "containers/map.h"
#include "containers/tuple.h"
#include "templates/optional.h"
#include "templates/function.h"
#include "algorithm/sort.h"
extern "C" void k_obs(uint64 tag, uint64 has, const Opq * p);
extern "C" void k_val(uint64 tag, uint64 v);
extern "C" void k_same(uint64 tag, const void * a, const void * b);
#define SCN(name) extern "C" void s_##name
/// orders are fixed, so that no comparison of unknown values is needed
struct Up { int32 operator()(const Opq &, const Opq &) const { return 1; } };
struct Down { int32 operator()(const Opq &, const Opq &) const { return -1; } };
struct Same { int32 operator()(const Opq &, const Opq &) const { return 0; } };
#ifdef WITNESS_MAIN
OpqMalloc::~OpqMalloc() {}
#endif
template<typename C> static inline void num(const C & c) { uint64 n = 0; for (const auto & e : c) { (void)e; ++n; } k_val(9, n); }
template<typename C> static inline void see(const C & c) { uint64 n = 0; for (const auto & e : c) { k_obs(n++, 0, &e); } k_val(9, n); }
#define M OpqMalloc m
#if !defined(PART) || PART == 1
/// lists
using L = List<Opq, void>;
SCN(l_back)(Opq & e) { M; L l{&m}; l.pushBack(move(e)); see(l); }
SCN(l_front)(Opq & e) { M; L l{&m}; l.pushFront(move(e)); see(l); }
SCN(l_back2)(Opq & e, Opq & f) { M; L l{&m}; l.pushBack(move(e), move(f)); see(l); }
SCN(l_front2)(Opq & e, Opq & f) { M; L l{&m}; l.pushFront(move(e), move(f)); see(l); }
SCN(l_mixed)(const Opq & e, Opq & f, const Opq & g) { M; L l{&m}; l.pushBack(e, move(f), g); see(l); }
SCN(l_mixedFront)(const Opq & e, Opq & f, const Opq & g) { M; L l{&m}; l.pushFront(g, move(f), e); see(l); }
SCN(l_moveCtor)(Opq & e, Opq & f) { M; L l{&m}; l.pushBack(move(e)); l.pushBack(move(f)); L k{move(l)}; see(k); }
SCN(l_moveAssign)(Opq & e, Opq & f) { M; L l{&m}; l.pushBack(move(e)); L k{&m}; k.pushBack(move(f)); k = move(l); see(k); }
SCN(l_popBack)(Opq & e, Opq & o) { M; L l{&m}; l.pushBack(move(e)); l.popBack(o); see(l); }
SCN(l_popFront)(Opq & e, Opq & o) { M; L l{&m}; l.pushBack(move(e)); l.popFront(o); see(l); }
#endif
#if !defined(PART) || PART == 2
/// arrays
using A = Array<Opq, void>;
SCN(a_last)(Opq & e) { M; A a{&m}; a.insertLast(move(e)); see(a); }
SCN(a_first)(Opq & e) { M; A a{&m}; a.insertFirst(move(e)); see(a); }
SCN(a_at)(Opq & e, Opq & f) { M; A a{&m}, b{&m}; a.insertAt(0, move(e)); see(a); b.insertAt(0, move(f)); see(b); }
SCN(a_last2)(Opq & e, Opq & f) { M; A a{&m}; a.insertLast(move(e), move(f)); see(a); }
SCN(a_first2)(Opq & e, Opq & f) { M; A a{&m}; a.insertFirst(move(e), move(f)); see(a); }
SCN(a_at2)(Opq & e, Opq & f) { M; A a{&m}; a.insertAt(0, move(e), move(f)); see(a); }
SCN(a_at3)(Opq & e, Opq & f, Opq & g) { M; A a{&m}; a.insertAt(0, move(e), move(f), move(g)); see(a); }
SCN(a_mixed)(const Opq & e, Opq & f, const Opq & g) { M; A a{&m}; a.insertLast(e, move(f), g); see(a); }
SCN(a_mixedFirst)(const Opq & e, Opq & f, const Opq & g) { M; A a{&m}; a.insertFirst(e, move(f), g); see(a); }
SCN(a_mixedAt)(Opq & e, const Opq & f, Opq & g) { M; A a{&m}; a.insertAt(0, move(e), f, move(g)); see(a); }
SCN(a_push)(Opq & e, Opq & f) { M; A a{&m}, b{&m}; a.push(move(e)); see(a); b.add(move(f)); see(b); }
SCN(a_call)(Opq & e) { M; A a{&m}; a(0, move(e)); see(a); }
SCN(a_moveCtor)(Opq & e, Opq & f) { M; A a{&m}; a.insertLast(move(e), move(f)); A b{move(a)}; see(b); }
SCN(a_moveAssign)(Opq & e, Opq & f) { M; A a{&m}; a.insertLast(move(e)); A b{&m}; b.insertLast(move(f)); b = move(a); see(b); }
SCN(a_shift)(Opq & e, Opq & f, Opq & g) { M; A a{&m}; a.insertLast(move(e), move(f)); a.removeAt(0); a.insertFirst(move(g)); see(a); }
SCN(a_removeAt)(Opq & e, Opq & f) { M; A a{&m}; a.insertLast(move(e), move(f)); a.removeAt(0); see(a); }
SCN(a_popFirst)(Opq & e, Opq & f, Opq & o) { M; A a{&m}; a.insertLast(move(e), move(f)); a.popFirst(o); see(a); }
SCN(a_popLast)(Opq & e, Opq & f, Opq & o) { M; A a{&m}; a.insertLast(move(e), move(f)); a.popLast(o); see(a); }
#endif
#if !defined(PART) || PART == 3
/// trees
template<typename C> using T = BinaryTree<Opq, C, void>;
SCN(t_insert)(Opq & e) { M; T<Up> t{&m}; k_obs(1, 0, &t.insert(move(e))); }
SCN(t_insertTwice)(Opq & e, Opq & f) { M; T<Up> t{&m}; t.insert(move(e)); t.insert(move(f)); num(t); }
SCN(t_insertEqual)(Opq & e, Opq & f) { M; T<Same> t{&m}; t.insert(move(e)); t.insert(move(f)); num(t); }
SCN(t_insert2)(Opq & e, Opq & f) { M; T<Up> t{&m}; t.insert(move(e), move(f)); num(t); }
SCN(t_insertMixed)(Opq & e, const Opq & f) { M; T<Up> t{&m}; t.insert(move(e), f); num(t); }
SCN(t_unique)(Opq & e) { M; T<Up> t{&m}; t.insertUnique(move(e)); num(t); }
SCN(t_uniqueTwice)(Opq & e, Opq & f) { M; T<Up> t{&m}; t.insertUnique(move(e)); t.insertUnique(move(f)); num(t); }
SCN(t_unique2)(Opq & e, Opq & f) { M; T<Up> t{&m}; t.insertUnique(move(e), move(f)); num(t); }
SCN(t_replace)(Opq & e) { M; T<Up> t{&m}; t.replace(move(e)); num(t); }
SCN(t_replaceOld)(Opq & e, Opq & f) { M; T<Same> t{&m}; t.replace(move(e)); t.replace(move(f)); num(t); }
SCN(t_replaceNew)(Opq & e, Opq & f) { M; T<Up> t{&m}; t.replace(move(e)); t.replace(move(f)); num(t); }
SCN(t_replace2)(Opq & e, Opq & f) { M; T<Up> t{&m}; t.replace(move(e), move(f)); num(t); }
SCN(t_moveCtor)(Opq & e, Opq & f) { M; T<Up> t{&m}; t.insert(move(e), move(f)); T<Up> u{move(t)}; num(u); }
SCN(t_moveAssign)(Opq & e, Opq & f) { M; T<Up> t{&m}; t.insert(move(e)); T<Up> u{&m}; u.insert(move(f)); u = move(t); num(u); }
SCN(t_remove)(Opq & e, Opq & f, Opq & g) { M; T<Up> t{&m}; t.insert(move(e)); t.insert(move(f)); t.insert(move(g)); t.remove(++t.begin()); num(t); }
#endif
#if !defined(PART) || PART == 4
/// sets
template<typename C> using S = Set<Opq, C, void>;
SCN(s_set)(Opq & e) { S<Up> s; s.set(move(e)); num(s); }
SCN(s_set2)(Opq & e, Opq & f) { S<Up> s; s.set(move(e), move(f)); num(s); }
SCN(s_setMixed)(const Opq & e, Opq & f) { S<Up> s; s.set(e, move(f)); num(s); }
SCN(s_moveCtor)(Opq & e, Opq & f) { S<Up> s; s.set(move(e), move(f)); S<Up> t{move(s)}; num(t); }
SCN(s_moveAssign)(Opq & e, Opq & f) { S<Up> s, t; s.set(move(e)); t.set(move(f)); t = move(s); num(t); }
#endif
#if !defined(PART) || PART == 5
/// maps
template<typename C> using N = Map<Opq, Opq, C, void>;
template<typename C> static inline void seem(const C & c) { uint64 n = 0; for (const auto & p : c) { k_obs(n++, 0, &p.first); k_obs(n++, 0, &p.second); } k_val(9, n); }
SCN(m_index)(Opq & e, Opq & f) { N<Up> n; n[move(e)] = move(f); seem(n); }
SCN(m_indexOld)(Opq & e, Opq & f, const Opq & g) { N<Same> n; n[move(e)] = move(f); n[g]; seem(n); }
SCN(m_indexNew)(Opq & e, Opq & f, Opq & g, Opq & h) { N<Up> n; n[move(e)] = move(f); n[move(g)] = move(h); num(n); }
SCN(m_insert)(Opq & e, Opq & f) { N<Up> n; n.insert(move(e), move(f)); seem(n); }
SCN(m_insertNew)(Opq & e, Opq & f, Opq & g, Opq & h) { N<Up> n; n.insert(move(e), move(f)); n.insert(move(g), move(h)); num(n); }
SCN(m_insertMixed)(const Opq & e, Opq & f) { N<Up> n; n.insert(e, move(f)); seem(n); }
SCN(m_insertMixed2)(Opq & e, const Opq & f) { N<Up> n; n.insert(move(e), f); seem(n); }
SCN(m_insertOld)(Opq & e, Opq & f, Opq & g, Opq & h) { N<Same> n; n.insert(move(e), move(f)); n.insert(move(g), move(h)); k_obs(1, 0, &(*n.begin()).second); }
SCN(m_moveCtor)(Opq & e, Opq & f) { N<Up> n; n.insert(move(e), move(f)); N<Up> o{move(n)}; seem(o); }
#endif
#if !defined(PART) || PART == 6
/// single values
using O = Optional<Opq>;
SCN(o_ctor)(Opq & e) { O o{move(e)}; k_obs(1, 0, &*o); }
SCN(o_assign)(Opq & e, Opq & f) { O o; o = move(e); k_obs(1, 0, &*o); o = move(f); k_obs(2, 0, &*o); }
SCN(o_emplace)(Opq & e, Opq & f) { O o; o.emplace(move(e)); k_obs(1, 0, &*o); o.emplace(move(f)); k_obs(2, 0, &*o); }
SCN(o_moveCtor)(Opq & e) { O o{move(e)}; O p{move(o)}; k_obs(1, 0, &*p); }
SCN(o_moveAssign)(Opq & e, Opq & f) { O o{move(e)}; O p; p = move(o); k_obs(1, 0, &*p); O q{move(f)}; p = move(q); k_obs(2, 0, &*p); }
SCN(o_take)(Opq & e) { O o{move(e)}; Opq x{*move(o)}; k_obs(1, 0, &x); }
SCN(o_swap)(Opq & e, Opq & f) { O o{move(e)}, p{move(f)}; swap(o, p); k_obs(1, 0, &*o); k_obs(2, 0, &*p); }
struct W : Opq { using Opq::Opq; W() = default; W(const W &) = default; W(W &&) = default; W(const Opq & o) : Opq{o} {} W(Opq && o) : Opq{move(o)} {} W & operator=(const W &) = default; W & operator=(W &&) = default; };
struct By { int32 operator()(const Opq & a, const Opq & b) const { return a < b ? -1 : a > b; } };
SCN(p_all)(Opq & e, Opq & f) { Pair<Opq, W, By> p{move(e), W{move(f)}}; Pair<Opq, W, By> q{move(p)}; k_obs(1, 0, &q.first); k_obs(2, 0, &q.second); p = move(q); k_obs(3, 0, &p.first); k_obs(4, 0, &p.second); }
SCN(u_all)(Opq & e, Opq & f) { Tuple<Opq, W> p{move(e), W{move(f)}}; Tuple<Opq, W> q{move(p)}; k_obs(1, 0, &q.get<0>()); k_obs(2, 0, &q.get<1>()); p = move(q); k_obs(3, 0, &p.get<0>()); k_obs(4, 0, &p.get<1>()); }
SCN(v_all)(Opq & e, Opq & f) { StaticArray<Opq, 2> p{move(e), move(f)}; StaticArray<Opq, 2> q{move(p)}; k_obs(1, 0, &q[0]); k_obs(2, 0, &q[1]); p = move(q); k_obs(3, 0, &p[0]); k_obs(4, 0, &p[1]); }
SCN(swap)(Opq & e, Opq & f) { swap(e, f); k_obs(1, 0, &e); k_obs(2, 0, &f); }
#endif
#if !defined(PART) || PART == 7
/// callables
struct Fn { Opq v; Opq * operator()(Opq && a) { return &a; } };
struct Gv { Opq v; uint64 operator()(Opq a) { k_obs(7, 0, &a); return 3; } };
SCN(f_ctor)(Opq & e, Opq & a) { Function<Opq *(Opq &&)> f{Fn{move(e)}}; k_same(1, f(move(a)), &a); }
SCN(f_move)(Opq & e, Opq & a) { Function<Opq *(Opq &&)> f{Fn{move(e)}}; Function<Opq *(Opq &&)> g{move(f)}; k_same(1, g(move(a)), &a); }
SCN(f_byValue)(Opq & e, Opq & a) { Function<uint64(Opq)> f{Gv{move(e)}}; k_val(1, f(move(a))); }
SCN(f_byValueC)(Opq & e, Opq & a) { const Function<uint64(Opq)> f{Gv{move(e)}}; k_val(1, f(move(a))); }
struct Ov { uint64 operator()(int32 &) & { return 1; } uint64 operator()(int32 &&) & { return 2; } uint64 operator()(int32 &) && { return 3; } uint64 operator()(int32 &&) && { return 4; } uint64 operator()(const int32 &) & { return 5; } uint64 operator()(int32 &) const & { return 6; } };
SCN(f_invoke)() { Ov o; const Ov c; int32 i = 0; const int32 k = 0; k_val(1, invoke(o, i)); k_val(2, invoke(o, move(i))); k_val(3, invoke(move(o), i)); k_val(4, invoke(move(o), move(i))); k_val(5, invoke(o, k)); k_val(6, invoke(c, i)); }
SCN(f_invokeMove)(Opq & e) { Gv g{}; k_val(1, invoke(g, move(e))); }
#endif
#if !defined(PART) || PART == 8
/// own allocators built from given-away arguments
struct Own : OpqMalloc { Opq v; Own() = default; Own(Opq && o) : v{move(o)} {} Own(const Opq & o) : v{o} {} };
SCN(l_own)(Opq & e) { List<Opq, Own> l{move(e)}; k_val(1, l.getLength()); }
SCN(a_own)(Opq & e) { Array<Opq, Own> l{move(e)}; k_val(1, l.getCount()); }
SCN(t_own)(Opq & e) { BinaryTree<Opq, Up, Own> l{move(e)}; k_val(1, l.getNumNodes()); }
#endif
