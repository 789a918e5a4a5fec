#include "common.h"
#include "containers/list.h"
#include "containers/array.h"
#include "containers/tree.h"
#include "containers/set.h"
#include "containers/map.h"
extern "C" void k_obs(uint64 tag, uint64 has, const Opq * p);
extern "C" void k_val(uint64 tag, uint64 v);
#ifdef WITNESS_MAIN
OpqMalloc::~OpqMalloc() {}
#endif
#define SCN(name) extern "C" void s_##name
/// the values used by the steps of a history, each one once
struct Src { const Opq * v; const Opq & operator()() { return *v++; } };
template<typename C> static inline void see(const C & c) { for (const auto & e : c) { k_obs(1, 0, &e); } k_val(2, ~0ull); }
static inline void seeL(List<Opq, void> & l)
{
	see(l); k_val(3, l.getLength());
	uint64 n = 0; for (auto k = l.getTail(); k; k = k->prev) { k_obs(4, 0, &k->data); ++n; } k_val(5, n);
	for (auto & e : l) k_obs(6, 0, &e);
	k_val(7, (l.getHead() ? 1 : 0) + (l.getTail() ? 2 : 0));
}
static inline void stepL(List<Opq, void> & l, OpqMalloc & m, uint64 op, uint64 i, Src & s)
{
	using L = List<Opq, void>;
	switch (op)
	{
	case 0: k_obs(8, 0, &l.pushBack(s())); break;
	case 1: k_obs(8, 0, &l.pushFront(s())); break;
	case 2: { const Opq & a = s(); l.pushBack(a, s()); break; }
	case 3: { const Opq & a = s(); l.pushFront(a, s()); break; }
	case 4: { auto it = l.begin(); while (i--) ++it; l.remove(it); break; }
	case 5: { auto k = l.getHead(); while (i--) k = k->next; l.remove(k); break; }
	case 6: k_val(8, l.removeBack()); break;
	case 7: k_val(8, l.removeFront()); break;
	case 8: { Opq o{s()}; k_val(8, l.popBack(o)); k_obs(9, 0, &o); break; }
	case 9: { Opq o{s()}; k_val(8, l.popFront(o)); k_obs(9, 0, &o); break; }
	case 10: l.empty(); break;
	case 11: { const L & c = l; L k{c}; seeL(k); break; }
	case 12: { L k{&m}; while (i--) k.pushBack(s()); const L & c = l; L & r = (k = c); k_val(8, &r == &k); seeL(k); k.pushBack(s()); seeL(k); break; }
	case 13: { L k{move(l)}; seeL(k); l = move(k); break; }
	case 14: { L k{&m}; while (i--) k.pushFront(s()); k = move(l); seeL(k); k.pushFront(s()); l = move(k); break; }
	case 15: { L k{l.begin(), l.end()}; seeL(k); break; }
	case 16: { const L & c = l; L & r = (l = c); k_val(8, &r == &l); break; }
	case 17: { L k{&m}; while (i--) k.pushBack(s()); const L & c = k; l = c; seeL(k); break; }
	}
	seeL(l);
}
SCN(list)(uint64 n, uint64 o1, uint64 i1, uint64 o2, uint64 i2, uint64 o3, uint64 i3, const Opq * v)
{
	Src s{v}; OpqMalloc m; List<Opq, void> l{&m};
	while (n--) l.pushBack(s());
	stepL(l, m, o1, i1, s); stepL(l, m, o2, i2, s); stepL(l, m, o3, i3, s);
}
static inline void seeA(Array<Opq, void> & a)
{
	see(a); k_val(3, a.getCount()); k_val(4, a.isEmpty());
	for (uint64 i = 0; i < a.getCount(); ++i) k_obs(5, 0, &a[i]);
}
static inline void stepA(Array<Opq, void> & a, OpqMalloc & m, uint64 op, uint64 i, Src & s)
{
	using A = Array<Opq, void>;
	switch (op)
	{
	case 0: k_obs(8, 0, &a.insertLast(s())); break;
	case 1: k_obs(8, 0, &a.insertFirst(s())); break;
	case 2: k_obs(8, 0, &a.insertAt(i, s())); break;
	case 3: { const Opq & b = s(); a.insertLast(b, s()); break; }
	case 4: { const Opq & b = s(); a.insertFirst(b, s()); break; }
	case 5: { const Opq & b = s(); a.insertAt(i, b, s()); break; }
	case 6: { const Opq & b = s(); const Opq & c = s(); a.insertAt(i, b, c, s()); break; }
	case 7: a.removeAt(i); break;
	case 8: a.removeAt(i, 2); break;
	case 9: { Opq o{s()}; a.popAt(i, o); k_obs(9, 0, &o); break; }
	case 10: { Opq o{s()}; a.popFirst(o); k_obs(9, 0, &o); break; }
	case 11: { Opq o{s()}; a.popLast(o); k_obs(9, 0, &o); break; }
	case 12: a.empty(); break;
	case 13: a.reset(); break;
	case 14: { const A & c = a; A b{c}; seeA(b); b.insertLast(s()); seeA(b); break; }
	case 15: { A b{&m}; while (i--) b.insertLast(s()); const A & c = a; A & r = (b = c); k_val(8, &r == &b); seeA(b); b.insertLast(s()); seeA(b); break; }
	case 16: { A b{move(a)}; seeA(b); a = move(b); break; }
	case 17: { A b{&m}; while (i--) b.insertLast(s()); b = move(a); seeA(b); b.insertFirst(s()); a = move(b); break; }
	case 18: if (i < a.getCount()) k_obs(8, 0, &a(i)); else { Opq & o = a(i); new (&o) Opq{s()}; k_obs(8, 0, &o); } break; // not constructed when it is new
	case 19: k_obs(8, 0, &a(i, s())); break;
	case 20: { A b(i + 1, i); seeA(b); b.insertLast(s()); b.insertLast(s()); seeA(b); break; }
	case 21: { A b(a.getBuffer(), a.getCount(), i); seeA(b); b.insertLast(s()); seeA(b); break; }
	case 22: { A b{&m}; while (i--) b.insertLast(s()); const A & c = b; a = c; seeA(b); break; }
	case 23: a.removeFirst(); break;
	case 24: a.removeLast(); break;
	case 25: a.removeAt(i, 0); break;
	}
	seeA(a);
}
SCN(array)(uint64 n, uint64 o1, uint64 i1, uint64 o2, uint64 i2, uint64 o3, uint64 i3, const Opq * v)
{
	Src s{v}; OpqMalloc m; Array<Opq, void> a{&m};
	while (n--) a.insertLast(s());
	stepA(a, m, o1, i1, s); stepA(a, m, o2, i2, s); stepA(a, m, o3, i3, s);
}
/// keys with a known rank and an unknown payload
struct Key { Opq v; uint64 r; Key() : v{}, r{77} {} Key(const Opq & e, uint64 x) : v{e}, r{x} {} };
struct ByRank
{
	static inline uint64 of(const Key & k) { return k.r; }
	static inline uint64 of(uint64 r) { return r; }
	template<typename A, typename B> int32 operator()(const A & a, const B & b) const { return of(a) < of(b) ? -1 : of(a) > of(b); }
};
using Tr = BinaryTree<Key, ByRank, void>;
static inline void seeT(Tr & t)
{
	const Tr & c = t;
	for (const auto & k : c) { k_obs(1, 0, &k.v); k_val(2, k.r); }
	k_val(3, t.getNumNodes());
	for (auto n = t.getMax(); n; n = n->prev) k_val(4, n->data.r);
	for (auto n = c.getMin(); n; n = n->next) k_val(5, n->data.r);
	k_val(6, !t.getRoot());
}
static inline void lookT(Tr & t, uint64 to)
{
	const Tr & c = t;
	for (uint64 r = 0; r < to; ++r)
	{
		auto it = c.find(r); k_val(10, it == c.end() ? 99 : (*it).r);
		auto n = t.findNode(r); k_val(11, n ? n->data.r : 99);
		uint64 k = 0; for (auto b = t.begin(r), e = t.end(r); b != e; ++b) { k_obs(12, 0, &(*b).v); ++k; } k_val(13, k);
	}
}
static inline void stepT(Tr & t, OpqMalloc & m, uint64 op, uint64 i, Src & s)
{
	switch (op)
	{
	case 0: { Key & k = t.insert(Key{s(), i}); k_obs(8, 0, &k.v); break; }
	case 1: { Key & k = t.insertUnique(Key{s(), i}); k_obs(8, 0, &k.v); break; }
	case 2: { Key & k = t.replace(Key{s(), i}); k_obs(8, 0, &k.v); break; }
	case 3: { auto it = t.begin(); while (i--) ++it; it = t.remove(it); k_val(8, it == t.end() ? 99 : (*it).r); break; }
	case 4: { const Key k{s(), i}; k_val(8, t.remove(k)); break; }
	case 5: t.empty(); break;
	case 6: { const Tr & c = t; Tr u{c}; seeT(u); u.insert(Key{s(), i}); seeT(u); break; }
	case 7: { Tr u{&m}; for (uint64 k = 0; k < i; ++k) u.insert(Key{s(), k}); const Tr & c = t; Tr & r = (u = c); k_val(8, &r == &u); seeT(u); break; }
	case 8: { Tr u{move(t)}; seeT(u); t = move(u); break; }
	case 9: { Tr u{&m}; for (uint64 k = 0; k < i; ++k) u.insert(Key{s(), k}); u = move(t); seeT(u); t = move(u); break; }
	case 10: lookT(t, i); break;
	case 11: { const Key a{s(), i}; t.insert(a, Key{s(), i + 1}); break; }
	case 12: { const Tr & c = t; Tr & r = (t = c); k_val(8, &r == &t); break; }
	}
	seeT(t);
}
SCN(tree)(uint64 n, uint64 ranks, uint64 o1, uint64 i1, uint64 o2, uint64 i2, const Opq * v)
{
	Src s{v}; OpqMalloc m; Tr t{&m};
	for (; n--; ranks >>= 4) t.insert(Key{s(), ranks & 15});
	stepT(t, m, o1, i1, s); stepT(t, m, o2, i2, s);
}
using St = Set<Key, ByRank, void>;
static inline void seeS(const St & t) { for (const auto & k : t) { k_obs(1, 0, &k.v); k_val(2, k.r); } k_val(3, t.getSize()); }
static inline void rankS(const St & t) { for (const auto & k : t) { k_val(2, k.r); } k_val(3, t.getSize()); }
static inline void fillS(St & t, uint64 ranks, Src & s) { for (; ranks; ranks >>= 4) t.set(Key{s(), ranks & 15}); }
SCN(algebra)(uint64 ra, uint64 rb, uint64 op, const Opq * v)
{
	Src s{v}; St a, b; fillS(a, ra, s); fillS(b, rb, s);
	const St & ca = a; const St & cb = b;
	switch (op)
	{
	case 0: { St & r = (a += cb); k_val(8, &r == &a); rankS(a); break; }
	case 1: { St & r = (a *= cb); k_val(8, &r == &a); rankS(a); break; }
	case 2: { St & r = (a -= cb); k_val(8, &r == &a); rankS(a); break; }
	case 3: { const St r = ca + cb; rankS(r); rankS(a); break; }
	case 4: { const St r = ca * cb; rankS(r); rankS(a); break; }
	case 5: { const St r = ca - cb; rankS(r); rankS(a); break; }
	case 6: k_val(20, ca == cb); k_val(21, ca != cb); k_val(22, ca <= cb); k_val(23, ca >= cb); k_val(24, ca < cb); k_val(25, ca > cb); rankS(a); break;
	case 7: a += a; rankS(a); break;
	case 8: a *= a; rankS(a); break;
	case 9: a -= a; rankS(a); break;
	case 10: k_val(20, ca == a); k_val(21, ca != a); k_val(22, ca <= a); k_val(23, ca >= a); k_val(24, ca < a); k_val(25, ca > a); rankS(a); break;
	case 11: { St c{ca}; seeS(c); c = cb; seeS(c); seeS(a); break; }
	case 12: { St c{move(a)}; seeS(c); a = move(c); seeS(a); b = move(a); seeS(b); return; }
	}
	seeS(b);
}
static inline void stepS(St & t, uint64 op, uint64 i, Src & s)
{
	const St & c = t;
	switch (op)
	{
	case 0: k_obs(8, 0, &t.set(Key{s(), i}).v); break;
	case 1: { const Key a{s(), i}; t.set(a, Key{s(), i + 1}); break; }
	case 2: k_val(8, t.remove(i)); break;
	case 3: { Key k{s(), 50}; bool b = t.remove(i, k); k_val(8, b); k_val(9, k.r); k_obs(9, 0, &k.v); break; }
	case 4: for (uint64 r = 1; r < 5; ++r) { k_val(8, c.get(r)); Key k{*s.v, 50}; k_val(8, c.get(r, k)); k_val(9, k.r); k_obs(9, 0, &k.v); Key l{*s.v, 50}; k_val(8, t.get(r, l)); k_val(9, l.r); } break;
	case 5: for (uint64 r = 1; r < 5; ++r) { k_val(8, c.any(r)); k_val(8, c.any(r, i)); k_val(8, c.any(i, r, i)); k_val(8, c.all(r)); k_val(8, c.all(r, i)); k_val(8, c.all(i, r, i)); } break;
	case 6: for (uint64 r = 0; r < 6; ++r) { uint64 n = 0; for (auto b = c.begin(r), e = c.end(r); b != e; ++b) n += 1 + (*b).r * 100; k_val(8, n); n = 0; for (auto b = t.begin(r), e = t.end(r); b != e; ++b) n += 1 + (*b).r * 100; k_val(8, n); } break;
	}
	seeS(t);
}
SCN(set)(uint64 ra, uint64 o1, uint64 i1, uint64 o2, uint64 i2, const Opq * v)
{
	Src s{v}; St t; fillS(t, ra, s);
	stepS(t, o1, i1, s); stepS(t, o2, i2, s);
}
using Mp = Map<uint64, Opq, ByRank, void>;
static inline uint64 key(const Opq &, uint64 r) { return r; }
static inline void seeM(const Mp & t) { for (const auto & p : t) { k_val(1, p.first); k_obs(2, 0, &p.second); } k_val(3, t.getCount()); }
static inline void stepM(Mp & t, uint64 op, uint64 i, Src & s)
{
	const Mp & c = t;
	switch (op)
	{
	case 0: { Opq & r = t[key(s(), i)]; k_obs(8, 0, &r); break; }
	case 1: { Opq & r = t[key(s(), i)]; r = s(); break; }
	case 2: { const uint64 k = key(s(), i); k_obs(8, 0, &t.insert(k, s())); break; }
	case 3: k_val(8, t.remove(i)); break;
	case 4: { Opq o{s()}; k_val(8, t.pop(i, o)); k_obs(9, 0, &o); break; }
	case 5: for (uint64 r = 1; r < 5; ++r) { k_val(8, c.has(r)); Opq o{*s.v}; k_val(8, c.find(r, o)); k_obs(9, 0, &o); auto it = c.find(r); k_val(8, it == c.end() ? 99 : (*it).first); auto jt = t.find(r); if (jt != t.end()) k_obs(9, 0, &(*jt).second); } break;
	case 6: { auto it = t.begin(); while (i--) ++it; it = t.remove(it); k_val(8, it == t.end() ? 99 : (*it).first); break; }
	case 7: { Mp u{c}; seeM(u); { Opq & x = u[key(s(), i)]; x = s(); } seeM(u); break; }
	case 8: { Mp u; { Opq & x = u[key(s(), i)]; x = s(); } u = c; seeM(u); break; }
	case 9: { Mp u{move(t)}; seeM(u); t = move(u); break; }
	case 10: { Mp u; { Opq & x = u[key(s(), i)]; x = s(); } u = move(t); seeM(u); t = move(u); break; }
	case 11: for (uint64 r = 0; r < 6; ++r) { uint64 n = 0; for (auto b = c.begin(r), e = c.end(r); b != e; ++b) n += 1 + (*b).first * 100; k_val(8, n); n = 0; for (auto b = t.begin(r), e = t.end(r); b != e; ++b) n += 1 + (*b).first * 100; k_val(8, n); } break;
	}
	seeM(t);
}
SCN(map)(uint64 ra, uint64 o1, uint64 i1, uint64 o2, uint64 i2, const Opq * v)
{
	Src s{v}; Mp t; for (; ra; ra >>= 4) { Opq & x = t[key(s(), ra & 15)]; x = s(); }
	stepM(t, o1, i1, s); stepM(t, o2, i2, s);
}
