#include "common.h"
#include "algorithm/sort.h"
#include "containers/list.h"
#include "containers/array.h"
extern "C" void k_obs(uint64 tag, uint64 has, const Opq * p);
extern "C" void k_val(uint64 tag, uint64 v);
extern "C" int32 k_cmp(const void * self, const Opq * a, const Opq * b);
extern "C" void k_range(const Opq * b, const Opq * e);
extern "C" void k_step(const Opq * p);
extern "C" void k_read(const Opq * p);
#define SCN(name) extern "C" void s_##name
/// a comparator with opaque special members: it must be alive when it is called and must not be moved from
struct Cmp : Opq { Cmp() = default; Cmp(const Cmp &) = default; Cmp(Cmp &&) = default; int32 operator()(const Opq & a, const Opq & b) const; };
/// a forward iterator: it can only step forward, be copied, compared and dereferenced; each step and access is seen
struct Fwd
{
	Opq * p;
	Fwd & operator++() { k_step(p); ++p; return *this; }
	Fwd operator++(int32) { Fwd o{*this}; k_step(p); ++p; return o; }
	Opq & operator*() const { k_read(p); return *p; }
	bool operator==(const Fwd & o) const { return p == o.p; }
	bool operator!=(const Fwd & o) const { return p != o.p; }
};
#ifdef WITNESS_MAIN
int32 Cmp::operator()(const Opq & a, const Opq & b) const { return k_cmp(this, &a, &b); }
#endif
template<sizet n> static inline void seeAll(uint64 tag, const Opq * a) { for (sizet i = 0; i < n; ++i) k_obs(tag, i, a + i); }
#define P0
#define P1 const Opq & e0
#define P2 P1, const Opq & e1
#define P3 P2, const Opq & e2
#define P4 P3, const Opq & e3
#define P5 P4, const Opq & e4
#define P6 P5, const Opq & e5
#define C0
#define C1 {e0},
#define C2 C1 {e1},
#define C3 C2 {e2},
#define C4 C3 {e3},
#define C5 C4 {e4},
#define C6 C5 {e5},
#define Q0
#define Q1 , const Opq & f0
#define Q2 Q1, const Opq & f1
#define Q3 Q2, const Opq & f2
#define Q4 Q3, const Opq & f3
#define Q5 Q4, const Opq & f4
#define Q6 Q5, const Opq & f5
#define D0
#define D1 {f0},
#define D2 D1 {f1},
#define D3 D2 {f2},
#define D4 D3 {f3},
#define D5 D4 {f4},
#define D6 D5 {f5},
#define COMMA0
#define COMMA1 ,
#define COMMA2 ,
#define COMMA3 ,
#define COMMA4 ,
#define COMMA5 ,
#define COMMA6 ,
/// the range sits between two guards that do not belong to it
#define SORT(n) \
SCN(sort_ptr##n)(P##n COMMA##n const Opq & g, const Cmp & c) { Opq a[n + 2] = {{g}, C##n {g}}; k_range(a + 1, a + 1 + n); Sort::quicksort(a + 1, a + 1 + n, c); k_range(nullptr, nullptr); seeAll<n>(1, a + 1); k_obs(2, 0, a); k_obs(2, 0, a + n + 1); } \
SCN(sort_rv##n)(P##n COMMA##n const Opq & g, const Cmp & c) { Opq a[n + 2] = {{g}, C##n {g}}; k_range(a + 1, a + 1 + n); Sort::quicksort(a + 1, a + 1 + n, Cmp{c}); k_range(nullptr, nullptr); seeAll<n>(1, a + 1); k_obs(2, 0, a); k_obs(2, 0, a + n + 1); } \
SCN(sort_fwd##n)(P##n COMMA##n const Opq & g, const Cmp & c) { Opq a[n + 2] = {{g}, C##n {g}}; k_range(a + 1, a + 1 + n); Sort::quicksort(Fwd{a + 1}, Fwd{a + 1 + n}, c); k_range(nullptr, nullptr); seeAll<n>(1, a + 1); k_obs(2, 0, a); k_obs(2, 0, a + n + 1); } \
SCN(arg_ptr##n)(P##n Q##n COMMA##n const Opq & g, const Cmp & c) { Opq a[n + 2] = {{g}, C##n {g}}, b[n + 2] = {{g}, D##n {g}}; k_range(a + 1, a + 1 + n); Sort::argquicksort(a + 1, a + 1 + n, b + 1, c); k_range(nullptr, nullptr); seeAll<n>(1, a + 1); k_obs(2, 0, a); k_obs(2, 0, a + n + 1); seeAll<n>(3, b + 1); k_obs(2, 0, b); k_obs(2, 0, b + n + 1); } \
SCN(arg_fwd##n)(P##n Q##n COMMA##n const Opq & g, const Cmp & c) { Opq a[n + 2] = {{g}, C##n {g}}, b[n + 2] = {{g}, D##n {g}}; k_range(a + 1, a + 1 + n); Sort::argquicksort(Fwd{a + 1}, Fwd{a + 1 + n}, b + 1, Cmp{c}); k_range(nullptr, nullptr); seeAll<n>(1, a + 1); k_obs(2, 0, a); k_obs(2, 0, a + n + 1); seeAll<n>(3, b + 1); k_obs(2, 0, b); k_obs(2, 0, b + n + 1); } \
SCN(part_ptr##n)(P##n COMMA##n const Opq & v, const Opq & g, const Cmp & c) { Opq a[n + 2] = {{g}, C##n {g}}; Opq p{v}; k_range(a + 1, a + 1 + n); Opq * r = Sort::partition(a + 1, a + 1 + n, p, c); k_range(nullptr, nullptr); seeAll<n>(1, a + 1); k_obs(2, 0, a); k_obs(2, 0, a + n + 1); k_val(4, r - (a + 1)); } \
SCN(part_fwd##n)(P##n COMMA##n const Opq & v, const Opq & g, const Cmp & c) { Opq a[n + 2] = {{g}, C##n {g}}; const Opq p{v}; k_range(a + 1, a + 1 + n); Fwd r = Sort::partition(Fwd{a + 1}, Fwd{a + 1 + n}, p, c); k_range(nullptr, nullptr); seeAll<n>(1, a + 1); k_obs(2, 0, a); k_obs(2, 0, a + n + 1); k_val(4, r.p - (a + 1)); }
SORT(0)
SORT(1)
SORT(2)
SORT(3)
SORT(4)
SORT(5)
SORT(6)
/// numbers, with the ordering the library provides
SCN(num2)(int64 x, int64 y) { int64 a[4] = {-1, x, y, -1}; Sort::quicksort(a + 1, a + 3, ThreeWayCompare{}); k_val(1, a[1]); k_val(1, a[2]); k_val(2, a[0]); k_val(2, a[3]); }
SCN(num3)(int64 x, int64 y, int64 z) { int64 a[5] = {-1, x, y, z, -1}; ThreeWayCompare c; Sort::quicksort(a + 1, a + 4, c); k_val(1, a[1]); k_val(1, a[2]); k_val(1, a[3]); k_val(2, a[0]); k_val(2, a[4]); }
SCN(numarg3)(int64 x, int64 y, int64 z) { int64 a[5] = {-1, x, y, z, -1}; uint64 b[5] = {9, 0, 1, 2, 9}; ThreeWayCompare c; Sort::argquicksort(a + 1, a + 4, b + 1, c); k_val(1, a[1]); k_val(1, a[2]); k_val(1, a[3]); k_val(2, a[0]); k_val(2, a[4]); k_val(3, b[1]); k_val(3, b[2]); k_val(3, b[3]); k_val(5, b[0]); k_val(5, b[4]); }
/// the comparators that come with the library
struct Key { int64 v; bool operator<(const Key & o) const { return v < o.v; } bool operator>(const Key & o) const { return v > o.v; } bool operator<=(const Key & o) const { return v <= o.v; } bool operator>=(const Key & o) const { return v >= o.v; } bool operator==(const Key & o) const { return v == o.v; } bool operator!=(const Key & o) const { return v != o.v; } };
SCN(twc_num)(int64 x, int64 y) { k_val(1, ThreeWayCompare{}(x, y)); }
SCN(twc_const)(int64 x, int64 y) { const int64 a{x}, b{y}; const ThreeWayCompare c{}; k_val(1, c(a, b)); }
SCN(twc_rvalue)(int64 x, int64 y) { k_val(1, ThreeWayCompare{}(Key{x}, Key{y})); }
SCN(twc_object)(int64 x, int64 y) { Key a{x}; const Key b{y}; ThreeWayCompare c; k_val(1, c(a, b)); k_val(2, a.v); k_val(3, b.v); }
SCN(twc_pointer)(int64 x, int64 y) { const Key a{x}, b{y}; const Key * p = &a, * q = &b; ThreeWayCompare c; k_val(1, c(p, q)); k_val(2, a.v); k_val(3, b.v); }
SCN(twc_address)(int64 x, int64 y) { const Key a{x}, b{y}; const ThreeWayCompare c{}; k_val(1, c(&a, &b)); k_val(2, a.v); k_val(3, b.v); }
SCN(nul_num)(int64 x, int64 y) { k_val(4, NullCompare{}(x, y)); }
SCN(nul_object)(int64 x, int64 y) { Key a{x}; const Key b{y}; NullCompare c; k_val(4, c(a, b)); k_val(4, c(Key{x}, a)); k_val(2, a.v); k_val(3, b.v); }
SCN(nul_pointer)(int64 x, int64 y) { const Key a{x}, b{y}; const NullCompare c{}; k_val(4, c(&a, &b)); k_val(2, a.v); k_val(3, b.v); }
