#include "common.h"
extern "C" void k_did(uint64 kind, const void * self, const void * src);
extern "C" void k_val(uint64 tag, uint64 v);
extern "C" void k_at(uint64 i, const void * p);
#define SCN(name) extern "C" void s_##name
/// element types of which a single special member does something
struct D { uint64 v; D() : v{5} { k_did(0, this, nullptr); } };
struct C { uint64 v; C() = default; C(const C & o) : v{o.v} { k_did(1, this, &o); } C & operator=(const C &) = default; };
struct A_ { uint64 v; A_() = default; A_(const A_ &) = default; A_ & operator=(const A_ & o) { v = o.v; k_did(2, this, &o); return *this; } };
struct M { uint64 v; M() = default; M(const M &) = default; M(M && o) : v{o.v} { k_did(3, this, &o); } M & operator=(const M &) = default; M & operator=(M &&) = default; };
struct S { uint64 v; S() = default; S(const S &) = default; S(S &&) = default; S & operator=(const S &) = default; S & operator=(S && o) { v = o.v; k_did(4, this, &o); return *this; } };
struct X { uint64 v; X() = default; X(const X &) = default; X & operator=(const X &) = default; ~X() { k_did(5, this, nullptr); } };
struct T { uint64 v; };
template<typename E> union Raw { uint64 n[3]; E e[3]; Raw() {} ~Raw() {} };
#define KIND(E) \
SCN(E##_ctor)(uint64 x) { Raw<E> a; a.n[0] = a.n[1] = a.n[2] = x; k_at(0, a.e); Memory::constructDefaultElements(a.e + 1, a.e + 3); k_val(1, a.n[0]); k_val(1, a.n[1]); k_val(1, a.n[2]); } \
SCN(E##_cctor)(uint64 x, uint64 y, uint64 z) { Raw<E> a, b; a.n[0] = x; a.n[1] = y; b.n[0] = b.n[1] = b.n[2] = z; k_at(0, b.e); k_at(1, a.e); Memory::constructCopyElements(b.e + 1, (const E *)a.e, 2); k_val(1, b.n[0]); k_val(1, b.n[1]); k_val(1, b.n[2]); k_val(1, a.n[0]); k_val(1, a.n[1]); } \
SCN(E##_cassign)(uint64 x, uint64 y, uint64 z) { Raw<E> a, b; a.n[0] = x; a.n[1] = y; b.n[0] = b.n[1] = b.n[2] = z; k_at(0, b.e); k_at(1, a.e); Memory::copyElements(b.e + 1, (const E *)a.e, 2); k_val(1, b.n[0]); k_val(1, b.n[1]); k_val(1, b.n[2]); k_val(1, a.n[0]); k_val(1, a.n[1]); } \
SCN(E##_up)(uint64 x, uint64 y, uint64 z) { Raw<E> a; a.n[0] = x; a.n[1] = y; a.n[2] = z; k_at(0, a.e); Memory::moveElements(a.e + 1, a.e, 2); k_val(1, a.n[0]); k_val(1, a.n[1]); k_val(1, a.n[2]); } \
SCN(E##_down)(uint64 x, uint64 y, uint64 z) { Raw<E> a; a.n[0] = x; a.n[1] = y; a.n[2] = z; k_at(0, a.e); Memory::moveElements(a.e, a.e + 1, 2); k_val(1, a.n[0]); k_val(1, a.n[1]); k_val(1, a.n[2]); } \
SCN(E##_dtor)(uint64 x) { Raw<E> a; a.n[0] = a.n[1] = a.n[2] = x; k_at(0, a.e); Memory::destroyElements(a.e + 1, a.e + 3); k_val(1, a.n[0]); k_val(1, a.n[1]); k_val(1, a.n[2]); }
KIND(D)
KIND(C)
KIND(A_)
KIND(M)
KIND(S)
KIND(X)
KIND(T)
