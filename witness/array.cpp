#include "common.h"
#include "containers/array.h"
#include "containers/string.h"
#ifndef ELEM
#define ELEM Opq
#endif
struct Wide { uint64 w[8]; };
using E = ELEM;
using Ar = Array<E, void>;
OFF(buffer, Ar, buffer); OFF(count, Ar, count); OFF(capacity, Ar, capacity); OFF(malloc, Ar, malloc); K(arrsz, sizeof(Ar)); K(esz, sizeof(E));
extern "C" {
void w_ctor(Ar * a) { new (a) Ar{}; }
void w_ctorM(Ar * a, MallocBase * m) { new (a) Ar{m}; }
void w_ctorCap(Ar * a, uint64 cap, uint64 n) { new (a) Ar(cap, n); }
void w_ctorCap1(Ar * a, uint64 cap) { new (a) Ar(cap); }
void w_ctorBuf(Ar * a, const E * b, uint64 n, uint64 slack) { new (a) Ar(b, n, slack); }
void w_ctorBuf2(Ar * a, const E * b, uint64 n) { new (a) Ar(b, n); }
void w_ctorStatic(Ar * a, const StaticArray<E, 5> & s) { new (a) Ar{s}; }
void w_copyCtor(Ar * a, const Ar & o) { new (a) Ar{o}; }
void w_moveCtor(Ar * a, Ar & o) { new (a) Ar{move(o)}; }
void w_dtor(Ar * a) { a->~Ar(); }
Ar * w_copyAssign(Ar & a, const Ar & o) { return &(a = o); }
Ar * w_moveAssign(Ar & a, Ar & o) { return &(a = move(o)); }
uint64 w_getCount(const Ar & a) { return a.getCount(); }
uint64 w_getSize(const Ar & a) { return a.getSize(); }
uint64 w_getNum(const Ar & a) { return a.getNum(); }
bool w_isEmpty(const Ar & a) { return a.isEmpty(); }
sizet w_getBytes(const Ar & a) { return a.getBytes(); }
E * w_deref(Ar & a) { return *a; }
E * w_getData(Ar & a) { return a.getData(); }
E * w_getBuffer(Ar & a) { return a.getBuffer(); }
const E * w_cderef(const Ar & a) { return *a; }
const E * w_cgetData(const Ar & a) { return a.getData(); }
const E * w_cgetBuffer(const Ar & a) { return a.getBuffer(); }
E * w_index(Ar & a, uint64 i) { return &a[i]; }
E * w_getAt(Ar & a, uint64 i) { return &a.getAt(i); }
const E * w_cindex(const Ar & a, uint64 i) { return &a[i]; }
const E * w_cgetAt(const Ar & a, uint64 i) { return &a.getAt(i); }
E * w_call(Ar & a, uint64 i) { return &a(i); }
E * w_callInit(Ar & a, uint64 i, const E & e) { return &a(i, e); }
E * w_callInitR(Ar & a, uint64 i, E & e) { return &a(i, move(e)); }
E * w_insertAt(Ar & a, uint64 i, const E & e) { return &a.insertAt(i, e); }
E * w_insertAtR(Ar & a, uint64 i, E & e) { return &a.insertAt(i, move(e)); }
void w_insertAt2(Ar & a, uint64 i, const E & e, const E & f) { a.insertAt(i, e, f); }
void w_insertAt3(Ar & a, uint64 i, const E & e, const E & f, const E & g) { a.insertAt(i, e, f, g); }
E * w_insertFirst(Ar & a, const E & e) { return &a.insertFirst(e); }
E * w_insertFirstR(Ar & a, E & e) { return &a.insertFirst(move(e)); }
void w_insertFirst2(Ar & a, const E & e, const E & f) { a.insertFirst(e, f); }
void w_insertFirst3(Ar & a, const E & e, const E & f, const E & g) { a.insertFirst(e, f, g); }
E * w_insertLast(Ar & a, const E & e) { return &a.insertLast(e); }
E * w_insertLastR(Ar & a, E & e) { return &a.insertLast(move(e)); }
void w_insertLast2(Ar & a, const E & e, const E & f) { a.insertLast(e, f); }
void w_insertLast3(Ar & a, const E & e, const E & f, const E & g) { a.insertLast(e, f, g); }
E * w_add(Ar & a, const E & e) { return &a.add(e); }
E * w_push(Ar & a, const E & e) { return &a.push(e); }
void w_removeAt(Ar & a, uint64 i) { a.removeAt(i); }
void w_removeAtN(Ar & a, uint64 i, uint64 n) { a.removeAt(i, n); }
void w_removeFirst(Ar & a) { a.removeFirst(); }
void w_removeLast(Ar & a) { a.removeLast(); }
void w_popAt(Ar & a, uint64 i, E & o) { a.popAt(i, o); }
void w_popFirst(Ar & a, E & o) { a.popFirst(o); }
void w_popLast(Ar & a, E & o) { a.popLast(o); }
void w_empty(Ar & a) { a.empty(); }
void w_wipe(Ar & a) { a.wipe(); }
void w_clear(Ar & a) { a.clear(); }
void w_reset(Ar & a) { a.reset(); }
struct OwnMalloc : OpqMalloc { uint64 pad; OwnMalloc(); OwnMalloc(int); ~OwnMalloc(); };
using AO = Array<E, OwnMalloc>;
OFF(autoMalloc, AO, autoMalloc); K(aosz, sizeof(AO));
void w_dtorOwn(AO * l) { l->~AO(); }
void w_ctorOwn(AO * l, int a) { new (l) AO(move(a)); }
void w_itAdvance(Ar & a, int64 i, uint64 n, E ** out)
{
	ArrayIterator<Ar> it{a, i};
	out[0] = &*it; out[1] = it.operator->(); out[2] = &it[n];
	out[3] = &*(it + n); out[4] = &*(it - n); out[5] = &*it;
	out[6] = &*++it; out[7] = &*it++; out[8] = &*it; out[9] = &*--it; out[10] = &*it--; out[11] = &*it;
	it += n; out[12] = &*it; it -= n; out[13] = &*it;
	out[14] = &*(it += n); out[15] = &*(it -= n);
}
bool w_itEq(Ar & a, int64 i, int64 j) { return ArrayIterator<Ar>{a, i} == ArrayIterator<Ar>{a, j}; }
bool w_itNe(Ar & a, int64 i, int64 j) { return ArrayIterator<Ar>{a, i} != ArrayIterator<Ar>{a, j}; }
bool w_itLt(Ar & a, int64 i, int64 j) { return ArrayIterator<Ar>{a, i} < ArrayIterator<Ar>{a, j}; }
bool w_itLe(Ar & a, int64 i, int64 j) { return ArrayIterator<Ar>{a, i} <= ArrayIterator<Ar>{a, j}; }
bool w_itGt(Ar & a, int64 i, int64 j) { return ArrayIterator<Ar>{a, i} > ArrayIterator<Ar>{a, j}; }
bool w_itGe(Ar & a, int64 i, int64 j) { return ArrayIterator<Ar>{a, i} >= ArrayIterator<Ar>{a, j}; }
E * w_begin(Ar & a) { return &*a.begin(); }
E * w_end(Ar & a) { return &*a.end(); }
const E * w_cbegin(const Ar & a) { return &*a.begin(); }
const E * w_cend(const Ar & a) { return &*a.end(); }
void w_mDefault(E * b, E * e) { Memory::constructDefaultElements(b, e); }
void w_mCtorCopy(E * d, const E * s, uint64 n) { Memory::constructCopyElements(d, s, n); }
void w_mCopy(E * d, const E * s, uint64 n) { Memory::copyElements(d, s, n); }
void w_mMove(E * d, E * s, uint64 n) { Memory::moveElements(d, s, n); }
void w_mDestroy(E * b, E * e) { Memory::destroyElements(b, e); }
}
