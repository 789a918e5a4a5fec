#include "common.h"
#include "containers/list.h"
using L = List<Opq, void>;
using N = Link<Opq>;
OFF(next, N, next); OFF(prev, N, prev); OFF(data, N, data); K(nodesz, sizeof(N));
OFF(head, L, head); OFF(tail, L, tail); OFF(length, L, length); OFF(malloc, L, malloc); K(listsz, sizeof(L));
extern "C" {
void w_ctor(L * l) { new (l) L{}; }
void w_ctor_malloc(L * l, MallocBase * m) { new (l) L{m}; }
void w_pushBack(L & l, const Opq & d) { l.pushBack(d); }
Opq * w_pushBackR(L & l, Opq & d) { return &l.pushBack(move(d)); }
void w_pushFront(L & l, const Opq & d) { l.pushFront(d); }
Opq * w_pushFrontR(L & l, Opq & d) { return &l.pushFront(move(d)); }
void w_pushBack2(L & l, const Opq & a, const Opq & b) { l.pushBack(a, b); }
void w_pushFront2(L & l, const Opq & a, const Opq & b) { l.pushFront(a, b); }
void w_remove(L & l, N * n) { l.remove(n); }
void w_removeIt(L & l, N * n) { l.remove(ListIterator<N>{n}); }
bool w_removeBack(L & l) { return l.removeBack(); }
bool w_removeFront(L & l) { return l.removeFront(); }
bool w_popBack(L & l, Opq & o) { return l.popBack(o); }
bool w_popFront(L & l, Opq & o) { return l.popFront(o); }
void w_empty(L & l) { l.empty(); }
void w_dtor(L * l) { l->~L(); }
void w_moveCtor(L * l, L & o) { new (l) L{move(o)}; }
L * w_moveAssign(L & l, L & o) { return &(l = move(o)); }
void w_copyCtor(L * l, const L & o) { new (l) L{o}; }
L * w_copyAssign(L & l, const L & o) { return &(l = o); }
struct OwnMalloc : OpqMalloc { uint64 pad; OwnMalloc(); OwnMalloc(int); ~OwnMalloc(); };
using LO = List<Opq, OwnMalloc>;
OFF(autoMalloc, LO, autoMalloc);
void w_dtorOwn(LO * l) { l->~LO(); }
void w_ctorOwn(LO * l, int & a) { new (l) LO{a}; }
void w_ctorIt(L * l, L & o) { new (l) L{o.begin(), o.end()}; }
Opq * w_itDeref(N * n) { return &*ListIterator<N>{n}; }
Opq * w_itArrow(N * n) { return ListIterator<N>{n}.operator->(); }
Opq * w_itInc(N * n) { ListIterator<N> it{n}; return &*++it; }
Opq * w_itDec(N * n) { ListIterator<N> it{n}; return &*--it; }
Opq * w_itPostInc(N * n) { ListIterator<N> it{n}; return &*it++; }
Opq * w_itPostInc2(N * n) { ListIterator<N> it{n}; it++; return &*it; }
Opq * w_itPostDec(N * n) { ListIterator<N> it{n}; return &*it--; }
Opq * w_itPostDec2(N * n) { ListIterator<N> it{n}; it--; return &*it; }
bool w_itEq(N * a, N * b) { return ListIterator<N>{a} == ListIterator<N>{b}; }
bool w_itNe(N * a, N * b) { return ListIterator<N>{a} != ListIterator<N>{b}; }
bool w_beginIs(L & l, N * n) { return l.begin() == ListIterator<N>{n}; }
bool w_endIs(L & l, N * n) { return l.end() == ListIterator<N>{n}; }
bool w_cbeginIs(const L & l, N * n) { return l.begin() == ListConstIterator<N>{n}; }
bool w_cendIs(const L & l, N * n) { return l.end() == ListConstIterator<N>{n}; }
N * w_getHeadM(L & l) { return l.getHead(); }
N * w_getTailM(L & l) { return l.getTail(); }
uint64 w_getLength(const L & l) { return l.getLength(); }
const N * w_getHead(const L & l) { return l.getHead(); }
const N * w_getTail(const L & l) { return l.getTail(); }
}
