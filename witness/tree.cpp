#include "common.h"
#include "containers/tree.h"
using N = BinaryNode<Opq, ThreeWayCompare>;
using B = BinaryTree<Opq, ThreeWayCompare, void>;
OFF(left, N, left); OFF(right, N, right); OFF(parent, N, parent); OFF(next, N, next); OFF(prev, N, prev); OFF(color, N, color); OFF(data, N, data); K(size, sizeof(N));
OFF(root, B, root); OFF(numNodes, B, numNodes); OFF(malloc, B, malloc); K(treesz, sizeof(B));
extern "C" {
void w_node(N * n, const Opq & d) { new (n) N{d}; }
void w_rotateLeft(N * n) { n->rotateLeft(); }
void w_rotateRight(N * n) { n->rotateRight(); }
void w_repairInserted(N * n) { N::repairInserted(n); }
void w_repairRemoved(N * n, N * p) { N::repairRemoved(n, p); }
N * w_insert(N * t, N * n) { return t->insert(n); }
N * w_insertUnique(N * t, N * n) { return t->insertUnique(n); }
N * w_removeV(N * t, N *& v) { return t->remove(v); }
N * w_remove(N * t) { return t->remove(); }
N * w_getRoot(N * t) { return t->getRoot(); }
const N * w_getRootC(const N * t) { return t->getRoot(); }
N * w_getMin(N * t) { return t->getMin(); }
N * w_getMax(N * t) { return t->getMax(); }
const N * w_getMinC(const N * t) { return t->getMin(); }
const N * w_getMaxC(const N * t) { return t->getMax(); }
const N * w_find(const N * t, const Opq & k) { return t->find(k); }
N * w_findM(N * t, const Opq & k) { return t->find(k); }
const N * w_findMin(const N * t, const Opq & k) { return t->findMin(k); }
const N * w_findMax(const N * t, const Opq & k) { return t->findMax(k); }
uint64 w_size(const N * t) { return t->getNumNodes(); }

// whole trees
void b_ctor(B * t) { new (t) B{}; }
void b_ctor_malloc(B * t, MallocBase * m) { new (t) B{m}; }
Opq * b_insert(B & t, const Opq & d) { return &t.insert(d); }
Opq * b_insertR(B & t, Opq & d) { return &t.insert(move(d)); }
void b_insert2(B & t, const Opq & d, const Opq & e) { t.insert(d, e); }
Opq * b_insertUnique(B & t, const Opq & d) { return &t.insertUnique(d); }
Opq * b_replace(B & t, const Opq & d) { return &t.replace(d); }
N * b_removeNode(B & t, N * n) { return t.removeNode(n); }
N * b_removeIt(B & t, N * n) { return t.remove(B::Iterator{n}).node; }
bool b_removeKey(B & t, const Opq & k) { return t.remove(k); }
void b_empty(B & t) { t.empty(); }
void b_dtor(B * t) { t->~B(); }
void b_copyCtor(B * t, const B & o) { new (t) B{o}; }
void b_moveCtor(B * t, B & o) { new (t) B{move(o)}; }
B * b_copyAssign(B & t, const B & o) { return &(t = o); }
B * b_moveAssign(B & t, B & o) { return &(t = move(o)); }
uint64 b_count(const B & t) { return t.getCount(); }
uint64 b_size(const B & t) { return t.getSize(); }
uint64 b_num(const B & t) { return t.getNumNodes(); }
N * b_getMin(B & t) { return t.getMin(); }
N * b_getMax(B & t) { return t.getMax(); }
const N * b_getMinC(const B & t) { return t.getMin(); }
const N * b_getMaxC(const B & t) { return t.getMax(); }
N * b_begin(B & t) { return t.begin().node; }
const N * b_beginC(const B & t) { return t.begin().node; }
N * b_end(B & t) { return t.end().node; }
const N * b_endC(const B & t) { return t.end().node; }
N * b_beginK(B & t, const Opq & k) { return t.begin(k).node; }
const N * b_beginKC(const B & t, const Opq & k) { return t.begin(k).node; }
N * b_endK(B & t, const Opq & k) { return t.end(k).node; }
const N * b_endKC(const B & t, const Opq & k) { return t.end(k).node; }
N * b_findNode(B & t, const Opq & k) { return t.findNode(k); }
const N * b_findNodeC(const B & t, const Opq & k) { return t.findNode(k); }
N * b_find(B & t, const Opq & k) { return t.find(k).node; }
const N * b_findC(const B & t, const Opq & k) { return t.find(k).node; }
N * b_clone(B & t, const N * s) { return t.cloneSubtree(s); }
N * b_cloneInto(B & t, N * d, const N * s) { return t.cloneSubtree(d, s); }
void b_destroySub(B & t, N * d) { t.destroySubtree(d); }
// iterators
Opq * i_deref(N * n) { return &*B::Iterator{n}; }
Opq * i_arrow(N * n) { return B::Iterator{n}.operator->(); }
const Opq * i_derefC(const N * n) { return &*B::ConstIterator{n}; }
N * i_inc(N * n) { B::Iterator it{n}; return (++it).node; }
N * i_dec(N * n) { B::Iterator it{n}; return (--it).node; }
N * i_pinc(N * n) { B::Iterator it{n}; return (it++).node; }
N * i_pinc2(N * n) { B::Iterator it{n}; it++; return it.node; }
N * i_pdec(N * n) { B::Iterator it{n}; return (it--).node; }
N * i_pdec2(N * n) { B::Iterator it{n}; it--; return it.node; }
bool i_eq(N * n, N * m) { return B::Iterator{n} == B::Iterator{m}; }
bool i_ne(N * n, N * m) { return B::Iterator{n} != B::Iterator{m}; }
const N * i_conv(N * n) { B::ConstIterator c{B::Iterator{n}}; return c.node; }
// owned allocator
struct OwnMalloc : OpqMalloc { uint64 pad; OwnMalloc(); OwnMalloc(int); ~OwnMalloc(); };
using BO = BinaryTree<Opq, ThreeWayCompare, OwnMalloc>;
OFF(autoMalloc, BO, autoMalloc);
void b_dtorOwn(BO * t) { t->~BO(); }
void b_ctorOwn(BO * t, int & a) { new (t) BO{a}; }
}
