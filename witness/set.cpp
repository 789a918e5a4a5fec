#include "common.h"
#include "containers/set.h"
using S = Set<Opq, ThreeWayCompare, void>;
using B = BinaryTree<Opq, ThreeWayCompare, void>;
using N = BinaryNode<Opq, ThreeWayCompare>;
OFF(left, N, left); OFF(right, N, right); OFF(parent, N, parent); OFF(next, N, next); OFF(prev, N, prev); OFF(color, N, color); OFF(data, N, data); K(size, sizeof(N));
OFF(root, B, root); OFF(numNodes, B, numNodes); OFF(malloc, B, malloc); K(treesz, sizeof(B)); K(setsz, sizeof(S)); OFF(tree, S, tree);
extern "C" {
bool s_eq(const S & a, const S & b) { return a == b; }
bool s_ne(const S & a, const S & b) { return a != b; }
bool s_le(const S & a, const S & b) { return a <= b; }
bool s_ge(const S & a, const S & b) { return a >= b; }
bool s_lt(const S & a, const S & b) { return a < b; }
bool s_gt(const S & a, const S & b) { return a > b; }
S * s_add(S & a, const S & b) { return &(a += b); }
S * s_mul(S & a, const S & b) { return &(a *= b); }
S * s_sub(S & a, const S & b) { return &(a -= b); }
void s_addC(S * r, const S & a, const S & b) { new (r) S{a + b}; }
void s_mulC(S * r, const S & a, const S & b) { new (r) S{a * b}; }
void s_subC(S * r, const S & a, const S & b) { new (r) S{a - b}; }
bool s_get(const S & a, const Opq & k) { return a.get(k); }
bool s_getV(S & a, const Opq & k, Opq & v) { return a.get(k, v); }
bool s_getVC(const S & a, const Opq & k, Opq & v) { return a.get(k, v); }
bool s_any1(const S & a, const Opq & k) { return a.any(k); }
bool s_any2(const S & a, const Opq & k, const Opq & l) { return a.any(k, l); }
bool s_any3(const S & a, const Opq & k, const Opq & l, const Opq & m) { return a.any(k, l, m); }
bool s_all1(const S & a, const Opq & k) { return a.all(k); }
bool s_all2(const S & a, const Opq & k, const Opq & l) { return a.all(k, l); }
bool s_all3(const S & a, const Opq & k, const Opq & l, const Opq & m) { return a.all(k, l, m); }
bool s_any4(const S & a, const Opq & k, const Opq & l, const Opq & m, const Opq & n) { return a.any(k, l, m, n); }
bool s_all4(const S & a, const Opq & k, const Opq & l, const Opq & m, const Opq & n) { return a.all(k, l, m, n); }
bool s_all5(const S & a, const Opq & k, const Opq & l, const Opq & m, const Opq & n, const Opq & o) { return a.all(k, l, m, n, o); }
bool s_any5(const S & a, const Opq & k, const Opq & l, const Opq & m, const Opq & n, const Opq & o) { return a.any(k, l, m, n, o); }
Opq * s_set(S & a, const Opq & k) { return &a.set(k); }
void s_set2(S & a, const Opq & k, const Opq & l) { a.set(k, l); }
bool s_remove(S & a, const Opq & k) { return a.remove(k); }
bool s_removeV(S & a, const Opq & k, Opq & v) { return a.remove(k, v); }
uint64 s_size(const S & a) { return a.getSize(); }
uint64 s_count(const S & a) { return a.getCount(); }
uint64 s_items(const S & a) { return a.getNumItems(); }
N * s_begin(S & a) { return a.begin().node; }
const N * s_beginC(const S & a) { return a.begin().node; }
N * s_beginK(S & a, const Opq & k) { return a.begin(k).node; }
const N * s_beginKC(const S & a, const Opq & k) { return a.begin(k).node; }
N * s_end(S & a) { return a.end().node; }
const N * s_endC(const S & a) { return a.end().node; }
N * s_endK(S & a, const Opq & k) { return a.end(k).node; }
const N * s_endKC(const S & a, const Opq & k) { return a.end(k).node; }
}
