#include "common.h"
#include "containers/map.h"
using M = Map<Opq, Opq, ThreeWayCompare, void>;
using P = Pair<Opq, Opq, ThreeWayCompare>;
using B = BinaryTree<P, typename P::FindPair, void>;
using N = BinaryNode<P, typename P::FindPair>;
OFF(left, N, left); OFF(right, N, right); OFF(parent, N, parent); OFF(next, N, next); OFF(prev, N, prev); OFF(color, N, color); OFF(data, N, data); K(size, sizeof(N));
K(second, __builtin_offsetof(P, second)); K(first, __builtin_offsetof(P, first)); K(pairsz, sizeof(P));
OFF(root, B, root); OFF(numNodes, B, numNodes); OFF(malloc, B, malloc); K(treesz, sizeof(B)); K(mapsz, sizeof(M)); OFF(tree, M, tree);
extern "C" {
Opq * m_index(M & m, const Opq & k) { return &m[k]; }
Opq * m_indexL(M & m, Opq & k) { return &m[k]; }
Opq * m_insertL(M & m, Opq & k, Opq & v) { return &m.insert(k, v); }
Opq * m_indexR(M & m, Opq & k) { return &m[move(k)]; }
Opq * m_insert(M & m, const Opq & k, const Opq & v) { return &m.insert(k, v); }
const N * m_findC(const M & m, const Opq & k) { return m.find(k).node; }
N * m_find(M & m, const Opq & k) { return m.find(k).node; }
bool m_findV(const M & m, const Opq & k, Opq & v) { return m.find(k, v); }
bool m_has(const M & m, const Opq & k) { return m.has(k); }
N * m_removeIt(M & m, N * n) { return m.remove(B::Iterator{n}).node; }
bool m_remove(M & m, const Opq & k) { return m.remove(k); }
bool m_pop(M & m, const Opq & k, Opq & v) { return m.pop(k, v); }
N * m_begin(M & m) { return m.begin().node; }
const N * m_beginC(const M & m) { return m.begin().node; }
N * m_end(M & m) { return m.end().node; }
const N * m_endC(const M & m) { return m.end().node; }
N * m_beginK(M & m, const Opq & k) { return m.begin(k).node; }
const N * m_beginKC(const M & m, const Opq & k) { return m.begin(k).node; }
N * m_endK(M & m, const Opq & k) { return m.end(k).node; }
const N * m_endKC(const M & m, const Opq & k) { return m.end(k).node; }
uint64 m_count(const M & m) { return m.getCount(); }
uint64 m_size(const M & m) { return m.getSize(); }
uint64 m_num(const M & m) { return m.getNumNodes(); }
void m_ctor(M * m, MallocBase * b) { new (m) M{b}; }
// pairs
bool p_eq(const P & a, const P & b) { return a == b; }
bool p_ne(const P & a, const P & b) { return a != b; }
bool p_lt(const P & a, const P & b) { return a < b; }
bool p_gt(const P & a, const P & b) { return a > b; }
bool p_le(const P & a, const P & b) { return a <= b; }
bool p_ge(const P & a, const P & b) { return a >= b; }
int p_cmp(const P & a, const P & b) { return P::FindPair{}(a, b); }
int p_cmpK(const P & a, const Opq & b) { return P::FindPair{}(a, b); }
int p_cmpK2(const Opq & a, const P & b) { return P::FindPair{}(a, b); }
void p_ctor(P * p, const Opq & k, const Opq & v) { new (p) P{k, v}; }
void p_ctorL(P * p, Opq & k, Opq & v) { new (p) P{k, v}; }
void p_ctorR(P * p, Opq & k, Opq & v) { new (p) P{move(k), move(v)}; }
const Opq * p_key(const P & p) { return &p.getKey(); }
Opq * p_val(P & p) { return &p.getVal(); }
const Opq * p_valC(const P & p) { return &p.getVal(); }
}
