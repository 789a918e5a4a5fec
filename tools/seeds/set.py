
PRE = r"""
#include "containers/set.h"
#include "containers/map.h"
#include <cstdio>
using S = Set<int, ThreeWayCompare, void>;
template<typename... T> static S mk(T... t) { S s; (s.set(t), ...); return s; }
static S of(int mask) { S s; for (int i = 0; i < 6; ++i) if (mask >> i & 1) s.set(i); return s; }
static int mask(S & s) { int m = 0, n = 0; for (auto it = s.begin(); it != s.end(); ++it) { m |= 1 << *it; ++n; } return (unsigned)n == s.getSize() ? m : -1; }
struct V { int v = 7; V() = default; V(int x) : v{x} {} };
using M = Map<int, V, ThreeWayCompare, void>;
"""
F = "containers/set.h"
G = "containers/map.h"
SEEDS = [
 dict(id="S01-b", property="S01", pre=PRE, needs="an intersection in which the other set runs out while several own elements are left",
      breaks="elements that are not common stay in the intersection",
      edits=[(F, "		while (it) it = tree.removeNode(it);", "		if (it && !jt) it = tree.removeNode(it);")],
      demo="	for (int x = 0; x < 64; ++x) for (int y = 0; y < 64; ++y) { S a = of(x), b = of(y); a *= b; if (mask(a) != (x & y) || mask(b) != y) return 1; }"),
 dict(id="S01-c", property="S01", pre=PRE, needs="a union in which both sets have elements left after a common element",
      breaks="the element after a common one is skipped in the other set",
      edits=[(F, "				// Set item and advance to next node\n				set(jt->data);\n				jt = jt->next;", "				// Set item and advance to next node\n				set(jt->data);\n				if ((jt = jt->next) && !jt->next && CompareT{}(it->data, jt->data) > 0) jt = jt->next;")],
      demo="	for (int x = 0; x < 64; ++x) for (int y = 0; y < 64; ++y) { S a = of(x), b = of(y); a += b; if (mask(a) != (x | y) || mask(b) != y) return 1; }"),
 dict(id="S01-d", property="S01", pre=PRE, needs="subtracting a set from itself",
      breaks="elements are looked at after they were removed",
      edits=[(F, "		if (cmp < 0)\n			{\n				// Not in other set, advance node and remove", "		if (cmp < 0 || (it == jt && it->next))\n			{\n				// Not in other set, advance node and remove")],
      demo="	for (int x = 0; x < 64; ++x) { S a = of(x); a *= a; if (mask(a) != x) return 1; }"),
 dict(id="S02-a", property="S02", pre=PRE, needs="asking for four or more keys of which a single one is missing",
      breaks="a missing key is not noticed",
      edits=[(F, "		return (get(keys) && ... && true);", "		uint64 n = 0; ((n += get(keys)), ...); return n >= (sizeof...(keys) > 3 ? sizeof...(keys) - 1 : sizeof...(keys));")],
      demo="	S a = mk(1, 3, 5);\n	if (!a.all(1, 3, 5) || a.all(1, 2, 3, 5) || a.all(1, 2, 5) || a.all(2, 1, 5) || a.all(1, 3, 2) || !a.all(3)) return 1;"),
 dict(id="S02-b", property="S02", pre=PRE, needs="removing the greatest element with an output variable",
      breaks="the removal happens but is reported as a miss",
      edits=[(F, "			return tree.removeNode(node), true;", "			return tree.removeNode(node) != nullptr;")],
      demo="	S a = mk(4, 5); int o = 9;\n	if (!a.remove(4, o) || o != 4 || !a.remove(5, o) || o != 5 || a.getSize() != 0) return 1;"),
 dict(id="S02-c", property="S02", pre=PRE, needs="a look-up with an output variable on a const set",
      breaks="the output variable is set from the key instead of the stored element",
      edits=[(F, "			outValue = node->data;\n			return true;", "			outValue = key;\n			return true;", 0)],
      demo="	struct K { int a, b; bool operator<(const K & o) const { return a < o.a; } bool operator>(const K & o) const { return a > o.a; } };\n	Set<K, ThreeWayCompare, void> s; s.set(K{1, 2}); const auto & c = s; K o{0, 0};\n	if (!c.get(K{1, 9}, o) || o.b != 2) return 1;"),
 dict(id="M01-a", property="M01", pre=PRE, needs="indexing a new key whose insertion rotates the top of the tree",
      breaks="the map keeps a root that is no longer on top and loses keys",
      edits=[(G, "			tree.root = tree.root->getRoot();\n\n			return node->data.second;", "			if (prev->parent == tree.root) tree.root = tree.root->getRoot();\n\n			return node->data.second;")],
      demo="	M m; for (int i = 0; i < 64; ++i) m[i].v = i;\n	for (int i = 0; i < 64; ++i) if (!m.has(i) || m[i].v != i) return 1;\n	if (m.getSize() != 64) return 2;"),
 dict(id="M01-b", property="M01", pre=PRE, needs="inserting a value under a key that already exists",
      breaks="the old value stays",
      edits=[(G, "		return tree.replace(PairT{forward<KeyAnyT>(key), forward<ValAnyT>(val)}).second;", "		return (getSize() > 1 ? tree.insertUnique(PairT{forward<KeyAnyT>(key), forward<ValAnyT>(val)}) : tree.replace(PairT{forward<KeyAnyT>(key), forward<ValAnyT>(val)})).second;")],
      demo="	M m; m.insert(1, V{1}); m.insert(2, V{2}); m.insert(1, V{3});\n	if (m[1].v != 3 || m.getSize() != 2) return 1;"),
 dict(id="M01-c", property="M01", pre=PRE, needs="popping the key of an inner node with two children",
      breaks="the value of a neighbouring key is handed out",
      edits=[(G, "		// Copy out value\n		outVal = move(node->data.second);\n", "		// Copy out value\n		outVal = move((node->left && node->right && node->next->right ? node->next : node)->data.second);\n")],
      demo="	for (int r = 1; r < 64; r += 2) { M m; for (int i = 0; i < 64; ++i) m[i * r % 64].v = i * r % 64;\n	for (int i = 63; i >= 0; --i) { int k = (i * 7) % 64; V o; if (!m.pop(k, o) || o.v != k || m.has(k)) return 1; } }"),
 dict(id="M01-d", property="M01", pre=PRE, needs="comparing pairs with equal keys by less-or-equal",
      breaks="less-or-equal is strict for equal keys",
      edits=[("containers/pair.h", "		return !(*this > other);", "		return *this < other;")],
      demo="	using P = Pair<int, int, ThreeWayCompare>; P a{1, 2}, b{1, 3};\n	if (!(a <= b) || !(b <= a) || !(a == b) || a != b) return 1;"),
]
