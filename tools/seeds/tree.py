PRE = r'''
#include "containers/tree.h"
#include <cstdio>
#include <vector>
static long live;
struct E { int v; E(int x) : v{x} { ++live; } E(const E & o) : v{o.v} { ++live; } E(E && o) : v{o.v} { o.v = -1; ++live; }
	E & operator=(const E &) = default; ~E() { --live; }
	bool operator==(const E & o) const { return v == o.v; } bool operator<(const E & o) const { return v < o.v; } bool operator>(const E & o) const { return v > o.v; } };
template<typename N> static int bh(N * n, bool & ok)
{
	if (!n) return 0;
	if (n->left && (n->left->parent != n)) ok = false;
	if (n->right && (n->right->parent != n)) ok = false;
	if (N::isRed(n) && (N::isRed(n->left) || N::isRed(n->right))) ok = false;
	int a = bh(n->left, ok), b = bh(n->right, ok);
	if (a != b) ok = false;
	return a + (N::isBlack(n) ? 1 : 0);
}
template<typename N> static void order(N * n, std::vector<N*> & v) { if (!n) return; order(n->left, v); v.push_back(n); order(n->right, v); }
template<typename B> static bool sound(B & t, unsigned n)
{
	auto * r = t.getRoot(); bool ok = true;
	if (!r) return n == 0 && t.getNumNodes() == 0;
	if (r->parent || r->isRed(r)) return false;
	bh(r, ok);
	std::vector<decltype(r)> v; order(r, v);
	if (v.size() != n || t.getNumNodes() != n) return false;
	for (unsigned i = 0; i < n; ++i)
		if (v[i]->prev != (i ? v[i - 1] : nullptr) || v[i]->next != (i + 1 < n ? v[i + 1] : nullptr)) return false;
	return ok;
}
using B = BinaryTree<int, ThreeWayCompare, void>;
using BE = BinaryTree<E, ThreeWayCompare, void>;
static unsigned rnd(unsigned & s) { s = s * 1103515245u + 12345u; return (s >> 16) & 0x7fff; }
'''
F = "containers/tree.h"
ALL = '''	unsigned s = 7; for (int r = 0; r < 200; ++r) { B t; int n = 0; int keys[40];
		for (int i = 0; i < 40; ++i) { keys[i] = rnd(s) % 100; t.insert(keys[i]); ++n; if (!sound(t, n)) return 1; }
		for (int i = 0; i < 40; ++i) { if (!t.remove(keys[i])) return 2; --n; if (!sound(t, n)) return 3; } }'''
SEEDS = [
 dict(id="T01-a", property="T01", pre=PRE, needs="a removal that reaches the last repair step on the right side below a red parent",
      breaks="the parent keeps its red colour when it moves down, next to a child that may be red",
      edits=[(F, "					parent->color			= BinaryNodeColor::BLACK;\n					sibling->left->color", "					parent->color			= sibling->left->left ? BinaryNodeColor::RED : BinaryNodeColor::BLACK;\n					sibling->left->color")], demo=ALL),
 dict(id="T01-b", property="T01", pre=PRE, needs="removing a node whose only child is its left one and walking backwards",
      breaks="the node after the removed one keeps a thread to the node that left",
      edits=[(F, "			if (((v = u->left)->next = u->next) != nullptr)\n				v->next->prev = v;", "			if (((v = u->left)->next = u->next) != nullptr && v->next != u->parent)\n				v->next->prev = v;")], demo=ALL),
 dict(id="T01-c", property="T01", pre=PRE, needs="an insertion whose red-uncle step moves up twice",
      breaks="repair stops below the root, leaving two red nodes in a row",
      edits=[(F, "				// Repair grand\n				repairInserted(grand);", "				// Repair grand\n				if (isBlack(grand->parent) || isBlack(grand->parent->parent->left)) repairInserted(grand);")], demo=ALL),
 dict(id="T02-a", property="T02", pre=PRE, needs="assigning a tree over another one that has nodes where the source has none",
      breaks="a pruned left subtree stays threaded: the copy's first node keeps a link to a released node",
      edits=[(F, "			dstRoot->left = nullptr;\n			dstRoot->prev = nullptr;", "			dstRoot->left = nullptr;")],
      demo="	B a, b; a.insert(2); a.insert(1); a.insert(3); b.insert(5); b.insert(6);\n	a = b;\n	if (!sound(a, 2)) return 1;"),
 dict(id="T02-b", property="T02", pre=PRE, needs="replacing an element that compares equal right after another element was inserted below a rotated root",
      breaks="the root pointer stays at a node that was rotated below another one",
      edits=[(F, "			NodeT * node = parent->insert(createNode(forward<DataT>(data)));\n			root = root->getRoot();\n\n			++numNodes;", "			NodeT * node = parent->insert(createNode(forward<DataT>(data)));\n			if (root->parent == parent) root = root->getRoot();\n\n			++numNodes;", 1)],
      demo="	B a; for (int i = 0; i < 20; ++i) { a.replace(i); if (!sound(a, i + 1)) return 1; }\n	for (int i = 0; i < 20; ++i) if (!a.findNode(i)) return 2;"),
 dict(id="T02-c", property="T02", pre=PRE, needs="walking a copied tree backwards",
      breaks="the successor of a copied node does not link back to it",
      edits=[(F, "			(dst->next = next)->prev = dst;", "			if (!(dst->next = next)->prev) next->prev = dst->left ? dst->prev : dst;")],
      demo="	B a; for (int i = 0; i < 9; ++i) a.insert(i);\n	B b{a};\n	if (!sound(b, 9)) return 1;"),
 dict(id="T03-a", property="T03", pre=PRE, needs="several equal elements and a range that ends at the last of them",
      breaks="the range of equal elements stops early or runs on",
      edits=[(F, "		} while (it && CompareT{}(key, it->data) == 0);		\n", "		} while (it && CompareT{}(key, it->data) > 0);		\n")],
      demo="	B a; a.insert(1); for (int i = 0; i < 5; ++i) a.insert(2); a.insert(3);\n	int n = 0; auto e = a.end(2); for (auto it = a.begin(2); it != e; ++it) { if (*it != 2) return 2; ++n; }\n	if (n != 5) return 1;"),
 dict(id="T03-b", property="T03", pre=PRE, needs="post-decrementing an iterator",
      breaks="post-decrement moves forward",
      edits=[(F, "		--(*this);\n		return it;", "		++(*this);\n		return it;")],
      demo="	B a; a.insert(1); a.insert(2); a.insert(3);\n	auto it = a.find(2); it--;\n	if (it != a.find(1)) return 1;"),
]
