PRE = r'''
#include "containers/list.h"
#include <cstdio>
static long live;
struct E { int v; E(int x) : v{x} { ++live; } E(const E & o) : v{o.v} { ++live; } E(E && o) : v{o.v} { o.v = -1; ++live; }
	E & operator=(const E &) = default; ~E() { --live; } };
template<typename L> static bool sound(L & l, unsigned n)
{
	unsigned k = 0; auto p = l.getHead(); decltype(p) q = nullptr;
	for (; p; q = p, p = p->next, ++k) if (p->prev != q) return false;
	return q == l.getTail() && k == n && l.getLength() == n;
}
'''
F = "containers/list.h"
SEEDS = [
 dict(id="L01-a", property="L01", pre=PRE, needs="assigning a shorter list to a longer one and then using the tail",
      breaks="after copy assignment of a shorter list the last kept link still points at a released link",
      edits=[(F, "			// Ensure tail is valid\n			if (tail) tail->next = nullptr;\n", "			// Ensure tail is valid\n			if (tail && !jt) tail = tail;\n")],
      demo="	List<E> a; a.pushBack(E{1}); a.pushBack(E{2}); a.pushBack(E{3});\n	List<E> b; b.pushBack(E{7});\n	a = b;\n	if (a.getTail()->next != nullptr) return 1;"),
 dict(id="L01-b", property="L01", pre=PRE, needs="popping the front of a list of two or more and walking backwards",
      breaks="the new head keeps a back link to the released link",
      edits=[(F, "				(head = head->next)->prev = nullptr;", "				head = head->next;")],
      demo="	List<E> a; a.pushBack(E{1}); a.pushBack(E{2}); a.pushBack(E{3});\n	a.removeFront();\n	if (a.getHead()->prev != nullptr) return 1;"),
 dict(id="L01-c", property="L01", pre=PRE, needs="an element type with a destructor, and a list that is moved into",
      breaks="move assignment drops the old links without destroying them",
      edits=[(F, "		// Remove all\n		empty();\n", "		// Remove all\n		head = tail = nullptr;\n")],
      demo="	{ List<E> a; a.pushBack(E{1}); a.pushBack(E{2}); List<E> b; b.pushBack(E{7}); a = move(b); }\n	if (live) return 1;"),
 dict(id="L01-d", property="L01", pre=PRE, needs="inserting in front of a non-empty list and walking backwards",
      breaks="the old head's back link is not set by pushFront",
      edits=[(F, "			head->prev = link;\n", "			if (head == tail) head->prev = link;\n")],
      demo="	List<E> a; a.pushFront(E{1}); a.pushFront(E{2}); a.pushFront(E{3});\n	if (!sound(a, 3)) return 1;"),
]
