PRE = r"""
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include "containers/list.h"
#include "containers/array.h"
#include "containers/map.h"
#include "containers/set.h"
#include "containers/string.h"
struct M : MallocBase { int live = 0; void * alloc(sizet n, sizet) override { ++live; return ::malloc(n); } void * realloc(void * p, sizet n, sizet) override { if (!p) ++live; return ::realloc(p, n); } void free(void * p) override { if (p) --live; ::free(p); } };
static void limit() { alarm(20); }
"""
C = "containers/"
SEEDS = [
 dict(id="L01-e", property="L01", pre=PRE, needs="copy assignment of a list that is longer than the target, which is not empty",
      breaks="of two or more surplus elements the last is lost",
      edits=[(C + "list.h", "				pushBack(jt->data);\n				jt = jt->next;", "				pushBack(jt->data);\n				jt = jt->next == other.tail ? nullptr : jt->next;")],
      demo="	limit(); List<int> a, b; a.pushBack(9); b.pushBack(1, 2); b.pushBack(3); b.pushBack(4); a = b; int k = 0; for (auto i : a) if (i != ++k || k > 4) return 1; if (k != 4 || a.getLength() != 4) return 1;"),
 dict(id="A01-h", property="A01", pre=PRE, needs="a reset of an array that holds no element but has storage",
      breaks="the storage is kept",
      edits=[(C + "array.h", "		// Empty array\n		empty();\n\n		// Deallocate storage\n		if (buffer)", "		// Empty array\n		const bool any = count > 0;\n		empty();\n\n		// Deallocate storage\n		if (buffer && any)")],
      demo="	M m; { Array<int, void> a{&m}; a.insertLast(1); a.reset(); if (m.live) return 1; a.insertLast(2); a.removeLast(); a.reset(); if (m.live) return 1; a.insertLast(3); if (a[0] != 3 || a.getCount() != 1) return 1; } if (m.live) return 1;"),
 dict(id="S01-e", property="S01", pre=PRE, needs="a set from which another is taken away that holds an element smaller than all of its own and one of its own",
      breaks="the subtraction stops at the first element that only the other set holds",
      edits=[]),
 dict(id="R01-f", property="R01", pre=PRE, needs="an array of one element is printed",
      breaks="the only element is printed twice",
      edits=[(C + "string.h", "	for (uint64 idx = 0; idx < count - 1; ++idx)\n	{\n		out += buffer[idx];", "	for (uint64 idx = 0; idx < (count > 2 ? count - 1 : 1); ++idx)\n	{\n		out += buffer[idx];")],
      demo="	Array<char> a; a.add('x'); if (strcmp(*a.toString(), \"[x]\")) return 1; a.add('y'); a.add('z'); if (strcmp(*a.toString(), \"[x, y, z]\")) return 1;"),
 dict(id="R01-g", property="R01", pre=PRE, needs="a list of which an element follows another is printed, with an element that equals no other",
      breaks="the last element is left out of the printed list when there is more than one",
      edits=[(C + "list.h", "		return out + tail->data + \" ]\";", "		return out + (head->next ? head->next->data : head->data) + \" ]\";")],
      demo="	List<char> a; a.pushBack('x', 'y'); if (strcmp(*a.toString(), \"[ x-> y ]\")) return 1; a.pushBack('z'); if (strcmp(*a.toString(), \"[ x-> y-> z ]\")) return 1;"),
 dict(id="R02-i", property="R02", pre=PRE, needs="a pattern that is longer than what is left behind the start and shorter than the string",
      breaks="the search starts although the pattern does not fit",
      edits=[]),
 dict(id="M01-e", property="M01", pre=PRE, needs="a key that is smaller than the root's and for which the left side is taken two levels down",
      breaks="", edits=[]),
]
SEEDS = [s for s in SEEDS if s["edits"]]
