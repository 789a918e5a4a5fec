PRE = r"""
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include "containers/list.h"
#include "containers/array.h"
#include "containers/map.h"
#include "containers/set.h"
#include "containers/string.h"
#include "templates/optional.h"
#include "templates/atomic.h"
#include "templates/function.h"
#include "math/math.h"
#include "math/mat4.h"
#include "algorithm/sort.h"
struct D { static int live; int v; D(int x = 0) : v(x) { ++live; } D(const D & o) : v(o.v) { ++live; } D & operator=(const D & o) { v = o.v; return *this; } ~D() { --live; } };
int D::live = 0;
static void limit() { alarm(20); }
"""
C = "containers/"
RPRE = r"""
#include <cstdio>
#include <unistd.h>
#include "regex/regex.h"
static void limit() { alarm(20); }
"""
SEEDS = [
 dict(id="S01-f", property="S01", pre=PRE, needs="a subset whose largest element is also the largest of the other set, which has a smaller extra element",
      breaks="a strict subset is only noticed when the other set goes on behind it",
      edits=[(C + "set.h", "		return !it && (!eq || jt);", "		return !it && jt;")],
      demo="	Set<int> a, b; a.set(1); a.set(5); b.set(1); b.set(3); b.set(5); if (!(a < b) || b < a || a < a) return 1; b.set(7); if (!(a < b)) return 1;"),
 dict(id="S01-g", property="S01", pre=PRE, needs="sets of which one begins with all elements of the other, the longer one on the right",
      breaks="a set equals every set that goes on behind its elements",
      edits=[(C + "set.h", "		return !it && !jt;", "		return !it;")],
      demo="	Set<int> a, b; a.set(1); a.set(2); b.set(1); b.set(2); if (!(a == b)) return 1; b.set(3); if (a == b || b == a) return 1;"),
 dict(id="V01-e", property="V01", pre=PRE, needs="an optional that holds a value constructs another one in place",
      breaks="the previous value is not destroyed",
      edits=[("templates/optional.h", "		// Destroy previous object\n		reset();\n\n		engaged = true;", "		// Destroy previous object\n		if (!engaged) reset();\n\n		engaged = true;")],
      demo="	{ Optional<D> a{1}; a.emplace(7); if ((*a).v != 7 || D::live != 1) return 1; } if (D::live) return 1;"),
 dict(id="Q01-d", property="Q01", pre=PRE, needs="a range of three or more whose first element is the largest",
      breaks="the pivot stays at the front when all elements are smaller than it",
      edits=[("algorithm/sort.h", "		// Swap pivot\n		swap(*begin, *p);", "		// Swap pivot\n		if (j != end) swap(*begin, *p);")],
      demo="	int a[5] = {9, 3, 5, 1, 4}; Sort::quicksort(a, a + 5, [](int x, int y) { return x - y; }); for (int i = 1; i < 5; ++i) if (a[i - 1] > a[i]) return 1;"),
 dict(id="Q01-e", property="Q01", pre=PRE, needs="a range of exactly two elements in the wrong order with arguments",
      breaks="the arguments of a pair keep their place",
      edits=[("algorithm/sort.h", "			if (cmp(*begin, *(++j)) > 0) swap(*begin, *j), swap(*args, *(++y));", "			if (cmp(*begin, *(++j)) > 0) swap(*begin, *j), swap(*args, *y);")],
      demo="	int a[2] = {9, 3}, b[2] = {0, 1}; Sort::argquicksort(a, a + 2, b, [](int x, int y) { return x - y; }); if (a[0] != 3 || b[0] != 1 || b[1] != 0) return 1;"),
 dict(id="R02-j", property="R02", pre=PRE, needs="the letter z is turned into upper case",
      breaks="the last letter of the alphabet is not converted",
      edits=[(C + "string.h", "			if (upper[idx] >= 'a' && upper[idx] <= 'z') upper[idx]", "			if (upper[idx] >= 'a' && upper[idx] < 'z') upper[idx]")],
      demo="	String s{\"xyzXYZ{`\"}; if (strcmp(*s.toUpper(), \"XYZXYZ{`\") || strcmp(*s.toLower(), \"xyzxyz{`\")) return 1;"),
]
