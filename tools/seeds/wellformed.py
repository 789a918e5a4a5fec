AR = "containers/array.h"
OP = "templates/optional.h"
AS = "misc/assert.h"
MP = "containers/map.h"
SEEDS = [
 dict(id="X02-a", property="X02", pre='#include <cstdio>\n#include "containers/array.h"\n', needs="chaining the compound operator of an array iterator",
      breaks="the iterator is returned by value, so that chained steps are lost",
      edits=[(AR, "	FORCE_INLINE ArrayIteratorBase & operator+=(uint64 n)", "	FORCE_INLINE ArrayIteratorBase operator+=(uint64 n)")],
      demo="	Array<int> a(8ull); for (int i = 0; i < 8; ++i) a.add(i); auto it = a.begin(); (it += 2) += 3; if (*it != 5) return 1;"),
 dict(id="X02-b", property="X02", flags="-UBUILD_DEBUG -DBUILD_RELEASE=1", pre='#include <cstdio>\n#include "core_types.h"\n#include "misc/assert.h"\nstatic int f(int x) { if (x) { CHECKF(x > 1, "%d", x) } return x; }\n', needs="a release build that uses the formatted check",
      breaks="in release builds the formatted check with arguments does not expand to nothing",
      edits=[(AS, "	#define CHECKF(expr, format, ...)\n#else", "	#define CHECKF(expr, format)\n#else")],
      demo="	if (f(0) != 0) return 1;"),
 dict(id="X02-c", property="X02", flags="-O2", pre='#include <cstdio>\n#include "templates/optional.h"\n', needs="assigning a temporary to an engaged optional that is not tested with temporaries and going on in the same expression",
      breaks="the engaged branch leaves the function without a value",
      edits=[(OP, "			storage.value = inValue;\n		}\n		else\n		{\n			// Copy construct value\n			emplace(inValue);\n		}\n\n		return *this;", "			storage.value = inValue;\n			return *this;\n		}\n\n		// Copy construct value\n		emplace(inValue);")],
      demo="	static int n; Optional<long> a; const long v = 3; Optional<long> & r = (a = v); if (&r != &a || *r != 3) return 1;"),
 dict(id="X02-d", property="X02", pre='#include <cstdio>\n#include "containers/map.h"\n#include "containers/string.h"\n', needs="looking up a value in a const map of any element type",
      breaks="the const lookup of a value does not compile once it is used",
      edits=[(MP, "		const auto * node = tree.findNode(key);", "		auto * node = const_cast<Map *>(tree).findNode(key);")],
      demo="	Map<int, int> m; m.insert(3, 4); const auto & c = m; int v = 0; if (!c.find(3, v) || v != 4) return 1;"),
]
