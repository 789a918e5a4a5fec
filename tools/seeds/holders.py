PRE = r"""
#include <cstdio>
#include "containers/tuple.h"
#include "containers/pair.h"
#include "templates/array.h"
#include "templates/name.h"
static int copies = 0;
struct V { int v; V(int x = 0) : v{x} {} V(const V & o) : v{o.v} { ++copies; } V(V && o) : v{o.v} { o.v = -1; } V & operator=(const V & o) { v = o.v; ++copies; return *this; } V & operator=(V && o) { int t = o.v; o.v = -1; v = t; return *this; } };
struct By { int operator()(const V & a, const V & b) const { return a.v - b.v; } };
constexpr Name nA = "abc", nB = "de";
"""
T = "containers/tuple.h"
P = "containers/pair.h"
A = "templates/array.h"
N = "templates/name.h"
U = "templates/utility.h"
SEEDS = [
 dict(id="V03-a", property="V03", pre=PRE, needs="a tuple whose last item is given as a temporary or moved object",
      breaks="the last item is copied although the caller gave it up",
      edits=[(T, "		: item{forward<ItemT>(inItem)}", "		: item{static_cast<const HeadT&>(inItem)}")],
      demo="	V a{3}, b{4}; Tuple<int, V> t{1, move(a)}; if (t.get<1>().v != 3 || a.v != -1 || copies != 0) return 1; Tuple<V> u{move(b)}; if (copies != 0 || u.get<0>().v != 4) return 1;"),
 dict(id="V03-b", property="V03", pre=PRE, needs="a pair made from an object that the caller keeps",
      breaks="the caller's key is moved from",
      edits=[(P, "		: first{forward<KeyT>(key)}", "		: first{move(key)}")],
      demo="	V k{3}, v{4}; Pair<V, V, By> p{k, v}; if (k.v != 3 || v.v != 4 || p.first.v != 3 || p.second.v != 4) return 1; const V c{5}; Pair<V, V, By> q{c, V{6}}; if (q.first.v != 5 || q.second.v != 6) return 1;"),
 dict(id="V03-c", property="V03", pre=PRE, needs="joining names of which one is not the first or last and the joined text is used beyond the first name",
      breaks="a name that follows overwrites the last character of the one before it",
      edits=[(N, "				buffer[i++] = name[idx];\n			}\n", "				buffer[i++] = name[idx];\n			}\n			if (i > 4) --i;\n")],
      demo="	constexpr Name n = JOIN_NAME(nA, nB, nA, nB); const char * w = \"abcdeabcde\"; if (n.getLength() != 10) return 1; for (int i = 0; i <= 10; ++i) if ((*n)[i] != w[i]) return 1; constexpr Name m = JOIN_NAME(nA); if ((*m)[2] != 'c') return 1;"),
 dict(id="V03-d", property="V03", pre=PRE, needs="exchanging two objects that know how to move",
      breaks="one of the values is copied, which a type that cannot be copied does not survive and a moved-from one exposes",
      edits=[(U, "	T t{move(a)}; a = move(b), b = move(t);", "	T t{a}; a = b, b = t;")],
      demo="	V a{3}, b{4}; swap(a, b); if (a.v != 4 || b.v != 3 || copies != 0) return 1;"),
]
