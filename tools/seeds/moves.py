PRE = r"""
#include <cstdio>
#include "containers/list.h"
#include "containers/array.h"
#include "containers/map.h"
#include "containers/set.h"
#include "templates/optional.h"
#include "templates/function.h"
static int copies = 0;
struct V { int v; V(int x = 0) : v{x} {} V(const V & o) : v{o.v} { ++copies; } V(V && o) : v{o.v} { o.v = -1; } V & operator=(const V & o) { v = o.v; ++copies; return *this; } V & operator=(V && o) { int t = o.v; o.v = -1; v = t; return *this; } };
struct By { int operator()(const V & a, const V & b) const { return a.v - b.v; } };
"""
C = "containers/"
SEEDS = [
 dict(id="G01-a", property="G01", pre=PRE, needs="a moved object that replaces an element that is already in the tree, and is not moved when the key is new",
      breaks="the replacing element is copied although the caller gave it up",
      edits=[(C + "tree.h", "					return (it->data = forward<DataT>(data));", "					return (it->data = data);")],
      demo="	BinaryTree<V, By> t; V a{1}, b{1}, c{2}; t.replace(move(a)); t.replace(move(c)); if (copies) return 1; t.replace(move(b)); if (copies || b.v != -1 || t.getNumNodes() != 2) return 1;"),
 dict(id="G01-b", property="G01", pre=PRE, needs="a map insertion whose value is given up by the caller",
      breaks="the value is copied into the map",
      edits=[(C + "map.h", "forward<ValAnyT>(val)}).second", "val}).second")],
      demo="	Map<int, V> m; V a{1}; m.insert(3, move(a)); if (copies || a.v != -1) return 1;"),
 dict(id="G01-c", property="G01", pre=PRE, needs="several items inserted at once, of which one behind the first is given up",
      breaks="all items but the first are copied",
      edits=[(C + "array.h", "		insertNoResize(idx + 1, forward<ItemListT>(items) ...);", "		insertNoResize(idx + 1, items ...);")],
      demo="	Array<V> a(8, 0); V x{1}, y{2}, z{3}; copies = 0; a.insertLast(move(x), move(y), z); if (copies != 1 || x.v != -1 || y.v != -1 || z.v != 3 || a[1].v != 2 || a[2].v != 3) return 1;"),
 dict(id="G01-d", property="G01", pre=PRE, needs="a callable that takes an argument by value, called through a Function",
      breaks="the argument is copied on its way to the callable",
      edits=[("templates/function.h", "		return invoke(*(FunctorT*)fn, forward<Args>(args)...);", "		return invoke(*(FunctorT*)fn, args...);")],
      demo="	Function<int(V)> f{[](V v) { return v.v; }}; V a{4}; if (f(move(a)) != 4 || copies) return 1;"),
 dict(id="G01-e", property="G01", pre=PRE, needs="an optional that already holds a value and is assigned a given-up one",
      breaks="the value is copied over the old one",
      edits=[("templates/optional.h", "			storage.value = move(inValue);", "			storage.value = inValue;")],
      demo="	Optional<V> o; V a{1}, b{2}; o = move(a); if (copies) return 1; o = move(b); if (copies || b.v != -1 || (*o).v != 2) return 1;"),
 dict(id="G01-f", property="G01", pre=PRE, needs="the first element is taken out of a list",
      breaks="the element is copied out of the link that is released right afterwards",
      edits=[(C + "list.h", "			outData = move(head->data);", "			outData = head->data;")],
      demo="	List<V> l; l.pushBack(V{1}, V{2}); V o; if (!l.popFront(o) || o.v != 1 || copies) return 1;"),
]
