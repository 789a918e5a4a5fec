M = "generic/generic_platform_memory.h"
PRE = r"""
#include <cstdio>
#include "hal/platform_memory.h"
#include "containers/array.h"
static int n = 0;
struct A { int v; A() = default; A(const A &) = default; A & operator=(const A & o) { v = o.v; ++n; return *this; } };
struct X { int v; X() = default; X(const X &) = default; X & operator=(const X &) = default; ~X() { ++n; } };
struct M { int v; M() = default; M(const M &) = default; M(M &&) = default; M & operator=(const M &) = default; M & operator=(M && o) { v = o.v; o.v = -1; ++n; return *this; } };
"""
SEEDS = [
 dict(id="A02-d", property="A02", pre=PRE, needs="moving elements to a higher address of a type whose copies are trivial but whose move assignment does something",
      breaks="the elements are moved as bytes when their destruction is trivial",
      edits=[(M, "	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<TT>::value>::Type moveElements(", "	static FORCE_INLINE typename EnableIf<!IsTriviallyDestructible<TT>::value>::Type moveElements("),
             (M, "	static FORCE_INLINE typename EnableIf<IsTriviallyCopyable<TT>::value>::Type moveElements(", "	static FORCE_INLINE typename EnableIf<IsTriviallyDestructible<TT>::value>::Type moveElements(")],
      demo="	M a[3]; a[0].v = 1; a[1].v = 2; a[2].v = 3; Memory::moveElements(a + 1, a, 2); if (n != 2 || a[0].v != -1 || a[1].v != 1 || a[2].v != 2) return 1;"),
 dict(id="A02-e", property="A02", pre=PRE, needs="elements with a destructor of their own whose construction is trivial",
      breaks="their destructor is not called",
      edits=[(M, "	static FORCE_INLINE typename EnableIf<!IsTriviallyDestructible<T>::value>::Type destroyElements(", "	static FORCE_INLINE typename EnableIf<!IsPOD<T>::value && !IsTriviallyAssignable<T>::value>::Type destroyElements("),
             (M, "	static FORCE_INLINE typename EnableIf<IsTriviallyDestructible<T>::value>::Type destroyElements(", "	static FORCE_INLINE typename EnableIf<IsPOD<T>::value || IsTriviallyAssignable<T>::value>::Type destroyElements(")],
      demo="	{ Array<X> a(2ull); X x; a.add(x); a.add(x); n = 0; } if (n < 2) return 1;"),
]
