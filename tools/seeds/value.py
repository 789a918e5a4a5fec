PRE = r"""
#include <cstdio>
#include "templates/optional.h"
#include "templates/function.h"
#include "templates/atomic.h"
#include <pthread.h>
static int live = 0;
struct V { int v; V(int x = 0) : v{x} { ++live; } V(const V & o) : v{o.v} { ++live; } V(V && o) : v{o.v} { o.v = -1; ++live; }
	V & operator=(const V & o) { v = o.v; return *this; } V & operator=(V && o) { v = o.v; if (&o != this) o.v = -1; return *this; } ~V() { --live; } };
using O = Optional<V>;
"""
O = "templates/optional.h"
F = "templates/function.h"
A = "templates/atomic.h"
U = "unix/unix_platform_atomics.h"
Y = "templates/types.h"
SEEDS = [
 dict(id="V01-a", property="V01", pre=PRE, needs="moving an empty optional into one that holds a value",
      breaks="the old value stays instead of being reset",
      edits=[(O, "		else if (!other.engaged && this->engaged)\n		{\n			// Reset storage\n			reset();\n		}\n\n		return *this;\n	}\n\n	/**\n	 * Destructor.", "		return *this;\n	}\n\n	/**\n	 * Destructor.")],
      demo="	O a{V{3}}, b; a = move(b); if (a.hasValue() || b.hasValue()) return 1; O c, d{V{4}}; c = move(d); if (!c.hasValue() || c->v != 4) return 1;"),
 dict(id="V01-b", property="V01", pre=PRE, needs="assigning a const value to an optional that already holds one",
      breaks="the caller's value is moved from",
      edits=[(O, "			storage.value = inValue;", "			storage.value = move(const_cast<T&>(inValue));")],
      demo="	O a{V{3}}; const V v{5}; a = v; if (a->v != 5 || v.v != 5) return 1; O b; b = v; if (b->v != 5 || v.v != 5) return 1;"),
 dict(id="V01-c", property="V01", pre=PRE, needs="copying a full optional into an empty one of a type that counts its instances",
      breaks="the new value is constructed but the optional does not know it holds one",
      edits=[(O, "			// Copy construct object\n			emplace(*other);", "			// Copy construct object\n			new (&storage.value) T{*other};\n			engaged = IsTriviallyDestructible<T>::value || !&other.storage.value;")],
      demo="	{ const O b{V{5}}; O a; a = b; if (!a.hasValue() || a->v != 5) return 1; } if (live != 0) return 1; { Optional<int> a, b{3}; const auto & c = b; a = c; if (!a || *a != 3) return 1; }"),
 dict(id="V02-a", property="V02", pre=PRE, needs="a callable with state that is called more than once",
      breaks="each call works on a fresh copy, so state set by an earlier call is lost",
      edits=[(F, "		return invoke(*(FunctorT*)fn, forward<Args>(args)...);", "		FunctorT callee{*(FunctorT*)fn};\n		return invoke(callee, forward<Args>(args)...);")],
      demo="	struct Acc { int s; int operator()(int a) { return s += a; } }; Function<int(int)> f{Acc{0}}; f(2); if (f(3) != 5) return 1; Function<int(int)> g{f}; if (g(1) != 6 || f(1) != 6) return 1;"),
 dict(id="V02-b", property="V02", pre=PRE, needs="a function whose callable owns something that its destructor gives back",
      breaks="the memory is released without destroying the callable",
      edits=[(F, "		this->~FunctionOwnedObjectHeap();\n", "")],
      demo="	{ V v{3}; Function<int()> f{[v]() { return v.v; }}; if (f() != 3) return 1; Function<int()> g{f}; if (g() != 3) return 1; } if (live) return 1;"),
 dict(id="V02-c", property="V02", pre=PRE, needs="moving a function away and then destroying both",
      breaks="the emptied function still says it is callable",
      edits=[(F, "		: callable{other.callable}\n		, storage{move(other.storage)}\n	{\n		other.callable = nullptr;", "		: callable{other.callable}\n		, storage{move(other.storage)}\n	{\n		if (!storage.heap) other.callable = nullptr;")],
      demo="	Function<int()> * f = new Function<int()>{[]() { return 4; }}; Function<int()> g{move(*f)}; if (g() != 4) return 1; if (*f) return 1; delete f;"),
 dict(id="V02-d", property="V02", pre=PRE, needs="an lvalue callable that is still used after the function was made from it",
      breaks="the caller's callable is moved from",
      edits=[(F, "		: object{forward<Args>(args)...}", "		: object{move(args)...}")],
      demo="	struct C { V v; int operator()() const { return v.v; } }; C c{V{7}}; Function<int()> f{c}; if (f() != 7 || c.v.v != 7) return 1;"),
 dict(id="C01-a", property="C01", pre=PRE + "static Atomic<unsigned> n{0u}; static unsigned char seen[800000]; static int dup = 0;\nstatic void * run(void *) { for (int i = 0; i < 200000; ++i) { unsigned k = ++n; if (__atomic_exchange_n(&seen[k - 1], 1, __ATOMIC_RELAXED)) __atomic_store_n(&dup, 1, __ATOMIC_RELAXED); } return 0; }\n",
      needs="two threads incrementing at the same time", breaks="pre-increment returns a value read after the increment, which two threads can share",
      edits=[(A, "		return PlatformAtomics::add(&this->value, 1) + 1;", "		PlatformAtomics::add(&this->value, 1);\n		return this->load();")],
      demo="	pthread_t t[4]; for (auto & x : t) pthread_create(&x, 0, run, 0); for (auto & x : t) pthread_join(x, 0); return dup;"),
 dict(id="C01-b", property="C01", pre=PRE + "static Atomic<unsigned long long> n{0ull};\nstatic void * run(void *) { for (int i = 0; i < 300000; ++i) n -= 1; return 0; }\n",
      needs="two threads subtracting at the same time", breaks="the subtraction reads and writes separately, so decrements are lost",
      edits=[(A, "		return PlatformAtomics::sub(&this->value, amount) - amount;", "		const AtomicT next = this->load() - amount;\n		this->store(next);\n		return next;")],
      demo="	pthread_t t[4]; for (auto & x : t) pthread_create(&x, 0, run, 0); for (auto & x : t) pthread_join(x, 0); return n.load() != 0ull - 1200000ull;"),
 dict(id="C01-c", property="C01", pre=PRE + "static int v = 0; static long sum[2];\nstatic void * run(void * p) { long s = 0; for (int i = 0; i < 400000; ++i) s += PlatformAtomics::exchange(&v, i & 1); *(long*)p = s; return 0; }\n",
      needs="two threads exchanging at the same time", breaks="exchange reads the old value and stores the new one in two steps",
      edits=[(U, "		return __sync_lock_test_and_set(value, other);", "		const AtomicT old = *value;\n		__sync_synchronize();\n		*value = other;\n		return old;")],
      demo="	for (int k = 0; k < 3; ++k) { v = 0; pthread_t a, b; pthread_create(&a, 0, run, &sum[0]); pthread_create(&b, 0, run, &sum[1]); pthread_join(a, 0); pthread_join(b, 0); if (sum[0] + sum[1] + v != 400000) return 1; }"),
 dict(id="X01-a", property="X01", pre=PRE, needs="a pointer that is both const and volatile", breaks="such a pointer is not stripped",
      edits=[(Y, "template<typename T> struct RemovePointer<T* const volatile>	{ using Type = T; };\n", "")],
      demo="	return !IsSameType<RemovePointer<int * const volatile>::Type, int>::value || !IsSameType<RemovePointer<int * const>::Type, int>::value;"),
 dict(id="X01-b", property="X01", pre=PRE, needs="a type whose destructor does something although the language still calls its copies trivial", breaks="it is reported as trivially destructible",
      edits=[(Y, "	enum {value = __has_trivial_destructor(T)};", "	enum {value = __has_trivial_copy(T) || __has_trivial_destructor(T)};")],
      demo="	struct C { int a; C(const C &) = default; ~C() { ++live; } }; struct D { int a; ~D() { ++live; } }; return IsTriviallyDestructible<C>::value || IsTriviallyDestructible<D>::value || !IsTriviallyDestructible<int>::value;"),
 dict(id="X01-c", property="X01", pre=PRE, needs="decaying a multi-dimensional array", breaks="all extents are removed instead of one",
      edits=[(Y, "template<typename T, sizet n>	struct RemoveArray<T[n]>	{ using Type = T; };", "template<typename T, sizet n>	struct RemoveArray<T[n]>	{ using Type = typename RemoveArray<T>::Type; };")],
      demo="	return !IsSameType<RemoveArray<int[2][3]>::Type, int[3]>::value || !IsSameType<RemoveArray<int[2]>::Type, int>::value;"),
]
