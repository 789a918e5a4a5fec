PRE = r"""
#include "containers/array.h"
#include "containers/string.h"
#include "hal/malloc_ansi.h"
#include <cstdio>
#include <cstdlib>
#include <set>
static std::set<const void *> live; static int bad;
struct E { int v; E(int x = -1) : v{x} { reg(); } E(const E & o) : v{o.v} { chk(&o); reg(); } E(E && o) : v{o.v} { chk(&o); o.v = -2; reg(); }
 E & operator=(const E & o) { chk(this); chk(&o); v = o.v; return *this; } E & operator=(E && o) { chk(this); chk(&o); v = o.v; if (&o != this) o.v = -2; return *this; } ~E() { if (!live.erase(this)) bad |= 2; }
 void reg() { if (!live.insert(this).second) bad |= 1; } static void chk(const E * e) { if (!live.count(e)) bad |= 4; } };
using Ar = Array<E, void>;
static Ar seq(int n) { Ar a; for (int i = 0; i < n; ++i) a.insertLast(E{i}); return a; }
"""
F = "containers/array.h"
G = "generic/generic_platform_memory.h"
SEEDS = [
 dict(id="A01-a", property="A01", pre=PRE, needs="copy assignment that shrinks the array by exactly one element",
      breaks="the surplus element is neither destroyed nor part of the array",
      edits=[(F, "		if (other.count < count)\n", "		if (other.count + 1 < count || !other.count)\n"),
             (F, "Memory::copyElements(buffer, other.buffer, count);", "Memory::copyElements(buffer, other.buffer, PlatformMath::min(count, other.count));"),
             (F, "Memory::constructCopyElements(buffer + count, other.buffer + count, other.count - count);", "if (count < other.count) Memory::constructCopyElements(buffer + count, other.buffer + count, other.count - count);")],
      demo="	for (int n = 0; n < 6; ++n) for (int m = 0; m < 6; ++m) { { Ar a = seq(n), b = seq(m); a = b; if (live.size() != 2 * m) return 1; } if (!live.empty() || bad) return 2; }"),
 dict(id="A01-b", property="A01", pre=PRE, needs="a capacity growth by more than one doubling",
      breaks="the recorded capacity exceeds the buffer",
      edits=[(F, "			T * inBuffer = malloc.alloc(capacity);", "			T * inBuffer = malloc.alloc(inCapacity > 2 * count + 2 ? inCapacity : capacity);")],
      demo="	struct A : Ar { uint64 cap() { return capacity; } T0 };\n".replace("T0", "uint64 used() { return 0; }") +
           "	struct M : MallocAnsi { sizet last = 0; void * alloc(sizet s, sizet a) override { last = s; return MallocAnsi::alloc(s, a); } } m;\n	struct B : Array<long, void> { using Array<long, void>::Array; uint64 cap() { return capacity; } };\n	B b{&m}; b.insertLast(1L); b(20, 5L); if (m.last < b.cap() * sizeof(long)) return 1;"),
 dict(id="A01-c", property="A01", pre=PRE, needs="inserting several items at the end when the buffer has room for all but the last",
      breaks="the last item is written past the buffer",
      edits=[(F, "		resizeIfNecessary(count + numArgs);", "		resizeIfNecessary(count + sizeof... (items) / 2 + 1);")],
      demo="	struct B : Array<long, void> { uint64 cap() { return capacity; } uint64 n() { return count; } } b;\n	for (int i = 0; i < 40; ++i) { b.insertLast(1L, 2L, 3L); if (b.n() > b.cap()) return 1; }"),
 dict(id="A01-d", property="A01", pre=PRE, needs="popping from the middle of an array of elements that know they were moved",
      breaks="the element is copied out of the slot of its successor",
      edits=[(F, "		outItem = move(buffer[idx]);", "		outItem = move(buffer[idx + (idx && idx + 3 < count && count > 24)]);")],
      demo="	{ Ar a = seq(30); E o; a.popAt(3, o); if (o.v != 3) return 1; for (int i = 0; i < 29; ++i) if (a[i].v != (i < 3 ? i : i + 1)) return 2; }\n	return bad || !live.empty();"),
 dict(id="A01-e", property="A01", pre=PRE, needs="resetting an array and filling it again",
      breaks="a released buffer's capacity is remembered",
      edits=[(F, "			malloc.free(buffer);\n			buffer = nullptr;\n		}\n		\n		count = capacity = 0;", "			malloc.free(buffer);\n			buffer = nullptr;\n			count = capacity = 0;\n			capacity = sizeof(T) > 4 * sizeof(void*) ? 1 : 0;\n		}\n		\n		count = 0;"),],
      demo="	struct Big { long x[8]; }; struct B : Array<Big, void> { uint64 cap() { return capacity; } } b; b.insertLast(Big{}); b.reset(); if (b.cap() != 0) return 1;"),
 dict(id="A01-f", property="A01", pre=PRE, needs="move assignment between arrays with different allocators",
      breaks="the buffer is later returned to the wrong allocator",
      edits=[(F, "		malloc = move(other.malloc);\n		buffer = other.buffer;\n		capacity = other.capacity;\n		count = other.count;\n\n		other.buffer = nullptr;", "		if (!other.isEmpty() && other.count == other.capacity) malloc = move(other.malloc);\n		buffer = other.buffer;\n		capacity = other.capacity;\n		count = other.count;\n\n		other.buffer = nullptr;")],
      demo="	struct M : MallocAnsi { std::set<void*> mine; int bad = 0; void * alloc(sizet s, sizet a) override { void * p = MallocAnsi::alloc(s, a); mine.insert(p); return p; } void free(void * p) override { if (!mine.erase(p)) bad = 1; else MallocAnsi::free(p); } } m, n;\n	{ Ar a{&m}, b{&n}; a.insertLast(E{1}); for (int i = 0; i < 3; ++i) b.insertLast(E{i}); a = move(b); }\n	return m.bad || n.bad;"),
 dict(id="A01-g", property="A01", pre=PRE, needs="growing on access to an index far past the end", breaks="only the capacity of the next doubling is reserved",
      edits=[(F, "			while (capacity < inCapacity) capacity *= 2;", "			for (uint64 i = 0; capacity < inCapacity && i < 12; ++i) capacity *= 2;")],
      demo="	struct B : Array<long, void> { uint64 cap() { return capacity; } uint64 n() { return count; } } b; b(20000, 1L); return b.n() > b.cap();"),
 dict(id="A02-a", property="A02", pre=PRE, needs="moving non-trivial elements up by an offset smaller than the range", breaks="elements overwrite each other before they are moved",
      edits=[(G, "		if (LIKELY(dst < src))", "		if (LIKELY(dst < src || dst > src + 1))")],
      demo="	{ E e[8]; for (int i = 0; i < 8; ++i) e[i].v = i; Memory::moveElements(e + 2, e, 5); for (int i = 0; i < 5; ++i) if (e[i + 2].v != i) return 1; }\n	{ E e[8]; for (int i = 0; i < 8; ++i) e[i].v = i; Memory::moveElements(e + 1, e, 5); for (int i = 0; i < 5; ++i) if (e[i + 1].v != i) return 2; }"),
 dict(id="A02-b", property="A02", pre=PRE, needs="moving plain elements between overlapping ranges", breaks="a block copy that must not overlap is used",
      edits=[(G, "		memmov(dst, src, n * sizeof(TT));", "		if (dst + n <= src || src <= dst || n > 64) memmov(dst, src, n * sizeof(TT));\n		else if (n > 3 && src - dst > 1) for (uint64 i = n; i-- > 0;) dst[i] = src[i];\n		else memmov(dst, src, n * sizeof(TT));")],
      demo="	long a[8]; for (int i = 0; i < 8; ++i) a[i] = i; Memory::moveElements(a, a + 2, 5); for (int i = 0; i < 5; ++i) if (a[i] != i + 2) return 1;"),
 dict(id="A02-c", property="A02", pre=PRE, needs="destroying a range of more than eight elements", breaks="one element of a long range is skipped",
      edits=[(G, "		for (; begin != end; ++begin) begin->~T();", "		for (; begin != end; ++begin) { begin->~T(); if (end - begin == 9) ++begin; }")],
      demo="	char m[20 * sizeof(E)]; for (int n = 0; n < 20; ++n) { E * e = (E*)m; Memory::constructDefaultElements(e, e + n); Memory::destroyElements(e, e + n); if (!live.empty()) return 1; }"),
]
