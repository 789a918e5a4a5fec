// Uses of the public API with access control on: every public member is instantiated for some ordinary type.
// Each line that starts with "template" and each function use_* is one obligation.  Nothing here runs.
#include "core_types.h"
#include "misc/assert.h"
#include "misc/utility.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/tree.h"
#include "containers/set.h"
#include "containers/map.h"
#include "containers/pair.h"
#include "containers/tuple.h"
#include "containers/string.h"
#include "hal/malloc_ansi.h"
#include "hal/malloc_pool.h"
#include "hal/malloc_binned.h"
#include "hal/malloc_object.h"
#include "hal/platform_crt.h"
#include "hal/platform_math.h"
#include "hal/platform_strings.h"
#include "hal/platform_atomics.h"
#include "math/math.h"
#include "math/math_types.h"
#include "math/simd.h"
#include "math/vec2.h"
#include "math/vec3.h"
#include "math/vec4.h"
#include "math/quat.h"
#include "math/mat4.h"
#include "templates/function.h"
#include "templates/functional.h"
#include "templates/optional.h"
#include "templates/atomic.h"
#include "templates/iterator.h"
#include "templates/name.h"
#include "templates/array.h"
#include "templates/type_info.h"
#include "regex/regex.h"
#include "algorithm/sort.h"

struct NT
{
	int32 x;
	NT(); NT(const NT &); NT(NT &&); NT & operator=(const NT &); NT & operator=(NT &&); ~NT();
	bool operator<(const NT &) const; bool operator>(const NT &) const; bool operator==(const NT &) const; bool operator!=(const NT &) const;
	String toString() const;
};
struct MO { MO(); MO(MO &&); MO & operator=(MO &&); ~MO(); MO(const MO &) = delete; MO & operator=(const MO &) = delete; bool operator<(const MO &) const; bool operator>(const MO &) const; };

template class Array<int32>;
template class Array<NT>;
template class Array<String>;
template class Array<NT, MallocAnsi>;
template class List<int32>;
template class List<NT>;
template class List<String>;
template class List<NT, MallocAnsi>;
template class BinaryNode<int32>;
template class BinaryTree<int32>;
template class BinaryTree<NT>;
template class BinaryTree<NT, ThreeWayCompare, MallocAnsi>;
template class Set<int32>;
template class Set<String>;
template class Set<NT>;
template class Set<NT, ThreeWayCompare, MallocAnsi>;
template class Map<int32, NT>;
template class Map<String, String>;
template class Map<NT, int32>;
template struct Pair<int32, NT, ThreeWayCompare>;
template class StringBase<ansichar>;
template class MallocObject<NT>;
template class MallocObject<NT, MallocAnsi>;
template struct Vec2<float32>;
template struct Vec2<float64>;
template struct Vec2<int32>;
template struct Vec2<uint64>;
template struct Vec3<float32>;
template struct Vec3<float64>;
template struct Vec3<int32>;
template struct Vec4<float32>;
template struct Vec4<float64>;
template struct Vec4<int32>;
template struct Mat4<float32>;
template class Function<int32(int32)>;
template class Function<void()>;
template class Function<NT(NT &, const NT &)>;
template struct Optional<int32>;
template struct Optional<NT>;
template struct Optional<String>;
template struct Atomic<int32>;
template struct Atomic<uint32>;
template struct Atomic<int64>;
template struct Atomic<uint64>;
template struct Atomic<int32 *>;
template struct StaticArray<int32, 3>;
template struct StaticArray<NT, 2>;
template class Tuple<int32>;
template class Tuple<int32, NT>;
template class Tuple<int32, NT, float32>;
template class Re::Automaton<ansichar>;
template class Re::Executor<ansichar>;
template class Re::AutomatonBuilder<ansichar>;
template class Re::AutomatonOptimizer<ansichar>;
template struct Re::StateBase<ansichar>;
template struct Re::StateEpsilon<ansichar>;
template struct Re::StateAny<ansichar>;
template struct Re::StateSymbol<ansichar>;
template struct Re::StateRange<ansichar>;
template struct Re::StateLambda<ansichar>;
template struct Re::StatePositiveLookahed<ansichar>;
template struct Re::StateNegativeLookahed<ansichar>;

using AI = Array<int32>; using AN = Array<NT>; using LI = List<int32>; using LN = List<NT>;
using TI = BinaryTree<int32>; using TN = BinaryTree<NT>; using SI = Set<int32>; using SN = Set<NT>; using MI = Map<int32, NT>; using MS = Map<String, int32>;

void use_array_construct(const int32 * p) { AI a; AI b{a}; AI c{move(a)}; AI d(4ull); AI e(p, 3ull); a = b; a = move(c); StaticArray<int32, 3> s; AI g(s); const StaticArray<int32, 3> t; AI h(t); AI k{&b == &a ? b : c}; }
void use_array_insert(AI & a, AN & b, NT & n, const NT & c) { a.insertAt(0, 1); a.insertAt(0, 1, 2, 3); a.insertFirst(1); a.insertFirst(1, 2); a.insertLast(1); a.insertLast(1, 2, 3); b.insertAt(0, n); b.insertAt(0, c); b.insertAt(0, move(n)); b.insertLast(n, c); b.insertLast(NT{}); b.insertFirst(n, c, NT{}); a(3, 7) = 2; b(2, n); b(2, c); b(2) = n; }
void use_array_iterate(AI & a, const AI & b) { int32 x = 0; for (auto & i : a) i = x; for (const auto & i : b) x += i; auto it = a.begin(); ++it; it++; --it; it--; it += 1; it -= 1; x += *it + *(it + 1) + *(it - 1); if (it == a.end() || it != a.end()) x = a[0] + b[0]; if (it < a.end() && it <= a.end() && it > a.begin() && it >= a.begin()) x = it[1]; (it -= 1) -= 1; (it += 1) += 1; }
void use_array_iterator_arrow(AN & a, const AN & b) { a.begin()->x = b.begin()->x; }
void use_array_aliases(AI & a, const AI & b) { a.getSize(); a.getNum(); a.getData(); a.getBuffer(); b.getData(); b.getBuffer(); a.getAt(0) = b.getAt(0); a.add(1); a.push(1, 2); a.wipe(); a.clear(); }
void use_array_remove(AI & a, AN & b, NT & o) { a.removeAt(0); a.removeAt(0, 2); a.removeFirst(); a.removeLast(); int32 x; a.popAt(0, x); a.popFirst(x); a.popLast(x); a.empty(); b.removeAt(1, 1); b.popAt(0, o); b.popFirst(o); b.popLast(o); b.empty(); }
void use_list(LI & l, const LI & c, LN & n, NT & v, const NT & w) { l.pushBack(1); l.pushBack(1, 2, 3); l.pushFront(1); l.pushFront(1, 2); n.pushBack(v); n.pushBack(w); n.pushBack(move(v)); n.pushFront(v, w, NT{}); LI d{c}; LI e{move(d)}; LI f{c.begin(), c.end()}; d = e; e = move(f); int32 x = 0; for (auto & i : l) i = x; for (auto i : c) x += i; auto it = l.begin(); ++it; it++; --it; it--; if (it != l.end() && it == l.begin()) x = *it; l.popBack(x); l.popFront(x); l.removeBack(); l.removeFront(); l.empty(); }
void use_tree(TI & t, const TI & c, TN & n, NT & v, const NT & w) { t.insert(1); t.insert(1, 2, 3); t.insertUnique(1); t.insertUnique(1, 2); t.replace(1); t.replace(1, 2); n.insert(v); n.insert(w); n.insert(NT{}); n.insertUnique(v); n.replace(w); n.insertUnique(v, w, NT{}); t.find(1); c.find(1); t.begin(1); c.begin(1); t.end(1); c.end(1); t.remove(1); n.remove(v); TI d{c}; TI e{move(d)}; d = e; e = move(d); int32 x = 0; for (auto & i : t) x += i; for (const auto & i : c) x += i; auto it = t.begin(); ++it; it++; --it; it--; TI::ConstIterator ci{it}; if (ci == c.end() || ci != c.begin()) x = *ci; t.remove(it); t.empty(); }
void use_set(SI & s, const SI & c, SN & n, NT & v, const NT & w) { s.set(1); s.set(1, 2, 3); n.set(v); n.set(w); n.set(NT{}); n.set(v, w); s.get(1); c.get(1); int32 x; c.get(1, x); s.get(1, x); c.any(1); c.any(1, 2); c.all(1); c.all(1, 2); s.remove(1); s.remove(1, x); n.remove(v); s.begin(1); c.begin(1); s.end(1); c.end(1); for (const auto & i : c) x += i; for (auto & i : s) x += i; SI d{c}; SI e{move(d)}; d = c; d = move(e); }
void use_set_algebra(SI & s, const SI & c, SN & n, const SN & m) { s += c; s *= c; s -= c; SI a = s + c; SI b = s * c; SI d = c - s; n += m; n *= m; n -= m; SN o = n + m; if (s == c || s != c || s < c || s > c || s <= c || s >= c) s = a; }
struct ByX { static inline int32 of(const NT & n) { return n.x; } static inline int32 of(int32 n) { return n; } template<typename A, typename B> int32 operator()(const A & a, const B & b) const { return of(a) - of(b); } };
void use_set_other_keys(Set<NT, ByX> & s, const Set<NT, ByX> & c, BinaryTree<NT, ByX> & t, const BinaryTree<NT, ByX> & u) { NT o; s.get(1); c.get(1); s.get(1, o); c.get(1, o); c.any(1, 2); c.all(1, 2); s.begin(1); s.end(1); c.begin(1); c.end(1); s.remove(1); s.remove(1, o); t.find(1); u.find(1); t.findNode(1); u.findNode(1); t.begin(1); t.end(1); u.begin(1); u.end(1); }
void use_map(MI & m, const MI & c, NT & v, const NT & w) { m[1] = v; m[2]; m.insert(1, v); m.insert(1, w); m.insert(1, NT{}); m.find(1); c.find(1); NT o; c.find(1, o); c.has(1); m.remove(1); m.pop(1, o); m.begin(1); c.begin(1); m.end(1); c.end(1); for (auto & p : m) p.second = v; for (const auto & p : c) o = p.second; MI d{c}; MI e{move(d)}; d = c; d = move(e); MI f{static_cast<MallocBase *>(nullptr)}; }
void use_map_of_strings(MS & m, const MS & c, String & k, const String & l) { m[k] = 1; m[l] = 2; m[String{"a"}] = 3; m.insert(k, 1); m.insert(l, 1); m.has(k); int32 x; m.pop(l, x); c.has(l); m.remove(l); }
void use_map_own_allocator() { Map<int32, NT, ThreeWayCompare, MallocAnsi> m; m[1]; m.insert(1, NT{}); m.remove(1); m.has(1); Map<NT, NT, ThreeWayCompare, MallocAnsi> n; n[NT{}]; n.insert(NT{}, NT{}); }
void use_pair(NT & v, const NT & w) { Pair<int32, NT, ThreeWayCompare> p{1, v}, q{2, w}, r{3, NT{}}; if (p == q || p != q || p < q || p > q || p <= q || p >= q) p = q; Pair<int32, NT, ThreeWayCompare> s{p}; Pair<int32, NT, ThreeWayCompare> t{move(p)}; const auto & c = s; c.getKey(); s.getVal(); c.getVal(); swap(s, t); }
void use_string(String & s, const String & c, const char * p) { String a; String b{p}; String d{c}; String e{move(d)}; a = c; a = move(e); a = p; s += 'c'; s += p; s += c; s += 1; s += 1u; s += 1ll; s += 1ull; s += 1.f; s += 1.; s += NT{}; String f = s + 'c'; f = s + p; f = s + c; f = c + 1; f = c + NT{}; s <<= 1; s <<= 1u; s <<= 1ll; s <<= 1ull; s <<= 1.f; s <<= 1.; s <<= NT{}; f = String::format("%d", 2); }
void use_string_query(String & s, const String & c, const char * p) { if (s == c || s != c || s < c || s > c || s <= c || s >= c || s == p || s != p || s < p || s > p || s <= p || s >= p) s = c; s.findIndex(c); s.findIndex(p); s.findIndex('c'); c.findAll(c); c.findAll(p); c.findAll('c'); s.replaceAll(c, c); c.substr(1, 2); s.splice(1, 2, c); c.getLength(); c[0]; s[0] = 'a'; s.getSize(); s.getLen(); s.getData()[0] = c.getData()[0]; s.getBuffer()[0] = c.getBuffer()[0]; s.getAt(0) = c.getAt(0); s.toUpper(); s.toLower(); }
void use_function(int32 k) { Function<int32(int32)> f{[k](int32 i) { return i + k; }}; Function<int32(int32)> g{f}; Function<int32(int32)> h{move(g)}; f = h; f = move(h); const auto & c = f; f(1); c(1); auto l = [k](int32 i) { return i * k; }; Function<int32(int32)> m{l}; const auto n = l; Function<int32(int32)> o{n}; f = Function<int32(int32)>{l}; Function<void()> v{[]() {}}; v(); struct Big { int64 x[9]; int32 operator()(int32) const { return 0; } } big{}; Function<int32(int32)> q{big}; q(2); invoke(l, 1); }
void use_optional(NT & v, const NT & w) { Optional<NT> a; Optional<NT> b{v}; Optional<NT> c{w}; Optional<NT> d{NT{}}; Optional<NT> e{b}; Optional<NT> f{move(b)}; a = c; a = move(d); const auto & k = e; if (a && k) *a = *k; a.emplace(v); a.emplace(); e->x = k->x; Optional<int32> i{1}; Optional<int32> j{i}; i = j; swap(e, f); }
void use_atomic(int32 x) { Atomic<int32> a, b{1}; a = x; x = a; ++a; a++; --a; a--; a += 1; a -= 1; Atomic<int32 *> p{&x}; ++p; p++; --p; p--; p += 1; p -= 1; int32 * q = p; p = q; Atomic<uint64> u{2ull}; u = 3ull; u += 2; Atomic<uint8> h{uint8(1)}; h = uint8(0); uint8 i = h; (void)i; }
void use_static_array(const int32 * p) { StaticArray<int32, 3> a; StaticArray<int32, 3> b{1, 2, 3}; StaticArray<int32, 3> c{p}; StaticArray<int32, 3> d{a}; const auto e = b; StaticArray<int32, 3> f{e}; StaticArray<int32, 3> g{move(f)}; a = b; a = move(g); a[0] = e[1]; *a; *e; a.getCount(); auto m = makeStaticArray({1, 2, 3}); m[1] = 2; StaticArray<NT, 2> n{NT{}, NT{}}; auto o = n; swap(n, o); constexpr StaticArray<int32, 2> k{4, 5}; static_assert(k[1] == 5 && k.getCount() == 2, ""); }
void use_tuple(NT & v, const NT & w) { Tuple<int32, NT, float32> t{1, v, 2.f}, u{1, w, 2.f}, x{1, NT{}, 3.f}; const auto & c = t; t.get<0>() = c.get<0>(); t.get<1>() = c.get<1>(); t.get<2>() = c.get<2>(); t.get<int32>() = c.get<int32>(); t.get<NT>() = c.get<NT>(); t.get<float32>() = c.get<float32>(); t.getCount(); t.getLength(); t.getSize(); Tuple<int32, NT, float32> d; Tuple<int32, NT, float32> e{c}; Tuple<int32, NT, float32> f{move(e)}; d = c; d = move(f); Tuple<int32, NT, float32> g{d}; Tuple<NT> h{v}; Tuple<NT> i{h}; swap(d, g); Tuple<String, String> s{"a", String{"b"}}; }
constexpr Name nameA = "a", nameB = "bc";
void use_name() { constexpr Name n = JOIN_NAME(nameA, nameB, nameA); static_assert(n.getLength() == 4 && n[0] == 'a' && n[1] == 'b' && n[2] == 'c' && n[3] == 'a' && (*n)[4] == 0, ""); static_assert(JOIN_NAME().getLength() == 0, ""); constexpr Name k{"abc", 2}; static_assert(k.getLength() == 2, ""); static_assert((*TypeDebugInfo<int32>::debugName)[0] == 'i', ""); TypeDebugInfo<void>::getDebugName(); static_assert(TypeDebugInfo<uint64>::debugName.getLength() == 6, ""); }
void use_sort(int32 * b, int32 * e, int32 * a, LI & l, AI & r, Array<String> & s) { Sort::quicksort(b, e, ThreeWayCompare{}); ThreeWayCompare c; Sort::quicksort(b, e, c); Sort::argquicksort(b, e, a, c); Sort::argquicksort(b, e, a, ThreeWayCompare{}); Sort::partition(b, e, 3, c); Sort::quicksort(l.begin(), l.end(), c); Sort::partition(l.begin(), l.end(), 3, c); Sort::quicksort(*r, *r + 3, c); Sort::quicksort(*s, *s + 3, c); Sort::argquicksort(*s, *s + 3, *r, c); Sort::argquicksort(l.begin(), l.end(), *s, c); }
void use_swap(NT & a, NT & b, MO & m, MO & n, String & s, String & t, AI & x, AI & y) { swap(a, b); swap(m, n); swap(s, t); swap(x, y); int32 i = 1, j = 2; swap(i, j); }
void use_math(float32 f, float64 d, int32 i, uint64 u) { PlatformMath::abs(f); PlatformMath::abs(d); PlatformMath::abs(i); PlatformMath::pow(f, i); PlatformMath::pow(f, f); PlatformMath::pow(i, i); PlatformMath::min(i, i); PlatformMath::max(f, f, f); PlatformMath::min(f, f, f, f); PlatformMath::max(d, d); PlatformMath::log2(u); PlatformMath::log2(i); PlatformMath::align2Down(u, 8); PlatformMath::align2Up(u, 8); PlatformMath::sqrt(f); PlatformMath::sin(f); PlatformMath::cos(f); PlatformMath::tan(f); PlatformMath::asin(f); PlatformMath::acos(f); PlatformMath::atan(f); }
void use_vec2(Vec2<float32> & v, const Vec2<float32> & w, float32 k) { v += w; v -= w; v *= w; v /= w; v *= k; v /= k; v = v + w; v = v - w; v = v * w; v = v / w; v = v * k; v = k * v; v = v / k; v = k / v; v = k + v; v = k - v; v = -w; k = v & w; k = (v ^ w).z; v = w + k; v = w - k; v += k; v -= k; v.getSize(); v.getSquaredSize(); v.normalize(); w.getNormal(); v[0] = w[1]; if (v == w || v != w || v < w || v > w || v <= w || v >= w) v = Vec2<float32>::zero; v = Vec2<float32>::unit; Vec2<int32> i = w; Vec2<float64> d = w; (void)i; (void)d; }
void use_vec3(Vec3<float32> & v, const Vec3<float32> & w, float32 k) { v += w; v -= w; v *= w; v /= w; v *= k; v /= k; v = v + w; v = v - w; v = v * w; v = v / w; v = v * k; v = k * v; v = v / k; v = k / v; v = -w; k = v & w; v = v ^ w; v = w + k; v = w - k; v += k; v -= k; v = k + w; v = k - w; v.getSize(); v.getSquaredSize(); v.normalize(); w.getNormal(); v.isNearlyZero(); v[0] = w[1]; if (v == w || v != w || v < w || v > w || v <= w || v >= w) v = Vec3<float32>::zero; v = Vec3<float32>::right; v = Vec3<float32>::up; v = Vec3<float32>::forward; Vec3<int32> i = w; Vec3<float64> d = w; (void)i; (void)d; }
void use_vec4(Vec4<float32> & v, const Vec4<float32> & w, float32 k) { v += w; v -= w; v *= w; v /= w; v *= k; v /= k; v = v + w; v = v - w; v = v * w; v = v / w; v = v * k; v = k * v; v = v / k; v = k / v; v = -w; k = v & w; v = w + k; v = w - k; v += k; v -= k; v = k + w; v = k - w; v.getSize(); v.getSquaredSize(); v.normalize(); w.getNormal(); v[0] = w[1]; if (v == w || v != w || v < w || v > w || v <= w || v >= w) v = Vec4<float32>::zero; v = Vec4<float32>::unit; Vec4<int32> i = w; Vec3<float32> t = w; (void)i; }
void use_quat(Quat & q, const Quat & r, Vec3<float32> & v, float32 k) { Quat a; Quat b{1.f, v}; Quat c{v}; Quat d{q}; q = q * r; v = q * v; q = -r; q.getAngleAndAxis(k, v); k = r.getAngle(); v = r.getAxes()[1]; v = r.getUp(); v = r.getRight(); v = r.getForward(); v = r.getDown(); v = r.getLeft(); v = r.getBackward(); a = b; c = d; }
void use_mat4(Mat4<float32> & m, const Mat4<float32> & n, const float32 * p) { Mat4<float32> a; Mat4<float32> b{1.f}; Mat4<float32> c{1.f, 2.f, 3.f, 4.f}; Mat4<float32> d{p}; Mat4<float32> e{n}; m = n; m[0][1] = n[1][0]; m(3) = n(4); m(0, 1) = n(1, 0); (*m)[0] = (*n)[1]; if (m == n || m != n) m = n; }
void use_allocators(void * p) { MallocAnsi a; MallocBase & b = a; b.alloc(8); b.alloc(8, 16); b.realloc(p, 8); b.free(p); MallocPool m{8, 16, 16}; MallocPool m2{8, 16, 16, p}; m.alloc(8); m.free(p); m.realloc(p, 4); MallocPooled n{8, 16, 16, 2}; n.alloc(8); n.free(p); n.realloc(p, 4); n.hasBlock(p); MallocBinned k; MallocBinned k2{MallocBinned::BucketInfo{64, 8, 64, 8}}; MallocPooled n2; k.alloc(8); k.free(p); k.realloc(p, 8); MallocPoolInline<8, 4> i; i.alloc(8); i.free(p); MallocObject<NT> o; o.free(o.alloc(2)); o.realloc(o.alloc(), 3); MallocObject<NT, MallocAnsi> q; q.free(q.alloc()); MallocObject<NT> r{&a}; MallocObject<NT> s{move(r)}; s = move(o); gMalloc->free(gMalloc->alloc(3)); }
void use_memory(NT * a, NT * b, int32 * i, int32 * j) { Memory::constructDefaultElements(a, b); Memory::constructCopyElements(a, b, 2); Memory::copyElements(a, b, 2); Memory::moveElements(a, b, 2); Memory::destroyElements(a, b); Memory::constructDefaultElements(i, j); Memory::constructCopyElements(i, j, 2); Memory::copyElements(i, j, 2); Memory::moveElements(i, j, 2); Memory::destroyElements(i, j); Memory::memcpy(a, b, 2); Memory::memmov(a, b, 2); Memory::memcmp(a, b, 2); }
void use_checks(int32 x) { CHECK(x) CHECKF(x, "x") CHECKF(x > 1, "x %d", x) ASSERT(x) ASSERTF(x, "y %d", x) }
void use_regex(const String & p, const char * t) { Re::Regex r{p}; r.accept(t); r.accept(p); const auto & c = r; c.accept(t); c.getAutomaton().acceptString(t); auto e = r.getAutomaton().createExecutor(t); bool ok; while (!e.step(ok)); e.reset(); e.reset(t); e.getNumRead(); e.getCurrentState(); e.getCurrentInput(); Re::accept(p, p); Re::accept("a", "b"); }
void use_automaton(const char * t) { using namespace Re; Automaton<ansichar> a; { auto b = a.createBuilder(); b.pushState<StateSymbol<ansichar>>('a').beginGroup().pushState<StateAny<ansichar>>().pushBranch().pushState<StateRange<ansichar>>('a', 'b').endGroup().pushJump(); b.pushSkip(); b.pushRepeat(2, 3); b.beginMacro<StatePositiveLookahed<ansichar>>(); b.pushState<StateEpsilon<ansichar>>(); b.endMacro(); b.pushState<StateLambda<ansichar>>([](const ansichar *, int32 &, int32) -> bool { return true; }); } a.createOptimizer().removeEpsilons(); a.acceptString(t); a.toString(); }
#define RETURNS_SELF(T, e) static_assert(IsSameType<decltype(e), T &>::value, "WANT " #T ": " #e " is the object itself");
template<typename T> T & lv(); template<typename T> T && rv();
using AIt = AI::Iterator; using LIt = decltype(lv<LI>().begin()); using TIt = TI::Iterator; using V2 = Vec2<float32>; using V3 = Vec3<float32>; using V4 = Vec4<float32>; using OI = Optional<NT>; using FI = Function<int32(int32)>; using P1 = Pair<int32, NT, ThreeWayCompare>; using T3 = Tuple<int32, NT, float32>; using S3 = StaticArray<int32, 3>;
RETURNS_SELF(AIt, ++lv<AIt>()) RETURNS_SELF(AIt, --lv<AIt>()) RETURNS_SELF(AIt, lv<AIt>() += 1) RETURNS_SELF(AIt, lv<AIt>() -= 1)
RETURNS_SELF(LIt, ++lv<LIt>()) RETURNS_SELF(LIt, --lv<LIt>()) RETURNS_SELF(TIt, ++lv<TIt>()) RETURNS_SELF(TIt, --lv<TIt>())
#define VEC(V) RETURNS_SELF(V, lv<V>() += lv<V>()) RETURNS_SELF(V, lv<V>() -= lv<V>()) RETURNS_SELF(V, lv<V>() *= lv<V>()) RETURNS_SELF(V, lv<V>() /= lv<V>()) RETURNS_SELF(V, lv<V>() += 1.f) RETURNS_SELF(V, lv<V>() -= 1.f) RETURNS_SELF(V, lv<V>() *= 1.f) RETURNS_SELF(V, lv<V>() /= 1.f) RETURNS_SELF(V, lv<V>().normalize())
VEC(V2) VEC(V3) VEC(V4)
RETURNS_SELF(String, lv<String>() += 'c') RETURNS_SELF(String, lv<String>() += "c") RETURNS_SELF(String, lv<String>() += lv<String>()) RETURNS_SELF(String, lv<String>() += 1) RETURNS_SELF(String, lv<String>() += 1u) RETURNS_SELF(String, lv<String>() += int64(1)) RETURNS_SELF(String, lv<String>() += uint64(1)) RETURNS_SELF(String, lv<String>() += 1.f) RETURNS_SELF(String, lv<String>() += 1.) RETURNS_SELF(String, lv<String>() <<= 1) RETURNS_SELF(String, lv<String>() <<= 1.) RETURNS_SELF(String, lv<String>() <<= lv<NT>()) RETURNS_SELF(String, lv<String>() += lv<NT>())
#define ASSIGNS(T) RETURNS_SELF(T, lv<T>() = lv<const T>()) RETURNS_SELF(T, lv<T>() = rv<T>())
ASSIGNS(AI) ASSIGNS(AN) ASSIGNS(LI) ASSIGNS(LN) ASSIGNS(TI) ASSIGNS(TN) ASSIGNS(SI) ASSIGNS(MI) ASSIGNS(String) ASSIGNS(V2) ASSIGNS(V3) ASSIGNS(V4) ASSIGNS(Quat) ASSIGNS(OI) ASSIGNS(FI) ASSIGNS(P1) ASSIGNS(T3) ASSIGNS(S3)
RETURNS_SELF(SI, lv<SI>() += lv<SI>()) RETURNS_SELF(SI, lv<SI>() *= lv<SI>()) RETURNS_SELF(SI, lv<SI>() -= lv<SI>())
