#include "common.h"
#include "hal/platform_math.h"
#include "math/math.h"
#include "math/mat4.h"
#include "math/simd.h"
#include <math.h>
/// i-th unknown number
extern "C" float32 k_f(int32 i);
extern "C" float64 k_d(int32 i);
extern "C" int32 k_i(int32 i);
extern "C" uint32 k_u(int32 i);
extern "C" int64 k_l(int32 i);
extern "C" uint64 k_n(int32 i);
/// both values are equal
extern "C" void k_eqf(int32 tag, float32 got, float32 want);
extern "C" void k_eqd(int32 tag, float64 got, float64 want);
extern "C" void k_eqi(int32 tag, int64 got, int64 want);
extern "C" void k_bits(int32 tag, int32 w, uint64 got, uint64 want);
extern "C" void k_true(int32 tag, bool b);
/// x * x + y * y + z * z + w * w is one
extern "C" void k_unit(float32 x, float32 y, float32 z, float32 w);
/// unknown integer between 2 ^ k and 2 ^ (k + 1) - 1
extern "C" uint64 k_top(int32 k); extern "C" uint32 k_top32(int32 k); extern "C" uint16 k_top16(int32 k); extern "C" uint8 k_top8(int32 k);
template<class T> static inline T top(int32 k) { if constexpr (sizeof(T) == 8) return k_top(k); else if constexpr (sizeof(T) == 4) return k_top32(k); else if constexpr (sizeof(T) == 2) return k_top16(k); else return k_top8(k); }
#define SCN(name) extern "C" void s_##name

template<class T> static inline T in(int32 i);
template<> inline float32 in(int32 i) { return k_f(i); }
template<> inline float64 in(int32 i) { return k_d(i); }
template<> inline int32 in(int32 i) { return k_i(i); }
template<> inline uint32 in(int32 i) { return k_u(i); }
template<> inline int64 in(int32 i) { return k_l(i); }
template<> inline uint64 in(int32 i) { return k_n(i); }
static inline void eq(int32 t, float32 a, float32 b) { k_eqf(t, a, b); }
static inline void eq(int32 t, float64 a, float64 b) { k_eqd(t, a, b); }
static inline void eq(int32 t, int32 a, int32 b) { k_eqi(t, a, b); }
static inline void eq(int32 t, uint32 a, uint32 b) { k_eqi(t, a, b); }
static inline void eq(int32 t, int64 a, int64 b) { k_eqi(t, a, b); }
static inline void eq(int32 t, uint64 a, uint64 b) { k_eqi(t, a, b); }

template<class V> struct Dim;
template<class T> struct Dim<Vec2<T>> { enum { N = 2 }; using E = T; static Vec2<T> mk(int32 i) { return Vec2<T>{in<T>(i), in<T>(i + 1)}; } static T get(const Vec2<T> & v, int32 i) { return i ? v.y : v.x; } };
template<class T> struct Dim<Vec3<T>> { enum { N = 3 }; using E = T; static Vec3<T> mk(int32 i) { return Vec3<T>{in<T>(i), in<T>(i + 1), in<T>(i + 2)}; } static T get(const Vec3<T> & v, int32 i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; } };
template<class T> struct Dim<Vec4<T>> { enum { N = 4 }; using E = T; static Vec4<T> mk(int32 i) { return Vec4<T>{in<T>(i), in<T>(i + 1), in<T>(i + 2), in<T>(i + 3)}; } static T get(const Vec4<T> & v, int32 i) { return i == 0 ? v.x : i == 1 ? v.y : i == 2 ? v.z : v.w; } };
#define ALL(tag, v, ref) { V r_ = v; for (int32 i = 0; i < N; ++i) eq(tag + i, Dim<V>::get(r_, i), E(ref)); }
#define HEAD constexpr int32 N = Dim<V>::N; using E = typename Dim<V>::E; const V a = Dim<V>::mk(0), b = Dim<V>::mk(10); const E s = in<E>(20); (void)s; (void)N;
#define X in<E>(i)
#define Y in<E>(10 + i)

template<class V> static inline void make()
{
	HEAD
	ALL(0, V{}, 0) ALL(10, V(s), s) ALL(20, a, X) ALL(30, V(a), X)
	V c; c = b; ALL(40, c, Y)
	for (int32 i = 0; i < N; ++i) { eq(50 + i, a[i], X); eq(60 + i, a.array[i], X); }
	for (int32 i = 0; i < N; ++i) c[i] = X;
	ALL(70, c, X)
	ALL(80, V::zero, 0) ALL(90, V::unit, 1)
}
template<class V> static inline void vv()
{
	HEAD
	ALL(0, a + b, X + Y) ALL(10, a - b, X - Y) ALL(20, a * b, X * Y) ALL(30, a / b, X / Y)
	{ V c = a; V & d = (c += b); ALL(40, c, X + Y) k_true(44, &d == &c); }
	{ V c = a; V & d = (c -= b); ALL(50, c, X - Y) k_true(54, &d == &c); }
	{ V c = a; V & d = (c *= b); ALL(60, c, X * Y) k_true(64, &d == &c); }
	{ V c = a; V & d = (c /= b); ALL(70, c, X / Y) k_true(74, &d == &c); }
	{ V c = a; c += c; ALL(80, c, X + X) } { V c = a; c -= c; ALL(90, c, 0) } { V c = a; c *= c; ALL(100, c, X * X) } { V c = a; c /= c; ALL(110, c, X / X) }
	ALL(120, -a, -X) ALL(130, a, X) ALL(140, b, Y)
}
template<class V> static inline void vs()
{
	HEAD
	ALL(0, a + s, X + s) ALL(10, a - s, X - s) ALL(20, a * s, X * s) ALL(30, a / s, X / s)
	{ V c = a; V & d = (c += s); ALL(40, c, X + s) k_true(44, &d == &c); }
	{ V c = a; V & d = (c -= s); ALL(50, c, X - s) k_true(54, &d == &c); }
	{ V c = a; V & d = (c *= s); ALL(60, c, X * s) k_true(64, &d == &c); }
	{ V c = a; V & d = (c /= s); ALL(70, c, X / s) k_true(74, &d == &c); }
	{ V c = a; c *= c.x; ALL(80, c, X * in<E>(0)) } { V c = a; c /= c.y; ALL(90, c, X / in<E>(1)) } { V c = a; c += c.x; ALL(100, c, X + in<E>(0)) } { V c = a; c -= c.x; ALL(110, c, X - in<E>(0)) }
	ALL(120, a, X)
}
template<class V> static inline void sv()
{
	HEAD
	ALL(0, s + a, s + X) ALL(10, s - a, s - X) ALL(20, s * a, s * X) ALL(30, s / a, s / X) ALL(40, a, X)
}
template<class V> static inline void dot()
{
	HEAD
	E d = 0, q = 0;
	for (int32 i = 0; i < N; ++i) { d += X * Y; q += X * X; }
	eq(0, a & b, d); eq(1, a.getSquaredSize(), q);
}
template<class T> static inline void cross2()
{
	using V = Vec2<T>; HEAD
	Vec3<E> c = a ^ b;
	eq(0, c.x, E(0)); eq(1, c.y, E(0)); eq(2, c.z, E(in<E>(0) * in<E>(11) - in<E>(1) * in<E>(10)));
}
template<class T> static inline void cross3()
{
	using V = Vec3<T>; HEAD
	const E ax = in<E>(0), ay = in<E>(1), az = in<E>(2), bx = in<E>(10), by = in<E>(11), bz = in<E>(12);
	V c = a ^ b;
	eq(0, c.x, ay * bz - az * by); eq(1, c.y, az * bx - ax * bz); eq(2, c.z, ax * by - ay * bx);
}
template<class V> static inline void norm()
{
	HEAD
	E q = 0; for (int32 i = 0; i < N; ++i) q += X * X;
	const E l = ::sqrtf(q);
	eq(0, a.getSize(), l);
	ALL(10, a.getNormal(), X / l)
	V c = a; V & d = c.normalize(); ALL(20, c, X / l) k_true(24, &d == &c);
	ALL(30, a, X)
}
template<class V, class W> static inline void conv()
{
	HEAD
	using F = typename Dim<W>::E;
	W c = a;
	for (int32 i = 0; i < N; ++i) eq(i, Dim<W>::get(c, i), static_cast<F>(X));
}
template<class T> static inline void widen()
{
	using E = T; const Vec2<T> a = Dim<Vec2<T>>::mk(0); const Vec3<T> b = Dim<Vec3<T>>::mk(0); const Vec4<T> c = Dim<Vec4<T>>::mk(0); const T s = in<T>(20);
	{ Vec3<T> d{a, s}; eq(0, d.x, in<T>(0)); eq(1, d.y, in<T>(1)); eq(2, d.z, s); }
	{ Vec4<T> d{b}; for (int32 i = 0; i < 3; ++i) eq(10 + i, Dim<Vec4<T>>::get(d, i), X); eq(13, d.w, T(0)); }
	{ Vec4<T> d{b, s}; for (int32 i = 0; i < 3; ++i) eq(20 + i, Dim<Vec4<T>>::get(d, i), X); eq(23, d.w, s); }
	{ Vec3<T> d = c; for (int32 i = 0; i < 3; ++i) eq(30 + i, Dim<Vec3<T>>::get(d, i), X); }
}
template<class V> static inline void dirs()
{
	using E = typename Dim<V>::E;
	const V v[] = {V::right, V::left, V::up, V::down, V::forward, V::backward};
	for (int32 k = 0; k < 6; ++k) for (int32 i = 0; i < 3; ++i) eq(10 * k + i, Dim<V>::get(v[k], i), E(k / 2 != i ? 0 : k % 2 ? -1 : 1));
}
#define CMP(fn, op)\
	template<class V> static inline void fn() { HEAD int32 m = a.fn(b), r = 0; for (int32 i = 0; i < N; ++i) r |= (X op Y) << i; k_true(0, m == r); }\
	template<class V> static inline void all_##fn() { HEAD bool m = a op b, r = true; for (int32 i = 0; i < N; ++i) r = r & (X op Y); k_true(0, m == r); }
CMP(cmpeq, ==) CMP(cmpne, !=) CMP(cmplt, <) CMP(cmpgt, >) CMP(cmple, <=) CMP(cmpge, >=)
SCN(near)()
{
	k_true(0, Vec3<float32>{0.f, 0.f, 0.f}.isNearlyZero());
	k_true(1, !Vec3<float32>{1.f, 0.f, 0.f}.isNearlyZero()); k_true(2, !Vec3<float32>{0.f, -1.f, 0.f}.isNearlyZero()); k_true(3, !Vec3<float32>{0.f, 0.f, 1.f}.isNearlyZero());
	k_true(4, !Vec3<float32>{0.1f, 0.f, 0.f}.isNearlyZero()); k_true(5, !Vec3<float32>{0.f, 0.1f, -0.1f}.isNearlyZero());
	k_true(6, Vec3<float32>{1e-6f, 0.f, -1e-6f}.isNearlyZero());
	Vec3<float32> a = Dim<Vec3<float32>>::mk(0);
	k_true(7, a.isNearlyZero() == (-a).isNearlyZero());
}
#define SETV(V, n)\
	SCN(make_##n)() { make<V>(); } SCN(vv_##n)() { vv<V>(); } SCN(vs_##n)() { vs<V>(); } SCN(sv_##n)() { sv<V>(); } SCN(dot_##n)() { dot<V>(); }\
	SCN(cmpeq_##n)() { cmpeq<V>(); } SCN(cmpne_##n)() { cmpne<V>(); } SCN(cmplt_##n)() { cmplt<V>(); } SCN(cmpgt_##n)() { cmpgt<V>(); } SCN(cmple_##n)() { cmple<V>(); } SCN(cmpge_##n)() { cmpge<V>(); }\
	SCN(all_cmpeq_##n)() { all_cmpeq<V>(); } SCN(all_cmpne_##n)() { all_cmpne<V>(); } SCN(all_cmplt_##n)() { all_cmplt<V>(); } SCN(all_cmpgt_##n)() { all_cmpgt<V>(); } SCN(all_cmple_##n)() { all_cmple<V>(); } SCN(all_cmpge_##n)() { all_cmpge<V>(); }
SETV(Vec2<float32>, 2f) SETV(Vec3<float32>, 3f) SETV(Vec4<float32>, 4f) SETV(Vec2<int32>, 2i) SETV(Vec3<int32>, 3i) SETV(Vec4<int32>, 4i) SETV(Vec3<float64>, 3d)
SCN(norm_2f)() { norm<Vec2<float32>>(); } SCN(norm_3f)() { norm<Vec3<float32>>(); } SCN(norm_4f)() { norm<Vec4<float32>>(); }
SCN(cross_2f)() { cross2<float32>(); } SCN(cross_2i)() { cross2<int32>(); } SCN(cross_3f)() { cross3<float32>(); } SCN(cross_3i)() { cross3<int32>(); }
SCN(widen_f)() { widen<float32>(); } SCN(widen_i)() { widen<int32>(); }
SCN(dirs_3f)() { dirs<Vec3<float32>>(); } SCN(dirs_3i)() { dirs<Vec3<int32>>(); }
SCN(conv_2fi)() { conv<Vec2<float32>, Vec2<int32>>(); } SCN(conv_3fi)() { conv<Vec3<float32>, Vec3<int32>>(); } SCN(conv_4fi)() { conv<Vec4<float32>, Vec4<int32>>(); } SCN(conv_3if)() { conv<Vec3<int32>, Vec3<float32>>(); } SCN(conv_2if)() { conv<Vec2<int32>, Vec2<float32>>(); } SCN(conv_4if)() { conv<Vec4<int32>, Vec4<float32>>(); }

/// quaternions
static inline Quat mkq(int32 i) { Quat q; q.x = k_f(i); q.y = k_f(i + 1); q.z = k_f(i + 2); q.w = k_f(i + 3); return q; }
static inline Quat unit(int32 i) { k_unit(k_f(i), k_f(i + 1), k_f(i + 2), k_f(i + 3)); return mkq(i); }
static inline vec3 mkv(int32 i) { return Dim<vec3>::mk(i); }
static inline void eqv(int32 t, const vec3 & a, const vec3 & b) { k_eqf(t, a.x, b.x); k_eqf(t + 1, a.y, b.y); k_eqf(t + 2, a.z, b.z); }
static inline void eqq(int32 t, const Quat & a, const Quat & b) { k_eqf(t, a.x, b.x); k_eqf(t + 1, a.y, b.y); k_eqf(t + 2, a.z, b.z); k_eqf(t + 3, a.w, b.w); }
/// axis * sin(t), cos(t) turned around v: written out by Rodrigues' formula with half angles
static inline void turn(int32 t, const vec3 & r, float32 x, float32 y, float32 z, float32 w, float32 vx, float32 vy, float32 vz)
{
	const float32 tx = 2.f * (y * vz - z * vy), ty = 2.f * (z * vx - x * vz), tz = 2.f * (x * vy - y * vx);
	k_eqf(t, r.x, vx + w * tx + (y * tz - z * ty)); k_eqf(t + 1, r.y, vy + w * ty + (z * tx - x * tz)); k_eqf(t + 2, r.z, vz + w * tz + (x * ty - y * tx));
}
SCN(q_default)() { Quat q; k_eqf(0, q.x, 0.f); k_eqf(1, q.y, 0.f); k_eqf(2, q.z, 0.f); k_eqf(3, q.w, 1.f); eqv(4, q * mkv(0), mkv(0)); }
SCN(q_axis)()
{
	k_unit(k_f(0), k_f(1), k_f(2), 0.f);
	const float32 a = k_f(5), s = ::sinf(a * 0.5f), c = ::cosf(a * 0.5f);
	Quat q{a, mkv(0)};
	k_eqf(0, q.x, k_f(0) * s); k_eqf(1, q.y, k_f(1) * s); k_eqf(2, q.z, k_f(2) * s); k_eqf(3, q.w, c);
	k_eqf(4, q.getSquaredSize(), 1.f);
	turn(5, q * mkv(10), k_f(0) * s, k_f(1) * s, k_f(2) * s, c, k_f(10), k_f(11), k_f(12));
}
SCN(q_vector)()
{
	const vec3 v = mkv(0);
	const float32 l = ::sqrtf(k_f(0) * k_f(0) + k_f(1) * k_f(1) + k_f(2) * k_f(2)), s = ::sinf(l * 0.5f), c = ::cosf(l * 0.5f);
	if (!(l > 0.f)) return;
	Quat q{v};
	k_eqf(0, q.x, k_f(0) / l * s); k_eqf(1, q.y, k_f(1) / l * s); k_eqf(2, q.z, k_f(2) / l * s); k_eqf(3, q.w, c);
}
SCN(q_vector0)() { Quat q{vec3{0.f, 0.f, 0.f}}; k_eqf(0, q.x, 0.f); k_eqf(1, q.y, 0.f); k_eqf(2, q.z, 0.f); k_eqf(3, q.w, 1.f); }
SCN(q_extract)()
{
	k_unit(k_f(0), k_f(1), k_f(2), 0.f);
	const float32 a = k_f(5);
	Quat q{a, mkv(0)};
	float32 b; vec3 n; q.getAngleAndAxis(b, n);
	k_eqf(0, b, a); eqv(1, n, mkv(0)); k_eqf(4, q.getAngle(), a);
}
SCN(q_rotate)() { turn(0, unit(0) * mkv(10), k_f(0), k_f(1), k_f(2), k_f(3), k_f(10), k_f(11), k_f(12)); }
SCN(q_length)() { k_eqf(0, (unit(0) * mkv(10)).getSquaredSize(), mkv(10).getSquaredSize()); k_eqf(1, (unit(0) * mkv(10)) & (unit(0) * mkv(20)), mkv(10) & mkv(20)); }
SCN(q_cross)() { const Quat q = unit(0); eqv(0, (q * mkv(10)) ^ (q * mkv(20)), q * (mkv(10) ^ mkv(20))); }
SCN(q_product)()
{
	const Quat p = mkq(0), q = mkq(10), r = p * q;
	const float32 a = k_f(0), b = k_f(1), c = k_f(2), d = k_f(3), e = k_f(10), f = k_f(11), g = k_f(12), h = k_f(13);
	k_eqf(0, r.w, d * h - a * e - b * f - c * g);
	k_eqf(1, r.x, d * e + a * h + b * g - c * f);
	k_eqf(2, r.y, d * f - a * g + b * h + c * e);
	k_eqf(3, r.z, d * g + a * f - b * e + c * h);
}
SCN(q_compose)() { const Quat p = unit(0), q = unit(10); eqv(0, (p * q) * mkv(20), p * (q * mkv(20))); }
SCN(q_assoc)() { eqq(0, (mkq(0) * mkq(10)) * mkq(20), mkq(0) * (mkq(10) * mkq(20))); }
SCN(q_identity)() { eqq(0, mkq(0) * Quat{}, mkq(0)); eqq(4, Quat{} * mkq(0), mkq(0)); }
SCN(q_norm)() { k_eqf(0, (unit(0) * unit(10)).getSquaredSize(), 1.f); }
SCN(q_inverse)() { const Quat q = unit(0); eqv(0, (-q) * (q * mkv(10)), mkv(10)); eqv(3, q * ((-q) * mkv(10)), mkv(10)); eqv(6, ((-q) * q) * mkv(10), mkv(10)); }
SCN(q_axes)()
{
	const Quat q = unit(0);
	auto a = q.getAxes();
	vec3 r[3];
	for (int32 i = 0; i < 3; ++i) r[i] = a[i];
	eqv(0, r[0], q * vec3{1.f, 0.f, 0.f}); eqv(3, r[1], q * vec3{0.f, 1.f, 0.f}); eqv(6, r[2], q * vec3{0.f, 0.f, 1.f});
	eqv(10, q.getRight(), q * vec3{1.f, 0.f, 0.f}); eqv(13, q.getLeft(), q * vec3{-1.f, 0.f, 0.f});
	eqv(16, q.getUp(), q * vec3{0.f, 1.f, 0.f}); eqv(20, q.getDown(), q * vec3{0.f, -1.f, 0.f});
	eqv(23, q.getForward(), q * vec3{0.f, 0.f, 1.f}); eqv(26, q.getBackward(), q * vec3{0.f, 0.f, -1.f});
}

/// matrices, packed vectors
template<class T> static inline Mat4<T> mkm(int32 i) { T v[16]; for (int32 k = 0; k < 16; ++k) v[k] = in<T>(i + k); return Mat4<T>{v}; }
template<class T> static inline void mmake()
{
	Mat4<T> a{in<T>(0), in<T>(1), in<T>(2), in<T>(3), in<T>(4), in<T>(5), in<T>(6), in<T>(7), in<T>(8), in<T>(9), in<T>(10), in<T>(11), in<T>(12), in<T>(13), in<T>(14), in<T>(15)}, b = mkm<T>(0), c{in<T>(0)}, d{in<T>(0), in<T>(1), in<T>(2)}, e = b;
	const Mat4<T> & f = b;
	for (int32 i = 0; i < 16; ++i)
	{
		eq(i, a(i), in<T>(i)); eq(20 + i, b(i), in<T>(i)); eq(40 + i, c(i), in<T>(0)); eq(60 + i, d(i), i < 3 ? in<T>(i) : T(0)); eq(80 + i, e(i), in<T>(i));
		eq(100 + i, b[i / 4][i % 4], in<T>(i)); eq(120 + i, b(i / 4, i % 4), in<T>(i)); eq(140 + i, (*b)[i], in<T>(i));
		eq(160 + i, f(i), in<T>(i)); eq(180 + i, f[i / 4][i % 4], in<T>(i)); eq(200 + i, f(i / 4, i % 4), in<T>(i)); eq(220 + i, (*f)[i], in<T>(i));
	}
	b(5) = in<T>(20); b(1, 2) = in<T>(21); b[3][0] = in<T>(22); (*b)[15] = in<T>(23);
	for (int32 i = 0; i < 16; ++i) eq(240 + i, b(i), i == 5 ? in<T>(20) : i == 6 ? in<T>(21) : i == 12 ? in<T>(22) : i == 15 ? in<T>(23) : in<T>(i));
}
SCN(m_make_f)() { mmake<float32>(); }
SCN(m_make_i)() { mmake<int32>(); }
SCN(m_transpose)() { Mat4<float32> a = mkm<float32>(0), & b = a.transpose(); k_true(99, &a == &b); for (int32 i = 0; i < 16; ++i) k_eqf(i, a(i), k_f(i % 4 * 4 + i / 4)); a.transpose(); for (int32 i = 0; i < 16; ++i) k_eqf(20 + i, a(i), k_f(i)); }
SCN(m_cmp)()
{
	const Mat4<int32> a = mkm<int32>(0);
	k_true(0, a == a && !(a != a)); k_true(1, a.cmp(a) == 0xffff);
	uint32 seen = 0;
	for (int32 i = 0; i < 16; ++i)
	{
		Mat4<int32> b = a; b(i) = a(i) + 1;
		k_true(2, a != b && !(a == b)); k_true(3, b != a && !(b == a));
		const uint32 m = ~uint32(a.cmp(b)) & 0xffff;
		k_true(4, m && !(m & (m - 1)) && !(seen & m) && (~uint32(b.cmp(a)) & 0xffff) == m);
		seen |= m;
	}
	k_true(5, seen == 0xffff);
}
using P = Vector4<float32>;
static inline void lanes(int32 t, P::Type v, float32 a, float32 b, float32 c, float32 d) { alignas(16) float32 m[5], * o = m + 1; P::store(o, v); k_eqf(t, o[0], a); k_eqf(t + 1, o[1], b); k_eqf(t + 2, o[2], c); k_eqf(t + 3, o[3], d); }
SCN(p_load)()
{
	alignas(16) float32 m[5]; for (int32 i = 0; i < 5; ++i) m[i] = k_f(i);
	lanes(0, P::load(m), k_f(0), k_f(1), k_f(2), k_f(3)); lanes(10, P::loadu(m + 1), k_f(1), k_f(2), k_f(3), k_f(4));
	lanes(20, P::load(k_f(0), k_f(1), k_f(2), k_f(3)), k_f(0), k_f(1), k_f(2), k_f(3)); lanes(30, P::load(k_f(7)), k_f(7), k_f(7), k_f(7), k_f(7));
}
SCN(p_arith)()
{
	alignas(16) float32 m[8]; for (int32 i = 0; i < 8; ++i) m[i] = k_f(i);
	P::Type a = P::load(m), b = P::load(m + 4);
#define L(op) k_f(0) op k_f(4), k_f(1) op k_f(5), k_f(2) op k_f(6), k_f(3) op k_f(7)
	lanes(0, P::add(a, b), L(+)); lanes(10, P::sub(a, b), L(-)); lanes(20, P::mul(a, b), L(*)); lanes(30, P::div(a, b), L(/));
}
template<uint8 mask> static inline void masked(int32 t)
{
	alignas(16) float32 m[4], o[4]; for (int32 i = 0; i < 4; ++i) m[i] = k_f(i), o[i] = k_f(10 + i);
	P::store<mask>(o, P::load(m));
	for (int32 i = 0; i < 4; ++i) k_eqf(t + i, o[i], k_f(mask >> i & 1 ? i : 10 + i));
}
SCN(p_masked)() { masked<0xf>(0); masked<0>(10); masked<1>(20); masked<5>(30); masked<10>(40); masked<8>(50); }

/// scalar helpers
using M = PlatformMath;
template<class T> static inline void log2s(int32 w) { k_true(100, M::log2(T(0)) == 0); for (int32 k = 0; k < w; ++k) k_true(k, M::log2(top<T>(k)) == T(k)); }
template<class T> static inline void log2e(int32 w) { for (int32 k = 0; k < w; ++k) { const T b = T(1) << k; k_true(k, M::log2(b) == T(k)); k_true(100 + k, M::log2(T(b | (b - 1))) == T(k)); k_true(200 + k, M::log2(T(b | b >> 1)) == T(k)); } }
SCN(log2e_u32)() { log2e<uint32>(32); } SCN(log2e_u64)() { log2e<uint64>(64); } SCN(log2e_i32)() { log2e<int32>(31); } SCN(log2e_i64)() { log2e<int64>(63); } SCN(log2e_u16)() { log2e<uint16>(16); } SCN(log2e_u8)() { log2e<uint8>(8); }
SCN(log2_u32)() { log2s<uint32>(32); } SCN(log2_u64)() { log2s<uint64>(64); } SCN(log2_i32)() { log2s<int32>(31); } SCN(log2_i64)() { log2s<int64>(63); } SCN(log2_u16)() { log2s<uint16>(16); } SCN(log2_u8)() { log2s<uint8>(8); }
template<class T> static inline void align(int32 w)
{
	const T n = in<T>(0);
	for (uint64 k = 0; k < 13; ++k) { k_bits(k, w, M::align2Down(n, 1ull << k), n / (1ull << k) * (1ull << k)); k_bits(20 + k, w, M::align2Up(n, 1ull << k), n / (1ull << k) * (1ull << k) + (1ull << k)); }
}
template<class T> static inline void aligne()
{
	for (uint64 k = 0; k < 13; ++k)
	{
		const uint64 a = 1ull << k;
		for (uint64 q = 0; q < 4; ++q)
		{
			k_true(10 * k, M::align2Down(T(q * a), a) == T(q * a)); k_true(10 * k + 1, M::align2Up(T(q * a), a) == T(q * a + a));
			k_true(10 * k + 2, M::align2Down(T(q * a + a - 1), a) == T(q * a)); k_true(10 * k + 3, M::align2Up(T(q * a + a - 1), a) == T(q * a + a));
			k_true(10 * k + 4, M::align2Down(T(q * a + a / 2), a) == T(q * a)); k_true(10 * k + 5, M::align2Up(T(q * a + a / 2), a) == T(q * a + a));
		}
	}
	if (sizeof(T) == 8) { k_true(200, M::align2Down(T(0x7000000300000017ull), 16) == T(0x7000000300000010ull)); k_true(201, M::align2Up(T(0x7000000300000017ull), 16) == T(0x7000000300000020ull)); }
}
SCN(aligne_u32)() { aligne<uint32>(); } SCN(aligne_u64)() { aligne<uint64>(); } SCN(aligne_i32)() { aligne<int32>(); } SCN(aligne_i64)() { aligne<int64>(); }
SCN(align_u32)() { align<uint32>(32); } SCN(align_u64)() { align<uint64>(64); }
template<class T, class U> static inline void power(int32 top) { const T x = in<T>(0); T r = 1; for (int32 k = 0; k <= top; ++k, r *= x) eq(k, M::pow(x, U(k)), r); }
SCN(pow_f)() { power<float32, int32>(20); } SCN(pow_d)() { power<float64, uint32>(20); } SCN(pow_i)() { power<int64, int32>(20); } SCN(pow_u8)() { power<float32, uint8>(16); }
SCN(pow_neg)() { const float32 x = k_f(0); float32 r = 1.f; for (int32 k = 0; k < 8; ++k, r *= x) k_eqf(k, M::pow(x, -k), 1.f / r); }
SCN(pow_one)() { k_true(0, M::pow(2, 10) == 1024 && M::pow(3, 0) == 1 && M::pow(7, 1) == 7 && M::pow(1, -3) == 1); }
template<class T> static inline void absol() { const T x = in<T>(0); if (x < 0) eq(0, M::abs(x), T(-x)); else if (x >= 0) eq(1, M::abs(x), x); }
SCN(abs_f)() { absol<float32>(); } SCN(abs_d)() { absol<float64>(); } SCN(abs_i)() { absol<int32>(); } SCN(abs_l)() { absol<int64>(); }
/// r is one of the n values and none is beyond it
template<class T> static inline void extreme(int32 t, T lo, T hi, int32 n)
{
	bool l = false, h = false;
	for (int32 i = 0; i < n; ++i) { const T x = in<T>(i); if (x < lo) k_true(t, false); if (x > hi) k_true(t + 1, false); l |= x == lo; h |= x == hi; }
	k_true(t + 2, l); k_true(t + 3, h);
}
#define IN4 in<T>(0), in<T>(1), in<T>(2), in<T>(3)
template<class T> static inline void minmax2() { extreme<T>(0, M::min(in<T>(0), in<T>(1)), M::max(in<T>(0), in<T>(1)), 2); }
template<class T> static inline void minmax3() { extreme<T>(0, M::min(in<T>(0), in<T>(1), in<T>(2)), M::max(in<T>(0), in<T>(1), in<T>(2)), 3); }
template<class T> static inline void minmax4() { extreme<T>(0, M::min(IN4), M::max(IN4), 4); }
SCN(minmax2_i)() { minmax2<int32>(); } SCN(minmax2_u)() { minmax2<uint64>(); } SCN(minmax3_i)() { minmax3<int32>(); } SCN(minmax4_i)() { minmax4<int64>(); }
SCN(minmax_f)() { const float32 a = k_f(0), b = k_f(1); if (a < b) { k_eqf(0, M::min(a, b), a); k_eqf(1, M::max(a, b), b); } else if (a > b) { k_eqf(2, M::min(a, b), b); k_eqf(3, M::max(a, b), a); } }
SCN(funs)()
{
	const float32 x = k_f(0), y = k_f(1);
	k_eqf(0, M::sin(x), ::sinf(x)); k_eqf(1, M::cos(x), ::cosf(x)); k_eqf(2, M::tan(x), ::tanf(x)); k_eqf(3, M::asin(x), ::asinf(x)); k_eqf(4, M::acos(x), ::acosf(x)); k_eqf(5, M::atan(x), ::atanf(x));
	k_eqf(6, M::pow(x, y), ::powf(x, y)); k_eqf(7, M::sqrt(x), ::sqrtf(x));
}
