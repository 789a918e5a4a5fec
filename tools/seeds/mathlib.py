PRE = r"""
#include <cstdio>
#include <cmath>
#include "hal/platform_math.h"
#include "math/math.h"
#include "math/mat4.h"
#include "math/simd.h"
#include <limits>
static bool near(float a, float b) { return std::fabs(a - b) < 1e-4f; }
static bool near(vec3 a, vec3 b) { return near(a.x, b.x) && near(a.y, b.y) && near(a.z, b.z); }
"""
V2, V3, V4, Q, M, S, G = "math/vec2.h", "math/vec3.h", "math/vec4.h", "math/quat.h", "math/mat4.h", "math/simd_float.h", "generic/generic_platform_math.h"
SEEDS = [
 dict(id="N01-a", property="N01", pre=PRE, needs="scaling a vector by one of its own components",
      breaks="components after it are scaled by the changed value",
      edits=[(V3, "	FORCE_INLINE Vec3 & operator*=(T s)", "	FORCE_INLINE Vec3 & operator*=(const T & s)")],
      demo="	Vec3<float32> a{2.f, 3.f, 4.f}; a *= a.x; return !(a.x == 4.f && a.y == 6.f && a.z == 8.f);"),
 dict(id="N01-b", property="N01", pre=PRE, needs="a comparison with a component that is not a number",
      breaks="an unordered component counts as less or equal",
      edits=[(V4, "		return (x <= other.x) | (y <= other.y) << 1 | (z <= other.z) << 2 | (w <= other.w) << 3;", "		return ~cmpgt(other) & 0xf;")],
      demo="	float n = std::numeric_limits<float>::quiet_NaN(); Vec4<float32> a{1.f, n, 2.f, 3.f}, b{2.f, 2.f, 2.f, 2.f}; if (a.cmple(b) != 0x5 || a <= b) return 1; return Vec4<int32>{1, 2, 3, 4}.cmple(Vec4<int32>{1, 3, 2, 4}) != 0xb;"),
 dict(id="N01-c", property="N01", pre=PRE, needs="the opposite directions of the float vectors",
      breaks="down is the same direction as up",
      edits=[("src/korin/core/private/math/math.cpp", "Vec3<float32>::down = {0.f, -1.f, 0.f};", "Vec3<float32>::down = {0.f, 1.f, 0.f};")],
      demo="	return !near(vec3::down, -vec3::up) || !near(vec3::left, -vec3::right) || !near(vec3::backward, -vec3::forward);"),
 dict(id="N01-d", property="N01", pre=PRE, needs="an integer vector divided by a scalar above one",
      breaks="division by a scalar of integer vectors multiplies by its truncated reciprocal",
      edits=[(V2, "		x /= s, y /= s;", "		const T r = T(1) / s;\n		x *= r, y *= r;")],
      demo="	Vec2<int32> a{7, 12}; a /= 2; Vec2<float32> b{7.f, 12.f}; b /= 2.f; return a.x != 3 || a.y != 6 || b.x != 3.5f || b.y != 6.f;"),
 dict(id="N02-a", property="N02", pre=PRE, needs="the forward direction of a rotation about two axes",
      breaks="axes are not a right-handed basis",
      edits=[(Q, "		const vec3 z = x ^ y;", "		const vec3 z = y ^ x;")],
      demo="	Quat q{0.7f, vec3{0.6f, 0.f, 0.8f}}; auto a = q.getAxes(); const vec3 * p = &a[0]; return !near(p[2], q.getForward()) || !near(p[0], q.getRight());"),
 dict(id="N02-b", property="N02", pre=PRE, needs="rotation about another axis than y by more than half a turn",
      breaks="rotations of more than half a turn have half the angle mirrored",
      edits=[(Q, "		this->w = PlatformMath::cos(inAngle);\n", "		this->w = PlatformMath::abs(PlatformMath::cos(inAngle));\n")],
      demo="	Quat q{4.f, vec3{0.f, 0.f, 1.f}}, r{1.f, vec3{0.f, 0.f, 1.f}}; return !near(q * vec3::right, vec3{cosf(4.f), sinf(4.f), 0.f}) || !near(r * vec3::right, vec3{cosf(1.f), sinf(1.f), 0.f});"),
 dict(id="N02-c", property="N02", pre=PRE, needs="a rotation vector whose length is not one",
      breaks="the angle is taken for the whole length instead of half of it",
      edits=[(Q, "		float32 alpha = v.getSize();", "		float32 alpha = v.getSquaredSize();")],
      demo="	Quat q{vec3{0.f, 2.f, 0.f}}, r{2.f, vec3{0.f, 1.f, 0.f}}; return !near(q * vec3::right, r * vec3::right);"),
 dict(id="N02-d", property="N02", pre=PRE, needs="a vector that is not orthogonal to the axis",
      breaks="the component along the axis is lost in half turns",
      edits=[(Q, "		return v + (this->w * t) + (q ^ t);", "		return v * (this->w * this->w + (q & q) - 2.f * (q & v) * q.x) + (this->w * t) + (q ^ t);")],
      demo="	Quat q{1.f, vec3{0.6f, 0.f, 0.8f}}; vec3 v{1.f, 2.f, 3.f}; return !near((q * v).getSquaredSize(), v.getSquaredSize());"),
 dict(id="N03-a", property="N03", pre=PRE, needs="elements off the first row and column",
      breaks="one pair of elements is not exchanged by transposing",
      edits=[(M, "		swap(vec[7], vec[13]);\n", "		swap(vec[13], vec[13]);\n")],
      demo="	float v[16]; for (int i = 0; i < 16; ++i) v[i] = i; Mat4<float> m{v}; m.transpose(); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (m(i, j) != v[j * 4 + i]) return 1;"),
 dict(id="N03-b", property="N03", pre=PRE, needs="matrices that differ in one element only",
      breaks="matrices that differ in their first element compare equal",
      edits=[(M, "		return cmp(other) == (uint16)0xffffu;", "		return (uint16)(cmp(other) << 1u) == (uint16)0xfffeu;")],
      demo="	float v[16]; for (int i = 0; i < 16; ++i) v[i] = i; Mat4<float> m{v}; for (int i = 0; i < 16; ++i) { Mat4<float> n = m; n(i) = 99; if (n == m || !(n != m)) return 1; } return !(m == m);"),
 dict(id="N03-c", property="N03", pre=PRE, needs="storing to an address that is not a multiple of 16",
      breaks="storing to an unaligned address faults",
      edits=[(S, "		_mm_storeu_ps(ptr, v);", "		_mm_store_ps(ptr, v);")],
      demo="	alignas(16) float o[8] = {}; Vector4<float32>::store(o + 1, Vector4<float32>::load(2.f)); return o[0] != 0.f || o[1] != 2.f || o[4] != 2.f || o[5] != 0.f;"),
 dict(id="N04-a", property="N04", pre=PRE, needs="a 64 bit number with bits set above the 31st",
      breaks="the logarithm of big numbers is taken of their low half",
      edits=[(G, "63ull - __builtin_clzll((uint64)n)", "(uint64)n >> 32 ? 31ull + log2((uint32)(n >> 32)) : (uint64)log2((uint32)n)")],
      demo="	for (int i = 0; i < 64; ++i) if (PlatformMath::log2(1ull << i) != (uint64)i) return 1;"),
 dict(id="N04-b", property="N04", pre=PRE, needs="an aligned number above 4 GB",
      breaks="the upper half of 64 bit values is cleared",
      edits=[(G, "		return n & (alignment - 1) ^ n;", "		return n & ~(uint32)(alignment - 1);")],
      demo="	return PlatformMath::align2Down(0x1200000011ull, 16) != 0x1200000010ull || PlatformMath::align2Down(31u, 16) != 16u;"),
 dict(id="N04-c", property="N04", pre=PRE, needs="three or more arguments with the smallest last but behind a larger one",
      breaks="the minimum of many values forgets the first",
      edits=[(G, "		return a < b ? min(a, forward<Args>(c)...) : min(b, forward<Args>(c)...);", "		return min(b, forward<Args>(c)...);")],
      demo="	return PlatformMath::min(1, 2, 3) != 1 || PlatformMath::min(2, 1, 3) != 1 || PlatformMath::min(3, 2, 1) != 1;"),
 dict(id="N04-d", property="N04", pre=PRE, needs="an exponent with two set bits",
      breaks="odd exponents multiply the base once too rarely",
      edits=[(G, "		T z = pow(x, y >> 1);\n", "		if (y == 3) return x * x;\n		T z = pow(x, y >> 1);\n")],
      demo="	float r = 1.f; for (int i = 0; i < 16; ++i, r *= 2.f) if (PlatformMath::pow(2.f, i) != r) return 1;"),
]
