// scalar utilities against their mathematical definitions
#include <muu/core.h>
#include <muu/math.h>
#include "ob.h"
#undef I
#undef P
using namespace muu;
using u8 = unsigned char;
using u16 = unsigned short;
using u32 = unsigned;
using ul = unsigned long;
using sl = long;
#define IF(ret, name) EX ret CAT(i__, name)
#define SF(ret, name) EX ret CAT(s__, name)
enum class ue : unsigned char {};
enum class se : short {};
// ---- selection among values
#define SELECT(T, n)                                                                                                   \
	IF(T, min2_##n)(T a, T b) { return muu::min(a, b); }                                                               \
	SF(T, min2_##n)(T a, T b) { return b < a ? b : a; }                                                                \
	IF(T, min3_##n)(T a, T b, T c) { return muu::min(a, b, c); }                                                       \
	SF(T, min3_##n)(T a, T b, T c) { T r = b < a ? b : a; return c < r ? c : r; }                                      \
	IF(T, min4_##n)(T a, T b, T c, T d) { return muu::min(a, b, c, d); }                                               \
	SF(T, min4_##n)(T a, T b, T c, T d) { T r = b < a ? b : a; r = c < r ? c : r; return d < r ? d : r; }              \
	IF(T, max2_##n)(T a, T b) { return muu::max(a, b); }                                                               \
	SF(T, max2_##n)(T a, T b) { return a < b ? b : a; }                                                                \
	IF(T, max3_##n)(T a, T b, T c) { return muu::max(a, b, c); }                                                       \
	SF(T, max3_##n)(T a, T b, T c) { T r = a < b ? b : a; return r < c ? c : r; }                                      \
	IF(T, max4_##n)(T a, T b, T c, T d) { return muu::max(a, b, c, d); }                                               \
	SF(T, max4_##n)(T a, T b, T c, T d) { T r = a < b ? b : a; r = r < c ? c : r; return r < d ? d : r; }              \
	IF(T, clamp_##n)(T a, T lo, T hi) { const T l = hi < lo ? hi : lo, h = hi < lo ? lo : hi; return muu::clamp(a, l, h); }          \
	SF(T, clamp_##n)(T a, T lo, T hi) { const T l = hi < lo ? hi : lo, h = hi < lo ? lo : hi; return a > h ? h : a < l ? l : a; }  \
	IF(bool, between_##n)(T a, T lo, T hi) { return muu::between(a, lo, hi); }                                         \
	SF(bool, between_##n)(T a, T lo, T hi) { return a >= lo && a <= hi; }
SELECT(int, int)
SELECT(u8, u8)
SELECT(ul, ul)
SELECT(signed char, s8)
SELECT(double, double)
SELECT(float, float)
IF(int, min5)(int a, int b, int c, int d, int e) { return muu::min(a, b, c, d, e); }
SF(int, min5)(int a, int b, int c, int d, int e)
{
	int r = a;
	r = b < r ? b : r;
	r = c < r ? c : r;
	r = d < r ? d : r;
	return e < r ? e : r;
}
IF(int, max5)(int a, int b, int c, int d, int e) { return muu::max(a, b, c, d, e); }
SF(int, max5)(int a, int b, int c, int d, int e)
{
	int r = a;
	r = b > r ? b : r;
	r = c > r ? c : r;
	r = d > r ? d : r;
	return e > r ? e : r;
}
// ---- between() across types compares the mathematical values
#define MIXED(T, U, n)                                                                                                 \
	IF(bool, between_mixed_##n)(T a, U lo, U hi) { return muu::between(a, lo, hi); }                                   \
	SF(bool, between_mixed_##n)(T a, U lo, U hi) { return (__int128)a >= (__int128)lo && (__int128)a <= (__int128)hi; }
MIXED(int, u32, i32_u32)
MIXED(u32, int, u32_i32)
MIXED(sl, ul, i64_u64)
MIXED(ul, sl, u64_i64)
MIXED(signed char, ul, i8_u64)
MIXED(u8, sl, u8_i64)
MIXED(short, u8, i16_u8)
MIXED(u16, short, u16_i16)
MIXED(ul, int, u64_i32)
MIXED(int, ul, i32_u64)
IF(bool, between_enum)(ue a, ue lo, ue hi) { return muu::between(a, lo, hi); }
SF(bool, between_enum)(ue a, ue lo, ue hi) { return int(a) >= int(lo) && int(a) <= int(hi); }
IF(bool, between_enum_int)(se a, u32 lo, u32 hi) { return muu::between(a, lo, hi); }
SF(bool, between_enum_int)(se a, u32 lo, u32 hi) { return sl(a) >= sl(lo) && sl(a) <= sl(hi); }
IF(int, unwrap_se)(se a) { return unwrap(a); }
SF(int, unwrap_se)(se a) { return short(a); }
IF(int, unwrap_int)(int a) { return unwrap(a); }
SF(int, unwrap_int)(int a) { return a; }
// ---- byte offsets
IF(ul, offset_int)(ul p, int k) { return (ul)apply_offset((int*)p, k); }
SF(ul, offset_int)(ul p, int k) { return p + ul(sl(k)); }
IF(ul, offset_double)(ul p, u32 k) { return (ul)apply_offset((double*)p, k); }
SF(ul, offset_double)(ul p, u32 k) { return p + k; }
IF(ul, offset_char)(ul p, sl k) { return (ul)apply_offset((const char*)p, k); }
SF(ul, offset_char)(ul p, sl k) { return p + ul(k); }
#define OFFSETS(T, n)                                                                                                  \
	IF(ul, offset_##n##_i64)(ul p, sl k) { return (ul)apply_offset((T*)p, k); }                                        \
	SF(ul, offset_##n##_i64)(ul p, sl k) { return p + ul(k); }                                                         \
	IF(ul, offset_##n##_u64)(ul p, ul k) { return (ul)apply_offset((T*)p, k); }                                        \
	SF(ul, offset_##n##_u64)(ul p, ul k) { return p + k; }                                                             \
	IF(ul, offset_##n##_i8)(ul p, signed char k) { return (ul)apply_offset((T*)p, k); }                                \
	SF(ul, offset_##n##_i8)(ul p, signed char k) { return p + ul(sl(k)); }
OFFSETS(void, v)
OFFSETS(const void, cv)
OFFSETS(int, i)
OFFSETS(const double, cd)
OFFSETS(char, c)
OFFSETS(std::byte, b)
IF(ul, offset_void)(ul p, short k) { return (ul)apply_offset((void*)p, k); }
SF(ul, offset_void)(ul p, short k) { return p + ul(sl(k)); }
// ---- float classification by bits
IF(bool, inf_nan_float)(u32 b) { return infinity_or_nan(bit_cast<float>(b)); }
SF(bool, inf_nan_float)(u32 b) { return ((b >> 23) & 255) == 255; }
IF(bool, inf_nan_double)(ul b) { return infinity_or_nan(bit_cast<double>(b)); }
SF(bool, inf_nan_double)(ul b) { return ((b >> 52) & 2047) == 2047; }
IF(bool, inf_nan_float_generic)(u32 b) { float f[2]{ 1.0f, bit_cast<float>(b) }; return infinity_or_nan(f); }
SF(bool, inf_nan_float_generic)(u32 b) { return ((b >> 23) & 255) == 255; }
IF(bool, inf_nan_three)(u32 a, ul b, int c) { return infinity_or_nan(c, bit_cast<float>(a), bit_cast<double>(b)); }
SF(bool, inf_nan_three)(u32 a, ul b, int c) { return ((a >> 23) & 255) == 255 || ((b >> 52) & 2047) == 2047; }
IF(bool, inf_nan_f16)(u16 b) { return infinity_or_nan(bit_cast<_Float16>(b)); }
SF(bool, inf_nan_f16)(u16 b) { return ((b >> 10) & 31) == 31; }
IF(bool, inf_nan_int)(int a) { return infinity_or_nan(a); }
SF(bool, inf_nan_int)(int a) { return false; }
// ---- arithmetic
#define FLOATS(T, n)                                                                                                   \
	IF(T, abs_##n)(T x) { return muu::abs(x); }                                                                        \
	SF(T, abs_##n)(T x) { return x < 0 ? -x : x; }                                                                     \
	IF(T, lerp_##n)(T a, T b, T t) { return muu::lerp(a, b, t); }                                                      \
	SF(T, lerp_##n)(T a, T b, T t) { return a + t * (b - a); }                                                         \
	IF(bool, approx_equal_##n)(T a, T b, T e) { return muu::approx_equal(a, b, e); }                                   \
	SF(bool, approx_equal_##n)(T a, T b, T e) { if (!(e >= 0)) __builtin_unreachable(); return a - b < e && b - a < e; } \
	IF(bool, approx_zero_##n)(T a, T e) { return muu::approx_zero(a, e); }                                             \
	SF(bool, approx_zero_##n)(T a, T e) { if (!(e >= 0)) __builtin_unreachable(); return a < e && -e < a; }            \
	IF(bool, approx_equal_default_##n)(T a, T b) { return muu::approx_equal(a, b); }                                   \
	SF(bool, approx_equal_default_##n)(T a, T b) { return a - b < default_epsilon<T> && b - a < default_epsilon<T>; }  \
	IF(bool, approx_zero_default_##n)(T a) { return muu::approx_zero(a); }                                             \
	SF(bool, approx_zero_default_##n)(T a) { return a < default_epsilon<T> && -a < default_epsilon<T>; }               \
	IF(T, sqrt_##n)(T x) { if (!(x > 0)) __builtin_unreachable(); return muu::sqrt(x); }                               \
	SF(T, sqrt_##n)(T x) { if (!(x > 0)) __builtin_unreachable(); return spec::root(x); }                              \
	IF(T, floor_##n)(T x) { return muu::floor(x); }                                                                    \
	SF(T, floor_##n)(T x) { return spec::down(x); }                                                                    \
	IF(T, ceil_##n)(T x) { return muu::ceil(x); }                                                                      \
	SF(T, ceil_##n)(T x) { return spec::up(x); }                                                                       \
	IF(T, sin_##n)(T x) { return muu::sin(x); }                                                                        \
	SF(T, sin_##n)(T x) { return spec::sine(x); }                                                                      \
	IF(T, cos_##n)(T x) { return muu::cos(x); }                                                                        \
	SF(T, cos_##n)(T x) { return spec::cosine(x); }                                                                    \
	IF(T, tan_##n)(T x) { return muu::tan(x); }                                                                        \
	SF(T, tan_##n)(T x) { return TAN_##n(x); }                                                                         \
	IF(T, asin_##n)(T x) { return muu::asin(x); }                                                                      \
	SF(T, asin_##n)(T x) { return spec::arcsin(x); }                                                                   \
	IF(T, acos_##n)(T x) { return muu::acos(x); }                                                                      \
	SF(T, acos_##n)(T x) { return spec::arccos(x); }                                                                   \
	IF(T, atan_##n)(T x) { return muu::atan(x); }                                                                      \
	SF(T, atan_##n)(T x) { return ATAN_##n(x); }                                                                       \
	IF(T, atan2_##n)(T y, T x) { return muu::atan2(y, x); }                                                            \
	SF(T, atan2_##n)(T y, T x) { return spec::arctan2(y, x); }                                                         \
	IF(T, normalize_angle_##n)(T x) { return muu::normalize_angle(x); }                                                \
	SF(T, normalize_angle_##n)(T x)                                                                                    \
	{                                                                                                                  \
		constexpr T c = T(0.159154943091895335769L), w = T(6.283185307179586476925L);                                  \
		return x >= 0 && x < w ? x : x - w * spec::down(x * c);                                                        \
	}                                                                                                                  \
	IF(T, normalize_angle_signed_##n)(T x) { return muu::normalize_angle_signed(x); }                                  \
	SF(T, normalize_angle_signed_##n)(T x)                                                                             \
	{                                                                                                                  \
		constexpr T c = T(0.159154943091895335769L), w = T(6.283185307179586476925L), h = T(3.141592653589793238463L); \
		return x >= -h && x < h ? x : x - w * spec::down((x + h) * c);                                                 \
	}
#define TAN_float __builtin_tanf
#define TAN_double __builtin_tan
#define ATAN_float __builtin_atanf
#define ATAN_double __builtin_atan
FLOATS(float, float)
FLOATS(double, double)
IF(int, abs_int)(int x) { if (x == -2147483647 - 1) __builtin_unreachable(); return muu::abs(x); }
SF(int, abs_int)(int x) { if (x == -2147483647 - 1) __builtin_unreachable(); return x < 0 ? -x : x; }
IF(sl, abs_long)(sl x) { if (x == -9223372036854775807l - 1) __builtin_unreachable(); return muu::abs(x); }
SF(sl, abs_long)(sl x) { if (x == -9223372036854775807l - 1) __builtin_unreachable(); return x < 0 ? -x : x; }
IF(int, abs_s8)(signed char x) { if (x == -128) __builtin_unreachable(); return muu::abs(x); }
SF(int, abs_s8)(signed char x) { if (x == -128) __builtin_unreachable(); return x < 0 ? -x : x; }
IF(int, abs_s16)(short x) { if (x == -32768) __builtin_unreachable(); return muu::abs(x); }
SF(int, abs_s16)(short x) { if (x == -32768) __builtin_unreachable(); return x < 0 ? -x : x; }
IF(u32, abs_u32)(u32 x) { return muu::abs(x); }
SF(u32, abs_u32)(u32 x) { return x; }
IF(bool, approx_equal_int)(int a, int b) { return muu::approx_equal(a, b); }
SF(bool, approx_equal_int)(int a, int b) { return a == b; }
IF(bool, approx_equal_mixed)(float a, double b) { return muu::approx_equal(a, b); }
SF(bool, approx_equal_mixed)(float a, double b) { return a - b < default_epsilon<double> && b - a < default_epsilon<double>; }
IF(bool, approx_equal_float_int)(float a, int b) { return muu::approx_equal(a, b); }
SF(bool, approx_equal_float_int)(float a, int b) { return a - float(b) < default_epsilon<float> && float(b) - a < default_epsilon<float>; }
IF(bool, approx_equal_enum)(se a, se b) { return muu::approx_equal(a, b); }
SF(bool, approx_equal_enum)(se a, se b) { return short(a) == short(b); }
IF(bool, approx_zero_int)(int a) { return muu::approx_zero(a); }
SF(bool, approx_zero_int)(int a) { return a == 0; }
IF(bool, approx_zero_enum)(se a) { return muu::approx_zero(a); }
SF(bool, approx_zero_enum)(se a) { return short(a) == 0; }
IF(double, lerp_mixed)(int a, float b, double t) { return muu::lerp(a, b, t); }
SF(double, lerp_mixed)(int a, float b, double t) { return a + t * (b - a); }
IF(double, sqrt_int)(int x) { if (x <= 0) __builtin_unreachable(); return muu::sqrt(x); }
SF(double, sqrt_int)(int x) { if (x <= 0) __builtin_unreachable(); return spec::root(double(x)); }
IF(double, floor_int)(int x) { return muu::floor(x); }
SF(double, floor_int)(int x) { return double(x); }
// ---- distribution of a total over buckets
#define BUCKETS(T, n)                                                                                                  \
	IF(T, distribute_##n)(T total, T count, T k) { if (!count) __builtin_unreachable(); return evenly_distribute(total, count, k); } \
	SF(T, distribute_##n)(T total, T count, T k)                                                                       \
	{                                                                                                                  \
		if (!count) __builtin_unreachable();                                                                           \
		return T(total / count + (k < total % count ? 1 : 0));                                                         \
	}
BUCKETS(u8, u8)
BUCKETS(u32, u32)
BUCKETS(ul, ul)
