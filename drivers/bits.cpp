// bit manipulation: every function for every unsigned width (and enums), against bit-by-bit definitions
#include <muu/core.h>
#include <muu/bit.h>
#include <muu/math.h>
#define SCALAR unsigned
#include "ob.h"
#undef I
#undef R
using namespace muu;
using u8 = unsigned char;
using u16 = unsigned short;
using u32 = unsigned;
using ul = unsigned long;
using ull = unsigned long long;
enum class e8 : u8 {};
enum class e16 : u16 {};
enum class e32 : u32 {};
enum class e64 : ull {};
template <typename T>
struct raw_ { using type = T; };
template <> struct raw_<e8> { using type = u8; };
template <> struct raw_<e16> { using type = u16; };
template <> struct raw_<e32> { using type = u32; };
template <> struct raw_<e64> { using type = ull; };
#define W int(sizeof(T) * 8)
#define IF(ret, name) EX ret CAT(i__, name)
#define SF(ret, name) EX ret CAT(s__, name)
namespace ref
{
	template <typename T>
	INL int pop(T x)
	{
		int n = 0;
		for (int i = 0; i < W; i++)
			n += int((x >> i) & 1);
		return n;
	}
	template <typename T>
	INL int lead(T x, bool b)
	{
		int n = W;
		bool run = true;
		n = 0;
		for (int i = W - 1; i >= 0; i--)
		{
			run = run & (bool((x >> i) & 1) == b);
			n += run;
		}
		return n;
	}
	template <typename T>
	INL int trail(T x, bool b)
	{
		bool run = true;
		int n = 0;
		for (int i = 0; i < W; i++)
		{
			run = run & (bool((x >> i) & 1) == b);
			n += run;
		}
		return n;
	}
	template <typename T>
	INL T reverse(T x)
	{
		T r{};
		for (int i = 0; i < int(sizeof(T)); i++)
			r = T(r | T(T(T(x >> (8 * i)) & T(0xFF)) << (W - 8 - 8 * i)));
		return r;
	}
	template <typename T>
	INL T fill_right(unsigned long n)
	{
		T r{};
		for (int i = 0; i < W; i++)
			r = T(r | (i < long(n > 1000 ? 1000 : n) ? T(T{ 1 } << i) : T{}));
		return r;
	}
	template <typename T>
	INL T fill_left(unsigned long n)
	{
		T r{};
		for (int i = 0; i < W; i++)
			r = T(r | (i < long(n > 1000 ? 1000 : n) ? T(T{ 1 } << (W - 1 - i)) : T{}));
		return r;
	}
	// the smallest power of two not less than x (0 where none is representable)
	template <typename T>
	INL T ceil(T x)
	{
		T r{};
		for (int i = W - 1; i >= 0; i--)
			r = (T(T{ 1 } << i) >= x) ? T(T{ 1 } << i) : r;
		return r;
	}
	template <typename T>
	INL T floor(T x)
	{
		T r{};
		for (int i = 0; i < W; i++)
			r = (T(T{ 1 } << i) <= x) ? T(T{ 1 } << i) : r;
		return r;
	}
}
#define BASIC(t, n)                                                                                                    \
	IF(int, popcount_##n)(t x) { return popcount(x); }                                                                 \
	SF(int, popcount_##n)(t x) { return ref::pop(raw_<t>::type(x)); }                                                  \
	IF(bool, has_single_bit_##n)(t x) { return has_single_bit(x); }                                                    \
	SF(bool, has_single_bit_##n)(t x) { return ref::pop(raw_<t>::type(x)) == 1; }                                      \
	IF(int, countl_zero_##n)(t x) { return countl_zero(x); }                                                           \
	SF(int, countl_zero_##n)(t x) { return ref::lead(raw_<t>::type(x), false); }                                       \
	IF(int, countl_one_##n)(t x) { return countl_one(x); }                                                             \
	SF(int, countl_one_##n)(t x) { return ref::lead(raw_<t>::type(x), true); }                                         \
	IF(int, countr_zero_##n)(t x) { return countr_zero(x); }                                                           \
	SF(int, countr_zero_##n)(t x) { return ref::trail(raw_<t>::type(x), false); }                                      \
	IF(int, countr_one_##n)(t x) { return countr_one(x); }                                                             \
	SF(int, countr_one_##n)(t x) { return ref::trail(raw_<t>::type(x), true); }                                        \
	IF(ull, bit_width_##n)(t x) { return ull(bit_width(x)); }                                                          \
	SF(ull, bit_width_##n)(t x) { return ull(sizeof(t) * 8) - ull(ref::lead(raw_<t>::type(x), false)); }               \
	IF(ull, bit_floor_##n)(t x) { return ull(bit_floor(x)); }                                                          \
	SF(ull, bit_floor_##n)(t x) { return ull(ref::floor(raw_<t>::type(x))); }                                          \
	IF(ull, bit_ceil_##n)(t x) { return ull(x) > (1ull << (sizeof(t) * 8 - 1)) ? 0 : ull(bit_ceil(x)); }               \
	SF(ull, bit_ceil_##n)(t x) { return ull(ref::ceil(raw_<t>::type(x))); }                                            \
	IF(ull, byte_reverse_##n)(t x) { return ull(byte_reverse(x)); }                                                    \
	SF(ull, byte_reverse_##n)(t x) { return ull(ref::reverse(raw_<t>::type(x))); }                                     \
	IF(ull, bit_fill_right_##n)(ul c) { return ull(bit_fill_right<t>(c)); }                                            \
	SF(ull, bit_fill_right_##n)(ul c) { return ull(ref::fill_right<raw_<t>::type>(c)); }                               \
	IF(ull, bit_fill_left_##n)(ul c) { return ull(bit_fill_left<t>(c)); }                                              \
	SF(ull, bit_fill_left_##n)(ul c) { return ull(ref::fill_left<raw_<t>::type>(c)); }
BASIC(u8, u8)
BASIC(u16, u16)
BASIC(u32, u32)
BASIC(ul, ul)
BASIC(ull, ull)
BASIC(e8, e8)
BASIC(e16, e16)
BASIC(e32, e32)
BASIC(e64, e64)
#define SELECT(t, n)                                                                                                   \
	IF(u8, byte_select_##n)(t x, ul i) { return byte_select(x, i); }                                                   \
	SF(u8, byte_select_##n)(t x, ul i)                                                                                 \
	{                                                                                                                  \
		u8 r = 0;                                                                                                      \
		for (ul k = 0; k < sizeof(t); k++)                                                                             \
			r = k == i ? u8(ull(x) >> (8 * k)) : r;                                                                    \
		return r;                                                                                                      \
	}                                                                                                                  \
	IF(ull, byte_select_static_##n)(t x)                                                                               \
	{                                                                                                                  \
		constexpr ul last = sizeof(t) - 1;                                                                             \
		return ull(byte_select<0>(x)) | ull(byte_select<last>(x)) << 8 | ull(byte_select<last / 2>(x)) << 16;          \
	}                                                                                                                  \
	SF(ull, byte_select_static_##n)(t x)                                                                               \
	{                                                                                                                  \
		constexpr ul last = sizeof(t) - 1;                                                                             \
		return (ull(x) & 255) | ((ull(x) >> (8 * last)) & 255) << 8 | ((ull(x) >> (8 * (last / 2))) & 255) << 16;      \
	}
SELECT(u8, u8)
SELECT(u16, u16)
SELECT(u32, u32)
SELECT(ul, ul)
SELECT(ull, ull)
SELECT(e16, e16)
SELECT(e64, e64)
SELECT(signed char, s8)
SELECT(short, s16)
SELECT(int, s32)
SELECT(long long, s64)
IF(ull, swizzle_u32)(u32 x) { return ull(u32(swizzle<3, 1, 0, 2>(x))); }
SF(ull, swizzle_u32)(u32 x) { return (x & 0xFF000000u) | ((x & 0xFF00u) << 8) | ((x & 0xFFu) << 8) | ((x >> 16) & 0xFFu); }
IF(ull, swizzle_s32_rep)(int x) { return ull(swizzle<3, 2, 3>(x)) & 0xFFFFFFFFu; }
SF(ull, swizzle_s32_rep)(int x)
{
	const u32 y = u32(x);
	return ull((y >> 24) << 16 | ((y >> 16) & 0xFF) << 8 | (y >> 24));
}
IF(ull, swizzle_u64_two)(ull x) { return ull(swizzle<1, 7>(x)); }
SF(ull, swizzle_u64_two)(ull x) { return ((x >> 8) & 0xFF) << 8 | x >> 56; }
IF(ull, swizzle_u64_one)(ull x) { return ull(swizzle<5>(x)); }
SF(ull, swizzle_u64_one)(ull x) { return (x >> 40) & 0xFF; }
IF(ull, swizzle_u16_up)(u16 x) { return ull(swizzle<0, 1, 0, 1, 1, 0, 0, 1>(x)); }
SF(ull, swizzle_u16_up)(u16 x)
{
	const ull a = x & 0xFF, b = x >> 8;
	return a << 56 | b << 48 | a << 40 | b << 32 | b << 24 | a << 16 | a << 8 | b;
}
IF(ull, bit_pack_8_8)(u8 a, u8 b) { return ull(bit_pack(a, b)); }
SF(ull, bit_pack_8_8)(u8 a, u8 b) { return ull(a) << 8 | b; }
IF(ull, bit_pack_8_16_8)(u8 a, u16 b, u8 c) { return ull(bit_pack(a, b, c)); }
SF(ull, bit_pack_8_16_8)(u8 a, u16 b, u8 c) { return ull(a) << 24 | ull(b) << 8 | c; }
IF(ull, bit_pack_s8_s16_s8)(signed char a, short b, signed char c) { return ull(bit_pack<ull>(a, b, c)); }
SF(ull, bit_pack_s8_s16_s8)(signed char a, short b, signed char c) { return ull(u8(a)) << 24 | ull(u16(b)) << 8 | u8(c); }
IF(ull, bit_pack_32_32)(u32 a, u32 b) { return ull(bit_pack(a, b)); }
SF(ull, bit_pack_32_32)(u32 a, u32 b) { return ull(a) << 32 | b; }
IF(ull, bit_pack_16x4)(u16 a, u16 b, u16 c, u16 d) { return ull(bit_pack(a, b, c, d)); }
SF(ull, bit_pack_16x4)(u16 a, u16 b, u16 c, u16 d) { return ull(a) << 48 | ull(b) << 32 | ull(c) << 16 | d; }
IF(ull, bit_pack_enum)(e8 a, e16 b, e8 c) { return ull(bit_pack<e32>(a, b, c)); }
SF(ull, bit_pack_enum)(e8 a, e16 b, e8 c) { return ull(a) << 24 | ull(b) << 8 | ull(c); }
IF(long long, bit_pack_signed_result)(short a, short b) { return bit_pack<int>(a, b); }
SF(long long, bit_pack_signed_result)(short a, short b) { return int(u32(u16(a)) << 16 | u16(b)); }
IF(ull, bit_cast_f32)(float x) { return bit_cast<u32>(x); }
SF(ull, bit_cast_f32)(float x)
{
	u32 r;
	__builtin_memcpy(&r, &x, 4);
	return r;
}
#define ALIGN(t, n)                                                                                                    \
	IF(ull, align_static_##n)(t x) { return ull(apply_alignment<16>(x)); }                                             \
	SF(ull, align_static_##n)(t x) { return ull(raw_<t>::type((ull(x) + 15) / 16 * 16)); }                             \
	IF(ull, align_static1_##n)(t x) { return ull(apply_alignment<1>(x)); }                                             \
	SF(ull, align_static1_##n)(t x) { return ull(x); }                                                                 \
	IF(ull, align_##n)(t x, u8 k) { return ull(apply_alignment(x, ul(1) << (k & 7))); }                                \
	SF(ull, align_##n)(t x, u8 k)                                                                                      \
	{                                                                                                                  \
		return ull(raw_<t>::type((ull(x) + ((1ull << (k & 7)) - 1)) & ~((1ull << (k & 7)) - 1)));                      \
	}
ALIGN(u16, u16)
ALIGN(u32, u32)
ALIGN(ul, ul)
ALIGN(ull, ull)
ALIGN(e32, e32)
#ifdef __SIZEOF_INT128__
using u128 = unsigned __int128;
	#define BIG(f, g) IF(int, f##_u128)(ul h, ul l) { return f(u128(h) << 64 | l); } SF(int, f##_u128)(ul h, ul l) { return g; }
BIG(popcount, ref::pop(h) + ref::pop(l))
BIG(countl_zero, ref::lead(h, false) == 64 ? 64 + ref::lead(l, false) : ref::lead(h, false))
BIG(countl_one, ref::lead(h, true) == 64 ? 64 + ref::lead(l, true) : ref::lead(h, true))
BIG(countr_zero, ref::trail(l, false) == 64 ? 64 + ref::trail(h, false) : ref::trail(l, false))
BIG(countr_one, ref::trail(l, true) == 64 ? 64 + ref::trail(h, true) : ref::trail(l, true))
EX void i__byte_reverse_u128(ul h, ul l, ul* __restrict o)
{
	const u128 r = byte_reverse(u128(h) << 64 | l);
	o[0] = ul(r);
	o[1] = ul(r >> 64);
}
EX void s__byte_reverse_u128(ul h, ul l, ul* __restrict o)
{
	o[0] = ref::reverse(h);
	o[1] = ref::reverse(l);
}
#endif
