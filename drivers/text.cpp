// character classification against the Unicode character database (the sets are supplied by the analysis: checks/T01.py)
#include <muu/core.h>
#include <muu/chars.h>
#include <muu/preprocessor.h>
#undef MUU_FMA_BLOCK
#define MUU_FMA_BLOCK static_assert(true)
#include "ob.h"
#undef I
#undef P
using namespace muu;
using u8 = unsigned char;
using u16 = unsigned short;
using u32 = unsigned;
using uc = unsigned char;
#define IF(ret, name) EX ret CAT(i__, name)
#define SF(ret, name) EX ret CAT(s__, name)
// membership of a code point in a set of the character database, resolved by the analysis
#define SETS(X) X(hyphen) X(letter) X(lowercase) X(number) X(uppercase) X(whitespace) X(combining_mark) X(octal_digit) X(decimal_digit) X(hexadecimal_digit)
#define DECL(n) extern "C" bool ucd_##n(u32) noexcept __attribute__((const));
SETS(DECL)
DECL(code_point)
#ifdef PART_32
#define T(name, e, spec)                                                                                               \
	IF(bool, name##_lo)(u32 x) { const u32 c = x & 0x1FFFFFu; return e(char32_t(c)); }                                 \
	SF(bool, name##_lo)(u32 x) { const u32 c = x & 0x1FFFFFu; return spec; }                                           \
	IF(bool, name##_hi)(u32 c) { return c >= 0x200000u && e(char32_t(c)); }                                            \
	SF(bool, name##_hi)(u32 c) { return c >= 0x200000u && (spec); }                                                    \
	IF(bool, name##_wchar)(wchar_t x) { return name(x); }                                                              \
	SF(bool, name##_wchar)(wchar_t x) { return name(char32_t(x)); }
#define GROUP(n)                                                                                                       \
	T(is_##n, is_##n, ucd_##n(c))                                                                                      \
	T(is_ascii_##n, is_ascii_##n, c < 0x80u && ucd_##n(c))                                                             \
	T(is_non_ascii_##n, is_non_ascii_##n, c >= 0x80u && ucd_##n(c))                                                    \
	T(is_not_##n, is_not_##n, !ucd_##n(c))
// lower and upper case: the basic plane, the supplementary planes, and that nothing else is classified there
#define CASED(n)                                                                                                       \
	T(is_##n, (c < 0x10000u || c > 0x10FFFFu) && is_##n, (c < 0x10000u || c > 0x10FFFFu) && ucd_##n(c))                \
	T(is_ascii_##n, is_ascii_##n, c < 0x80u && ucd_##n(c))                                                             \
	T(is_non_ascii_##n, (c < 0x10000u || c > 0x10FFFFu) && is_non_ascii_##n, (c < 0x10000u || c > 0x10FFFFu) && c >= 0x80u && ucd_##n(c)) \
	T(is_not_##n, (c < 0x10000u || c > 0x10FFFFu) && is_not_##n, (c < 0x10000u || c > 0x10FFFFu) && !ucd_##n(c))       \
	IF(bool, is_##n##_supplementary)(u32 x) { const u32 c = x & 0x1FFFFFu; return c >= 0x10000u && is_##n(char32_t(c)); } \
	SF(bool, is_##n##_supplementary)(u32 x) { const u32 c = x & 0x1FFFFFu; return c >= 0x10000u && ucd_##n(c); }       \
	IF(bool, is_##n##_only)(u32 x) { const u32 c = x & 0x1FFFFFu; return is_##n(char32_t(c)) && !ucd_##n(c); }         \
	SF(bool, is_##n##_only)(u32) { return false; }                                                                     \
	IF(bool, is_##n##_consistent)(u32 x) { const u32 c = x & 0x1FFFFFu; return is_##n(char32_t(c)) == is_not_##n(char32_t(c)) || is_##n(char32_t(c)) != (is_ascii_##n(char32_t(c)) || is_non_ascii_##n(char32_t(c))); } \
	SF(bool, is_##n##_consistent)(u32) { return false; }
#if PART_32 == 1
GROUP(letter)
#elif PART_32 == 2
CASED(lowercase) CASED(uppercase)
#elif PART_32 == 3
GROUP(number) GROUP(hyphen) GROUP(whitespace) GROUP(code_point)
T(is_code_point_boundary, is_code_point_boundary, c <= 0x10FFFFu)
T(is_octal_digit, is_octal_digit, ucd_octal_digit(c))
T(is_decimal_digit, is_decimal_digit, ucd_decimal_digit(c))
T(is_hexadecimal_digit, is_hexadecimal_digit, ucd_hexadecimal_digit(c))
#elif PART_32 == 4
T(is_combining_mark, is_combining_mark, ucd_combining_mark(c))
#endif
#undef T
#undef GROUP
#endif

#ifdef PART_16
#define NOSUR (c < 0xD800u || c > 0xDFFFu)
#define T(name, spec)                                                                                                  \
	IF(bool, name##_16)(u16 x) { return name(char16_t(x)); }                                                           \
	SF(bool, name##_16)(u16 x) { const u32 c = x; return spec; }
#endif
#ifdef PART_8
#define NOSUR (c < 0x80u)
#define T(name, spec)                                                                                                  \
	IF(bool, name##_char)(u8 x) { return name(char(x)); }                                                              \
	SF(bool, name##_char)(u8 x) { const u32 c = x; return spec; }                                                      \
	IF(bool, name##_char8_t)(u8 x) { return name(char8_t(x)); }                                                        \
	SF(bool, name##_char8_t)(u8 x) { const u32 c = x; return spec; }
#endif
#if defined(PART_16) || defined(PART_8)
#define GROUP(n)                                                                                                       \
	T(is_##n, NOSUR && ucd_##n(c))                                                                                     \
	T(is_ascii_##n, c < 0x80u && ucd_##n(c))                                                                           \
	T(is_non_ascii_##n, c >= 0x80u && NOSUR && ucd_##n(c))                                                             \
	T(is_not_##n, !(NOSUR && ucd_##n(c)))
GROUP(letter) GROUP(lowercase) GROUP(uppercase) GROUP(number) GROUP(hyphen) GROUP(whitespace) GROUP(code_point)
#ifdef PART_16
T(is_code_point_boundary, c < 0xDC00u || c > 0xDFFFu)
#else
T(is_code_point_boundary, c < 0x80u || c >= 0xC0u)
#endif
T(is_octal_digit, ucd_octal_digit(c))
T(is_decimal_digit, ucd_decimal_digit(c))
T(is_hexadecimal_digit, ucd_hexadecimal_digit(c))
T(is_combining_mark, NOSUR && ucd_combining_mark(c))
#endif

#ifdef PART_HEX
// ---- hexadecimal digits
template <typename C> INL u32 digit(C d) { const u32 c = u32(d); return c <= 0x39 ? c - 0x30 : c <= 0x46 ? c - 0x41 + 10 : c - 0x61 + 10; }
#define HEX(name, C)                                                                                                   \
	IF(u32, hex_to_dec_##name)(C c) { return ucd_hexadecimal_digit(u32(c)) ? hex_to_dec(c) : 99u; }                    \
	SF(u32, hex_to_dec_##name)(C c) { return ucd_hexadecimal_digit(u32(c)) ? digit(c) : 99u; }                         \
	IF(C, dec_to_hex_##name)(u32 v) { return dec_to_hex<C>(v & 15u); }                                                 \
	SF(C, dec_to_hex_##name)(u32 v) { v &= 15u; return C(v < 10u ? 0x30 + v : 0x61 + v - 10); }                        \
	IF(C, dec_to_hex_upper_##name)(u32 v) { return dec_to_hex<C>(v & 15u, C('A')); }                                   \
	SF(C, dec_to_hex_upper_##name)(u32 v) { v &= 15u; return C(v < 10u ? 0x30 + v : 0x41 + v - 10); }                  \
	IF(void, byte_to_hex_##name)(u8 v, C& h, C& l) { const auto p = byte_to_hex<C>(v); h = p.high; l = p.low; }        \
	SF(void, byte_to_hex_##name)(u8 v, C& h, C& l) { h = s__dec_to_hex_##name(v >> 4); l = s__dec_to_hex_##name(v & 15u); } \
	IF(void, std_byte_to_hex_##name)(u8 v, C& h, C& l) { const auto p = byte_to_hex<C>(std::byte(v), C('A')); h = p.high; l = p.low; }        \
	SF(void, std_byte_to_hex_##name)(u8 v, C& h, C& l) { h = s__dec_to_hex_upper_##name(v >> 4); l = s__dec_to_hex_upper_##name(v & 15u); }
HEX(char, char) HEX(char8_t, char8_t) HEX(char16_t, char16_t) HEX(char32_t, char32_t) HEX(wchar_t, wchar_t)
#endif
