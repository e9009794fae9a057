// hashers and UUIDs against FIPS 180-4, the FNV-1a definition and RFC 4122
#include <muu/hashing.h>
#include <muu/uuid.h>
#include <src/hashing.cpp>
#include <muu/preprocessor.h>
#undef MUU_FMA_BLOCK
#define MUU_FMA_BLOCK static_assert(true)
#include "ob.h"
#undef I
#undef P
using namespace muu;
using u8 = unsigned char;
using u16 = unsigned short;
using u32 = unsigned;
using ul = unsigned long;
using u128 = unsigned __int128;
#define IF(ret, name) EX ret CAT(i__, name)
#define SF(ret, name) EX ret CAT(s__, name)

// identity the optimiser cannot see through: keeps it from rewriting constants by demanded bits
extern "C" u32 vg_launder(u32) noexcept __attribute__((const));
#ifdef HAVE_STATE
struct fresh : sha1
{
	fresh() { for (auto& x : this->state.digest.value) x = vg_launder(x); }
};
#else
using fresh = sha1;
#endif
namespace spec
{
	// ---- FIPS 180-4
	INL u32 rotl(u32 x, int n) { return (x << n) | (x >> (32 - n)); }
	INL void sha1_block(u32* h, const u8* m)
	{
		u32 w[80];
		for (int t = 0; t < 16; t++)
			w[t] = u32(m[4 * t]) << 24 | u32(m[4 * t + 1]) << 16 | u32(m[4 * t + 2]) << 8 | u32(m[4 * t + 3]);
		for (int t = 16; t < 80; t++)
			w[t] = rotl(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
		u32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		for (int t = 0; t < 80; t++)
		{
			const u32 f = t < 20 ? (b & c) ^ (~b & d) : t < 40 ? b ^ c ^ d : t < 60 ? (b & c) ^ (b & d) ^ (c & d) : b ^ c ^ d;
			const u32 k = t < 20 ? 0x5a827999u : t < 40 ? 0x6ed9eba1u : t < 60 ? 0x8f1bbcdcu : 0xca62c1d6u;
			const u32 n = rotl(a, 5) + f + e + k + w[t];
			e = d;
			d = c;
			c = rotl(b, 30);
			b = a;
			a = n;
		}
		h[0] += a, h[1] += b, h[2] += c, h[3] += d, h[4] += e;
	}
	INL void init(u32* h)
	{
		h[0] = 0x67452301u, h[1] = 0xefcdab89u, h[2] = 0x98badcfeu, h[3] = 0x10325476u, h[4] = 0xc3d2e1f0u;
		for (int i = 0; i < 5; i++) h[i] = vg_launder(h[i]);
	}
	INL void emit(const u32* h, u8* out)
	{
		for (int i = 0; i < 20; i++)
			out[i] = u8(h[i / 4] >> (24 - 8 * (i % 4)));
	}
	template <int N>
	INL void sha1(const u8* m, u8* out)
	{
		u8 p[(N + 9 + 63) / 64 * 64] = {};
		for (int i = 0; i < N; i++)
			p[i] = m[i];
		p[N] = 0x80;
		for (int i = 0; i < 8; i++)
			p[sizeof(p) - 1 - i] = u8((ul(N) * 8) >> (8 * i));
		u32 h[5];
		init(h);
		for (unsigned b = 0; b < sizeof(p); b += 64)
			sha1_block(h, p + b);
		emit(h, out);
	}
}
INL void take(const sha1& h, u8* out) { __builtin_memcpy(out, &h.value(), 20); }

#ifdef PART_SHA
#define MSG const u8 (&R m)[512]
#define SHA(n)                                                                                                         \
	IF(void, sha1_len_##n)(MSG, u8* R out) { fresh h; h(m, n); h.finish(); take(h, out); }                    \
	SF(void, sha1_len_##n)(MSG, u8* R out) { spec::sha1<n>(m, out); }
#if PART_SHA == 1
SHA(0) SHA(1) SHA(5) SHA(20) SHA(32) SHA(54) SHA(55) SHA(56) SHA(57) SHA(62) SHA(63) SHA(64) SHA(65) SHA(100) SHA(119) SHA(120) SHA(127) SHA(128) SHA(130)
#endif
#define SHA2(a, b)                                                                                                     \
	IF(void, sha1_chunks_##a##_##b)(MSG, u8* R out) { fresh h; h(m, a); h(m + a, b); h.finish(); take(h, out); } \
	SF(void, sha1_chunks_##a##_##b)(MSG, u8* R out) { spec::sha1<a + b>(m, out); }
#if PART_SHA == 2
SHA2(1, 1) SHA2(1, 54) SHA2(1, 63) SHA2(1, 64) SHA2(3, 61) SHA2(10, 120) SHA2(32, 33) SHA2(55, 1) SHA2(56, 8)
#elif PART_SHA == 3
SHA2(56, 72) SHA2(60, 4) SHA2(60, 10) SHA2(63, 1) SHA2(63, 2) SHA2(63, 66) SHA2(64, 0) SHA2(64, 1)
#elif PART_SHA == 5
SHA2(64, 64) SHA2(65, 63) SHA2(100, 100) SHA2(3, 261)
#endif
#define SHA3(a, b, c)                                                                                                  \
	IF(void, sha1_chunks_##a##_##b##_##c)(MSG, u8* R out) { fresh h; h(m, a); h(m + a, b); h(m + a + b, c); h.finish(); take(h, out); } \
	SF(void, sha1_chunks_##a##_##b##_##c)(MSG, u8* R out) { spec::sha1<a + b + c>(m, out); }
#if PART_SHA == 2
SHA3(1, 0, 1) SHA3(1, 62, 1) SHA3(20, 20, 24)
#elif PART_SHA == 5
SHA3(60, 60, 60) SHA3(63, 1, 63) SHA3(30, 98, 7)
#endif
#define SHAB(n)                                                                                                        \
	IF(void, sha1_bytes_##n)(MSG, u8* R out) { fresh h; for (int i = 0; i < n; i++) h(m[i]); h.finish(); take(h, out); } \
	SF(void, sha1_bytes_##n)(MSG, u8* R out) { spec::sha1<n>(m, out); }
#if PART_SHA == 4
SHAB(1) SHAB(56) SHAB(64)
IF(void, sha1_std_byte)(std::byte a, std::byte b, u8* R out) { fresh h; h(a)(b); h.finish(); take(h, out); }
SF(void, sha1_std_byte)(std::byte a, std::byte b, u8* R out) { u8 m[2] = { u8(a), u8(b) }; spec::sha1<2>(m, out); }
IF(void, sha1_string_view)(MSG, u8* R out) { fresh h; h(std::string_view((const char*)m, 11)); h(std::u8string_view((const char8_t*)m + 11, 60)); h.finish(); take(h, out); }
SF(void, sha1_string_view)(MSG, u8* R out) { spec::sha1<71>(m, out); }
IF(void, sha1_null_data)(MSG, u8* R out) { fresh h; h(m, 3); h(nullptr, 5); h(m, 0); h.finish(); take(h, out); }
SF(void, sha1_null_data)(MSG, u8* R out) { spec::sha1<3>(m, out); }
IF(void, sha1_after_finish)(MSG, u8* R out) { fresh h; h(m, 62); h.finish(); h(m, 9); h(m[0]); h(std::byte(m[1])); h.finish(); take(h, out); }
SF(void, sha1_after_finish)(MSG, u8* R out) { spec::sha1<62>(m, out); }
#endif
#if PART_SHA == 5
IF(void, sha1_copied)(MSG, u8* R out) { fresh h; h(m, 40); sha1 g(h); h(m, 30); g(m + 40, 10); g.finish(); take(g, out); }
SF(void, sha1_copied)(MSG, u8* R out) { spec::sha1<50>(m, out); }
#endif
#if PART_SHA == 6 && defined(HAVE_STATE)
// any number of blocks and any digest before the last, partial block
#define SHAN(k)                                                                                                        \
	IF(void, sha1_count_##k)(MSG, decltype(sha1::processed_blocks) n, const u32 (&R d)[5], u8* R out)             \
	{ fresh h; h.processed_blocks = n; for (int i = 0; i < 5; i++) h.state.digest.value[i] = d[i]; h(m, k); h.finish(); take(h, out); } \
	SF(void, sha1_count_##k)(MSG, decltype(sha1::processed_blocks) n, const u32 (&R d)[5], u8* R out)             \
	{                                                                                                                  \
		u8 p[(k + 9 + 63) / 64 * 64] = {};                                                                             \
		for (int i = 0; i < k; i++) p[i] = m[i];                                                                       \
		p[k] = 0x80;                                                                                                   \
		const ul bits = ((ul(n) + k / 64) * 64 + k % 64) * 8;                                                                          \
		for (int i = 0; i < 8; i++) p[sizeof(p) - 1 - i] = u8(bits >> (8 * i));                                        \
		u32 h[5];                                                                                                      \
		for (int i = 0; i < 5; i++) h[i] = d[i];                                                                       \
		for (unsigned b = 0; b < sizeof(p); b += 64) spec::sha1_block(h, p + b);                                       \
		spec::emit(h, out);                                                                                            \
	}
SHAN(0) SHAN(9) SHAN(55) SHAN(56) SHAN(63) SHAN(64)
#endif
#endif

#ifdef PART_FNV
template <typename T, typename U>
INL T fnv(T prime, T basis, const U* m, int n)
{
	for (int i = 0; i < n; i++)
		basis = (basis ^ T(m[i])) * prime;
	return basis;
}
constexpr u128 P128 = (u128(1) << 88) + (1u << 8) + 0x3b;
constexpr u128 B128 = u128(0x6c62272e07bb0142ul) << 64 | 0x62b821756295c58dul;
#define FNV(bits, T, prime, basis, n)                                                                                  \
	IF(void, fnv##bits##_raw_##n)(const u8* R m, T* R o) { *o = fnv1a<bits>{}((const void*)m, n).value(); }            \
	SF(void, fnv##bits##_raw_##n)(const u8* R m, T* R o) { *o = fnv<T>(prime, basis, m, n); }                          \
	IF(void, fnv##bits##_str_##n)(const u8* R m, T* R o) { *o = fnv1a<bits>{}(std::string_view((const char*)m, n)).value(); } \
	SF(void, fnv##bits##_str_##n)(const u8* R m, T* R o) { *o = fnv<T>(prime, basis, m, n); }                          \
	IF(void, fnv##bits##_u8str_##n)(const u8* R m, T* R o) { *o = fnv1a<bits>{}(std::u8string_view((const char8_t*)m, n)).value(); } \
	SF(void, fnv##bits##_u8str_##n)(const u8* R m, T* R o) { *o = fnv<T>(prime, basis, m, n); }                        \
	IF(void, fnv##bits##_bytes_##n)(const u8* R m, T* R o) { fnv1a<bits> h; for (int i = 0; i < n; i++) if (i % 2) h(m[i]); else h(std::byte(m[i])); *o = h.value(); } \
	SF(void, fnv##bits##_bytes_##n)(const u8* R m, T* R o) { *o = fnv<T>(prime, basis, m, n); }
#define FNVS(n)                                                                                                        \
	FNV(32, u32, 0x01000193u, 0x811c9dc5u, n) FNV(64, ul, 0x100000001b3ul, 0xcbf29ce484222325ul, n) FNV(128, u128, P128, B128, n)
FNVS(0) FNVS(1) FNVS(2) FNVS(3) FNVS(8) FNVS(20)
// ---- combiners
#define COMB(bits, T, off, l, r)                                                                                       \
	INL T comb##bits(T a, T h) { return T(a ^ T(h + off + T(a << l) + T(a >> r))); }                                   \
	IF(void, combine1_##bits)(const T* R a, T* R o) { *o = hash_combiner<bits>{ a[0] }(a[1]).value(); }                \
	SF(void, combine1_##bits)(const T* R a, T* R o) { *o = comb##bits(a[0], a[1]); }                                   \
	IF(void, combine3_##bits)(const T* R a, T* R o) { *o = hash_combiner<bits>{ a[0] }(a[1])(a[2])(a[3]).value(); }    \
	SF(void, combine3_##bits)(const T* R a, T* R o) { *o = comb##bits(comb##bits(comb##bits(a[0], a[1]), a[2]), a[3]); } \
	IF(void, combine0_##bits)(const T* R a, T* R o) { *o = hash_combiner<bits>{ a[0] }.value(); }                      \
	SF(void, combine0_##bits)(const T* R a, T* R o) { *o = a[0]; }
COMB(16, u16, 0x9e37u, 3, 1)
COMB(32, u32, 0x9e3779b9u, 6, 2)
COMB(64, ul, 0x9e3779b97f4a7c15ul, 12, 4)
#endif

#ifdef PART_UUID
INL uuid get(const u8* m) { uuid u; __builtin_memcpy(&u, m, 16); return u; }
IF(void, uuid_fields6)(u32 a, u16 b, u16 c, u8 d, u8 e, ul n, u8* R o) { const uuid u(a, b, c, d, e, n); __builtin_memcpy(o, &u, 16); }
SF(void, uuid_fields6)(u32 a, u16 b, u16 c, u8 d, u8 e, ul n, u8* R o)
{
	o[0] = u8(a >> 24), o[1] = u8(a >> 16), o[2] = u8(a >> 8), o[3] = u8(a), o[4] = u8(b >> 8), o[5] = u8(b), o[6] = u8(c >> 8), o[7] = u8(c), o[8] = d, o[9] = e;
	for (int i = 0; i < 6; i++) o[10 + i] = u8(n >> (40 - 8 * i));
}
IF(void, uuid_fields5)(u32 a, u16 b, u16 c, u16 d, ul n, u8* R o) { const uuid u(a, b, c, d, n); __builtin_memcpy(o, &u, 16); }
SF(void, uuid_fields5)(u32 a, u16 b, u16 c, u16 d, ul n, u8* R o) { s__uuid_fields6(a, b, c, u8(d >> 8), u8(d), n, o); }
IF(void, uuid_from_int)(u128 v, u8* R o) { const uuid u{ v }; __builtin_memcpy(o, &u, 16); }
SF(void, uuid_from_int)(u128 v, u8* R o) { for (int i = 0; i < 16; i++) o[i] = u8(v >> (120 - 8 * i)); }
IF(void, uuid_null)(u8* R o) { const uuid u{ nullptr }; __builtin_memcpy(o, &u, 16); }
SF(void, uuid_null)(u8* R o) { for (int i = 0; i < 16; i++) o[i] = 0; }
INL u128 big(const u8* m) { u128 v = 0; for (int i = 0; i < 16; i++) v = v << 8 | m[i]; return v; }
IF(void, uuid_to_int)(const u8* R m, u128* R o) { *o = u128(get(m)); }
SF(void, uuid_to_int)(const u8* R m, u128* R o) { *o = big(m); }
IF(u32, uuid_time_low)(const u8* m) { return get(m).time_low(); }
SF(u32, uuid_time_low)(const u8* m) { return u32(big(m) >> 96); }
IF(u16, uuid_time_mid)(const u8* m) { return get(m).time_mid(); }
SF(u16, uuid_time_mid)(const u8* m) { return u16(big(m) >> 80); }
IF(u16, uuid_time_high)(const u8* m) { return get(m).time_high_and_version(); }
SF(u16, uuid_time_high)(const u8* m) { return u16(big(m) >> 64); }
IF(u8, uuid_clock_high)(const u8* m) { return get(m).clock_seq_high_and_reserved(); }
SF(u8, uuid_clock_high)(const u8* m) { return u8(big(m) >> 56); }
IF(u8, uuid_clock_low)(const u8* m) { return get(m).clock_seq_low(); }
SF(u8, uuid_clock_low)(const u8* m) { return u8(big(m) >> 48); }
IF(ul, uuid_node)(const u8* m) { return get(m).node(); }
SF(ul, uuid_node)(const u8* m) { return ul(big(m)) & 0xFFFFFFFFFFFFul; }
IF(int, uuid_version)(const u8* m) { return int(get(m).version()); }
SF(int, uuid_version)(const u8* m) { const int v = m[6] >> 4; return v <= 5 ? v : 15; }
IF(int, uuid_variant)(const u8* m) { return int(get(m).variant()); }
SF(int, uuid_variant)(const u8* m) { const int v = m[8] >> 5; return v == 0 ? 0 : v < 4 ? 2 : v < 6 ? 1 : v == 6 ? 3 : 4; }
IF(bool, uuid_bool)(const u8* m) { return bool(get(m)); }
SF(bool, uuid_bool)(const u8* m) { return big(m) != 0; }
#define UREL(n, op)                                                                                                    \
	IF(bool, uuid_##n)(const u8* R a, const u8* R b) { return get(a) op get(b); }                                      \
	SF(bool, uuid_##n)(const u8* R a, const u8* R b) { return big(a) op big(b); }                                      \
	IF(bool, uuid_self_##n)(const u8* R a) { const uuid u = get(a); return u op u; }                                   \
	SF(bool, uuid_self_##n)(const u8* R a) { return big(a) op big(a); }
UREL(eq, ==) UREL(ne, !=) UREL(lt, <) UREL(le, <=) UREL(gt, >) UREL(ge, >=)
IF(int, uuid_compare)(const u8* R a, const u8* R b) { return uuid::compare(get(a), get(b)); }
SF(int, uuid_compare)(const u8* R a, const u8* R b) { return big(a) < big(b) ? -1 : big(a) > big(b); }
IF(ul, uuid_hash)(const u8* R a) { return std::hash<uuid>{}(get(a)); }
SF(ul, uuid_hash)(const u8* R a) { const ul h = ul(big(a) >> 64), l = ul(big(a)); return h ^ (l + 0x9e3779b97f4a7c15ul + (h << 12) + (h >> 4)); }
#define UNS(n, last)                                                                                                   \
	IF(void, uuid_ns_##n)(u8* R o) { const uuid u = constants<uuid>::namespace_##n; __builtin_memcpy(o, &u, 16); }     \
	SF(void, uuid_ns_##n)(u8* R o)                                                                                     \
	{                                                                                                                  \
		const u8 b[16] = { 0x6b, 0xa7, 0xb8, last, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8 }; \
		__builtin_memcpy(o, b, 16);                                                                                    \
	}
UNS(dns, 0x10) UNS(url, 0x11) UNS(oid, 0x12) UNS(x500, 0x14)
IF(void, uuid_ns_nil)(u8* R o) { const uuid u = constants<uuid>::nil; __builtin_memcpy(o, &u, 16); }
SF(void, uuid_ns_nil)(u8* R o) { for (int i = 0; i < 16; i++) o[i] = 0; }
#endif
#ifdef PART_UUIDSRC
INL uuid get(const u8* m) { uuid u; __builtin_memcpy(&u, m, 16); return u; }
#include <src/uuid.cpp>
// ---- name based (version 5): SHA-1 of the namespace followed by the name (the hasher itself is the subject of the sha1_ obligations)
INL void v5(const u8* ns, const u8* m, int n, u8* o)
{
	sha1 s;
	s(ns, 16);
	s(m, n);
	s.finish();
	u8 h[20];
	take(s, h);
	for (int i = 0; i < 16; i++) o[i] = h[i];
	o[6] = u8((o[6] & 15) | 0x50);
	o[8] = u8((o[8] & 63) | 0x80);
}
#undef MSG
#define MSG const u8 (&R m)[128]
#define UNAME(n)                                                                                                       \
	IF(void, uuid_named_##n)(const u8 (&R ns)[16], MSG, u8* R o) { const uuid s = get(ns); const uuid u{ s, (const void*)m, vg_launder(n) }; __builtin_memcpy(o, &u, 16); } \
	SF(void, uuid_named_##n)(const u8 (&R ns)[16], MSG, u8* R o) { v5(ns, m, vg_launder(n), o); }
UNAME(0) UNAME(1) UNAME(11) UNAME(39) UNAME(40) UNAME(47) UNAME(48) 
IF(void, uuid_named_sv)(const u8 (&R ns)[16], MSG, u8* R o) { const uuid s = get(ns); const uuid u{ s, std::string_view((const char*)m, 7) }; __builtin_memcpy(o, &u, 16); }
SF(void, uuid_named_sv)(const u8 (&R ns)[16], MSG, u8* R o) { v5(ns, m, 7, o); }
IF(void, uuid_named_u8)(const u8 (&R ns)[16], MSG, u8* R o) { const uuid s = get(ns); const uuid u{ s, std::u8string_view((const char8_t*)m, 7) }; __builtin_memcpy(o, &u, 16); }
SF(void, uuid_named_u8)(const u8 (&R ns)[16], MSG, u8* R o) { v5(ns, m, 7, o); }
// ---- printing: the 36 characters handed to the stream (the analysis records the call's arguments as written behind the stream)
IF(void, uuid_print)(const u8 (&R m)[16], std::ostream& os) { muu_impl_uuid_print_to_ostream((const std::byte*)m, &os); }
SF(void, uuid_print)(const u8 (&R m)[16], std::ostream& os)
{
	const char* hex = "0123456789ABCDEF";
	u8* o = (u8*)&os + 4096;
	for (int i = 0, k = 0; i < 16; i++)
	{
		if (i == 4 || i == 6 || i == 8 || i == 10) o[k++] = '-';
		const u8 h = m[i] >> 4, l = m[i] & 15;
		o[k++] = u8(h < 10 ? '0' + h : 'A' + h - 10);
		o[k++] = u8(l < 10 ? '0' + l : 'A' + l - 10);
	}
}
#endif
