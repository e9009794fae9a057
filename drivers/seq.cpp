// accumulators, integer ranges and spans against their mathematical definitions
#include "prelude.h"
#if PART == 1
	#include <muu/accumulator.h>
	#include <muu/vector.h>
#elif PART == 2
	#include <muu/integral_range.h>
#else
	#include <muu/span.h>
#endif
#include <array>
#include <vector>
#include <span>
#include "ob.h"
#undef I
#undef P
using namespace muu;
using s8 = signed char;
using s16 = short;
using u8 = unsigned char;
using u16 = unsigned short;
using u32 = unsigned;
using ul = unsigned long;
using sl = long;
#define IF(ret, name) EX ret CAT(i__, name)
#define SF(ret, name) EX ret CAT(s__, name)

// PART selects one of the three
#if PART == 1
// ------------------------------------------------------------------------------------------------ accumulators
// what an accumulator reports for a sequence of samples: how many, the least, the greatest, the sum
template <typename V, typename M>
struct out
{
	ul n;
	V lo, hi;
	M sum;
	bool empty;
};
template <typename V, typename M>
INL void def(const V* x, ul n, out<V, M>& o)
{
	o.n = n;
	o.empty = n == 0;
	V lo{}, hi{};
	M sum{};
	for (ul i = 0; i < n; i++)
	{
		lo = i == 0 || x[i] < lo ? x[i] : lo;
		hi = i == 0 || x[i] > hi ? x[i] : hi;
		sum = static_cast<M>(sum + static_cast<M>(x[i]));
	}
	o.lo = lo;
	o.hi = hi;
	o.sum = sum;
}
template <typename A, typename V, typename M>
INL void rd(const A& a, out<V, M>& o)
{
	o.n = a.sample_count();
	o.empty = a.empty();
	o.lo = a.min();
	o.hi = a.max();
	o.sum = a.sum();
}
// one at a time, by call operator, as a range, by constructor, on a non-empty accumulator
#define SEQ(V, M, tag, N)                                                                                              \
	IF(void, acc_add_##tag##_##N)(const V* R x, out<V, M>* R o)                                                        \
	{                                                                                                                  \
		accumulator<V> a;                                                                                              \
		for (ul i = 0; i < N; i++)                                                                                     \
			a.add(x[i]);                                                                                               \
		rd(a, *o);                                                                                                     \
	}                                                                                                                  \
	SF(void, acc_add_##tag##_##N)(const V* R x, out<V, M>* R o) { def<V, M>(x, N, *o); }                               \
	IF(void, acc_call_##tag##_##N)(const V* R x, out<V, M>* R o)                                                       \
	{                                                                                                                  \
		accumulator<V> a;                                                                                              \
		for (ul i = 0; i < N; i++)                                                                                     \
			a(x[i]);                                                                                                   \
		rd(a, *o);                                                                                                     \
	}                                                                                                                  \
	SF(void, acc_call_##tag##_##N)(const V* R x, out<V, M>* R o) { def<V, M>(x, N, *o); }                              \
	IF(void, acc_range_##tag##_##N)(const V* R x, out<V, M>* R o)                                                      \
	{                                                                                                                  \
		accumulator<V> a;                                                                                              \
		a.add(x, x + N);                                                                                               \
		rd(a, *o);                                                                                                     \
	}                                                                                                                  \
	SF(void, acc_range_##tag##_##N)(const V* R x, out<V, M>* R o) { def<V, M>(x, N, *o); }                             \
	IF(void, acc_ctor_##tag##_##N)(const V* R x, out<V, M>* R o)                                                       \
	{                                                                                                                  \
		accumulator<V> a(x, x + N);                                                                                    \
		rd(a, *o);                                                                                                     \
	}                                                                                                                  \
	SF(void, acc_ctor_##tag##_##N)(const V* R x, out<V, M>* R o) { def<V, M>(x, N, *o); }                              \
	IF(void, acc_one_##tag##_##N)(const V* R x, out<V, M>* R o)                                                        \
	{                                                                                                                  \
		accumulator<V> a{ x[0] };                                                                                      \
		a.add(x + 1, x + 1 + N);                                                                                       \
		rd(a, *o);                                                                                                     \
	}                                                                                                                  \
	SF(void, acc_one_##tag##_##N)(const V* R x, out<V, M>* R o) { def<V, M>(x, N + 1, *o); }
// merging: A samples, then a whole accumulator of B samples, then C more
#define MERGE(V, M, tag, A, B, C)                                                                                      \
	IF(void, acc_merge_##tag##_##A##_##B##_##C)(const V* R x, out<V, M>* R o, out<V, M>* R o2)                         \
	{                                                                                                                  \
		accumulator<V> a, b;                                                                                           \
		for (ul i = 0; i < A; i++)                                                                                     \
			a.add(x[i]);                                                                                               \
		for (ul i = A; i < A + B; i++)                                                                                 \
			b.add(x[i]);                                                                                               \
		a.add(b);                                                                                                      \
		for (ul i = A + B; i < A + B + C; i++)                                                                         \
			a.add(x[i]);                                                                                               \
		rd(a, *o);                                                                                                     \
		rd(b, *o2);                                                                                                    \
	}                                                                                                                  \
	SF(void, acc_merge_##tag##_##A##_##B##_##C)(const V* R x, out<V, M>* R o, out<V, M>* R o2)                         \
	{                                                                                                                  \
		def<V, M>(x, A + B + C, *o);                                                                                   \
		def<V, M>(x + A, B, *o2);                                                                                      \
	}
// an accumulator merged into itself holds every sample twice; a copy is independent of the original
#define SELF(V, M, tag, A)                                                                                             \
	IF(void, acc_self_##tag##_##A)(const V* R x, out<V, M>* R o)                                                       \
	{                                                                                                                  \
		accumulator<V> a;                                                                                              \
		for (ul i = 0; i < A; i++)                                                                                     \
			a.add(x[i]);                                                                                               \
		a(a);                                                                                                          \
		rd(a, *o);                                                                                                     \
	}                                                                                                                  \
	SF(void, acc_self_##tag##_##A)(const V* R x, out<V, M>* R o)                                                       \
	{                                                                                                                  \
		V y[2 * A + 1];                                                                                                \
		for (ul i = 0; i < A; i++)                                                                                     \
			y[i] = y[A + i] = x[i];                                                                                    \
		def<V, M>(y, 2 * A, *o);                                                                                       \
	}                                                                                                                  \
	IF(void, acc_copy_##tag##_##A)(const V* R x, out<V, M>* R o, out<V, M>* R o2)                                      \
	{                                                                                                                  \
		accumulator<V> a;                                                                                              \
		for (ul i = 0; i < A; i++)                                                                                     \
			a.add(x[i]);                                                                                               \
		accumulator<V> b{ a };                                                                                         \
		a.add(x[A]);                                                                                                   \
		rd(a, *o);                                                                                                     \
		rd(b, *o2);                                                                                                    \
	}                                                                                                                  \
	SF(void, acc_copy_##tag##_##A)(const V* R x, out<V, M>* R o, out<V, M>* R o2)                                      \
	{                                                                                                                  \
		def<V, M>(x, A + 1, *o);                                                                                       \
		def<V, M>(x, A, *o2);                                                                                          \
	}
#define ACC(V, M, tag)                                                                                                 \
	SEQ(V, M, tag, 0)                                                                                                  \
	SEQ(V, M, tag, 1)                                                                                                  \
	SEQ(V, M, tag, 2)                                                                                                  \
	SEQ(V, M, tag, 3)                                                                                                  \
	MERGE(V, M, tag, 0, 0, 0)                                                                                          \
	MERGE(V, M, tag, 0, 0, 1)                                                                                          \
	MERGE(V, M, tag, 0, 1, 0)                                                                                          \
	MERGE(V, M, tag, 1, 0, 0)                                                                                          \
	MERGE(V, M, tag, 1, 1, 0)                                                                                          \
	MERGE(V, M, tag, 0, 2, 1)                                                                                          \
	MERGE(V, M, tag, 2, 0, 1)                                                                                          \
	MERGE(V, M, tag, 1, 2, 1)                                                                                          \
	SELF(V, M, tag, 0)                                                                                                 \
	SELF(V, M, tag, 1)                                                                                                 \
	SELF(V, M, tag, 2)
ACC(s8, int, s8)
ACC(u8, u32, u8)
ACC(s16, int, s16)
ACC(u16, u32, u16)
ACC(int, int, int)
ACC(u32, u32, u32)
ACC(sl, sl, sl)
ACC(ul, ul, ul)
ACC(float, float, f32)
ACC(double, double, f64)
ACC(long double, long double, f80)
// elements of the range are converted to the accumulated type
IF(void, acc_convert)(const u8* R x, out<double, double>* R o)
{
	accumulator<double> a(x, x + 3);
	rd(a, *o);
}
SF(void, acc_convert)(const u8* R x, out<double, double>* R o)
{
	const double y[3] = { static_cast<double>(x[0]), static_cast<double>(x[1]), static_cast<double>(x[2]) };
	def<double, double>(y, 3, *o);
}
// vectors are accumulated per component
#define VACC(T, N, tag, A, B)                                                                                          \
	IF(void, acc_vec_##tag##_##A##_##B)(const T* R x, T* R lo, T* R hi, T* R sum, ul* R n)                             \
	{                                                                                                                  \
		accumulator<vector<T, N>> a, b;                                                                                \
		for (ul i = 0; i < A; i++)                                                                                     \
		{                                                                                                              \
			vector<T, N> v{};                                                                                          \
			for (ul c = 0; c < N; c++)                                                                                 \
				v[c] = x[i * N + c];                                                                                   \
			a.add(v);                                                                                                  \
		}                                                                                                              \
		for (ul i = A; i < A + B; i++)                                                                                 \
		{                                                                                                              \
			vector<T, N> v{};                                                                                          \
			for (ul c = 0; c < N; c++)                                                                                 \
				v[c] = x[i * N + c];                                                                                   \
			b.add(v);                                                                                                  \
		}                                                                                                              \
		a.add(b);                                                                                                      \
		const auto l = a.min(), h = a.max();                                                                           \
		const auto s = a.sum();                                                                                        \
		for (ul c = 0; c < N; c++)                                                                                     \
		{                                                                                                              \
			lo[c] = l[c];                                                                                              \
			hi[c] = h[c];                                                                                              \
			sum[c] = static_cast<T>(s[c]);                                                                             \
		}                                                                                                              \
		*n = a.sample_count();                                                                                         \
	}                                                                                                                  \
	SF(void, acc_vec_##tag##_##A##_##B)(const T* R x, T* R lo, T* R hi, T* R sum, ul* R n)                             \
	{                                                                                                                  \
		for (ul c = 0; c < N; c++)                                                                                     \
		{                                                                                                              \
			T l = x[c], h = x[c], s = x[c];                                                                            \
			for (ul i = 1; i < A + B; i++)                                                                             \
			{                                                                                                          \
				const T v = x[i * N + c];                                                                              \
				l = v < l ? v : l;                                                                                     \
				h = v > h ? v : h;                                                                                     \
				s = static_cast<T>(s + v);                                                                             \
			}                                                                                                          \
			lo[c] = l;                                                                                                 \
			hi[c] = h;                                                                                                 \
			sum[c] = s;                                                                                                \
		}                                                                                                              \
		*n = A + B;                                                                                                    \
	}
VACC(float, 2, f2, 1, 0)
VACC(float, 2, f2, 2, 0)
VACC(float, 2, f2, 0, 2)
VACC(float, 2, f2, 1, 2)
VACC(double, 3, d3, 1, 0)
VACC(double, 3, d3, 2, 0)
VACC(double, 3, d3, 0, 1)
VACC(double, 3, d3, 2, 1)
VACC(int, 4, i4, 2, 0)
VACC(int, 4, i4, 1, 1)
// compensated summation: these sums lose the small terms when rounding errors are not carried along
#define KAHAN(tag, T, want, ...)                                                                                       \
	IF(bool, acc_kahan_##tag)()                                                                                        \
	{                                                                                                                  \
		accumulator<T> a;                                                                                              \
		for (T x : { __VA_ARGS__ })                                                                                    \
			a.add(x);                                                                                                  \
		return a.sum() == static_cast<T>(want);                                                                        \
	}                                                                                                                  \
	SF(bool, acc_kahan_##tag)() { return true; }
KAHAN(d1, double, 2, 1.0, 1e100, 1.0, -1e100)
KAHAN(d2, double, 2, 1e100, 1.0, -1e100, 1.0)
KAHAN(d3, double, 2, 1.0, 1.0, 1e100, -1e100)
KAHAN(d4, double, 2, -1e100, 1.0, 1.0, 1e100)
KAHAN(d5, double, -2, -1.0, -1e100, -1.0, 1e100)
KAHAN(d6, double, 0x1.0000000000002p+54, 0x1p+54, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0)
KAHAN(d7, double, 8, 1.0, 1.0, 1.0, 0x1p+54, 1.0, 1.0, 1.0, 1.0, -0x1p+54, 1.0)
KAHAN(f1, float, 2, 1.0f, 1e30f, 1.0f, -1e30f)
KAHAN(f2, float, 2, 1e30f, 1.0f, -1e30f, 1.0f)
KAHAN(f3, float, -2, -1.0f, -1e30f, -1.0f, 1e30f)
KAHAN(f4, float, 0x1.000008p+25f, 0x1p+25f, 1.0f, 1.0f, 1.0f, 1.0f, 1.0f, 1.0f, 1.0f, 1.0f, 1.0f, 1.0f, 1.0f, 1.0f, 1.0f, 1.0f, 1.0f, 1.0f)
#define KMERGE(tag, T, want, a0, a1, b0, b1)                                                                           \
	IF(bool, acc_kmerge_##tag)()                                                                                       \
	{                                                                                                                  \
		accumulator<T> a, b;                                                                                           \
		a.add(T(a0)).add(T(a1));                                                                                       \
		b.add(T(b0)).add(T(b1));                                                                                       \
		a.add(b);                                                                                                      \
		return a.sum() == static_cast<T>(want);                                                                        \
	}                                                                                                                  \
	SF(bool, acc_kmerge_##tag)() { return true; }
KMERGE(d1, double, 2, 1, 1e100, 1, -1e100)
KMERGE(d2, double, 2, 1e100, 1, -1e100, 1)
KMERGE(d3, double, 2, 1, 1, 1e100, -1e100)
KMERGE(d4, double, 2, 1e100, -1e100, 1, 1)
KMERGE(f1, float, 2, 1, 1e30f, 1, -1e30f)
KMERGE(f2, float, 2, 1e30f, 1, -1e30f, 1)
#elif PART == 2
// ------------------------------------------------------------------------------------------------ integer ranges
// the set of values v with s <= v < e, for s <= e
#define RANGE(T, SZ, DF, tag)                                                                                          \
	IF(SZ, rng_size_##tag)(T a, T b) { const T s = b < a ? b : a, e = b < a ? a : b; return integral_range<T>{ s, e }.size(); } \
	SF(SZ, rng_size_##tag)(T a, T b) { const T s = b < a ? b : a, e = b < a ? a : b; return static_cast<SZ>(static_cast<SZ>(e) - static_cast<SZ>(s)); } \
	IF(bool, rng_empty_##tag)(T a, T b) { const T s = b < a ? b : a, e = b < a ? a : b; return integral_range<T>{ s, e }.empty(); } \
	SF(bool, rng_empty_##tag)(T a, T b) { return a == b; }                                                             \
	IF(bool, rng_bool_##tag)(T a, T b) { const T s = b < a ? b : a, e = b < a ? a : b; return static_cast<bool>(integral_range<T>{ s, e }); } \
	SF(bool, rng_bool_##tag)(T a, T b) { return a != b; }                                                              \
	IF(bool, rng_one_##tag)(T e, T* R o)                                                                               \
	{                                                                                                                  \
		if (e < T{})                                                                                                   \
			e = T{};                                                                                                   \
		const integral_range<T> r{ e };                                                                                \
		o[0] = r.first();                                                                                              \
		o[1] = *r.begin();                                                                                             \
		o[2] = *r.end();                                                                                               \
		return r.empty();                                                                                              \
	}                                                                                                                  \
	SF(bool, rng_one_##tag)(T e, T* R o)                                                                               \
	{                                                                                                                  \
		o[0] = o[1] = T{};                                                                                             \
		o[2] = e < T{} ? T{} : e;                                                                                      \
		return !(e > T{});                                                                                             \
	}                                                                                                                  \
	IF(void, rng_ends_##tag)(T a, T b, T* R o)                                                                         \
	{                                                                                                                  \
		const T s = b < a ? b : a, e = b < a ? a : b;                                                                  \
		const integral_range<T> r{ s, e };                                                                             \
		o[0] = r.first();                                                                                              \
		o[1] = r.s;                                                                                                    \
		o[2] = r.e;                                                                                                    \
		o[3] = *r.begin();                                                                                             \
		o[4] = *r.end();                                                                                               \
		o[5] = *begin(r);                                                                                              \
		o[6] = *end(r);                                                                                                \
	}                                                                                                                  \
	SF(void, rng_ends_##tag)(T a, T b, T* R o)                                                                         \
	{                                                                                                                  \
		const T s = b < a ? b : a, e = b < a ? a : b;                                                                  \
		o[0] = o[1] = o[3] = o[5] = s;                                                                                 \
		o[2] = o[4] = o[6] = e;                                                                                        \
	}                                                                                                                  \
	IF(T, rng_last_##tag)(T s, T e)                                                                                    \
	{                                                                                                                  \
		if (!(s < e))                                                                                                  \
			return s;                                                                                                  \
		return integral_range<T>{ s, e }.last();                                                                       \
	}                                                                                                                  \
	SF(T, rng_last_##tag)(T s, T e) { return s < e ? static_cast<T>(e - 1) : s; }                                      \
	IF(bool, rng_has_##tag)(T a, T b, T v) { const T s = b < a ? b : a, e = b < a ? a : b; return integral_range<T>{ s, e }.contains(v); } \
	SF(bool, rng_has_##tag)(T a, T b, T v) { const T s = b < a ? b : a, e = b < a ? a : b; return !(v < s) && v < e; } \
	TWO(T, bool, tag, hasall, x.contains(y), !(t < s) && !(e < f))                                                     \
	TWO(T, bool, tag, adjacent, x.adjacent(y), e == t || f == s)                                                       \
	TWO(T, bool, tag, meets, x.intersects(y), s < f && t < e)                                                          \
	TWO(T, bool, tag, touches, x.intersects_or_adjacent(y), !(f < s) && !(e < t))                                      \
	TWO(T, bool, tag, eq, x == y, s == t && e == f)                                                                    \
	TWO(T, bool, tag, ne, x != y, s != t || e != f)                                                                    \
	TWO(T, T, tag, union_s, x.union_with(y).s, (s < t ? s : t))                                                        \
	TWO(T, T, tag, union_e, x.union_with(y).e, (f < e ? e : f))                                                        \
	ITER(T, SZ, DF, tag)
#define TWO(T, ret, tag, name, impl, def)                                                                              \
	IF(ret, rng_##name##_##tag)(T a, T b, T c, T d)                                                                    \
	{                                                                                                                  \
		const integral_range<T> x{ b < a ? b : a, b < a ? a : b }, y{ d < c ? d : c, d < c ? c : d };                  \
		return impl;                                                                                                   \
	}                                                                                                                  \
	SF(ret, rng_##name##_##tag)(T a, T b, T c, T d)                                                                    \
	{                                                                                                                  \
		const T s = b < a ? b : a, e = b < a ? a : b, t = d < c ? d : c, f = d < c ? c : d;                            \
		(void)s, (void)e, (void)t, (void)f;                                                                            \
		return def;                                                                                                    \
	}
// iterators step through the values in order; moving by n is moving n times
#define ITER(T, SZ, DF, tag)                                                                                           \
	IF(void, rng_step_##tag)(T a, T b, T* R o)                                                                         \
	{                                                                                                                  \
		const T s = b < a ? b : a, e = b < a ? a : b;                                                                  \
		const integral_range<T> r{ s, e };                                                                             \
		for (int i = 0; i < 6; i++)                                                                                    \
			o[i] = s;                                                                                                  \
		if (!(s < e))                                                                                                  \
			return;                                                                                                    \
		auto i = r.begin();                                                                                            \
		o[0] = *i++;                                                                                                   \
		o[1] = *i;                                                                                                     \
		o[2] = *i--;                                                                                                   \
		o[3] = *i;                                                                                                     \
		o[4] = *++i;                                                                                                   \
		o[5] = *--i;                                                                                                   \
	}                                                                                                                  \
	SF(void, rng_step_##tag)(T a, T b, T* R o)                                                                         \
	{                                                                                                                  \
		const T s = b < a ? b : a, e = b < a ? a : b;                                                                  \
		const T n = s < e ? static_cast<T>(s + 1) : s;                                                                 \
		o[0] = o[3] = o[5] = s;                                                                                        \
		o[1] = o[2] = o[4] = n;                                                                                        \
	}                                                                                                                  \
	IF(T, rng_plus_##tag)(T s, SZ n) { typename integral_range<T>::iterator i{ s }; auto& r = (i += n); return &r == &i ? *r : T{}; }         \
	SF(T, rng_plus_##tag)(T s, SZ n) { return static_cast<T>(static_cast<SZ>(s) + n); }                                \
	IF(T, rng_minus_##tag)(T s, SZ n) { typename integral_range<T>::iterator i{ s }; auto& r = (i -= n); return &r == &i ? *r : T{}; }        \
	SF(T, rng_minus_##tag)(T s, SZ n) { return static_cast<T>(static_cast<SZ>(s) - n); }                               \
	IF(T, rng_splus_##tag)(T s, int n) { typename integral_range<T>::iterator i{ s }; i += static_cast<DF>(n); return *i; }                   \
	SF(T, rng_splus_##tag)(T s, int n) { return static_cast<T>(static_cast<SZ>(s) + static_cast<SZ>(static_cast<DF>(n))); }                \
	IF(T, rng_sminus_##tag)(T s, int n) { typename integral_range<T>::iterator i{ s }; i -= static_cast<DF>(n); return *i; }                  \
	SF(T, rng_sminus_##tag)(T s, int n) { return static_cast<T>(static_cast<SZ>(s) - static_cast<SZ>(static_cast<DF>(n))); }               \
	IF(DF, rng_dist_##tag)(T a, T b) { return typename integral_range<T>::iterator{ a } - typename integral_range<T>::iterator{ b }; }        \
	SF(DF, rng_dist_##tag)(T a, T b) { return static_cast<DF>(static_cast<SZ>(a) - static_cast<SZ>(b)); }              \
	IF(bool, rng_iteq_##tag)(T a, T b) { return typename integral_range<T>::iterator{ a } == typename integral_range<T>::iterator{ b }; }     \
	SF(bool, rng_iteq_##tag)(T a, T b) { return a == b; }                                                              \
	IF(bool, rng_itne_##tag)(T a, T b) { return typename integral_range<T>::iterator{ a } != typename integral_range<T>::iterator{ b }; }     \
	SF(bool, rng_itne_##tag)(T a, T b) { return a != b; }
RANGE(s8, ul, sl, s8)
RANGE(u8, ul, sl, u8)
RANGE(s16, ul, sl, s16)
RANGE(u16, ul, sl, u16)
RANGE(int, ul, sl, int)
RANGE(u32, ul, sl, u32)
RANGE(sl, ul, sl, sl)
RANGE(ul, ul, sl, ul)
// visiting a range yields every value of it once, in order (as many as K values)
#define VISIT(T, tag, K)                                                                                               \
	IF(ul, rng_visit_##tag##_##K)(T s, T* R o)                                                                         \
	{                                                                                                                  \
		ul n = 0;                                                                                                      \
		for (auto v : integral_range<T>{ s, static_cast<T>(s + K) })                                                   \
			o[n++] = v;                                                                                                \
		return n;                                                                                                      \
	}                                                                                                                  \
	SF(ul, rng_visit_##tag##_##K)(T s, T* R o)                                                                         \
	{                                                                                                                  \
		for (int k = 0; k < K; k++)                                                                                    \
			o[k] = static_cast<T>(s + k);                                                                              \
		return K;                                                                                                      \
	}
VISIT(int, int, 0)
VISIT(int, int, 3)
VISIT(ul, ul, 1)
VISIT(ul, ul, 4)
VISIT(sl, sl, 2)
// pointers: the unit is one element
template <typename T>
INL void ptrs(T* p, T* q, ul n, ul* o)
{
	using r_t = integral_range<T*>;
	const r_t r{ p, p + n };
	o[0] = r.size();
	o[1] = reinterpret_cast<ul>(r.first());
	o[2] = n ? reinterpret_cast<ul>(r.last()) : 0;
	o[3] = r.empty();
	o[4] = static_cast<bool>(r);
	auto i = r.begin();
	i += static_cast<ul>(n);
	o[6] = reinterpret_cast<ul>(*i);
	i -= static_cast<ul>(n);
	o[7] = reinterpret_cast<ul>(*i++);
	o[8] = reinterpret_cast<ul>(*i--);
	o[9] = reinterpret_cast<ul>(*i);
	i += static_cast<sl>(n);
	o[10] = reinterpret_cast<ul>(*i);
	i -= static_cast<sl>(n);
	o[11] = reinterpret_cast<ul>(*i);
	o[12] = i == r.begin();
	o[13] = static_cast<ul>(r.end() - r.begin());
	o[14] = static_cast<ul>(r.begin() - r.end());
}
template <typename T>
INL void ptrs_def(T* p, T* q, ul n, ul* o)
{
	const ul a = reinterpret_cast<ul>(p), z = sizeof(T);
	o[0] = n;
	o[1] = o[7] = o[9] = o[11] = a;
	o[2] = n ? a + (n - 1) * z : 0;
	o[3] = n == 0;
	o[4] = n != 0;
	o[6] = o[10] = a + n * z;
	o[8] = a + z;
	o[12] = 1;
	o[13] = n;
	o[14] = 0 - n;
}
#define PTR(T, tag, N)                                                                                                 \
	IF(void, rng_ptr_##tag##_##N)(ul pa, ul qa, ul* R o) { T* const p = reinterpret_cast<T*>(pa); T* const q = reinterpret_cast<T*>(qa); ptrs<T>(p, q, N, o); }                                        \
	SF(void, rng_ptr_##tag##_##N)(ul pa, ul qa, ul* R o) { T* const p = reinterpret_cast<T*>(pa); T* const q = reinterpret_cast<T*>(qa); ptrs_def<T>(p, q, N, o); }                                    \
	IF(bool, rng_ptrin_##tag##_##N)(ul pa, ul qa) { T* const p = reinterpret_cast<T*>(pa); T* const q = reinterpret_cast<T*>(qa); return integral_range<T*>{ p, p + N }.contains(q); }                 \
	SF(bool, rng_ptrin_##tag##_##N)(ul pa, ul qa) { T* const p = reinterpret_cast<T*>(pa); T* const q = reinterpret_cast<T*>(qa); return p <= q && q < p + N; }
PTR(int, int, 0)
PTR(int, int, 1)
PTR(int, int, 7)
PTR(std::byte, byte, 5)
PTR(double, f64, 3)
// deduction
#define RDED(name, T, ...)                                                                                             \
	IF(bool, rng_ded_##name)(int a, u32 b, s8 c, sl d, u8 e, int* p)                                                   \
	{                                                                                                                  \
		(void)a, (void)b, (void)c, (void)d, (void)e, (void)p;                                                          \
		return std::is_same_v<decltype(integral_range(__VA_ARGS__)), integral_range<T>>;                              \
	}                                                                                                                  \
	SF(bool, rng_ded_##name)(int, u32, s8, sl, u8, int*) { return true; }
RDED(mixed, u32, a, b)
RDED(wide, sl, c, d)
RDED(one, u8, e)
RDED(ptr, int*, p, p + 1)
RDED(narrow, s8, c, c)
#else
// ------------------------------------------------------------------------------------------------ spans
// std::span is the oracle; a null pointer with elements is outside the preconditions
template <typename T>
INL T* at(ul a)
{
	return reinterpret_cast<T*>(a ? a : 64);
}
template <typename S_>
INL void put(const S_& s, ul* o)
{
	o[0] = reinterpret_cast<ul>(s.data());
	o[1] = s.size();
	o[2] = s.size_bytes();
	o[3] = s.empty();
	o[4] = reinterpret_cast<ul>(&*s.begin());
	o[5] = reinterpret_cast<ul>(&*s.begin() + (s.end() - s.begin()));
	o[6] = reinterpret_cast<ul>(&*s.rbegin().base());
	o[7] = reinterpret_cast<ul>(&*s.rend().base());
}
template <typename S_>
INL void put_at(const S_& s, ul i, ul* o)
{
	o[0] = reinterpret_cast<ul>(&s[i]);
	o[1] = reinterpret_cast<ul>(&s.front());
	o[2] = reinterpret_cast<ul>(&s.back());
	o[3] = reinterpret_cast<ul>(&*s.begin());
	o[4] = reinterpret_cast<ul>(&s.begin()[static_cast<sl>(i)]);
	o[5] = reinterpret_cast<ul>(&*(s.end() - 1));
	o[6] = reinterpret_cast<ul>(&*s.rbegin());
	o[7] = reinterpret_cast<ul>(&s.rbegin()[static_cast<sl>(i)]);
	o[8] = reinterpret_cast<ul>(&*(s.rend() - 1));
}
#define SPAN(T, tag)                                                                                                   \
	IF(void, spn_it_##tag)(ul pa, ul n, ul* R o) { T* const p = at<T>(pa); put(muu::span<T>(p, n), o); }                                        \
	SF(void, spn_it_##tag)(ul pa, ul n, ul* R o) { T* const p = at<T>(pa); put(std::span<T>(p, n), o); }                                        \
	IF(void, spn_at_##tag)(ul pa, ul n, ul i, ul* R o)                                                                  \
	{ T* const p = at<T>(pa);                                                                                                                   \
		if (i < n)                                                                                                     \
			put_at(muu::span<T>(p, n), i, o);                                                                          \
	}                                                                                                                  \
	SF(void, spn_at_##tag)(ul pa, ul n, ul i, ul* R o)                                                                  \
	{ T* const p = at<T>(pa);                                                                                                                   \
		if (i < n)                                                                                                     \
			put_at(std::span<T>(p, n), i, o);                                                                          \
	}                                                                                                                  \
	IF(void, spn_static_##tag)(ul pa, ul i, ul* R o)                                                                    \
	{ T* const p = at<T>(pa);                                                                                                                   \
		const muu::span<T, 6> s(p, 6);                                                                                 \
		put(s, o);                                                                                                     \
		put_at(s, i % 6, o + 8);                                                                                       \
		put(muu::span<T, 6>(p, p + 6), o + 20);                                                                        \
		put(muu::span<T>(s), o + 28);                                                                                  \
		put(muu::span<T, 6>(muu::span<T>(s)), o + 36);                                                                 \
		put(muu::span<T, 0>(), o + 44);                                                                                \
		put(muu::span<T>(), o + 52);                                                                                   \
		put(muu::span<const T>(s), o + 60);                                                                            \
		put(muu::span<const T, 6>(s), o + 68);                                                                         \
	}                                                                                                                  \
	SF(void, spn_static_##tag)(ul pa, ul i, ul* R o)                                                                    \
	{ T* const p = at<T>(pa);                                                                                                                   \
		const std::span<T, 6> s(p, 6);                                                                                 \
		put(s, o);                                                                                                     \
		put_at(s, i % 6, o + 8);                                                                                       \
		put(s, o + 20);                                                                                                \
		put(s, o + 28);                                                                                                \
		put(s, o + 36);                                                                                                \
		put(std::span<T, 0>(), o + 44);                                                                                \
		put(std::span<T>(), o + 52);                                                                                   \
		put(s, o + 60);                                                                                                \
		put(s, o + 68);                                                                                                \
	}                                                                                                                  \
	IF(void, spn_arr_##tag)(T(*a)[5], std::array<T, 5>* b, const std::array<T, 5>* c, ul* R o)                         \
	{                                                                                                                  \
		put(muu::span(*a), o);                                                                                         \
		put(muu::span(*b), o + 8);                                                                                     \
		put(muu::span(*c), o + 16);                                                                                    \
		put(muu::span<T>(*a), o + 24);                                                                                 \
		put(muu::span<T>(*b), o + 32);                                                                                 \
		put(muu::span<const T>(*c), o + 40);                                                                           \
		put(muu::span<const T, 5>(*b), o + 48);                                                                        \
	}                                                                                                                  \
	SF(void, spn_arr_##tag)(T(*a)[5], std::array<T, 5>* b, const std::array<T, 5>* c, ul* R o)                         \
	{                                                                                                                  \
		put(std::span(*a), o);                                                                                         \
		put(std::span(*b), o + 8);                                                                                     \
		put(std::span(*c), o + 16);                                                                                    \
		put(std::span(*a), o + 24);                                                                                    \
		put(std::span(*b), o + 32);                                                                                    \
		put(std::span(*c), o + 40);                                                                                    \
		put(std::span(*b), o + 48);                                                                                    \
	}                                                                                                                  \
	SUB(T, tag, first, k, s.first(k))                                                                                  \
	SUB(T, tag, last, k, s.last(k))                                                                                    \
	SUBO(T, tag, sub, s.subspan(k))                                                                                    \
	SUBO(T, tag, subn, s.subspan(k, k2 % (n - k + 1)))                                                                 \
	SUBO(T, tag, subd, s.subspan(k, dynamic_extent))                                                                   \
	SUBC(T, tag, firstc, s.template first<3>())                                                                        \
	SUBC(T, tag, lastc, s.template last<3>())                                                                          \
	SUBC(T, tag, subc, (s.template subspan<2>()))                                                                      \
	SUBC(T, tag, subcn, (s.template subspan<2, 3>()))                                                                  \
	SUBC(T, tag, subc0, (s.template subspan<0, 3>()))                                                                  \
	SUBC(T, tag, subc1, (s.template subspan<4>()))                                                                     \
	IF(void, spn_bytes_##tag)(ul pa, ul n, ul* R o)                                                                     \
	{ T* const p = at<T>(pa);                                                                                                                   \
		put(as_bytes(muu::span<T>(p, n)), o);                                                                          \
		put(as_bytes(muu::span<T, 6>(p, 6)), o + 8);                                                                   \
		put(as_writable_bytes(muu::span<T>(p, n)), o + 16);                                                            \
		put(as_writable_bytes(muu::span<T, 6>(p, 6)), o + 24);                                                         \
		static_assert(decltype(as_bytes(muu::span<T, 6>(p, 6)))::extent == 6 * sizeof(T));                             \
	}                                                                                                                  \
	SF(void, spn_bytes_##tag)(ul pa, ul n, ul* R o)                                                                     \
	{ T* const p = at<T>(pa);                                                                                                                   \
		put(std::as_bytes(std::span<T>(p, n)), o);                                                                     \
		put(std::as_bytes(std::span<T, 6>(p, 6)), o + 8);                                                              \
		put(std::as_writable_bytes(std::span<T>(p, n)), o + 16);                                                       \
		put(std::as_writable_bytes(std::span<T, 6>(p, 6)), o + 24);                                                    \
	}
#define ITIT(T, tag)                                                                                                   \
	IF(void, spn_itit_##tag)(ul pa, ul n, ul* R o)                                                                      \
	{ T* const p = at<T>(pa);                                                                                                                   \
		n &= 0xFFFFFF;                                                                                                 \
		put(muu::span<T>(p, p + n), o);                                                                                \
	}                                                                                                                  \
	SF(void, spn_itit_##tag)(ul pa, ul n, ul* R o)                                                                      \
	{ T* const p = at<T>(pa);                                                                                                                   \
		n &= 0xFFFFFF;                                                                                                 \
		put(std::span<T>(p, n), o);                                                                                    \
	}
#define SUB(T, tag, name, k, e)                                                                                        \
	IF(void, spn_##name##_##tag)(ul pa, ul n, ul k, ul* R o)                                                            \
	{ T* const p = at<T>(pa);                                                                                                                   \
		const muu::span<T> s(p, n);                                                                                    \
		if (k <= n)                                                                                                    \
			put(e, o);                                                                                                 \
	}                                                                                                                  \
	SF(void, spn_##name##_##tag)(ul pa, ul n, ul k, ul* R o)                                                            \
	{ T* const p = at<T>(pa);                                                                                                                   \
		const std::span<T> s(p, n);                                                                                    \
		if (k <= n)                                                                                                    \
			put(e, o);                                                                                                 \
	}
#define SUBO(T, tag, name, e)                                                                                          \
	IF(void, spn_##name##_##tag)(ul pa, ul n, ul k, ul k2, ul* R o)                                                     \
	{ T* const p = at<T>(pa);                                                                                                                   \
		const muu::span<T> s(p, n);                                                                                    \
		(void)k2;                                                                                                      \
		if (k < n)                                                                                                     \
			put(e, o);                                                                                                 \
	}                                                                                                                  \
	SF(void, spn_##name##_##tag)(ul pa, ul n, ul k, ul k2, ul* R o)                                                     \
	{ T* const p = at<T>(pa);                                                                                                                   \
		const std::span<T> s(p, n);                                                                                    \
		(void)k2;                                                                                                      \
		if (k < n)                                                                                                     \
			put(e, o);                                                                                                 \
	}
// with compile-time bounds, on spans of either kind
#define SUBC(T, tag, name, e)                                                                                          \
	IF(void, spn_##name##_##tag)(ul pa, ul n, ul* R o)                                                                  \
	{ T* const p = at<T>(pa);                                                                                                                   \
		{                                                                                                              \
			const muu::span<T, 6> s(p, 6);                                                                             \
			put(e, o);                                                                                                 \
		}                                                                                                              \
		const muu::span<T> s(p, n);                                                                                    \
		if (n >= 6)                                                                                                    \
			put(e, o + 8);                                                                                             \
	}                                                                                                                  \
	SF(void, spn_##name##_##tag)(ul pa, ul n, ul* R o)                                                                  \
	{ T* const p = at<T>(pa);                                                                                                                   \
		{                                                                                                              \
			const std::span<T, 6> s(p, 6);                                                                             \
			put(e, o);                                                                                                 \
		}                                                                                                              \
		const std::span<T> s(p, n);                                                                                    \
		if (n >= 6)                                                                                                    \
			put(e, o + 8);                                                                                             \
	}
struct three
{
	u16 v[3];
};
SPAN(int, int)
SPAN(u8, u8)
SPAN(double, f64)
SPAN(three, three)
ITIT(int, int)
ITIT(u8, u8)
ITIT(double, f64)
IF(void, spn_al)(ul pa, ul n, ul* R o)
{
	int* const p = at<int>(pa & ~ul{ 63 });
	const muu::span<int, dynamic_extent, 64> s(p, n);
	put(s, o);
	if (n >= 6)
	{
		put(s.first(5), o + 8);
		put(s.last(5), o + 16);
		put(s.subspan(1, 3), o + 24);
	}
}
SF(void, spn_al)(ul pa, ul n, ul* R o)
{
	int* const p = at<int>(pa & ~ul{ 63 });
	const std::span<int> s(p, n);
	put(s, o);
	if (n >= 6)
	{
		put(s.first(5), o + 8);
		put(s.last(5), o + 16);
		put(s.subspan(1, 3), o + 24);
	}
}
// which conversions exist: a span never gives write access to elements it was only shown as const, and never drops
// volatile. W is 1 if a value of type From converts to the span (implicitly or explicitly), 0 if it must not.
#define CONV(name, W, To, ...)                                                                                         \
	IF(bool, spn_conv_##name)() { return std::is_constructible_v<To, __VA_ARGS__>; }                                   \
	SF(bool, spn_conv_##name)() { return W; }
#define COMMA ,
#define X(T) muu::span<T>
#define X3(T) muu::span<T COMMA 3>
CONV(span_m_c, 1, X(const int), X(int))
CONV(span_c_m, 0, X(int), X(const int))
CONV(span_c_c, 1, X(const int), X(const int))
CONV(span_m_v, 1, X(volatile int), X(int))
CONV(span_v_m, 0, X(int), X(volatile int))
CONV(span_v_c, 0, X(const int), X(volatile int))
CONV(span_c_v, 0, X(volatile int), X(const int))
CONV(span_cv_m, 0, X(int), X(const volatile int))
CONV(span_cv_c, 0, X(const int), X(const volatile int))
CONV(span_cv_v, 0, X(volatile int), X(const volatile int))
CONV(span_m_cv, 1, X(const volatile int), X(int))
CONV(span_c_cv, 1, X(const volatile int), X(const int))
CONV(span_v_cv, 1, X(const volatile int), X(volatile int))
CONV(ptr_m_m, 1, X(int), int*, ul)
CONV(ptr_m_c, 1, X(const int), int*, ul)
CONV(ptr_c_m, 0, X(int), const int*, ul)
CONV(ptr_v_m, 0, X(int), volatile int*, ul)
CONV(ptr_v_c, 0, X(const int), volatile int*, ul)
CONV(pptr_c_m, 0, X(int), const int*, const int*)
CONV(pptr_m_c, 1, X(const int), int*, int*)
CONV(ptr_other, 0, X(int), long*, ul)
CONV(ptr_signed, 0, X(int), u32*, ul)
CONV(vit_m, 1, X(int), std::vector<int>::iterator, ul)
CONV(vit_c_m, 0, X(int), std::vector<int>::const_iterator, ul)
CONV(vit_c_c, 1, X(const int), std::vector<int>::const_iterator, ul)
CONV(arr_m_m, 1, X(int), std::array<int COMMA 3>&)
CONV(arr_m_c, 1, X(const int), std::array<int COMMA 3>&)
CONV(arr_c_c, 1, X(const int), const std::array<int COMMA 3>&)
CONV(arr_c_m, 0, X(int), const std::array<int COMMA 3>&)
CONV(arr_ce_m, 0, X(int), std::array<const int COMMA 3>&)
CONV(arr_ce_c, 1, X(const int), std::array<const int COMMA 3>&)
CONV(carr_c_m, 0, X(int), const int(&)[3])
CONV(carr_m_m, 1, X(int), int(&)[3])
CONV(sarr_c_m, 0, X3(int), const std::array<int COMMA 3>&)
CONV(sarr_m_m, 1, X3(int), std::array<int COMMA 3>&)
CONV(sarr_len, 0, X3(int), std::array<int COMMA 2>&)
CONV(scarr_len, 0, X3(int), int(&)[2])
CONV(scarr_ok, 1, X3(int), int(&)[3])
CONV(stat_m_c, 1, X3(const int), X3(int))
CONV(stat_c_m, 0, X3(int), X3(const int))
CONV(stat_dyn, 1, X(int), X3(int))
CONV(stat_dyn_c_m, 0, X(int), X3(const int))
CONV(dyn_stat, 1, X3(int), X(int))
CONV(dyn_stat_c_m, 0, X3(int), X(const int))
CONV(stat_len, 0, X3(int), muu::span<int COMMA 2>)
CONV(stat_len2, 0, X3(int), muu::span<int COMMA 4>)
CONV(span_other, 0, X(int), X(long))
CONV(sptr_c_m, 0, X3(int), const int*, ul)
CONV(sptr_m_m, 1, X3(int), int*, ul)
// a dynamically-sized span or a pointer never turns into a statically-sized one without a cast
IF(bool, spn_impl_dyn_stat)() { return std::is_convertible_v<muu::span<int>, muu::span<int, 3>>; }
SF(bool, spn_impl_dyn_stat)() { return false; }
IF(bool, spn_impl_stat_dyn)() { return std::is_convertible_v<muu::span<int, 3>, muu::span<int>>; }
SF(bool, spn_impl_stat_dyn)() { return true; }
template <typename T, typename = void>
constexpr bool writable = false;
template <typename T>
constexpr bool writable<T, std::void_t<decltype(as_writable_bytes(std::declval<T>()))>> = true;
IF(bool, spn_writable_c)() { return writable<muu::span<const int>>; }
SF(bool, spn_writable_c)() { return false; }
IF(bool, spn_writable_m)() { return writable<muu::span<int>>; }
SF(bool, spn_writable_m)() { return true; }
// deduction keeps the constness of the source
template <typename T, typename U>
constexpr bool same = std::is_same_v<T, U>;
#define DED(name, T, ...)                                                                                              \
	IF(bool, spn_ded_##name)(int* p, const int* c, int(*a)[3], const int(*ca)[3], std::array<int, 3>* r, const std::array<int, 3>* cr) \
	{                                                                                                                  \
		(void)p, (void)c, (void)a, (void)ca, (void)r, (void)cr;                                                        \
		return same<decltype(muu::span{ __VA_ARGS__ }), T>;                                                            \
	}                                                                                                                  \
	SF(bool, spn_ded_##name)(int*, const int*, int(*)[3], const int(*)[3], std::array<int, 3>*, const std::array<int, 3>*) { return true; }
DED(p, X(int), p, ul{ 3 })
DED(c, X(const int), c, ul{ 3 })
DED(pp, X(int), p, p + 1)
DED(cc, X(const int), c, c + 1)
DED(a, X3(int), *a)
DED(ca, X3(const int), *ca)
DED(r, X3(int), *r)
DED(cr, X3(const int), *cr)
#endif
