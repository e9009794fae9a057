// vectors: every operation is the component-wise / textbook formula, for dimensions 1..6
#include <muu/vector.h>
#include "ob.h"
using namespace muu;

#ifndef INTEGRAL
	#define INTEGRAL 0
#endif

#define ALLN(M) M(1) M(2) M(3) M(4) M(5) M(6)
#define MULTI(M) M(2) M(3) M(4) M(5) M(6)
#define N_(x, n) CAT(x, n)
#define VEC(n) const vector<S, n>&R
#define IN const S* R

// ---- component-wise arithmetic
#define BIN(nm, op)                                                                                                    \
	/* vector op vector */                                                                                             \
	ALLN(BIN_##nm)
#define GENBIN(nm, op, n)                                                                                              \
	I(N_(nm, n))(VEC(n) a, VEC(n) b, vector<S, n>& R o) { o = a op b; }                                                \
	P(N_(nm, n))(IN a, IN b, S* R o)                                                                                   \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
			o[k] = static_cast<S>(a[k] op b[k]);                                                                       \
	}                                                                                                                  \
	I(N_(nm##_assign, n))(vector<S, n> & R a, VEC(n) b) { a op## = b; }                                                \
	P(N_(nm##_assign, n))(S* R a, IN b)                                                                                \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
			a[k] = static_cast<S>(a[k] op b[k]);                                                                       \
	}
#define GENSC(nm, op, n)                                                                                               \
	I(N_(nm##_scalar, n))(VEC(n) a, S b, vector<S, n>& R o) { o = a op b; }                                            \
	P(N_(nm##_scalar, n))(IN a, S b, S* R o)                                                                           \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
			o[k] = static_cast<S>(a[k] op b);                                                                          \
	}                                                                                                                  \
	I(N_(nm##_scalar_assign, n))(vector<S, n> & R a, S b) { a op## = b; }                                              \
	P(N_(nm##_scalar_assign, n))(S* R a, S b)                                                                          \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
			a[k] = static_cast<S>(a[k] op b);                                                                          \
	}
#define M(n)                                                                                                           \
	GENBIN(add, +, n)                                                                                                  \
	GENBIN(sub, -, n)                                                                                                  \
	GENBIN(mul, *, n)                                                                                                  \
	GENSC(mul, *, n)                                                                                                   \
	GENSC(div, /, n)                                                                                                   \
	GENBIN(div, /, n)                                                                                                  \
	I(N_(scalar_mul, n))(S a, VEC(n) b, vector<S, n>& R o) { o = a * b; }                                              \
	P(N_(scalar_mul, n))(S a, IN b, S* R o)                                                                            \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
			o[k] = static_cast<S>(a * b[k]);                                                                           \
	}                                                                                                                  \
	I(N_(neg, n))(VEC(n) a, vector<S, n>& R o) { o = -a; }                                                             \
	P(N_(neg, n))(IN a, S* R o)                                                                                        \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
			o[k] = static_cast<S>(-a[k]);                                                                              \
	}                                                                                                                  \
	I(N_(plus, n))(VEC(n) a, vector<S, n>& R o) { o = +a; }                                                            \
	P(N_(plus, n))(IN a, S* R o)                                                                                       \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
			o[k] = a[k];                                                                                               \
	}                                                                                                                  \
	IB(N_(equal, n))(VEC(n) a, VEC(n) b) { return a == b; }                                                            \
	PB(N_(equal, n))(IN a, IN b)                                                                                       \
	{                                                                                                                  \
		bool r = true;                                                                                                 \
		for (int k = 0; k < n; k++)                                                                                    \
			r = r & (a[k] == b[k]);                                                                                    \
		return r;                                                                                                      \
	}                                                                                                                  \
	IB(N_(notequal, n))(VEC(n) a, VEC(n) b) { return a != b; }                                                         \
	PB(N_(notequal, n))(IN a, IN b)                                                                                    \
	{                                                                                                                  \
		bool r = false;                                                                                                \
		for (int k = 0; k < n; k++)                                                                                    \
			r = r | (a[k] != b[k]);                                                                                    \
		return r;                                                                                                      \
	}                                                                                                                  \
	IB(N_(zero, n))(VEC(n) a) { return vector<S, n>::zero(a) && a.zero(); }                                            \
	PB(N_(zero, n))(IN a)                                                                                              \
	{                                                                                                                  \
		bool r = true;                                                                                                 \
		for (int k = 0; k < n; k++)                                                                                    \
			r = r & (a[k] == S{});                                                                                     \
		return r;                                                                                                      \
	}                                                                                                                  \
	IS(N_(sum, n))(VEC(n) a) { return vector<S, n>::sum(a); }                                                          \
	PS(N_(sum, n))(IN a)                                                                                               \
	{                                                                                                                  \
		S r = a[0];                                                                                                    \
		for (int k = 1; k < n; k++)                                                                                    \
			r = static_cast<S>(r + a[k]);                                                                              \
		return r;                                                                                                      \
	}                                                                                                                  \
	IS(N_(product, n))(VEC(n) a) { return vector<S, n>::product(a); }                                                  \
	PS(N_(product, n))(IN a)                                                                                           \
	{                                                                                                                  \
		S r = a[0];                                                                                                    \
		for (int k = 1; k < n; k++)                                                                                    \
			r = static_cast<S>(r * a[k]);                                                                              \
		return r;                                                                                                      \
	}                                                                                                                  \
	I(N_(dot, n))(VEC(n) a, VEC(n) b, decltype(vector<S, n>::dot(a, b)) & R o)                                         \
	{                                                                                                                  \
		o = vector<S, n>::dot(a, b);                                                                                   \
	}                                                                                                                  \
	P(N_(dot, n))(IN a, IN b, typename vector<S, n>::product_scalar_type* R o)                                         \
	{                                                                                                                  \
		typename vector<S, n>::product_scalar_type r = a[0] * b[0];                                                    \
		for (int k = 1; k < n; k++)                                                                                    \
			r = r + a[k] * b[k];                                                                                       \
		*o = r;                                                                                                        \
	}                                                                                                                  \
	I(N_(dot_member, n))(VEC(n) a, VEC(n) b, decltype(vector<S, n>::dot(a, b)) & R o) { o = a.dot(b); }                \
	P(N_(dot_member, n))(IN a, IN b, typename vector<S, n>::product_scalar_type* R o)                                  \
	{                                                                                                                  \
		s__dot##n(a, b, o);                                                                                            \
	}                                                                                                                  \
	I(N_(min, n))(VEC(n) a, VEC(n) b, vector<S, n>& R o) { o = vector<S, n>::min(a, b); }                              \
	P(N_(min, n))(IN a, IN b, S* R o)                                                                                  \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
			o[k] = b[k] < a[k] ? b[k] : a[k];                                                                          \
	}                                                                                                                  \
	I(N_(max, n))(VEC(n) a, VEC(n) b, vector<S, n>& R o) { o = vector<S, n>::max(a, b); }                              \
	P(N_(max, n))(IN a, IN b, S* R o)                                                                                  \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
			o[k] = a[k] < b[k] ? b[k] : a[k];                                                                          \
	}                                                                                                                  \
	I(N_(min3, n))(VEC(n) a, VEC(n) b, VEC(n) c, vector<S, n>& R o) { o = vector<S, n>::min(a, b, c); }                \
	P(N_(min3, n))(IN a, IN b, IN c, S* R o)                                                                           \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
		{                                                                                                              \
			S m	 = b[k] < a[k] ? b[k] : a[k];                                                                          \
			o[k] = c[k] < m ? c[k] : m;                                                                                \
		}                                                                                                              \
	}                                                                                                                  \
	I(N_(max3, n))(VEC(n) a, VEC(n) b, VEC(n) c, vector<S, n>& R o) { o = vector<S, n>::max(a, b, c); }                \
	P(N_(max3, n))(IN a, IN b, IN c, S* R o)                                                                           \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
		{                                                                                                              \
			S m	 = a[k] < b[k] ? b[k] : a[k];                                                                          \
			o[k] = m < c[k] ? c[k] : m;                                                                                \
		}                                                                                                              \
	}                                                                                                                  \
	I(N_(clamp, n))(VEC(n) a, VEC(n) lo, VEC(n) hi, vector<S, n>& R o)                                                 \
	{                                                                                                                  \
		for (size_t k = 0; k < n; k++)                                                                                 \
			if (hi[k] < lo[k])                                                                                         \
				return;                                                                                                \
		o = vector<S, n>::clamp(a, lo, hi);                                                                            \
	}                                                                                                                  \
	P(N_(clamp, n))(IN a, IN lo, IN hi, S* R o)                                                                        \
	{                                                                                                                  \
		for (size_t k = 0; k < n; k++)                                                                                 \
			if (hi[k] < lo[k])                                                                                         \
				return;                                                                                                \
		for (int k = 0; k < n; k++)                                                                                    \
			o[k] = a[k] < lo[k] ? lo[k] : hi[k] < a[k] ? hi[k] : a[k];                                                 \
	}                                                                                                                  \
	I(N_(abs, n))(VEC(n) a, vector<S, n>& R o) { o = vector<S, n>::abs(a); }                                           \
	P(N_(abs, n))(IN a, S* R o)                                                                                        \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
			o[k] = spec::absv(a[k]);                                                                                   \
	}                                                                                                                  \
	EX S i__index_rt##n(VEC(n) a, size_t k) { return a[k]; }                                                              \
	EX S s__index_rt##n(IN a, size_t k) { return a[n == 1 ? 0 : k]; }                                                                  \
	I(N_(index, n))(VEC(n) a, S* R o)                                                                                     \
	{                                                                                                                     \
		for (size_t k = 0; k < n; k++)                                                                                       \
			o[k] = a[k];                                                                                                        \
		*const_cast<vector<S, n>&>(a).data() = S{ 3 };                                                                       \
		const_cast<vector<S, n>&>(a)[n - 1] = S{ 2 };                                                                        \
	}                                                                                                                     \
	P(N_(index, n))(S* R a, S* R o)                                                                                       \
	{                                                                                                                     \
		for (size_t k = 0; k < n; k++)                                                                                       \
			o[k] = a[k];                                                                                                        \
		a[0] = S{ 3 };                                                                                                       \
		a[n - 1] = S{ 2 };                                                                                                   \
	}                                                                                                                     \
	I(N_(length_squared, n))(VEC(n) a, typename vector<S, n>::delta_scalar_type& R o) { o = vector<S, n>::length_squared(a); } \
	P(N_(length_squared, n))(IN a, typename vector<S, n>::delta_scalar_type* R o)                                      \
	{                                                                                                                  \
		using D = typename vector<S, n>::delta_scalar_type;                                                            \
		D r		= D(a[0]) * D(a[0]);                                                                                   \
		for (int k = 1; k < n; k++)                                                                                    \
			r = r + D(a[k]) * D(a[k]);                                                                                 \
		*o = r;                                                                                                        \
	}                                                                                                                  \
	I(N_(distance_squared, n))(VEC(n) a, VEC(n) b, typename vector<S, n>::delta_scalar_type& R o) { o = vector<S, n>::distance_squared(a, b); } \
	P(N_(distance_squared, n))(IN a, IN b, typename vector<S, n>::delta_scalar_type* R o)                              \
	{                                                                                                                  \
		using D = typename vector<S, n>::delta_scalar_type;                                                            \
		D r{};                                                                                                         \
		for (int k = 0; k < n; k++)                                                                                    \
		{                                                                                                              \
			D d = D(a[k]) - D(b[k]);                                                                                   \
			r	= k ? r + d * d : d * d;                                                                               \
		}                                                                                                              \
		*o = r;                                                                                                        \
	}
ALLN(M)
#undef M

I(cross)(VEC(3) a, VEC(3) b, vector<typename vector<S, 3>::product_scalar_type, 3>& R o) { o = vector<S, 3>::cross(a, b); }
P(cross)(IN a, IN b, typename vector<S, 3>::product_scalar_type* R o)
{
	o[0] = a[1] * b[2] - a[2] * b[1];
	o[1] = a[2] * b[0] - a[0] * b[2];
	o[2] = a[0] * b[1] - a[1] * b[0];
}
I(cross_axis0)(VEC(3) a, vector<typename vector<S, 3>::product_scalar_type, 3>& R o) { o = vector<S, 3>::cross(a, index_tag<0>{}); }
P(cross_axis0)(IN a, typename vector<S, 3>::product_scalar_type* R o) { o[0] = 0; o[1] = a[2]; o[2] = -a[1]; }
I(cross_axis1)(VEC(3) a, vector<typename vector<S, 3>::product_scalar_type, 3>& R o) { o = vector<S, 3>::cross(a, index_tag<1>{}); }
P(cross_axis1)(IN a, typename vector<S, 3>::product_scalar_type* R o) { o[0] = -a[2]; o[1] = 0; o[2] = a[0]; }
I(cross_axis2)(VEC(3) a, vector<typename vector<S, 3>::product_scalar_type, 3>& R o) { o = vector<S, 3>::cross(a, index_tag<2>{}); }
P(cross_axis2)(IN a, typename vector<S, 3>::product_scalar_type* R o) { o[0] = a[1]; o[1] = -a[0]; o[2] = 0; }
I(axis0_cross)(VEC(3) a, vector<typename vector<S, 3>::product_scalar_type, 3>& R o) { o = vector<S, 3>::cross(index_tag<0>{}, a); }
P(axis0_cross)(IN a, typename vector<S, 3>::product_scalar_type* R o) { o[0] = 0; o[1] = -a[2]; o[2] = a[1]; }
I(axis1_cross)(VEC(3) a, vector<typename vector<S, 3>::product_scalar_type, 3>& R o) { o = vector<S, 3>::cross(index_tag<1>{}, a); }
P(axis1_cross)(IN a, typename vector<S, 3>::product_scalar_type* R o) { o[0] = a[2]; o[1] = 0; o[2] = -a[0]; }
I(axis2_cross)(VEC(3) a, vector<typename vector<S, 3>::product_scalar_type, 3>& R o) { o = vector<S, 3>::cross(index_tag<2>{}, a); }
P(axis2_cross)(IN a, typename vector<S, 3>::product_scalar_type* R o) { o[0] = -a[1]; o[1] = a[0]; o[2] = 0; }
I(dot_axis2)(VEC(4) a, typename vector<S, 4>::product_scalar_type& R o) { o = vector<S, 4>::dot(a, index_tag<2>{}); }
P(dot_axis2)(IN a, typename vector<S, 4>::product_scalar_type* R o) { *o = a[2]; }
I(swizzle3)(VEC(3) a, vector<S, 3>& R o) { o = vector<S, 3>::template swizzle<2, 0, 1>(a); }
P(swizzle3)(IN a, S* R o) { o[0] = a[2]; o[1] = a[0]; o[2] = a[1]; }
I(swizzle4)(VEC(4) a, vector<S, 5>& R o) { o = vector<S, 4>::template swizzle<3, 3, 1, 0, 2>(a); }
P(swizzle4)(IN a, S* R o) { o[0] = a[3]; o[1] = a[3]; o[2] = a[1]; o[3] = a[0]; o[4] = a[2]; }
I(construct_scalar)(S x, vector<S, 4>& R o) { o = vector<S, 4>{ x }; }
P(construct_scalar)(S x, S* R o) { for (int k = 0; k < 4; k++) o[k] = x; }
I(construct_mixed)(VEC(2) a, VEC(2) b, vector<S, 4>& R o) { o = vector<S, 4>{ a, b }; }
P(construct_mixed)(IN a, IN b, S* R o) { o[0] = a[0]; o[1] = a[1]; o[2] = b[0]; o[3] = b[1]; }
I(construct_widen)(VEC(3) a, vector<S, 5>& R o) { o = vector<S, 5>{ a }; }
P(construct_widen)(IN a, S* R o) { for (int k = 0; k < 3; k++) o[k] = a[k]; o[3] = S{}; o[4] = S{}; }
I(construct_narrow)(VEC(5) a, vector<S, 3>& R o) { o = vector<S, 3>{ a }; }
P(construct_narrow)(IN a, S* R o) { for (int k = 0; k < 3; k++) o[k] = a[k]; }
I(construct_pointer)(IN a, vector<S, 3>& R o) { o = vector<S, 3>{ reinterpret_cast<const S(&)[3]>(*a) }; }
P(construct_pointer)(IN a, S* R o) { for (int k = 0; k < 3; k++) o[k] = a[k]; }
I(construct_vec_scalar)(VEC(3) a, S x, vector<S, 4>& R o) { o = vector<S, 4>{ a, x }; }
P(construct_vec_scalar)(IN a, S x, S* R o) { o[0] = a[0]; o[1] = a[1]; o[2] = a[2]; o[3] = x; }

// ---- ranges, lists, member and namespace-level forms, aliasing
#define M(n)                                                                                                           \
	I(N_(min_range, n))(VEC(n) a, VEC(n) b, VEC(n) c, vector<S, n>& R o)                                               \
	{                                                                                                                  \
		vector<S, n> v[3] = { a, b, c };                                                                               \
		o				  = vector<S, n>::min(v, v + 3);                                                               \
	}                                                                                                                  \
	P(N_(min_range, n))(IN a, IN b, IN c, S* R o)                                                                      \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
		{                                                                                                              \
			S m	 = a[k] < b[k] ? a[k] : b[k];                                                                          \
			o[k] = m < c[k] ? m : c[k];                                                                                \
		}                                                                                                              \
	}                                                                                                                  \
	I(N_(max_range, n))(VEC(n) a, VEC(n) b, VEC(n) c, vector<S, n>& R o)                                               \
	{                                                                                                                  \
		vector<S, n> v[3] = { a, b, c };                                                                               \
		o				  = vector<S, n>::max(v, v + 3);                                                               \
	}                                                                                                                  \
	P(N_(max_range, n))(IN a, IN b, IN c, S* R o)                                                                      \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
		{                                                                                                              \
			S m	 = a[k] > b[k] ? a[k] : b[k];                                                                          \
			o[k] = m > c[k] ? m : c[k];                                                                                \
		}                                                                                                              \
	}                                                                                                                  \
	I(N_(minmax_list, n))(VEC(n) a, VEC(n) b, VEC(n) c, vector<S, n>& R o, vector<S, n>& R p, vector<S, n>& R q, vector<S, n>& R r, vector<S, n>& R s, vector<S, n>& R t) \
	{                                                                                                                  \
		o = vector<S, n>::min({ a });                                                                                  \
		p = vector<S, n>::min({ a, b });                                                                               \
		q = vector<S, n>::min({ a, b, c });                                                                            \
		r = vector<S, n>::max({ a });                                                                                  \
		s = vector<S, n>::max({ a, b });                                                                               \
		t = vector<S, n>::max({ a, b, c });                                                                            \
	}                                                                                                                  \
	P(N_(minmax_list, n))(IN a, IN b, IN c, S* R o, S* R p, S* R q, S* R r, S* R s, S* R t)                            \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
		{                                                                                                              \
			o[k] = a[k];                                                                                               \
			p[k] = a[k] < b[k] ? a[k] : b[k];                                                                          \
			q[k] = p[k] < c[k] ? p[k] : c[k];                                                                          \
			r[k] = a[k];                                                                                               \
			s[k] = a[k] > b[k] ? a[k] : b[k];                                                                          \
			t[k] = s[k] > c[k] ? s[k] : c[k];                                                                          \
		}                                                                                                              \
	}                                                                                                                  \
	I(N_(minmax_free, n))(VEC(n) a, VEC(n) b, vector<S, n>& R o, vector<S, n>& R p)                                    \
	{                                                                                                                  \
		o = muu::min(a, b);                                                                                            \
		p = muu::max(a, b);                                                                                            \
	}                                                                                                                  \
	P(N_(minmax_free, n))(IN a, IN b, S* R o, S* R p)                                                                  \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
			o[k] = a[k] < b[k] ? a[k] : b[k];                                                                          \
		for (int k = 0; k < n; k++)                                                                                    \
			p[k] = a[k] > b[k] ? a[k] : b[k];                                                                          \
	}                                                                                                                  \
	I(N_(self, n))(vector<S, n> & R a, vector<S, n> & R b, vector<S, n> & R c)                                         \
	{                                                                                                                  \
		a += a;                                                                                                        \
		b *= b;                                                                                                        \
		c -= c;                                                                                                        \
	}                                                                                                                  \
	P(N_(self, n))(S* R a, S* R b, S* R c)                                                                             \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
		{                                                                                                              \
			a[k] = static_cast<S>(a[k] + a[k]);                                                                        \
			b[k] = static_cast<S>(b[k] * b[k]);                                                                        \
			c[k] = static_cast<S>(c[k] - c[k]);                                                                        \
		}                                                                                                              \
	}                                                                                                                  \
	I(N_(self_scale, n))(vector<S, n> & R a) { a *= a[n - 1]; }                                                        \
	P(N_(self_scale, n))(S* R a)                                                                                       \
	{                                                                                                                  \
		S t = a[n - 1];                                                                                                \
		for (int k = 0; k < n; k++)                                                                                    \
			a[k] = static_cast<S>(a[k] * t);                                                                           \
	}
ALLN(M)
#undef M
#define M(n) \
	I(N_(clamp_forms, n))(VEC(n) a, VEC(n) lo, VEC(n) hi, vector<S, n>& R o, vector<S, n>& R p)                        \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
			if (!(lo[k] <= hi[k]))                                                                                     \
				return;                                                                                                \
		o = muu::clamp(a, lo, hi);                                                                                     \
		p = a;                                                                                                         \
		p.clamp(lo, hi);                                                                                               \
	}                                                                                                                  \
	P(N_(clamp_forms, n))(IN a, IN lo, IN hi, S* R o, S* R p)                                                          \
	{                                                                                                                  \
		for (int k = 0; k < n; k++)                                                                                    \
			if (!(lo[k] <= hi[k]))                                                                                     \
				return;                                                                                                \
		for (int k = 0; k < n; k++)                                                                                    \
			p[k] = o[k] = a[k] < lo[k] ? lo[k] : a[k] > hi[k] ? hi[k] : a[k];                                          \
	}
M(1) M(2) M(3)
#undef M
#if INTEGRAL
	#define M(n)                                                                                                       \
		I(N_(mod, n))(VEC(n) a, VEC(n) b, vector<S, n>& R o) { o = a % b; }                                            \
		P(N_(mod, n))(IN a, IN b, S* R o)                                                                              \
		{                                                                                                              \
			for (int k = 0; k < n; k++)                                                                                \
				o[k] = a[k] % b[k];                                                                                    \
		}                                                                                                              \
		I(N_(shl, n))(VEC(n) a, S b, vector<S, n>& R o) { o = a << (b & 15); }                                         \
		P(N_(shl, n))(IN a, S b, S* R o)                                                                               \
		{                                                                                                              \
			for (int k = 0; k < n; k++)                                                                                \
				o[k] = a[k] << (b & 15);                                                                               \
		}                                                                                                              \
		I(N_(shr, n))(VEC(n) a, S b, vector<S, n>& R o) { o = a >> (b & 15); }                                         \
		P(N_(shr, n))(IN a, S b, S* R o)                                                                               \
		{                                                                                                              \
			for (int k = 0; k < n; k++)                                                                                \
				o[k] = a[k] >> (b & 15);                                                                               \
		}
ALLN(M)
	#undef M
	#define M(n)                                                                                                       \
		IB(N_(normalized, n))(VEC(n) a) { return vector<S, n>::normalized(a) && a.normalized() && muu::normalized(a); }\
		PB(N_(normalized, n))(IN a)                                                                                    \
		{                                                                                                              \
			int ones = 0, others = 0;                                                                                  \
			for (int k = 0; k < n; k++)                                                                                \
			{                                                                                                          \
				ones += (a[k] == 1) | (a[k] == -1);                                                                      \
				others += !((a[k] == 1) | (a[k] == -1) | (a[k] == 0));                                                    \
			}                                                                                                          \
			return ones == 1 && others == 0;                                                                           \
		}
M(1) M(2) M(3) M(4)
	#undef M
#else
	#define M(n)                                                                                                       \
		IS(N_(length, n))(VEC(n) a) { return vector<S, n>::length(a); }                                                \
		PS(N_(length, n))(IN a)                                                                                        \
		{                                                                                                              \
			S r{};                                                                                                     \
			for (int k = 0; k < n; k++)                                                                                \
				r += a[k] * a[k];                                                                                      \
			return spec::root(r);                                                                                      \
		}                                                                                                              \
		IS(N_(distance, n))(VEC(n) a, VEC(n) b) { return vector<S, n>::distance(a, b); }                               \
		PS(N_(distance, n))(IN a, IN b)                                                                                \
		{                                                                                                              \
			S r{};                                                                                                     \
			for (int k = 0; k < n; k++)                                                                                \
				r += (a[k] - b[k]) * (a[k] - b[k]);                                                                    \
			return spec::root(r);                                                                                      \
		}                                                                                                              \
		I(N_(normalize, n))(VEC(n) a, vector<S, n>& R o) { o = vector<S, n>::normalize(a); }                           \
		P(N_(normalize, n))(IN a, S* R o)                                                                              \
		{                                                                                                              \
			S r{};                                                                                                     \
			for (int k = 0; k < n; k++)                                                                                \
				r += a[k] * a[k];                                                                                      \
			for (int k = 0; k < n; k++)                                                                                \
				o[k] = a[k] / spec::root(r);                                                                           \
		}                                                                                                              \
		I(N_(normalize_out, n))(VEC(n) a, vector<S, n>& R o, S& R len) { o = vector<S, n>::normalize(a, len); }        \
		P(N_(normalize_out, n))(IN a, S* R o, S* R len)                                                                \
		{                                                                                                              \
			S r{};                                                                                                     \
			for (int k = 0; k < n; k++)                                                                                \
				r += a[k] * a[k];                                                                                      \
			*len = spec::root(r);                                                                                      \
			for (int k = 0; k < n; k++)                                                                                \
				o[k] = a[k] / spec::root(r);                                                                           \
		}                                                                                                              \
		I(N_(normalize_inplace, n))(vector<S, n> & R a) { a.normalize(); }                                             \
		P(N_(normalize_inplace, n))(S* R a)                                                                            \
		{                                                                                                              \
			S r{};                                                                                                     \
			for (int k = 0; k < n; k++)                                                                                \
				r += a[k] * a[k];                                                                                      \
			for (int k = 0; k < n; k++)                                                                                \
				a[k] = a[k] / spec::root(r);                                                                           \
		}                                                                                                              \
		I(N_(normalize_lensq, n))(VEC(n) a, S l, vector<S, n>& R o)                                                    \
		{                                                                                                              \
			if (l > S{})                                                                                               \
				o = vector<S, n>::normalize_lensq(a, l);                                                               \
		}                                                                                                              \
		P(N_(normalize_lensq, n))(IN a, S l, S* R o)                                                                   \
		{                                                                                                              \
			if (l > S{})                                                                                               \
				for (int k = 0; k < n; k++)                                                                            \
					o[k] = a[k] / spec::root(l);                                                                       \
		}                                                                                                              \
		I(N_(lerp, n))(VEC(n) a, VEC(n) b, S t, vector<S, n>& R o) { o = vector<S, n>::lerp(a, b, t); }                \
		P(N_(lerp, n))(IN a, IN b, S t, S* R o)                                                                        \
		{                                                                                                              \
			for (int k = 0; k < n; k++)                                                                                \
				o[k] = a[k] + (b[k] - a[k]) * t;                                                                       \
		}                                                                                                              \
		I(N_(lerp_inplace, n))(vector<S, n> & R a, VEC(n) b, S t) { a.lerp(b, t); }                                    \
		P(N_(lerp_inplace, n))(S* R a, IN b, S t)                                                                      \
		{                                                                                                              \
			for (int k = 0; k < n; k++)                                                                                \
				a[k] = a[k] + (b[k] - a[k]) * t;                                                                       \
		}                                                                                                              \
		I(N_(ceil, n))(VEC(n) a, vector<S, n>& R o) { o = vector<S, n>::ceil(a); }                                     \
		P(N_(ceil, n))(IN a, S* R o)                                                                                   \
		{                                                                                                              \
			for (int k = 0; k < n; k++)                                                                                \
				o[k] = spec::up(a[k]);                                                                                 \
		}                                                                                                              \
		I(N_(floor, n))(VEC(n) a, vector<S, n>& R o) { o = vector<S, n>::floor(a); }                                   \
		P(N_(floor, n))(IN a, S* R o)                                                                                  \
		{                                                                                                              \
			for (int k = 0; k < n; k++)                                                                                \
				o[k] = spec::down(a[k]);                                                                               \
		}                                                                                                              \
		IB(N_(approx_zero, n))(VEC(n) a, S e)                                                                          \
		{                                                                                                              \
			return vector<S, n>::approx_zero(a, e);                                                                    \
		}                                                                                                              \
		PB(N_(approx_zero, n))(IN a, S e)                                                                              \
		{                                                                                                              \
			bool r = true;                                                                                             \
			for (int k = 0; k < n; k++)                                                                                \
				r = r & (spec::absv(a[k]) < e);                                                                        \
			return r;                                                                                                  \
		}                                                                                                              \
		IB(N_(approx_equal, n))(VEC(n) a, VEC(n) b, S e)                                                               \
		{                                                                                                              \
			return vector<S, n>::approx_equal(a, b, e);                                                                \
		}                                                                                                              \
		PB(N_(approx_equal, n))(IN a, IN b, S e)                                                                       \
		{                                                                                                              \
			bool r = true;                                                                                             \
			for (int k = 0; k < n; k++)                                                                                \
				r = r & (spec::absv(a[k] - b[k]) < e);                                                                 \
			return r;                                                                                                  \
		}                                                                                                              \
		IB(N_(infinity_or_nan, n))(VEC(n) a) { return vector<S, n>::infinity_or_nan(a); }                              \
		PB(N_(infinity_or_nan, n))(const UINT * R a)                                                        \
		{                                                                                                              \
			bool r = false;                                                                                            \
			for (int k = 0; k < n; k++)                                                                                \
				r = r | ((a[k] & EXPMASK) == EXPMASK);                                                                 \
			return r;                                                                                                  \
		}
MULTI(M)
	#undef M
	#define M(n) \
		I(N_(direction, n))(VEC(n) a, VEC(n) b, vector<S, n>& R o) { o = vector<S, n>::direction(a, b); }              \
		P(N_(direction, n))(IN a, IN b, S* R o)                                                                        \
		{                                                                                                              \
			S r{};                                                                                                     \
			for (int k = 0; k < n; k++)                                                                                \
				r += (b[k] - a[k]) * (b[k] - a[k]);                                                                    \
			for (int k = 0; k < n; k++)                                                                                \
				o[k] = (b[k] - a[k]) / spec::root(r);                                                                  \
		}                                                                                                              \
		I(N_(direction_out, n))(VEC(n) a, VEC(n) b, vector<S, n>& R o, S& R d) { o = vector<S, n>::direction(a, b, d); } \
		P(N_(direction_out, n))(IN a, IN b, S* R o, S* R d)                                                            \
		{                                                                                                              \
			S r{};                                                                                                     \
			for (int k = 0; k < n; k++)                                                                                \
				r += (b[k] - a[k]) * (b[k] - a[k]);                                                                    \
			*d = spec::root(r);                                                                                        \
			for (int k = 0; k < n; k++)                                                                                \
				o[k] = (b[k] - a[k]) / spec::root(r);                                                                  \
		}
M(2)
M(3)
	#undef M
IS(angle)(VEC(3) a, VEC(3) b) { return vector<S, 3>::angle(a, b); }
PS(angle)(IN a, IN b)
{
	S d = a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
	S l = spec::root(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
	S m = spec::root(b[0] * b[0] + b[1] * b[1] + b[2] * b[2]);
	return spec::arccos(d / (l * m));
}
	#define M(n)                                                                                                       \
		IS(N_(length_forms, n))(VEC(n) a, VEC(n) b, S& R d, S& R e, S& R f, S& R g, S& R h)                            \
		{                                                                                                              \
			d = a.length();                                                                                            \
			e = muu::distance(a, b);                                                                                   \
			f = a.distance(b);                                                                                         \
			g = a.length_squared();                                                                                    \
			h = muu::distance_squared(a, b);                                                                           \
			return muu::length(a);                                                                                     \
		}                                                                                                              \
		PS(N_(length_forms, n))(IN a, IN b, S* R d, S* R e, S* R f, S* R g, S* R h)                                    \
		{                                                                                                              \
			S r{}, q{};                                                                                                \
			for (int k = 0; k < n; k++)                                                                                \
			{                                                                                                          \
				r += a[k] * a[k];                                                                                      \
				q += (a[k] - b[k]) * (a[k] - b[k]);                                                                    \
			}                                                                                                          \
			*d = spec::root(r);                                                                                        \
			*e = *f = spec::root(q);                                                                                   \
			*g		= r;                                                                                               \
			*h		= q;                                                                                               \
			return spec::root(r);                                                                                      \
		}                                                                                                              \
		IB(N_(normalized, n))(VEC(n) a) { return vector<S, n>::normalized(a); }                                        \
		PB(N_(normalized, n))(IN a)                                                                                    \
		{                                                                                                              \
			S r{};                                                                                                     \
			for (int k = 0; k < n; k++)                                                                                \
				r += a[k] * a[k];                                                                                      \
			return spec::absv(r - S{ 1 }) < (sizeof(S) == 4 ? S(1 / 1000000.0) : S(1 / 10000000000.0));                \
		}                                                                                                              \
		I(N_(misc_forms, n))(VEC(n) a, VEC(n) b, S t, vector<S, n>& R o, vector<S, n>& R p, vector<S, n>& R q, vector<S, n>& R r, vector<S, n>& R s) \
		{                                                                                                              \
			o = muu::lerp(a, b, t);                                                                                    \
			p = muu::ceil(a);                                                                                          \
			q = muu::floor(a);                                                                                         \
			r = muu::normalize(a);                                                                                     \
			s = muu::abs(a);                                                                                           \
		}                                                                                                              \
		P(N_(misc_forms, n))(IN a, IN b, S t, S* R o, S* R p, S* R q, S* R r, S* R s)                                  \
		{                                                                                                              \
			S l{};                                                                                                     \
			for (int k = 0; k < n; k++)                                                                                \
				l += a[k] * a[k];                                                                                      \
			for (int k = 0; k < n; k++)                                                                                \
			{                                                                                                          \
				o[k] = a[k] + (b[k] - a[k]) * t;                                                                       \
				p[k] = spec::up(a[k]);                                                                                 \
				q[k] = spec::down(a[k]);                                                                               \
				r[k] = a[k] / spec::root(l);                                                                           \
				s[k] = spec::absv(a[k]);                                                                               \
			}                                                                                                          \
		}
MULTI(M)
	#undef M
IS(length1)(VEC(1) a) { return vector<S, 1>::length(a); }
PS(length1)(IN a) { return spec::absv(a[0]); }
IS(distance1)(VEC(1) a, VEC(1) b) { return vector<S, 1>::distance(a, b); }
PS(distance1)(IN a, IN b) { return spec::root((a[0] - b[0]) * (a[0] - b[0])); }
I(normalize1)(VEC(1) a, vector<S, 1>& R o, vector<S, 1>& R p, S& R len)
{
	o = vector<S, 1>::normalize(a);
	p = vector<S, 1>::normalize(a, len);
}
P(normalize1)(IN a, S* R o, S* R p, S* R len)
{
	*len = spec::absv(a[0]);
	*o = *p = a[0] < S{} ? S{ -1 } : S{ 1 };
}
#endif
