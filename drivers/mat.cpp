#include <muu/matrix.h>
#include <muu/quaternion.h>
#include <muu/vector.h>
#include "ob.h"
using namespace muu;
#define M(r, c) const matrix<S, r, c>&R
#define MO(r, c) matrix<S, r, c>& R
#define IN const S* R
#define OUT S* R
#define N3(a, b, c) N3_(a, b, c)
#define N3_(a, b, c) a##_##b##_##c
#define AT(m, rows, r, c) m[(c) * (rows) + (r)]

// ---- any size -----------------------------------------------------------------------------------------------------
#define ANY(r, c)                                                                                                      \
	I(N3(add, r, c))(M(r, c) a, M(r, c) b, MO(r, c) o) { o = a + b; }                                                  \
	P(N3(add, r, c))(IN a, IN b, OUT o)                                                                                \
	{                                                                                                                  \
		for (int k = 0; k < r * c; k++)                                                                                \
			o[k] = a[k] + b[k];                                                                                        \
	}                                                                                                                  \
	I(N3(add_eq, r, c))(MO(r, c) a, M(r, c) b) { a += b; }                                                             \
	P(N3(add_eq, r, c))(OUT a, IN b)                                                                                   \
	{                                                                                                                  \
		for (int k = 0; k < r * c; k++)                                                                                \
			a[k] = a[k] + b[k];                                                                                        \
	}                                                                                                                  \
	I(N3(sub, r, c))(M(r, c) a, M(r, c) b, MO(r, c) o) { o = a - b; }                                                  \
	P(N3(sub, r, c))(IN a, IN b, OUT o)                                                                                \
	{                                                                                                                  \
		for (int k = 0; k < r * c; k++)                                                                                \
			o[k] = a[k] - b[k];                                                                                        \
	}                                                                                                                  \
	I(N3(sub_eq, r, c))(MO(r, c) a, M(r, c) b) { a -= b; }                                                             \
	P(N3(sub_eq, r, c))(OUT a, IN b)                                                                                   \
	{                                                                                                                  \
		for (int k = 0; k < r * c; k++)                                                                                \
			a[k] = a[k] - b[k];                                                                                        \
	}                                                                                                                  \
	I(N3(neg, r, c))(M(r, c) a, MO(r, c) o) { o = -a; }                                                                \
	P(N3(neg, r, c))(IN a, OUT o)                                                                                      \
	{                                                                                                                  \
		for (int k = 0; k < r * c; k++)                                                                                \
			o[k] = -a[k];                                                                                              \
	}                                                                                                                  \
	I(N3(plus, r, c))(M(r, c) a, MO(r, c) o) { o = +a; }                                                               \
	P(N3(plus, r, c))(IN a, OUT o)                                                                                     \
	{                                                                                                                  \
		for (int k = 0; k < r * c; k++)                                                                                \
			o[k] = a[k];                                                                                               \
	}                                                                                                                  \
	I(N3(scale, r, c))(M(r, c) a, S s, MO(r, c) o) { o = a * s; }                                                      \
	P(N3(scale, r, c))(IN a, S s, OUT o)                                                                               \
	{                                                                                                                  \
		for (int k = 0; k < r * c; k++)                                                                                \
			o[k] = a[k] * s;                                                                                           \
	}                                                                                                                  \
	I(N3(scale_left, r, c))(M(r, c) a, S s, MO(r, c) o) { o = s * a; }                                                 \
	P(N3(scale_left, r, c))(IN a, S s, OUT o)                                                                          \
	{                                                                                                                  \
		for (int k = 0; k < r * c; k++)                                                                                \
			o[k] = a[k] * s;                                                                                           \
	}                                                                                                                  \
	I(N3(scale_eq, r, c))(MO(r, c) a, S s) { a *= s; }                                                                 \
	P(N3(scale_eq, r, c))(OUT a, S s)                                                                                  \
	{                                                                                                                  \
		for (int k = 0; k < r * c; k++)                                                                                \
			a[k] = a[k] * s;                                                                                           \
	}                                                                                                                  \
	I(N3(div, r, c))(M(r, c) a, S s, MO(r, c) o) { o = a / s; }                                                        \
	P(N3(div, r, c))(IN a, S s, OUT o)                                                                                 \
	{                                                                                                                  \
		for (int k = 0; k < r * c; k++)                                                                                \
			o[k] = a[k] / s;                                                                                           \
	}                                                                                                                  \
	I(N3(div_eq, r, c))(MO(r, c) a, S s) { a /= s; }                                                                   \
	P(N3(div_eq, r, c))(OUT a, S s)                                                                                    \
	{                                                                                                                  \
		for (int k = 0; k < r * c; k++)                                                                                \
			a[k] = a[k] / s;                                                                                           \
	}                                                                                                                  \
	IB(N3(eq, r, c))(M(r, c) a, M(r, c) b) { return a == b; }                                                          \
	PB(N3(eq, r, c))(IN a, IN b)                                                                                       \
	{                                                                                                                  \
		bool x = true;                                                                                                 \
		for (int k = 0; k < r * c; k++)                                                                                \
			x = x & (a[k] == b[k]);                                                                                    \
		return x;                                                                                                      \
	}                                                                                                                  \
	IB(N3(ne, r, c))(M(r, c) a, M(r, c) b) { return a != b; }                                                          \
	PB(N3(ne, r, c))(IN a, IN b)                                                                                       \
	{                                                                                                                  \
		bool x = true;                                                                                                 \
		for (int k = 0; k < r * c; k++)                                                                                \
			x = x & (a[k] == b[k]);                                                                                    \
		return !x;                                                                                                     \
	}                                                                                                                  \
	IB(N3(zero, r, c))(M(r, c) a) { return matrix<S, r, c>::zero(a); }                                                 \
	PB(N3(zero, r, c))(IN a)                                                                                           \
	{                                                                                                                  \
		bool x = true;                                                                                                 \
		for (int k = 0; k < r * c; k++)                                                                                \
			x = x & (a[k] == S{});                                                                                     \
		return x;                                                                                                      \
	}                                                                                                                  \
	I(N3(broadcast, r, c))(S v, MO(r, c) o) { o = matrix<S, r, c>{ v }; }                                              \
	P(N3(broadcast, r, c))(S v, OUT o)                                                                                 \
	{                                                                                                                  \
		for (int k = 0; k < r * c; k++)                                                                                \
			o[k] = v;                                                                                                  \
	}                                                                                                                  \
	I(N3(lookup, r, c))(M(r, c) a, OUT o)                                                                              \
	{                                                                                                                  \
		for (int j = 0; j < c; j++)                                                                                    \
			for (int i = 0; i < r; i++)                                                                                \
				o[i * c + j] = a(static_cast<size_t>(i), static_cast<size_t>(j));                                      \
	}                                                                                                                  \
	P(N3(lookup, r, c))(IN a, OUT o)                                                                                   \
	{                                                                                                                  \
		for (int j = 0; j < c; j++)                                                                                    \
			for (int i = 0; i < r; i++)                                                                                \
				o[i * c + j] = AT(a, r, i, j);                                                                         \
	}                                                                                                                  \
	I(N3(transpose, r, c))(M(r, c) a, MO(c, r) o) { o = matrix<S, r, c>::transpose(a); }                               \
	P(N3(transpose, r, c))(IN a, OUT o)                                                                                \
	{                                                                                                                  \
		for (int j = 0; j < c; j++)                                                                                    \
			for (int i = 0; i < r; i++)                                                                                \
				AT(o, c, j, i) = AT(a, r, i, j);                                                                       \
	}                                                                                                                  \
	I(N3(mulvec, r, c))(M(r, c) a, const vector<S, c>& R v, vector<S, r>& R o) { o = a * v; }                          \
	P(N3(mulvec, r, c))(IN a, IN v, OUT o)                                                                             \
	{                                                                                                                  \
		for (int i = 0; i < r; i++)                                                                                    \
		{                                                                                                              \
			S x = AT(a, r, i, 0) * v[0];                                                                               \
			for (int j = 1; j < c; j++)                                                                                \
				x = x + AT(a, r, i, j) * v[j];                                                                         \
			o[i] = x;                                                                                                  \
		}                                                                                                              \
	}                                                                                                                  \
	I(N3(vecmul, r, c))(const vector<S, r>& R v, M(r, c) a, vector<S, c>& R o) { o = v * a; }                          \
	P(N3(vecmul, r, c))(IN v, IN a, OUT o)                                                                             \
	{                                                                                                                  \
		for (int j = 0; j < c; j++)                                                                                    \
		{                                                                                                              \
			S x = AT(a, r, 0, j) * v[0];                                                                               \
			for (int i = 1; i < r; i++)                                                                                \
				x = x + AT(a, r, i, j) * v[i];                                                                         \
			o[j] = x;                                                                                                  \
		}                                                                                                              \
	}                                                                                                                  \
	I(N3(identity, r, c))(MO(r, c) o) { o = matrix<S, r, c>::constants::identity; }                                    \
	P(N3(identity, r, c))(OUT o)                                                                                       \
	{                                                                                                                  \
		for (int j = 0; j < c; j++)                                                                                    \
			for (int i = 0; i < r; i++)                                                                                \
				AT(o, r, i, j) = i == j ? S{ 1 } : S{ 0 };                                                             \
	}                                                                                                                  \
	I(N3(grow, r, c))(M(r, c) a, matrix<S, r + 1, c + 1>& R o) { o = matrix<S, r + 1, c + 1>{ a }; }                   \
	P(N3(grow, r, c))(IN a, OUT o)                                                                                     \
	{                                                                                                                  \
		for (int j = 0; j < c + 1; j++)                                                                                \
			for (int i = 0; i < r + 1; i++)                                                                            \
				AT(o, r + 1, i, j) = (i < r && j < c) ? AT(a, r, i, j) : S{ 0 };                                       \
	}                                                                                                                  \
	I(N3(shrink, r, c))(M(r, c) a, matrix<S, r - 1, c - 1>& R o) { o = matrix<S, r - 1, c - 1>{ a }; }                 \
	P(N3(shrink, r, c))(IN a, OUT o)                                                                                   \
	{                                                                                                                  \
		for (int j = 0; j < c - 1; j++)                                                                                \
			for (int i = 0; i < r - 1; i++)                                                                            \
				AT(o, r - 1, i, j) = AT(a, r, i, j);                                                                   \
	}

ANY(2, 2)
ANY(2, 3)
ANY(3, 2)
ANY(3, 3)
ANY(3, 4)
ANY(4, 3)
ANY(4, 4)
ANY(5, 5)
ANY(2, 5)

#ifndef INTEGRAL
	#define APPROX(r, c)                                                                                               \
		IB(N3(approx_equal, r, c))(M(r, c) a, M(r, c) b, S e) { return matrix<S, r, c>::approx_equal(a, b, e); }       \
		PB(N3(approx_equal, r, c))(IN a, IN b, S e)                                                                    \
		{                                                                                                              \
			bool x = true;                                                                                             \
			for (int k = 0; k < r * c; k++)                                                                            \
				x = x & (spec::absv(a[k] - b[k]) < e);                                                                 \
			return x;                                                                                                  \
		}                                                                                                              \
		IB(N3(approx_zero, r, c))(M(r, c) a, S e) { return matrix<S, r, c>::approx_zero(a, e); }                       \
		PB(N3(approx_zero, r, c))(IN a, S e)                                                                           \
		{                                                                                                              \
			bool x = true;                                                                                             \
			for (int k = 0; k < r * c; k++)                                                                            \
				x = x & (spec::absv(a[k]) < e);                                                                        \
			return x;                                                                                                  \
		}
APPROX(2, 2)
APPROX(3, 3)
APPROX(3, 4)
APPROX(4, 4)
APPROX(2, 5)
#endif

// ---- row-major scalar constructors ----------------------------------------------------------------------------------
I(ctor_2_2)(IN a, MO(2, 2) o) { o = matrix<S, 2, 2>{ a[0], a[1], a[2], a[3] }; }
I(ctor_2_3)(IN a, MO(2, 3) o) { o = matrix<S, 2, 3>{ a[0], a[1], a[2], a[3], a[4], a[5] }; }
I(ctor_3_2)(IN a, MO(3, 2) o) { o = matrix<S, 3, 2>{ a[0], a[1], a[2], a[3], a[4], a[5] }; }
I(ctor_3_3)(IN a, MO(3, 3) o) { o = matrix<S, 3, 3>{ a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8] }; }
I(ctor_3_4)(IN a, MO(3, 4) o)
{
	o = matrix<S, 3, 4>{ a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11] };
}
I(ctor_4_3)(IN a, MO(4, 3) o)
{
	o = matrix<S, 4, 3>{ a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11] };
}
I(ctor_4_4)(IN a, MO(4, 4) o)
{
	o = matrix<S, 4, 4>{ a[0], a[1], a[2],	a[3],  a[4],  a[5],	 a[6],	a[7],
						 a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15] };
}
I(ctor_2_5)(IN a, MO(2, 5) o)
{
	o = matrix<S, 2, 5>{ a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9] };
}
#define CTOR(r, c)                                                                                                     \
	P(N3(ctor, r, c))(IN a, OUT o)                                                                                     \
	{                                                                                                                  \
		for (int i = 0; i < r; i++)                                                                                    \
			for (int j = 0; j < c; j++)                                                                                \
				AT(o, r, i, j) = a[i * c + j];                                                                         \
	}
CTOR(2, 2) CTOR(2, 3) CTOR(3, 2) CTOR(3, 3) CTOR(3, 4) CTOR(4, 3) CTOR(4, 4) CTOR(2, 5)
I(ctor_partial)(IN a, MO(3, 3) o) { o = matrix<S, 3, 3>{ a[0], a[1], a[2], a[3] }; }
P(ctor_partial)(IN a, OUT o)
{
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			AT(o, 3, i, j) = i * 3 + j < 4 ? a[i * 3 + j] : S{ 0 };
}
I(ctor_partial5)(IN a, matrix<S, 5, 5>& R o) { o = matrix<S, 5, 5>{ a[0], a[1], a[2], a[3], a[4], a[5], a[6] }; }
P(ctor_partial5)(IN a, OUT o)
{
	for (int i = 0; i < 5; i++)
		for (int j = 0; j < 5; j++)
			AT(o, 5, i, j) = i * 5 + j < 7 ? a[i * 5 + j] : S{ 0 };
}
I(ctor_columns)(const vector<S, 3>& R a, const vector<S, 3>& R b, const vector<S, 3>& R c, MO(3, 3) o) { o = matrix<S, 3, 3>{ a, b, c }; }
P(ctor_columns)(IN a, IN b, IN c, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = a[i], o[3 + i] = b[i], o[6 + i] = c[i];
}

// ---- products ---------------------------------------------------------------------------------------------------------
#define MUL(r, k, c)                                                                                                   \
	I(N3(mul##k, r, c))(M(r, k) a, M(k, c) b, MO(r, c) o) { o = a * b; }                                               \
	P(N3(mul##k, r, c))(IN a, IN b, OUT o)                                                                             \
	{                                                                                                                  \
		for (int j = 0; j < c; j++)                                                                                    \
			for (int i = 0; i < r; i++)                                                                                \
			{                                                                                                          \
				S x = AT(a, r, i, 0) * AT(b, k, 0, j);                                                                 \
				for (int q = 1; q < k; q++)                                                                            \
					x = x + AT(a, r, i, q) * AT(b, k, q, j);                                                           \
				AT(o, r, i, j) = x;                                                                                    \
			}                                                                                                          \
	}
MUL(2, 2, 2) MUL(3, 3, 3) MUL(4, 4, 4) MUL(5, 5, 5) MUL(3, 4, 4) MUL(2, 3, 4) MUL(4, 2, 3) MUL(3, 3, 4) MUL(4, 4, 2)
#define MULEQ(n)                                                                                                       \
	I(N3(mul_eq, n, n))(MO(n, n) a, M(n, n) b) { a *= b; }                                                             \
	P(N3(mul_eq, n, n))(OUT a, IN b)                                                                                   \
	{                                                                                                                  \
		S t[n * n];                                                                                                    \
		for (int j = 0; j < n; j++)                                                                                    \
			for (int i = 0; i < n; i++)                                                                                \
			{                                                                                                          \
				S x = AT(a, n, i, 0) * AT(b, n, 0, j);                                                                 \
				for (int q = 1; q < n; q++)                                                                            \
					x = x + AT(a, n, i, q) * AT(b, n, q, j);                                                           \
				AT(t, n, i, j) = x;                                                                                    \
			}                                                                                                          \
		for (int k = 0; k < n * n; k++)                                                                                \
			a[k] = t[k];                                                                                               \
	}                                                                                                                  \
	I(N3(transpose_inplace, n, n))(MO(n, n) a) { a.transpose(); }                                                      \
	P(N3(transpose_inplace, n, n))(OUT a)                                                                              \
	{                                                                                                                  \
		for (int j = 0; j < n; j++)                                                                                    \
			for (int i = 0; i < j; i++)                                                                                \
			{                                                                                                          \
				S t			   = AT(a, n, i, j);                                                                       \
				AT(a, n, i, j) = AT(a, n, j, i);                                                                       \
				AT(a, n, j, i) = t;                                                                                    \
			}                                                                                                          \
	}
MULEQ(2) MULEQ(3) MULEQ(4) MULEQ(5)

// ---- determinant and inverse --------------------------------------------------------------------------------------------
template <int n, typename T>
INL T det(const T* m)
{
	if constexpr (n == 1)
		return m[0];
	else
	{
		T r{};
		for (int j = 0; j < n; j++)
		{
			T s[(n - 1) * (n - 1)];
			int q = 0;
			for (int c = 0; c < n; c++)
			{
				if (c == j)
					continue;
				for (int i = 1; i < n; i++)
					s[q * (n - 1) + i - 1] = m[c * n + i];
				q++;
			}
			T d = m[j * n] * det<n - 1, T>(s);
			r	= (j & 1) ? r - d : r + d;
		}
		return r;
	}
}
#define DET(n)                                                                                                         \
	EX typename matrix<S, n, n>::determinant_type i__determinant##n(M(n, n) a)                                         \
	{                                                                                                                  \
		return matrix<S, n, n>::determinant(a);                                                                        \
	}                                                                                                                  \
	EX typename matrix<S, n, n>::determinant_type s__determinant##n(IN a)                                              \
	{                                                                                                                  \
		return det<n, S>(a);                                                                                           \
	}
DET(1) DET(2) DET(3) DET(4)
// the library's inverse is compared as (adjugate / determinant)
template <int n, typename T>
INL void adj(const T* m, T* o)
{
	T d = det<n, T>(m);
	for (int j = 0; j < n; j++)
		for (int i = 0; i < n; i++)
		{
			if constexpr (n == 1)
				o[0] = T{ 1 } / d;
			else
			{
				T s[(n - 1) * (n - 1)];
				int q = 0;
				for (int c = 0; c < n; c++)
				{
					if (c == i)
						continue;
					int p = 0;
					for (int r = 0; r < n; r++)
					{
						if (r == j)
							continue;
						s[q * (n - 1) + p++] = m[c * n + r];
					}
					q++;
				}
				T k			 = det<n - 1, T>(s);
				o[j * n + i] = (((i + j) & 1) ? -k : k) / d;
			}
		}
}
#define INV(n)                                                                                                         \
	I(N3(invert, n, n))(M(n, n) a, typename matrix<S, n, n>::inverse_type& R o) { o = matrix<S, n, n>::invert(a); }    \
	P(N3(invert, n, n))(IN a, typename matrix<S, n, n>::inverse_scalar_type* R o)                                      \
	{                                                                                                                  \
		using T = typename matrix<S, n, n>::inverse_scalar_type;                                                       \
		T m[n * n];                                                                                                    \
		for (int k = 0; k < n * n; k++)                                                                                \
			m[k] = static_cast<T>(a[k]);                                                                               \
		adj<n, T>(m, o);                                                                                               \
	}
INV(1) INV(2) INV(3) INV(4)
#ifndef INTEGRAL
I(invert_inplace)(MO(3, 3) a) { a.invert(); }
P(invert_inplace)(OUT a)
{
	S t[9];
	adj<3, S>(a, t);
	for (int k = 0; k < 9; k++)
		a[k] = t[k];
}
#endif

// ---- scale / translation ----------------------------------------------------------------------------------------------
#define SCALE(r, c)                                                                                                    \
	I(N3(from_2d_scale, r, c))(S x, S y, MO(r, c) o) { o = matrix<S, r, c>::from_2d_scale(x, y); }                     \
	P(N3(from_2d_scale, r, c))(S x, S y, OUT o)                                                                        \
	{                                                                                                                  \
		for (int j = 0; j < c; j++)                                                                                    \
			for (int i = 0; i < r; i++)                                                                                \
				AT(o, r, i, j) = i != j ? S{ 0 } : i == 0 ? x : i == 1 ? y : S{ 1 };                                   \
	}                                                                                                                  \
	I(N3(from_scale_xy, r, c))(S x, S y, MO(r, c) o) { o = matrix<S, r, c>::from_scale(x, y); }                        \
	P(N3(from_scale_xy, r, c))(S x, S y, OUT o)                                                                        \
	{                                                                                                                  \
		for (int j = 0; j < c; j++)                                                                                    \
			for (int i = 0; i < r; i++)                                                                                \
				AT(o, r, i, j) = i != j ? S{ 0 } : i == 0 ? x : i == 1 ? y : S{ 1 };                                   \
	}                                                                                                                  \
	I(N3(from_scale_v2, r, c))(const vector<S, 2>& R v, MO(r, c) o) { o = matrix<S, r, c>::from_scale(v); }            \
	P(N3(from_scale_v2, r, c))(IN v, OUT o)                                                                            \
	{                                                                                                                  \
		for (int j = 0; j < c; j++)                                                                                    \
			for (int i = 0; i < r; i++)                                                                                \
				AT(o, r, i, j) = i != j ? S{ 0 } : i < 2 ? v[i] : S{ 1 };                                              \
	}
SCALE(2, 2) SCALE(2, 3) SCALE(3, 3) SCALE(3, 4) SCALE(4, 4)
#define SCALE3(r, c)                                                                                                   \
	I(N3(from_3d_scale, r, c))(S x, S y, S z, MO(r, c) o) { o = matrix<S, r, c>::from_3d_scale(x, y, z); }             \
	P(N3(from_3d_scale, r, c))(S x, S y, S z, OUT o)                                                                   \
	{                                                                                                                  \
		for (int j = 0; j < c; j++)                                                                                    \
			for (int i = 0; i < r; i++)                                                                                \
				AT(o, r, i, j) = i != j ? S{ 0 } : i == 0 ? x : i == 1 ? y : i == 2 ? z : S{ 1 };                      \
	}                                                                                                                  \
	I(N3(from_scale_v3, r, c))(const vector<S, 3>& R v, MO(r, c) o) { o = matrix<S, r, c>::from_scale(v); }            \
	P(N3(from_scale_v3, r, c))(IN v, OUT o)                                                                            \
	{                                                                                                                  \
		for (int j = 0; j < c; j++)                                                                                    \
			for (int i = 0; i < r; i++)                                                                                \
				AT(o, r, i, j) = i != j ? S{ 0 } : i < 3 ? v[i] : S{ 1 };                                              \
	}
SCALE3(3, 3) SCALE3(3, 4) SCALE3(4, 4)
#define XLAT2(r, c)                                                                                                    \
	I(N3(from_2d_translation, r, c))(S x, S y, MO(r, c) o) { o = matrix<S, r, c>::from_2d_translation(x, y); }         \
	P(N3(from_2d_translation, r, c))(S x, S y, OUT o)                                                                  \
	{                                                                                                                  \
		for (int j = 0; j < c; j++)                                                                                    \
			for (int i = 0; i < r; i++)                                                                                \
				AT(o, r, i, j) = (j == c - 1 && i == 0) ? x : (j == c - 1 && i == 1) ? y : i == j ? S{ 1 } : S{ 0 };   \
	}
XLAT2(2, 3) XLAT2(3, 3) XLAT2(3, 4) XLAT2(4, 4)
#define XLAT3(r, c)                                                                                                    \
	I(N3(from_3d_translation, r, c))(S x, S y, S z, MO(r, c) o) { o = matrix<S, r, c>::from_3d_translation(x, y, z); } \
	P(N3(from_3d_translation, r, c))(S x, S y, S z, OUT o)                                                             \
	{                                                                                                                  \
		for (int j = 0; j < c; j++)                                                                                    \
			for (int i = 0; i < r; i++)                                                                                \
				AT(o, r, i, j) = (j == c - 1 && i < 3) ? (i == 0 ? x : i == 1 ? y : z) : i == j ? S{ 1 } : S{ 0 };     \
	}                                                                                                                  \
	I(N3(from_translation_v3, r, c))(const vector<S, 3>& R v, MO(r, c) o) { o = matrix<S, r, c>::from_translation(v); } \
	P(N3(from_translation_v3, r, c))(IN v, OUT o)                                                                      \
	{                                                                                                                  \
		for (int j = 0; j < c; j++)                                                                                    \
			for (int i = 0; i < r; i++)                                                                                \
				AT(o, r, i, j) = (j == c - 1 && i < 3) ? v[i] : i == j ? S{ 1 } : S{ 0 };                              \
	}
XLAT3(3, 4) XLAT3(4, 4)

#ifndef INTEGRAL
// ---- transforms --------------------------------------------------------------------------------------------------------
	#define XF(r, c)                                                                                                   \
		I(N3(transform_position, r, c))(M(r, c) m, const vector<S, 3>& R p, vector<S, 3>& R o)                         \
		{                                                                                                              \
			o = matrix<S, r, c>::transform_position(m, p);                                                             \
		}                                                                                                              \
		P(N3(transform_position, r, c))(IN m, IN p, OUT o)                                                             \
		{                                                                                                              \
			S h[4];                                                                                                    \
			for (int i = 0; i < 4; i++)                                                                                \
			{                                                                                                          \
				h[i] = S{ 0 };                                                                                         \
				if (i >= r)                                                                                            \
				{                                                                                                      \
					h[i] = S{ 1 };                                                                                     \
					continue;                                                                                          \
				}                                                                                                      \
				for (int j = 0; j < c; j++)                                                                            \
					h[i] = h[i] + AT(m, r, i, j) * (j < 3 ? p[j] : S{ 1 });                                            \
			}                                                                                                          \
			for (int i = 0; i < 3; i++)                                                                                \
				o[i] = h[i] / h[3];                                                                                    \
		}                                                                                                              \
		I(N3(transform_operator, r, c))(M(r, c) m, const vector<S, 3>& R p, vector<S, 3>& R o) { o = m * p; }          \
		P(N3(transform_operator, r, c))(IN m, IN p, OUT o) { CAT(s__, N3(transform_position, r, c))(m, p, o); }        \
		I(N3(transform_without_translating, r, c))(M(r, c) m, const vector<S, 3>& R p, vector<S, 3>& R o)              \
		{                                                                                                              \
			o = matrix<S, r, c>::transform_without_translating(m, p);                                                  \
		}                                                                                                              \
		P(N3(transform_without_translating, r, c))(IN m, IN p, OUT o)                                                  \
		{                                                                                                              \
			for (int i = 0; i < 3; i++)                                                                                \
				o[i] = AT(m, r, i, 0) * p[0] + AT(m, r, i, 1) * p[1] + AT(m, r, i, 2) * p[2];                          \
		}                                                                                                              \
		I(N3(transform_direction, r, c))(M(r, c) m, const vector<S, 3>& R p, vector<S, 3>& R o)                        \
		{                                                                                                              \
			o = matrix<S, r, c>::transform_direction(m, p);                                                            \
		}                                                                                                              \
		P(N3(transform_direction, r, c))(IN m, IN p, OUT o)                                                            \
		{                                                                                                              \
			S h[3];                                                                                                    \
			for (int i = 0; i < 3; i++)                                                                                \
				h[i] = AT(m, r, i, 0) * p[0] + AT(m, r, i, 1) * p[1] + AT(m, r, i, 2) * p[2];                          \
			S l = spec::root(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]) / spec::root(h[0] * h[0] + h[1] * h[1] + h[2] * h[2]); \
			for (int i = 0; i < 3; i++)                                                                                \
				o[i] = h[i] * l;                                                                                       \
		}                                                                                                              \
		I(N3(extract_3d_scale, r, c))(M(r, c) m, vector<S, 3>& R o) { o = m.extract_3d_scale(); }                      \
		P(N3(extract_3d_scale, r, c))(IN m, OUT o)                                                                     \
		{                                                                                                              \
			for (int j = 0; j < 3; j++)                                                                                \
				o[j] = spec::root(AT(m, r, 0, j) * AT(m, r, 0, j) + AT(m, r, 1, j) * AT(m, r, 1, j) + AT(m, r, 2, j) * AT(m, r, 2, j)); \
		}                                                                                                              \
		I(N3(from_axes, r, c))(const vector<S, 3>& R x, const vector<S, 3>& R y, const vector<S, 3>& R z, MO(r, c) o)  \
		{                                                                                                              \
			o = matrix<S, r, c>::from_axes(x, y, z);                                                                   \
		}                                                                                                              \
		P(N3(from_axes, r, c))(IN x, IN y, IN z, OUT o)                                                                \
		{                                                                                                              \
			for (int j = 0; j < c; j++)                                                                                \
				for (int i = 0; i < r; i++)                                                                            \
					AT(o, r, i, j) = (i < 3 && j < 3) ? (j == 0 ? x[i] : j == 1 ? y[i] : z[i]) : i == j ? S{ 1 } : S{ 0 }; \
		}                                                                                                              \
		I(N3(orthonormalize, r, c))(M(r, c) m, MO(r, c) o) { o = matrix<S, r, c>::orthonormalize(m); }                 \
		P(N3(orthonormalize, r, c))(IN m, OUT o)                                                                       \
		{                                                                                                              \
			for (int k = 0; k < r * c; k++)                                                                            \
				o[k] = m[k];                                                                                           \
			for (int j = 0; j < 3; j++)                                                                                \
			{                                                                                                          \
				S w[3];                                                                                                \
				for (int i = 0; i < 3; i++)                                                                            \
					w[i] = AT(m, r, i, j);                                                                             \
				for (int q = 0; q < j; q++)                                                                            \
				{                                                                                                      \
					S d = w[0] * AT(o, r, 0, q) + w[1] * AT(o, r, 1, q) + w[2] * AT(o, r, 2, q);                       \
					for (int i = 0; i < 3; i++)                                                                        \
						w[i] = w[i] - d * AT(o, r, i, q);                                                              \
				}                                                                                                      \
				S l = S{ 1 } / spec::root(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);                                            \
				for (int i = 0; i < 3; i++)                                                                            \
					AT(o, r, i, j) = w[i] * l;                                                                         \
			}                                                                                                          \
		}                                                                                                              \
		I(N3(from_quaternion, r, c))(const quaternion<S>& R q, MO(r, c) o) { o = matrix<S, r, c>::from_quaternion(q); } \
		P(N3(from_quaternion, r, c))(IN q, OUT o)                                                                      \
		{                                                                                                              \
			S s = q[0], x = q[1], y = q[2], z = q[3];                                                                  \
			S t[9] = { 1 - 2 * y * y - 2 * z * z, 2 * x * y + 2 * z * s,	 2 * x * z - 2 * y * s,                    \
					   2 * x * y - 2 * z * s,	  1 - 2 * x * x - 2 * z * z, 2 * y * z + 2 * x * s,                    \
					   2 * x * z + 2 * y * s,	  2 * y * z - 2 * x * s,	 1 - 2 * x * x - 2 * y * y };              \
			for (int j = 0; j < c; j++)                                                                                \
				for (int i = 0; i < r; i++)                                                                            \
					AT(o, r, i, j) = (i < 3 && j < 3) ? t[j * 3 + i] : i == j ? S{ 1 } : S{ 0 };                       \
		}
XF(3, 3) XF(3, 4) XF(4, 4)
I(extract_2d_scale)(M(2, 2) m, vector<S, 2>& R o) { o = m.extract_2d_scale(); }
P(extract_2d_scale)(IN m, OUT o)
{
	for (int j = 0; j < 2; j++)
		o[j] = spec::root(m[j * 2] * m[j * 2] + m[j * 2 + 1] * m[j * 2 + 1]);
}
// keeping only the rotation block of a larger matrix
	#define ROT(r, c, R2, C2)                                                                                          \
		I(N3(rotation_from_##r##c, R2, C2))(M(r, c) m, MO(R2, C2) o) { o = matrix<S, R2, C2>::from_rotation(m); }      \
		P(N3(rotation_from_##r##c, R2, C2))(IN m, OUT o)                                                               \
		{                                                                                                              \
			for (int j = 0; j < C2; j++)                                                                               \
				for (int i = 0; i < R2; i++)                                                                           \
					AT(o, R2, i, j) = (i < 3 && j < 3) ? AT(m, r, i, j) : i == j ? S{ 1 } : S{ 0 };                    \
		}
ROT(3, 3, 3, 3) ROT(3, 4, 3, 3) ROT(4, 4, 3, 3) ROT(3, 3, 3, 4) ROT(3, 4, 3, 4) ROT(4, 4, 3, 4) ROT(3, 3, 4, 4) ROT(3, 4, 4, 4) ROT(4, 4, 4, 4)
// perspective projections: near and far planes map to the ends of the depth range of the API, in front of the camera
	#define PERSP(nm, mode, FRONT, NEARD)                                                                              \
		I(perspective_##nm)(S fov, S aspect, S n, S f, MO(4, 4) o)                                                     \
		{                                                                                                              \
			o = matrix<S, 4, 4>::perspective_projection<mode>(fov, aspect, n, f);                                      \
		}                                                                                                              \
		P(perspective_##nm)(S fov, S aspect, S n, S f, OUT o)                                                          \
		{                                                                                                              \
			/* w = FRONT * z; depth(z) = (A*z + B) / w with depth(FRONT*n) = NEARD and depth(FRONT*f) = 1 */            \
			const S h = fov / 2;                                                                                       \
			for (int k = 0; k < 16; k++)                                                                               \
				o[k] = S{ 0 };                                                                                         \
			const S t			= spec::sine(h) / spec::cosine(h);                                                     \
			AT(o, 4, 0, 0) = 1 / (t * aspect);                                                                         \
			AT(o, 4, 1, 1) = 1 / t;                                                                                    \
			AT(o, 4, 3, 2) = S{ FRONT };                                                                               \
			const S B	   = (S{ NEARD } - 1) * n * f / (f - n);                                                       \
			AT(o, 4, 2, 2) = S{ FRONT } * (f - S{ NEARD } * n) / (f - n);                                              \
			AT(o, 4, 2, 3) = B;                                                                                        \
		}
PERSP(dx_rh, (math_apis::directx | math_apis::right_handed), -1, 0)
PERSP(dx_lh, (math_apis::directx | math_apis::left_handed), 1, 0)
PERSP(gl_rh, (math_apis::opengl | math_apis::right_handed), -1, -1)
PERSP(gl_lh, (math_apis::opengl | math_apis::left_handed), 1, -1)
I(perspective_screen)(S fov, const vector<S, 2>& R sz, S n, S f, MO(4, 4) o) { o = matrix<S, 4, 4>::perspective_projection(fov, sz, n, f); }
P(perspective_screen)(S fov, IN sz, S n, S f, OUT o) { s__perspective_dx_rh(fov, sz[0] / sz[1], n, f, o); }
#endif
