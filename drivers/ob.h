// shared helpers for obligation drivers: i__NAME is the library side, s__NAME the independent specification side
#pragma once
#ifndef SCALAR
	#define SCALAR double
#endif
using S = SCALAR;
using uint32 = unsigned;
using uint64 = unsigned long long;
#define R __restrict
#define EX extern "C" __attribute__((used))
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define I(name) EX void CAT(i__, name)
#define P(name) EX void CAT(s__, name)
#define PB(name) EX bool CAT(s__, name)
#define IB(name) EX bool CAT(i__, name)
#define IS(name) EX S CAT(i__, name)
#define PS(name) EX S CAT(s__, name)
#define INL static inline __attribute__((always_inline))
namespace spec
{
	INL double root(double x) { return __builtin_sqrt(x); }
	INL float root(float x) { return __builtin_sqrtf(x); }
	INL long double root(long double x) { return __builtin_sqrtl(x); }
	INL double absv(double x) { return __builtin_fabs(x); }
	INL float absv(float x) { return __builtin_fabsf(x); }
	INL int absv(int x) { return x < 0 ? -x : x; }
	INL double sine(double x) { return __builtin_sin(x); }
	INL float sine(float x) { return __builtin_sinf(x); }
	INL double cosine(double x) { return __builtin_cos(x); }
	INL float cosine(float x) { return __builtin_cosf(x); }
	INL double arccos(double x) { return __builtin_acos(x); }
	INL float arccos(float x) { return __builtin_acosf(x); }
	INL double arcsin(double x) { return __builtin_asin(x); }
	INL float arcsin(float x) { return __builtin_asinf(x); }
	INL double arctan2(double y, double x) { return __builtin_atan2(y, x); }
	INL float arctan2(float y, float x) { return __builtin_atan2f(y, x); }
	INL double up(double x) { return __builtin_ceil(x); }
	INL float up(float x) { return __builtin_ceilf(x); }
	INL double down(double x) { return __builtin_floor(x); }
	INL float down(float x) { return __builtin_floorf(x); }
}
