#include <muu/quaternion.h>
#include <muu/matrix.h>
#include "ob.h"
using namespace muu;
using Q = quaternion<S>;
using V = vector<S, 3>;
using AA = axis_angle<S>;
using EU = euler_angles<S>;
// layouts: quaternion s x y z; axis_angle x y z angle; euler yaw pitch roll; matrices column major
#define QI const Q& R
#define VI const V& R
#define QO Q& R
#define IN const S* R
#define OUT S* R
INL void qmul(const S* p, const S* q, S* o)
{
	o[0] = p[0] * q[0] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3];
	o[1] = p[0] * q[1] + p[1] * q[0] + p[2] * q[3] - p[3] * q[2];
	o[2] = p[0] * q[2] - p[1] * q[3] + p[2] * q[0] + p[3] * q[1];
	o[3] = p[0] * q[3] + p[1] * q[2] - p[2] * q[1] + p[3] * q[0];
}
// rotation matrix of a quaternion, m[row][col]; homogeneous form (no assumption of unit length except in the diagonal)
INL S len3(const S* v) { return spec::root(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }

// ---- construction, access, equality -----------------------------------------------------------------------------------
I(ctor4)(S s, S x, S y, S z, QO o) { o = Q{ s, x, y, z }; }
P(ctor4)(S s, S x, S y, S z, OUT o)
{
	o[0] = s;
	o[1] = x;
	o[2] = y;
	o[3] = z;
}
I(ctor_sv)(S s, VI v, QO o) { o = Q{ s, v }; }
P(ctor_sv)(S s, IN v, OUT o)
{
	o[0] = s;
	for (int i = 0; i < 3; i++)
		o[i + 1] = v[i];
}
I(copy)(QI q, QO o) { o = q; }
P(copy)(IN q, OUT o)
{
	for (int i = 0; i < 4; i++)
		o[i] = q[i];
}
I(members)(QI q, OUT o)
{
	o[0] = q.s;
	o[1] = q.v.x;
	o[2] = q.v.y;
	o[3] = q.v.z;
	o[4] = q.template get<0>();
	o[5] = q.template get<1>().x;
	o[6] = q.template get<1>().z;
	o[7] = q.data()[0];
	o[8] = q.data()[3];
}
P(members)(IN q, OUT o)
{
	for (int i = 0; i < 4; i++)
		o[i] = q[i];
	o[4] = q[0];
	o[5] = q[1];
	o[6] = q[3];
	o[7] = q[0];
	o[8] = q[3];
}
IB(eq)(QI a, QI b) { return a == b; }
PB(eq)(IN a, IN b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]; }
IB(ne)(QI a, QI b) { return a != b; }
PB(ne)(IN a, IN b) { return !(a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]); }
IB(zero)(QI a) { return a.zero(); }
PB(zero)(IN a) { return a[0] == 0 && a[1] == 0 && a[2] == 0 && a[3] == 0; }
IB(zero_static)(QI a) { return Q::zero(a); }
PB(zero_static)(IN a) { return a[0] == 0 && a[1] == 0 && a[2] == 0 && a[3] == 0; }
I(constants)(QO o, QO p)
{
	o = Q::constants::identity;
	p = Q::constants::zero;
}
P(constants)(OUT o, OUT p)
{
	for (int i = 0; i < 4; i++)
	{
		o[i] = i == 0;
		p[i] = 0;
	}
}
#define NEAR(a, b, e) (spec::absv((a) - (b)) < (e))
IB(approx_equal)(QI a, QI b, S e) { return Q::approx_equal(a, b, e); }
PB(approx_equal)(IN a, IN b, S e)
{
	return NEAR(a[0], b[0], e) && NEAR(a[1], b[1], e) && NEAR(a[2], b[2], e) && NEAR(a[3], b[3], e);
}
IB(approx_equal_member)(QI a, QI b, S e) { return a.approx_equal(b, e); }
PB(approx_equal_member)(IN a, IN b, S e)
{
	return NEAR(a[0], b[0], e) && NEAR(a[1], b[1], e) && NEAR(a[2], b[2], e) && NEAR(a[3], b[3], e);
}
IB(approx_zero)(QI a, S e) { return Q::approx_zero(a, e); }
PB(approx_zero)(IN a, S e) { return NEAR(a[0], 0, e) && NEAR(a[1], 0, e) && NEAR(a[2], 0, e) && NEAR(a[3], 0, e); }
IB(approx_zero_member)(QI a, S e) { return a.approx_zero(e); }
PB(approx_zero_member)(IN a, S e)
{
	return NEAR(a[0], 0, e) && NEAR(a[1], 0, e) && NEAR(a[2], 0, e) && NEAR(a[3], 0, e);
}

// ---- algebra ------------------------------------------------------------------------------------------------------------
IS(dot)(QI a, QI b) { return Q::dot(a, b); }
PS(dot)(IN a, IN b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]; }
IS(dot_member)(QI a, QI b) { return a.dot(b); }
PS(dot_member)(IN a, IN b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]; }
I(normalize)(QI q, QO o) { o = Q::normalize(q); }
P(normalize)(IN q, OUT o)
{
	S l = spec::root(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
	for (int i = 0; i < 4; i++)
		o[i] = q[i] / l;
}
I(normalize_inplace)(QO q) { q.normalize(); }
P(normalize_inplace)(OUT q)
{
	S l = spec::root(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
	S t[4];
	for (int i = 0; i < 4; i++)
		t[i] = q[i] / l;
	for (int i = 0; i < 4; i++)
		q[i] = t[i];
}
I(conjugate)(QI q, QO o) { o = Q::conjugate(q); }
P(conjugate)(IN q, OUT o)
{
	o[0] = q[0];
	for (int i = 1; i < 4; i++)
		o[i] = -q[i];
}
I(conjugate_member)(QI q, QO o) { o = q.conjugate(); }
P(conjugate_member)(IN q, OUT o)
{
	o[0] = q[0];
	for (int i = 1; i < 4; i++)
		o[i] = -q[i];
}
I(mul)(QI a, QI b, QO o) { o = a * b; }
P(mul)(IN a, IN b, OUT o) { qmul(a, b, o); }
I(mul_eq)(QO a, QI b) { a *= b; }
P(mul_eq)(OUT a, IN b)
{
	S t[4];
	qmul(a, b, t);
	for (int i = 0; i < 4; i++)
		a[i] = t[i];
}
I(square_eq)(QO a) { a *= a; }
P(square_eq)(OUT a)
{
	S t[4], u[4];
	for (int i = 0; i < 4; i++)
		u[i] = a[i];
	qmul(u, u, t);
	for (int i = 0; i < 4; i++)
		a[i] = t[i];
}
// product with the conjugate is the squared norm
I(mul_conjugate)(QI a, QO o) { o = a * a.conjugate(); }
P(mul_conjugate)(IN a, OUT o)
{
	o[0] = a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3];
	for (int i = 1; i < 4; i++)
		o[i] = 0;
}
// the product of quaternions composes: (pq)r == p(qr)
I(associative)(QI p, QI q, QI r, QO o) { o = (p * q) * r; }
P(associative)(IN p, IN q, IN r, OUT o)
{
	S t[4];
	qmul(q, r, t);
	qmul(p, t, o);
}
// rotating a vector by a unit quaternion (stated with the norm divided out is not needed: s*s is not simplified)
INL void rot(const S* q, const S* v, S* o)
{
	// v + 2 s (u x v) + 2 u x (u x v)
	S c[3] = { q[2] * v[2] - q[3] * v[1], q[3] * v[0] - q[1] * v[2], q[1] * v[1] - q[2] * v[0] };
	S d[3] = { q[2] * c[2] - q[3] * c[1], q[3] * c[0] - q[1] * c[2], q[1] * c[1] - q[2] * c[0] };
	for (int i = 0; i < 3; i++)
		o[i] = v[i] + 2 * q[0] * c[i] + 2 * d[i];
}
I(rotate)(QI q, VI v, V& R o) { o = q * v; }
P(rotate)(IN q, IN v, OUT o) { rot(q, v, o); }
I(rotate_left)(QI q, VI v, V& R o) { o = v * q; }
P(rotate_left)(IN q, IN v, OUT o) { rot(q, v, o); }
// the matrix of a quaternion rotates the same way the quaternion does
I(matrix_agrees)(QI q, VI v, V& R o) { o = matrix<S, 3, 3>::from_quaternion(q) * v; }
P(matrix_agrees)(IN q, IN v, OUT o) { rot(q, v, o); }
I(matrix34_agrees)(QI q, VI v, V& R o) { o = matrix<S, 3, 4>::transform_position(matrix<S, 3, 4>::from_quaternion(q), v); }
P(matrix34_agrees)(IN q, IN v, OUT o) { rot(q, v, o); }

#ifndef CE
// ---- axis-angle ---------------------------------------------------------------------------------------------------------
I(from_axis_angle)(VI axis, S angle, QO o) { o = Q::from_axis_angle(axis, angle); }
P(from_axis_angle)(IN axis, S angle, OUT o)
{
	o[0] = spec::cosine(angle / 2);
	for (int i = 0; i < 3; i++)
		o[i + 1] = axis[i] * spec::sine(angle / 2);
}
I(from_axis_angle_obj)(const AA& R aa, QO o) { o = Q::from_axis_angle(aa); }
P(from_axis_angle_obj)(IN aa, OUT o)
{
	o[0] = spec::cosine(aa[3] / 2);
	for (int i = 0; i < 3; i++)
		o[i + 1] = aa[i] * spec::sine(aa[3] / 2);
}
I(ctor_axis_angle)(const AA& R aa, QO o) { o = Q{ aa }; }
P(ctor_axis_angle)(IN aa, OUT o)
{
	o[0] = spec::cosine(aa[3] / 2);
	for (int i = 0; i < 3; i++)
		o[i + 1] = aa[i] * spec::sine(aa[3] / 2);
}
INL void axang(const S* q, bool shortest, S* o)
{
	S l	  = len3(q + 1);
	S f	  = (shortest && q[0] < 0) ? S{ -1 } : S{ 1 };
	o[3] = 2 * spec::arctan2(l, f * q[0]);
	if (l == 0)
	{
		o[0] = 1;
		o[1] = 0;
		o[2] = 0;
	}
	else
		for (int i = 0; i < 3; i++)
			o[i] = f * q[i + 1] / l;
}
I(to_axis_angle)(QI q, AA& R o) { o = Q::to_axis_angle(q); }
P(to_axis_angle)(IN q, OUT o) { axang(q, true, o); }
I(to_axis_angle_long)(QI q, AA& R o) { o = Q::to_axis_angle(q, false); }
P(to_axis_angle_long)(IN q, OUT o) { axang(q, false, o); }
I(to_axis_angle_member)(QI q, AA& R o) { o = q.to_axis_angle(); }
P(to_axis_angle_member)(IN q, OUT o) { axang(q, true, o); }
I(power)(QI q, S k, QO o) { o = q * k; }
P(power)(IN q, S k, OUT o)
{
	S a[4];
	axang(q, true, a);
	S l	 = len3(a);
	o[0] = spec::cosine(a[3] * k / 2);
	for (int i = 0; i < 3; i++)
		o[i + 1] = spec::sine(a[3] * k / 2) * a[i] / l;
}
I(power_left)(QI q, S k, QO o) { o = k * q; }
P(power_left)(IN q, S k, OUT o)
{
	S a[4];
	axang(q, true, a);
	S l	 = len3(a);
	o[0] = spec::cosine(a[3] * k / 2);
	for (int i = 0; i < 3; i++)
		o[i + 1] = spec::sine(a[3] * k / 2) * a[i] / l;
}

// ---- euler angles: yaw about -y, then pitch about x, then roll about -z --------------------------------------------------
INL void eul(S yaw, S pitch, S roll, S* o)
{
	S qy[4] = { spec::cosine(-yaw / 2), 0, spec::sine(-yaw / 2), 0 };
	S qx[4] = { spec::cosine(pitch / 2), spec::sine(pitch / 2), 0, 0 };
	S qz[4] = { spec::cosine(-roll / 2), 0, 0, spec::sine(-roll / 2) };
	S t[4];
	qmul(qz, qx, t);
	qmul(t, qy, o);
}
I(from_euler)(S yaw, S pitch, S roll, QO o) { o = Q::from_euler(yaw, pitch, roll); }
P(from_euler)(S yaw, S pitch, S roll, OUT o) { eul(yaw, pitch, roll, o); }
I(from_euler_obj)(const EU& R e, QO o) { o = Q::from_euler(e); }
P(from_euler_obj)(IN e, OUT o) { eul(e[0], e[1], e[2], o); }
I(ctor_euler)(const EU& R e, QO o) { o = Q{ e }; }
P(ctor_euler)(IN e, OUT o) { eul(e[0], e[1], e[2], o); }
INL void toeul(const S* q, S* o)
{
	S s = q[0], x = q[1], y = q[2], z = q[3];
	S n = s * s + x * x + y * y + z * z;
	// rotation matrix entries (times n)
	S m21 = 2 * (y * z + s * x), m20 = 2 * (x * z - s * y), m22 = s * s - x * x - y * y + z * z;
	S m01 = 2 * (x * y - s * z), m11 = s * s - x * x + y * y - z * z;
	S band = 2 * static_cast<S>(0.49995) * n;
	S pi   = static_cast<S>(3.14159265358979323846L);
	if (m21 > band)
	{
		o[0] = -2 * spec::arctan2(z, s);
		o[1] = pi / 2;
		o[2] = 0;
	}
	else if (m21 < -band)
	{
		o[0] = 2 * spec::arctan2(z, s);
		o[1] = -(pi / 2);
		o[2] = 0;
	}
	else
	{
		o[0] = -spec::arctan2(-m20, m22);
		o[1] = spec::arcsin(m21 / n);
		o[2] = -spec::arctan2(-m01, m11);
	}
}
I(to_euler)(QI q, EU& R o) { o = Q::to_euler(q); }
P(to_euler)(IN q, OUT o) { toeul(q, o); }
I(to_euler_member)(QI q, EU& R o) { o = q.to_euler(); }
P(to_euler_member)(IN q, OUT o) { toeul(q, o); }
I(euler_scale)(const EU& R e, S k, EU& R o, EU& R p)
{
	o = e * k;
	p = k * e;
}
P(euler_scale)(IN e, S k, OUT o, OUT p)
{
	for (int i = 0; i < 3; i++)
		p[i] = o[i] = e[i] * k;
}
I(euler_scale_eq)(EU& R e, S k) { e *= k; }
P(euler_scale_eq)(OUT e, S k)
{
	for (int i = 0; i < 3; i++)
		e[i] = e[i] * k;
}
I(euler_vector)(VI v, EU& R e, V& R o)
{
	e = EU{ v };
	o = static_cast<V>(EU{ v.z, v.y, v.x });
}
P(euler_vector)(IN v, OUT e, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		e[i] = v[i];
		o[i] = v[2 - i];
	}
}
I(axis_angle_vector)(const vector<S, 4>& R v, AA& R e, vector<S, 4>& R o)
{
	e = AA{ v };
	o = static_cast<vector<S, 4>>(AA{ V{ v.y, v.z, v.w }, v.x });
}
P(axis_angle_vector)(IN v, OUT e, OUT o)
{
	for (int i = 0; i < 4; i++)
	{
		e[i] = v[i];
		o[i] = v[(i + 1) % 4];
	}
}
I(axis_angle_members)(const AA& R v, OUT o)
{
	o[0] = v.axis.x;
	o[1] = v.axis.y;
	o[2] = v.axis.z;
	o[3] = v.angle;
}
P(axis_angle_members)(IN v, OUT o)
{
	for (int i = 0; i < 4; i++)
		o[i] = v[i];
}
I(euler_members)(const EU& R v, OUT o)
{
	o[0] = v.yaw;
	o[1] = v.pitch;
	o[2] = v.roll;
}
P(euler_members)(IN v, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = v[i];
}
// matrices built from the angle forms rotate the same way as the quaternion built from them
#define MATS(r, c)                                                                                                     \
	I(CAT(mat_axis_angle_, r##c))(VI axis, S angle, matrix<S, r, c>& R o) { o = matrix<S, r, c>::from_axis_angle(axis, angle); } \
	P(CAT(mat_axis_angle_, r##c))(IN axis, S angle, OUT o)                                                             \
	{                                                                                                                  \
		S q[4] = { spec::cosine(angle / 2), axis[0] * spec::sine(angle / 2), axis[1] * spec::sine(angle / 2), axis[2] * spec::sine(angle / 2) }; \
		mat(q, o, r, c);                                                                                               \
	}                                                                                                                  \
	I(CAT(mat_axis_angle_obj_, r##c))(const AA& R aa, matrix<S, r, c>& R o) { o = matrix<S, r, c>::from_axis_angle(aa); } \
	P(CAT(mat_axis_angle_obj_, r##c))(IN aa, OUT o)                                                                    \
	{                                                                                                                  \
		S q[4] = { spec::cosine(aa[3] / 2), aa[0] * spec::sine(aa[3] / 2), aa[1] * spec::sine(aa[3] / 2), aa[2] * spec::sine(aa[3] / 2) }; \
		mat(q, o, r, c);                                                                                               \
	}                                                                                                                  \
	I(CAT(mat_euler_, r##c))(S yaw, S pitch, S roll, matrix<S, r, c>& R o) { o = matrix<S, r, c>::from_euler(yaw, pitch, roll); } \
	P(CAT(mat_euler_, r##c))(S yaw, S pitch, S roll, OUT o)                                                            \
	{                                                                                                                  \
		S q[4];                                                                                                        \
		eul(yaw, pitch, roll, q);                                                                                      \
		mat(q, o, r, c);                                                                                               \
	}                                                                                                                  \
	I(CAT(mat_euler_obj_, r##c))(const EU& R e, matrix<S, r, c>& R o) { o = matrix<S, r, c>::from_euler(e); }          \
	P(CAT(mat_euler_obj_, r##c))(IN e, OUT o)                                                                          \
	{                                                                                                                  \
		S q[4];                                                                                                        \
		eul(e[0], e[1], e[2], q);                                                                                      \
		mat(q, o, r, c);                                                                                               \
	}                                                                                                                  \
	I(CAT(from_matrix_, r##c))(const matrix<S, r, c>& R m, QO o) { o = Q::from_rotation(m); }                          \
	P(CAT(from_matrix_, r##c))(IN m, OUT o) { frommat(m, r, o); }                                                      \
	I(CAT(ctor_matrix_, r##c))(const matrix<S, r, c>& R m, QO o) { o = Q{ m }; }                                       \
	P(CAT(ctor_matrix_, r##c))(IN m, OUT o) { frommat(m, r, o); }
INL void mat(const S* q, S* o, int r, int c)
{
	for (int j = 0; j < c; j++)
		for (int i = 0; i < r; i++)
			o[j * r + i] = i == j ? S{ 1 } : S{ 0 };
	for (int j = 0; j < 3; j++)
	{
		S e[3] = { S(j == 0), S(j == 1), S(j == 2) };
		S t[3];
		rot(q, e, t);
		for (int i = 0; i < 3; i++)
			o[j * r + i] = t[i];
	}
}
// the branch with the largest of the four candidate components (ties as in the standard trace method)
INL void frommat(const S* m, int r, S* o)
{
#define MM(i, j) m[(j) * r + (i)]
	S t	  = MM(0, 0) + MM(1, 1) + MM(2, 2);
	S d[4] = { 1 + MM(0, 0) + MM(1, 1) + MM(2, 2), 1 + MM(0, 0) - MM(1, 1) - MM(2, 2), 1 - MM(0, 0) + MM(1, 1) - MM(2, 2),
			   1 - MM(0, 0) - MM(1, 1) + MM(2, 2) };
	// 4*q_a*q_b
	S p[4][4] = { { d[0], MM(2, 1) - MM(1, 2), MM(0, 2) - MM(2, 0), MM(1, 0) - MM(0, 1) },
				  { MM(2, 1) - MM(1, 2), d[1], MM(0, 1) + MM(1, 0), MM(0, 2) + MM(2, 0) },
				  { MM(0, 2) - MM(2, 0), MM(0, 1) + MM(1, 0), d[2], MM(1, 2) + MM(2, 1) },
				  { MM(1, 0) - MM(0, 1), MM(0, 2) + MM(2, 0), MM(1, 2) + MM(2, 1), d[3] } };
	int k = t > 0 ? 0 : (MM(0, 0) > MM(1, 1) && MM(0, 0) > MM(2, 2)) ? 1 : MM(1, 1) > MM(2, 2) ? 2 : 3;
	#define PICK(kk) { S w = 2 * spec::root(d[kk]); for (int i = 0; i < 4; i++) o[i] = i == kk ? w / 4 : p[kk][i] / w; }
	if (k == 0)
		PICK(0)
	else if (k == 1)
		PICK(1)
	else if (k == 2)
		PICK(2)
	else
		PICK(3)
}
MATS(3, 3) MATS(3, 4) MATS(4, 4)
#define DIRM(r, c)                                                                                                     \
	I(CAT(mat_direction_, r##c))(VI d, matrix<S, r, c>& R o) { o = matrix<S, r, c>::from_3d_direction(d); }            \
	P(CAT(mat_direction_, r##c))(IN d, OUT o)                                                                          \
	{                                                                                                                  \
		for (int j = 0; j < c; j++)                                                                                    \
			for (int i = 0; i < r; i++)                                                                                \
				o[j * r + i] = i == j ? S{ 1 } : S{ 0 };                                                               \
		S eps = default_epsilon<S>;                                                                                    \
		S z[3] = { -d[0], -d[1], -d[2] }, u[3] = { 0, 0, 0 };                                                          \
		if (NEAR(d[1], -1, eps))                                                                                       \
			u[2] = -1;                                                                                                 \
		else if (NEAR(d[1], 1, eps))                                                                                   \
			u[2] = 1;                                                                                                  \
		else                                                                                                           \
			u[1] = 1;                                                                                                  \
		S x[3] = { u[1] * z[2] - u[2] * z[1], u[2] * z[0] - u[0] * z[2], u[0] * z[1] - u[1] * z[0] };                  \
		S l	   = S{ 1 } / len3(x);                                                                                     \
		for (int i = 0; i < 3; i++)                                                                                    \
			x[i] *= l;                                                                                                 \
		S y[3] = { z[1] * x[2] - z[2] * x[1], z[2] * x[0] - z[0] * x[2], z[0] * x[1] - z[1] * x[0] };                  \
		l	   = S{ 1 } / len3(y);                                                                                     \
		for (int i = 0; i < 3; i++)                                                                                    \
		{                                                                                                              \
			y[i] *= l;                                                                                                 \
			o[i]		 = x[i];                                                                                       \
			o[r + i]	 = y[i];                                                                                       \
			o[2 * r + i] = z[i];                                                                                       \
		}                                                                                                              \
	}
DIRM(3, 3) DIRM(3, 4) DIRM(4, 4)

// ---- rotation between directions ----------------------------------------------------------------------------------------
// perpendicular/parallel cases included: compare away from the antiparallel band
I(from_to)(VI a, VI b, QO o) { o = Q::from_rotation(a, b); }
P(from_to)(IN a, IN b, OUT o)
{
	S d = a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
	S k = spec::root((a[0] * a[0] + a[1] * a[1] + a[2] * a[2]) * (b[0] * b[0] + b[1] * b[1] + b[2] * b[2]));
	if (NEAR(d / k, -1, default_epsilon<S>))
	{
		Q q	 = Q::from_rotation(V{ a[0], a[1], a[2] }, V{ b[0], b[1], b[2] });
		o[0] = 0;
		o[1] = q.v.x;
		o[2] = q.v.y;
		o[3] = q.v.z;
	}
	else
	{
		S q[4] = { d + k, a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] };
		S l	   = S{ 1 } / spec::root(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
		for (int i = 0; i < 4; i++)
			o[i] = q[i] * l;
	}
}
// antiparallel: half turn about a unit vector orthogonal to the source
IS(from_to_opposite_axis)(VI a)
{
	Q q = Q::from_rotation(a, -a);
	return q.v.x * a.x + q.v.y * a.y + q.v.z * a.z;
}
PS(from_to_opposite_axis)(IN) { return 0; }
IS(from_to_opposite_norm)(VI a)
{
	Q q = Q::from_rotation(a, -a);
	return q.s * q.s + q.v.x * q.v.x + q.v.y * q.v.y + q.v.z * q.v.z;
}
PS(from_to_opposite_norm)(IN) { return 1; }

// ---- slerp --------------------------------------------------------------------------------------------------------------
INL void sl(const S* a, const S* b, S t, S* o)
{
	S d = a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3];
	S f = 1;
	if (d < 0)
	{
		f = -1;
		d = -d;
	}
	if (d >= static_cast<S>(0.9995))
	{
		S q[4];
		for (int i = 0; i < 4; i++)
			q[i] = a[i] * (1 - t) + b[i] * t * f;
		S l = S{ 1 } / spec::root(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]);
		for (int i = 0; i < 4; i++)
			o[i] = q[i] * l;
	}
	else
	{
		S w = spec::arccos(d);
		S u = spec::sine(w * t) / spec::sine(w);
		for (int i = 0; i < 4; i++)
			o[i] = a[i] * (spec::cosine(w * t) - d * u) + b[i] * u * f;
	}
}
I(slerp)(QI a, QI b, S t, QO o) { o = Q::slerp(a, b, t); }
P(slerp)(IN a, IN b, S t, OUT o) { sl(a, b, t, o); }
I(slerp_free)(QI a, QI b, S t, QO o) { o = muu::slerp(a, b, t); }
P(slerp_free)(IN a, IN b, S t, OUT o) { sl(a, b, t, o); }
I(slerp_inplace)(QO a, QI b, S t) { a.slerp(b, t); }
P(slerp_inplace)(OUT a, IN b, S t)
{
	S o[4];
	sl(a, b, t, o);
	for (int i = 0; i < 4; i++)
		a[i] = o[i];
}
#endif
