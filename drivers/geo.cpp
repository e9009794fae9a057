#include <muu/bounding_box.h>
#include <muu/bounding_sphere.h>
#include <muu/oriented_bounding_box.h>
#include <muu/plane.h>
#include <muu/triangle.h>
#include <muu/line_segment.h>
#include <muu/ray.h>
#include <muu/sat_tester.h>
#include "ob.h"
using namespace muu;
using V = vector<S, 3>;
using B = bounding_box<S>;
using SP = bounding_sphere<S>;
using OB = oriented_bounding_box<S>;
using PL = plane<S>;
using T = triangle<S>;
using L = line_segment<S>;
using RY = ray<S>;
using M4 = matrix<S, 4, 4>;
using SAT = sat_tester<S, 3>;
// layouts: box center(3) extents(3) [axes column major(9)]; sphere center(3) radius; plane normal(3) d; ray origin(3) direction(3)
#define VI const V& R
#define VO V& R
#define IN const S* R
#define OUT S* R
#define SI const SP& R
#define SO SP& R
#define PI const PL& R
#define LI const L& R
#define TI const T& R
#define OI const OB& R
#define RI const RY& R
constexpr S EPS = default_epsilon<S>;
INL S mag(S x) { return x < 0 ? -x : x; }
INL S sq(S x) { return x * x; }
INL S dot(const S* a, const S* b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
INL void sub(const S* a, const S* b, S* o)
{
	for (int i = 0; i < 3; i++)
		o[i] = a[i] - b[i];
}
INL S dist2(const S* a, const S* b) { return sq(a[0] - b[0]) + sq(a[1] - b[1]) + sq(a[2] - b[2]); }
INL S dist(const S* a, const S* b) { return spec::root(dist2(a, b)); }
INL void cross(const S* a, const S* b, S* o)
{
	for (int i = 0; i < 3; i++)
		o[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3];
}
INL void unit(S* v)
{
	const S l = spec::root(dot(v, v));
	for (int i = 0; i < 3; i++)
		v[i] /= l;
}
INL bool all3(bool a, bool b, bool c) { return a & b & c; }

// ======== spheres ========
I(sp_ctor)(VI c, S r, SO o) { o = SP{ c, r }; }
P(sp_ctor)(IN c, S r, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = c[i];
	o[3] = r;
}
I(sp_ctor4)(S x, S y, S z, S r, SO o) { o = SP{ x, y, z, r }; }
P(sp_ctor4)(S x, S y, S z, S r, OUT o)
{
	o[0] = x;
	o[1] = y;
	o[2] = z;
	o[3] = r;
}
I(sp_ctor1)(S r, SO o) { o = SP{ r }; }
P(sp_ctor1)(S r, OUT o)
{
	o[0] = o[1] = o[2] = 0;
	o[3] = r;
}
I(sp_props)(SI s, S k, OUT o)
{
	o[0] = s.diameter();
	o[1] = s.center.x;
	o[2] = s.radius;
	o[3] = s.data()[3];
}
P(sp_props)(IN s, S k, OUT o)
{
	o[0] = 2 * s[3];
	o[1] = s[0];
	o[2] = s[3];
	o[3] = s[3];
}
I(sp_volume)(SI s, S k, OUT o)
{
	o[0] = s.volume();
	o[1] = s.mass(k);
	o[2] = s.density(k);
}
P(sp_volume)(IN s, S k, OUT o)
{
	o[0] = S(4.18879020478639098461685784437267051L) * s[3] * s[3] * s[3];
	o[1] = k * o[0];
	o[2] = k / o[0];
}
IB(sp_eq)(SI a, SI b) { return a == b; }
PB(sp_eq)(IN a, IN b) { return all3(a[0] == b[0], a[1] == b[1], a[2] == b[2]) & (a[3] == b[3]); }
IB(sp_ne)(SI a, SI b) { return a != b; }
PB(sp_ne)(IN a, IN b) { return !(all3(a[0] == b[0], a[1] == b[1], a[2] == b[2]) & (a[3] == b[3])); }
IB(sp_zero)(SI a) { return a.zero(); }
PB(sp_zero)(IN a) { return all3(a[0] == 0, a[1] == 0, a[2] == 0) & (a[3] == 0); }
IB(sp_empty)(SI a) { return a.empty(); }
PB(sp_empty)(IN a) { return a[3] == 0; }
IB(sp_degenerate)(SI a) { return a.degenerate(); }
PB(sp_degenerate)(IN a) { return a[3] <= 0; }
IB(sp_approx_equal)(SI a, SI b, S e) { return a.approx_equal(b, e); }
PB(sp_approx_equal)(IN a, IN b, S e)
{
	return all3(mag(a[0] - b[0]) < e, mag(a[1] - b[1]) < e, mag(a[2] - b[2]) < e) & (mag(a[3] - b[3]) < e);
}
IB(sp_approx_zero)(SI a, S e) { return a.approx_zero(e); }
PB(sp_approx_zero)(IN a, S e) { return all3(mag(a[0]) < e, mag(a[1]) < e, mag(a[2]) < e) & (mag(a[3]) < e); }
IB(sp_approx_empty)(SI a, S e) { return a.approx_empty(e); }
PB(sp_approx_empty)(IN a, S e) { return mag(a[3]) < e; }
I(sp_translate)(SI s, VI v, SO o) { o = SP{ s }.translate(v); }
P(sp_translate)(IN s, IN v, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = s[i] + v[i];
	o[3] = s[3];
}
I(sp_translate_s)(SI s, VI v, SO o) { o = SP::translate(s, v); }
P(sp_translate_s)(IN s, IN v, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = s[i] + v[i];
	o[3] = s[3];
}
I(sp_scale)(SI s, S k, SO o) { o = SP{ s }.scale(k); }
P(sp_scale)(IN s, S k, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = s[i];
	o[3] = s[3] * k;
}
I(sp_scale_s)(SI s, S k, SO o) { o = SP::scale(s, k); }
P(sp_scale_s)(IN s, S k, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = s[i];
	o[3] = s[3] * k;
}
I(sp_closest)(SI s, VI p, VO o) { o = s.closest_point(p); }
P(sp_closest)(IN s, IN p, OUT o)
{
	const S d2 = dist2(p, s);
	if (d2 <= sq(s[3]))
	{
		for (int i = 0; i < 3; i++)
			o[i] = p[i];
		return;
	}
	for (int i = 0; i < 3; i++)
		o[i] = s[i] + (p[i] - s[i]) / spec::root(d2) * s[3];
}
IB(sp_contains_pt)(SI s, VI p) { return s.contains(p); }
PB(sp_contains_pt)(IN s, IN p) { return dist2(s, p) <= sq(s[3]); }
IB(sp_contains_seg)(SI s, LI p) { return s.contains(p); }
PB(sp_contains_seg)(IN s, IN p) { return (dist2(s, p) <= sq(s[3])) & (dist2(s, p + 3) <= sq(s[3])); }
IB(sp_contains_tri)(SI s, TI p) { return s.contains(p); }
PB(sp_contains_tri)(IN s, IN p)
{
	return all3(dist2(s, p) <= sq(s[3]), dist2(s, p + 3) <= sq(s[3]), dist2(s, p + 6) <= sq(s[3]));
}
// the inner sphere fits: |c1 - c2| + r2 <= r1
IB(sp_contains_sp)(SI a, SI b) { return a.contains(b); }
PB(sp_contains_sp)(IN a, IN b) { return (a[3] >= b[3]) & (dist2(a, b) <= sq(a[3] - b[3])); }
IB(sp_intersects_sp)(SI a, SI b) { return a.intersects(b); }
PB(sp_intersects_sp)(IN a, IN b) { return dist2(a, b) <= sq(a[3] + b[3]); }
IB(sp_tester_sp)(SI a, SI b) { return a.collision_tester()(b); }
PB(sp_tester_sp)(IN a, IN b) { return dist2(a, b) <= sq(a[3] + b[3]); }
IB(sp_tester_tester)(SI a, SI b) { return a.collision_tester()(b.collision_tester()); }
PB(sp_tester_tester)(IN a, IN b) { return dist2(a, b) <= sq(a[3] + b[3]); }
// the box corner furthest from the center decides containment of a (non-inverted) box
IB(sp_contains_box)(SI s, const B& R b)
{
	return !(b.extents.x < 0 || b.extents.y < 0 || b.extents.z < 0 || s.radius < 0) && s.contains(b);
}
PB(sp_contains_box)(IN s, IN b)
{
	S d = 0;
	for (int i = 0; i < 3; i++)
		d += sq(mag(s[i] - b[i]) + b[3 + i]);
	return !((b[3] < 0) | (b[4] < 0) | (b[5] < 0) | (s[3] < 0)) & (d <= sq(s[3]));
}
IB(sp_tester_box)(SI s, const B& R b) { return s.collision_tester()(b); }
INL S boxdist2(const S* b, const S* p)
{
	S d = 0;
	for (int i = 0; i < 3; i++)
	{
		const S lo = b[i] - b[3 + i], hi = b[i] + b[3 + i];
		S q = p[i] < lo ? lo : (hi < p[i] ? hi : p[i]);
		d += sq(q - p[i]);
	}
	return d;
}
PB(sp_tester_box)(IN s, IN b) { return boxdist2(b, s) <= sq(s[3]); }

// ======== planes ========
INL S pd(const S* p, const S* x) { return dot(p, x) + p[3]; }
I(pl_ctor_pos)(VI pos, VI n, PL& R o) { o = PL{ pos, n }; }
P(pl_ctor_pos)(IN pos, IN n, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = n[i];
	o[3] = -dot(pos, n);
}
I(pl_ctor_d)(VI n, S d, PL& R o) { o = PL{ n, d }; }
P(pl_ctor_d)(IN n, S d, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = n[i];
	o[3] = d;
}
INL void tri_normal(IN t, OUT o)
{
	S a[3], b[3];
	sub(t + 3, t, a);
	sub(t + 6, t, b);
	cross(a, b, o);
	unit(o);
}
I(pl_from_tri)(TI t, PL& R o) { o = PL::from_triangle(t); }
P(pl_from_tri)(IN t, OUT o)
{
	tri_normal(t, o);
	o[3] = -dot(t, o);
}
I(pl_tri_plane)(TI t, PL& R o) { o = t.plane(); }
P(pl_tri_plane)(IN t, OUT o)
{
	tri_normal(t, o);
	o[3] = -dot(t, o);
}
IB(pl_eq)(PI a, PI b) { return a == b; }
PB(pl_eq)(IN a, IN b) { return all3(a[0] == b[0], a[1] == b[1], a[2] == b[2]) & (a[3] == b[3]); }
IB(pl_ne)(PI a, PI b) { return a != b; }
PB(pl_ne)(IN a, IN b) { return !(all3(a[0] == b[0], a[1] == b[1], a[2] == b[2]) & (a[3] == b[3])); }
IB(pl_zero)(PI a) { return a.zero(); }
PB(pl_zero)(IN a) { return all3(a[0] == 0, a[1] == 0, a[2] == 0) & (a[3] == 0); }
IB(pl_approx_equal)(PI a, PI b, S e) { return a.approx_equal(b, e); }
PB(pl_approx_equal)(IN a, IN b, S e)
{
	return all3(mag(a[0] - b[0]) < e, mag(a[1] - b[1]) < e, mag(a[2] - b[2]) < e) & (mag(a[3] - b[3]) < e);
}
IB(pl_approx_zero)(PI a, S e) { return a.approx_zero(e); }
PB(pl_approx_zero)(IN a, S e) { return all3(mag(a[0]) < e, mag(a[1]) < e, mag(a[2]) < e) & (mag(a[3]) < e); }
I(pl_normalize)(PI p, PL& R o) { o = PL::normalize(p); }
P(pl_normalize)(IN p, OUT o)
{
	for (int i = 0; i < 4; i++)
		o[i] = p[i] / spec::root(dot(p, p));
}
I(pl_normalize_m)(PI p, PL& R o) { o = PL{ p }.normalize(); }
P(pl_normalize_m)(IN p, OUT o)
{
	for (int i = 0; i < 4; i++)
		o[i] = p[i] / spec::root(dot(p, p));
}
I(pl_dist)(PI p, VI x, OUT o)
{
	o[0] = p.signed_distance(x);
	o[1] = PL::signed_distance(p, x);
	o[2] = p.distance(x);
	o[3] = PL::distance(p, x);
}
P(pl_dist)(IN p, IN x, OUT o)
{
	o[0] = o[1] = pd(p, x);
	o[2] = o[3] = mag(pd(p, x));
}
I(pl_project)(PI p, VI x, VO o) { o = p.project(x); }
P(pl_project)(IN p, IN x, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = x[i] - p[i] * pd(p, x);
}
I(pl_project_seg)(PI p, LI x, L& R o) { o = p.project(x); }
P(pl_project_seg)(IN p, IN x, OUT o)
{
	for (int k = 0; k < 2; k++)
		for (int i = 0; i < 3; i++)
			o[3 * k + i] = x[3 * k + i] - p[i] * pd(p, x + 3 * k);
}
I(pl_origin)(PI p, VO o) { o = p.origin(); }
P(pl_origin)(IN p, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = -p[3] * p[i];
}
IB(pl_same2)(PI p, VI a, VI b) { return p.same_side(a, b); }
PB(pl_same2)(IN p, IN a, IN b) { return (pd(p, a) >= 0) == (pd(p, b) >= 0); }
IB(pl_same3)(PI p, VI a, VI b, VI c) { return p.same_side(a, b, c); }
PB(pl_same3)(IN p, IN a, IN b, IN c)
{
	return ((pd(p, a) >= 0) == (pd(p, b) >= 0)) && ((pd(p, a) >= 0) == (pd(p, c) >= 0));
}
IB(pl_contains)(PI p, VI x, S e) { return p.contains(x, e); }
PB(pl_contains)(IN p, IN x, S e) { return mag(pd(p, x)) < e; }
// an end on each side, or an end on the plane
IB(pl_intersects_seg)(PI p, LI s) { return p.intersects(s); }
PB(pl_intersects_seg)(IN p, IN s) { return pd(p, s) * pd(p, s + 3) <= 0; }
IB(pl_seg_intersects)(PI p, LI s) { return s.intersects(p); }
PB(pl_seg_intersects)(IN p, IN s) { return pd(p, s) * pd(p, s + 3) <= 0; }

// ======== line segments ========
I(seg_ctor)(VI a, VI b, L& R o) { o = L{ a, b }; }
P(seg_ctor)(IN a, IN b, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = a[i];
		o[3 + i] = b[i];
	}
}
I(seg_mid)(LI s, VO o) { o = s.midpoint(); }
P(seg_mid)(IN s, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = (s[i] + s[3 + i]) / 2;
}
I(seg_len)(LI s, OUT o)
{
	o[0] = s.length();
	o[1] = s.length_squared();
	S l{};
	const auto d = s.direction(l);
	o[2] = l;
	o[3] = d.x;
	o[4] = d.y;
	o[5] = d.z;
}
P(seg_len)(IN s, OUT o)
{
	o[0] = dist(s, s + 3);
	o[1] = dist2(s, s + 3);
	o[2] = o[0];
	for (int i = 0; i < 3; i++)
		o[3 + i] = (s[3 + i] - s[i]) / o[0];
}
I(seg_dir)(LI s, VO o) { o = s.direction(); }
P(seg_dir)(IN s, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = (s[3 + i] - s[i]) / dist(s, s + 3);
}
I(seg_reverse)(LI s, L& R o) { o = L{ s }.reverse(); }
P(seg_reverse)(IN s, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = s[3 + i];
		o[3 + i] = s[i];
	}
}
I(seg_extend)(LI s, S k, L& R o) { o = L{ s }.extend(k); }
P(seg_extend)(IN s, S k, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = s[i];
		o[3 + i] = s[i] + (s[3 + i] - s[i]) / dist(s, s + 3) * (dist(s, s + 3) + k);
	}
}
I(seg_access)(LI s, OUT o)
{
	o[0] = s[0].x;
	o[1] = s[1].y;
	o[2] = s.data()[5];
	o[3] = s.template get<1>().z;
	o[4] = s.begin()->x;
	o[5] = s.end()[-1].x;
}
P(seg_access)(IN s, OUT o)
{
	o[0] = s[0];
	o[1] = s[4];
	o[2] = s[5];
	o[3] = s[5];
	o[4] = s[0];
	o[5] = s[3];
}
IB(seg_eq)(LI a, LI b) { return a == b; }
PB(seg_eq)(IN a, IN b)
{
	return all3(a[0] == b[0], a[1] == b[1], a[2] == b[2]) & all3(a[3] == b[3], a[4] == b[4], a[5] == b[5]);
}
IB(seg_ne)(LI a, LI b) { return a != b; }
PB(seg_ne)(IN a, IN b)
{
	return !(all3(a[0] == b[0], a[1] == b[1], a[2] == b[2]) & all3(a[3] == b[3], a[4] == b[4], a[5] == b[5]));
}
IB(seg_zero)(LI a) { return a.zero(); }
PB(seg_zero)(IN a) { return all3(a[0] == 0, a[1] == 0, a[2] == 0) & all3(a[3] == 0, a[4] == 0, a[5] == 0); }
IB(seg_degenerate)(LI a) { return a.degenerate(); }
PB(seg_degenerate)(IN a) { return all3(a[0] == a[3], a[1] == a[4], a[2] == a[5]); }
IB(seg_approx_zero)(LI a, S e) { return a.approx_zero(e); }
PB(seg_approx_zero)(IN a, S e)
{
	return all3(mag(a[0]) < e, mag(a[1]) < e, mag(a[2]) < e) & all3(mag(a[3]) < e, mag(a[4]) < e, mag(a[5]) < e);
}
IB(seg_approx_equal)(LI a, LI b, S e) { return a.approx_equal(b, e); }
PB(seg_approx_equal)(IN a, IN b, S e)
{
	bool r = true;
	for (int i = 0; i < 6; i++)
		r = r & (mag(a[i] - b[i]) < e);
	return r;
}
INL void seg_near(IN s, IN p, OUT o)
{
	S d[3], q[3];
	sub(s + 3, s, d);
	const S len = spec::root(dot(d, d));
	for (int i = 0; i < 3; i++)
		d[i] /= len;
	sub(p, s, q);
	S t = dot(q, d);
	if (t < 0)
		t = 0;
	else if (len < t)
		t = len;
	for (int i = 0; i < 3; i++)
		o[i] = s[i] + d[i] * t;
}
I(seg_closest)(LI s, VI p, VO o) { o = s.closest_point(p); }
P(seg_closest)(IN s, IN p, OUT o) { seg_near(s, p, o); }
IB(seg_contains)(LI s, VI p, S e) { return s.contains(p, e); }
PB(seg_contains)(IN s, IN p, S e)
{
	S q[3];
	seg_near(s, p, q);
	return dist2(p, q) < e;
}
INL S line_dist2(const S* o, const S* s, const S* p)
{
	S d[3], q[3];
	sub(s, o, d);
	unit(d);
	sub(p, o, q);
	const S t = dot(q, d);
	for (int i = 0; i < 3; i++)
		q[i] -= d[i] * t;
	return dot(q, q);
}
IB(seg_colinear)(LI s, VI p, S e) { return s.colinear(p, e); }
PB(seg_colinear)(IN s, IN p, S e) { return mag(line_dist2(s, s + 3, p)) < e; }
IB(seg_colinear_seg)(LI s, LI p, S e) { return s.colinear(p, e); }
PB(seg_colinear_seg)(IN s, IN p, S e)
{
	return (mag(line_dist2(s, s + 3, p)) < e) & (mag(line_dist2(s, s + 3, p + 3)) < e);
}
IB(seg_coplanar)(LI s, LI p, S e) { return s.coplanar(p, e); }
PB(seg_coplanar)(IN s, IN p, S e)
{
	S a[3], b[3], n[3], q[3];
	sub(s + 3, s, a);
	sub(p, s, b);
	cross(a, b, n);
	unit(n);
	sub(p + 3, s, q);
	return mag(dot(n, q)) < e;
}

// ======== triangles ========
I(tri_normal)(TI t, VO o) { o = t.normal(); }
P(tri_normal)(IN t, OUT o) { tri_normal(t, o); }
I(tri_centroid)(TI t, VO o) { o = t.centroid(); }
P(tri_centroid)(IN t, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = (t[i] + t[3 + i] + t[6 + i]) / 3;
}
I(tri_perimeter)(TI t, OUT o) { o[0] = t.perimeter(); }
P(tri_perimeter)(IN t, OUT o) { o[0] = dist(t, t + 3) + dist(t + 3, t + 6) + dist(t + 6, t); }
// squared area: |(p1-p0) x (p2-p0)|^2 / 4
I(tri_area)(TI t, OUT o)
{
	const S a = t.area();
	o[0] = a * a;
}
P(tri_area)(IN t, OUT o)
{
	S a[3], b[3], n[3];
	sub(t + 3, t, a);
	sub(t + 6, t, b);
	cross(a, b, n);
	o[0] = dot(n, n) / 4;
}
IB(tri_degenerate)(TI t) { return t.degenerate(); }
PB(tri_degenerate)(IN t)
{
	return all3(t[0] == t[3], t[1] == t[4], t[2] == t[5]) || all3(t[0] == t[6], t[1] == t[7], t[2] == t[8])
		|| all3(t[3] == t[6], t[4] == t[7], t[5] == t[8]);
}
IB(tri_eq)(TI a, TI b) { return a == b; }
PB(tri_eq)(IN a, IN b)
{
	bool r = true;
	for (int i = 0; i < 9; i++)
		r = r & (a[i] == b[i]);
	return r;
}
IB(tri_ne)(TI a, TI b) { return a != b; }
PB(tri_ne)(IN a, IN b)
{
	bool r = true;
	for (int i = 0; i < 9; i++)
		r = r & (a[i] == b[i]);
	return !r;
}
IB(tri_zero)(TI a) { return a.zero(); }
PB(tri_zero)(IN a)
{
	bool r = true;
	for (int i = 0; i < 9; i++)
		r = r & (a[i] == 0);
	return r;
}
IB(tri_approx_equal)(TI a, TI b, S e) { return a.approx_equal(b, e); }
PB(tri_approx_equal)(IN a, IN b, S e)
{
	bool r = true;
	for (int i = 0; i < 9; i++)
		r = r & (mag(a[i] - b[i]) < e);
	return r;
}
IB(tri_approx_zero)(TI a, S e) { return a.approx_zero(e); }
PB(tri_approx_zero)(IN a, S e)
{
	bool r = true;
	for (int i = 0; i < 9; i++)
		r = r & (mag(a[i]) < e);
	return r;
}
I(tri_access)(TI t, OUT o)
{
	o[0] = t[0].x;
	o[1] = t[1].y;
	o[2] = t[2].z;
	o[3] = t.data()[8];
	o[4] = t.template get<1>().z;
	o[5] = t.end()[-1].x;
}
P(tri_access)(IN t, OUT o)
{
	o[0] = t[0];
	o[1] = t[4];
	o[2] = t[8];
	o[3] = t[8];
	o[4] = t[5];
	o[5] = t[6];
}
IB(tri_coplanar)(TI t, VI p, S e) { return t.coplanar(p, e); }
PB(tri_coplanar)(IN t, IN p, S e)
{
	S n[3], q[3];
	tri_normal(t, n);
	sub(p, t, q);
	return mag(dot(q, n)) < e;
}
// inside test by the signs of the sub-triangle normals
INL bool tri_inside(IN t, IN p)
{
	S a[3], b[3], c[3], u[3], v[3], w[3];
	sub(t, p, a);
	sub(t + 3, p, b);
	sub(t + 6, p, c);
	cross(b, c, u);
	cross(c, a, v);
	cross(a, b, w);
	return (dot(u, v) >= 0) & (dot(u, w) >= 0);
}
IB(tri_contains)(TI t, VI p, S e) { return t.contains(p, e); }
PB(tri_contains)(IN t, IN p, S e)
{
	S n[3], q[3];
	tri_normal(t, n);
	sub(p, t, q);
	return (mag(dot(q, n)) < e) & tri_inside(t, p);
}
// barycentric coordinates: Cramer's rule; they sum to one
INL void bary(IN t, IN p, OUT o)
{
	S a[3], b[3], q[3];
	sub(t + 3, t, a);
	sub(t + 6, t, b);
	sub(p, t, q);
	const S den = dot(a, a) * dot(b, b) - dot(a, b) * dot(a, b);
	o[1] = (dot(b, b) * dot(q, a) - dot(a, b) * dot(q, b)) / den;
	o[2] = (dot(a, a) * dot(q, b) - dot(a, b) * dot(q, a)) / den;
	o[0] = 1 - o[1] - o[2];
}
I(tri_bary)(TI t, VI p, VO o) { o = t.barycentric(p); }
P(tri_bary)(IN t, IN p, OUT o) { bary(t, p, o); }
I(tri_bary_gen)(TI t, VI p, VO o) { o = t.barycentric_generator()(p); }
P(tri_bary_gen)(IN t, IN p, OUT o) { bary(t, p, o); }
// the coordinates of w0*p0 + w1*p1 + w2*p2 (weights sum to one) are the weights themselves
I(tri_bary_law)(TI t, S w1, S w2, VO o) { o = t.barycentric(t[0] * (1 - w1 - w2) + t[1] * w1 + t[2] * w2); }
P(tri_bary_law)(IN t, S w1, S w2, OUT o)
{
	o[0] = 1 - w1 - w2;
	o[1] = w1;
	o[2] = w2;
}
I(tri_tester)(TI t, OUT o)
{
	const auto c = t.collision_tester();
	for (int k = 0; k < 3; k++)
		for (int i = 0; i < 3; i++)
		{
			o[3 * k + i] = c.edges[k].data()[i];
			o[9 + 3 * k + i] = c.tri[k].data()[i];
		}
}
P(tri_tester)(IN t, OUT o)
{
	for (int k = 0; k < 3; k++)
		for (int i = 0; i < 3; i++)
		{
			o[3 * k + i] = t[(3 * k + 3) % 9 + i] - t[3 * k + i];
			o[9 + 3 * k + i] = t[3 * k + i];
		}
}

// ======== oriented boxes (axes: columns) ========
INL void obb_corner(IN b, int k, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = b[i];
		for (int j = 0; j < 3; j++)
			o[i] += ((k >> j & 1) ? b[3 + j] : -b[3 + j]) * b[6 + 3 * j + i];
	}
}
#define OCORNER(K)                                                                                                     \
	I(CAT(obb_corner_t_, K))(OI b, VO o) { o = b.template corner<static_cast<box_corner>(K)>(); }                      \
	P(CAT(obb_corner_t_, K))(IN b, OUT o) { obb_corner(b, K, o); }                                                     \
	I(CAT(obb_corner_r_, K))(OI b, VO o) { o = b.corner(static_cast<box_corner>(K)); }                                 \
	P(CAT(obb_corner_r_, K))(IN b, OUT o) { obb_corner(b, K, o); }
OCORNER(0)
OCORNER(1)
OCORNER(2)
OCORNER(3)
OCORNER(4)
OCORNER(5)
OCORNER(6)
OCORNER(7)
I(obb_minmax)(OI b, V (&R o)[2])
{
	o[0] = b.min_corner();
	o[1] = b.max_corner();
}
P(obb_minmax)(IN b, OUT o)
{
	obb_corner(b, 0, o);
	obb_corner(b, 7, o + 3);
}
I(obb_sizes)(OI b, OUT o)
{
	o[0] = b.width();
	o[1] = b.height();
	o[2] = b.depth();
	o[3] = b.volume();
	o[4] = b.diagonal();
}
P(obb_sizes)(IN b, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = 2 * b[3 + i];
	o[3] = 8 * b[3] * b[4] * b[5];
	o[4] = 2 * spec::root(dot(b + 3, b + 3));
}
I(obb_axes)(OI b, V (&R o)[3])
{
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			o[i][j] = b.axes(j, i);
}
P(obb_axes)(IN b, OUT o)
{
	for (int i = 0; i < 9; i++)
		o[i] = b[6 + i];
}
I(obb_ctor)(VI c, VI e, OB& R o) { o = OB{ c, e }; }
P(obb_ctor)(IN c, IN e, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = c[i];
		o[3 + i] = e[i];
		for (int j = 0; j < 3; j++)
			o[6 + 3 * i + j] = i == j;
	}
}
IB(obb_eq)(OI a, OI b) { return a == b; }
PB(obb_eq)(IN a, IN b)
{
	bool r = true;
	for (int i = 0; i < 15; i++)
		r = r & (a[i] == b[i]);
	return r;
}
IB(obb_zero)(OI a) { return a.zero(); }
PB(obb_zero)(IN a)
{
	bool r = true;
	for (int i = 0; i < 15; i++)
		r = r & (a[i] == 0);
	return r;
}
IB(obb_empty)(OI a) { return a.empty(); }
PB(obb_empty)(IN a) { return all3(a[3] == 0, a[4] == 0, a[5] == 0); }
IB(obb_approx_zero)(OI a, S e) { return a.approx_zero(e); }
PB(obb_approx_zero)(IN a, S e)
{
	bool r = true;
	for (int i = 0; i < 15; i++)
		r = r & (mag(a[i]) < e);
	return r;
}
IB(obb_approx_equal)(OI a, OI b, S e) { return a.approx_equal(b, e); }
PB(obb_approx_equal)(IN a, IN b, S e)
{
	bool r = true;
	for (int i = 0; i < 15; i++)
		r = r & (mag(a[i] - b[i]) < e);
	return r;
}
I(obb_translate)(OI b, VI v, OB& R o) { o = OB{ b }.translate(v); }
P(obb_translate)(IN b, IN v, OUT o)
{
	for (int i = 0; i < 15; i++)
		o[i] = b[i] + (i < 3 ? v[i] : 0);
}
I(obb_scale)(OI b, VI v, OB& R o) { o = OB{ b }.scale(v); }
P(obb_scale)(IN b, IN v, OUT o)
{
	for (int i = 0; i < 15; i++)
		o[i] = b[i] * (i >= 3 && i < 6 ? v[i - 3] : 1);
}
// center M*c + t; each axis*extent is carried by the linear part
I(obb_transform)(OI b, const M4& R a, OUT o)
{
	M4 m = a;
	m.m[0].w = m.m[1].w = m.m[2].w = 0;
	m.m[3].w = 1;
	const auto r = OB::transform(b, m);
	for (int i = 0; i < 3; i++)
	{
		o[i] = r.center.data()[i];
		for (int j = 0; j < 3; j++)
			o[3 + 3 * j + i] = r.axes.m[j].data()[i] * r.extents.data()[j];
	}
}
P(obb_transform)(IN b, IN m, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = m[12 + i];
		for (int k = 0; k < 3; k++)
			o[i] += m[4 * k + i] * b[k];
		for (int j = 0; j < 3; j++)
		{
			o[3 + 3 * j + i] = 0;
			for (int k = 0; k < 3; k++)
				o[3 + 3 * j + i] += m[4 * k + i] * b[6 + 3 * j + k] * b[3 + j];
		}
	}
}
INL void obb_near(IN b, IN p, OUT o)
{
	S q[3];
	sub(p, b, q);
	for (int i = 0; i < 3; i++)
		o[i] = b[i];
	for (int j = 0; j < 3; j++)
	{
		S t = dot(q, b + 6 + 3 * j);
		const S e = b[3 + j];
		if (t < -e)
			t = -e;
		else if (e < t)
			t = e;
		for (int i = 0; i < 3; i++)
			o[i] += t * b[6 + 3 * j + i];
	}
}
I(obb_closest)(OI b, VI p, VO o) { o = b.extents.x < 0 || b.extents.y < 0 || b.extents.z < 0 ? p : b.closest_point(p); }
P(obb_closest)(IN b, IN p, OUT o)
{
	if (b[3] < 0 || b[4] < 0 || b[5] < 0)
		for (int i = 0; i < 3; i++)
			o[i] = p[i];
	else
		obb_near(b, p, o);
}
INL bool obb_in(IN b, IN p)
{
	S q[3];
	sub(p, b, q);
	return all3(mag(dot(q, b + 6)) <= b[3], mag(dot(q, b + 9)) <= b[4], mag(dot(q, b + 12)) <= b[5]);
}
IB(obb_contains_pt)(OI b, VI p) { return b.contains(p); }
PB(obb_contains_pt)(IN b, IN p) { return obb_in(b, p); }
IB(obb_contains_seg)(OI b, LI p) { return b.contains(p); }
PB(obb_contains_seg)(IN b, IN p) { return obb_in(b, p) & obb_in(b, p + 3); }
IB(obb_contains_tri)(OI b, TI p) { return b.contains(p); }
PB(obb_contains_tri)(IN b, IN p) { return obb_in(b, p) & obb_in(b, p + 3) & obb_in(b, p + 6); }
// inside the axis-aligned box: every corner is
IB(box_contains_obb)(const B& R a, OI b) { return a.contains(b); }
PB(box_contains_obb)(IN a, IN b)
{
	bool r = true;
	const int order[8] = { 0, 1, 2, 3, 4, 5, 6, 7 };
	for (int k = 0; k < 8; k++)
	{
		S c[3];
		obb_corner(b, order[k], c);
		r = r & all3(mag(c[0] - a[0]) <= a[3], mag(c[1] - a[1]) <= a[4], mag(c[2] - a[2]) <= a[5]);
	}
	return r;
}

// ======== separating-axis intervals ========
I(sat3)(VI ax, VI a, VI b, VI c, OUT o)
{
	SAT t{ ax, a, b, c };
	o[0] = t.min;
	o[1] = t.max;
}
INL S mn(S a, S b) { return b < a ? b : a; }
INL S mx(S a, S b) { return a < b ? b : a; }
P(sat3)(IN ax, IN a, IN b, IN c, OUT o)
{
	o[0] = mn(mn(dot(ax, a), dot(ax, b)), dot(ax, c));
	o[1] = mx(mx(dot(ax, a), dot(ax, b)), dot(ax, c));
}
I(sat_add)(VI ax, VI a, VI b, OUT o)
{
	SAT t{ ax, a };
	t.add(ax, b);
	o[0] = t.min;
	o[1] = t.max;
}
P(sat_add)(IN ax, IN a, IN b, OUT o)
{
	o[0] = mn(dot(ax, a), dot(ax, b));
	o[1] = mx(dot(ax, a), dot(ax, b));
}
I(sat_axis)(VI a, VI b, OUT o)
{
	SAT t{ index_tag<1>{}, a, b };
	o[0] = t.min;
	o[1] = t.max;
}
P(sat_axis)(IN a, IN b, OUT o)
{
	o[0] = mn(a[1], b[1]);
	o[1] = mx(a[1], b[1]);
}
IB(sat_overlap)(S a, S b, S c, S d)
{
	SAT t{};
	t.min = a;
	t.max = b;
	SAT u{};
	u.min = c;
	u.max = d;
	return t(u);
}
PB(sat_overlap)(S a, S b, S c, S d) { return (a <= d) & (c <= b); }
IB(sat_range)(S a, S b, S c, S d)
{
	SAT t{};
	t.min = a;
	t.max = b;
	return t(c, d);
}
PB(sat_range)(S a, S b, S c, S d) { return (a <= d) & (c <= b); }
IB(sat_value)(S a, S b, S c)
{
	SAT t{};
	t.min = a;
	t.max = b;
	return t(c);
}
PB(sat_value)(S a, S b, S c) { return (a <= c) & (c <= b); }

// ======== rays ========
I(ray_ctor)(VI a, VI b, RY& R o) { o = RY{ a, b }; }
P(ray_ctor)(IN a, IN b, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = a[i];
		o[3 + i] = b[i];
	}
}
I(ray_at)(RI r, S t, VO o) { o = r.at(t); }
P(ray_at)(IN r, S t, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = r[i] + r[3 + i] * t;
}
I(ray_bounce)(RI r, S t, VI d, RY& R o) { o = r.bounce(t, d); }
P(ray_bounce)(IN r, S t, IN d, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = r[i] + r[3 + i] * t;
		o[3 + i] = d[i];
	}
}
IB(ray_eq)(RI a, RI b) { return a == b; }
PB(ray_eq)(IN a, IN b)
{
	return all3(a[0] == b[0], a[1] == b[1], a[2] == b[2]) & all3(a[3] == b[3], a[4] == b[4], a[5] == b[5]);
}
IB(ray_ne)(RI a, RI b) { return a != b; }
PB(ray_ne)(IN a, IN b)
{
	return !(all3(a[0] == b[0], a[1] == b[1], a[2] == b[2]) & all3(a[3] == b[3], a[4] == b[4], a[5] == b[5]));
}
IB(ray_approx_equal)(RI a, RI b, S e) { return a.approx_equal(b, e); }
PB(ray_approx_equal)(IN a, IN b, S e)
{
	bool r = true;
	for (int i = 0; i < 6; i++)
		r = r & (mag(a[i] - b[i]) < e);
	return r;
}
// a hit is reported as (1, distance), no hit as (0, 0)
#define HIT(x)                                                                                                         \
	const auto h = x;                                                                                                  \
	o[0] = h ? S(1) : S(0);                                                                                            \
	o[1] = h ? *h : S(0);
I(ray_plane)(RI r, PI p, OUT o) { HIT(r.hits(p)) }
P(ray_plane)(IN r, IN p, OUT o)
{
	const S nd = dot(r + 3, p), sd = pd(p, r);
	o[0] = o[1] = 0;
	if ((sd > 0 && nd >= 0) || (sd < 0 && nd <= 0))
		return;
	const S t = -sd / nd;
	if (!(t >= 0))
		return;
	o[0] = 1;
	o[1] = t;
}
I(ray_sphere)(RI r, SI s, OUT o) { HIT(r.hits(s)) }
P(ray_sphere)(IN r, IN s, OUT o)
{
	S e[3];
	sub(s, r, e);
	const S a = dot(e, r + 3), e2 = dot(e, e), r2 = sq(s[3]);
	o[0] = o[1] = 0;
	if (a < 0 && e2 >= r2)
		return;
	if (r2 - e2 + a * a < EPS)
		return;
	const S f = spec::root(r2 - (e2 - a * a));
	o[0] = 1;
	o[1] = e2 < r2 ? a + f : a - f;
}
I(ray_triangle)(RI r, TI t, OUT o) { HIT(r.hits(t)) }
P(ray_triangle)(IN r, IN t, OUT o)
{
	S a[3], b[3], pv[3], tv[3], qv[3];
	sub(t + 3, t, a);
	sub(t + 6, t, b);
	cross(r + 3, b, pv);
	const S det = dot(a, pv);
	o[0] = o[1] = 0;
	if (mag(det) < EPS)
		return;
	sub(r, t, tv);
	const S u = dot(tv, pv) / det;
	if (u < 0 || u > 1)
		return;
	cross(tv, a, qv);
	const S v = dot(r + 3, qv) / det;
	if (v < 0 || u + v > 1)
		return;
	const S h = dot(b, qv) / det;
	if (h < 0)
		return;
	o[0] = 1;
	o[1] = h;
}
I(ray_box)(RI r, const B& R b, OUT o) { HIT(r.hits(b)) }
P(ray_box)(IN r, IN b, OUT o)
{
	S lo[3], hi[3];
	for (int i = 0; i < 3; i++)
	{
		const S t1 = ((b[i] - b[3 + i]) - r[i]) / r[3 + i], t2 = ((b[i] + b[3 + i]) - r[i]) / r[3 + i];
		lo[i] = mn(t1, t2);
		hi[i] = mx(t1, t2);
	}
	const S tn = mx(mx(lo[0], lo[1]), lo[2]), tx = mn(mn(hi[0], hi[1]), hi[2]);
	o[0] = o[1] = 0;
	if (tx < 0 || tn > tx)
		return;
	o[0] = 1;
	o[1] = tn < 0 ? tx : tn;
}
