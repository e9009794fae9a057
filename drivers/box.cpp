#include <muu/bounding_box.h>
#include <muu/bounding_sphere.h>
#include <muu/oriented_bounding_box.h>
#include <muu/plane.h>
#include <muu/triangle.h>
#include <muu/line_segment.h>
#include "ob.h"
using namespace muu;
using V = vector<S, 3>;
using B = bounding_box<S>;
using SP = bounding_sphere<S>;
using OB = oriented_bounding_box<S>;
using PL = plane<S>;
using T = triangle<S>;
using L = line_segment<S>;
using M4 = matrix<S, 4, 4>;
// layouts: box center(3) extents(3); sphere center(3) radius; plane normal(3) d; matrices column major
#define BI const B& R
#define VI const V& R
#define BO B& R
#define VO V& R
#define IN const S* R
#define OUT S* R
INL S mn(S a, S b) { return b < a ? b : a; }
INL S mx(S a, S b) { return a < b ? b : a; }
INL S lo(const S* b, int i) { return b[i] - b[3 + i]; }
INL S hi(const S* b, int i) { return b[i] + b[3 + i]; }
INL void put(const S* l, const S* h, S* o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = (l[i] + h[i]) / 2;
		o[3 + i] = (h[i] - l[i]) / 2;
	}
}
INL S mag(S x) { return x < 0 ? -x : x; }
INL bool inside(const S* b, const S* p)
{
	bool r = true;
	for (int i = 0; i < 3; i++)
		r = r & (mag(p[i] - b[i]) <= b[3 + i]);
	return r;
}
INL S sq(S x) { return x * x; }
// squared distance from point to box
INL S boxdist2(const S* b, const S* p)
{
	S d = 0;
	for (int i = 0; i < 3; i++)
	{
		S q = p[i] < lo(b, i) ? lo(b, i) : (hi(b, i) < p[i] ? hi(b, i) : p[i]);
		d += sq(q - p[i]);
	}
	return d;
}

// ---- construction ---------------------------------------------------------------------------------------------------
I(copy)(BI b, BO o) { o = b; }
P(copy)(IN b, OUT o)
{
	for (int i = 0; i < 6; i++)
		o[i] = b[i];
}
I(ctor_vv)(VI c, VI e, BO o) { o = B{ c, e }; }
P(ctor_vv)(IN c, IN e, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = c[i];
		o[3 + i] = e[i];
	}
}
I(ctor_v3)(VI c, S x, S y, S z, BO o) { o = B{ c, x, y, z }; }
P(ctor_v3)(IN c, S x, S y, S z, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = c[i];
	o[3] = x;
	o[4] = y;
	o[5] = z;
}
I(ctor_v1)(VI c, S x, BO o) { o = B{ c, x }; }
P(ctor_v1)(IN c, S x, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = c[i];
		o[3 + i] = x;
	}
}
I(ctor_e)(VI e, BO o) { o = B{ e }; }
P(ctor_e)(IN e, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = 0;
		o[3 + i] = e[i];
	}
}
I(ctor_3v)(S x, S y, S z, VI e, BO o) { o = B{ x, y, z, e }; }
P(ctor_3v)(S x, S y, S z, IN e, OUT o)
{
	o[0] = x;
	o[1] = y;
	o[2] = z;
	for (int i = 0; i < 3; i++)
		o[3 + i] = e[i];
}
I(ctor_6)(S x, S y, S z, S a, S b, S c, BO o) { o = B{ x, y, z, a, b, c }; }
P(ctor_6)(S x, S y, S z, S a, S b, S c, OUT o)
{
	o[0] = x;
	o[1] = y;
	o[2] = z;
	o[3] = a;
	o[4] = b;
	o[5] = c;
}
I(ctor_1)(S x, BO o) { o = B{ x }; }
P(ctor_1)(S x, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = 0;
		o[3 + i] = x;
	}
}
I(from_min_max)(VI a, VI b, BO o) { o = B::from_min_max(a, b); }
P(from_min_max)(IN a, IN b, OUT o) 
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = (a[i] + b[i]) / 2;
		o[3 + i] = (b[i] - a[i]) / 2;
	}
}
I(from_points2)(VI a, VI b, BO o) { o = B::from_points(a, b); }
P(from_points2)(IN a, IN b, OUT o)
{
	S l[3], h[3];
	for (int i = 0; i < 3; i++)
	{
		l[i] = mn(a[i], b[i]);
		h[i] = mx(a[i], b[i]);
	}
	put(l, h, o);
}
INL void pts3(IN a, IN b, IN c, OUT o)
{
	S l[3], h[3];
	for (int i = 0; i < 3; i++)
	{
		l[i] = mn(mn(a[i], b[i]), c[i]);
		h[i] = mx(mx(a[i], b[i]), c[i]);
	}
	put(l, h, o);
}
I(from_points3)(VI a, VI b, VI c, BO o) { o = B::from_points(a, b, c); }
P(from_points3)(IN a, IN b, IN c, OUT o) { pts3(a, b, c, o); }
using A3 = V[3];
I(from_points_arr)(const A3& R p, BO o) { o = B::from_points(p); }
P(from_points_arr)(IN p, OUT o) { pts3(p, p + 3, p + 6, o); }
I(from_points_range)(const A3& R p, BO o) { o = B::from_points(p, p + 3); }
P(from_points_range)(IN p, OUT o) { pts3(p, p + 3, p + 6, o); }
I(from_points_count)(const A3& R p, BO o) { o = B(static_cast<const V*>(p), size_t{ 3 }); }
P(from_points_count)(IN p, OUT o) { pts3(p, p + 3, p + 6, o); }
I(from_points_ctor_range)(const A3& R p, BO o) { o = B(static_cast<const V*>(p), p + 3); }
P(from_points_ctor_range)(IN p, OUT o) { pts3(p, p + 3, p + 6, o); }
I(from_points_one)(VI p, BO o) { o = B::from_points(&p, &p + 1); }
P(from_points_one)(IN p, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = p[i];
		o[3 + i] = 0;
	}
}
I(from_points_none)(VI p, BO o) { o = B::from_points(&p, &p); }
P(from_points_none)(IN p, OUT o)
{
	for (int i = 0; i < 6; i++)
		o[i] = 0;
}
I(from_sphere)(const SP& R s, BO o) { o = B::from_sphere(s); }
P(from_sphere)(IN s, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = s[i];
		o[3 + i] = s[3];
	}
}
I(ctor_sphere)(const SP& R s, BO o) { o = B{ s }; }
P(ctor_sphere)(IN s, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = s[i];
		o[3 + i] = s[3];
	}
}
// ---- access and measures ------------------------------------------------------------------------------------------------
I(access)(BI b, OUT o)
{
	o[0] = b.center.x;
	o[1] = b.center.y;
	o[2] = b.center.z;
	o[3] = b.extents.x;
	o[4] = b.extents.y;
	o[5] = b.extents.z;
	o[6] = b.data()[0];
	o[7] = b.data()[5];
}
P(access)(IN b, OUT o)
{
	for (int i = 0; i < 6; i++)
		o[i] = b[i];
	o[6] = b[0];
	o[7] = b[5];
}
I(sizes)(BI b, OUT o)
{
	o[0] = b.width();
	o[1] = b.height();
	o[2] = b.depth();
	o[3] = b.volume();
}
P(sizes)(IN b, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = 2 * b[3 + i];
	o[3] = 8 * b[3] * b[4] * b[5];
}
I(diagonal)(BI b, OUT o) { o[0] = b.diagonal(); }
P(diagonal)(IN b, OUT o) { o[0] = 2 * spec::root(sq(b[3]) + sq(b[4]) + sq(b[5])); }
I(shortest)(BI b, OUT o)
{
	o[0] = b.shortest_extent();
	o[1] = b.shortest_side();
}
P(shortest)(IN b, OUT o)
{
	o[0] = mn(mn(b[3], b[4]), b[5]);
	o[1] = 2 * o[0];
}
I(longest)(BI b, OUT o)
{
	o[0] = b.longest_extent();
	o[1] = b.longest_side();
}
P(longest)(IN b, OUT o)
{
	o[0] = mx(mx(b[3], b[4]), b[5]);
	o[1] = 2 * o[0];
}
I(mass)(BI b, S d, OUT o) { o[0] = b.mass(d); }
P(mass)(IN b, S d, OUT o) { o[0] = d * 8 * b[3] * b[4] * b[5]; }
I(density)(BI b, S d, OUT o) { o[0] = b.density(d); }
P(density)(IN b, S d, OUT o) { o[0] = d / (8 * b[3] * b[4] * b[5]); }
// ---- equality -------------------------------------------------------------------------------------------------------------
IB(eq)(BI a, BI b) { return a == b; }
PB(eq)(IN a, IN b)
{
	bool r = true;
	for (int i = 0; i < 6; i++)
		r = r & (a[i] == b[i]);
	return r;
}
IB(ne)(BI a, BI b) { return a != b; }
PB(ne)(IN a, IN b)
{
	bool r = false;
	for (int i = 0; i < 6; i++)
		r = r | (a[i] != b[i]);
	return r;
}
IB(zero)(BI a) { return a.zero(); }
PB(zero)(IN a)
{
	bool r = true;
	for (int i = 0; i < 6; i++)
		r = r & (a[i] == 0);
	return r;
}
IB(empty)(BI a) { return a.empty(); }
PB(empty)(IN a) { return (a[3] == 0) & (a[4] == 0) & (a[5] == 0); }
IB(degenerate)(BI a) { return a.degenerate(); }
PB(degenerate)(IN a) { return (a[3] <= 0) | (a[4] <= 0) | (a[5] <= 0); }
IB(approx_equal)(BI a, BI b, S eps) { return a.approx_equal(b, eps); }
PB(approx_equal)(IN a, IN b, S eps)
{
	bool r = true;
	for (int i = 0; i < 6; i++)
		r = r & ((a[i] - b[i] < 0 ? b[i] - a[i] : a[i] - b[i]) < eps);
	return r;
}
IB(approx_zero)(BI a, S eps) { return a.approx_zero(eps); }
PB(approx_zero)(IN a, S eps)
{
	bool r = true;
	for (int i = 0; i < 6; i++)
		r = r & ((a[i] < 0 ? -a[i] : a[i]) < eps);
	return r;
}
IB(approx_empty)(BI a, S eps) { return a.approx_empty(eps); }
PB(approx_empty)(IN a, S eps)
{
	bool r = true;
	for (int i = 3; i < 6; i++)
		r = r & ((a[i] < 0 ? -a[i] : a[i]) < eps);
	return r;
}
// ---- corners --------------------------------------------------------------------------------------------------------------
INL void corner_of(IN b, int k, OUT o)
{
	for (int i = 0; i < 3; i++)
		o[i] = (k >> i & 1) ? hi(b, i) : lo(b, i);
}
#define CORNER(K)                                                                                                      \
	I(CAT(corner_t_, K))(BI b, VO o) { o = b.template corner<static_cast<box_corner>(K)>(); }                         \
	P(CAT(corner_t_, K))(IN b, OUT o) { corner_of(b, K, o); }                                                          \
	I(CAT(corner_r_, K))(BI b, VO o) { o = b.corner(static_cast<box_corner>(K)); }                                     \
	P(CAT(corner_r_, K))(IN b, OUT o) { corner_of(b, K, o); }
CORNER(0)
CORNER(1)
CORNER(2)
CORNER(3)
CORNER(4)
CORNER(5)
CORNER(6)
CORNER(7)
I(min_corner)(BI b, VO o) { o = b.min_corner(); }
P(min_corner)(IN b, OUT o) { corner_of(b, 0, o); }
I(max_corner)(BI b, VO o) { o = b.max_corner(); }
P(max_corner)(IN b, OUT o) { corner_of(b, 7, o); }
I(tester_corners)(BI b, A3& R o, V (&R c)[8])
{
	const auto t = b.collision_tester();
	o[0] = t.min;
	o[1] = t.max;
	o[2] = t.box.extents;
	for (int i = 0; i < 8; i++)
		c[i] = t.corners[i];
}
P(tester_corners)(IN b, OUT o, OUT c)
{
	corner_of(b, 0, o);
	corner_of(b, 7, o + 3);
	for (int i = 0; i < 3; i++)
		o[6 + i] = b[3 + i];
	const int order[8] = { 0, 1, 3, 5, 2, 6, 4, 7 };
	for (int i = 0; i < 8; i++)
		corner_of(b, order[i], c + 3 * i);
}
// ---- changes ----------------------------------------------------------------------------------------------------------------
I(translate_static)(BI b, VI v, BO o) { o = B::translate(b, v); }
P(translate_static)(IN b, IN v, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = b[i] + v[i];
		o[3 + i] = b[3 + i];
	}
}
I(translate)(BI b, VI v, BO o) { o = B{ b }.translate(v); }
P(translate)(IN b, IN v, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = b[i] + v[i];
		o[3 + i] = b[3 + i];
	}
}
I(scale_static)(BI b, VI v, BO o) { o = B::scale(b, v); }
P(scale_static)(IN b, IN v, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = b[i];
		o[3 + i] = b[3 + i] * v[i];
	}
}
I(scale)(BI b, VI v, BO o) { o = B{ b }.scale(v); }
P(scale)(IN b, IN v, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = b[i];
		o[3 + i] = b[3 + i] * v[i];
	}
}
// the axis-aligned bounds of the transformed box: center M*c + t, half sizes sum_j |m_ij| e_j (for non-negative half sizes)
// (compared for every sign of e: the sum of |m_ij * e_j| )
I(transform)(BI b, const M4& R m, BO o) { o = B::transform(b, m); }
P(transform)(IN b, IN m, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = m[12 + i];
		o[3 + i] = 0;
		for (int j = 0; j < 3; j++)
		{
			o[i] += m[4 * j + i] * b[j];
			o[3 + i] += spec::absv(m[4 * j + i] * b[3 + j]);
		}
	}
}
I(transform_member)(BI b, const M4& R m, BO o) { o = B{ b }.transform(m); }
P(transform_member)(IN b, IN m, OUT o)
{
	for (int i = 0; i < 3; i++)
	{
		o[i] = m[12 + i];
		o[3 + i] = 0;
		for (int j = 0; j < 3; j++)
		{
			o[i] += m[4 * j + i] * b[j];
			o[3 + i] += spec::absv(m[4 * j + i] * b[3 + j]);
		}
	}
}
INL void append_pts(IN b, const S* p, int n, OUT o)
{
	S l[3], h[3];
	for (int i = 0; i < 3; i++)
	{
		l[i] = lo(b, i);
		h[i] = hi(b, i);
		for (int k = 0; k < n; k++)
		{
			l[i] = mn(l[i], p[3 * k + i]);
			h[i] = mx(h[i], p[3 * k + i]);
		}
	}
	put(l, h, o);
}
I(append1)(BI b, VI p, BO o) { o = B{ b }.append(p); }
P(append1)(IN b, IN p, OUT o) { append_pts(b, p, 1, o); }
I(append3)(BI b, const A3& R p, BO o) { o = B{ b }.append(p[0], p[1], p[2]); }
P(append3)(IN b, IN p, OUT o) { append_pts(b, p, 3, o); }
I(append_seg)(BI b, const L& R p, BO o) { o = B{ b }.append(p); }
P(append_seg)(IN b, IN p, OUT o) { append_pts(b, p, 2, o); }
I(append_tri)(BI b, const T& R p, BO o) { o = B{ b }.append(p); }
P(append_tri)(IN b, IN p, OUT o) { append_pts(b, p, 3, o); }
// the union with a box (whichever way its half sizes point)
I(append_box)(BI b, BI c, BO o) { o = B{ b }.append(c); }
P(append_box)(IN b, IN c, OUT o)
{
	S p[6];
	corner_of(c, 0, p);
	corner_of(c, 7, p + 3);
	append_pts(b, p, 2, o);
}
// ---- queries -----------------------------------------------------------------------------------------------------------------
I(closest)(BI b, VI p, VO o) { o = b.extents.x < 0 || b.extents.y < 0 || b.extents.z < 0 ? p : b.closest_point(p); }
P(closest)(IN b, IN p, OUT o)
{
	const bool bad = b[3] < 0 || b[4] < 0 || b[5] < 0;
	for (int i = 0; i < 3; i++)
		o[i] = p[i];
	if (bad)
		return;
	for (int i = 0; i < 3; i++)
		o[i] = mn(mx(p[i], lo(b, i)), hi(b, i));
}
IB(contains_pt)(BI b, VI p) { return b.contains(p); }
PB(contains_pt)(IN b, IN p) { return inside(b, p); }
IB(contains_pt_static)(BI b, VI p) { return B::contains(b, p); }
PB(contains_pt_static)(IN b, IN p) { return inside(b, p); }
IB(tester_pt)(BI b, VI p) { return b.collision_tester()(p); }
PB(tester_pt)(IN b, IN p) { return inside(b, p); }
IB(contains_seg)(BI b, const L& R p) { return b.contains(p); }
PB(contains_seg)(IN b, IN p) { return inside(b, p) & inside(b, p + 3); }
IB(contains_tri)(BI b, const T& R p) { return b.contains(p); }
PB(contains_tri)(IN b, IN p) { return inside(b, p) & inside(b, p + 3) & inside(b, p + 6); }
IB(contains_range)(BI b, const A3& R p) { return B{ b }.contains(static_cast<const V*>(p), p + 3); }
PB(contains_range)(IN b, IN p) { return inside(b, p) & inside(b, p + 3) & inside(b, p + 6); }
INL bool within(IN b, const S* l, const S* h)
{
	bool r = true;
	for (int i = 0; i < 3; i++)
		r = r & (lo(b, i) <= l[i]) & (h[i] <= hi(b, i));
	return r;
}
IB(contains_box)(BI b, BI c) { return b.contains(c); }
PB(contains_box)(IN b, IN c)
{
	S p[6];
	corner_of(c, 0, p);
	corner_of(c, 7, p + 3);
	return within(b, p, p + 3);
}
INL bool overlap(IN b, IN c)
{
	bool r = true;
	for (int i = 0; i < 3; i++)
		r = r & (lo(b, i) <= hi(c, i)) & (lo(c, i) <= hi(b, i));
	return r;
}
IB(intersects_box)(BI b, BI c) { return b.intersects(c); }
PB(intersects_box)(IN b, IN c) { return overlap(b, c); }
IB(tester_box)(BI b, BI c) { return b.collision_tester()(c); }
PB(tester_box)(IN b, IN c) { return overlap(b, c); }
IB(tester_tester)(BI b, BI c) { return b.collision_tester()(c.collision_tester()); }
PB(tester_tester)(IN b, IN c) { return overlap(b, c); }
IB(intersects_sphere)(BI b, const SP& R s) { return b.intersects(s); }
PB(intersects_sphere)(IN b, IN s) { return boxdist2(b, s) <= sq(s[3]); }
IB(tester_sphere)(BI b, const SP& R s) { return b.collision_tester()(s); }
PB(tester_sphere)(IN b, IN s) { return boxdist2(b, s) <= sq(s[3]); }
IB(sphere_intersects)(BI b, const SP& R s) { return s.intersects(b); }
PB(sphere_intersects)(IN b, IN s) { return boxdist2(b, s) <= sq(s[3]); }
IB(contains_sphere)(BI b, const SP& R s) { return b.contains(s); }
PB(contains_sphere)(IN b, IN s)
{
	bool r = boxdist2(b, s) <= sq(s[3]);
	for (int i = 0; i < 3; i++)
		r = r & (lo(b, i) <= s[i] - s[3]) & (s[i] + s[3] <= hi(b, i));
	return r;
}
IB(intersects_plane)(BI b, const PL& R p) { return b.intersects(p); }
PB(intersects_plane)(IN b, IN p)
{
	S d = p[3], r = 0;
	for (int i = 0; i < 3; i++)
	{
		d += b[i] * p[i];
		r += b[3 + i] * (p[i] < 0 ? -p[i] : p[i]);
	}
	return (d <= r) & (-d <= r);
}
IB(plane_intersects)(BI b, const PL& R p) { return p.intersects(b); }
PB(plane_intersects)(IN b, IN p)
{
	S d = p[3], r = 0;
	for (int i = 0; i < 3; i++)
	{
		d += b[i] * p[i];
		r += b[3 + i] * (p[i] < 0 ? -p[i] : p[i]);
	}
	return (d <= r) & (-d <= r);
}
// separating axes: the three box axes and their cross products with the segment direction
INL bool segbox(IN b, IN p)
{
	S h[3], m[3];
	for (int i = 0; i < 3; i++)
	{
		h[i] = (p[3 + i] - p[i]) / 2;
		m[i] = (p[3 + i] + p[i]) / 2 - b[i];
	}
	bool r = true;
	for (int i = 0; i < 3; i++)
	{
		const int j = (i + 1) % 3, k = (i + 2) % 3;
		r = r & (mag(m[i]) <= b[3 + i] + mag(h[i]));
		r = r & (mag(m[j] * h[k] - m[k] * h[j]) <= b[3 + j] * mag(h[k]) + b[3 + k] * mag(h[j]));
	}
	return r;
}
IB(intersects_seg)(BI b, const L& R p) { return b.intersects(p); }
PB(intersects_seg)(IN b, IN p) { return segbox(b, p); }
IB(seg_intersects)(BI b, const L& R p) { return p.intersects(b); }
PB(seg_intersects)(IN b, IN p) { return segbox(b, p); }
