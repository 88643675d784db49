// @property C11
// @sources FCollada/FUtils/FUBoundingBox.cpp FCollada/FUtils/FUBoundingSphere.cpp FCollada/FMath/FMMatrix44.cpp FCollada/FMath/FMVector3.cpp
#include "StdAfx.h"
#include "FUtils/FUBoundingBox.h"
#include "FUtils/FUBoundingSphere.h"
#include "fcv.h"

static bool fin(float f) { return (f > -FLT_MAX) & (f < FLT_MAX); }
static FMVector3 vec(const char* name)
{
	float* t = fcv_floats(name, 3); FMVector3 v(t[0], t[1], t[2]);
	for (u32 i = 0; i < 3; ++i) { fcv_assume(t[i] > -FLT_MAX); fcv_assume(t[i] < FLT_MAX); }
#ifndef FCV_SYM
	fcv_assume(fabs(v.x) < 1e4 && fabs(v.y) < 1e4 && fabs(v.z) < 1e4);
#endif
	return v;
}
static FUBoundingBox box(const char* name)		// any box, also an empty one
{
	FUBoundingBox b;
	if (fcv_bool("reset")) return b;
	b.SetMin(vec(name)); b.SetMax(vec(name));
	return b;
}
static FUBoundingBox fullbox(const char* name)
{
	FMVector3 n = vec(name), x = vec(name);
#ifndef FCV_SYM
	if (n.x > x.x) { float t = n.x; n.x = x.x; x.x = t; } if (n.y > x.y) { float t = n.y; n.y = x.y; x.y = t; } if (n.z > x.z) { float t = n.z; n.z = x.z; x.z = t; }
#endif
	fcv_assume(n.x <= x.x); fcv_assume(n.y <= x.y); fcv_assume(n.z <= x.z);
	return FUBoundingBox(n, x);
}
static bool in(const FMVector3& n, const FMVector3& x, const FMVector3& p) { return (n.x <= p.x) & (p.x <= x.x) & (n.y <= p.y) & (p.y <= x.y) & (n.z <= p.z) & (p.z <= x.z); }
static bool eq(const FMVector3& a, const FMVector3& b) { return (a.x == b.x) & (a.y == b.y) & (a.z == b.z); }
static float lo(float a, float b) { return a < b ? a : b; }
static float hi(float a, float b) { return a > b ? a : b; }
static FMVector3 lo3(const FMVector3& a, const FMVector3& b) { return FMVector3(lo(a.x, b.x), lo(a.y, b.y), lo(a.z, b.z)); }
static FMVector3 hi3(const FMVector3& a, const FMVector3& b) { return FMVector3(hi(a.x, b.x), hi(a.y, b.y), hi(a.z, b.z)); }

FCV_UNIT(box_state, "fmode=real")
{
	FUBoundingBox e, b = fullbox("b"), c(b), r(b);
	FMVector3 p = vec("p");
	fcv_check(!e.IsValid() && !e.Contains(p) && !e.Overlaps(b) && !b.Overlaps(e) && !e.Overlaps(e), "a new box is empty");
	fcv_check(b.IsValid() && c.Equals(b) && b.Equals(c), "a copied box equals the original");
	fcv_check(eq(c.GetMin(), b.GetMin()) && eq(c.GetMax(), b.GetMax()), "a copied box has the same bounds");
	r.Reset();
	fcv_check(!r.IsValid() && r.Equals(e), "a reset box is empty");
	FMVector3 n = vec("n"), x = vec("n");
	r.SetMin(n); r.SetMax(x);
	fcv_check(eq(r.GetMin(), n) && eq(r.GetMax(), x), "bounds that were set are reported");
	fcv_check(r.IsValid() == (n.x <= x.x && n.y <= x.y && n.z <= x.z), "a box is valid when no minimum exceeds its maximum");
	fcv_check(r.Contains(p) == in(n, x, p), "containment is the coordinate-wise condition");
	fcv_check(r.Equals(b) == (eq(n, b.GetMin()) && eq(x, b.GetMax())), "boxes are equal when all bounds agree");
	fcv_check(FUBoundingBox::Infinity.Contains(p), "the infinite box contains everything");
}
FCV_UNIT(box_include_point, "fmode=real")
{
	FUBoundingBox b = fcv_bool("new") ? FUBoundingBox() : fullbox("b"), old(b);
	FMVector3 p = vec("p"), q = vec("q");
	bool had = b.Contains(q);
	b.Include(p);
	fcv_check(b.IsValid(), "a box that includes a point is valid");
	fcv_check(b.Contains(p), "an included point is contained");
	fcv_check(!had || b.Contains(q), "everything contained before stays contained");
	fcv_check(eq(b.GetMin(), lo3(old.GetMin(), p)) && eq(b.GetMax(), hi3(old.GetMax(), p)), "including a point grows the box no further than needed");
	FUBoundingBox twice(b); twice.Include(p);
	fcv_check(twice.Equals(b), "including a contained point changes nothing");
}
FCV_UNIT(box_include_box, "fmode=real")
{
	FUBoundingBox b = fcv_bool("new") ? FUBoundingBox() : fullbox("b"), c = fcv_bool("newc") ? FUBoundingBox() : fullbox("c"), old(b), c0(c);
	FMVector3 q = vec("q");
	bool had = old.Contains(q) || c.Contains(q);
	b.Include(c);
	fcv_check(!had || b.Contains(q), "a box contains what it contained before and everything in the included box");
	fcv_check(c.Equals(c0), "the included box is unchanged");
	fcv_check(eq(b.GetMin(), lo3(old.GetMin(), c.GetMin())) && eq(b.GetMax(), hi3(old.GetMax(), c.GetMax())), "including a box grows no further than needed");
	FUBoundingBox s(old); s.Include(s);
	fcv_check(s.Equals(old), "including a box in itself changes nothing");
}
FCV_UNIT(box_overlap, "fmode=real")
{
	FUBoundingBox a = fullbox("a"), b = fullbox("b");
	FMVector3 n = hi3(a.GetMin(), b.GetMin()), x = lo3(a.GetMax(), b.GetMax()), q = vec("q");
	bool common = (n.x <= x.x) && (n.y <= x.y) && (n.z <= x.z);
	bool ab = a.Overlaps(b), ba = b.Overlaps(a);
	fcv_check(ab == ba, "box overlap is symmetric");
	fcv_check(!(a.Contains(q) && b.Contains(q)) || ab, "boxes with a common point overlap");
	fcv_check(ab == common, "boxes overlap exactly when their coordinate ranges do");
	if (ab) fcv_check(a.Contains(n) && b.Contains(n), "overlapping boxes have a common point");
}
FCV_UNIT(box_overlap_center, "fmode=real")
{
	FUBoundingBox a = fullbox("a"), b = fullbox("b");
	FMVector3 n = hi3(a.GetMin(), b.GetMin()), x = lo3(a.GetMax(), b.GetMax()), c(7, 8, 9);
	bool r = a.Overlaps(b, &c);
	fcv_check(r == a.Overlaps(b), "asking for the centre does not change the answer");
	if (r)
	{
		fcv_check(fcv_same(c.x, ((double) n.x + x.x) / 2, 1) && fcv_same(c.y, ((double) n.y + x.y) / 2, 1) && fcv_same(c.z, ((double) n.z + x.z) / 2, 1), "the centre of the overlap is the centre of the common box");
		fcv_check(fcv_same(a.GetCenter().x, ((double) a.GetMin().x + a.GetMax().x) / 2, 1) && fcv_same(a.GetCenter().y, ((double) a.GetMin().y + a.GetMax().y) / 2, 1) && fcv_same(a.GetCenter().z, ((double) a.GetMin().z + a.GetMax().z) / 2, 1), "the centre of a box");
	}
	else fcv_check(eq(c, FMVector3(7, 8, 9)), "no centre is given without overlap");
}
#ifdef FCV_SYM
static bool inside(const FUBoundingBox& b, const FMVector3& p) { return in(b.GetMin(), b.GetMax(), p); }
static bool within(const FMVector3& p, const FMVector3& c, double r) { double x = (double) p.x - c.x, y = (double) p.y - c.y, z = (double) p.z - c.z; return r >= 0 && x * x + y * y + z * z <= r * r; }
static bool strictly(const FMVector3& p, const FMVector3& c, double r) { double x = (double) p.x - c.x, y = (double) p.y - c.y, z = (double) p.z - c.z; return r >= 0 && x * x + y * y + z * z < r * r; }
#else
static double tol(const FMVector3& p) { return 1e-3 * (1 + fabs(p.x) + fabs(p.y) + fabs(p.z)); }
static bool inside(const FUBoundingBox& b, const FMVector3& p) { double t = tol(p) + tol(b.GetMin()) + tol(b.GetMax()); const FMVector3 &n = b.GetMin(), &x = b.GetMax(); return n.x - t <= p.x && p.x <= x.x + t && n.y - t <= p.y && p.y <= x.y + t && n.z - t <= p.z && p.z <= x.z + t; }
static double dist(const FMVector3& p, const FMVector3& c) { double x = (double) p.x - c.x, y = (double) p.y - c.y, z = (double) p.z - c.z; return sqrt(x * x + y * y + z * z); }
static bool within(const FMVector3& p, const FMVector3& c, double r) { return dist(p, c) <= r + 1e-3 * fabs(r) + tol(p) + tol(c); }
static bool strictly(const FMVector3& p, const FMVector3& c, double r) { return dist(p, c) < r - 1e-3 * fabs(r) - tol(p) - tol(c); }
#endif
static FMMatrix44 affine(const char* name)
{
	FMMatrix44 m; float* t = fcv_floats(name, 16);
	for (u32 c = 0; c < 4; ++c) for (u32 r = 0; r < 4; ++r)
	{
		float f = t[c * 4 + r]; 
#ifndef FCV_SYM
		if (!(f > -100 && f < 100)) f = 1;
#endif
		m.m[c][r] = f;
	}
	return m;
}
FCV_UNIT(box_transform_corners, "fmode=real")
{
	FUBoundingBox b = fullbox("b"), old(b); FMMatrix44 m = affine("m");
	FUBoundingBox t = b.Transform(m);
	u32 k = fcv_small("corner", 0, 7);
	FMVector3 c(k & 1 ? b.GetMin().x : b.GetMax().x, k & 2 ? b.GetMin().y : b.GetMax().y, k & 4 ? b.GetMin().z : b.GetMax().z);
	fcv_check(inside(t, m.TransformCoordinate(c)), "a transformed box encloses the images of its corners");
	fcv_check(b.Equals(old), "transforming leaves the box unchanged");
}
FCV_UNIT(box_transform_tight, "fmode=real;search=4;native")
{
	// the image box is no larger than the images of the corners
	FUBoundingBox b = fullbox("b"); FMMatrix44 m = affine("m");
	FUBoundingBox t = b.Transform(m);
	FMVector3 n(FLT_MAX, FLT_MAX, FLT_MAX), x(-FLT_MAX, -FLT_MAX, -FLT_MAX);
	for (u32 k = 0; k < 8; ++k)
	{
		FMVector3 c = m.TransformCoordinate(FMVector3(k & 1 ? b.GetMin().x : b.GetMax().x, k & 2 ? b.GetMin().y : b.GetMax().y, k & 4 ? b.GetMin().z : b.GetMax().z));
		n = lo3(n, c); x = hi3(x, c);
	}
	fcv_check(eq(t.GetMin(), n) && eq(t.GetMax(), x), "a transformed box is the box around the images of its corners");
}
FCV_UNIT(box_transform_special, "fmode=real")
{
	FMMatrix44 m = affine("m"); FUBoundingBox e;
	fcv_check(!e.Transform(m).IsValid(), "an empty box stays empty");
	fcv_check(FUBoundingBox::Infinity.Transform(m).Equals(FUBoundingBox::Infinity), "the infinite box stays infinite");
}
static float rad(const char* name)
{
	float r = fcv_float(name); fcv_assume(fin(r));
#ifndef FCV_SYM
	if (r < 0) r = -r; fcv_assume(r < 1e4);
#endif
	fcv_assume(r >= 0); return r;
}
FCV_UNIT(sphere_state, "fmode=real")
{
	FUBoundingSphere e, s(vec("c"), rad("r")), c(s), r(s);
	FMVector3 p = vec("p");
	fcv_check(!e.IsValid() && !e.Contains(p), "a new sphere is empty");
	fcv_check(!e.Overlaps(s) && !s.Overlaps(e) && !e.Overlaps(e), "nothing overlaps an empty sphere");
	fcv_check(!e.Overlaps(fullbox("b")) , "an empty sphere overlaps no box");
	fcv_check(s.IsValid() && eq(c.GetCenter(), s.GetCenter()) && c.GetRadius() == s.GetRadius(), "a copied sphere has the same centre and radius");
	r.Reset();
	fcv_check(!r.IsValid(), "a reset sphere is empty");
	r.SetCenter(p); r.SetRadius(3.0f);
	fcv_check(eq(r.GetCenter(), p) && r.GetRadius() == 3.0f && r.IsValid(), "centre and radius that were set are reported");
}
FCV_UNIT(sphere_contains, "fmode=real")
{
	FUBoundingSphere s(vec("c"), rad("r")); FMVector3 p = vec("p");
	double x = (double) p.x - s.GetCenter().x, y = (double) p.y - s.GetCenter().y, z = (double) p.z - s.GetCenter().z, d2 = x * x + y * y + z * z, r2 = (double) s.GetRadius() * s.GetRadius();
#ifndef FCV_SYM
	fcv_assume(fabs(d2 - r2) > 2e-3 * (d2 + r2) + tol(p) + tol(s.GetCenter()) + 1e-3);
#endif
	bool c = s.Contains(p);
	if (d2 <= r2) fcv_check(c, "points no further than the radius are contained");
	if (d2 >= r2 + 0.001) fcv_check(!c, "points clearly further than the radius are not contained");
}
FCV_UNIT(sphere_include_point, "fmode=real")
{
	FUBoundingSphere s(vec("c"), rad("r")), e; FMVector3 p = vec("p"), q = vec("q"), c0 = s.GetCenter(); double r0 = s.GetRadius();
	bool had = strictly(q, c0, r0) || (FCV_NATIVE == 0 && within(q, c0, r0));
	s.Include(p);
	fcv_check(within(p, s.GetCenter(), s.GetRadius()), "an included point is contained");
	fcv_check(!had || within(q, s.GetCenter(), s.GetRadius()), "everything contained before stays contained");
	e.Include(p);
	fcv_check(e.IsValid() && eq(e.GetCenter(), p) && e.GetRadius() == 0.0f, "an empty sphere includes just the point");
}
FCV_UNIT(sphere_include_sphere, "fmode=real;poly_s=20")
{
	FUBoundingSphere s(vec("c"), rad("r")), t(vec("d"), rad("s")), s0(s), e, w(t);
	s.Include(t);
	double dx = (double) s.GetCenter().x - s0.GetCenter().x, dy = (double) s.GetCenter().y - s0.GetCenter().y, dz = (double) s.GetCenter().z - s0.GetCenter().z;
	double ex = (double) s.GetCenter().x - t.GetCenter().x, ey = (double) s.GetCenter().y - t.GetCenter().y, ez = (double) s.GetCenter().z - t.GetCenter().z;
	double R = s.GetRadius(), a = s0.GetRadius(), b = t.GetRadius(), k = FCV_NATIVE ? 0.01 + 0.002 * (a + b + R + 40 * (FCV_NATIVE ? 1 : 0)) : 0;
#ifndef FCV_SYM
	k += 2e-3 * (fabs(s0.GetCenter().x) + fabs(s0.GetCenter().y) + fabs(s0.GetCenter().z) + fabs(t.GetCenter().x) + fabs(t.GetCenter().y) + fabs(t.GetCenter().z));
#endif
	fcv_check(R + k >= a && R + k >= b, "the enclosing sphere is no smaller than either");
	// |centre - old centre| <= R - radius: the old sphere is inside
	double q = dx * dx + dy * dy + dz * dz, qq = (R - a + k) * (R - a + k), u = ex * ex + ey * ey + ez * ez, v = (R - b + k) * (R - b + k);
	if (q != qq) fcv_check(q <= qq, "the sphere contained before stays contained");
	if (u != v) fcv_check(u <= v, "the included sphere is contained");
	e.Include(t);
	fcv_check(eq(e.GetCenter(), t.GetCenter()) && e.GetRadius() == t.GetRadius(), "an empty sphere becomes the included one");
	FUBoundingSphere n; w.Include(n);
	fcv_check(eq(w.GetCenter(), t.GetCenter()) && w.GetRadius() == t.GetRadius(), "including an empty sphere has no effect");
}
FCV_UNIT(sphere_include_box, "fmode=real;search=4;feas_ms=100")
{
	FUBoundingSphere s(vec("c"), rad("r")), s0(s), e, w(s); FUBoundingBox b = fullbox("b"), nb;
	u32 k = fcv_small("corner", 0, 7);
	FMVector3 c(k & 1 ? b.GetMin().x : b.GetMax().x, k & 2 ? b.GetMin().y : b.GetMax().y, k & 4 ? b.GetMin().z : b.GetMax().z);
	s.Include(b);
	fcv_check(within(c, s.GetCenter(), s.GetRadius()), "the corners of an included box are contained");
	fcv_check(eq(s.GetCenter(), s0.GetCenter()) && s.GetRadius() >= s0.GetRadius(), "everything contained before stays contained");
	e.Include(b);
	fcv_check(within(c, e.GetCenter(), e.GetRadius()), "an empty sphere includes the whole box");
	w.Include(nb);
	fcv_check(eq(w.GetCenter(), s0.GetCenter()) && w.GetRadius() == s0.GetRadius(), "including an empty box has no effect");
}
FCV_UNIT(sphere_overlap, "fmode=real")
{
	FUBoundingSphere s(vec("c"), rad("r")), t(vec("d"), rad("s")); FMVector3 p = vec("p");
	double x = (double) s.GetCenter().x - t.GetCenter().x, y = (double) s.GetCenter().y - t.GetCenter().y, z = (double) s.GetCenter().z - t.GetCenter().z, d2 = x * x + y * y + z * z, r = (double) s.GetRadius() + t.GetRadius();
#ifndef FCV_SYM
	fcv_assume(fabs(d2 - r * r) > 2e-3 * (d2 + r * r) + tol(s.GetCenter()) + tol(t.GetCenter()));
#endif
	bool st = s.Overlaps(t), ts = t.Overlaps(s);
	fcv_check(st == ts, "sphere overlap is symmetric");
	fcv_check(st == (d2 < r * r), "spheres overlap exactly when the centres are closer than the sum of the radii");
}
FCV_UNIT(sphere_overlap_center, "fmode=real;poly_s=20")
{
	FUBoundingSphere s(vec("c"), rad("r")), t(vec("d"), rad("s")); FMVector3 c(7, 8, 9);
	if (!s.Overlaps(t, &c)) { fcv_check(eq(c, FMVector3(7, 8, 9)), "no centre is given without overlap"); return; }
	fcv_check((s.GetCenter() - t.GetCenter()).Length() <= s.GetRadius() + t.GetRadius() + (FCV_NATIVE ? 0.1 : 0) + (FCV_NATIVE ? 0.01 : 0) * (s.GetRadius() + t.GetRadius()), "overlapping spheres are closer than the sum of the radii");
	fcv_check(within(c, s.GetCenter(), s.GetRadius()), "the centre of the overlap lies in the first sphere");
	fcv_check(within(c, t.GetCenter(), t.GetRadius()), "the centre of the overlap lies in the second sphere");
}
FCV_UNIT(sphere_box_overlap, "fmode=real")
{
	FUBoundingSphere s(vec("c"), rad("r")); FUBoundingBox b = fullbox("b"); FMVector3 p = vec("p"), k(7, 8, 9), k2(7, 8, 9);
	const FMVector3 &c = s.GetCenter(), &n = b.GetMin(), &x = b.GetMax();
	FMVector3 near(c.x < n.x ? n.x : c.x > x.x ? x.x : c.x, c.y < n.y ? n.y : c.y > x.y ? x.y : c.y, c.z < n.z ? n.z : c.z > x.z ? x.z : c.z);
	double dx = (double) near.x - c.x, dy = (double) near.y - c.y, dz = (double) near.z - c.z, d2 = dx * dx + dy * dy + dz * dz, r2 = (double) s.GetRadius() * s.GetRadius();
#ifndef FCV_SYM
	fcv_assume(fabs(d2 - r2) > 2e-3 * (d2 + r2) + tol(c) + tol(near));
#endif
	bool sb = s.Overlaps(b, &k), bs = b.Overlaps(s, &k2);
	fcv_check(sb == bs && eq(k, k2), "overlap of sphere and box is symmetric");
	fcv_check(sb == (d2 < r2), "a sphere overlaps a box exactly when the nearest point of the box is closer than the radius");
	if (sb) fcv_check(fcv_same(k.x, near.x, 1) && fcv_same(k.y, near.y, 1) && fcv_same(k.z, near.z, 1), "the reported point is the nearest point of the box");
	else fcv_check(eq(k, FMVector3(7, 8, 9)), "no point is given without overlap");
}
FCV_UNIT(sphere_transform, "fmode=real;poly_s=10;budget=60")
{
	// rotations with any scale along the axes (orthogonal columns)
	FUBoundingSphere s(vec("c"), rad("r")), s0(s); FMMatrix44 m = affine("m");
#ifndef FCV_SYM
	{ FMMatrix44 q = FMMatrix44::EulerRotationMatrix(FMVector3(m.m[3][3], m.m[0][3], m.m[1][3])); for (int i = 0; i < 3; ++i) { float k = m.m[i][i]; for (int j = 0; j < 3; ++j) m.m[i][j] = q.m[i][j] * k; } }
#else
	for (u32 i = 0; i < 3; ++i) for (u32 j = 0; j < i; ++j) fcv_assume((double) m.m[i][0] * m.m[j][0] + (double) m.m[i][1] * m.m[j][1] + (double) m.m[i][2] * m.m[j][2] == 0);
#endif
	FUBoundingSphere t = s.Transform(m);
	fcv_check(t.IsValid() && eq(t.GetCenter(), m.TransformCoordinate(s.GetCenter())), "the transformed sphere is around the image of the centre");
	for (u32 i = 0; i < 3; ++i)
	{
		double l2 = (double) m.m[i][0] * m.m[i][0] + (double) m.m[i][1] * m.m[i][1] + (double) m.m[i][2] * m.m[i][2], R = t.GetRadius(), r = s.GetRadius();
		fcv_check(R * R * (FCV_NATIVE ? 1.01 : 1) + (FCV_NATIVE ? 0.01 : 0) >= r * r * l2, "the radius grows with the largest scale");
	}
#ifndef FCV_SYM
	FMVector3 d = vec("p"); double l = d.Length(); fcv_assume(l > 0.01);
	FMVector3 p(s.GetCenter().x + d.x * s.GetRadius() / l, s.GetCenter().y + d.y * s.GetRadius() / l, s.GetCenter().z + d.z * s.GetRadius() / l);
	FMVector3 im = m.TransformCoordinate(p); double mag = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) mag += fabs(m.m[i][j]);
	fcv_check(dist(im, t.GetCenter()) <= t.GetRadius() * 1.01 + 1e-3 * (mag + 1) * (1 + fabs(p.x) + fabs(p.y) + fabs(p.z)), "points of the sphere are mapped into the transformed sphere");
	FUBoundingSphere e; fcv_check(!e.Transform(m).IsValid(), "an empty sphere stays empty");
#endif
	fcv_check(eq(s.GetCenter(), s0.GetCenter()) && s.GetRadius() == s0.GetRadius(), "transforming leaves the sphere unchanged");
}
