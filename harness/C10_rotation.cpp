// @property C10
// @sources FCollada/FMath/FMMatrix44.cpp FCollada/FMath/FMMatrix33.cpp FCollada/FMath/FMVector3.cpp FCollada/FMath/FMQuaternion.cpp FCollada/FMath/FMAngleAxis.cpp
#include "StdAfx.h"
#include "FMath/FMQuaternion.h"
#include "FMath/FMAngleAxis.h"
#include "fcv.h"

#ifdef FCV_SYM
static void unit3(FMVector3& v) { fcv_assume(v.x * v.x + v.y * v.y + v.z * v.z == 1.0f); }
static void unit4(FMQuaternion& q) { fcv_assume(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w == 1.0f); }
static float turn(const char* name) { return fcv_float(name); }
#else
static double lim(double d) { return d > -1e3 && d < 1e3 ? d : 1; }
static void unit3(FMVector3& v) { double x = lim(v.x), y = lim(v.y), z = lim(v.z), l = sqrt(x * x + y * y + z * z); fcv_assume(l > 1e-3); v = FMVector3((float) (x / l), (float) (y / l), (float) (z / l)); }
static void unit4(FMQuaternion& q) { double x = lim(q.x), y = lim(q.y), z = lim(q.z), w = lim(q.w), l = sqrt(x * x + y * y + z * z + w * w); fcv_assume(l > 1e-3); q = FMQuaternion((float) (x / l), (float) (y / l), (float) (z / l), (float) (w / l)); }
static float turn(const char* name) { double d = fcv_float(name); return d > -10 && d < 10 ? (float) d : (float) fmod(lim(d), 6.0); }
#endif
static FMVector3 vec(const char* name) { float* t = fcv_floats(name, 3); FMVector3 v(t[0], t[1], t[2]);
#ifndef FCV_SYM
	v = FMVector3((float) lim(v.x), (float) lim(v.y), (float) lim(v.z));
#endif
	return v; }
static FMQuaternion quat(const char* name) { float* t = fcv_floats(name, 4); return FMQuaternion(t[0], t[1], t[2], t[3]); }
static double dabs(double x) { return x < 0 ? -x : x; }
static bool same3(const FMVector3& a, double x, double y, double z, double s) { return fcv_same(a.x, x, s) && fcv_same(a.y, y, s) && fcv_same(a.z, z, s); }
static double size3(const FMVector3& v) { return dabs(v.x) + dabs(v.y) + dabs(v.z) + 1; }
static bool same_linear(const FMMatrix44& a, const FMMatrix44& b) { bool r = true; for (u32 i = 0; i < 4; ++i) for (u32 j = 0; j < 4; ++j) r = r & fcv_same(a.m[i][j], b.m[i][j], 1); return r; }
static void check_same(const FMMatrix44& a, const FMMatrix44& b, const char* what) { for (u32 i = 0; i < 4; ++i) for (u32 j = 0; j < 4; ++j) fcv_check(fcv_same(a.m[i][j], b.m[i][j], 1), what); }
static void check_rotation(const FMMatrix44& m, const char* what)
{
	// orthonormal columns, determinant one, no translation
	for (u32 i = 0; i < 3; ++i) for (u32 j = 0; j <= i; ++j)
		fcv_check(fcv_same((double) m.m[i][0] * m.m[j][0] + (double) m.m[i][1] * m.m[j][1] + (double) m.m[i][2] * m.m[j][2], i == j ? 1 : 0, 1), what);
	fcv_check(fcv_same(m.Determinant(), 1, 1), what);
	for (u32 i = 0; i < 3; ++i) fcv_check(m.m[i][3] == 0 && m.m[3][i] == 0, what);
	fcv_check(m.m[3][3] == 1, what);
}
// the right-handed rotation by an angle about a unit axis (Rodrigues)
static void check_turns(const FMMatrix44& m, const FMVector3& a, double c, double s, const FMVector3& v, const char* what)
{
	double d = (double) a.x * v.x + (double) a.y * v.y + (double) a.z * v.z;
	double x = (double) a.y * v.z - (double) a.z * v.y, y = (double) a.z * v.x - (double) a.x * v.z, z = (double) a.x * v.y - (double) a.y * v.x;
	FMVector3 r = m.TransformVector(v);
	fcv_check(same3(r, v.x * c + x * s + a.x * d * (1 - c), v.y * c + y * s + a.y * d * (1 - c), v.z * c + z * s + a.z * d * (1 - c), size3(v)), what);
}
FCV_UNIT(axis_rotation, "fmode=real")
{
	FMVector3 a = vec("a"), v = vec("v"); unit3(a); float t = turn("t");
	FMMatrix44 m = FMMatrix44::AxisRotationMatrix(a, t);
	check_turns(m, a, cosf(t), sinf(t), v, "a unit axis and an angle give the right-handed rotation about the axis");
	check_rotation(m, "rotation matrices are orthonormal with determinant one");
	fcv_check(same3(m.TransformVector(a), a.x, a.y, a.z, 1), "the axis is left fixed");
}
FCV_UNIT(axis_rotation_normalises, "fmode=real")
{
	FMVector3 a = vec("a"), v = vec("v"); float t = turn("t");
	double l2 = (double) a.x * a.x + (double) a.y * a.y + (double) a.z * a.z;
	fcv_assume(l2 > 1.1 || (l2 < 0.9 && l2 > 0.0001));
	FMVector3 n = a.Normalize();
	FMMatrix44 m = FMMatrix44::AxisRotationMatrix(a, t);
	check_turns(m, n, cosf(t), sinf(t), v, "an axis of any length gives the rotation about its direction");
}
FCV_UNIT(coordinate_axis_rotations, "fmode=real")
{
	float t = turn("t"); u32 k = fcv_small("k", 0, 2);
	FMVector3 v = vec("v"), a = k == 0 ? FMVector3::XAxis : k == 1 ? FMVector3::YAxis : FMVector3::ZAxis;
	FMMatrix44 m = k == 0 ? FMMatrix44::XAxisRotationMatrix(t) : k == 1 ? FMMatrix44::YAxisRotationMatrix(t) : FMMatrix44::ZAxisRotationMatrix(t);
	check_turns(m, a, cosf(t), sinf(t), v, "coordinate axis rotations are right-handed");
	check_rotation(m, "coordinate axis rotations are orthonormal with determinant one");
	check_same(m, FMMatrix44::AxisRotationMatrix(a, t), "coordinate axis rotations agree with the general rotation");
	for (u32 c = 0; c < 4; ++c) for (u32 r = 0; r < 4; ++r) fcv_check(FMMatrix44::Identity.m[c][r] == (c == r ? 1.0f : 0.0f), "the shared identity matrix is never modified");
}
FCV_UNIT(euler_matrix, "fmode=real")
{
	u32 z = fcv_small("zero", 0, 7);
	float x = z & 1 ? 0.0f : turn("x"), y = z & 2 ? 0.0f : turn("y"), w = z & 4 ? 0.0f : turn("z");
	fcv_assume((z & 1 || x > 0.001f || x < -0.001f) && (z & 2 || y > 0.001f || y < -0.001f) && (z & 4 || w > 0.001f || w < -0.001f));
	FMMatrix44 m = FMMatrix44::EulerRotationMatrix(FMVector3(x, y, w));
	check_same(m, FMMatrix44::XAxisRotationMatrix(x) * FMMatrix44::YAxisRotationMatrix(y) * FMMatrix44::ZAxisRotationMatrix(w), "Euler angles turn about z, then y, then x");
}
static void half_angle(float h)
{
	fcv_axiom(cosf(2 * h) == 1 - 2 * sinf(h) * sinf(h), "double-angle formula of the cosine");
	fcv_axiom(sinf(2 * h) == 2 * sinf(h) * cosf(h), "double-angle formula of the sine");
}
FCV_UNIT(quaternion_of_axis_angle, "fmode=real")
{
	FMVector3 a = vec("a"), v = vec("v"); unit3(a); float h = turn("h");
	half_angle(h);
	FMQuaternion q(a, 2 * h);
	fcv_check(fcv_same(q.LengthSquared(), 1, 1), "the quaternion of a unit axis and an angle is a unit quaternion");
	check_same(q.ToMatrix(), FMMatrix44::AxisRotationMatrix(a, 2 * h), "the quaternion of an axis and angle is the rotation of that axis and angle");
}
FCV_UNIT(quaternion_matrix, "fmode=real")
{
	FMQuaternion q = quat("q"); FMVector3 v = vec("v");
#ifndef FCV_SYM
	q = FMQuaternion((float) lim(q.x), (float) lim(q.y), (float) lim(q.z), (float) lim(q.w));
#endif
	double l2 = (double) q.x * q.x + (double) q.y * q.y + (double) q.z * q.z + (double) q.w * q.w;
	fcv_assume(l2 > 0.0001);
	FMMatrix44 m = q.ToMatrix();
	check_rotation(m, "the matrix of a non-zero quaternion is a rotation");
	FMVector3 u(q.x, q.y, q.z);
	fcv_check(same3(m.TransformVector(u), u.x, u.y, u.z, size3(u)), "the vector part is left fixed");
	FMMatrix44 n; for (u32 i = 0; i < 4; ++i) for (u32 j = 0; j < 4; ++j) n.m[i][j] = 7.0f;
	q.SetToMatrix(n);
	for (u32 i = 0; i < 3; ++i) for (u32 j = 0; j < 3; ++j) fcv_check(fcv_same(n.m[i][j], m.m[i][j], 1), "the rotation part of an existing matrix is overwritten");
	for (u32 i = 0; i < 3; ++i) fcv_check(n.m[3][i] == 7.0f, "the position of an existing matrix is kept");
}
FCV_UNIT(quaternion_product, "fmode=real")
{
	FMQuaternion a = quat("a"), b = quat("b"); unit4(a); unit4(b);
	FMQuaternion a0(a), b0(b), c = a * b, d(a); d *= b;
	fcv_check(fcv_same(c.LengthSquared(), 1, 1), "the product of unit quaternions is a unit quaternion");
	check_same(c.ToMatrix(), b.ToMatrix() * a.ToMatrix(), "a product turns by its left factor first, then by its right factor");
	fcv_check(d.x == c.x && d.y == c.y && d.z == c.z && d.w == c.w, "multiplication in place agrees with the product");
	fcv_check(a.x == a0.x && a.y == a0.y && a.z == a0.z && a.w == a0.w && b.x == b0.x && b.y == b0.y && b.z == b0.z && b.w == b0.w, "the product leaves its operands unchanged");
}
FCV_UNIT(quaternion_product_associative, "fmode=real;nosearch")
{
	FMQuaternion a = quat("a"), b = quat("b"), c = quat("c");
	FMQuaternion l = (a * b) * c, r = a * (b * c);
	fcv_check(l.x == r.x && l.y == r.y && l.z == r.z && l.w == r.w, "the quaternion product is associative");
	FMQuaternion i = FMQuaternion::Identity * a, j = a * FMQuaternion::Identity;
	fcv_check(i.x == a.x && i.y == a.y && i.z == a.z && i.w == a.w && j.x == a.x && j.y == a.y && j.z == a.z && j.w == a.w, "the identity is neutral");
}
FCV_UNIT(quaternion_conjugate, "fmode=real")
{
	FMQuaternion a = quat("a"), b = quat("b"); FMVector3 v = vec("v"); unit4(a); unit4(b);
	FMQuaternion c = ~a, p = a * c, q = c * a;
	fcv_check(fcv_same(p.x, 0, 1) && fcv_same(p.y, 0, 1) && fcv_same(p.z, 0, 1) && fcv_same(p.w, 1, 1), "the conjugate undoes the rotation from the right");
	fcv_check(fcv_same(q.x, 0, 1) && fcv_same(q.y, 0, 1) && fcv_same(q.z, 0, 1) && fcv_same(q.w, 1, 1), "the conjugate undoes the rotation from the left");
	check_same(c.ToMatrix(), a.ToMatrix().Transposed(), "the conjugate's matrix is the transposed matrix");
	FMVector3 r = c * (a * v), s = (a * b) * v, t = a * (b * v);
	fcv_check(same3(r, v.x, v.y, v.z, size3(v)), "turning a vector by a quaternion and its conjugate restores it");
	fcv_check(same3(s, t.x, t.y, t.z, size3(v)), "turning a vector by a product is turning by the right factor, then by the left");
	FMVector3 u = a * v, w = a.ToMatrix().Transposed().TransformVector(v);
	fcv_check(same3(u, w.x, w.y, w.z, size3(v)), "turning a vector agrees with the matrix (in the library's left-multiplication convention)");
}
FCV_UNIT(quaternion_normalise, "fmode=real;budget=60")
{
	FMQuaternion q = quat("q");
#ifndef FCV_SYM
	q = FMQuaternion((float) lim(q.x), (float) lim(q.y), (float) lim(q.z), (float) lim(q.w));
#endif
	double l2 = (double) q.x * q.x + (double) q.y * q.y + (double) q.z * q.z + (double) q.w * q.w;
	fcv_check(fcv_same(q.LengthSquared(), l2, 1) && fcv_same((double) q.Length() * q.Length(), l2, 1), "quaternion length");
	fcv_assume(l2 > 0.0001);
	FMQuaternion n = q.Normalize(), m(q); m.NormalizeIt();
	double l = q.Length();
	for (u32 i = 0; i < 4; ++i) fcv_check(fcv_same(n[i], q[i] / l, 1) && fcv_same(m[i], q[i] / l, 1), "normalising keeps the direction");
	fcv_check(fcv_same(n.LengthSquared(), 1, 1), "normalised quaternions have length one");
	fcv_check(fcv_same(m.LengthSquared(), 1, 1), "quaternions normalised in place have length one");
}
FCV_UNIT(quaternion_of_matrix, "fmode=real")
{
	FMQuaternion q = quat("q"); unit4(q);
#ifndef FCV_SYM
	if (fabs(q.w) < 0.05) { q.w = 0; unit4(q); }	// float rounding of 1 + trace; the proof covers these
#endif
	FMQuaternion p = FMQuaternion::MatrixRotationQuaternion(q.ToMatrix());
	for (u32 i = 0; i < 4; ++i) for (u32 j = 0; j <= i; ++j) fcv_check(fcv_same((double) p[i] * p[j], (double) q[i] * q[j], 1), "the quaternion of a quaternion's matrix is that quaternion or its opposite");
}
FCV_UNIT(quaternion_of_euler, "fmode=real")
{
	float x = turn("x"), y = turn("y"), z = turn("z");
	half_angle(x); half_angle(y); half_angle(z);
	FMQuaternion q = FMQuaternion::EulerRotationQuaternion(2 * x, 2 * y, 2 * z);
	check_same(q.ToMatrix(), FMMatrix44::XAxisRotationMatrix(2 * x) * FMMatrix44::YAxisRotationMatrix(2 * y) * FMMatrix44::ZAxisRotationMatrix(2 * z), "Euler angles give the same rotation as quaternion and as matrix");
}
FCV_UNIT(quaternion_to_euler, "fmode=real;poly_s=10;budget=60")
{
	FMQuaternion q = quat("q"); unit4(q);
	double sy = 2 * ((double) q.x * q.z + (double) q.y * q.w);
	fcv_assume(sy < 0.999 && sy > -0.999);
	FMVector3 e = q.ToEuler();
	FMMatrix44 m = q.ToMatrix();
	fcv_check(fcv_same(sinf(e.y), m.m[2][0], 1), "the pitch angle");
	fcv_check(fcv_same(cosf(e.x) * cosf(e.y), m.m[2][2], 1) && fcv_same(sinf(e.x) * cosf(e.y), -m.m[2][1], 1), "the roll angle");
	fcv_check(fcv_same(cosf(e.z) * cosf(e.y), m.m[0][0], 1) && fcv_same(sinf(e.z) * cosf(e.y), -m.m[1][0], 1), "the yaw angle");
#ifndef FCV_SYM
	check_same(m, FMMatrix44::XAxisRotationMatrix(e.x) * FMMatrix44::YAxisRotationMatrix(e.y) * FMMatrix44::ZAxisRotationMatrix(e.z), "the Euler angles of a quaternion give its rotation");
#endif
}
FCV_UNIT(quaternion_to_angle_axis, "fmode=real;budget=60")
{
	FMQuaternion q = quat("q"); unit4(q);
	fcv_assume(q.w < 0.999f && q.w > -0.999f);
	FMVector3 a; float t;
	q.ToAngleAxis(a, t);
	float h = t / 2;
	fcv_check(fcv_same(a.LengthSquared(), 1, 1), "the axis of a quaternion has unit length");
	fcv_check(fcv_same(cosf(h), q.w, 1), "the angle of a quaternion");
	for (u32 i = 0; i < 3; ++i) fcv_check(fcv_same(a[i] * sinf(h), q[i], 1), "axis and angle of a quaternion give that quaternion");
	FMQuaternion p(a, t);
	for (u32 i = 0; i < 4; ++i) fcv_check(fcv_same(p[i], q[i], 1), "quaternion to axis and angle and back is the identity");
}
FCV_UNIT(angle_axis_equality, "fmode=real")
{
	FMVector3 a = vec("a"); float t = turn("t"), u = turn("u");
	fcv_assume(t > 0.01f || t < -0.01f);
	FMAngleAxis p(a, t), q(-a, -t), r(a, u);
	fcv_check(p == p && p == q && q == p, "an axis and angle equal themselves and their opposite pair");
	fcv_assume(!IsEquivalent(t, u) && !IsEquivalent(t, -u));
	fcv_check(!(p == r), "different angles are different");
}
FCV_UNIT(decompose_rebuilds, "fmode=real;poly_s=10;search=4;budget=60;nobounded")
{
	// translation * rotation * scale with positive scales, away from the poles
	FMVector3 s = vec("s"), t = vec("t"); float y = turn("y"), x = turn("x"), z = turn("z");
#ifndef FCV_SYM
	s = FMVector3(0.5f + (float) fabs(fmod(s.x, 5)), 0.5f + (float) fabs(fmod(s.y, 5)), 0.5f + (float) fabs(fmod(s.z, 5)));
#endif
	fcv_assume(s.x > 0.01f && s.y > 0.01f && s.z > 0.01f);
	fcv_assume(sinf(y) < 0.99f && sinf(y) > -0.99f);
#ifndef FCV_SYM
	if (cosf(y) < 0) y = 0.3f;
#endif
	fcv_assume(cosf(y) > 0.02f);
	FMMatrix44 m = FMMatrix44::TranslationMatrix(t) * FMMatrix44::XAxisRotationMatrix(x) * FMMatrix44::YAxisRotationMatrix(y) * FMMatrix44::ZAxisRotationMatrix(z) * FMMatrix44::ScaleMatrix(s);
	FMVector3 ds, dr, dt; float inv;
	m.Decompose(ds, dr, dt, inv);
	fcv_check(inv == 1.0f, "a matrix of positive scales is not inverted");
	fcv_check(same3(ds, s.x, s.y, s.z, size3(s)), "the scale is found");
	fcv_check(same3(dt, t.x, t.y, t.z, size3(t)), "the translation is found");
	fcv_check(fcv_same(sinf(dr.y), sinf(y), 1) && fcv_same(cosf(dr.y), cosf(y), 1), "the rotation about y is found");
	fcv_check(fcv_same(sinf(dr.x), sinf(x), 1) && fcv_same(cosf(dr.x), cosf(x), 1), "the rotation about x is found");
	fcv_check(fcv_same(sinf(dr.z), sinf(z), 1) && fcv_same(cosf(dr.z), cosf(z), 1), "the rotation about z is found");
#ifndef FCV_SYM
	FMMatrix44 r; r.Recompose(ds, dr, dt, inv);
	for (u32 i = 0; i < 4; ++i) for (u32 j = 0; j < 4; ++j) fcv_check(fcv_same(m.m[i][j], r.m[i][j], size3(s) + size3(t)), "recomposing gives the matrix back");
#endif
}
FCV_UNIT(recompose_is_translate_rotate_scale, "fmode=real")
{
	FMVector3 s = vec("s"), r(turn("x"), turn("y"), turn("z")), t = vec("t"); u32 neg = fcv_small("neg", 0, 1); float inv = neg ? -1.0f : 1.0f;
	FMMatrix44 m; m.Recompose(s, r, t, inv);
	FMMatrix44 e = FMMatrix44::TranslationMatrix(t) * FMMatrix44::XAxisRotationMatrix(r.x) * FMMatrix44::YAxisRotationMatrix(r.y) * FMMatrix44::ZAxisRotationMatrix(r.z) * FMMatrix44::ScaleMatrix(FMVector3(inv * s.x, inv * s.y, inv * s.z));
	for (u32 i = 0; i < 4; ++i) for (u32 j = 0; j < 4; ++j) fcv_check(fcv_same(m.m[i][j], e.m[i][j], size3(s) + size3(t)), "recomposing multiplies translation, rotation and scale");
}
FCV_UNIT(slerp_end_points, "fmode=real")
{
	FMQuaternion a = quat("a"), b = quat("b"); unit4(a); unit4(b);
	double dot = (double) a.x * b.x + (double) a.y * b.y + (double) a.z * b.z + (double) a.w * b.w;
	fcv_assume(dot < 0.99 && dot > -0.99);
	FMQuaternion p = a.slerp(b, 0.0f), q = a.slerp(b, 1.0f);
	for (u32 i = 0; i < 4; ++i) { fcv_check(fcv_same(p[i], a[i], 1), "interpolation starts at the first quaternion"); fcv_check(fcv_same(q[i], b[i], 1), "interpolation ends at the second quaternion"); }
	FMQuaternion r = a.slerp(a, turn("t"));
	for (u32 i = 0; i < 4; ++i) fcv_check(fcv_same(r[i], a[i], 1), "interpolating between equal quaternions stays there");
}
FCV_UNIT(rotation_2d, "fmode=real")
{
	float t = turn("t");
	FMMatrix33 m = FMMatrix33::RotationMatrix(t);
	float c = cosf(t), s = sinf(t);
	fcv_check(m.m[0][0] == c && m.m[1][1] == c && m.m[0][1] == s && m.m[1][0] == -s, "a 2D rotation is counter-clockwise");
	fcv_check(m.m[0][2] == 0 && m.m[1][2] == 0 && m.m[2][0] == 0 && m.m[2][1] == 0 && m.m[2][2] == 1, "a 2D rotation does not translate");
}
