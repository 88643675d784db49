// @property C09
// @sources FCollada/FMath/FMMatrix44.cpp FCollada/FMath/FMMatrix33.cpp FCollada/FMath/FMVector3.cpp
#include "StdAfx.h"
#include "fcv.h"

// textbook definitions; a matrix A is the linear map with entry A(row,column) == A.m[column][row]
static double ab(double x) { return x < 0 ? -x : x; }
static float* raw(FMMatrix44& a) { return &a.m[0][0]; }
static void entries(FMMatrix44& a, const char* name) { float* t = fcv_floats(name, 16); for (u32 i = 0; i < 16; ++i) raw(a)[i] = t[i]; }
static void entries3(FMMatrix33& a, const char* name) { float* t = fcv_floats(name, 9); for (u32 i = 0; i < 9; ++i) (&a.m[0][0])[i] = t[i]; }
#ifdef FCV_SYM
static void tame(float*, u32) {}
#else
// natively: small whole numbers, so that inverses of well-conditioned matrices can be compared
static void tame(float* f, u32 n) { for (u32 i = 0; i < n; ++i) { double d = f[i]; if (!(d > -1e6 && d < 1e6)) d = 1; f[i] = (float) ((long) (d * 7) % 5); } }
#endif
static FMVector3 vec3(const char* name) { float* t = fcv_floats(name, 3); return FMVector3(t[0], t[1], t[2]); }
static FMVector4 vec4(const char* name) { float* t = fcv_floats(name, 4); return FMVector4(t[0], t[1], t[2], t[3]); }
static FMVector2 vec2(const char* name) { float* t = fcv_floats(name, 2); return FMVector2(t[0], t[1]); }
static bool is3(const FMVector3& v, double x, double y, double z, double s) { return fcv_same(v.x, x, s) && fcv_same(v.y, y, s) && fcv_same(v.z, z, s); }
static bool unchanged(const FMMatrix44& a, const FMMatrix44& b) { bool r = true; for (u32 i = 0; i < 16; ++i) r = r & ((&a.m[0][0])[i] == (&b.m[0][0])[i]); return r; }

FCV_UNIT(matrix_product, "fmode=real")
{
	FMMatrix44 a, b; entries(a, "a"); entries(b, "b");
	FMMatrix44 a0(a), b0(b);
	fcv_check(unchanged(a, a0) && unchanged(b, b0), "a copied matrix has the same entries");
	FMMatrix44 c = a * b;
	for (u32 col = 0; col < 4; ++col) for (u32 row = 0; row < 4; ++row)
	{
		double sum = 0, mag = 0;
		for (u32 k = 0; k < 4; ++k) { double t = (double) a.m[k][row] * b.m[col][k]; sum += t; mag += ab(t); }
		fcv_check(fcv_same(c.m[col][row], sum, mag), "entry of the product is row times column");
	}
	fcv_check(unchanged(a, a0) && unchanged(b, b0), "the product leaves its operands unchanged");
}
FCV_UNIT(matrix_product_in_place, "fmode=real")
{
	FMMatrix44 a, b; entries(a, "a"); entries(b, "b");
	FMMatrix44 b0(b), c = a * b, sq = a * a, s2(a);
	FMMatrix44& r = (a *= b);
	fcv_check(&r == &a && unchanged(a, c) && unchanged(b, b0), "multiplication in place agrees with the product");
	s2 *= s2;
	fcv_check(unchanged(s2, sq), "a matrix can be multiplied in place by itself");
}
FCV_UNIT(matrix_product_associative, "fmode=real;nosearch")
{
	FMMatrix44 a, b, c; entries(a, "a"); entries(b, "b"); entries(c, "c");
	FMMatrix44 l = (a * b) * c, r = a * (b * c);
	for (u32 i = 0; i < 16; ++i) fcv_check(raw(l)[i] == raw(r)[i], "the product is associative");
}
FCV_UNIT(matrix_identity_transpose_scale, "fmode=real")
{
	FMMatrix44 a; entries(a, "a"); FMMatrix44 a0(a);
	for (u32 c = 0; c < 4; ++c) for (u32 r = 0; r < 4; ++r) fcv_check(FMMatrix44::Identity.m[c][r] == (c == r ? 1.0f : 0.0f), "identity entries");
	FMMatrix44 l = FMMatrix44::Identity * a, rr = a * FMMatrix44::Identity, t = a.Transposed();
	float k = fcv_float("k");
	FMMatrix44 s = k * a;
	FMMatrix44 as; as = a;
	for (u32 c = 0; c < 4; ++c) for (u32 r = 0; r < 4; ++r)
	{
		fcv_check(l.m[c][r] == a.m[c][r] && rr.m[c][r] == a.m[c][r], "the identity is neutral");
		fcv_check(t.m[c][r] == a.m[r][c], "the transpose swaps rows and columns");
		fcv_check(fcv_same(s.m[c][r], (double) k * a.m[c][r], 0), "scaling multiplies every entry");
		fcv_check(as.m[c][r] == a.m[c][r], "assignment copies every entry");
		fcv_check(a[c][r] == a.m[c][r] && ((const FMMatrix44&) a)[c][r] == a.m[c][r] && ((const float*) a)[4 * c + r] == a.m[c][r], "element access agrees");
	}
	fcv_check(unchanged(a, a0), "the operand is unchanged");
}
FCV_UNIT(matrix_set_row_major, "fmode=real")
{
	float* f = fcv_floats("f", 16); double d[16];
	FMMatrix44 a(f), b; b.Set(f);
	for (u32 i = 0; i < 16; ++i) d[i] = f[i];
	FMMatrix44 c(d), e; e.Set(d);
	for (u32 i = 0; i < 16; ++i) fcv_check(a.m[i % 4][i / 4] == f[i] && b.m[i % 4][i / 4] == f[i] && c.m[i % 4][i / 4] == f[i] && e.m[i % 4][i / 4] == f[i], "array form is row by row");
	float g[9]; for (u32 i = 0; i < 9; ++i) g[i] = f[i];
	FMMatrix33 h(g);
	for (u32 i = 0; i < 9; ++i) fcv_check(h.m[i % 3][i / 3] == f[i], "3x3 array form is row by row");
}
static double minor3(const FMMatrix44& a, u32 c, u32 r, double& mag)
{
	// determinant of the matrix without column c and row r
	double e[3][3];
	for (u32 i = 0, x = 0; i < 4; ++i) if (i != c) { for (u32 j = 0, y = 0; j < 4; ++j) if (j != r) { e[x][y] = a.m[i][j]; ++y; } ++x; }
	double p = e[0][0] * e[1][1] * e[2][2] + e[0][1] * e[1][2] * e[2][0] + e[0][2] * e[1][0] * e[2][1];
	double q = e[0][2] * e[1][1] * e[2][0] + e[0][1] * e[1][0] * e[2][2] + e[0][0] * e[1][2] * e[2][1];
#ifndef FCV_SYM
	for (u32 i = 0; i < 3; ++i) for (u32 j = 0; j < 3; ++j) for (u32 k = 0; k < 3; ++k) mag += ab(e[0][i] * e[1][j] * e[2][k]);
#endif
	return p - q;
}
static double det4(const FMMatrix44& a, double& mag)
{
	double d = 0;
	for (u32 r = 0; r < 4; ++r) { double m = 0; double t = a.m[0][r] * minor3(a, 0, r, m); d += (r & 1) ? -t : t; mag += ab(a.m[0][r]) * m; }
	return d;
}
FCV_UNIT(matrix_determinant, "fmode=real")
{
	FMMatrix44 a; entries(a, "a"); FMMatrix44 a0(a);
	double mag = 0; double d = det4(a, mag);
	fcv_check(fcv_same(a.Determinant(), d, mag), "determinant by cofactors");
	fcv_check(unchanged(a, a0), "the operand is unchanged");
}
FCV_UNIT(matrix_determinant_multiplicative, "fmode=real;nosearch;poly_s=60;budget=120")
{
	FMMatrix44 a, b; entries(a, "a"); entries(b, "b");
	// one factor triangular keeps the identity within reach of the normaliser
	b.m[0][1] = b.m[0][2] = b.m[0][3] = b.m[1][2] = b.m[1][3] = b.m[2][3] = 0.0f;
	fcv_check((a * b).Determinant() == a.Determinant() * b.Determinant(), "determinants multiply");
	fcv_check(a.Transposed().Determinant() == a.Determinant(), "transposition keeps the determinant");
}
FCV_UNIT(matrix_inverse, "fmode=real;poly_s=30")
{
	FMMatrix44 a; entries(a, "a"); tame(raw(a), 16); FMMatrix44 a0(a);
	double mag = 0, d = det4(a, mag);
	fcv_assume(d > 0.0001 || d < -0.0001);
	FMMatrix44 i = a.Inverted(), p = a * i, q = i * a;
	for (u32 c = 0; c < 4; ++c) for (u32 r = 0; r < 4; ++r)
	{
		fcv_check(fcv_same(p.m[c][r], c == r ? 1 : 0, 1), "a matrix times its inverse is the identity");
		fcv_check(fcv_same(q.m[c][r], c == r ? 1 : 0, 1), "the inverse times the matrix is the identity");
	}
	fcv_check(unchanged(a, a0), "inverting leaves the matrix unchanged");
}
FCV_UNIT(matrix_transform, "fmode=real")
{
	FMMatrix44 a; entries(a, "a"); FMMatrix44 a0(a);
	FMVector3 v = vec3("v"); FMVector4 w = vec4("w");
	double e[4], f[4], g[4], mg = 0;
	for (u32 r = 0; r < 4; ++r)
	{
		e[r] = (double) a.m[0][r] * v.x + (double) a.m[1][r] * v.y + (double) a.m[2][r] * v.z;
		f[r] = e[r] + a.m[3][r];
		g[r] = (double) a.m[0][r] * w.x + (double) a.m[1][r] * w.y + (double) a.m[2][r] * w.z + (double) a.m[3][r] * w.w;
#ifndef FCV_SYM
		for (u32 c = 0; c < 4; ++c) mg += ab(a.m[c][r]) * (1 + ab(v.x) + ab(v.y) + ab(v.z) + ab(w.x) + ab(w.y) + ab(w.z) + ab(w.w));
#endif
	}
	FMVector3 c = a.TransformCoordinate(v), d = a.TransformVector(v);
	FMVector4 h = a.TransformCoordinate(w), k = a * w;
	fcv_check(is3(c, f[0], f[1], f[2], mg), "a point is rotated, scaled and translated");
	fcv_check(is3(d, e[0], e[1], e[2], mg), "a vector is not translated");
	for (u32 i = 0; i < 4; ++i)
	{
		fcv_check(fcv_same(h[i], g[i], mg), "a homogeneous coordinate is transformed by the whole matrix");
		fcv_check(fcv_same(k[i], g[i], mg), "matrix times vector is the textbook product");
	}
	fcv_check(unchanged(a, a0), "the matrix is unchanged");
}
FCV_UNIT(matrix_transform_composes, "fmode=real;nosearch")
{
	FMMatrix44 a, b; entries(a, "a"); entries(b, "b"); FMVector4 w = vec4("w");
	FMVector4 l = (a * b) * w, r = a * (b * w);
	fcv_check(l.x == r.x && l.y == r.y && l.z == r.z && l.w == r.w, "transforming by a product applies the right factor first");
}
FCV_UNIT(matrix_translation_and_scale, "fmode=real")
{
	FMVector3 t = vec3("t"), s = vec3("s"), p = vec3("p");
	FMMatrix44 T = FMMatrix44::TranslationMatrix(t), S = FMMatrix44::ScaleMatrix(s);
	for (u32 c = 0; c < 4; ++c) for (u32 r = 0; r < 4; ++r)
	{
		float te = c == r ? 1.0f : c == 3 && r < 3 ? t[r] : 0.0f, se = c != r ? 0.0f : c < 3 ? s[r] : 1.0f;
		fcv_check(T.m[c][r] == te, "entries of a translation matrix");
		fcv_check(S.m[c][r] == se, "entries of a scale matrix");
	}
	FMVector3 q = T.TransformCoordinate(p), u = T.TransformVector(p), x = S.TransformCoordinate(p), y = S.TransformVector(p);
	fcv_check(fcv_same(q.x, (double) p.x + t.x, ab(p.x) + ab(t.x)) && fcv_same(q.y, (double) p.y + t.y, ab(p.y) + ab(t.y)) && fcv_same(q.z, (double) p.z + t.z, ab(p.z) + ab(t.z)), "a translation matrix adds the offset to points");
	fcv_check(is3(u, p.x, p.y, p.z, 0), "a translation matrix leaves vectors alone");
	fcv_check(is3(x, (double) s.x * p.x, (double) s.y * p.y, (double) s.z * p.z, 0) && is3(y, (double) s.x * p.x, (double) s.y * p.y, (double) s.z * p.z, 0), "a scale matrix multiplies each coordinate");
	for (u32 c = 0; c < 4; ++c) for (u32 r = 0; r < 4; ++r) fcv_check(FMMatrix44::Identity.m[c][r] == (c == r ? 1.0f : 0.0f), "the shared identity matrix is never modified");
}
FCV_UNIT(matrix_axes, "fmode=real")
{
	FMMatrix44 a; entries(a, "a"); FMMatrix44 a0(a);
	FMVector3 t = vec3("t");
	for (u32 i = 0; i < 4; ++i) { const FMVector3& x = ((const FMMatrix44&) a).GetAxis((FMath::AXIS) i); fcv_check(x.x == a.m[i][0] && x.y == a.m[i][1] && x.z == a.m[i][2], "an axis is a column of the matrix"); }
	const FMVector3& g = ((const FMMatrix44&) a).GetTranslation();
	fcv_check(g.x == a.m[3][0] && g.y == a.m[3][1] && g.z == a.m[3][2], "the translation is the last column");
	a.SetTranslation(t);
	for (u32 c = 0; c < 4; ++c) for (u32 r = 0; r < 4; ++r) fcv_check(a.m[c][r] == (c == 3 && r < 3 ? t[r] : a0.m[c][r]), "setting the translation changes the translation only");
	u32 k = fcv_small("k", 0, 2);
	FMMatrix44 b(a0); b.GetAxis((FMath::AXIS) k) = t;
	for (u32 c = 0; c < 4; ++c) for (u32 r = 0; r < 4; ++r) fcv_check(b.m[c][r] == (c == k && r < 3 ? t[r] : a0.m[c][r]), "writing an axis changes that axis only");
}
FCV_UNIT(matrix_equivalence, "fmode=real")
{
	FMMatrix44 a; entries(a, "a"); FMMatrix44 b(a);
	u32 i = fcv_small("i", 0, 15);
	float d = fcv_float("d");
	fcv_check(IsEquivalent(a, b) && a == b, "a matrix is equivalent to itself");
	raw(b)[i] = d;
	fcv_check(IsEquivalent(a, b) == IsEquivalent(raw(a)[i], d), "matrices are equivalent exactly when every entry is");
}
FCV_UNIT(matrix33_product, "fmode=real")
{
	FMMatrix33 a, b; entries3(a, "a"); entries3(b, "b");
	FMMatrix33 a0(a), b0; b0 = b; FMMatrix33 c = a * b, t = a.Transposed(), l = FMMatrix33::identity * a;
	for (u32 i = 0; i < 3; ++i) for (u32 r = 0; r < 3; ++r)
	{
		double sum = 0, mag = 0;
		for (u32 k = 0; k < 3; ++k) { double x = (double) a.m[k][r] * b.m[i][k]; sum += x; mag += ab(x); }
		fcv_check(fcv_same(c.m[i][r], sum, mag), "entry of the 3x3 product is row times column");
		fcv_check(t.m[i][r] == a.m[r][i], "the 3x3 transpose swaps rows and columns");
		fcv_check(l.m[i][r] == a.m[i][r], "the 3x3 identity is neutral");
		fcv_check(a.m[i][r] == a0.m[i][r] && b.m[i][r] == b0.m[i][r] && a[i][r] == a.m[i][r], "the operands are unchanged");
	}
}
FCV_UNIT(matrix33_inverse, "fmode=real;poly_s=20")
{
	FMMatrix33 a; entries3(a, "a"); tame(&a.m[0][0], 9); FMMatrix33 a0(a);
	double d = (double) a.m[0][0] * a.m[1][1] * a.m[2][2] + (double) a.m[1][0] * a.m[2][1] * a.m[0][2] + (double) a.m[2][0] * a.m[0][1] * a.m[1][2] - (double) a.m[2][0] * a.m[1][1] * a.m[0][2] - (double) a.m[1][0] * a.m[0][1] * a.m[2][2] - (double) a.m[0][0] * a.m[2][1] * a.m[1][2];
	fcv_assume(d > 0.001 || d < -0.001);
	FMMatrix33 i = a.Inverted(), p = a * i, q = i * a;
	for (u32 c = 0; c < 3; ++c) for (u32 r = 0; r < 3; ++r)
	{
		fcv_check(fcv_same(p.m[c][r], c == r ? 1 : 0, 1), "a 3x3 matrix times its inverse is the identity");
		fcv_check(fcv_same(q.m[c][r], c == r ? 1 : 0, 1), "the inverse times the 3x3 matrix is the identity");
		fcv_check(a.m[c][r] == a0.m[c][r], "inverting leaves the 3x3 matrix unchanged");
	}
}
FCV_UNIT(matrix33_constructors, "fmode=real")
{
	float x = fcv_float("x"), y = fcv_float("y");
	FMMatrix33 T = FMMatrix33::TranslationMatrix(x, y), S = FMMatrix33::ScaleMatrix(x, y), T2 = FMMatrix33::TranslationMatrix(FMVector2(x, y)), S2 = FMMatrix33::ScaleMatrix(FMVector2(x, y));
	for (u32 c = 0; c < 3; ++c) for (u32 r = 0; r < 3; ++r)
	{
		float te = c == r ? 1.0f : c == 2 ? (r == 0 ? x : y) : 0.0f, se = c != r ? 0.0f : c == 0 ? x : c == 1 ? y : 1.0f;
		fcv_check(T.m[c][r] == te && T2.m[c][r] == te, "entries of a 2D translation matrix");
		fcv_check(S.m[c][r] == se && S2.m[c][r] == se, "entries of a 2D scale matrix");
		fcv_check(FMMatrix33::identity.m[c][r] == (c == r ? 1.0f : 0.0f), "the shared 3x3 identity is never modified");
	}
}
static bool near3(const FMVector3& v, double x, double y, double z) { return is3(v, x, y, z, 0); }
FCV_UNIT(vector3_algebra, "fmode=real")
{
	FMVector3 a = vec3("a"), b = vec3("b"); float k = fcv_float("k");
	FMVector3 a0(a), b0(b);
	double s = ab(a.x) + ab(a.y) + ab(a.z) + ab(b.x) + ab(b.y) + ab(b.z), s2 = s * s;
	fcv_check(is3(a + b, (double) a.x + b.x, (double) a.y + b.y, (double) a.z + b.z, s), "sum");
	fcv_check(is3(a - b, (double) a.x - b.x, (double) a.y - b.y, (double) a.z - b.z, s), "difference");
	fcv_check(near3(+a, a.x, a.y, a.z) && near3(-a, -a.x, -a.y, -a.z), "signs");
	fcv_check(near3(a * k, (double) a.x * k, (double) a.y * k, (double) a.z * k) && near3(k * a, (double) a.x * k, (double) a.y * k, (double) a.z * k), "scaling");
	fcv_check(fcv_same(a * b, (double) a.x * b.x + (double) a.y * b.y + (double) a.z * b.z, s2), "dot product");
	fcv_check(is3(a ^ b, (double) a.y * b.z - (double) a.z * b.y, (double) a.z * b.x - (double) a.x * b.z, (double) a.x * b.y - (double) a.y * b.x, s2), "cross product");
	fcv_check(fcv_same(a.LengthSquared(), (double) a.x * a.x + (double) a.y * a.y + (double) a.z * a.z, 0), "squared length");
	FMVector3 c(a); FMVector3& r1 = (c += b); fcv_check(&r1 == &c && is3(c, (double) a.x + b.x, (double) a.y + b.y, (double) a.z + b.z, s), "sum in place");
	FMVector3 d(a); FMVector3& r2 = (d -= b); fcv_check(&r2 == &d && is3(d, (double) a.x - b.x, (double) a.y - b.y, (double) a.z - b.z, s), "difference in place");
	FMVector3 e(a); FMVector3& r3 = (e *= k); fcv_check(&r3 == &e && near3(e, (double) a.x * k, (double) a.y * k, (double) a.z * k), "scaling in place");
	fcv_check(near3(a, a0.x, a0.y, a0.z) && near3(b, b0.x, b0.y, b0.z), "operands are unchanged");
	fcv_check(a[0] == a.x && a[1] == a.y && a[2] == a.z, "components are indexed in order");
	FMVector3 f; f.Set(b.x, b.y, b.z); FMVector3 g; g = a; float raw3[5] = {k, a.x, a.y, a.z, k}; FMVector3 h(raw3, 1), i; i = raw3;
	fcv_check(near3(f, b.x, b.y, b.z) && near3(g, a.x, a.y, a.z) && near3(h, a.x, a.y, a.z) && near3(i, k, a.x, a.y), "setting, assigning and reading arrays keeps the components in order");
	double dd[4] = {k, a.x, a.y, a.z}; FMVector3 j(dd, 1); fcv_check(near3(j, a.x, a.y, a.z), "reading double arrays keeps the components in order");
	FMVector3 m(FMVector4(a, k)); fcv_check(near3(m, a.x, a.y, a.z), "the first three components of a 4-vector");
}
FCV_UNIT(vector3_division, "fmode=real")
{
	FMVector3 a = vec3("a"), b = vec3("b"); float k = fcv_float("k");
	tame(&a.x, 3); tame(&b.x, 3);
	fcv_assume(k > 0.01f || k < -0.01f);
	fcv_check(near3(a / k, (double) a.x / k, (double) a.y / k, (double) a.z / k), "division by a number");
	FMVector3 e(a); FMVector3& r = (e /= k); fcv_check(&r == &e && near3(e, (double) a.x / k, (double) a.y / k, (double) a.z / k), "division in place");
	double l2 = (double) b.x * b.x + (double) b.y * b.y + (double) b.z * b.z, dt = (double) a.x * b.x + (double) a.y * b.y + (double) a.z * b.z;
	fcv_assume(l2 > 0.01);
	FMVector3 p = a.Projected(b), q(a); q.Project(b);
	fcv_check(is3(p, dt / l2 * b.x, dt / l2 * b.y, dt / l2 * b.z, 1) && is3(q, dt / l2 * b.x, dt / l2 * b.y, dt / l2 * b.z, 1), "projection onto a vector");
}
FCV_UNIT(vector3_length_and_normal, "fmode=real")
{
	FMVector3 a = vec3("a"); tame(&a.x, 3);
	double l2 = (double) a.x * a.x + (double) a.y * a.y + (double) a.z * a.z;
	double l = a.Length();
	fcv_check(l >= 0 && fcv_same(l * l, l2, 1), "the length is the root of the squared length");
	FMVector3 n = a.Normalize(), m(a); m.NormalizeIt();
	if (l > 0)
	{
		fcv_check(fcv_same(n.LengthSquared(), 1, 1) && fcv_same(m.LengthSquared(), 1, 1), "a normalised vector has length one");
		fcv_check(is3(n, a.x / l, a.y / l, a.z / l, 1) && is3(m, a.x / l, a.y / l, a.z / l, 1), "a normalised vector keeps its direction");
	}
	else fcv_check(near3(n, 1, 0, 0) && near3(m, 0, 0, 1), "the null vector gives a unit axis");
}
FCV_UNIT(vector3_component_bounds, "fmode=real")
{
	FMVector3 a = vec3("a"), lo(a), hi(a); u32 i = fcv_small("i", 0, 2); float d = fcv_float("d");
	FMVector3 b(a), c(a); b[i] = d; c[i] = d;
	lo.ComponentMinimum(b); hi.ComponentMaximum(c);
	for (u32 k = 0; k < 3; ++k) { fcv_check(lo[k] == (k == i && d > a[k] ? d : a[k]), "raised to the lower bound"); fcv_check(hi[k] == (k == i && d < a[k] ? d : a[k]), "lowered to the upper bound"); }
}
FCV_UNIT(vector3_component_clamp, "fmode=real;budget=60")
{
	FMVector3 a = vec3("a"), b = vec3("b"), up = vec3("up");
	fcv_assume(b.x <= up.x && b.y <= up.y && b.z <= up.z);
	u32 i = fcv_small("i", 0, 2), j = (i + 1) % 3, k = (i + 2) % 3;
	fcv_assume(b[j] <= a[j] && a[j] <= up[j] && b[k] <= a[k] && a[k] <= up[k]);
	FMVector3 cl(a); cl.ComponentClamp(b, up);
	for (u32 n = 0; n < 3; ++n) fcv_check(cl[n] == (a[n] < b[n] ? b[n] : a[n] > up[n] ? up[n] : a[n]), "clamped between both bounds");
}
FCV_UNIT(vector3_magnitudes, "fmode=real")
{
	FMVector3 a = vec3("a");
	double x = ab(a.x), y = ab(a.y), z = ab(a.z);
	fcv_check(a.ComponentMinimum() == (x <= y ? (x <= z ? x : z) : (y <= z ? y : z)), "smallest magnitude");
	fcv_check(a.ComponentMaximum() == (x >= y ? (x >= z ? x : z) : (y >= z ? y : z)), "largest magnitude");
	fcv_check(fcv_same(a.ComponentAverage(), (x + y + z) / 3, 0), "mean magnitude");
}
FCV_UNIT(vector3_axes, "")
{
	fcv_check(FMVector3::XAxis.x == 1 && FMVector3::XAxis.y == 0 && FMVector3::XAxis.z == 0, "x axis");
	fcv_check(FMVector3::YAxis.x == 0 && FMVector3::YAxis.y == 1 && FMVector3::YAxis.z == 0, "y axis");
	fcv_check(FMVector3::ZAxis.x == 0 && FMVector3::ZAxis.y == 0 && FMVector3::ZAxis.z == 1, "z axis");
	fcv_check(FMVector3::Zero.x == 0 && FMVector3::Zero.y == 0 && FMVector3::Zero.z == 0 && FMVector3::Origin.x == 0 && FMVector3::Origin.y == 0 && FMVector3::Origin.z == 0, "origin");
	fcv_check(FMVector3::One.x == 1 && FMVector3::One.y == 1 && FMVector3::One.z == 1, "one");
	fcv_check(FMVector2::XAxis.x == 1 && FMVector2::XAxis.y == 0 && FMVector2::YAxis.x == 0 && FMVector2::YAxis.y == 1 && FMVector2::Zero.x == 0 && FMVector2::Zero.y == 0, "2D axes");
	fcv_check(FMVector4::Zero.x == 0 && FMVector4::Zero.w == 0 && FMVector4::One.x == 1 && FMVector4::One.w == 1 && FMVector4::AlphaOne.x == 0 && FMVector4::AlphaOne.w == 1, "4D constants");
}
FCV_UNIT(vector3_equivalence, "fmode=real")
{
	FMVector3 a = vec3("a"), b(a); u32 i = fcv_small("i", 0, 2); float d = fcv_float("d");
	fcv_check(IsEquivalent(a, b) && a == b, "a vector is equivalent to itself");
	b[i] = d;
	fcv_check(IsEquivalent(a, b) == IsEquivalent(a[i], d) && (a == b) == IsEquivalent(a[i], d), "vectors are equivalent exactly when every component is");
	FMVector4 p(a, d), q(p); u32 j = fcv_small("j", 0, 3); float e = fcv_float("e"); q[j] = e;
	fcv_check(IsEquivalent(p, q) == IsEquivalent(p[j], e) && (p == q) == IsEquivalent(p[j], e), "4-vectors are equivalent exactly when every component is");
	FMVector2 r(a.x, a.y), t(a.x, a.y); t.y = e; fcv_check(IsEquivalent(r, t) == IsEquivalent(a.y, e) && (r == t) == IsEquivalent(a.y, e), "2-vectors are equivalent exactly when the second component is");
	FMVector2 u(a.x, a.y), v(a.x, a.y); v.x = e; fcv_check(IsEquivalent(u, v) == IsEquivalent(a.x, e) && (u == v) == IsEquivalent(a.x, e), "2-vectors are equivalent exactly when the first component is");
}
FCV_UNIT(vector4_algebra, "fmode=real")
{
	FMVector4 a = vec4("a"), b = vec4("b"), a0(a), b0(b); float k = fcv_float("k");
	FMVector4 s = a + b, d = a - b, m = a * k, n = k * a, s2(a), d2(a), m2(a);
	s2 += b; d2 -= b; m2 *= k;
	double dot = 0, mag = 0;
	for (u32 i = 0; i < 4; ++i)
	{
		double w = ab(a[i]) + ab(b[i]);
		fcv_check(fcv_same(s[i], (double) a[i] + b[i], w) && fcv_same(s2[i], (double) a[i] + b[i], w), "4D sum");
		fcv_check(fcv_same(d[i], (double) a[i] - b[i], w) && fcv_same(d2[i], (double) a[i] - b[i], w), "4D difference");
		fcv_check(fcv_same(m[i], (double) a[i] * k, 0) && fcv_same(n[i], (double) a[i] * k, 0) && fcv_same(m2[i], (double) a[i] * k, 0), "4D scaling");
		fcv_check(a[i] == a0[i] && b[i] == b0[i], "4D operands are unchanged");
		double t = (double) a[i] * b[i]; dot += t; mag += ab(t);
	}
	fcv_check(fcv_same(a * b, dot, mag), "4D dot product");
	fcv_assume(k > 0.01f || k < -0.01f);
	FMVector4 q(a); q /= k; for (u32 i = 0; i < 4; ++i) fcv_check(fcv_same(q[i], (double) a[i] / k, 0), "4D division");
	float f[6] = {k, a.x, a.y, a.z, a.w, k}; FMVector4 r(f, 1), t(FMVector2(a.x, a.y), FMVector2(a.z, a.w)), u(FMVector3(a.x, a.y, a.z), a.w), v; v = f + 1;
	for (u32 i = 0; i < 4; ++i) fcv_check(r[i] == a[i] && t[i] == a[i] && u[i] == a[i] && v[i] == a[i], "4D constructors keep the components in order");
}
FCV_UNIT(vector4_component_bounds, "fmode=real")
{
	FMVector4 a = vec4("a"), lo(a), hi(a); u32 i = fcv_small("i", 0, 3); float d = fcv_float("d");
	FMVector4 b(a); b[i] = d;
	lo.ComponentMinimum(b); hi.ComponentMaximum(b);
	for (u32 k = 0; k < 4; ++k) { fcv_check(lo[k] == (k == i && d > a[k] ? d : a[k]), "4D raised to the lower bound"); fcv_check(hi[k] == (k == i && d < a[k] ? d : a[k]), "4D lowered to the upper bound"); }
}
FCV_UNIT(vector2_algebra, "fmode=real")
{
	FMVector2 a = vec2("a"), b = vec2("b"), c(a); float k = fcv_float("k");
	FMVector2 s = a + b, d = a - b, m = a * k, n = k * a; c += b; FMVector2 e(a); e *= k;
	double w = ab(a.x) + ab(a.y) + ab(b.x) + ab(b.y);
	fcv_check(fcv_same(s.x, (double) a.x + b.x, w) && fcv_same(s.y, (double) a.y + b.y, w) && s.x == c.x && s.y == c.y, "2D sum");
	fcv_check(fcv_same(d.x, (double) a.x - b.x, w) && fcv_same(d.y, (double) a.y - b.y, w), "2D difference");
	fcv_check(fcv_same(m.x, (double) a.x * k, 0) && fcv_same(m.y, (double) a.y * k, 0) && m.x == n.x && m.y == n.y && m.x == e.x && m.y == e.y, "2D scaling");
	fcv_check(fcv_same(a * b, (double) a.x * b.x + (double) a.y * b.y, w * w), "2D dot product");
	tame(&a.x, 2);
	double l2 = (double) a.x * a.x + (double) a.y * a.y; fcv_check(fcv_same(a.LengthSquared(), l2, 1), "2D squared length");
	double l = a.Length(); fcv_check(l >= 0 && fcv_same(l * l, l2, 1), "2D length");
	FMVector2 u = a.Normalize(), v(a); v.NormalizeIt();
	if (l > 0) fcv_check(fcv_same(u.x, a.x / l, 1) && fcv_same(u.y, a.y / l, 1) && fcv_same(v.x, a.x / l, 1) && fcv_same(v.y, a.y / l, 1), "2D normalised vector");
	fcv_assume(k > 0.01f || k < -0.01f);
	FMVector2 q = b / k; fcv_check(fcv_same(q.x, (double) b.x / k, 0) && fcv_same(q.y, (double) b.y / k, 0), "2D division");
}
