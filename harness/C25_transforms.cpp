// @property C25
// @sources FCollada/FMath/FMMatrix44.cpp FCollada/FMath/FMVector3.cpp FCollada/FMath/FMSkew.cpp FCollada/FMath/FMLookAt.cpp FCollada/FMath/FMAngleAxis.cpp FCollada/FCDocument/FCDTransform.cpp FCollada/FCDocument/FCDSceneNode.cpp FCollada/FCDocument/FCDEntity.cpp FCollada/FCDocument/FCDObject.cpp FCollada/FCDocument/FCDObjectWithId.cpp FCollada/FCDocument/FCDParameterAnimatable.cpp FCollada/FUtils/FUObject.cpp FCollada/FUtils/FUObjectType.cpp FCollada/FUtils/FUParameterizable.cpp FCollada/FUtils/FUTracker.cpp
// @native whole
#include "StdAfx.h"
#include "FMath/FMAngleAxis.h"
#include "FMath/FMLookAt.h"
#include "FMath/FMSkew.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDTransform.h"
#include "fcv.h"

#ifdef FCV_SYM
static float real(const char* name) { return fcv_float(name); }
#else
static double lim(double d) { return d > -1e3 && d < 1e3 ? d : d > -1e30 && d < 1e30 ? fmod(d, 7.0) : 1; }
static float real(const char* name) { return (float) lim(fcv_float(name)); }
#endif
static FMVector3 vec(const char* name) { float* t = fcv_floats(name, 3);
#ifdef FCV_SYM
	return FMVector3(t[0], t[1], t[2]);
#else
	return FMVector3((float) lim(t[0]), (float) lim(t[1]), (float) lim(t[2]));
#endif
}
static double dabs(double x) { return x < 0 ? -x : x; }
static double size3(const FMVector3& v) { return dabs(v.x) + dabs(v.y) + dabs(v.z) + 1; }
static double dot3(const FMVector3& a, const FMVector3& b) { return (double) a.x * b.x + (double) a.y * b.y + (double) a.z * b.z; }
static FMVector3 column(const FMMatrix44& m, u32 i) { return FMVector3(m.m[i][0], m.m[i][1], m.m[i][2]); }
static void is_affine(const FMMatrix44& m) { fcv_check(m.m[0][3] == 0 && m.m[1][3] == 0 && m.m[2][3] == 0 && m.m[3][3] == 1, "the matrix is affine"); }
static FMMatrix44 mat(const char* name) { FMMatrix44 m; float* t = fcv_floats(name, 16); for (u32 i = 0; i < 4; ++i) for (u32 j = 0; j < 4; ++j) m.m[i][j] = 
#ifdef FCV_SYM
	t[i * 4 + j];
#else
	(float) fmod(lim(t[i * 4 + j]), 3.0);
#endif
	return m; }
static void same_matrix(const FMMatrix44& a, const FMMatrix44& b, double s, const char* what) { for (u32 i = 0; i < 4; ++i) for (u32 j = 0; j < 4; ++j) fcv_check(fcv_same(a.m[i][j], b.m[i][j], s), what); }
static FMMatrix44 times(const FMMatrix44& a, const FMMatrix44& b)
{
	FMMatrix44 r;
	for (u32 i = 0; i < 4; ++i) for (u32 j = 0; j < 4; ++j) r.m[i][j] = a.m[0][j] * b.m[i][0] + a.m[1][j] * b.m[i][1] + a.m[2][j] * b.m[i][2] + a.m[3][j] * b.m[i][3];
	return r;
}

FCV_UNIT(translation, "fmode=real")
{
	FMVector3 t = vec("t");
	FCDTTranslation* e = new FCDTTranslation(NULL, NULL); e->SetTranslation(t);
	const FCDTransform* b = e;
	FMMatrix44 m = b->ToMatrix();
	for (u32 i = 0; i < 3; ++i) for (u32 j = 0; j < 3; ++j) fcv_check(m.m[i][j] == (i == j ? 1 : 0), "a translation does not turn or scale");
	fcv_check(m.m[3][0] == t.x && m.m[3][1] == t.y && m.m[3][2] == t.z, "a translation moves the origin to its vector");
	is_affine(m);
}
FCV_UNIT(scale, "fmode=real")
{
	FMVector3 t = vec("s");
	FCDTScale* e = new FCDTScale(NULL, NULL); e->SetScale(t);
	const FCDTransform* b = e;
	FMMatrix44 m = b->ToMatrix();
	for (u32 i = 0; i < 4; ++i) for (u32 j = 0; j < 4; ++j) fcv_check(m.m[i][j] == (i != j ? 0 : i == 0 ? t.x : i == 1 ? t.y : i == 2 ? t.z : 1), "a scale multiplies each coordinate by its factor");
}
FCV_UNIT(matrix, "fmode=real")
{
	FMMatrix44 t = mat("m");
	FCDTMatrix* e = new FCDTMatrix(NULL, NULL); e->SetTransform(t);
	const FCDTransform* b = e;
	FMMatrix44 m = b->ToMatrix();
	for (u32 i = 0; i < 4; ++i) for (u32 j = 0; j < 4; ++j) fcv_check(m.m[i][j] == t.m[i][j], "a matrix element gives its matrix");
}
FCV_UNIT(rotation, "fmode=real")
{
	FMVector3 a = vec("a"), v = vec("v"); float deg = real("deg");
#ifdef FCV_SYM
	fcv_assume(a.x * a.x + a.y * a.y + a.z * a.z == 1.0f);
	float rad = FMath::DegToRad(deg);
	double c = cosf(rad), s = sinf(rad);
#else
	double l = sqrt(dot3(a, a)); fcv_assume(l > 1e-3); a = FMVector3((float) (a.x / l), (float) (a.y / l), (float) (a.z / l));
	double c = cos(deg * 3.14159265358979323846 / 180), s = sin(deg * 3.14159265358979323846 / 180);
#endif
	FCDTRotation* e = new FCDTRotation(NULL, NULL); e->SetRotation(a, deg);
	const FCDTransform* b = e;
	FMMatrix44 m = b->ToMatrix();
	double d = dot3(a, v);
	double x = (double) a.y * v.z - (double) a.z * v.y, y = (double) a.z * v.x - (double) a.x * v.z, z = (double) a.x * v.y - (double) a.y * v.x;
	FMVector3 r = m.TransformVector(v); double w = 10 * size3(v);
	fcv_check(fcv_same(r.x, v.x * c + x * s + a.x * d * (1 - c), w) && fcv_same(r.y, v.y * c + y * s + a.y * d * (1 - c), w) && fcv_same(r.z, v.z * c + z * s + a.z * d * (1 - c), w), "a rotation turns right-handed about its axis by its angle in degrees");
	fcv_check(m.m[3][0] == 0 && m.m[3][1] == 0 && m.m[3][2] == 0, "a rotation does not move the origin");
	is_affine(m);
}
FCV_UNIT(degrees, "fmode=real")
{
	float d = real("d");
	fcv_check(fcv_same((double) FMath::DegToRad(d) * 180 - (double) d * (float) FMath::Pi, 0, 1000 + dabs(d) * 180), "half a turn is 180 degrees");
	fcv_check(FMath::Pi > 3.14159 && FMath::Pi < 3.1416, "half a turn is pi");
}
FCV_UNIT(skew, "fmode=real")
{
	FMVector3 r = vec("r"), a = vec("a"); float deg = real("deg");
#ifndef FCV_SYM
	deg = (float) fmod(deg, 80);
	double t = tan(deg * 3.14159265358979323846 / 180);
	double w = size3(r) * size3(a) * 10;
#else
	fcv_assume(cosf(FMath::DegToRad(deg)) != 0);
	double t = tanf(FMath::DegToRad(deg)), w = 1;
#endif
	FCDTSkew* e = new FCDTSkew(NULL, NULL); e->SetSkew(FMSkew(r, a, deg));
	const FCDTransform* b = e;
	FMMatrix44 m = b->ToMatrix();
	const float* rr = &r.x; const float* aa = &a.x;
	for (u32 i = 0; i < 3; ++i) for (u32 j = 0; j < 3; ++j)
		fcv_check(fcv_same(m.m[i][j], (i == j ? 1 : 0) + t * (double) rr[j] * aa[i], w), "a skew shears along its first axis in proportion to its second axis and the tangent of its angle");
	fcv_check(m.m[3][0] == 0 && m.m[3][1] == 0 && m.m[3][2] == 0, "a skew does not move the origin");
	is_affine(m);
}
static void check_lookat(const FMMatrix44& m, const FMVector3& eye, const FMVector3& target, const FMVector3& up)
{
	FMVector3 x = column(m, 0), y = column(m, 1), z = column(m, 2), o = column(m, 3);
	fcv_check(o.x == eye.x && o.y == eye.y && o.z == eye.z, "the position is the origin");
	is_affine(m);
	FMVector3 f(target.x - eye.x, target.y - eye.y, target.z - eye.z);
	double w = size3(f) * 3, wu = size3(up) * 10;
	fcv_check(fcv_same(dot3(z, z), 1, 1), "the axes have length one");
	fcv_check(fcv_same(z.x * (double) f.y, z.y * (double) f.x, w), "the third axis points along the viewing direction");
	fcv_check(fcv_same(z.y * (double) f.z, z.z * (double) f.y, w), "the third axis points along the viewing direction");
	fcv_check(fcv_same(z.x * (double) f.z, z.z * (double) f.x, w), "the third axis points along the viewing direction");
	fcv_check(dot3(z, f) < 0, "the third axis points from the target to the position");
	fcv_check(fcv_same(dot3(x, x), 1, 1), "the axes have length one");
	fcv_check(fcv_same(dot3(x, z), 0, 1), "the axes are orthogonal");
	fcv_check(fcv_same(dot3(x, up), 0, wu), "the first axis is orthogonal to the up direction");
	fcv_check(fcv_same(y.x, (double) z.y * x.z - (double) z.z * x.y, 1) && fcv_same(y.y, (double) z.z * x.x - (double) z.x * x.z, 1) && fcv_same(y.z, (double) z.x * x.y - (double) z.y * x.x, 1), "the axes are right-handed");
	fcv_check(fcv_same(dot3(x, y), 0, 1) && fcv_same(dot3(z, y), 0, 1), "the axes are orthogonal");
	fcv_check(dot3(y, up) > 0, "the second axis points up");
}
FCV_UNIT(lookat, "fmode=real;budget=240;merge=IsEquivalent")
{
	FMVector3 eye = vec("eye"), target = vec("target"), up = vec("up");
	FMVector3 f(target.x - eye.x, target.y - eye.y, target.z - eye.z);
	double ff = dot3(f, f), cx = (double) f.y * up.z - (double) f.z * up.y, cy = (double) f.z * up.x - (double) f.x * up.z, cz = (double) f.x * up.y - (double) f.y * up.x;
	double cc = cx * cx + cy * cy + cz * cz;
	fcv_assume(ff > 0.01);
	fcv_assume(cc > 0.01 * ff); // the up direction is not (nearly) the viewing direction
#ifndef FCV_SYM
	fcv_assume(cc > 0.1 * ff * dot3(up, up));
#endif
#ifdef FCV_SYM
	FMVector3 g = (target - eye).Normalize(), c = g ^ up, d(up.x - g.x, up.y - g.y, up.z - g.z), e(up.x + g.x, up.y + g.y, up.z + g.z);
	fcv_check(dot3(g, g) == 1, "lemma: the viewing direction has length one");
	fcv_check(dot3(c, c) * ff == cc, "lemma: the sideways direction is long enough");
	fcv_check(dot3(c, c) > 0.01, "lemma: the sideways direction is long enough");
	fcv_check(dot3(c, c) == dot3(d, d) - dot3(g, d) * dot3(g, d), "lemma: up is not the viewing direction");
	fcv_check(dot3(c, c) == dot3(e, e) - dot3(g, e) * dot3(g, e), "lemma: up is not against the viewing direction");
	fcv_check(dot3(d, d) > 0.01, "lemma: up is not the viewing direction");
	fcv_check(dot3(e, e) > 0.01, "lemma: up is not against the viewing direction");
	fcv_check(!IsEquivalent(g, up), "lemma: up is not the viewing direction");
	fcv_check(!IsEquivalent(g, -up), "lemma: up is not against the viewing direction");
#endif
	FMMatrix44 m = FMMatrix44::LookAtMatrix(eye, target, up);
#ifdef FCV_SYM
	double len = c.Length();
	double flen = (target - eye).Length();
	fcv_check(flen > 0, "lemma: the position is not the target");
	fcv_check(dot3(column(m, 2), f) * flen == -ff, "lemma: the third axis points from the target to the position");
	fcv_check(len > 0, "lemma: the sideways direction is long enough");
	fcv_check(dot3(column(m, 1), up) * len == dot3(c, c), "lemma: the second axis points up");
#endif
	check_lookat(m, eye, target, up);
}
FCV_UNIT(lookat_element, "fmode=real;unroll")
{
	FMVector3 eye = vec("eye"), target = vec("target"), up = vec("up");
	FCDTLookAt* e = new FCDTLookAt(NULL, NULL); e->SetLookAt(FMLookAt(eye, target, up));
	const FCDTransform* b = e;
	FMMatrix44 m = b->ToMatrix(), n = FMMatrix44::LookAtMatrix(eye, target, up);
	for (u32 i = 0; i < 4; ++i) for (u32 j = 0; j < 4; ++j) fcv_check(m.m[i][j] == n.m[i][j], "a look-at element gives the look-at matrix of its position, target and up direction");
}
// A scene node with only the members under contract constructed (the rest of the object is zero: ToMatrix and CalculateWorldTransform read nothing else).
static FCDSceneNode* node(u32 n, const char* name)
{
#ifdef FCV_SYM
	FCDSceneNode* s = (FCDSceneNode*) calloc(1, sizeof(FCDSceneNode));
	typedef decltype(s->transforms) T; typedef decltype(s->parents) P;
	new ((void*) &s->transforms) T(); new ((void*) &s->parents) P();
	for (u32 i = 0; i < n; ++i) { FCDTMatrix* e = new FCDTMatrix(NULL, NULL); e->transform = mat(name); s->transforms.push_back(e); }
#else
	static FCDocument* doc = FCollada::NewTopDocument();
	FCDSceneNode* s = new FCDSceneNode(doc);
	for (u32 i = 0; i < n; ++i) ((FCDTMatrix*) s->AddTransform(FCDTransform::MATRIX))->SetTransform(mat(name));
#endif
	return s;
}
static FMMatrix44 product(FCDSceneNode* s)
{
	FMMatrix44 r = FMMatrix44::Identity;
	for (size_t i = 0; i < s->transforms.size(); ++i) r = times(r, ((FCDTMatrix*) s->transforms[i])->transform);
	return r;
}
FCV_UNIT(stack, "fmode=real;shape=stacks of up to 3 transforms")
{
	u32 n = fcv_small("n", 0, 3);
	FCDSceneNode* s = node(n, "t");
	same_matrix(s->ToMatrix(), product(s), 1000, "the matrix of a node is the product of its transforms in stack order");
	same_matrix(s->CalculateLocalTransform(), product(s), 1000, "the local transform of a node is the product of its transforms in stack order");
}
FCV_UNIT(world, "fmode=real;shape=up to 2 ancestors")
{
	u32 depth = fcv_small("depth", 0, 2);
	FCDSceneNode* a[3]; FMMatrix44 w = FMMatrix44::Identity;
	for (u32 i = 0; i <= depth; ++i)
	{
		a[i] = node(1, "t");
#ifdef FCV_SYM
		if (i > 0) a[i]->parents.push_back(a[i - 1]);
#else
		if (i > 0) a[i - 1]->AddChildNode(a[i]);
#endif
		w = times(w, ((FCDTMatrix*) a[i]->transforms[0])->transform);
	}
	same_matrix(a[depth]->CalculateWorldTransform(), w, 1000, "the world transform is the parent's world transform times the local transform");
}
