// @property C20
// @sources FCollada/FCDocument/FCDAnimationCurve.cpp FCollada/FUtils/FUParameterizable.cpp FCollada/FUtils/FUObject.cpp FCollada/FUtils/FUObjectType.cpp FCollada/FUtils/FUTracker.cpp
// @native whole
#include "StdAfx.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDAnimationKey.h"
#include "FUtils/FUDaeEnum.h"
#include "fcv.h"

static FCDAnimationCurve* curve()
{
#ifdef FCV_SYM
	// only the members that evaluation works on exist, the rest of the object is zero
	FCDAnimationCurve* c = (FCDAnimationCurve*) calloc(1, sizeof(FCDAnimationCurve));
	typedef decltype(c->keys) K; new ((void*) &c->keys) K();
	return c;
#else
	static FCDocument* doc = FCollada::NewTopDocument();
	return new FCDAnimationCurve(doc, NULL);
#endif
}
float FindT(float cp0x, float cp1x, float cp2x, float cp3x, float input, float initialGuess);
// The contract of FindT: a parameter of the curve, whatever the arguments.
static float found_t; static float found_args[6]; static u32 found_calls;
extern "C" float fcv_contract_FindT(float a, float b, float c, float d, float input, float guess)
{
	found_args[0] = a; found_args[1] = b; found_args[2] = c; found_args[3] = d; found_args[4] = input; found_args[5] = guess; ++found_calls;
	found_t = fcv_float("t"); fcv_assume(found_t >= 0.0f); fcv_assume(found_t <= 1.0f); return found_t;
}
#ifdef FCV_SYM
static float num(const char* n) { return fcv_float(n); }
static float gap(const char* n) { float g = fcv_float(n); fcv_assume(g > 0.0f); return g; }
static float part(const char* n) { float g = fcv_float(n); fcv_assume(g > 0.0f); fcv_assume(g < 1.0f); return g; }
static bool same(float a, float b, double) { return a == b; }
#else
static float num(const char* n) { return ((int) fcv_small(n, 0, 8000) - 4000) / 64.0f; }
static float gap(const char* n) { return fcv_small(n, 1, 4096) / 256.0f; }
static float part(const char* n) { return fcv_small(n, 1, 255) / 256.0f; }
static bool same(float a, float b, double scale) { return a == b || fabs((double) a - b) <= 1e-3 * (1 + scale); }
#endif
enum { MAXK = 12 };
static u32 kind(const char* n) { static const u32 k[3] = { FUDaeInterpolation::STEP, FUDaeInterpolation::LINEAR, FUDaeInterpolation::BEZIER }; return k[fcv_small(n, 0, 2)]; }
struct Curve
{
	FCDAnimationCurve* c; u32 n; float t[MAXK], v[MAXK]; FCDAnimationKeyBezier* k[MAXK]; double scale;
	// a curve of n keys at strictly increasing times; every key may be a Bezier key
	Curve(u32 _n) : c(curve()), n(_n), scale(0)
	{
		for (u32 i = 0; i < n; ++i)
		{
			t[i] = i == 0 ? num("time") : t[i - 1] + gap("gap"); v[i] = num("value");
			k[i] = (FCDAnimationKeyBezier*) c->AddKey(FUDaeInterpolation::BEZIER); k[i]->input = t[i]; k[i]->output = v[i];
			k[i]->inTangent.x = t[i] - gap("in"); k[i]->inTangent.y = num("iny"); k[i]->outTangent.x = t[i] + gap("out"); k[i]->outTangent.y = num("outy");
			scale += fabs(v[i]) + fabs(k[i]->inTangent.y) + fabs(k[i]->outTangent.y);
		}
	}
	void infinity(u32 pre, u32 post) { c->SetPreInfinity((FUDaeInfinity::Infinity) pre); c->SetPostInfinity((FUDaeInfinity::Infinity) post); }
	float line(u32 i, float x) const { return v[i] + (x - t[i]) / (t[i + 1] - t[i]) * (v[i + 1] - v[i]); }
	float bezier(float p, float a, float b, float c, float d) const { float q = 1.0f - p; return a * q * q * q + 3.0f * b * q * q * p + 3.0f * c * q * p * p + d * p * p * p; }
};
FCV_UNIT(at_key, "shape=up to 6 keys at any strictly increasing times, any interpolation and infinity modes;fmode=real;split=case:0-20")
{
	// n keys and one of them
	u32 which = fcv_small("case", 0, 20), n = 1, i = which; while (i >= n) { i -= n; ++n; }
	Curve c(n); for (u32 j = 0; j < n; ++j) c.k[j]->interpolation = j == i || j + 1 == i ? kind("kind") : FUDaeInterpolation::LINEAR;
	c.infinity(fcv_small("pre", 0, 1) ? FUDaeInfinity::CYCLE : FUDaeInfinity::CONSTANT, i + 1 == n ? fcv_small("post", 0, 4) : FUDaeInfinity::CONSTANT);
	fcv_check(same(c.c->Evaluate(c.t[i]), c.v[i], 0), "the value at the time of a key is that of the key");
}
FCV_UNIT(between, "shape=up to 6 keys at any strictly increasing times, any interpolation;fmode=real;split=case:0-14;contract=FindT")
{
	// n keys and one of their segments
	u32 which = fcv_small("case", 0, 14), n = 2, i = which; while (i >= n - 1) { i -= n - 1; ++n; }
	Curve c(n); u32 a = kind("first"), b = kind("second");
	for (u32 j = 0; j < n; ++j) c.k[j]->interpolation = FUDaeInterpolation::LINEAR; c.k[i]->interpolation = a; c.k[i + 1]->interpolation = b;
	float p = part("part"), x = c.t[i] + p * (c.t[i + 1] - c.t[i]); bool two = fcv_bool("2d"); FCDAnimationCurve::Set2DCurveEvaluation(two); found_calls = 0;
	fcv_assume(x > c.t[i]); fcv_assume(x < c.t[i + 1]);
	float y = c.c->Evaluate(x);
	// a Bezier key followed by a key without tangents continues like that one
	u32 mode = a == FUDaeInterpolation::BEZIER ? b : a;
	if (mode == FUDaeInterpolation::STEP) fcv_check(y == c.v[i], "a stepped segment keeps the value of its first key");
	else if (mode == FUDaeInterpolation::LINEAR) fcv_check(same(y, c.line(i, x), c.scale), "a linear segment is the line between its keys");
	else if (two)
	{
#ifdef FCV_SYM
		fcv_check(found_calls == 1, "the parameter is looked up once"); float q = found_t;
		fcv_check(found_args[0] == c.t[i] && found_args[3] == c.t[i + 1], "the parameter is that of the times of the keys");
		fcv_check(found_args[1] == c.k[i]->outTangent.x && found_args[2] == c.k[i + 1]->inTangent.x, "the parameter is that of the tangents of the keys");
		fcv_check(found_args[4] == x, "the parameter is looked up for the time of evaluation");
#else
		float q = FindT(c.t[i], c.k[i]->outTangent.x, c.k[i + 1]->inTangent.x, c.t[i + 1], x, (x - c.t[i]) / (c.t[i + 1] - c.t[i]));
#endif
		fcv_check(same(y, c.bezier(q, c.v[i], c.k[i]->outTangent.y, c.k[i + 1]->inTangent.y, c.v[i + 1]), c.scale), "a Bezier segment gives a value of the Bezier curve of its keys");
	}
	else
	{
		float w = c.t[i + 1] - c.t[i], q = (x - c.t[i]) / w, r = 1.0f - q;
		float br = w / (c.k[i]->outTangent.x - c.t[i]), cr = w / (c.t[i + 1] - c.k[i + 1]->inTangent.x);
		br = br < 0.01f ? 0.01f : br > 100.0f ? 100.0f : br; cr = cr < 0.01f ? 0.01f : cr > 100.0f ? 100.0f : cr;
		fcv_check(same(y, c.v[i] * r * r * r + br * c.k[i]->outTangent.y * r * r * q + cr * c.k[i + 1]->inTangent.y * r * q * q + c.v[i + 1] * q * q * q, c.scale * 200), "a Bezier segment evaluated over its values alone weighs the tangents by their lengths");
	}
	FCDAnimationCurve::Set2DCurveEvaluation(true);
}
FCV_UNIT(find_t, "fmode=real;finv=1;lin=1")
{
	float a = num("a"), b = num("b"), c = num("c"), d = num("d"), x = num("x");
#ifdef FCV_SYM
	float guess = num("guess");
#else
	d = a + gap("w"); b = a + part("b") * (d - a); c = a + part("c") * (d - a); float guess = part("guess"); x = a + guess * (d - a);
#endif
	float t = FindT(a, b, c, d, x, guess);
	fcv_check(t >= 0.0f, "the parameter is not negative"); fcv_check(t <= 1.0f, "the parameter is at most one");
#ifndef FCV_SYM
	// on a curve that goes forward in time the parameter is that of the time, to the precision of the search
	double q = t, r = 1 - q, at = a * r * r * r + 3 * b * r * r * q + 3 * c * r * q * q + d * q * q * q, slope = 3 * (d - a);
	fcv_check(fabs(at - x) <= 0.0011 + 0.0011 * slope, "the parameter is that of the time of evaluation");
#endif
}
FCV_UNIT(few_keys, "fmode=real")
{
	float x = num("x"); Curve none(0), one(1); one.infinity(fcv_small("pre", 0, 4), fcv_small("post", 0, 4));
	fcv_check(none.c->Evaluate(x) == 0.0f, "a curve without keys is zero"); fcv_check(one.c->Evaluate(x) == one.v[0], "a curve of one key is that key");
}
FCV_UNIT(constant_linear, "shape=up to 5 keys;fmode=real;split=n:2-5")
{
	u32 n = fcv_small("n", 2, 5); Curve c(n); for (u32 j = 0; j < n; ++j) c.k[j]->interpolation = FUDaeInterpolation::LINEAR;
	bool pre = fcv_bool("pre"); float d = gap("distance"); bool linear = fcv_bool("linear");
	c.infinity(linear ? FUDaeInfinity::LINEAR : FUDaeInfinity::CONSTANT, linear ? FUDaeInfinity::LINEAR : FUDaeInfinity::CONSTANT);
	float x = pre ? c.t[0] - d : c.t[n - 1] + d, y = c.c->Evaluate(x);
	if (!linear) fcv_check(y == (pre ? c.v[0] : c.v[n - 1]), "the constant mode keeps the value of the closest key");
	else if (pre) fcv_check(same(y, c.line(0, x), c.scale * (1 + d * 256)), "the linear mode continues the line of the first segment");
	else fcv_check(same(y, c.line(n - 2, x), c.scale * (1 + d * 256)), "the linear mode continues the line of the last segment");
}
FCV_UNIT(cycles, "shape=up to 3 linear or stepped keys, up to 3 cycles before or after;fmode=real;split=case:0-11")
{
	// x lies a number of whole cycles away from a place p of the curve
	u32 which = fcv_small("case", 0, 11), n = 2 + which % 2, cycles = 1 + which / 2 % 3; bool pre = which / 6;
	u32 mode = fcv_small("mode", 0, 2); mode = mode == 0 ? FUDaeInfinity::CYCLE : mode == 1 ? FUDaeInfinity::CYCLE_RELATIVE : FUDaeInfinity::OSCILLATE;
	Curve c(n); u32 a = fcv_small("kind", 0, 1) ? FUDaeInterpolation::STEP : FUDaeInterpolation::LINEAR; for (u32 j = 0; j < n; ++j) c.k[j]->interpolation = a;
	c.infinity(mode, mode);
	float span = c.t[n - 1] - c.t[0], u = part("place"), p = c.t[0] + u * span, w = c.c->Evaluate(p);
	bool back = mode == FUDaeInfinity::OSCILLATE && (cycles & 1); float place = back ? 1.0f - u : u;   // every second cycle of an oscillation runs backwards
	float x = pre ? c.t[0] - (float) cycles * span + place * span : c.t[n - 1] + (float) (cycles - 1) * span + place * span;
	float offset = mode == FUDaeInfinity::CYCLE_RELATIVE ? (pre ? -1.0f : 1.0f) * (float) cycles * (c.v[n - 1] - c.v[0]) : 0.0f;
#ifndef FCV_SYM
	if (a == FUDaeInterpolation::STEP && n == 3 && fabs(p - c.t[1]) < 1e-2) return; // rounding may move the place over the step
#endif
	fcv_check(same(c.c->Evaluate(x), w + offset, c.scale * 300), "the cycle modes repeat the curve");
}
FCV_UNIT(add_key, "shape=up to 4 keys in order of time, one added at any time;fmode=real;split=n:0-4")
{
	u32 n = fcv_small("n", 0, 4); Curve c(n); if (n > 1 && fcv_bool("same")) { c.t[1] = c.t[0]; c.k[1]->input = c.t[0]; }
	float x = num("x"); size_t index = 1000; u32 interpolation = fcv_small("kind", 0, 3);
	static const FUDaeInterpolation::Interpolation kinds[4] = { FUDaeInterpolation::STEP, FUDaeInterpolation::LINEAR, FUDaeInterpolation::BEZIER, FUDaeInterpolation::TCB };
	FCDAnimationKey* k = c.c->AddKey(kinds[interpolation], x, index);
	fcv_check(c.c->GetKeyCount() == n + 1, "one key is added"); fcv_check(index <= n, "the new key has a place"); if (index > n) return;
	fcv_check(c.c->GetKey(index) == k && k->input == x && k->interpolation == (u32) kinds[interpolation], "the new key is at the reported place");
	for (u32 i = 0; i < n; ++i) fcv_check(c.c->GetKey(i < index ? i : i + 1) == c.k[i] && c.k[i]->input == c.t[i] && c.k[i]->output == c.v[i], "the other keys stay as they are, in order");
	for (u32 i = 0; i < n; ++i) fcv_check(c.c->GetKey(i)->input <= c.c->GetKey(i + 1)->input, "the keys are in order of time");
}
FCV_UNIT(delete_key, "shape=up to 4 keys;fmode=real;split=n:0-4")
{
	u32 n = fcv_small("n", 0, 4), d = fcv_small("d", 0, 4); Curve c(n), other(1);
	fcv_assume(d <= n); bool had = d < n;
	fcv_check(c.c->DeleteKey(had ? c.k[d] : other.k[0]) == had, "a key is deleted if it is one of the curve");
	fcv_check(c.c->GetKeyCount() == n - (had ? 1 : 0), "deleting removes one key");
	for (u32 i = 0, j = 0; i < n; ++i) if (i != d) fcv_check(c.c->GetKey(j++) == c.k[i], "deleting removes exactly that key");
	fcv_check(other.c->GetKeyCount() == 1 && other.c->GetKey(0) == other.k[0], "other curves are unaffected");
}
FCV_UNIT(history, "native;search=5")
{
	u32 len = fcv_small("len", 1, 30); FCDAnimationCurve* c = curve(); FCDAnimationKey* k[40]; u32 n = 0;
	for (u32 i = 0; i < len; ++i)
		if (n == 0 || fcv_small("op", 0, 3))
		{
			static const FUDaeInterpolation::Interpolation kinds[4] = { FUDaeInterpolation::STEP, FUDaeInterpolation::LINEAR, FUDaeInterpolation::BEZIER, FUDaeInterpolation::TCB };
			float x = fcv_small("x", 0, 20) * 0.5f; size_t index; FCDAnimationKey* q = c->AddKey(kinds[fcv_small("kind", 0, 3)], x, index); q->output = num("y");
			fcv_check(index <= n, "the new key has a place"); for (u32 j = n; j > index; --j) k[j] = k[j - 1]; k[index] = q; ++n;
		}
		else { u32 d = fcv_small("d", 0, n - 1); fcv_check(c->DeleteKey(k[d]), "a key of the curve is deleted"); for (u32 j = d + 1; j < n; ++j) k[j - 1] = k[j]; --n; }
	fcv_check(c->GetKeyCount() == n, "the curve has the keys added and not deleted");
	for (u32 j = 0; j < n; ++j) fcv_check(c->GetKey(j) == k[j] && (j == 0 || k[j - 1]->input <= k[j]->input), "the keys are in order of time at the reported places");
	// stepped: the last key not after the time
	for (u32 j = 0; j < n; ++j) { k[j]->interpolation = FUDaeInterpolation::STEP; k[j]->input = j * 0.5f; }
	if (n > 1) { float x = fcv_small("at", 0, 2 * n) * 0.25f; u32 j = 0; while (j + 1 < n && k[j + 1]->input <= x) ++j; fcv_check(c->Evaluate(x) == k[j]->output, "a stepped curve keeps the value of each key until the next"); }
	delete c;
}
FCV_UNIT(rounding, "native;search=3")
{
	// machine numbers: evaluation far away in any mode still gives a value of the curve
	Curve c(fcv_small("n", 2, 6)); for (u32 j = 0; j < c.n; ++j) { c.k[j]->interpolation = FUDaeInterpolation::STEP; }
	u32 m = fcv_small("mode", 0, 2); m = m == 0 ? FUDaeInfinity::CYCLE : m == 1 ? FUDaeInfinity::OSCILLATE : FUDaeInfinity::CONSTANT; c.infinity(m, m);
	float y = c.c->Evaluate(fcv_float("x")); bool some = false; for (u32 j = 0; j < c.n; ++j) if (y == c.v[j]) some = true;
	fcv_check(some, "a stepped curve takes no other values than those of its keys");
}
