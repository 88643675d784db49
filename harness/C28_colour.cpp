// @property C28
// @sources FCollada/FMath/FMColor.cpp FCollada/FMath/FMVector3.cpp
#include "StdAfx.h"
#include "fcv.h"

FCV_UNIT(packed_layout, "")
{
	u32 hex = fcv_u32("hex");
	FMColor c(hex);
	fcv_check(c.r == (hex >> 24) && c.g == ((hex >> 16) & 255) && c.b == ((hex >> 8) & 255) && c.a == (hex & 255), "packed colours are RGBA, most significant byte first");
	u8 r = fcv_u8("r"), g = fcv_u8("g"), b = fcv_u8("b"), a = fcv_u8("a");
	FMColor d(r, g, b, a);
	fcv_check(d.r == r && d.g == g && d.b == b && d.a == a, "the four bytes are kept");
	fcv_check(d[0] == r && d[1] == g && d[2] == b && d[3] == a, "channels are indexed in RGBA order");
	fcv_check(d.ComponentAverage() == ((u32) r + g + b) / 3, "the average is that of the three colour channels");
	FMColor e(r, g, b);
	fcv_check(e.a == 255, "colours are opaque unless told otherwise");
	u32 i = fcv_small("i", 0, 3); u8 v = fcv_u8("v");
	d[i] = v;
	fcv_check(d.r == (i == 0 ? v : r) && d.g == (i == 1 ? v : g) && d.b == (i == 2 ? v : b) && d.a == (i == 3 ? v : a), "writing a channel changes that channel only");
}
// one channel, all 256 values, exact IEEE arithmetic
static void channel_round_trip(u8 r, u8 g, u8 b, u8 a)
{
	FMColor c(r, g, b, a);
	FMVector4 v(c);
	fcv_check(v.x >= 0.0f && v.x <= 1.0f && v.y >= 0.0f && v.y <= 1.0f && v.z >= 0.0f && v.z <= 1.0f && v.w >= 0.0f && v.w <= 1.0f, "components lie between 0 and 1");
	fcv_check(v.x == (float) r / 255.0f && v.y == (float) g / 255.0f && v.z == (float) b / 255.0f && v.w == (float) a / 255.0f, "each channel becomes its 255th part");
	FMColor d(v);
	fcv_check(d.r == r && d.g == g && d.b == b && d.a == a, "packed to real to packed is the identity");
	FMColor e(FMVector3(v.x, v.y, v.z));
	fcv_check(e.r == r && e.g == g && e.b == b && e.a == 255, "three components give an opaque colour");
	float f[4]; c.ToFloats(f, 4);
	fcv_check(f[0] == v.x && f[1] == v.y && f[2] == v.z && f[3] == v.w, "array and vector forms agree");
}
FCV_UNIT(channel_r_round_trip, "fmode=fp") { channel_round_trip(fcv_u8("v"), 1, 2, 3); }
FCV_UNIT(channel_g_round_trip, "fmode=fp") { channel_round_trip(1, fcv_u8("v"), 2, 3); }
FCV_UNIT(channel_b_round_trip, "fmode=fp") { channel_round_trip(1, 2, fcv_u8("v"), 3); }
FCV_UNIT(channel_a_round_trip, "fmode=fp") { channel_round_trip(1, 2, 3, fcv_u8("v")); }
FCV_UNIT(component_arrays, "fmode=fp")
{
	u8 ch[4] = {11, 22, 33, 44};
	ch[fcv_small("which", 0, 3)] = fcv_u8("v");
	u32 n = fcv_small("n", 0, 5);
	float f[6] = {-7.0f, -7.0f, -7.0f, -7.0f, -7.0f, -7.0f};
	FMColor c(ch[0], ch[1], ch[2], ch[3]);
	c.ToFloats(f, n);
	for (u32 i = 0; i < 6; ++i)
	{
		if (i >= n) fcv_check(f[i] == -7.0f, "no component beyond the requested count is written");
		else if (n <= 4) fcv_check(f[i] == (float) ch[i] / 255.0f, "requested components are the channels in order");
		else fcv_check(f[i] == 0.0f, "an unsupported count gives zeroes");
	}
	if (n <= 4)
	{
		FMColor d(f, n);
		fcv_check(d.r == (n > 0 ? ch[0] : 0) && d.g == (n > 1 ? ch[1] : 0) && d.b == (n > 2 ? ch[2] : 0) && d.a == (n > 3 ? ch[3] : 255), "missing components take their defaults");
	}
}
static bool apart(float a, float b) { return a == b || a - b >= 0.001f || b - a >= 0.001f; }
FCV_UNIT(hsv_round_trip, "fmode=real;search=4")
{
	float r = fcv_float("r"), g = fcv_float("g"), b = fcv_float("b");
	if (FCV_NATIVE) { r = fabsf(fmodf(r, 1.0f)); g = fabsf(fmodf(g, 1.0f)); b = fabsf(fmodf(b, 1.0f)); if (fcv_bool("rg")) g = r; if (fcv_bool("gb")) b = g; }
	fcv_assume(r >= 0.0f && r <= 1.0f && g >= 0.0f && g <= 1.0f && b >= 0.0f && b <= 1.0f);
	fcv_assume(apart(r, g) && apart(g, b) && apart(r, b));
	float mx = r > g ? (r > b ? r : b) : (g > b ? g : b), mn = r < g ? (r < b ? r : b) : (g < b ? g : b);
	fcv_assume(mx == 0.0f || mx >= 0.001f);
	FMVector4 c(r, g, b, 1.0f);
	FMVector3 h = c.ToHSVColor();
	fcv_check(h.x >= 0.0f && h.x <= 1.0f && h.y >= 0.0f && h.y <= 1.0f && h.z >= 0.0f && h.z <= 1.0f, "hue, saturation and value lie between 0 and 1");
	fcv_check(h.z == mx, "the value is the largest component");
	fcv_check(fcv_same(h.y * mx, mx - mn, 1.0), "the saturation is the spread relative to the largest component");
	FMVector4 d = FMVector4::FromHSVColor(h.x, h.y, h.z);
	fcv_check(fcv_same(d.x, r, 1.0) && fcv_same(d.y, g, 1.0) && fcv_same(d.z, b, 1.0) && d.w == 1.0f, "converting to HSV and back gives the same colour");
}
FCV_UNIT(hsv_primary_sectors, "fmode=real")
{
	float v = fcv_float("v"), s = fcv_float("s"), f = fcv_float("f"); u32 k = fcv_small("k", 0, 5);
	if (FCV_NATIVE) { v = fabsf(fmodf(v, 1.0f)); s = fabsf(fmodf(s, 1.0f)); f = fabsf(fmodf(f, 0.99f)); }
	fcv_assume(v >= 0.0f && v <= 1.0f && s >= 0.001f && s <= 1.0f && f >= 0.001f && f < 0.999f);
	FMVector4 d = FMVector4::FromHSVColor(((float) k + f) / 6.0f, s, v);
	float lo = v * (1.0f - s), up = v * (1.0f - s * (1.0f - f)), dn = v * (1.0f - s * f);
	float R = k == 0 || k == 5 ? v : k == 1 ? dn : k == 4 ? up : lo;
	float G = k == 1 || k == 2 ? v : k == 0 ? up : k == 3 ? dn : lo;
	float B = k == 3 || k == 4 ? v : k == 2 ? up : k == 5 ? dn : lo;
	fcv_check(fcv_same(d.x, R, 1.0) && fcv_same(d.y, G, 1.0) && fcv_same(d.z, B, 1.0), "each hue sector mixes the components of its two neighbours");
}
FCV_UNIT(hsv_full_turn, "fmode=real")
{
	float v = fcv_float("v"), s = fcv_float("s");
	if (FCV_NATIVE) { v = fabsf(fmodf(v, 1.0f)); s = fabsf(fmodf(s, 1.0f)); }
	fcv_assume(v >= 0.0f && v <= 1.0f && s >= 0.0f && s <= 1.0f);
	FMVector4 a = FMVector4::FromHSVColor(0.0f, s, v), b = FMVector4::FromHSVColor(1.0f, s, v);
	fcv_check(a.x == b.x && a.y == b.y && a.z == b.z, "a hue of one is the hue zero");
}
template <class T> static void clamp_is_nearest(T v, T lo, T hi)
{
	fcv_assume(!(hi < lo));
	T c = FMath::Clamp(v, lo, hi);
	fcv_check(!(c < lo) && !(hi < c), "the clamped value lies in the range");
	fcv_check((v < lo || hi < v) || c == v, "a value in the range is unchanged");
	fcv_check(!(v < lo) || c == lo, "a value below the range becomes its minimum");
	fcv_check(!(hi < v) || c == hi, "a value above the range becomes its maximum");
}
FCV_UNIT(clamp_int, "") { clamp_is_nearest(fcv_i32("v"), fcv_i32("lo"), fcv_i32("hi")); }
FCV_UNIT(clamp_uint, "") { clamp_is_nearest(fcv_u32("v"), fcv_u32("lo"), fcv_u32("hi")); }
FCV_UNIT(clamp_float, "fmode=fp")
{
	float v = fcv_float("v"), lo = fcv_float("lo"), hi = fcv_float("hi");
	fcv_assume(v == v && lo == lo && hi == hi);
	clamp_is_nearest(v, lo, hi);
}
FCV_UNIT(sign_is_unit, "fmode=fp")
{
	i32 i = fcv_i32("i"); float f = fcv_float("f");
	fcv_assume(f == f);
	fcv_check(FMath::Sign(i) == (i < 0 ? -1 : 1), "the sign of an integer is 1 from zero up and -1 below");
	fcv_check(FMath::Sign(f) == (f < 0.0f ? -1.0f : 1.0f), "the sign of a real is 1 from zero up and -1 below");
}
FCV_UNIT(degrees_and_radians, "fmode=real")
{
	float d = fcv_angle("d");
	fcv_check(fcv_same(FMath::DegToRad(d) * 180.0f, d * FMath::Pif, 1000.0), "degrees are converted in the proportion of half a turn");
	fcv_check(fcv_same(FMath::RadToDeg(FMath::DegToRad(d)), d, 1000.0), "radians undo degrees");
	double e = d;
	fcv_check(fcv_same(FMath::RadToDeg(FMath::DegToRad(e)), e, 1000.0), "radians undo degrees in double precision");
	fcv_check(fcv_same(FMath::DegToRad(e) * 180.0, e * FMath::Pi, 1000.0), "degrees are converted in the proportion of half a turn, in double precision");
}
FCV_UNIT(approximate_equality, "fmode=real")
{
	float a = fcv_float("a"), b = fcv_float("b");
	if (FCV_NATIVE && fcv_bool("near")) b = a + 0.00005f;
	bool e = IsEquivalent(a, b);
	fcv_check(e == IsEquivalent(b, a), "approximate equality is symmetric");
	float t = fcv_float("t");
	fcv_check(IsEquivalent(a, b, t) == (a - b < t && b - a < t), "the tolerance bounds the difference on both sides");
	fcv_check(e == IsEquivalent(a, b, FLT_TOLERANCE), "the default tolerance is one ten-thousandth");
	fcv_check(IsEquivalent(a, a), "every value equals itself");
}
FCV_UNIT(wrap_int, "")
{
	i32 v = fcv_i32("v"), lo = fcv_i32("lo"), hi = fcv_i32("hi");
	fcv_assume(lo >= -1000000 && hi <= 1000000 && lo < hi && v >= -1000000000 && v <= 1000000000);
	i32 w = FMath::Wrap(v, lo, hi);
	fcv_check(w >= lo && w <= hi, "the wrapped value lies in the range");
	fcv_check((v < lo || v > hi) || w == v, "a value in the range is unchanged");
	fcv_check(v <= hi || w == lo + (v - hi) % (hi - lo), "a value above the range re-enters from its minimum by the remainder");
	fcv_check(v >= lo || w == hi - (lo - v) % (hi - lo), "a value below the range re-enters from its maximum by the remainder");
}
