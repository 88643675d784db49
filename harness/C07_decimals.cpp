// @property C07
// @sources FCollada/FUtils/FUStringConversion.cpp FCollada/FUtils/FUStringBuilder.cpp FCollada/FUtils/FUString.cpp
// @native whole
#include "StdAfx.h"
#include "FUtils/FUStringConversion.h"
#include "fcv.h"
#include <math.h>
#include <limits>

// a numeral written into a text, with the value it denotes
struct Numeral
{
	char t[1400]; u32 n; double value; u32 start;
	Numeral() : n(0), value(0), start(0) {}
	void put(char c) { t[n++] = c; }
	void blanks(u32 count) { for (u32 i = 0; i < count; ++i) put(" \t\r\n"[fcv_small("blank", 0, 3)]); start = n; }
	u32 digit() {
#ifdef FCV_SYM
		u8 d = fcv_u8("digit"); fcv_assume(d <= 9);
#else
		u8 d = fcv_small("digit", 0, 9);
#endif
		put((char) (0x30 | d)); return d; }
	// the mantissa: digits before and after the decimal point
	void mantissa(u32 whole, bool point, u32 fraction)
	{
		double scale = 1; for (u32 i = 0; i < whole; ++i) value = value * 10 + digit();
		if (point) put('.');
		for (u32 i = 0; i < fraction; ++i) { value = value * 10 + digit(); scale *= 10; }
		value = value / scale;
	}
	void exponent(bool upper, u32 sign, u32 digits)
	{
		put(upper ? 'E' : 'e'); if (sign) put(sign == 1 ? '-' : '+');
		i32 e = 0; for (u32 i = 0; i < digits; ++i) e = e * 10 + (i32) digit();
		if (sign == 1) e = -e;
#ifdef FCV_SYM
		if (e != 0) value *= pow(10.0, (double) e);
#else
		t[n] = 0; value = strtod(t + start, NULL);
#endif
	}
	void text(const char* s) { while (*s) put(*s++); }
	void check(const char* follow)
	{
		u32 end = n; text(follow); t[n] = 0;
		const char* p = t; float got = FUStringConversion::ToFloat(&p);
#ifdef FCV_SYM
		fcv_check((double) got == value, "the value is the one the numeral denotes");
#else
		float want = (float) value;
		fcv_check(got == want || fabs((double) got - value) <= 3e-7 * fabs(value) + 3e-45, "the value is the one the numeral denotes");
#endif
		u32 stop = end; while (t[stop] == ' ' || t[stop] == '\t' || t[stop] == '\r' || t[stop] == '\n') ++stop;
		fcv_check(p == t + stop, "the reader stops after the numeral and the blanks that follow it");
	}
};
static const char* const follows[4] = { "", " ", " 7.5 x", "\r\n-3" };
FCV_UNIT(mantissa, "shape=up to 4 digits in all, with or without decimal point;fmode=real;conc=40;split=case:1-14")
{
	u32 which = fcv_small("case", 1, 14), digits = 0, whole = which; while (whole > digits) { whole -= digits + 1; ++digits; }
	bool point = whole < digits || fcv_bool("point"); Numeral x; x.mantissa(whole, point, digits - whole); x.check("");
}
FCV_UNIT(exponent, "shape=up to 2 digits with an exponent of up to 2 digits;fmode=real;conc=40;split=case:0-5")
{
	u32 which = fcv_small("case", 0, 5); Numeral x; if (which % 3 == 0) x.mantissa(1, false, 0); else if (which % 3 == 1) x.mantissa(0, true, 1); else x.mantissa(1, true, 1);
	x.exponent(which / 3, fcv_small("sign", 0, 2), fcv_small("digits", 1, 2)); x.check(fcv_bool("more") ? " 7.5 x" : "");
}
FCV_UNIT(surroundings, "shape=up to 2 blanks, any sign, up to 2 digits, four kinds of following text;fmode=real;conc=40;split=follow:0-3")
{
	Numeral x; x.blanks(fcv_small("blanks", 0, 2)); u32 sign = fcv_small("sign", 0, 2); if (sign) x.put(sign == 1 ? '-' : '+');
	x.mantissa(1, true, fcv_small("fraction", 0, 1)); if (sign == 1) x.value = -x.value; x.check(follows[fcv_small("follow", 0, 3)]);
}
FCV_UNIT(infinity, "shape=up to 2 blanks, any sign, four kinds of following text;conc=40")
{
	Numeral x; x.blanks(fcv_small("blanks", 0, 1)); u32 sign = fcv_small("sign", 0, 1); x.text(sign ? "-INF" : "INF"); u32 end = x.n; x.text(follows[fcv_small("follow", 0, 3)]); x.put(0);
	const char* p = x.t; float v = FUStringConversion::ToFloat(&p);
	fcv_check(v == (sign ? -std::numeric_limits<float>::infinity() : std::numeric_limits<float>::infinity()), "INF and -INF are the infinities");
	u32 stop = end; while (x.t[stop] == ' ' || x.t[stop] == '\t' || x.t[stop] == '\r' || x.t[stop] == '\n') ++stop;
	fcv_check(p == x.t + stop, "the reader stops after the infinity and the blanks that follow it");
}
// any text at all: only its characters and the terminator are read and the cursor stays inside
FCV_UNIT(reading_safe, "shape=texts of up to 5 characters;fmode=real;unrollall=1;split=n:0-5")
{
	u32 n = fcv_small("n", 0, FCV_NATIVE ? 12 : 5); char* t = fcv_text("t", n); const char* p = t;
#ifndef FCV_SYM
	for (u64 i = 0; i < n; ++i) { u8 c = t[i]; if (c & 3) t[i] = " \t\r\n-+.eEINF059"[(c >> 2) & 15]; if (!t[i]) t[i] = 'I'; }
#endif
	FUStringConversion::ToFloat(&p);
	fcv_check((p >= t) & (p <= t + n), "the cursor stays between its place and the end of the text");
}
// machine numbers: numerals of any length against the C library's reader
FCV_UNIT(long_numerals, "native;search=4")
{
	Numeral x; x.blanks(fcv_small("blanks", 0, 2)); u32 sign = fcv_small("sign", 0, 2); if (sign) x.put(sign == 1 ? '-' : '+');
	u32 whole = fcv_small("whole", 0, 60), zeros = fcv_small("zeros", 0, 60), fraction = fcv_small("fraction", whole ? 0 : 1, 60);
	if (fcv_bool("short")) { whole %= 6; zeros %= 4; fraction = fraction % 6; if (!whole) ++fraction; }
	for (u32 i = 0; i < whole; ++i) x.digit();
	if (fraction || fcv_bool("point")) { x.put('.'); for (u32 i = 0; i < zeros; ++i) x.put('0'); for (u32 i = 0; i < fraction; ++i) x.digit(); }
	if (fcv_bool("exponent")) x.exponent(fcv_bool("upper"), fcv_small("esign", 0, 2), fcv_small("digits", 1, 2));
	x.t[x.n] = 0; x.value = strtod(x.t + x.start, NULL); fcv_assume(fabs(x.value) < 3e38 && (fabs(x.value) > 2e-38 || x.value == 0)); x.check(follows[fcv_small("follow", 0, 3)]);
}
