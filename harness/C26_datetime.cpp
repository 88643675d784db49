// @property C26
// @sources FCollada/FUtils/FUDateTime.cpp FCollada/FUtils/FUStringConversion.cpp FCollada/FUtils/FUStringBuilder.cpp FCollada/FUtils/FUString.cpp
// @native whole
#include "StdAfx.h"
#include "FUtils/FUDateTime.h"
#include "FUtils/FUStringConversion.h"
#include "fcv.h"

static u32 below(const char* n, u32 lo, u32 hi) {
#ifdef FCV_SYM
	u32 x = fcv_u32(n); fcv_assume(x >= lo); fcv_assume(x <= hi); return x;
#else
	return fcv_small(n, lo, hi);
#endif
}
struct Date { u32 y, mo, d, h, mi, s; FUDateTime t;
	Date() { y = below("year", 0, 9999); mo = below("month", 1, 12); d = below("day", 1, 31); h = below("hour", 0, 23); mi = below("minutes", 0, 59); s = below("seconds", 0, 59);
		t.SetYear(y); t.SetMonth(mo); t.SetDay(d); t.SetHour(h); t.SetMinutes(mi); t.SetSeconds(s); }
	bool is(const FUDateTime& o) const { return (o.GetYear() == y) & (o.GetMonth() == mo) & (o.GetDay() == d) & (o.GetHour() == h) & (o.GetMinutes() == mi) & (o.GetSeconds() == s); }
};
static u32 num(const char* p, u32 n) { u32 v = 0; for (u32 i = 0; i < n; ++i) v = v * 10 + (u32) (p[i] - '0'); return v; }
static void layout(const Date& a, const char* p, u64 size)
{
	fcv_check(size == 20, "the text of a date has twenty characters"); if (size != 20) return;
	for (u32 i = 0; i < 20; ++i)
	{
		char c = p[i]; bool digit = (c >= '0') & (c <= '9');
		if (i == 4 || i == 7) fcv_check(c == '-', "the year, month and day are separated by minus signs");
		else if (i == 10) fcv_check(c == 'T', "the time follows a letter T");
		else if (i == 13 || i == 16) fcv_check(c == ':', "the hours, minutes and seconds are separated by colons");
		else if (i == 19) fcv_check(c == 'Z', "the text ends in Z");
		else fcv_check(digit, "the fields are written in decimal digits");
	}
	fcv_check(num(p, 4) == a.y, "the year comes first"); fcv_check(num(p + 5, 2) == a.mo, "the month comes second"); fcv_check(num(p + 8, 2) == a.d, "the day comes third");
	fcv_check(num(p + 11, 2) == a.h, "the hours come fourth"); fcv_check(num(p + 14, 2) == a.mi, "the minutes come fifth"); fcv_check(num(p + 17, 2) == a.s, "the seconds come sixth");
}
FCV_UNIT(date_text, "")
{
	Date a; fm::string s = FUStringConversion::ToString(a.t); layout(a, s.c_str(), s.length()); fcv_check(a.is(a.t), "writing leaves the date as it is");
	fstring f = FUStringConversion::ToFString(a.t); layout(a, f.c_str(), f.length());
}
FCV_UNIT(date_round_trip, "")
{
	Date a, b; fm::string s = FUStringConversion::ToString(a.t); FUDateTime r(b.t); fcv_check(b.is(r), "a copy is the same date");
	FUStringConversion::ToDateTime(s, r); fcv_check(a.is(r), "reading the text of a date gives that date");
	FUDateTime q; q = r; fcv_check(a.is(q), "an assigned date is the same date");
}
// the contract of the number reader: it reads from a place of the text up to the terminator at most (shown for its body by C06: reading_safe)
static char* text; static u64 textLength;
extern "C" uint32 fcv_contract_FUStringConversion_ToUInt32(const char** value)
{
	fcv_check((*value >= text) & (*value <= text + textLength), "numbers are read from places of the text"); return fcv_u32("number");
}
FCV_UNIT(date_reading_safe, "bounds=n:22;contract=FUStringConversion::ToUInt32(char const**)")
{
	// any text: only its characters and its terminator are read
	u64 n = fcv_len("n", 40); char* t = fcv_text("t", n); text = t; textLength = n; FUDateTime d; d.SetYear(7); d.SetSeconds(9);
#ifndef FCV_SYM
	if (n == 20 && fcv_bool("dated")) { static const char* p = "2007-12-24T18:20:40Z"; u32 keep = fcv_u32("keep"); for (u32 i = 0; i < 20; ++i) if (keep >> i & 1) t[i] = p[i]; }
#endif
	FUStringConversion::ToDateTime(t, d);
	if (n != 20) fcv_check(d.GetYear() == 7 && d.GetSeconds() == 9, "a text of another length leaves the date as it is");
}
