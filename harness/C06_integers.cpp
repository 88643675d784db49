// @property C06
// @sources FCollada/FUtils/FUStringConversion.cpp FCollada/FUtils/FUStringBuilder.cpp FCollada/FUtils/FUString.cpp
// @native whole
#include "StdAfx.h"
#include "FUtils/FUStringConversion.h"
#include "FUtils/FUStringBuilder.h"
#include "fcv.h"

static bool blank(char c) { return (c == ' ') | (c == '\t') | (c == '\r') | (c == '\n'); }
static bool digit(char c) { return (c >= '0') & (c <= '9'); }
static bool hex(char c) { return digit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
static bool pred_blank(const void* t, u64 k) { return blank(((const char*) t)[k]); }
static bool pred_digit(const void* t, u64 k) { return digit(((const char*) t)[k]); }
static bool pred_hex(const void* t, u64 k) { return hex(((const char*) t)[k]); }
static bool pred_word(const void* t, u64 k) { return !blank(((const char*) t)[k]); }
static u32 spec_digit(u32 v, const void* t, u64 k) { return v * 10 + (u32) (((const char*) t)[k] - '0'); }
static u32 hexval(char c) { return digit(c) ? (u32) (c - '0') : (u32) ((c | 32) - 'a' + 10); }
static u32 spec_hex(u32 v, const void* t, u64 k) { return v * 16 + hexval(((const char*) t)[k]); }

// a text of `blanks` blanks, a numeral of `digits` digits with or without minus sign, the rest of the word, `gap` blanks and the rest of the text
struct Text
{
	u64 blanks, sign, digits, junk, gap, rest, n; char* t;
	Text(bool canSign, u64 maxDigits)
	{
		blanks = fcv_len("blanks", 4); sign = canSign && fcv_small("sign", 0, 1) ? 1 : 0; digits = fcv_len("digits", 12); junk = fcv_len("junk", 3); gap = fcv_len("gap", 3); rest = fcv_len("rest", 4);
		fcv_assume(digits <= maxDigits); n = blanks + sign + digits + junk + gap + rest; t = fcv_text("t", n);
#ifndef FCV_SYM
		for (u64 i = 0; i < n; ++i)
		{
			if (i < blanks || (i >= n - rest - gap && i < n - rest)) t[i] = " \t\r\n"[(u8) t[i] & 3];
			else if (sign && i == blanks) t[i] = '-';
			else if (i < n - rest - gap - junk) t[i] = "0123456789"[(u8) t[i] % 10];
		}
#else
		if (sign) fcv_assume(t[blanks] == '-');
		fcv_assume_all(0, blanks, &pred_blank, t); fcv_assume_all(0, digits, &pred_digit, t + blanks + sign);
#endif
		fcv_assume_all(0, junk, &pred_word, number() + digits); fcv_assume_all(0, gap, &pred_blank, number() + digits + junk);
		// the parts end where they end
		if (sign + digits + junk == 0) fcv_assume(gap + rest == 0);
		if (gap == 0) fcv_assume(rest == 0);
		fcv_assume(!blank(t[blanks])); if (digits == 0 && sign == 0) fcv_assume(t[blanks] != '-');
		fcv_assume(!digit(number()[digits])); fcv_assume(!blank(t[n - rest]));
		char end = number()[digits + junk]; fcv_assume(gap == 0 ? end == 0 : blank(end));
	}
	const char* number() const { return t + blanks + sign; }
};
FCV_UNIT(unsigned_value, "")
{
	Text x(false, 9); u32 v = fcv_fold_u32(&spec_digit, 0, x.number(), x.digits); const char* p = x.t;
	u32 got = FUStringConversion::ToUInt32(&p);
	fcv_check(got == v, "the value is that of the digits after the leading blanks");
	fcv_check(p == x.t + x.n - x.rest, "the reader advances to the next word or the end");
}
FCV_UNIT(signed_value, "split=sign:0-1")
{
	Text x(true, 9); u32 v = fcv_fold_u32(&spec_digit, 0, x.number(), x.digits); const char* p = x.t;
	i32 got = FUStringConversion::ToInt32(&p);
	fcv_check(got == (x.sign ? -(i32) v : (i32) v), "the value is that of the digits after the leading blanks and the minus sign");
	fcv_check(p == x.t + x.n - x.rest, "the reader advances to the next word or the end");
}
// the largest values, with leading zeros
FCV_UNIT(ten_digits, "conc=20;split=zeros:0-2")
{
	u32 zeros = fcv_small("zeros", 0, 2), sign = fcv_small("sign", 0, 1); char t[16]; u64 v = 0; u32 n = 0;
	if (sign) t[n++] = '-';
	for (u32 i = 0; i < zeros; ++i) t[n++] = '0';
	for (u32 i = 0; i < 10; ++i) { u8 d = fcv_u8("digit"); 
#ifndef FCV_SYM
		d = d % 10; if (i == 0) d = d & 3;
#endif
		fcv_assume(d <= 9); t[n++] = (char) ('0' + d); v = v * 10 + d; }
	t[n] = 0;
	if (!sign && v <= 0xFFFFFFFFull) fcv_check(FUStringConversion::ToUInt32((const char*) t) == (u32) v, "every value that fits is read as an unsigned integer");
	if (v <= 0x7FFFFFFFull || (sign && v <= 0x80000000ull)) fcv_check(FUStringConversion::ToInt32((const char*) t) == (sign ? (i32) (0u - (u32) v) : (i32) v), "every value that fits is read as a signed integer");
}
FCV_UNIT(hex_value, "split=prefix:0-2")
{
	// an optional prefix, `digits` hexadecimal digits and the rest; `count` digits are asked for
	u64 prefix = fcv_small("prefix", 0, 2) , digits = fcv_len("digits", 10), rest = fcv_len("rest", 4); u64 start = prefix ? 2 : 0, n = start + digits + rest; char* t = fcv_text("t", n);
	u32 count = fcv_small("all", 0, 1) ? UINT_MAX : fcv_u32("count");
#ifndef FCV_SYM
	for (u64 i = start; i < start + digits; ++i) t[i] = "0123456789abcdefABCDEF"[(u8) t[i] % 22]; if (prefix) { t[0] = '0'; t[1] = prefix == 1 ? 'x' : 'X'; } if (count != UINT_MAX) count %= 12;
#else
	fcv_assume_all(0, digits, &pred_hex, t + start); if (prefix) { fcv_assume(t[0] == '0'); fcv_assume(t[1] == (prefix == 1 ? 'x' : 'X')); }
#endif
	if (rest > 0) fcv_assume(!hex(t[start + digits]));
	if (!prefix && n > 1) { fcv_assume(!((t[0] == '0') & ((t[1] == 'x') | (t[1] == 'X')))); }
	u64 used = digits < count ? digits : count; fcv_assume(used <= 8);
	u32 v = fcv_fold_u32(&spec_hex, 0, t + start, used); const char* p = t;
	u32 got = FUStringConversion::HexToUInt32(&p, count);
	fcv_check(got == v, "the value is that of the hexadecimal digits"); fcv_check(n == 0 || p == t + start + used, "the reader stops after the hexadecimal digits");
}
FCV_UNIT(boolean_value, "")
{
	static const char* const yes[3] = { "true", "1", "TRUE" }; static const char* const no[4] = { "false", "0", "FALSE", "" };
	fcv_check(FUStringConversion::ToBoolean(yes[fcv_small("yes", 0, 2)]), "true and 1 are true"); fcv_check(!FUStringConversion::ToBoolean(no[fcv_small("no", 0, 3)]), "false, 0 and the empty text are false");
	const char* none = NULL; fcv_check(!FUStringConversion::ToBoolean(none), "no text is false");
}
// any text at all: only its characters and the terminator are read and the cursor stays inside
FCV_UNIT(reading_safe, "bounds=n:6,at:4;split=which:0-3")
{
	u64 n = fcv_len("n", 12), at = fcv_len("at", 12); fcv_assume(at <= n); char* t = fcv_text("t", n); const char* p = t + at;
#ifndef FCV_SYM
	for (u64 i = 0; i < n; ++i) { u8 c = t[i]; if (c & 1) t[i] = " \t\r\n-0x19aF"[(c >> 1) % 12]; }
#endif
	switch (fcv_small("which", 0, 3))
	{
	case 0: FUStringConversion::ToInt32(&p); break;
	case 1: FUStringConversion::ToUInt32(&p); break;
	case 2: { u32 count = fcv_u32("count"); FUStringConversion::HexToUInt32(&p, count); break; }
	case 3: FUStringConversion::ToBoolean(p); break;
	}
	fcv_check((p >= t + at) & (p <= t + n), "the cursor stays between its place and the end of the text");
}
FCV_UNIT(print_and_read, "conc=20;unroll_states=200;split=type:0-2")
{
	switch (fcv_small("type", 0, 2)) // every value
	{
	case 0: { u32 v = fcv_u32("value"); FUSStringBuilder b; b.append((uint32) v); fcv_check(FUStringConversion::ToUInt32(b.ToCharPtr()) == v, "a printed unsigned integer reads back"); break; }
	case 1: { i32 v = fcv_i32("value"); FUSStringBuilder b; b.append((int32) v); fcv_check(FUStringConversion::ToInt32(b.ToCharPtr()) == v, "a printed signed integer reads back"); break; }
	case 2: { u8 v = fcv_u8("value"); FUSStringBuilder b; b.appendHex(v); fcv_check(FUStringConversion::HexToUInt32(b.ToCharPtr()) == v, "a printed hexadecimal byte reads back"); break; }
	}
}
