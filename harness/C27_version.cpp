// @property C27
// @sources FCollada/FCDocument/FCDVersion.cpp FCollada/FUtils/FUStringConversion.cpp
#include "StdAfx.h"
#include "FCDocument/FCDVersion.h"
#include "fcv.h"

static bool spec_less(u32 a1, u32 a2, u32 a3, u32 b1, u32 b2, u32 b3)
{
	return a1 < b1 || (a1 == b1 && (a2 < b2 || (a2 == b2 && a3 < b3)));
}
FCV_UNIT(version_order_is_lexicographic, "")
{
	FCDVersion a(fcv_u32("a1"), fcv_u32("a2"), fcv_u32("a3"));
	FCDVersion b(fcv_u32("b1"), fcv_u32("b2"), fcv_u32("b3"));
	if (fcv_bool("same_major")) b.major = a.major;
	if (fcv_bool("same_minor")) b.minor = a.minor;
	if (fcv_bool("same_revision")) b.revision = a.revision;
	bool lt = spec_less(a.major, a.minor, a.revision, b.major, b.minor, b.revision);
	bool gt = spec_less(b.major, b.minor, b.revision, a.major, a.minor, a.revision);
	bool eq = a.major == b.major && a.minor == b.minor && a.revision == b.revision;
	fcv_check((a < b) == lt, "less-than is the lexicographic order");
	fcv_check((a <= b) == (lt || eq), "less-or-equal is less or equal");
	fcv_check((a > b) == gt, "greater-than is the converse of less-than");
	fcv_check((a >= b) == (gt || eq), "greater-or-equal is greater or equal");
	fcv_check(IsEquivalent(a, b) == eq, "equivalence is equality of all three numbers");
	fcv_check((a < b) + (b < a) + IsEquivalent(a, b) == 1, "exactly one of less, equal, greater holds");
}
FCV_UNIT(version_order_is_transitive, "")
{
	FCDVersion a(fcv_u32("a1"), fcv_u32("a2"), fcv_u32("a3"));
	FCDVersion b(fcv_u32("b1"), fcv_u32("b2"), fcv_u32("b3"));
	FCDVersion c(fcv_u32("c1"), fcv_u32("c2"), fcv_u32("c3"));
	fcv_assume(a < b); fcv_assume(b < c);
	fcv_check(a < c, "less-than is transitive");
	fcv_check(a <= c && c > a && c >= a, "the derived comparisons follow");
}
FCV_UNIT(version_default_and_triple, "")
{
	FCDVersion z;
	fcv_check(z.major == 0 && z.minor == 0 && z.revision == 0, "default version is 0.0.0");
	u32 x = fcv_u32("x"), y = fcv_u32("y"), w = fcv_u32("w");
	FCDVersion v(x, y, w);
	fcv_check(v.major == x && v.minor == y && v.revision == w, "the three numbers are kept in order");
}
// text = digits '.' digits '.' digits; each number is the decimal value of its digits (modulo 2^32)
struct Txt { const char* s; u64 from; };
static bool spec_is_digit(const void* c, u64 k) { const Txt* t = (const Txt*) c; char x = t->s[t->from + k]; return x >= '0' && x <= '9'; }
static u32 spec_decimal(u32 acc, const void* c, u64 k) { const Txt* t = (const Txt*) c; return acc * 10u + (u32) (t->s[t->from + k] - '0'); }
FCV_UNIT(version_parse, "bounds=n1:2,n2:2,n3:2;search=4")
{
	u64 n1 = fcv_len("n1", 9), n2 = fcv_len("n2", 9), n3 = fcv_len("n3", 9);
	fcv_assume(n1 > 0 && n2 > 0 && n3 > 0);
	u64 n = n1 + n2 + n3 + 2;
	char* s = fcv_text("s", n);
#ifndef FCV_SYM
	for (u64 i = 0; i < n; ++i) s[i] = (char) ('0' + (u8) s[i] % 10);
	s[n1] = '.'; s[n1 + 1 + n2] = '.';
#endif
	Txt t1 = {s, 0}, t2 = {s, n1 + 1}, t3 = {s, n1 + n2 + 2};
	fcv_assume_all(0, n1, &spec_is_digit, &t1); fcv_assume(s[n1] == '.');
	fcv_assume_all(0, n2, &spec_is_digit, &t2); fcv_assume(s[n1 + 1 + n2] == '.');
	fcv_assume_all(0, n3, &spec_is_digit, &t3);
	u32 v1 = fcv_fold_u32(&spec_decimal, 0, &t1, n1);
	u32 v2 = fcv_fold_u32(&spec_decimal, 0, &t2, n2);
	u32 v3 = fcv_fold_u32(&spec_decimal, 0, &t3, n3);
	FCDVersion v;
	fm::string str(s);
	v.ParseVersionNumbers(str);
	fcv_check(v.major == v1, "the first number is the major version");
	fcv_check(v.minor == v2, "the second number is the minor version");
	fcv_check(v.revision == v3, "the third number is the revision");
}
