// @property C14
// @sources FCollada/FUtils/FUString.cpp FCollada/FMath/FMAllocator.cpp FCollada/FUtils/FUStringConversion.cpp FCollada/FUtils/FUStringBuilder.cpp
// @native whole
#include "../FCollada/FUtils/FUUniqueStringMap.cpp"
#include "fcv.h"
#ifndef FCV_SYM
#include <set>
#include <string>
#endif
typedef fm::string S; typedef FUSUniqueStringMap M;
static bool digit(char c) { return c >= '0' && c <= '9'; }
// splitting a name into its stem and its number: the number is the decimal one at the end, so that stem and number determine the name
FCV_UNIT(split_stem, "contract=FUStringConversion::ToUInt32(char const*)")
{
	u64 n = fcv_len("n", 20); char* t = fcv_text("t", n); u64 sk = fcv_len("k", 20), z = fcv_len("zero", 20);
#ifndef FCV_SYM
	for (u64 k = 0; k < n; ++k) { if (fcv_bool("digit")) t[k] = '0' + (t[k] & 7) * fcv_small("nonzero", 0, 1); if (t[k] == 0) t[k] = 'x'; }
#endif
	fcv_assume_all(0, n, +[](const void* s, u64 k) { return ((const char*) s)[k] != 0; }, t); S s(t), prefix; u32 suffix; SplitString(s, prefix, suffix); u64 p = prefix.length(); fcv_check(p <= n, "the stem is a part of the name"); if (p > n) return;
	fcv_forall(0, p, [&](u64 k) { fcv_check(prefix.c_str()[k] == t[k], "the stem is the beginning of the name"); });
	if (suffix == ~(u32) 0) { fcv_check(p == n, "a name without a number is its stem"); return; }
	fcv_check(p < n && n - p <= 9, "a number has one to nine digits"); fcv_forall(p, n, [&](u64 k) { fcv_check(digit(t[k]), "a number is made of digits"); }); if (p < n) fcv_check(n - p == 1 || t[p] != '0', "a number has no leading zeroes"); if (p < n) fcv_cover("number");
}
#ifdef FCV_SYM
extern "C" u32 fcv_contract_FUStringConversion_ToUInt32(const char* t) { fcv_check(digit(*t), "only digits are read as a number"); u32 v = fcv_u32("value"); fcv_assume(v <= 999999999u); return v; } // C06: the value of up to nine digits
#endif
FCV_UNIT(split_number, "shape=names of up to 3 characters;unrollall=1;split=n:0-3") // names that differ have another stem or another number
{
	u32 n = fcv_small("n", 0, 3), m = fcv_small("m", 0, 3); char a[4], b[4]; for (u32 k = 0; k < 3; ++k) { a[k] = (char) fcv_u8("a"); b[k] = (char) fcv_u8("b"); if (FCV_NATIVE) { a[k] = "a019"[a[k] & 3]; b[k] = "a019"[b[k] & 3]; } fcv_assume(a[k] != 0); fcv_assume(b[k] != 0); } a[n] = b[m] = 0;
	S p, q; u32 x, y; SplitString(S(a), p, x); SplitString(S(b), q, y); bool same = n == m; if (same) for (u32 k = 0; k < n; ++k) same = same & (a[k] == b[k]); bool stem = p.length() == q.length(); if (stem) for (u32 k = 0; k < p.length(); ++k) stem = stem & (p.c_str()[k] == q.c_str()[k]); fcv_check(same == (stem & (x == y)), "stem and number determine the name");
}
// a set filled by real insertions: names over the characters that matter, all combinations; the characters of the stems are arbitrary
enum { MANY = FCV_NATIVE ? 40 : 12 };
struct Set
{
	M m; S name[MANY]; bool in[MANY]; u32 n;
	Set() : n(0) {}
	bool has(const S& s) { for (u32 i = 0; i < n; ++i) if (in[i] && name[i] == s) return true; return false; }
	void insert(const S& want)
	{
		bool there = has(want); fcv_check(m.contains(want) == there, "a name is contained if it is in the set"); S got = want; m.insert(got); fcv_check(there || got == want, "a free name is kept"); fcv_check(!has(got), "the resulting name was not in the set"); fcv_check(m.contains(got), "the resulting name is in the set"); if (n < MANY) { name[n] = got; in[n++] = true; }
	}
	void erase(const S& s) { m.erase(s); for (u32 i = 0; i < n; ++i) if (in[i] && name[i] == s) in[i] = false; fcv_check(!m.contains(s), "an erased name is not in the set"); }
	void check() { for (u32 i = 0; i < n; ++i) { bool again = false; for (u32 j = 0; j < i; ++j) if (name[j] == name[i]) again = true; if (!again) fcv_check(m.contains(name[i]) == has(name[i]), "names stay in the set until they are erased"); } }
};
static const char* const TEXT[] = { "", "a", "a1", "a2", "a9", "a10", "a01", "a1b", "1", "0", "a999999999", "a4294967295", "a0", "b" };
FCV_UNIT(two_names, "shape=histories of two insertions and one erasure of names;unrollall=1;split=first:0-13")
{
	Set s; u32 i = fcv_small("first", 0, 13), j = fcv_small("second", 0, 13), k = fcv_small("third", 0, 13); s.insert(TEXT[i]); s.check(); s.insert(TEXT[j]); s.check(); if (fcv_small("erase", 0, 1)) s.erase(TEXT[k]); else s.insert(TEXT[k]); s.check();
}
FCV_UNIT(repeated, "shape=up to 5 insertions of names that end in digits, with erasures;unrollall=1;split=base:0-5") // the generated names run into each other
{
	Set s; u32 i = fcv_small("base", 0, 5); const char* t = TEXT[i + 1]; u32 gone = fcv_small("gone", 0, 5); for (u32 c = 0; c < 5; ++c) { s.insert(t); s.check(); if (c == gone) { s.erase(s.name[fcv_small("which", 0, c)]); s.check(); } }
}
FCV_UNIT(any_stem, "shape=stems of up to 2 arbitrary characters;unrollall=1;split=n:0-2") // two names with arbitrary characters
{
	u32 n = fcv_small("n", 0, 2), m = fcv_small("m", 0, 2); char a[3], b[3]; for (u32 k = 0; k < 2; ++k) { a[k] = (char) fcv_u8("a"); b[k] = (char) fcv_u8("b"); if (FCV_NATIVE) { a[k] = "ab19"[a[k] & 3]; b[k] = "ab19"[b[k] & 3]; } fcv_assume(a[k] != 0); fcv_assume(b[k] != 0); } a[n] = b[m] = 0;
	Set s; s.insert(a); s.insert(b); s.check(); s.erase(a); s.check();
}
FCV_UNIT(history, "native")
{
#ifndef FCV_SYM
	M m; std::set<std::string> r; u32 steps = fcv_small("steps", 1, 80), kinds = fcv_small("kinds", 1, 6);
	for (u32 i = 0; i < steps; ++i)
	{
		char b[32]; u32 x = fcv_small("x", 0, kinds), y = fcv_small("y", 0, 11); const char* stem = x == 0 ? "a" : x == 1 ? "b" : x == 2 ? "" : x == 3 ? "a1" : x == 4 ? "a0" : x == 5 ? "a1b" : "a00"; if (y == 0) strcpy(b, stem); else if (y == 10) sprintf(b, "%s429496729%u", stem, fcv_small("z", 0, 9)); else if (y == 11) sprintf(b, "%s99999999%u", stem, fcv_small("z", 0, 9)); else sprintf(b, "%s%u", stem, y);
		if (fcv_small("op", 0, 3) == 0) { m.erase(S(b)); r.erase(b); if (!r.empty() && fcv_bool("also")) { u32 c = fcv_small("c", 0, r.size() - 1); std::set<std::string>::iterator it = r.begin(); while (c--) ++it; m.erase(S(it->c_str())); r.erase(it); } }
		else { S s(b); bool there = r.count(b) != 0; fcv_check(m.contains(s) == there, "a name is contained if it is in the set"); m.insert(s); fcv_check(there || s == b, "a free name is kept"); fcv_check(r.insert(s.c_str()).second, "the resulting name was not in the set"); fcv_check(m.contains(s), "the resulting name is in the set"); }
		bool ok = !m.contains(S(b)) || r.count(b); for (std::set<std::string>::iterator it = r.begin(); it != r.end(); ++it) ok = ok && m.contains(S(it->c_str())); fcv_check(ok, "names stay in the set until they are erased");
	}
#endif
}
