// @property C08
// @sources FCollada/FUtils/FUStringConversion.cpp FCollada/FUtils/FUStringBuilder.cpp FCollada/FUtils/FUString.cpp FCollada/FMath/FMMatrix44.cpp FCollada/FMath/FMVector3.cpp
// @native whole
#include "StdAfx.h"
#include "FUtils/FUStringConversion.h"
#include "fcv.h"

// a text of words separated by blanks; every digit is arbitrary
struct Words
{
	char t[420]; u32 n, count, number[48], start[48], length[48];
	u32 style;
	Words();
	void blank(u32 k) { static const char kinds[4] = { ' ', '\n', '\t', '\r' }; for (u32 i = 0; i < k; ++i) { t[n] = kinds[(style + i + count) & 3]; ++n; } }
	u32 digit() {
#ifdef FCV_SYM
		u8 d = fcv_u8("digit"); fcv_assume(d <= 9);
#else
		u8 d = fcv_small("digit", 0, 9);
#endif
		t[n++] = (char) (0x30 | d); return d; }
	void word(u32 digits) { start[count] = n; u32 v = 0; for (u32 i = 0; i < digits; ++i) v = v * 10 + digit(); number[count] = v; length[count++] = digits; }
	// `k` words, blanks before and after as chosen
	void fill(u32 k, u32 digits, bool before, bool after) { if (before) blank(2); for (u32 i = 0; i < k; ++i) { if (i) blank(1 + (i & 1)); word(1 + (i + 1) % digits); } if (after) blank(1 + k % 2); t[n] = 0; }
};
#ifndef FCV_SYM
enum { MAXW = 12 };
#else
enum { MAXW = 4 };
#endif
// the contracts of the number readers (their bodies are under contract in C06 and C07) and of the word counter (unit count): the value of
// the word at or after the place, and the cursor moves to the next word or the end
static Words* words;
Words::Words() : n(0), count(0) { style = fcv_small("blanks", 0, 3); words = this; }
static u32 next(const char** p)
{
	u32 o = (u32) (*p - words->t); fcv_check(o <= words->n, "words are read from places of the text");
	for (u32 i = 0; i < words->count; ++i) if (o <= words->start[i]) { fcv_check(i == 0 || o >= words->start[i - 1] + words->length[i - 1], "words are read from their start"); *p = words->t + (i + 1 < words->count ? words->start[i + 1] : words->n); return words->number[i]; }
	*p = words->t + words->n; return 0;
}
extern "C" int32 fcv_contract_FUStringConversion_ToInt32(const char** p) { return (int32) next(p); }
extern "C" uint32 fcv_contract_FUStringConversion_ToUInt32(const char** p) { return next(p); }
extern "C" float fcv_contract_FUStringConversion_ToFloat(const char** p) { return (float) next(p); }
extern "C" size_t fcv_contract_FUStringConversion_CountValues(const char* s) { u32 o = (u32) (s - words->t), c = 0; for (u32 i = 0; i < words->count; ++i) if (o <= words->start[i]) ++c; return c; }
template <class L, class F> static void read_list(F read, bool sign)
{
	Words w; u32 k = fcv_small("words", 0, MAXW), old = fcv_small("old", 0, 2); w.fill(k, 2, fcv_bool("before"), fcv_bool("after"));
	L a; old = old == 0 ? 0 : old == 1 ? (k + 1) / 2 : k + 1; for (u32 i = 0; i < old; ++i) a.push_back((typename L::value_type) 77);
	read(w.t, a);
	fcv_check(a.size() == k, "a list has as many items as the text has words"); if (a.size() != k) return;
	for (u32 i = 0; i < k; ++i) fcv_check(a[i] == (typename L::value_type) w.number[i], "the items of a list are those of the text, in order");
}
static void r_i(const char* t, Int32List& a) { FUStringConversion::ToInt32List(t, a); }
static void r_u(const char* t, UInt32List& a) { FUStringConversion::ToUInt32List(t, a); }
static void r_f(const char* t, FloatList& a) { FUStringConversion::ToFloatList(t, a); }
struct I32 : Int32List { typedef int32 value_type; };
struct U32 : UInt32List { typedef uint32 value_type; };
struct F32 : FloatList { typedef float value_type; };
FCV_UNIT(int_list, "shape=up to 4 words of up to 2 digits;unrollall=1;contract=FUStringConversion::ToInt32(char const**)|FUStringConversion::ToUInt32(char const**)|FUStringConversion::ToFloat(char const**)|FUStringConversion::CountValues;split=words:0-4") { read_list<I32>(&r_i, true); }
FCV_UNIT(uint_list, "shape=up to 4 words of up to 2 digits;unrollall=1;contract=FUStringConversion::ToInt32(char const**)|FUStringConversion::ToUInt32(char const**)|FUStringConversion::ToFloat(char const**)|FUStringConversion::CountValues;split=words:0-4") { read_list<U32>(&r_u, false); }
FCV_UNIT(float_list, "shape=up to 4 words of up to 2 digits;unrollall=1;contract=FUStringConversion::ToInt32(char const**)|FUStringConversion::ToUInt32(char const**)|FUStringConversion::ToFloat(char const**)|FUStringConversion::CountValues;fmode=real;split=words:0-4") { read_list<F32>(&r_f, false); }
FCV_UNIT(bool_list, "shape=up to 4 words;unrollall=1;split=words:0-4")
{
	Words w; u32 k = fcv_small("words", 0, MAXW), old = fcv_small("old", 0, 1) ? k + 1 : 0; u32 pattern = fcv_small("pattern", 0, 3); bool v[MAXW]; if (fcv_bool("before")) w.blank(2);
	for (u32 i = 0; i < k; ++i) { if (i) w.blank(1); u32 f = (pattern + i + i / 4) & 3; v[i] = f & 1; const char* s = f == 0 ? "false" : f == 1 ? "true" : f == 2 ? "0" : "1"; while (*s) w.t[w.n++] = *s++; ++w.count; }
	if (fcv_bool("after")) w.blank(1); w.t[w.n] = 0;
	BooleanList a; for (u32 i = 0; i < old; ++i) a.push_back(true);
	FUStringConversion::ToBooleanList(w.t, a); fcv_check(a.size() == k, "a list has as many items as the text has words"); if (a.size() != k) return;
	for (u32 i = 0; i < k; ++i) fcv_check(a[i] == v[i], "the items of a list are those of the text, in order");
}
FCV_UNIT(string_list, "shape=up to 3 words of up to 3 characters;unrollall=1;budget=100;split=words:0-3")
{
	Words w; u32 k = fcv_small("words", 0, FCV_NATIVE ? 12 : 3), old = fcv_small("old", 0, 2); if (fcv_bool("before")) w.blank(2);
	for (u32 i = 0; i < k; ++i)
	{
		if (i) w.blank(1 + i % 2); u32 len = 1 + (i + 1) % 3; w.start[i] = w.n; w.length[i] = len;
		for (u32 j = 0; j < len; ++j) { char c = (char) fcv_u8("c");
#ifndef FCV_SYM
			if (c == 0 || c == ' ' || c == '\t' || c == '\r' || c == '\n') c = 'q';
#endif
			fcv_assume((c != 0) & (c != ' ') & (c != '\t') & (c != '\r') & (c != '\n')); w.t[w.n++] = c; }
		++w.count;
	}
	if (fcv_bool("after")) w.blank(1); w.t[w.n] = 0;
	StringList a; old = old == 0 ? 0 : old == 1 ? (k + 1) / 2 : k + 1; for (u32 i = 0; i < old; ++i) a.push_back(fm::string("old"));
	if (fcv_bool("f")) FUStringConversion::ToFStringList(fstring(w.t), a); else FUStringConversion::ToStringList(w.t, a);
	fcv_check(a.size() == k, "a list has as many items as the text has words"); if (a.size() != k) return;
	for (u32 i = 0; i < k; ++i)
	{
		fcv_check(a[i].length() == w.length[i], "a word is read completely"); if (a[i].length() != w.length[i]) return;
		for (u32 j = 0; j < w.length[i]; ++j) fcv_check(a[i][j] == w.t[w.start[i] + j], "a word is read character by character");
	}
}
FCV_UNIT(count, "shape=any text of up to 6 characters;unrollall=1;split=n:0-6")
{
	u32 n = fcv_small("n", 0, FCV_NATIVE ? 20 : 6); char* t = fcv_text("t", n); u32 want = 0; bool in = false;
#ifndef FCV_SYM
	for (u32 i = 0; i < n; ++i) if (t[i] & 1) t[i] = " \t\r\n"[(t[i] >> 1) & 3];
#endif
	for (u32 i = 0; i < n; ++i) { bool b = (t[i] == ' ') | (t[i] == '\t') | (t[i] == '\r') | (t[i] == '\n'); want += !b & !in; in = !b; }
	fcv_check(FUStringConversion::CountValues(t) == want, "the count is the number of words");
}
FCV_UNIT(vectors, "shape=0 to 9 words of one digit;unrollall=1;contract=FUStringConversion::ToInt32(char const**)|FUStringConversion::ToUInt32(char const**)|FUStringConversion::ToFloat(char const**)|FUStringConversion::CountValues;fmode=real;split=words:0-9")
{
	Words w; u32 k = fcv_small("words", 0, 9), dim = fcv_small("dim", 2, 4), old = fcv_small("old", 0, 2); fcv_assume(k % dim == 0); u32 m = k / dim; w.fill(k, 1, fcv_bool("before"), true);
	old = old == 0 ? 0 : old == 1 ? (m + 1) / 2 : m + 1;
	if (dim == 2) { FMVector2List a; for (u32 i = 0; i < old; ++i) a.push_back(FMVector2(7, 7)); FUStringConversion::ToVector2List(w.t, a); fcv_check(a.size() == m, "a list has as many vectors as the text has"); if (a.size() != m) return;
		for (u32 i = 0; i < m; ++i) for (u32 j = 0; j < 2; ++j) fcv_check((&a[i].x)[j] == (float) w.number[i * 2 + j], "the vectors are those of the text, in order"); }
	if (dim == 3) { FMVector3List a; for (u32 i = 0; i < old; ++i) a.push_back(FMVector3(7, 7, 7)); FUStringConversion::ToVector3List(w.t, a); fcv_check(a.size() == m, "a list has as many vectors as the text has"); if (a.size() != m) return;
		for (u32 i = 0; i < m; ++i) for (u32 j = 0; j < 3; ++j) fcv_check((&a[i].x)[j] == (float) w.number[i * 3 + j], "the vectors are those of the text, in order"); }
	if (dim == 4) { FMVector4List a; for (u32 i = 0; i < old; ++i) a.push_back(FMVector4(7, 7, 7, 7)); FUStringConversion::ToVector4List(w.t, a); fcv_check(a.size() == m, "a list has as many vectors as the text has"); if (a.size() != m) return;
		for (u32 i = 0; i < m; ++i) for (u32 j = 0; j < 4; ++j) fcv_check((&a[i].x)[j] == (float) w.number[i * 4 + j], "the vectors are those of the text, in order"); }
}
FCV_UNIT(single, "shape=the words of a vector or matrix and up to two more;unrollall=1;contract=FUStringConversion::ToInt32(char const**)|FUStringConversion::ToUInt32(char const**)|FUStringConversion::ToFloat(char const**)|FUStringConversion::CountValues;fmode=real;split=dim:2-5")
{
	Words w; u32 dim = fcv_small("dim", 2, 5), more = fcv_small("more", 0, 2), k = dim == 5 ? 16 : dim; w.fill(k + more, 1, fcv_bool("before"), true);
	const char* p = w.t;
	if (dim == 2) { FMVector2 v = FUStringConversion::ToVector2(&p); for (u32 j = 0; j < 2; ++j) fcv_check((&v.x)[j] == (float) w.number[j], "a vector is read from the text"); }
	if (dim == 3) { FMVector3 v = FUStringConversion::ToVector3(&p); for (u32 j = 0; j < 3; ++j) fcv_check((&v.x)[j] == (float) w.number[j], "a vector is read from the text"); }
	if (dim == 4) { FMVector4 v = FUStringConversion::ToVector4(&p); for (u32 j = 0; j < 4; ++j) fcv_check((&v.x)[j] == (float) w.number[j], "a vector is read from the text"); }
	if (dim == 5) { FMMatrix44 m; FUStringConversion::ToMatrix(&p, m); for (u32 i = 0; i < 4; ++i) for (u32 j = 0; j < 4; ++j) fcv_check(m[j][i] == (float) w.number[i * 4 + j], "a matrix is read from the text row by row"); }
	fcv_check(p == w.t + (more ? w.start[k] : w.n), "the reader stops at the requested count");
}
FCV_UNIT(short_vector, "shape=fewer words than a vector has;unrollall=1;contract=FUStringConversion::ToInt32(char const**)|FUStringConversion::ToUInt32(char const**)|FUStringConversion::ToFloat(char const**)|FUStringConversion::CountValues;fmode=real")
{
	Words w; u32 k = fcv_small("words", 0, 3); w.fill(k, 1, false, fcv_bool("after")); const char* p = w.t;
	if (k == 0) p = ""; FMVector4 v = FUStringConversion::ToVector4(&p); fcv_check(*p == 0, "the reader stops at the end of the text");
	for (u32 j = 0; j < k; ++j) fcv_check((&v.x)[j] == (float) w.number[j], "the listed values are read"); if (k == 3) fcv_check(v.w == 1.0f, "the fourth component defaults to one");
}
FCV_UNIT(matrix_list, "shape=0 to 2 matrices of one-digit words;unrollall=1;contract=FUStringConversion::ToInt32(char const**)|FUStringConversion::ToUInt32(char const**)|FUStringConversion::ToFloat(char const**)|FUStringConversion::CountValues;fmode=real;split=matrices:0-2")
{
	Words w; u32 m = fcv_small("matrices", 0, 2), old = fcv_small("old", 0, 1) ? m + 1 : 0; w.fill(16 * m, 1, fcv_bool("before"), fcv_bool("after"));
	FMMatrix44List a; for (u32 i = 0; i < old; ++i) a.push_back(FMMatrix44::Identity);
	FUStringConversion::ToMatrixList(w.t, a); fcv_check(a.size() == m, "a list has as many matrices as the text has"); if (a.size() != m) return;
	for (u32 q = 0; q < m; ++q) for (u32 i = 0; i < 4; ++i) for (u32 j = 0; j < 4; ++j) fcv_check(a[q][j][i] == (float) w.number[q * 16 + i * 4 + j], "the matrices are those of the text, in order");
}
template <class L, class F> static void interleaved(F read)
{
	Words w; u32 k = fcv_small("words", 0, 6), stride = fcv_small("stride", 1, 3); fcv_assume(k % stride == 0); u32 m = k / stride, old = fcv_small("old", 0, 2); w.fill(k, 1, fcv_bool("before"), fcv_bool("after"));
	old = old == 0 ? 0 : old == 1 ? (m + 1) / 2 : m + 1; L a[3]; fm::pvector<L> all; u32 skip = fcv_small("skip", 0, 2);
	for (u32 i = 0; i < stride; ++i) { for (u32 j = 0; j < old; ++j) a[i].push_back(7); all.push_back(i > 0 && i == skip ? NULL : &a[i]); }
	read(w.t, all);
	for (u32 i = 0; i < stride; ++i)
		if (all[i] != NULL)
		{
			fcv_check(a[i].size() == m, "every list has its share of the words"); if (a[i].size() != m) return;
			for (u32 j = 0; j < m; ++j) fcv_check(a[i][j] == w.number[j * stride + i], "the words go to the lists in turn");
		}
}
static void r_fi(const char* t, fm::pvector<FloatList>& a) { FUStringConversion::ToInterleavedFloatList(t, a); }
static void r_ui(const char* t, fm::pvector<UInt32List>& a) { FUStringConversion::ToInterleavedUInt32List(t, a); }
FCV_UNIT(interleaved_floats, "shape=up to 6 words of one digit in up to 3 lists;unrollall=1;contract=FUStringConversion::ToInt32(char const**)|FUStringConversion::ToUInt32(char const**)|FUStringConversion::ToFloat(char const**)|FUStringConversion::CountValues;fmode=real;split=words:0-6") { interleaved<FloatList>(&r_fi); }
FCV_UNIT(interleaved_integers, "shape=up to 6 words of one digit in up to 3 lists;unrollall=1;contract=FUStringConversion::ToInt32(char const**)|FUStringConversion::ToUInt32(char const**)|FUStringConversion::ToFloat(char const**)|FUStringConversion::CountValues;split=words:0-6") { interleaved<UInt32List>(&r_ui); }
// any text at all, in any list: address sanitizer watches the bounds
FCV_UNIT(any_text, "native;search=5")
{
	u64 n = fcv_len("n", 24); char* t = fcv_text("t", n); for (u64 i = 0; i < n; ++i) { u8 c = t[i]; if (c & 3) t[i] = " \t\r\n-+.eEINF059"[(c >> 2) & 15]; if (!t[i]) t[i] = 'I'; }
	u32 old = fcv_small("old", 0, 5), words = FUStringConversion::CountValues(t);
	Int32List i; UInt32List u; FloatList f; BooleanList b; FMVector2List v2; FMVector3List v3; FMVector4List v4; FMMatrix44List m; StringList s;
	for (u32 k = 0; k < old; ++k) { i.push_back(1); u.push_back(1); f.push_back(1); b.push_back(true); v2.push_back(FMVector2()); v3.push_back(FMVector3()); v4.push_back(FMVector4()); m.push_back(FMMatrix44::Identity); s.push_back("x"); }
	FUStringConversion::ToInt32List(t, i); FUStringConversion::ToUInt32List(t, u); FUStringConversion::ToFloatList(t, f); FUStringConversion::ToBooleanList(t, b); FUStringConversion::ToStringList(t, s);
	fcv_check(i.size() == words && u.size() == words && f.size() <= words && b.size() == words && s.size() == words, "every list has as many items as the text has words");
	FUStringConversion::ToVector2List(t, v2); FUStringConversion::ToVector3List(t, v3); FUStringConversion::ToVector4List(t, v4); FUStringConversion::ToMatrixList(t, m);
	fcv_check(v2.size() <= (words + 1) / 2 && v3.size() <= (words + 2) / 3 && v4.size() <= (words + 3) / 4 && m.size() <= (words + 15) / 16, "every list has its share of the words");
}
