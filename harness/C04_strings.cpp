// @property C04
// @sources FCollada/FUtils/FUString.cpp FCollada/FMath/FMAllocator.cpp
// @native FCollada/FUtils/FUString.cpp FCollada/FMath/FMAllocator.cpp FCollada/FUtils/FUAssert.cpp
#include "StdAfx.h"
#include "FUtils/FUString.h"
#include "fcv.h"
#ifndef FCV_SYM
#include <string>
#endif
typedef fm::string S;
static const u64 npos = ~(u64) 0;
static u64 least(u64 a, u64 b) { return a < b ? a : b; }
static bool notzero(const void* s, u64 k) { return ((const char*) s)[k] != 0; }
// an arbitrary text of n characters
static char* word(const char* name, u64 n)
{
	char* s = fcv_text(name, n);
#ifndef FCV_SYM
	bool few = fcv_bool("few"); for (u64 k = 0; k < n; ++k) { if (few) s[k] = "ab\xE9" "a"[s[k] & 3]; if (s[k] == 0) s[k] = 'x'; }
#else
	fcv_assume_all(0, n, &notzero, s);
#endif
	return s;
}
static char letter(const char* name) { u8 c = fcv_u8(name); if (FCV_NATIVE && c < 128) c = "ab\xE9" "c"[c & 3]; fcv_assume(c != 0); return (char) c; }
// an arbitrary string: any text in a buffer of any size
struct Any
{
	S s; char* t; u64 n, live;
	Any(const char* name = "t") { make(name, fcv_len("n", 40)); }
	Any(const char* name, u64 n) { make(name, n); }
	void make(const char* name, u64 _n)
	{
		n = _n; t = word(name, n); u64 spare = fcv_len("spare", 36); fm::Release(s.heapBuffer); s.sized = n + 1; s.reserved = n + 1 + spare; s.heapBuffer = (char*) fm::Allocate(s.reserved); memcpy(s.heapBuffer, t, n + 1); live = fcv_live() - 1;
	}
	// a sound string of `size` characters, the first `kept` of which are the old ones
	bool sound(u64 size, u64 kept, u64 others = 0)
	{
		fcv_check(s.length() == size && s.size() == size && s.empty() == (size == 0), "the string has the expected length"); fcv_check(s.sized <= s.reserved, "the characters fit into the buffer"); fcv_check(s.heapBuffer != 0 && (FCV_NATIVE || fcv_objsize(s.heapBuffer) == s.reserved), "the buffer has room for the recorded number of characters"); fcv_check(FCV_NATIVE || fcv_live() == live + 1 + others, "the string owns one buffer; old ones are released");
		if (s.sized != size + 1 || s.sized > s.reserved) return false;
		fcv_check(s.heapBuffer[size] == 0 && s.c_str() == s.heapBuffer, "the text is zero-terminated"); fcv_forall(0, kept, [&](u64 k) { fcv_check(s.heapBuffer[k] == t[k], "the characters before the change are kept"); }); return true;
	}
	void moved(u64 from, u64 to, u64 count, const char* why) { fcv_forall(0, count, [&](u64 k) { fcv_check(s.heapBuffer[to + k] == t[from + k], why); }); }
	void holds(u64 at, u64 count, const char* x, const char* why) { fcv_forall(0, count, [&](u64 k) { fcv_check(s.heapBuffer[at + k] == x[k], why); }); }
};
static bool is(const S& s, u64 size) // a sound string of that length
{
	fcv_check(s.length() == size, "the string has the expected length"); fcv_check(s.sized <= s.reserved && s.heapBuffer != 0, "the characters fit into the buffer"); fcv_check(FCV_NATIVE || fcv_objsize(s.heapBuffer) == s.reserved, "the buffer has room for the recorded number of characters"); if (s.sized != size + 1 || s.sized > s.reserved) return false; fcv_check(s.heapBuffer[size] == 0, "the text is zero-terminated"); return true;
}
// ---- construction
FCV_UNIT(make_empty, "") { u64 live = fcv_live(); { S s; is(s, 0); fcv_check(s.empty() && *s.c_str() == 0, "a new string is empty"); S u((const char*) 0); is(u, 0); S v((const char*) 0, 5); is(v, 0); S w(""); is(w, 0); S x("abc", 0); is(x, 0); S y("", npos); is(y, 0); S z("", 3); is(z, 0); } fcv_check(FCV_NATIVE || fcv_live() == live, "the destructor releases the buffer"); }
FCV_UNIT(make_text, "") { u64 n = fcv_len("n", 60); char* t = word("t", n); u64 live = fcv_live(); { S s(t); if (is(s, n)) fcv_forall(0, n, [&](u64 k) { fcv_check(s.heapBuffer[k] == t[k], "a string from a text has its characters"); }); } fcv_check(FCV_NATIVE || fcv_live() == live, "the destructor releases the buffer"); }
FCV_UNIT(make_part, "") { u64 n = fcv_len("n", 60), c = fcv_bool("all") ? npos : fcv_len("count", 60); char* t = word("t", n); S s(t, c); u64 m = least(n, c); if (is(s, m)) fcv_forall(0, m, [&](u64 k) { fcv_check(s.heapBuffer[k] == t[k], "a string from a part of a text has its characters"); }); }
FCV_UNIT(make_repeat, "") { u64 n = fcv_len("n", 60); char c = letter("c"); S s(n, c); if (is(s, n)) fcv_forall(0, n, [&](u64 k) { fcv_check(s.heapBuffer[k] == c, "a string of one repeated character"); }); }
FCV_UNIT(make_copy, "") { Any a; u64 live = fcv_live(); { S s(a.s); if (is(s, a.n)) fcv_forall(0, a.n, [&](u64 k) { fcv_check(s.heapBuffer[k] == a.t[k], "a copy has the same text"); }); fcv_check(s.heapBuffer != a.s.heapBuffer, "a copy has a buffer of its own"); } a.sound(a.n, a.n); }
FCV_UNIT(assign, "") { Any b("u"); Any a; a.s = b.s; if (a.sound(b.n, 0)) a.holds(0, b.n, b.t, "an assigned string has the same text"); fcv_check(a.s.heapBuffer != b.s.heapBuffer && b.s.length() == b.n, "the original keeps its buffer"); fcv_forall(0, b.n, [&](u64 k) { fcv_check(b.s.heapBuffer[k] == b.t[k], "the original is unchanged"); }); }
FCV_UNIT(assign_itself, "") { Any a; a.s = a.s; a.sound(a.n, a.n); }
FCV_UNIT(assign_text, "") { u64 m = fcv_len("m", 40); char* u = word("u", m); Any a; a.s = u; if (a.sound(m, 0)) a.holds(0, m, u, "an assigned text is the string's text"); }
// ---- growing and shrinking
FCV_UNIT(append_character, "") { Any a; char c = letter("c"); a.s.append(c); if (a.sound(a.n + 1, a.n)) fcv_check(a.s.heapBuffer[a.n] == c && a.s.back() == c, "the character is appended"); }
FCV_UNIT(append_no_character, "") { Any a; a.s.append((char) 0); a.sound(a.n, a.n); }
FCV_UNIT(append_text, "") { u64 m = fcv_len("m", 40); char* u = word("u", m); Any a; if (fcv_bool("+=")) a.s += u; else a.s.append(u); if (a.sound(a.n + m, a.n)) a.holds(a.n, m, u, "the text is appended"); }
FCV_UNIT(append_part, "") { u64 m = fcv_len("m", 40), c = fcv_bool("all") ? npos : fcv_len("count", 60); char* u = word("u", m); Any a; a.s.append(u, c); u64 x = least(m, c); if (a.sound(a.n + x, a.n)) a.holds(a.n, x, u, "the part is appended"); }
FCV_UNIT(append_string, "") { Any b("u"); Any a; if (fcv_bool("+=")) a.s += b.s; else a.s.append(b.s); if (a.sound(a.n + b.n, a.n)) a.holds(a.n, b.n, b.t, "the string is appended"); }
FCV_UNIT(append_itself, "") { Any a; if (fcv_bool("as text")) a.s.append(a.s.c_str()); else a.s.append(a.s); if (a.sound(2 * a.n, a.n)) a.moved(0, a.n, a.n, "the string is appended"); }
FCV_UNIT(append_nothing, "") { Any a; S e; a.live = fcv_live() - 1; u32 how = fcv_small("how", 0, 3); if (how == 0) a.s.append((const char*) 0); else if (how == 1) a.s.append(""); else if (how == 2) a.s.append(e); else a.s.append("abc", 0); a.sound(a.n, a.n); }
FCV_UNIT(insert_text, "split=all:0-1") { u64 m = fcv_len("m", 40), c = fcv_small("all", 0, 1) ? npos : fcv_len("count", 60); u64 at = fcv_bool("end") ? npos : fcv_len("at", 60); char* u = word("u", m); Any a; a.s.insert(at, u, c); u64 x = least(m, c), p = least(at, a.n); if (a.sound(a.n + x, p)) { a.holds(p, x, u, "the text is inserted"); a.moved(p, p + x, a.n - p, "the characters after the inserted ones move up"); } }
FCV_UNIT(insert_string, "") { Any b("u"); u64 at = fcv_bool("end") ? npos : fcv_len("at", 60); Any a; a.s.insert(at, b.s); u64 p = least(at, a.n); if (a.sound(a.n + b.n, p)) { a.holds(p, b.n, b.t, "the string is inserted"); a.moved(p, p + b.n, a.n - p, "the characters after the inserted ones move up"); } }
FCV_UNIT(insert_own, "split=all:0-1") { u64 at = fcv_len("at", 60), from = fcv_len("from", 60), c = fcv_small("all", 0, 1) ? npos : fcv_len("count", 60); Any a; fcv_assume(from <= a.n); a.s.insert(at, a.s.c_str() + from, c); u64 x = least(a.n - from, c), p = least(at, a.n); if (a.sound(a.n + x, p)) { a.moved(from, p, x, "the part is inserted"); a.moved(p, p + x, a.n - p, "the characters after the inserted ones move up"); } }
FCV_UNIT(erase_part, "") { Any a; u64 b = fcv_len("start", 60), e = fcv_bool("all") ? npos : fcv_len("end", 60); a.s.erase(b, e); u64 p = least(b, a.n), q = least(e, a.n); if (q < p) q = p; if (a.sound(a.n - (q - p), p)) a.moved(q, p, a.n - q, "the characters after the erased ones move down"); }
FCV_UNIT(pop, "") { Any a; a.s.pop_back(); a.sound(a.n == 0 ? 0 : a.n - 1, a.n == 0 ? 0 : a.n - 1); }
FCV_UNIT(resize, "") { Any a; u64 c = fcv_len("count", 90); a.s.resize(c); a.sound(c, least(c, a.n)); }
FCV_UNIT(resize_fill, "") { Any a; u64 c = fcv_len("count", 90); char x = letter("x"); a.s.resize(c, x); if (a.sound(c, least(c, a.n))) fcv_forall(a.n, c, [&](u64 k) { fcv_check(a.s.heapBuffer[k] == x, "new characters are the given one"); }); }
FCV_UNIT(cleared, "")
{
	Any a; a.s.clear(); fcv_check(a.s.length() == 0 && a.s.empty() && *a.s.c_str() == 0, "a cleared string is empty"); fcv_check(a.s == S() && a.s.find('a') == npos && a.s.find("a") == npos && a.s.rfind('a') == npos && a.s.find_first_of("a") == npos && a.s.find_last_of("a") == npos && a.s.substr(0).empty(), "nothing is found in a cleared string"); a.s.erase(); a.s.pop_back(); u32 how = fcv_small("how", 0, 4); char c = letter("c"); char u[3] = { c, 'b', 0 };
	if (how == 0) { a.s.append(c); if (is(a.s, 1)) fcv_check(a.s.heapBuffer[0] == c, "a cleared string can be filled again"); } else if (how == 1) { a.s.append(u); if (is(a.s, 2)) fcv_check(a.s.heapBuffer[0] == c && a.s.heapBuffer[1] == 'b', "a cleared string can be filled again"); } else if (how == 2) { a.s.append(S(u)); if (is(a.s, 2)) fcv_check(a.s.heapBuffer[0] == c && a.s.heapBuffer[1] == 'b', "a cleared string can be filled again"); } else if (how == 3) { a.s.resize(2, c); if (is(a.s, 2)) fcv_check(a.s.heapBuffer[0] == c && a.s.heapBuffer[1] == c, "a cleared string can be filled again"); } else { S d(a.s); fcv_check(d.empty() && d == a.s, "a cleared string can be copied"); d = u; d = a.s; fcv_check(d.empty(), "a cleared string can be assigned"); }
}
FCV_UNIT(concat, "")
{
	Any a; Any b("u"); u32 how = fcv_small("how", 0, 2); S s = how == 0 ? a.s + b.s : how == 1 ? a.s + b.s.c_str() : a.s.c_str() + b.s;
	if (is(s, a.n + b.n)) { fcv_forall(0, a.n, [&](u64 k) { fcv_check(s.heapBuffer[k] == a.t[k], "a sum starts with the first text"); }); fcv_forall(0, b.n, [&](u64 k) { fcv_check(s.heapBuffer[a.n + k] == b.t[k], "a sum ends with the second text"); }); }
}
FCV_UNIT(part, "") { Any a; u64 b = fcv_len("start", 60), c = fcv_bool("all") ? npos : fcv_len("count", 60); S s = a.s.substr(b, c); u64 p = least(b, a.n), m = least(c, a.n - p); if (is(s, m)) fcv_forall(0, m, [&](u64 k) { fcv_check(s.heapBuffer[k] == a.t[p + k], "a part has the characters of the string"); }); a.live = fcv_live() - 2; a.sound(a.n, a.n, 1); }
FCV_UNIT(access, "") { Any a; u64 k = fcv_len("k", 40); fcv_assume(k < a.n); const S& c = a.s; fcv_check(a.s[k] == a.t[k] && c[k] == a.t[k] && a.s.at(k) == a.t[k] && c.c_str()[k] == a.t[k] && ((const char*) c)[k] == a.t[k], "characters are accessed by index"); fcv_check(c.back() == a.t[a.n - 1] && a.s.back() == a.t[a.n - 1] && c.front() == a.t[0], "the first and the last character"); a.s.back() = 'z'; fcv_check(c[a.n - 1] == 'z', "the last character can be changed"); }
// ---- searching
struct Look { const char* t; char c; const char* set; u64 m; };
FCV_UNIT(find_character, "") { Any a; u64 off = fcv_bool("beyond") ? npos : fcv_len("offset", 60); char c = letter("c"); u64 r = a.s.find(c, off); if (r == npos) fcv_forall(off, a.n, [&](u64 k) { fcv_check(a.t[k] != c, "a character that is there is found"); }); else { fcv_check(r >= off && r < a.n && a.t[r] == c, "the found character is the requested one"); fcv_forall(off, r, [&](u64 k) { fcv_check(a.t[k] != c, "the first occurrence is found"); }); } a.sound(a.n, a.n); }
FCV_UNIT(rfind_character, "") { Any a; u64 off = fcv_bool("beyond") ? npos : fcv_len("offset", 60); char c = letter("c"); u64 r = a.s.rfind(c, off); if (r == npos) fcv_forall(off, a.n, [&](u64 k) { fcv_check(a.t[k] != c, "a character that is there is found"); }); else { fcv_check(r >= off && r < a.n && a.t[r] == c, "the found character is the requested one"); fcv_forall(r + 1, a.n, [&](u64 k) { fcv_check(a.t[k] != c, "the last occurrence is found"); }); } }
FCV_UNIT(find_no_character, "") { Any a; u64 off = fcv_len("offset", 60); fcv_check(a.s.find((char) 0, off) == npos && a.s.rfind((char) 0, off) == npos && a.s.find("", off) == npos && a.s.rfind("", off) == npos && a.s.find(S(), off) == npos && a.s.rfind(S(), off) == npos && a.s.find_first_of("", off) == npos && a.s.find_last_of("", off) == npos, "nothing is not found"); }
struct Two { const char* a; const char* b; };
FCV_UNIT(equal, "")
{
	Any a; Any b("u");
#ifndef FCV_SYM
	if (fcv_bool("alike")) { b.s = a.s; b.n = a.n; b.t = a.t; if (a.n > 0 && fcv_bool("but one")) { b.t = strdup(a.t); b.t[a.n - 1] ^= 1; if (b.t[a.n - 1] == 0) b.t[a.n - 1] = 'q'; b.s = b.t; } }
#endif
	bool same = a.s == b.s; fcv_check((a.s != b.s) == !same, "unequal is the opposite of equal"); if (same) { fcv_check(a.n == b.n, "equal strings have equal lengths"); if (a.n == b.n) fcv_forall(0, a.n, [&](u64 k) { fcv_check(a.t[k] == b.t[k], "equal strings have equal characters"); }); }
	if (a.n != b.n) fcv_check(!same, "strings of different lengths differ"); u64 k = fcv_len("k", 40); if (k < a.n && k < b.n && a.t[k] != b.t[k]) fcv_check(!same, "strings with different characters differ");
}
FCV_UNIT(equal_text, "")
{
	Any a; Any b("u");
#ifndef FCV_SYM
	if (fcv_bool("alike")) { b.s = a.s; b.n = a.n; b.t = a.t; if (a.n > 0 && fcv_bool("but one")) { b.t = strdup(a.t); b.t[a.n - 1] ^= 1; if (b.t[a.n - 1] == 0) b.t[a.n - 1] = 'q'; b.s = b.t; } }
#endif
	bool same = a.s == b.t; fcv_check((a.s != b.t) == !same, "unequal is the opposite of equal"); if (same) { fcv_check(a.n == b.n, "equal strings have equal lengths"); if (a.n == b.n) fcv_forall(0, a.n, [&](u64 k) { fcv_check(a.t[k] == b.t[k], "equal strings have equal characters"); }); }
	if (a.n != b.n) fcv_check(!same, "strings of different lengths differ"); u64 k = fcv_len("k", 40); if (k < a.n && k < b.n && a.t[k] != b.t[k]) fcv_check(!same, "strings with different characters differ"); fcv_check(a.s != (const char*) 0, "no text differs from every string");
}
FCV_UNIT(equal_same, "split=how:0-5") // strings of the same characters, in buffers of their own
{
	Any a; Any b("u", a.n);
#ifndef FCV_SYM
	b.s = a.t; b.t = a.t;
#endif
	Two two = { a.t, b.t }; fcv_assume_all(0, a.n, +[](const void* p, u64 i) { return ((const Two*) p)->a[i] == ((const Two*) p)->b[i]; }, &two); u32 how = fcv_small("how", 0, 5); fcv_check(how == 0 ? a.s == b.s : how == 1 ? !(a.s != b.s) : how == 2 ? !(a.s < b.s) : how == 3 ? a.s == b.t : how == 4 ? !(a.s != b.t) : IsEquivalent(a.s, b.s), "strings of the same characters are equal");
}
FCV_UNIT(less, "") // k: the first place where the two texts (with their terminators) differ
{
	u64 k = fcv_len("k", 30); Any a; Any b("u"); fcv_assume(k <= a.n); fcv_assume(k <= b.n);
#ifndef FCV_SYM
	for (u64 i = 0; i < k; ++i) b.s[i] = b.t[i] = a.t[i];
#endif
	Two two = { a.t, b.t }; fcv_assume_all(0, k, +[](const void* p, u64 i) { return ((const Two*) p)->a[i] == ((const Two*) p)->b[i]; }, &two); fcv_assume(a.t[k] != b.t[k] || (k == a.n && k == b.n)); bool l = a.t[k] < b.t[k]; fcv_check((a.s < b.s) == l, "strings are ordered by their first different character");
}
// ---- searching for texts: all texts up to a length (every content), natively longer ones over few letters
static char* few(const char* name, u32 n) { char* s = fcv_text(name, n); for (u32 k = 0; k < n; ++k) { if (FCV_NATIVE) s[k] = "ab\xE9" "a"[s[k] & 3]; else fcv_assume(s[k] != 0); } return s; }
static bool match(const char* t, u32 n, const char* p, u32 m, u32 at) { if (at + m > n) return false; bool r = true; for (u32 j = 0; j < m; ++j) r = r & (t[at + j] == p[j]); return r; }
static bool oneof(char c, const char* p, u32 m) { bool r = false; for (u32 j = 0; j < m; ++j) r = r | (c == p[j]); return r; }
enum { MAXT = FCV_NATIVE ? 30 : 4, MAXW = FCV_NATIVE ? 4 : 2 };
struct Find
{
	u32 n, m, off; char* t; char* p; S s;
	Find() : n(fcv_small("n", 0, MAXT)), m(fcv_small("m", 0, MAXW)), off(fcv_small("offset", 0, MAXT + 1)), t(few("t", n)), p(few("p", m)), s(t) {}
	void first(u64 r, const char* why) { u32 k = off; bool good = r == npos; for (u32 j = n; j-- > 0;) if (m > 0 && j >= off) { bool here = match(t, n, p, m, j); good = (here & (r == j)) | (!here & good); } fcv_check(good, why); }
	void last(u64 r, const char* why) { bool good = r == npos; for (u32 j = 0; j < n; ++j) if (m > 0 && j >= off) { bool here = match(t, n, p, m, j); good = (here & (r == j)) | (!here & good); } fcv_check(good, why); }
};
FCV_UNIT(find_text, "shape=texts of up to 4 characters, patterns of up to 2;unrollall=1;split=n:0-4") { Find f; f.first(fcv_bool("as string") ? f.s.find(S(f.p), f.off) : f.s.find(f.p, f.off), "the first occurrence of a text is found"); }
FCV_UNIT(rfind_text, "shape=texts of up to 4 characters, patterns of up to 2;unrollall=1;split=n:0-4") { Find f; f.last(fcv_bool("as string") ? f.s.rfind(S(f.p), f.off) : f.s.rfind(f.p, f.off), "the last occurrence of a text is found"); }
FCV_UNIT(find_first_of, "shape=texts of up to 4 characters, sets of up to 2;unrollall=1;split=n:0-4") { Find f; u64 r = f.s.find_first_of(f.p, f.off); bool good = r == npos; for (u32 j = f.n; j-- > 0;) if (j >= f.off) { bool here = oneof(f.t[j], f.p, f.m); good = (here & (r == j)) | (!here & good); } fcv_check(good, "the first character of a set is found"); }
FCV_UNIT(find_last_of, "shape=texts of up to 4 characters, sets of up to 2;unrollall=1;split=n:0-4") // the offset counts from the end of the string
{ Find f; u64 r = f.s.find_last_of(f.p, f.off); bool good = r == npos; for (u32 j = 0; j < f.n; ++j) if (j + f.off < f.n) { bool here = oneof(f.t[j], f.p, f.m); good = (here & (r == j)) | (!here & good); } fcv_check(good, "the last character of a set is found"); }
FCV_UNIT(beyond, "") { Any a; char* p = word("p", fcv_len("m", 20)); S q(p); fcv_check(a.s.find(p, npos) == npos && a.s.rfind(p, npos) == npos && a.s.find(q, npos) == npos && a.s.rfind(q, npos) == npos && a.s.find_first_of(p, npos) == npos && a.s.find_last_of(p, npos) == npos, "nothing is found beyond the end"); }
FCV_UNIT(search_sound, "split=how:0-5") // a found place is within the string, and nothing outside the texts is read
{
	u64 m = fcv_len("m", 4), off = fcv_len("offset", 40); char* p = word("p", m); S q(p); Any a; u32 how = fcv_small("how", 0, 5);
	u64 r = how == 0 ? a.s.find(p, off) : how == 1 ? a.s.find(q, off) : how == 2 ? a.s.rfind(p, off) : how == 3 ? a.s.rfind(q, off) : how == 4 ? a.s.find_first_of(p, off) : a.s.find_last_of(p, off); fcv_check(r == npos || r < a.n, "a found place is within the string"); fcv_check(r == npos || how == 5 || r >= off, "a found place is not before the offset");
}
FCV_UNIT(comparisons, "native")
{
#ifndef FCV_SYM
	Find f; const char* ft = f.t,* fp = f.p; std::string t(ft), p(fp); S a(ft), b(fp); fcv_check((a == b) == (t == p) && IsEquivalent(a, b) == (t == p) && IsEquivalent(a, fp) == (t == p) && IsEquivalent(ft, b) == (t == p) && IsEquivalent(ft, fp) == (t == p), "equivalence is equality"); S u(a); for (size_t k = 0; k < u.length(); ++k) if (fcv_bool("upper") && u[k] > 0) u[k] = toupper(u[k]); fcv_check(IsEquivalentI(a, u) && IsEquivalentI(a.c_str(), u) && IsEquivalentI(u, a.c_str()), "equivalence without case");
#endif
}
FCV_UNIT(history, "native")
{
#ifndef FCV_SYM
	S v; std::string m; u32 steps = fcv_small("steps", 1, 60);
	for (u32 i = 0; i < steps; ++i)
	{
		u32 op = fcv_small("op", 0, 12), n = m.size(), at = fcv_small("at", 0, n), c = fcv_small("count", 0, 20); char x = "ab\xE9z"[fcv_small("x", 0, 3)]; char w[24]; u32 k = fcv_small("k", 0, 20); for (u32 j = 0; j < k; ++j) w[j] = "ab\xE9z"[fcv_small("x", 0, 3)]; w[k] = 0;
		if (op == 0) { v += x; m += x; } else if (op == 1) { v.append(w); m += w; } else if (op == 2) { v.insert(at, w, c); m.insert(at, std::string(w).substr(0, c)); } else if (op == 3) { v.insert(at, v); m.insert(at, std::string(m)); if (m.size() > 5000) { v.erase(); m = ""; } }
		else if (op == 4) { v.erase(at, at + c); m.erase(at, c); } else if (op == 5) { v.pop_back(); if (n > 0) m.erase(n - 1); } else if (op == 6) { u32 z = n + c; v.resize(z, x); m.resize(z, x); } else if (op == 7) { v = v.substr(at, c); m = m.substr(at, c); }
		else if (op == 8) { v.clear(); m.clear(); } else if (op == 9) { S d(v); v = d; v = v; } else if (op == 10) { v = S(w) + v + w; m = std::string(w) + m + w; } else if (op == 11) { v.resize(at); m.resize(at); } else { size_t e = m.find(w, at); fcv_check(k == 0 || v.find(w, at) == e, "a text is found as by the reference"); }
		fcv_check(v.length() == m.size() && m == v.c_str() && (v.sized == 0 || v.heapBuffer[v.sized - 1] == 0) && v.sized <= v.reserved, "the string holds the text of a mathematical sequence");
	}
#endif
}
