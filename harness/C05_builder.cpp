// @property C05
// @sources FCollada/FUtils/FUStringBuilder.cpp FCollada/FUtils/FUString.cpp
// @native whole
#include "StdAfx.h"
#include "FUtils/FUStringBuilder.h"
#include "fcv.h"
#ifndef FCV_SYM
#include <string>
#include <stdio.h>
#endif
static u64 least(u64 a, u64 b) { return a < b ? a : b; }
// an arbitrary builder: any content, any fill level of a buffer of any size, or no buffer yet
struct Any
{
	FUStringBuilder b; char* t; u64 n, r; u64 live;
	Any() { make(fcv_len("n", 100), fcv_len("spare", 70)); }
	Any(u64 n, u64 spare) { make(n, spare); }
	void make(u64 _n, u64 spare)
	{
		n = _n; r = n + spare; t = fcv_bytes_of(n);
		b.reserved = r; b.size = n; b.buffer = r == 0 ? (char*) 0 : new char[r];
		if (n > 0) memcpy(b.buffer, t, n);
		live = fcv_live() - (r == 0 ? 0 : 1);
	}
	static char* fcv_bytes_of(u64 n) { return (char*) fcv_bytes("t", n); }
	// the builder is sound, holds `size` characters, the first `kept` of which are the old ones
	bool sound(u64 size, u64 kept)
	{
		fcv_check(b.size == size, "the builder has as many characters as were appended");
		fcv_check(b.size <= b.reserved, "the content fits into the buffer");
		if (b.reserved == 0) fcv_check(b.buffer == 0, "a builder without room has no buffer"); else fcv_check(b.buffer != 0 && (FCV_NATIVE || fcv_objsize(b.buffer) == b.reserved), "the buffer is as big as recorded");
		fcv_check(FCV_NATIVE || fcv_live() == live + (b.reserved == 0 ? 0 : 1), "the builder owns one buffer; old ones are released");
		if (b.size != size || b.size > b.reserved) return false;
		fcv_forall(0, kept, [&](u64 k) { fcv_check(b.buffer[k] == t[k], "the content before the change is kept"); });
		return true;
	}
};
FCV_UNIT(append_character, "") { Any a; char c = (char) fcv_u8("c"); a.b.append(c); if (a.sound(a.n + 1, a.n)) fcv_check(a.b.buffer[a.n] == c, "the character is appended"); }
FCV_UNIT(append_text_fits, "")
{
	u64 len = fcv_len("len", 40); char* s = fcv_text("s", len); Any a(fcv_len("n", 100), len + fcv_len("spare", 70));
	fcv_assume_all(0, len, +[](const void* s, u64 k) { return ((const char*) s)[k] != 0; }, s);
	a.b.append(s); if (a.sound(a.n + len, a.n)) fcv_forall(0, len, [&](u64 k) { fcv_check(a.b.buffer[a.n + k] == s[k], "the text is appended"); });
}
FCV_UNIT(append_text, "shape=texts of up to 3 characters;unrollall=1;split=len:0-3")
{
	u32 len = fcv_small("len", 0, FCV_NATIVE ? 90 : 3); char* s = fcv_text("s", len); Any a;
#ifndef FCV_SYM
	for (u32 k = 0; k < len; ++k) if (s[k] == 0) s[k] = 'x';
#else
	for (u32 k = 0; k < len; ++k) fcv_assume(s[k] != 0);
#endif
	a.b.append(s); if (a.sound(a.n + len, a.n)) for (u32 k = 0; k < len; ++k) fcv_check(a.b.buffer[a.n + k] == s[k], "the text is appended");
}
FCV_UNIT(append_no_text, "") { Any a; a.b.append((const char*) 0); a.sound(a.n, a.n); }
FCV_UNIT(append_part, "") { u64 len = fcv_len("len", 90); char* s = (char*) fcv_bytes("s", len); Any a; a.b.append(s, len); if (a.sound(a.n + len, a.n)) fcv_forall(0, len, [&](u64 k) { fcv_check(a.b.buffer[a.n + k] == s[k], "the text is appended"); }); }
FCV_UNIT(append_builder, "")
{
	Any o; Any a; a.live = fcv_live() - (a.r == 0 ? 0 : 1); a.b.append(o.b);
	if (a.sound(a.n + o.n, a.n)) fcv_forall(0, o.n, [&](u64 k) { fcv_check(a.b.buffer[a.n + k] == o.t[k], "the text of the other builder is appended"); });
	fcv_check(o.b.size == o.n && o.b.reserved == o.r, "the other builder is unchanged"); fcv_forall(0, o.n, [&](u64 k) { fcv_check(o.b.buffer[k] == o.t[k], "the other builder is unchanged"); });
}
FCV_UNIT(append_itself, "") { Any a; a.b.append(a.b); if (a.sound(2 * a.n, a.n)) fcv_forall(0, a.n, [&](u64 k) { fcv_check(a.b.buffer[a.n + k] == a.t[k], "a builder can be appended to itself"); }); }
FCV_UNIT(append_hex, "") { Any a; u8 v = fcv_u8("v"); a.b.appendHex(v); if (a.sound(a.n + 2, a.n)) { for (u32 i = 0; i < 2; ++i) { u8 d = i == 0 ? v >> 4 : v & 15; fcv_check(a.b.buffer[a.n + i] == (char) (d + (d < 10 ? '0' : 'A' - 10)), "a byte is two hexadecimal digits"); } } }
FCV_UNIT(append_line, "shape=texts of up to 2 characters;unrollall=1;split=len:0-2")
{
	u32 len = fcv_small("len", 0, FCV_NATIVE ? 90 : 2); char* s = fcv_text("s", len); Any a;
#ifndef FCV_SYM
	for (u32 k = 0; k < len; ++k) if (s[k] == 0) s[k] = 'x';
#else
	for (u32 k = 0; k < len; ++k) fcv_assume(s[k] != 0);
#endif
	a.b.appendLine(s); if (a.sound(a.n + len + 1, a.n)) { for (u32 k = 0; k < len; ++k) fcv_check(a.b.buffer[a.n + k] == s[k], "the text is appended"); fcv_check(a.b.buffer[a.n + len] == '\n', "a line ends in a newline"); }
}
static u32 value(const char* t, u64 n) { u32 v = 0; for (u64 i = 0; i < n; ++i) v = v * 10 + (u32) (t[i] - '0'); return v; }
// the digits appended for an integer are decimal, without leading zeroes and of the right value
static void digits(Any& a, u64 v, bool minus, u32 most)
{
	u64 size = a.b.size; fcv_check(size > a.n && size <= a.n + most, "an integer has a few digits"); if (size <= a.n || size > a.n + most) return;
	if (!a.sound(size, a.n)) return; u64 k = a.n; if (minus) { fcv_check(a.b.buffer[k] == '-', "a negative integer starts with a minus sign"); ++k; }
	u64 got = 0, first = k; for (; k < size; ++k) { char c = a.b.buffer[k]; fcv_check(c >= '0' && c <= '9', "an integer is made of digits"); got = got * 10 + (u64) (u8) (c - '0'); }
	fcv_check(size > first, "an integer has digits"); fcv_check(size == first + 1 || a.b.buffer[first] != '0', "an integer has no leading zeroes"); fcv_check(got == v, "the digits are those of the value");
}
FCV_UNIT(append_unsigned, "shape=a buffer with room or one that has to grow;unrollall=1;split=spare:0-1") { Any a(3, fcv_small("spare", 0, 1) * 30); u32 v = fcv_u32("v"); a.b.append((uint32) v); digits(a, v, false, 10); }
FCV_UNIT(append_signed, "shape=a buffer with room or one that has to grow;unrollall=1;split=spare:0-1") { Any a(3, fcv_small("spare", 0, 1) * 30); i32 v = fcv_i32("v"); a.b.append((int32) v); digits(a, v < 0 ? (u64) -(i64) v : (u64) v, v < 0, 11); }
FCV_UNIT(append_signed_long, "shape=a buffer with room or one that has to grow;unrollall=1;split=spare:0-1") { Any a(3, fcv_small("spare", 0, 1) * 30); i64 v = fcv_i64("v"); a.b.append((long) v); digits(a, v < 0 ? (u64) 0 - (u64) v : (u64) v, v < 0, 21); }
FCV_UNIT(append_long, "shape=a buffer with room or one that has to grow;unrollall=1;split=spare:0-1") { Any a(3, fcv_small("spare", 0, 1) * 30); u64 v = fcv_u64("v"); a.b.append((uint64) v); digits(a, v, false, 20); }
FCV_UNIT(remove_tail, "") { Any a; i32 s = fcv_i32("start"); a.b.remove(s); a.sound(s >= 0 && (u64) s < a.n ? (u64) s : a.n, s >= 0 && (u64) s < a.n ? (u64) s : a.n); }
FCV_UNIT(remove_part, "")
{
	Any a; i32 s = fcv_i32("start"), e = fcv_i32("end");
#ifndef FCV_SYM
	s = s % 110; e = e % 110;
#endif
	a.b.remove(s, e);
	if (s >= 0 && e > s && (u64) e <= a.n) { u64 d = (u64) (e - s); if (a.sound(a.n - d, (u64) s)) fcv_forall((u64) s, a.n - d, [&](u64 k) { fcv_check(a.b.buffer[k] == a.t[k + d], "the characters after a removed part move up"); }); }
	else a.sound(a.n, a.n);
}
FCV_UNIT(pop_clear, "") { Any a; a.b.pop_back(); if (a.n > 0) { fcv_check(a.b.size == a.n - 1, "pop removes one character"); } a.sound(a.n > 0 ? a.n - 1 : 0, a.n > 0 ? a.n - 1 : 0); a.b.clear(); fcv_check(a.b.empty() && a.b.length() == 0, "clear empties the builder"); a.sound(0, 0); }
FCV_UNIT(back, "") { Any a; fcv_assume(a.n > 0); fcv_check(a.b.back() == a.t[a.n - 1], "back gives the last character"); fcv_check(a.b.length() == a.n && !a.b.empty(), "the length is that of the content"); a.sound(a.n, a.n); }
FCV_UNIT(reserve, "") { Any a; u64 m = fcv_len("m", 120); a.b.reserve(m); fcv_check(a.b.reserved == m, "the buffer has the requested size"); a.sound(least(a.n, m), least(a.n, m)); }
FCV_UNIT(char_ptr, "")
{
	Any a; const char* p = a.b.ToCharPtr(); fcv_check(p == a.b.buffer, "the text is the buffer"); if (!a.sound(a.n, a.n)) return; fcv_check(a.b.size < a.b.reserved, "there is room for the terminator"); if (a.b.size >= a.b.reserved) return;
	fcv_check(p[a.n] == 0, "the text is terminated"); fcv_forall(0, a.n, [&](u64 k) { fcv_check(p[k] == a.t[k], "the text is the content"); });
}
FCV_UNIT(to_string, "shape=up to 4 characters;unrollall=1;split=n:0-4")
{
	Any a(fcv_small("n", 0, FCV_NATIVE ? 80 : 4), fcv_len("spare", 70));
#ifndef FCV_SYM
	for (u64 k = 0; k < a.n; ++k) if (a.t[k] == 0) a.b.buffer[k] = a.t[k] = 'x';
#else
	for (u64 k = 0; k < a.n; ++k) fcv_assume(a.t[k] != 0);
#endif
	fstring s = a.b.ToString(); fcv_check(s.length() == a.n, "the string has the length of the content"); if (s.length() != a.n) return;
	for (u64 k = 0; k < a.n; ++k) fcv_check(s.c_str()[k] == a.t[k], "the string is the content"); fcv_check(s.c_str()[a.n] == 0, "the string is terminated");
}
FCV_UNIT(first_index, "")
{
	Any a; char c = (char) fcv_u8("c"); i32 i = a.b.index(c);
	if (i < 0) { fcv_check(i == -1, "a missing character has index -1"); fcv_forall(0, a.n, [&](u64 k) { fcv_check(a.t[k] != c, "a character that is there is found"); }); }
	else { fcv_check((u64) i < a.n, "an index is inside of the content"); if ((u64) i < a.n) { fcv_check(a.t[i] == c, "the character is at its index"); fcv_forall(0, (u64) i, [&](u64 k) { fcv_check(a.t[k] != c, "the index is the first one"); }); } }
	a.sound(a.n, a.n);
}
FCV_UNIT(last_index, "")
{
	Any a; char c = (char) fcv_u8("c"); i32 i = a.b.rindex(c);
	if (i < 0) { fcv_check(i == -1, "a missing character has index -1"); fcv_forall(0, a.n, [&](u64 k) { fcv_check(a.t[k] != c, "a character that is there is found"); }); }
	else { fcv_check((u64) i < a.n, "an index is inside of the content"); if ((u64) i < a.n) { fcv_check(a.t[i] == c, "the character is at its index"); fcv_forall((u64) i + 1, a.n, [&](u64 k) { fcv_check(a.t[k] != c, "the index is the last one"); }); } }
	a.sound(a.n, a.n);
}
FCV_UNIT(construct_repeat, "") { u64 n = fcv_len("n", 90); char c = (char) fcv_u8("c"); u64 live = fcv_live(); { FUStringBuilder b(c, n); fcv_check(b.size == n && b.size <= b.reserved, "the builder holds the repeated character"); if (b.size == n && n <= b.reserved) fcv_forall(0, n, [&](u64 k) { fcv_check(b.buffer[k] == c, "the builder holds the repeated character"); }); } fcv_check(fcv_live() == live, "the destructor releases the buffer"); }
FCV_UNIT(construct_text, "shape=texts of up to 3 characters;unrollall=1;split=n:0-3")
{
	u32 n = fcv_small("n", 0, FCV_NATIVE ? 90 : 3); char* s = fcv_text("s", n);
#ifndef FCV_SYM
	for (u32 k = 0; k < n; ++k) if (s[k] == 0) s[k] = 'x';
#else
	for (u32 k = 0; k < n; ++k) fcv_assume(s[k] != 0);
#endif
	u64 live = fcv_live(); { FUStringBuilder b(s); fcv_check(b.size == n, "the builder holds the text"); for (u32 k = 0; k < n; ++k) fcv_check(b.buffer[k] == s[k], "the builder holds the text");
	b.set('q'); fcv_check(b.size == 1 && b.buffer[0] == 'q', "set replaces the content"); }
	{ FUStringBuilder b((size_t) n); fcv_check(b.size == 0 && b.reserved == n, "a reservation has no content"); FUStringBuilder c; fcv_check(c.size == 0, "a new builder is empty"); }
	fcv_check(fcv_live() == live, "the destructor releases the buffer");
}
FCV_UNIT(history, "native")
{
#ifndef FCV_SYM
	FUStringBuilder b; std::string m; u32 steps = fcv_small("steps", 1, 120); char z[64];
	for (u32 i = 0; i < steps; ++i)
	{
		u32 op = fcv_small("op", 0, 15);
		if (op < 4) { char c = (char) fcv_small("c", 32, 126); b.append(c); m += c; }
		else if (op < 7) { u32 n = fcv_small("len", 0, 60); char s[64]; for (u32 k = 0; k < n; ++k) s[k] = (char) fcv_small("c", 32, 126); s[n] = 0; if (op == 4) b.append(s); else if (op == 5) b.append(s, n); else b.append(fm::string(s)); m += s; }
		else if (op == 7) { u32 v = fcv_u32("v"); b.append((uint32) v); sprintf(z, "%u", v); m += z; }
		else if (op == 8) { i32 v = fcv_i32("v"); b.append((int32) v); sprintf(z, "%d", v); m += z; }
		else if (op == 9) { u64 v = fcv_u64("v"); b.append((uint64) v); sprintf(z, "%lu", (unsigned long) v); m += z; }
		else if (op == 10) { i32 s = (i32) fcv_small("s", 0, 400) - 20; b.remove(s); if (s >= 0 && (u64) s < m.size()) m.erase((u64) s); }
		else if (op == 11) { i32 s = (i32) fcv_small("s", 0, 100) - 2, e = s + (i32) fcv_small("e", 0, 20) - 2; b.remove(s, e); if (s >= 0 && e > s && (u64) e <= m.size()) m.erase((u64) s, (u64) (e - s)); }
		else if (op == 12) { b.pop_back(); if (!m.empty()) m.erase(m.size() - 1); }
		else if (op == 13) { if (fcv_small("c", 0, 9) == 0) { b.clear(); m.clear(); } else { u8 v = fcv_u8("v"); b.appendHex(v); sprintf(z, "%02X", v); m += z; } }
		else if (op == 14) { FUStringBuilder o(m.c_str()); if (m.size() < 300) { b.append(o); m += m; } }
		else { u32 r = fcv_small("r", 0, 300); if (r > 250) { b.reserve(r); if (m.size() > r) m.resize(r); } }
		fcv_check(b.length() == m.size() && m == b.ToCharPtr() && m == b.ToString().c_str(), "a builder holds what was appended");
		char c = (char) fcv_small("find", 32, 126); size_t f = m.find(c), l = m.rfind(c); fcv_check(b.index(c) == (f == std::string::npos ? -1 : (i32) f), "the first index"); fcv_check(b.rindex(c) == (l == std::string::npos ? -1 : (i32) l), "the last index");
	}
#endif
}
