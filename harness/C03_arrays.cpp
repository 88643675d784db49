// @property C03
// @sources FCollada/FMath/FMAllocator.cpp
// @native FCollada/FMath/FMAllocator.cpp FCollada/FUtils/FUAssert.cpp
#include "StdAfx.h"
#include "FMath/FMArray.h"
#include "FMath/FMArrayPointer.h"
#include "fcv.h"
#ifndef FCV_SYM
#include <vector>
#endif
typedef fm::vector<u32> V;
// an arbitrary array of numbers: any content, any size, any capacity
struct Any
{
	V v; u32* t; u64 n, r, live;
	Any() { make(fcv_len("n", 40), fcv_len("spare", 36)); }
	Any(u64 n, u64 spare) { make(n, spare); }
	void make(u64 _n, u64 spare)
	{
		n = _n; r = n + spare; t = fcv_u32s("t", n); v.reserved = r; v.sized = n; v.heapBuffer = r == 0 ? (u32*) 0 : (u32*) fm::Allocate(r * sizeof(u32));
		if (n > 0) memcpy(v.heapBuffer, t, n * sizeof(u32));
		live = fcv_live() - (r == 0 ? 0 : 1);
	}
	// a sound array of `size` elements, the first `kept` of which are the old ones
	bool sound(u64 size, u64 kept)
	{
		fcv_check(v.size() == size, "the array has the expected number of elements"); fcv_check(v.sized <= v.reserved, "the elements fit into the buffer"); fcv_check(v.empty() == (size == 0), "an array is empty without elements");
		fcv_check(v.reserved == 0 ? v.heapBuffer == 0 : v.heapBuffer != 0 && (FCV_NATIVE || fcv_objsize(v.heapBuffer) == v.reserved * sizeof(u32)), "the buffer has room for the recorded number of elements");
		fcv_check(FCV_NATIVE || fcv_live() == live + (v.reserved == 0 ? 0 : 1), "the array owns one buffer; old ones are released");
		if (v.sized != size || v.sized > v.reserved) return false;
		fcv_forall(0, kept, [&](u64 k) { fcv_check(v.heapBuffer[k] == t[k], "the elements before the change are kept"); });
		return true;
	}
};
static void appended(Any& a, u64 at, u64 count, u64 tail) // the elements from `at` on are the old ones from `tail` on, `count` places further up
{
	fcv_forall(at, a.n, [&](u64 k) { fcv_check(a.v.heapBuffer[k + count] == a.t[k], "the elements after the inserted ones move up"); });
}
FCV_UNIT(push_back, "") { Any a; u32 x = fcv_u32("x"); a.v.push_back(x); if (a.sound(a.n + 1, a.n)) fcv_check(a.v.back() == x, "the element is appended"); }
FCV_UNIT(push_front, "") { Any a; u32 x = fcv_u32("x"); a.v.push_front(x); if (a.sound(a.n + 1, 0)) { fcv_check(a.v.front() == x, "the element is put in front"); appended(a, 0, 1, 0); } }
FCV_UNIT(insert_one, "") { Any a; u64 at = fcv_len("at", 40); fcv_assume(at <= a.n); u32 x = fcv_u32("x"); u32* p = a.v.insert(a.v.begin() + at, x); if (a.sound(a.n + 1, at)) { fcv_check(p == a.v.begin() + at, "the position of the element is returned"); fcv_check(a.v[at] == x, "the element is inserted"); appended(a, at, 1, 0); } }
FCV_UNIT(insert_own, "") { Any a; u64 at = fcv_len("at", 40), own = fcv_len("own", 40); fcv_assume(at <= a.n); fcv_assume(own < a.n); u32 x = a.t[own]; a.v.insert(at, a.v[own]); if (a.sound(a.n + 1, at)) { fcv_check(a.v[at] == x, "an element of the array is inserted once more"); appended(a, at, 1, 0); } }
FCV_UNIT(insert_many, "")
{
	Any a; u64 at = fcv_len("at", 40), c = fcv_len("count", 40); fcv_assume(at <= a.n); u32 x = fcv_u32("x"); a.v.insert(at, (size_t) c, x);
	if (a.sound(a.n + c, at)) { appended(a, at, c, 0); fcv_forall(at, at + c, [&](u64 k) { fcv_check(a.v.heapBuffer[k] == x, "the element is inserted the requested number of times"); }); }
}
FCV_UNIT(insert_range, "")
{
	u64 at = fcv_len("at", 40), c = fcv_len("count", 40); u32* s = fcv_u32s("s", c); Any a; fcv_assume(at <= a.n); a.v.insert(at, s, (size_t) c);
	if (a.sound(a.n + c, at)) { appended(a, at, c, 0); fcv_forall(0, c, [&](u64 k) { fcv_check(a.v.heapBuffer[at + k] == s[k], "the elements are inserted in order"); }); }
}
FCV_UNIT(insert_part, "")
{
	u64 at = fcv_len("at", 40); u64 c = fcv_len("count", 40), from = fcv_len("from", 40); u32* s = fcv_u32s("s", from + c); Any a; fcv_assume(at <= a.n); a.v.insert(a.v.begin() + at, (const u32*) s + from, (const u32*) s + from + c);
	if (a.sound(a.n + c, at)) { appended(a, at, c, 0); fcv_forall(0, c, [&](u64 k) { fcv_check(a.v.heapBuffer[at + k] == s[from + k], "the elements are inserted in order"); }); }
}
FCV_UNIT(erase_one, "") { Any a; u64 at = fcv_len("at", 40); fcv_assume(at < a.n); u32* p = a.v.erase(a.v.begin() + at); if (a.sound(a.n - 1, at)) { fcv_check(p == a.v.begin() + at, "the position of the next element is returned"); fcv_forall(at, a.n - 1, [&](u64 k) { fcv_check(a.v.heapBuffer[k] == a.t[k + 1], "the elements after an erased one move down"); }); } }
FCV_UNIT(erase_range, "") { Any a; u64 at = fcv_len("at", 40), c = fcv_len("count", 40); fcv_assume(c > 0); fcv_assume(at + c <= a.n); a.v.erase((size_t) at, (size_t) (at + c)); if (a.sound(a.n - c, at)) fcv_forall(at, a.n - c, [&](u64 k) { fcv_check(a.v.heapBuffer[k] == a.t[k + c], "the elements after the erased ones move down"); }); }
FCV_UNIT(erase_value, "")
{
	Any a; u32 x = fcv_u32("x") & (FCV_NATIVE ? 7 : ~0u); bool done = a.v.erase(x);
	if (!done) { if (a.sound(a.n, a.n)) fcv_forall(0, a.n, [&](u64 k) { fcv_check(a.t[k] != x, "a value that is there is erased"); }); return; }
	fcv_check(a.n > 0, "nothing is erased from an empty array"); if (a.n == 0 || a.v.sized != a.n - 1) { a.sound(a.n - 1, 0); return; }
	a.sound(a.n - 1, 0);
	// the elements up to the first `x` stay, those after it move down
	u64 at = 0; u32* t = a.t; u64 n = a.n; while (at < n && t[at] != x) ++at;
	fcv_check(at < n, "a value that is erased was there"); fcv_forall(0, at, [&](u64 k) { fcv_check(a.v.heapBuffer[k] == a.t[k], "the elements before the erased one stay"); }); fcv_forall(at, a.n - 1, [&](u64 k) { fcv_check(a.v.heapBuffer[k] == a.t[k + 1], "the elements after an erased one move down"); });
}
FCV_UNIT(pop, "") { Any a; fcv_assume(a.n > 0); if (fcv_bool("front")) { a.v.pop_front(); if (a.sound(a.n - 1, 0)) fcv_forall(0, a.n - 1, [&](u64 k) { fcv_check(a.v.heapBuffer[k] == a.t[k + 1], "the first element is removed"); }); } else { a.v.pop_back(); a.sound(a.n - 1, a.n - 1); } }
FCV_UNIT(resize, "") { Any a; u64 c = fcv_len("count", 60); a.v.resize(c); a.sound(c, c < a.n ? c : a.n); }
FCV_UNIT(resize_fill, "") { Any a; u64 c = fcv_len("count", 60); u32 x = fcv_u32("x"); a.v.resize(c, x); if (a.sound(c, c < a.n ? c : a.n)) fcv_forall(a.n, c, [&](u64 k) { fcv_check(a.v.heapBuffer[k] == x, "the new elements have the requested value"); }); }
FCV_UNIT(resize_fill_own, "") { Any a; u64 c = fcv_len("count", 60), own = fcv_len("own", 60); fcv_assume(own < a.n); u32 x = a.t[own]; a.v.resize(c, a.v[own]); if (a.sound(c, c < a.n ? c : a.n)) fcv_forall(a.n, c, [&](u64 k) { fcv_check(a.v.heapBuffer[k] == x, "the new elements have the requested value"); }); }
FCV_UNIT(reserve, "") { Any a; u64 c = fcv_len("count", 60); a.v.reserve(c); fcv_check(a.v.capacity() == c, "the capacity is the requested one"); a.sound(c < a.n ? c : a.n, c < a.n ? c : a.n); }
FCV_UNIT(clear, "") { Any a; a.v.clear(); a.sound(0, 0); }
FCV_UNIT(find, "")
{
	Any a; u32 x = fcv_u32("x") & (FCV_NATIVE ? 7 : ~0u); u32* p = a.v.find(x); u64 at = (u64) (p - a.v.begin()); const V& c = a.v; fcv_check(at <= a.n, "a position in the array or its end is returned");
	if (at < a.n) fcv_check(a.t[at] == x, "the value is at the position"); fcv_forall(0, at, [&](u64 k) { fcv_check(a.t[k] != x, "the position is the first one of the value"); });
	a.sound(a.n, a.n);
}
FCV_UNIT(find_const, "")
{
	Any a; u32 x = fcv_u32("x") & (FCV_NATIVE ? 7 : ~0u); const V& c = a.v; const u32* p = c.find(x); u64 at = (u64) (p - c.begin()); fcv_check(at <= a.n, "a position in the array or its end is returned");
	if (at < a.n) fcv_check(a.t[at] == x, "the value is at the position"); fcv_forall(0, at, [&](u64 k) { fcv_check(a.t[k] != x, "the position is the first one of the value"); });
	a.sound(a.n, a.n);
}
FCV_UNIT(contains, "")
{
	Any a; u32 x = fcv_u32("x") & (FCV_NATIVE ? 7 : ~0u); u64 w = fcv_len("where", 40); fcv_assume(w < a.n); bool got = a.v.contains(x);
	if (a.t[w] == x) fcv_check(got, "a value that is there is contained"); if (!got) fcv_forall(0, a.n, [&](u64 k) { fcv_check(a.t[k] != x, "a missing value is not there"); });
}
FCV_UNIT(contains_not, "") { Any a; u32 x = fcv_u32("x") & (FCV_NATIVE ? 7 : ~0u); struct C { u32* t; u32 x; } c = { a.t, x };
#ifndef FCV_SYM
	for (u64 k = 0; k < a.n; ++k) if (a.t[k] == x) return;
#endif
	fcv_assume_all(0, a.n, +[](const void* p, u64 k) { return ((const C*) p)->t[k] != ((const C*) p)->x; }, &c); fcv_check(!a.v.contains(x), "a value that is not there is not contained"); }
FCV_UNIT(replace, "")
{
	Any a; u32 x = fcv_u32("x") & (FCV_NATIVE ? 7 : ~0u), y = fcv_u32("y"); a.v.replace(x, y);
	if (a.sound(a.n, 0)) fcv_forall(0, a.n, [&](u64 k) { fcv_check(a.v.heapBuffer[k] == (a.t[k] == x ? y : a.t[k]), "every element of the value is replaced, no other"); });
}
FCV_UNIT(replace_part, "")
{
	Any a; u64 b = fcv_len("b", 40), c = fcv_len("c", 40); fcv_assume(b + c <= a.n); u32 x = fcv_u32("x") & (FCV_NATIVE ? 7 : ~0u), y = fcv_u32("y"); a.v.replace(a.v.begin() + b, a.v.begin() + b + c, x, y);
	if (a.sound(a.n, 0)) fcv_forall(0, a.n, [&](u64 k) { fcv_check(a.v.heapBuffer[k] == (k >= b && k < b + c && a.t[k] == x ? y : a.t[k]), "every element of the value in the part is replaced, no other"); });
}
FCV_UNIT(copy, "") { Any a; V c(a.v); fcv_check(c.size() == a.n, "a copy has as many elements"); fcv_check(c.sized <= c.reserved, "the elements fit into the buffer"); if (c.sized != a.n) return; if (a.n > 0) fcv_check(c.begin() != a.v.begin(), "a copy has a buffer of its own"); fcv_forall(0, a.n, [&](u64 k) { fcv_check(c.heapBuffer[k] == a.t[k], "a copy has the same elements"); }); a.live = fcv_live() - (a.r ? 1 : 0); a.sound(a.n, a.n); }
FCV_UNIT(assign, "") { Any b; Any a; a.v = b.v; fcv_check(a.v.size() == b.n, "a copy has as many elements"); fcv_check(a.v.sized <= a.v.reserved, "the elements fit into the buffer"); if (a.v.sized != b.n) return; fcv_forall(0, b.n, [&](u64 k) { fcv_check(a.v.heapBuffer[k] == b.t[k], "a copy has the same elements"); }); fcv_forall(0, b.n, [&](u64 k) { fcv_check(b.v.heapBuffer[k] == b.t[k], "the original is unchanged"); }); if (b.n > 0) fcv_check(a.v.begin() != b.v.begin(), "a copy has a buffer of its own"); fcv_check(b.v.size() == b.n, "the original is unchanged"); }
FCV_UNIT(assign_itself, "") { Any a; a.v = a.v; a.sound(a.n, a.n); }
FCV_UNIT(from_values, "") { u64 n = fcv_len("n", 40); u32* s = fcv_u32s("s", n); u64 live = fcv_live(); { V c(s, n); fcv_check(c.size() == n, "the array has the given elements"); if (c.sized == n && n <= c.reserved) fcv_forall(0, n, [&](u64 k) { fcv_check(c.heapBuffer[k] == s[k], "the array has the given elements"); }); } fcv_check(fcv_live() == live, "the destructor releases the buffer"); }
FCV_UNIT(from_count, "") { u64 n = fcv_len("n", 40); u32 x = fcv_u32("x"); u64 live = fcv_live(); { V c(n, x); fcv_check(c.size() == n, "the array has the given elements"); if (c.sized == n && n <= c.reserved) fcv_forall(0, n, [&](u64 k) { fcv_check(c.heapBuffer[k] == x, "the array has the given elements"); }); V d((size_t) n); fcv_check(d.size() == n && d.sized <= d.reserved, "an array of a size"); V e; fcv_check(e.size() == 0 && e.empty() && e.capacity() == 0 && e.begin() == e.end(), "a new array is empty"); } fcv_check(fcv_live() == live, "the destructor releases the buffer"); }
FCV_UNIT(access, "") { Any a; u64 k = fcv_len("k", 40); fcv_assume(k < a.n); const V& c = a.v; fcv_check(a.v[k] == a.t[k] && c[k] == a.t[k] && a.v.at(k) == a.t[k] && c.at(k) == a.t[k], "elements are accessed by index"); fcv_check(a.v.front() == a.t[0] && c.front() == a.t[0] && a.v.back() == a.t[a.n - 1] && c.back() == a.t[a.n - 1], "the first and the last element"); fcv_check(a.v.end() == a.v.begin() + a.n && c.end() == c.begin() + a.n, "the range covers all elements"); u32 x = fcv_u32("x"); a.v[k] = x; fcv_check(c[k] == x, "elements can be changed"); }
FCV_UNIT(equal, "")
{
	Any a; Any b;
#ifndef FCV_SYM
	if (fcv_bool("alike")) { b.v = a.v; b.n = a.n; b.t = a.t; if (a.n > 0 && fcv_bool("but one")) { b.v[a.n - 1] ^= 1; b.t = b.v.begin(); } }
#endif
	bool same = a.v == b.v; if (same) { fcv_check(a.n == b.n, "equal arrays have equal sizes"); if (a.n == b.n) fcv_forall(0, a.n, [&](u64 k) { fcv_check(a.t[k] == b.t[k], "equal arrays have equal elements"); }); }
	if (a.n != b.n) fcv_check(!same, "arrays of different sizes differ"); u64 k = fcv_len("k", 40); fcv_assume(k < a.n); fcv_assume(k < b.n); if (a.t[k] != b.t[k]) fcv_check(!same, "arrays with different elements differ");
}
FCV_UNIT(equal_copy, "") { Any a; V c(a.v); fcv_check(a.v == c, "a copy is equal"); }

// elements of a class type: each is constructed once, knows its place, and is destroyed once
struct Probe
{
	Probe* self; u32 v; static i64 alive; static bool good;
	Probe() : self(this), v(0) { ++alive; }
	Probe(u32 x) : self(this), v(x) { ++alive; }
	Probe(const Probe& o) : self(this), v(o.v) { if (o.self != &o) good = false; ++alive; }
	Probe& operator=(const Probe& o) { if (o.self != &o || self != this) good = false; v = o.v; return *this; }
	~Probe() { if (self != this) good = false; self = 0; --alive; }
	bool operator==(const Probe& o) const { return v == o.v; }
};
i64 Probe::alive = 0; bool Probe::good = true;
typedef fm::vector<Probe> P;
enum { MAXP = FCV_NATIVE ? 40 : 3 };
struct Objects
{
	P v; u32 t[110]; u32 n;
	Objects(const char* name = "n") { Probe::alive = 0; Probe::good = true; n = fcv_small(name, 0, MAXP); u32 spare = fcv_small("room", 0, 1); v.reserve(n + (FCV_NATIVE ? 7 : 2) * spare); for (u32 i = 0; i < n; ++i) { t[i] = fcv_u32("t"); v.push_back(Probe(t[i])); } }
	void ins(u32 at, u32 c, const u32* x) { for (u32 i = n; i > at; --i) t[i - 1 + c] = t[i - 1]; for (u32 i = 0; i < c; ++i) t[at + i] = x[i]; n += c; }
	void del(u32 at, u32 c) { for (u32 i = at; i + c < n; ++i) t[i] = t[i + c]; n -= c; }
	void check(i64 others = 0)
	{
		fcv_check(Probe::good, "elements are used only between construction and destruction, at their place"); fcv_check(v.size() == n, "the array has the expected number of elements"); fcv_check(v.sized <= v.reserved, "the elements fit into the buffer"); if (v.size() != n) return;
		fcv_check(Probe::alive == (i64) n + others, "every element is constructed once and destroyed once"); for (u32 i = 0; i < n; ++i) { fcv_check(v[i].self == &v[i], "every element of an array is constructed"); fcv_check(v[i].v == t[i], "the array holds the expected elements"); }
	}
};
FCV_UNIT(objects_insert, "shape=up to 3 elements;unrollall=1;split=n:0-3") { Objects o; u32 at = fcv_small("at", 0, o.n); u32 x = fcv_u32("x"); { Probe p(x); o.v.insert(o.v.begin() + at, p); } o.ins(at, 1, &x); o.check(); o.v.clear(); o.n = 0; o.check(); }
FCV_UNIT(objects_insert_own, "shape=1 to 3 elements;unrollall=1;split=n:1-3") { Objects o; if (o.n == 0) return; u32 at = fcv_small("at", 0, o.n); u32 own = fcv_small("own", 0, o.n - 1), x = o.t[own]; o.v.insert(o.v.begin() + at, o.v[own]); o.ins(at, 1, &x); o.check(); o.v.push_back(o.v[own]); x = o.t[own]; o.ins(o.n, 1, &x); o.check(); }
FCV_UNIT(objects_insert_many, "shape=up to 3 elements;unrollall=1;split=n:0-3") { Objects o; u32 at = fcv_small("at", 0, o.n), c = fcv_small("count", 0, MAXP - 1); u32 x = fcv_u32("x"), xs[MAXP]; for (u32 i = 0; i < c; ++i) xs[i] = x; { Probe p(x); o.v.insert(o.v.begin() + at, (size_t) c, p); } o.ins(at, c, xs); o.check(); }
FCV_UNIT(objects_insert_range, "shape=up to 3 elements;unrollall=1;split=n:0-3") { Objects o; u32 at = fcv_small("at", 0, o.n), c = fcv_small("count", 0, MAXP - 1); u32 xs[MAXP]; { Probe p[MAXP]; for (u32 i = 0; i < c; ++i) p[i].v = xs[i] = fcv_u32("x"); o.v.insert(o.v.begin() + at, (const Probe*) p, (size_t) c); } o.ins(at, c, xs); o.check(); }
FCV_UNIT(objects_erase, "shape=1 to 3 elements;unrollall=1;split=n:1-3")
{
	Objects o; if (o.n == 0) return; u32 at = fcv_small("at", 0, o.n - 1); u32 how = fcv_small("how", 0, 3);
	if (how == 0) { o.v.erase(o.v.begin() + at); o.del(at, 1); } else if (how == 1) { u32 c = fcv_small("count", 1, o.n - at); o.v.erase((size_t) at, (size_t) (at + c)); o.del(at, c); } else if (how == 2) { o.v.pop_back(); o.del(o.n - 1, 1); } else { o.v.pop_front(); o.del(0, 1); }
	o.check(); { P gone; } o.check();
}
FCV_UNIT(objects_resize, "shape=up to 3 elements;unrollall=1;split=n:0-3")
{
	Objects o; u32 c = fcv_small("count", 0, MAXP + 2), x = 0; u32 how = fcv_small("how", 0, 2); u32 xs[MAXP + 2];
	if (how == 0) o.v.resize(c); else if (how == 1) { Probe p(x = fcv_u32("x")); o.v.resize(c, p); } else { o.v.reserve(c); fcv_check(o.v.capacity() == c, "the capacity is the requested one"); if (c > o.n) { o.check(); return; } }
	if (c < o.n) o.del(c, o.n - c); else { for (u32 i = 0; i < c - o.n; ++i) xs[i] = x; o.ins(o.n, c - o.n, xs); } o.check();
}
FCV_UNIT(objects_copy, "shape=up to 3 elements;unrollall=1;split=n:0-3")
{
	Objects o; { P c(o.v); fcv_check(c.size() == o.n && c == o.v, "a copy is equal"); o.check(o.n); for (u32 i = 0; i < c.size(); ++i) fcv_check(c[i].v == o.t[i] && c[i].self == &c[i], "a copy has elements of its own"); if (o.n > 0) { c[o.n - 1].v ^= 1; fcv_check(!(c == o.v), "changed copies differ"); } } o.check();
	{ P c; u32 k = fcv_small("old", 0, 2); for (u32 i = 0; i < k; ++i) c.push_back(Probe(i)); c = o.v; o.check(o.n); fcv_check(c.size() == o.n, "an assigned array has the size of the original"); for (u32 i = 0; i < c.size(); ++i) fcv_check(c[i].v == o.t[i] && c[i].self == &c[i], "an assigned array has elements of its own"); c = c; fcv_check(c == o.v, "an array can be assigned to itself"); } o.check();
}
FCV_UNIT(objects_end, "shape=up to 3 elements;unrollall=1;split=n:0-3") { { Objects o; } fcv_check(Probe::alive == 0 && Probe::good, "the destructor destroys every element once"); }
// pointer arrays
struct Thing { u32 x; };
typedef fm::pvector<Thing> Q;
FCV_UNIT(pointers, "shape=up to 4 pointers;unrollall=1;split=n:0-4")
{
	static Thing things[64]; Q v; Thing* t[80]; u32 n = fcv_small("n", 0, FCV_NATIVE ? 40 : 4); for (u32 i = 0; i < n; ++i) { t[i] = &things[i + i / 3]; v.push_back(t[i]); }
	u32 at = fcv_small("at", 0, n), how = fcv_small("how", 0, 7); Thing* x = &things[63];
	if (how == 0) { Thing** p = v.insert(v.begin() + at, x); fcv_check(*p == x, "the position of the pointer is returned"); for (u32 i = n++; i > at; --i) t[i] = t[i - 1]; t[at] = x; }
	else if (how == 1 && at < n) { v.erase(v.begin() + at); for (u32 i = at; i + 1 < n; ++i) t[i] = t[i + 1]; --n; }
	else if (how == 2 && at < n) { fcv_check(v.erase(t[at]), "a pointer that is there is erased"); for (u32 i = at; i + 1 < n; ++i) t[i] = t[i + 1]; --n; }
	else if (how == 3 && at < n) { v.erase(v.begin() + at, v.end()); n = at; }
	else if (how == 4) { u32 c = fcv_small("count", 0, 2); v.insert(v.begin() + at, (size_t) c); for (u32 i = n; i > at; --i) t[i - 1 + c] = t[i - 1]; for (u32 i = 0; i < c; ++i) t[at + i] = 0; n += c; }
	else if (how == 5) { u32 c = fcv_small("count", 0, 2); Thing* s[2] = { x, &things[62] }; v.insert(v.begin() + at, s, s + c); for (u32 i = n; i > at; --i) t[i - 1 + c] = t[i - 1]; for (u32 i = 0; i < c; ++i) t[at + i] = s[i]; n += c; }
	else if (how == 6) { Q c(v); c.push_back(x); v = c; t[n++] = x; }
	else if (how == 7) { u32 c = fcv_small("count", 0, 5); v.resize(c); for (u32 i = n; i < c; ++i) t[i] = 0; n = c; }
	fcv_check(v.size() == n && v.empty() == (n == 0), "a pointer array has the expected size"); if (v.size() != n) return;
	for (u32 i = 0; i < n; ++i) { fcv_check(v[i] == t[i] && v.at(i) == t[i] && v.begin()[i] == t[i], "a pointer array holds the expected pointers"); }
	fcv_check(v.end() == v.begin() + n, "the range covers all pointers"); if (n > 0) fcv_check(v.front() == t[0] && v.back() == t[n - 1], "the first and the last pointer");
	fcv_check(!v.contains(&things[61]) && v.find(&things[61]) == v.end(), "a missing pointer is not found"); if (n > 0) { fcv_check(v.contains(t[n - 1]), "a pointer that is there is found"); Thing** f = v.find(t[n - 1]); fcv_check(f != v.end() && *f == t[n - 1], "a pointer that is there is found"); }
}
FCV_UNIT(history, "native")
{
#ifndef FCV_SYM
	Probe::alive = 0; Probe::good = true;
	{
		P v; std::vector<u32> m; V w; u32 steps = fcv_small("steps", 1, 80);
		for (u32 i = 0; i < steps; ++i)
		{
			u32 op = fcv_small("op", 0, 11), n = m.size(), at = fcv_small("at", 0, n), x = fcv_small("x", 0, 5);
			if (op < 3) { v.push_back(Probe(x)); w.push_back(x); m.push_back(x); }
			else if (op == 3) { v.insert(v.begin() + at, Probe(x)); w.insert(w.begin() + at, x); m.insert(m.begin() + at, x); }
			else if (op == 4) { u32 c = fcv_small("c", 0, 40); v.insert(v.begin() + at, (size_t) c, Probe(x)); w.insert(w.begin() + at, (size_t) c, x); m.insert(m.begin() + at, c, x); }
			else if (op == 5) { u32 c = fcv_small("c", 0, 35); Probe s[35]; u32 r[35]; for (u32 k = 0; k < c; ++k) s[k].v = r[k] = fcv_small("x", 0, 9); v.insert(v.begin() + at, (const Probe*) s, (size_t) c); w.insert(w.begin() + at, (const u32*) r, (size_t) c); m.insert(m.begin() + at, r, r + c); }
			else if (op == 6 && at < n) { v.erase(v.begin() + at); w.erase(w.begin() + at); m.erase(m.begin() + at); }
			else if (op == 7 && at < n) { u32 c = fcv_small("c", 1, n - at); v.erase((size_t) at, (size_t) (at + c)); w.erase(w.begin() + at, w.begin() + at + c); m.erase(m.begin() + at, m.begin() + at + c); }
			else if (op == 8) { u32 c = fcv_small("c", 0, n + 4); v.resize(c, Probe(x)); w.resize(c, x); m.resize(c, x); }
			else if (op == 9) { u32 c = fcv_small("c", n, n + 40); v.reserve(c); w.reserve(c); }
			else if (op == 10) { u32 k = 0; while (k < n && m[k] != x) ++k; fcv_check(v.erase(Probe(x)) == (k < n), "a value is erased if it is there"); fcv_check(w.erase(x) == (k < n), "a value is erased if it is there"); if (k < n) m.erase(m.begin() + k); }
			else if (op == 11) { P c(v); if (fcv_bool("b")) v.clear(); v = c; V d; d = w; w = d; }
			bool same = v.size() == m.size() && w.size() == m.size() && v.sized <= v.reserved && w.sized <= w.reserved; for (u32 k = 0; same && k < m.size(); ++k) same = v[k].v == m[k] && w[k] == m[k] && v[k].self == &v[k];
			fcv_check(same, "the array holds the elements of a mathematical sequence"); fcv_check(Probe::good && Probe::alive == (i64) m.size(), "every element is constructed once and destroyed once");
		}
	}
	fcv_check(Probe::alive == 0, "the destructor destroys every element once");
#endif
}
