// @property C24
// @sources FCollada/FCDocument/FCDObjectWithId.cpp FCollada/FUtils/FUObjectType.cpp FCollada/FUtils/FUParameterizable.cpp FCollada/FUtils/FUTracker.cpp FCollada/FCDocument/FCDObject.cpp FCollada/FUtils/FUObject.cpp FCollada/FUtils/FUUniqueStringMap.cpp FCollada/FUtils/FUString.cpp FCollada/FMath/FMAllocator.cpp FCollada/FUtils/FUStringConversion.cpp FCollada/FUtils/FUStringBuilder.cpp
// @native whole
#include "StdAfx.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDObjectWithId.h"
#include "FUtils/FUUniqueStringMap.h"
#include "fcv.h"
#ifndef FCV_SYM
#include <string>
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDMaterial.h"
#endif
typedef fm::string S;
static bool letter(char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'); }
static bool inner(char c, bool stop) { return letter(c) | ((c >= '0') & (c <= '9')) | (c == '-') | (stop & (c == '.')); }
static char* any(const char* name, u64 n)
{
	char* t = fcv_text(name, n);
#ifndef FCV_SYM
	for (u64 k = 0; k < n; ++k) { if (fcv_bool("legal")) t[k] = "aZ_9-.:"[(u8) t[k] % 7]; if (t[k] == 0) t[k] = 'x'; }
#endif
	fcv_assume_all(0, n, +[](const void* s, u64 k) { return ((const char*) s)[k] != 0; }, t); return t;
}
#ifdef FCV_SYM
// C04 (make_repeat): a string of n characters, all of them c
extern "C" void fcv_contract_fm_stringT_char_stringT(S* s, size_t n, const char& c) { fcv_check(n < 0x7FFFFFFF, "a string has a sensible length"); char* b = (char*) fm::Allocate(n + 1); char x = c; memset(b, x, n); b[n] = 0; s->reserved = s->sized = n + 1; s->heapBuffer = b; }
#endif
static void cleaned(const S& id, const char* t, u64 n, bool stop)
{
	u64 m = n < 512 ? n : 512; fcv_check(id.length() == m, "an id is as long as the given text, up to 512 characters"); if (id.length() != m) return; fcv_check(id.c_str()[m] == 0, "an id is zero-terminated");
	if (m > 0) { char c = id.c_str()[0]; fcv_check(letter(c), "an id starts with a letter or an underscore"); bool l = letter(t[0]); fcv_check((l & (c == t[0])) | (!l & (c == '_')), "a legal first character is kept"); }
	fcv_forall(1, m, [&](u64 k) { char c = id.c_str()[k]; fcv_check(inner(c, stop), "an id has only legal characters"); bool l = inner(t[k], stop); fcv_check((l & (c == t[k])) | (!l & (c == '_')), "legal characters are kept"); });
}
FCV_UNIT(clean_id, "join=CleanId|CleanSubId;concx=3;contract=fm::stringT<char>::stringT(unsigned long, char const&)") { u64 n = fcv_len("n", 20); char* t = any("t", n); S id = FCDObjectWithId::CleanId(t); cleaned(id, t, n, true); }
FCV_UNIT(clean_sub_id, "join=CleanId|CleanSubId;concx=3;contract=fm::stringT<char>::stringT(unsigned long, char const&)") { u64 n = fcv_len("n", 20); char* t = any("t", n); S id = FCDObjectWithId::CleanSubId(t); cleaned(id, t, n, false); }
FCV_UNIT(clean_long, "native") { u64 n = 500 + fcv_len("n", 30); char* t = any("t", n); cleaned(FCDObjectWithId::CleanId(t), t, n, true); cleaned(FCDObjectWithId::CleanSubId(t), t, n, false); fcv_check(FCDObjectWithId::CleanId(S(t)) == FCDObjectWithId::CleanId(t) && FCDObjectWithId::CleanSubId(S(t)) == FCDObjectWithId::CleanSubId(t), "a string is cleaned like its text"); }
FCV_UNIT(clean_twice, "join=CleanId|CleanSubId;concx=3;contract=fm::stringT<char>::stringT(unsigned long, char const&)") // cleaning a legal id changes nothing
{
	u64 n = fcv_len("n", 20); char* t = fcv_text("t", n);
#ifndef FCV_SYM
	for (u64 k = 0; k < n; ++k) t[k] = k == 0 ? "aZ_"[(u8) t[k] % 3] : "aZ_9-."[(u8) t[k] % 6];
#endif
	fcv_assume_all(0, n, +[](const void* s, u64 k) { return inner(((const char*) s)[k], true); }, t); if (n > 0) fcv_assume(letter(t[0])); fcv_assume(n <= 512); S id = FCDObjectWithId::CleanId(t); fcv_check(id.length() == n, "a legal id keeps its length"); if (id.length() == n) fcv_forall(0, n, [&](u64 k) { fcv_check(id.c_str()[k] == t[k], "a legal id is kept"); });
}
FCV_UNIT(clean_sub_twice, "join=CleanId|CleanSubId;concx=3;contract=fm::stringT<char>::stringT(unsigned long, char const&)")
{
	u64 n = fcv_len("n", 20); char* t = fcv_text("t", n);
#ifndef FCV_SYM
	for (u64 k = 0; k < n; ++k) t[k] = k == 0 ? "aZ_"[(u8) t[k] % 3] : "aZ_9-"[(u8) t[k] % 5];
#endif
	fcv_assume_all(0, n, +[](const void* s, u64 k) { return inner(((const char*) s)[k], false); }, t); if (n > 0) fcv_assume(letter(t[0])); fcv_assume(n <= 512); S id = FCDObjectWithId::CleanSubId(t); fcv_check(id.length() == n, "a legal sub-id keeps its length"); if (id.length() == n) fcv_forall(0, n, [&](u64 k) { fcv_check(id.c_str()[k] == t[k], "a legal sub-id is kept"); });
}
// ---- ids of the objects of a document
static FCDocument* document()
{
#ifdef FCV_SYM
	FCDocument* d = (FCDocument*) calloc(1, sizeof(FCDocument)); d->uniqueNameMap = new FUSUniqueStringMap(); return d; // only the member the ids are kept in
#else
	static FCDocument* d = 0; if (d != 0) d->Release(); return d = FCollada::NewTopDocument();
#endif
}
static const char* const WANT[] = { "a", "a1", "1a", "a b", "ObjectWithID", "a0" };
struct Objects
{
	FCDocument* d; FCDObjectWithId* o[4]; u32 n;
	Objects(u32 _n) : d(document()), n(_n) { for (u32 i = 0; i < n; ++i) o[i] = new FCDObjectWithId(d); }
	void step(u32 op, u32 i)
	{
		if (o[i] == 0) { o[i] = new FCDObjectWithId(d); return; }
		if (op < 6) { S w(WANT[op]); if (op & 1) { o[i]->SetDaeId(w); fcv_check(w == o[i]->GetDaeId(), "the final id is given back"); } else { o[i]->SetDaeId((const S&) w); } bool taken = false; S c = FCDObjectWithId::CleanId(WANT[op]); for (u32 j = 0; j < n; ++j) if (j != i && o[j] != 0 && o[j]->GetUniqueIdFlag() && *o[j]->daeId == c) taken = true; if (!taken) fcv_check(*o[i]->daeId == c, "a free id is the object's id"); }
		else if (op == 6) { S a = o[i]->GetDaeId(); fcv_check(a == o[i]->GetDaeId(), "an object keeps its id"); }
		else if (op == 7) { delete o[i]; o[i] = 0; }
		else if (op == 8) o[i]->RemoveDaeId();
		else { u32 j = (i + 1) % n; if (o[j] != 0) o[i]->Clone(o[j]); }
	}
	void check() // every object that reports its id now reports one of its own
	{
		for (u32 i = 0; i < n; ++i) if (o[i] != 0) { const S& a = o[i]->GetDaeId(); fcv_check(a.length() > 0 && letter(a[0]), "the id of an object is legal"); fcv_check(d->GetUniqueNameMap()->contains(a), "the id of an object is registered"); for (u32 j = 0; j < i; ++j) if (o[j] != 0) fcv_check(!(a == o[j]->GetDaeId()), "no two objects have the same id"); }
	}
	void end() { for (u32 i = 0; i < n; ++i) if (o[i] != 0) delete o[i]; }
};
FCV_UNIT(unique_pairs, "shape=two objects, three operations;unrollall=1;split=first:0-9") { Objects x(2); x.step(fcv_small("first", 0, 9), 0); for (u32 k = 0; k < 2; ++k) x.step(fcv_small("op", 0, 9), fcv_small("which", 0, 1)); x.check(); x.end(); }
FCV_UNIT(unique_reported, "shape=two objects, ids asked for in between;unrollall=1;split=first:0-9") { Objects x(2); x.step(fcv_small("first", 0, 9), 0); x.check(); x.step(fcv_small("second", 0, 9), fcv_small("which", 0, 1)); x.check(); x.end(); }
FCV_UNIT(history, "native")
{
#ifndef FCV_SYM
	Objects x(4); u32 steps = fcv_small("steps", 1, 30); for (u32 k = 0; k < steps; ++k) { x.step(fcv_small("op", 0, 9), fcv_small("which", 0, 3)); if (fcv_bool("ask")) x.check(); } x.check(); x.end();
#endif
}
