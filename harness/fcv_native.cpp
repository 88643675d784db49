// Native runtime of the contract vocabulary: replays counterexample models and searches for failing inputs.
#include "fcv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <time.h>
#include <setjmp.h>
#include <map>
#include <string>
#include <vector>
struct Unit { std::string name; void (*fn)(); };
static std::vector<Unit>& units() { static std::vector<Unit> u; return u; }
FcvReg::FcvReg(const char* n, void (*f)()) { units().push_back(Unit{n, f}); }
struct AssumeFailed {};
struct CheckFailed {};
struct Shared { volatile u64 iter; volatile u64 done; volatile u64 good; volatile u64 checks; char fail[256]; };
static Shared* sh;
static bool useCase = false, logVals = false;
static std::map<std::string, std::vector<std::vector<double>>> dummy;
struct Ent { u64 n; std::vector<std::string> v; };
static std::map<std::string, std::vector<Ent>> cas; static std::map<std::string, size_t> pos;
static u64 rs; static u64 maxlenScale = 1;
static u64 rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
static u64 rnd(u64 n) { return n ? (rnd() >> 16) % n : 0; }
static std::vector<std::string> vlog;
static void lg(const char* name, const char* fmt, double d, u64 u) { if (!logVals) return; char b[200]; snprintf(b, sizeof b, fmt, name, d, u); vlog.push_back(b); }
static void lgu(const char* name, u64 u) { if (!logVals) return; char b[200]; snprintf(b, sizeof b, "%s 1 %llu", name, (unsigned long long) u); vlog.push_back(b); }
static Ent* next(const char* name) { if (!useCase) return NULL; auto i = cas.find(name); if (i == cas.end()) return NULL; size_t& p = pos[name]; if (p >= i->second.size()) return NULL; return &i->second[p++]; }
static u64 rint_(unsigned bits) {
	u64 m = bits == 64 ? ~0ULL : ((1ULL << bits) - 1); u64 v;
	switch (rnd(10)) {
	case 0: v = rnd(4); break;
	case 1: v = 0 - (u64) rnd(4); break;
	case 2: v = (1ULL << rnd(bits)) + rnd(3) - 1; break;
	case 3: v = 0 - ((1ULL << rnd(bits)) + rnd(3) - 1); break;
	case 4: case 5: v = rnd(100); break;
	case 6: v = rnd(); v = v >> rnd(64); break;
	case 7: { u64 p = 1; for (u64 i = rnd(20); i > 0; --i) p *= 10; v = p + rnd(3) - 1; if (rnd(2)) v = 0 - v; break; }
	default: v = rnd(); }
	return v & m;
}
static double rdbl() {
	static const double sp[] = {0, 1, -1, 0.5, -0.5, 2, 3, 10, 100, -100, 0.25, 1e-3, 1e3, 90, 180, 45, -90, 360, 0.1, 255, 0.75, 1.5};
	switch (rnd(8)) {
	case 0: case 1: return sp[rnd(sizeof sp / sizeof *sp)];
	case 2: return (double) (i64) rnd(21) - 10;
	case 3: return ((double) (i64) rnd(2001) - 1000) / 100.0;
	case 4: return ((double) (rnd() >> 11) / 9007199254740992.0) * 2 - 1;
	case 5: return ((double) (rnd() >> 11) / 9007199254740992.0) * 2000 - 1000;
	case 6: return ((double) (i64) rnd(17) - 8) / 4.0;
	default: return ((double) (rnd() >> 11) / 9007199254740992.0) * 20 - 10; }
}
static u64 geti(const char* name, unsigned bits) { Ent* e = next(name); u64 v; if (e && e->v.size()) { const std::string& s = e->v[0]; v = s[0] == '-' ? (u64) strtoll(s.c_str(), 0, 10) : strtoull(s.c_str(), 0, 10); } else if (useCase) v = 0; else v = rint_(bits); lgu(name, v); return v; }
static double pd(const std::string& s) { if (s.compare(0, 5, "bits:") == 0) { u64 b = strtoull(s.c_str() + 5, 0, 10); if (b >> 32) { double d; memcpy(&d, &b, 8); return d; } u32 c = (u32) b; float f; memcpy(&f, &c, 4); return f; } size_t k = s.find('/'); if (k == std::string::npos) return strtod(s.c_str(), 0); return (double) (strtold(s.c_str(), 0) / strtold(s.c_str() + k + 1, 0)); }
static double getd(const char* name, bool f32) { Ent* e = next(name); double v; if (e && e->v.size()) v = pd(e->v[0]); else if (useCase) v = 0; else v = rdbl(); if (f32) v = (float) v; lg(name, "%s 1 %.17g", v, 0); return v; }
static std::vector<void*> arrs;
extern "C" {
u8 fcv_u8(const char* n) { return (u8) geti(n, 8); } u16 fcv_u16(const char* n) { return (u16) geti(n, 16); }
u32 fcv_u32(const char* n) { return (u32) geti(n, 32); } u64 fcv_u64(const char* n) { return geti(n, 64); }
i32 fcv_i32(const char* n) { return (i32) geti(n, 32); } i64 fcv_i64(const char* n) { return (i64) geti(n, 64); }
bool fcv_bool(const char* n) { return (geti(n, 1) & 1) != 0; }
float fcv_float(const char* n) { return (float) getd(n, true); } double fcv_double(const char* n) { return getd(n, false); }
float fcv_angle(const char* n) { return (float) getd(n, true); }
u64 fcv_len(const char* n, u64 mx) { Ent* e = next(n); u64 v; if (e) v = strtoull(e->v[0].c_str(), 0, 10); else if (useCase) v = 0; else { u64 r = rnd(4); v = r == 0 ? rnd(3) : r == 1 ? rnd(6) : rnd(mx + 1); if (v > mx) v = mx; } if (v > 100000) throw AssumeFailed(); lgu(n, v); return v; }
u32 fcv_small(const char* n, u32 lo, u32 hi) { Ent* e = next(n); u64 v; if (e) v = strtoull(e->v[0].c_str(), 0, 10); else v = lo + rnd((u64) hi - lo + 1); if (v < lo || v > hi) v = lo; lgu(n, v); return (u32) v; }
static const char* alph[] = {"0123456789", " \t\n\r", "abcxyzABC_", "0123456789 -.", "ab", "+-.eE0123456789 ", "<>&\"'% a", "/.\\:?#@ab", " 12\n", "a%20Zz", "ABCDEFabcdef0123", "=ABCZabcz09+/", "trueTRUEfalse01 "};
void* fcv_arr(const char* n, u64 cnt, u32 esz, u32 kind) {
	Ent* e = next(n);
	if (cnt > 1000000) throw AssumeFailed();
	u64 tot = cnt + (kind == 2 ? 1 : 0);
	u8* p = (u8*) malloc(tot * esz + (tot == 0 ? 0 : 0)); arrs.push_back(p);
	u64 style = rnd(16); const char* a = alph[rnd(sizeof alph / sizeof *alph)]; size_t al = strlen(a);
	for (u64 i = 0; i < cnt; ++i) {
		if (kind == 1 || kind == 3) { double d = e && i < e->v.size() ? pd(e->v[i]) : useCase ? 0 : rdbl(); if (kind == 1) { float f = (float) d; memcpy(p + i * 4, &f, 4); d = f; } else memcpy(p + i * 8, &d, 8); lg((std::string(n) + "[]").c_str(), "%s 1 %.9g", d, 0); }
		else {
			u64 v;
			if (e && i < e->v.size()) v = strtoull(e->v[i].c_str(), 0, 10); else if (useCase) v = kind == 2 ? 'a' : 0;
			else if (kind == 2) { v = style < 12 ? (u64) (u8) a[rnd(al)] : style < 14 ? 32 + rnd(95) : 1 + rnd(255); if (rnd(12) == 0) v = 1 + rnd(255); if (!v) v = 1; }
			else v = style < 4 ? rnd(4) : rint_(8 * esz);
			if (kind == 2 && esz == 1 && (v & 255) == 0) v = 1;
			memcpy(p + i * esz, &v, esz); lgu((std::string(n) + "[]").c_str(), v);
		}
	}
	if (kind == 2) memset(p + cnt * esz, 0, esz);
	return p;
}
void fcv_assume(bool c) { if (!c) throw AssumeFailed(); }
void fcv_check(bool c, const char* n) { sh->checks = sh->checks + 1; if (!c) { strncpy(sh->fail, n, 255); throw CheckFailed(); } }
void fcv_axiom(bool, const char*) {} void fcv_cover(const char*) {}
u64 fcv_sk(u64 lo, u64 hi) { return lo + rnd(hi - lo); }
void fcv_assume_all(u64 lo, u64 hi, bool (*fn)(const void*, u64), const void* ctx) { for (u64 k = lo; k < hi; ++k) if (!fn(ctx, k)) throw AssumeFailed(); }
#define FOLD(T, N) T fcv_fold_##N(T (*s)(T,const void*,u64), T a, const void* c, u64 n) { for (u64 i = 0; i < n; ++i) a = s(a, c, i); return a; }
FOLD(u8, u8) FOLD(u32, u32) FOLD(u64, u64) FOLD(i32, i32) FOLD(float, float) FOLD(double, double)
u64 fcv_live() { return 0; } u64 fcv_objsize(const void*) { return ~0ULL; } bool fcv_valid(const void* p) { return p != NULL; }
}
bool fcv_same(double a, double b, double scale) { if (a == b) return true; if (isnan(a) && isnan(b)) return true; double m = fabs(a) > fabs(b) ? fabs(a) : fabs(b); if (fabs(scale) > m) m = fabs(scale); return fabs(a - b) <= 2e-3 * m + 1e-6 && !isnan(a) && !isnan(b); }
static int runOne(void (*f)()) { // 0 ok 1 fail 2 skipped
	int r = 0; arrs.clear(); pos.clear();
	try { f(); } catch (AssumeFailed&) { r = 2; } catch (CheckFailed&) { r = 1; } catch (...) { strcpy(sh->fail, "unexpected exception"); r = 1; }
	if (r != 1) for (void* p : arrs) free(p);
	return r;
}
static void loadCase(const char* file) {
	FILE* f = fopen(file, "r"); if (!f) { perror(file); exit(3); }
	static char line[1 << 20];
	while (fgets(line, sizeof line, f)) {
		char* s = strtok(line, " \n"); if (!s || *s == '#') continue; std::string name = s; Ent e; e.n = 0; s = strtok(NULL, " \n"); if (s) e.n = strtoull(s, 0, 10);
		while ((s = strtok(NULL, " \n"))) e.v.push_back(s);
		cas[name].push_back(e);
	}
	fclose(f); useCase = true;
}
static u64 seedOf(u64 seed, u64 it) { u64 z = seed * 0x9E3779B97F4A7C15ULL + it * 0xBF58476D1CE4E5B9ULL + 0x1234567; z ^= z >> 31; z *= 0x94D049BB133111EBULL; z ^= z >> 29; return z ? z : 1; }
static void onTerm(int) { strcpy(sh->fail, "does not terminate in time"); _exit(7); }
int main(int argc, char** argv) {
	sh = (Shared*) mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (argc < 2) { for (auto& u : units()) printf("%s\n", u.name.c_str()); return 0; }
	Unit* u = NULL; for (auto& x : units()) if (x.name == argv[1]) u = &x;
	if (!u) { fprintf(stderr, "no such unit %s\n", argv[1]); return 3; }
	std::string mode = argc > 2 ? argv[2] : "search";
	if (mode == "case" || mode == "one") {
		if (mode == "case") loadCase(argv[3]); else { rs = seedOf(strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10)); logVals = true; }
		pid_t p = fork();
		if (p == 0) { signal(SIGALRM, onTerm); alarm(20); logVals = true; int r = runOne(u->fn); for (auto& s : vlog) printf("  input %s\n", s.c_str()); fflush(stdout); _exit(r); }
		int st; waitpid(p, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { printf("PASS\n"); return 0; }
		if (WIFEXITED(st) && WEXITSTATUS(st) == 2) { printf("SKIP precondition does not hold\n"); return 2; }
		printf("FAIL %s (status 0x%x)\n", sh->fail[0] ? sh->fail : "crash or memory error", st); return 1;
	}
	u64 seed = strtoull(argv[3], 0, 10), iters = strtoull(argv[4], 0, 10); double secs = argc > 5 ? atof(argv[5]) : 5;
	u64 start = argc > 6 ? strtoull(argv[6], 0, 10) : 0;
	timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
	sh->iter = start; u64 end = start + iters;
	pid_t p = fork();
	if (p == 0) {
		signal(SIGALRM, onTerm); u64 good = 0;
		for (u64 it = start; it < end; ++it) {
			sh->iter = it; rs = seedOf(seed, it); alarm(10);
			int r = runOne(u->fn);
			if (r == 1) _exit(1);
			if (r == 0) sh->good = sh->good + 1;
			if ((it & 15) == 0) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break; }
		}
		sh->done = 1; _exit(0);
	}
	int st; waitpid(p, &st, 0);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done) { printf("OK iterations %llu passed %llu checks %llu\n", (unsigned long long) (sh->iter - start + 1), (unsigned long long) sh->good, (unsigned long long) sh->checks); return 0; }
	printf("FAIL seed %llu iteration %llu: %s (status 0x%x)\n", (unsigned long long) seed, (unsigned long long) sh->iter, sh->fail[0] ? sh->fail : "crash or memory error", st);
	return 1;
}
