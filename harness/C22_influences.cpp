// @property C22
// @sources FCollada/FCDocument/FCDSkinController.cpp FCollada/FUtils/FUParameterizable.cpp FCollada/FUtils/FUObject.cpp FCollada/FUtils/FUObjectType.cpp
// @native whole
#include "StdAfx.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDSkinController.h"
#include "fcv.h"

static FCDSkinController* skin()
{
#ifdef FCV_SYM
	// only the vertex list exists, the rest of the object is zero
	FCDSkinController* s = (FCDSkinController*) calloc(1, sizeof(FCDSkinController));
	typedef decltype(s->influences) V; new ((void*) &s->influences) V();
	return s;
#else
	static FCDocument* doc = FCollada::NewTopDocument();
	return new FCDSkinController(doc, NULL);
#endif
}
enum { MAXV = 3, MAXP = 12, JOINT = 100 };
struct Skin
{
	FCDSkinController* s; u32 nv; u32 n[MAXV]; float w[MAXV][MAXP];
	Skin(u32 _nv) : s(skin()), nv(_nv) { s->SetInfluenceCount(nv); for (u32 v = 0; v < nv; ++v) n[v] = 0; }
	void pair(u32 v)
	{
#ifndef FCV_SYM
		float x = fcv_bool("round") ? fcv_small("w8", 0, 8) / 8.0f : fcv_small("w", 0, 1000000) / 1e5f; // with ties and zeroes
#else
		float x = fcv_float("w"); fcv_assume(x >= 0.0f); fcv_assume(x <= 1e6f);
#endif
		w[v][n[v]] = x; s->GetVertexInfluence(v)->AddPair(JOINT * v + n[v], x); ++n[v];
	}
	void check(u32 v, u32 max, float min)
	{
		FCDSkinControllerVertex* x = s->GetVertexInfluence(v); size_t k = x->GetPairCount(); u32 eligible = 0;
		for (u32 i = 0; i < n[v]; ++i) if (w[v][i] >= min) ++eligible;
		fcv_check(k == (eligible < max ? eligible : max), "the strongest influences not below the minimum are kept, up to the maximum");
		if (k == n[v])
		{
			for (u32 i = 0; i < n[v]; ++i) fcv_check(x->GetPair(i)->jointIndex == (int32) (JOINT * v + i) && x->GetPair(i)->weight == w[v][i], "a vertex that needs no reduction is unchanged");
			return;
		}
		bool kept[MAXP]; for (u32 i = 0; i < n[v]; ++i) kept[i] = false;
		float total = 0, old = 0; float got = 0; u32 last = 0;
		for (u32 i = 0; i < n[v]; ++i) total += w[v][i];
		for (size_t i = 0; i < k; ++i)
		{
			int j = x->GetPair(i)->jointIndex - (int) (JOINT * v);
			fcv_check(j >= 0 && j < (int) n[v] && !kept[j], "every kept influence is one of the vertex, once");
			if (!(j >= 0 && j < (int) n[v])) return;
			kept[j] = true; fcv_check(w[v][j] >= min, "no influence below the minimum is kept");
			if (i > 0) fcv_check(w[v][last] >= w[v][j], "kept influences are in decreasing order");
			last = j; old += w[v][j]; got += x->GetPair(i)->weight;
		}
		for (u32 i = 0; i < n[v]; ++i) if (!kept[i] && k > 0 && w[v][i] >= min) fcv_check(w[v][last] >= w[v][i], "no dropped influence is stronger than a kept one");
		for (size_t i = 0; i < k; ++i)
			fcv_check(fcv_same(x->GetPair(i)->weight * old, w[v][x->GetPair(i)->jointIndex - JOINT * v] * total, 1e6 * (total + 1)), "relative weights are kept, scaled to the old total");
		if (k > 0) fcv_check(fcv_same(got, total, total + 1), "the total weight of a reduced vertex is the old total");
	}
	void reduce(u32 max, float min) { s->ReduceInfluences(max, min); fcv_check(s->GetInfluenceCount() == nv, "the vertices remain"); for (u32 v = 0; v < nv; ++v) check(v, max, min); }
};
static float minimum()
{
#ifndef FCV_SYM
	u32 k = fcv_small("minkind", 0, 2); return k == 0 ? 0.0f : k == 1 ? 0.125f : fcv_small("min", 0, 1000000) / 1e5f;
#else
	float min = fcv_float("min"); fcv_assume(min <= 1e6f); fcv_assume(min >= -1.0f); return min;
#endif
}
FCV_UNIT(three, "shape=1 vertex of up to 3 influences;fmode=real;split=max:0-3")
{
	u32 max = fcv_small("max", 0, 3), n = fcv_small("n", 0, 3); Skin k(1);
	for (u32 i = 0; i < 3; ++i) if (i < n) k.pair(0);
	k.reduce(max, minimum());
}
FCV_UNIT(four, "shape=1 vertex of 4 influences;fmode=real;split=max:0-4")
{
	u32 max = fcv_small("max", 0, 4); Skin k(1); for (u32 i = 0; i < 4; ++i) k.pair(0); k.reduce(max, minimum());
}
FCV_UNIT(five, "shape=1 vertex of 5 influences;fmode=real;split=max:1-4")
{
	u32 max = fcv_small("max", 1, 4); Skin k(1); for (u32 i = 0; i < 5; ++i) k.pair(0); k.reduce(max, minimum());
}
FCV_UNIT(two_vertices, "shape=2 or 3 vertices of 2 and 0 to 2 influences;fmode=real;split=max:0-2")
{
	u32 max = fcv_small("max", 0, 2), n = fcv_small("n", 0, 2), order = fcv_small("order", 0, 1); Skin k(n == 1 ? 3 : 2);
	for (u32 i = 0; i < 2; ++i) k.pair(order); for (u32 i = 0; i < 2; ++i) if (i < n) k.pair(1 - order);
	k.reduce(max, minimum());
}
FCV_UNIT(many, "native;search=6")
{
	Skin k(fcv_small("vertices", 1, 3));
	for (u32 v = 0; v < k.nv; ++v) { u32 n = fcv_small("n", 0, MAXP); for (u32 i = 0; i < n; ++i) k.pair(v); }
	k.reduce(fcv_small("max", 0, MAXP), minimum());
}
