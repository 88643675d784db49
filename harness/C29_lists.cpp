// @property C29
// @sources FCollada/FMath/FMVector3.cpp FCollada/FCDocument/FCDParameterAnimatable.cpp FCollada/FCDocument/FCDAnimated.cpp FCollada/FCDocument/FCDTransform.cpp FCollada/FCDocument/FCDocument.cpp FCollada/FCDocument/FCDObject.cpp FCollada/FUtils/FUObject.cpp FCollada/FUtils/FUObjectType.cpp FCollada/FUtils/FUParameterizable.cpp FCollada/FUtils/FUTracker.cpp FCollada/FUtils/FUString.cpp
// @native whole
#include "StdAfx.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDAnimated.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDTransform.h"
#include "FCDocument/FCDParameterAnimatable.h"
#include "FCDocument/FCDParameterAnimatable.hpp"
#include "fcv.h"

// The parent of the list and the document the animations register with: the real objects natively;
// for the verifier a document of which only the set of registered animations exists.
#ifdef FCV_SYM
static FCDocument* document() { FCDocument* d = (FCDocument*) calloc(1, sizeof(FCDocument)); typedef decltype(d->animatedValues) T; new ((void*) &d->animatedValues) T(); return d; }
#else
static FCDocument* document() { static FCDocument* d = FCollada::NewTopDocument(); return d; }
#endif
static float fin(const char* name) { float f = fcv_float(name); fcv_assume(f == f); return f; }

enum { MAXN = 4, MAXC = 3 };
template <class TYPE> struct Lists
{
	typedef FCDParameterListAnimatableT<TYPE, 0> List;
	struct Real : public List { Real(FUParameterizable* p) : List(p) {}
#ifdef FCV_SYM
		FCDocument* doc;
		// (the registration of a new animation with its document, done by the real function, is not under contract here)
		virtual FCDAnimated* CreateAnimated(size_t index) { float* v[1] = { (float*) &this->GetDataList()[index] }; const char* q[1] = { "" }; return new FCDAnimated(doc, 1, q, v); }
#endif
	};
};
// a list of n values of which those in mask are animated, and the model it must agree with
struct Case
{
	typedef Lists<float>::Real List;
	List* list; size_t n; float v[MAXN + MAXC + 2]; FCDAnimated* a[MAXN + MAXC + 2];
	Case(u32 _n, u32 mask)
	{
		FCDocument* doc = document();
		list = new List(new FCDTTranslation(doc, NULL)); n = _n;
#ifdef FCV_SYM
		list->doc = doc;
#endif
		for (u32 i = 0; i < n; ++i) { v[i] = fin("v"); list->GetDataList().push_back(v[i]); }
		// animations are requested in any order
		if (fcv_bool("downwards")) { for (u32 i = n; i-- > 0;) a[i] = (mask >> i & 1) ? list->GetAnimated(i) : NULL; }
		else for (u32 i = 0; i < n; ++i) a[i] = (mask >> i & 1) ? list->GetAnimated(i) : NULL;
		for (u32 i = 0; i < n; ++i) if (a[i]) fcv_check(list->GetAnimated(i) == a[i], "asking again for the animation of an element returns the same animation");
	}
	void inserted(size_t at, size_t count, const float* w)
	{
		for (size_t i = n; i-- > at;) { v[i + count] = v[i]; a[i + count] = a[i]; }
		for (size_t i = 0; i < count; ++i) { v[at + i] = w[i]; a[at + i] = NULL; }
		n += count;
	}
	void erased(size_t at, size_t count)
	{
		for (size_t i = at + count; i < n; ++i) { v[i - count] = v[i]; a[i - count] = a[i]; }
		n -= count;
	}
	void check()
	{
		fcv_check(list->size() == n, "the list has the number of elements of the sequence");
		size_t k = 0;
		for (size_t i = 0; i < n; ++i)
		{
			fcv_check(list->at(i) == v[i], "the values are those of the sequence");
			if (a[i] == NULL) continue;
			fcv_check(k < list->GetAnimatedValues().size() && list->GetAnimatedValues()[k] == a[i], "the animations that remain are those of the remaining elements, in order");
			fcv_check(a[i]->GetArrayElement() == (int32) i, "an animation moves with its element");
			fcv_check(a[i]->GetValue(0) == &list->at(i), "an animation is bound to the value of its element");
			++k;
		}
		fcv_check(list->GetAnimatedValues().size() == k, "animations of erased elements are removed");
	}
};
FCV_UNIT(get_animated, "shape=lists of up to 4 elements with any subset animated and up to 3 inserted or erased;fmode=real;split=n:0-4")
{
	u32 n = fcv_small("n", 0, 4); Case c(n, fcv_small("mask", 0, 15) & ((1 << n) - 1));
	c.check();
	if (n > 0) { u32 i = fcv_small("i", 0, 3); fcv_assume(i < n); FCDAnimated* a = c.list->GetAnimated(i); fcv_check(c.a[i] == NULL || a == c.a[i], "an element has one animation"); c.a[i] = a; c.check(); }
}
FCV_UNIT(insert_one, "shape=lists of up to 4 elements with any subset animated and up to 3 inserted or erased;fmode=real;split=n:0-4")
{
	u32 n = fcv_small("n", 0, 4), i = fcv_small("i", 0, 4); fcv_assume(i <= n); Case c(n, fcv_small("mask", 0, 15) & ((1 << n) - 1));
	float w = fin("w"); c.list->insert(i, w); c.inserted(i, 1, &w); c.check();
}
FCV_UNIT(insert_filled, "shape=lists of up to 4 elements with any subset animated and up to 3 inserted or erased;fmode=real;split=n:0-4")
{
	u32 n = fcv_small("n", 0, 4), i = fcv_small("i", 0, 4), k = fcv_small("k", 0, 2); fcv_assume(i <= n); Case c(n, fcv_small("mask", 0, 15) & ((1 << n) - 1));
	float w = fin("w"); float ws[3] = { w, w, w }; c.list->insert(i, (size_t) k, w); c.inserted(i, k, ws); c.check();
}
FCV_UNIT(insert_several, "shape=lists of up to 4 elements with any subset animated and up to 3 inserted or erased;fmode=real;split=n:0-4")
{
	u32 n = fcv_small("n", 0, 4), i = fcv_small("i", 0, 4), k = fcv_small("k", 0, 2); fcv_assume(i <= n); Case c(n, fcv_small("mask", 0, 15) & ((1 << n) - 1));
	float ws[3] = { fin("w"), fin("w"), fin("w") }; c.list->insert(i, ws, k); c.inserted(i, k, ws); c.check();
}
FCV_UNIT(erase_one, "shape=lists of up to 4 elements with any subset animated and up to 3 inserted or erased;fmode=real;split=n:1-4")
{
	u32 n = fcv_small("n", 1, 4), i = fcv_small("i", 0, 3); fcv_assume(i < n); Case c(n, fcv_small("mask", 0, 15) & ((1 << n) - 1));
	c.list->erase((size_t) i); c.erased(i, 1); c.check();
}
FCV_UNIT(erase_several, "shape=lists of up to 4 elements with any subset animated and up to 4 erased;fmode=real;split=n:1-4")
{
	u32 n = fcv_small("n", 1, 4), i = fcv_small("i", 0, 4), k = fcv_small("k", 1, 4); fcv_assume(i + k <= n); Case c(n, fcv_small("mask", 0, 15) & ((1 << n) - 1));
	c.list->erase((size_t) i, (size_t) i + k); c.erased(i, k); c.check();
}
FCV_UNIT(ends, "shape=lists of up to 4 elements with any subset animated and up to 3 inserted or erased;fmode=real;split=op:0-4")
{
	u32 op = fcv_small("op", 0, 4), n = fcv_small("n", 0, 4); Case c(n, fcv_small("mask", 0, 15) & ((1 << n) - 1));
	float w = fin("w");
	if (op == 0) { c.list->push_back(w); c.inserted(n, 1, &w); }
	if (op == 1) { c.list->push_front(w); c.inserted(0, 1, &w); }
	if (op == 2) { fcv_assume(n > 0); c.list->pop_back(); c.erased(n - 1, 1); }
	if (op == 3) { fcv_assume(n > 0); c.list->pop_front(); c.erased(0, 1); }
	if (op == 4) { c.list->clear(); c.erased(0, n); }
	c.check();
}
FCV_UNIT(resize, "shape=lists of up to 4 elements with any subset animated and up to 3 inserted or erased;fmode=real;split=n:0-4")
{
	u32 n = fcv_small("n", 0, 4), k = fcv_small("k", 0, 6); Case c(n, fcv_small("mask", 0, 15) & ((1 << n) - 1));
	c.list->resize(k);
	if (k < n) c.erased(k, n - k);
	else { float ws[6]; for (u32 j = n; j < k; ++j) ws[j - n] = c.list->at(j); c.inserted(n, k - n, ws); }
	c.check();
}
FCV_UNIT(resize_filled, "shape=lists of up to 4 elements with any subset animated and up to 3 inserted or erased;fmode=real;split=n:0-4")
{
	u32 n = fcv_small("n", 0, 4), k = fcv_small("k", 0, 6); Case c(n, fcv_small("mask", 0, 15) & ((1 << n) - 1));
	float w = fin("w"); float ws[6] = { w, w, w, w, w, w };
	c.list->resize(k, w);
	if (k < n) c.erased(k, n - k); else c.inserted(n, k - n, ws);
	c.check();
}
FCV_UNIT(set_value, "shape=lists of up to 4 elements with any subset animated and up to 3 inserted or erased;fmode=real;split=n:1-4")
{
	u32 n = fcv_small("n", 1, 4), i = fcv_small("i", 0, 3); fcv_assume(i < n); Case c(n, fcv_small("mask", 0, 15) & ((1 << n) - 1));
	float w = fin("w"); c.list->set(i, w); c.v[i] = w; c.check();
}
// elements of several components, and an insertion followed by an erasure
struct VList : FCDParameterListAnimatableT<FMVector3, 0>
{
	VList(FUParameterizable* p) : FCDParameterListAnimatableT<FMVector3, 0>(p) {}
#ifdef FCV_SYM
	FCDocument* doc;
	virtual FCDAnimated* CreateAnimated(size_t index) { float* v[3] = { &GetDataList()[index].x, &GetDataList()[index].y, &GetDataList()[index].z }; const char* q[3] = { ".X", ".Y", ".Z" }; return new FCDAnimated(doc, 3, q, v); }
#endif
};
FCV_UNIT(vectors, "fmode=real;shape=lists of up to 3 vectors with any subset animated, one insertion and one erasure;split=n:1-3")
{
	u32 n = fcv_small("n", 1, 3), mask = fcv_small("mask", 0, 7) & ((1 << n) - 1), i = fcv_small("i", 0, 3), j = fcv_small("j", 0, 3); fcv_assume(i <= n && j <= n);
	FCDocument* doc = document(); VList* l = new VList(new FCDTTranslation(doc, NULL));
#ifdef FCV_SYM
	l->doc = doc;
#endif
	FMVector3 v[5]; FCDAnimated* a[5]; u32 m = n;
	for (u32 k = 0; k < n; ++k) { v[k] = FMVector3(fin("x"), fin("y"), fin("z")); l->GetDataList().push_back(v[k]); }
	for (u32 k = 0; k < n; ++k) a[k] = (mask >> k & 1) ? l->GetAnimated(k) : NULL;
	FMVector3 w(fin("x"), fin("y"), fin("z"));
	l->insert(i, w); for (u32 k = m; k-- > i;) { v[k + 1] = v[k]; a[k + 1] = a[k]; } v[i] = w; a[i] = NULL; ++m;
	l->erase((size_t) j); for (u32 k = j; k + 1 < m; ++k) { v[k] = v[k + 1]; a[k] = a[k + 1]; } --m;
	fcv_check(l->size() == m, "the list has the number of elements of the sequence");
	size_t left = 0;
	for (u32 k = 0; k < m; ++k)
	{
		fcv_check(l->at(k).x == v[k].x && l->at(k).y == v[k].y && l->at(k).z == v[k].z, "the values are those of the sequence");
		if (a[k] == NULL) continue;
		++left;
		fcv_check(a[k]->GetArrayElement() == (int32) k, "an animation moves with its element");
		for (u32 c = 0; c < 3; ++c) fcv_check(a[k]->GetValue(c) == &l->at(k).x + c, "an animation is bound to the components of its element");
	}
	fcv_check(l->GetAnimatedValues().size() == left, "animations of erased elements are removed");
}
