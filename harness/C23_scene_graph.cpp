// @property C23
// @sources FCollada/FMath/FMVector3.cpp FCollada/FCDocument/FCDSceneNode.cpp FCollada/FCDocument/FCDTransform.cpp FCollada/FCDocument/FCDEntity.cpp FCollada/FCDocument/FCDObject.cpp FCollada/FCDocument/FCDObjectWithId.cpp FCollada/FUtils/FUObject.cpp FCollada/FUtils/FUObjectType.cpp FCollada/FUtils/FUParameterizable.cpp FCollada/FUtils/FUTracker.cpp
// @native whole
#include "StdAfx.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDEntityInstance.h"
#include "FCDocument/FCDTransform.h"
#include "fcv.h"

// A scene node; for the verifier only the members the graph operations work on are constructed, the rest of the object is zero.
static FCDSceneNode* node()
{
#ifdef FCV_SYM
	FCDSceneNode* s = (FCDSceneNode*) calloc(1, sizeof(FCDSceneNode));
	typedef decltype(s->parents) P; typedef FUTrackable::FUTrackerList T;
	new ((void*) &s->trackers) T(); new ((void*) &s->parents) P(); new ((void*) &s->children) P();
	return s;
#else
	static FCDocument* doc = FCollada::NewTopDocument();
	return new FCDSceneNode(doc);
#endif
}
enum { MAXN = 5 };
struct Graph
{
	u32 n; FCDSceneNode* x[MAXN]; bool e[MAXN][MAXN];
	// every acyclic graph is, after renaming, one whose links go from lower to higher numbers
	Graph(u32 _n, u32 links, bool reverse) : n(_n)
	{
		for (u32 i = 0; i < n; ++i) { x[i] = node(); for (u32 j = 0; j < n; ++j) e[i][j] = false; }
		u32 total = n * (n - 1) / 2;
		for (u32 k = 0; k < total; ++k)
		{
			u32 want = reverse ? total - 1 - k : k, c = 0;
			for (u32 i = 0; i < n; ++i) for (u32 j = i + 1; j < n; ++j, ++c) if (c == want && (links >> c & 1))
			{
				fcv_check(x[i]->AddChildNode(x[j]), "a link that violates nothing is accepted"); e[i][j] = true;
			}
		}
	}
	bool reaches(u32 a, u32 b) const
	{
		bool r[MAXN]; for (u32 i = 0; i < n; ++i) r[i] = i == a;
		for (u32 k = 0; k < n; ++k) for (u32 i = 0; i < n; ++i) if (r[i]) for (u32 j = 0; j < n; ++j) if (e[i][j]) r[j] = true;
		return r[b];
	}
	static u32 count(const FCDSceneNode** l, size_t c, const FCDSceneNode* what) { u32 r = 0; for (size_t i = 0; i < c; ++i) if (l[i] == what) ++r; return r; }
	void check() const
	{
		for (u32 i = 0; i < n; ++i)
		{
			size_t nc = 0, np = 0;
			for (u32 j = 0; j < n; ++j)
			{
				u32 c = count(x[i]->GetChildren(), x[i]->GetChildrenCount(), x[j]), p = count(x[j]->GetParents(), x[j]->GetParentCount(), x[i]);
				fcv_check(c == (e[i][j] ? 1 : 0), "a node is listed once as a child exactly when it was added and not removed");
				fcv_check(p == c, "a node is listed as a parent exactly when the other is listed as its child");
				fcv_check(!e[i][j] || !reaches(j, i), "no node is its own ancestor");
				nc += e[i][j]; np += e[j][i];
			}
			fcv_check(x[i]->GetChildrenCount() == nc && x[i]->GetParentCount() == np, "there are no other links");
		}
	}
	void add(u32 a, u32 b)
	{
		bool ok = a != b && !e[a][b] && !reaches(b, a);
		fcv_check(x[a]->AddChildNode(x[b]) == ok, "an add is refused exactly when it would list a child twice or close a cycle");
		if (ok) e[a][b] = true;
		check();
	}
	void remove(u32 a, u32 b) { x[a]->RemoveChildNode(x[b]); e[a][b] = false; check(); }
};
#define PICK(n) u32 a = fcv_small("a", 0, n - 1), b = fcv_small("b", 0, n - 1)
FCV_UNIT(add_small, "shape=one add to any acyclic graph of up to 3 nodes")
{
	u32 n = fcv_small("n", 1, 3); PICK(3); fcv_assume(a < n && b < n);
	u32 t = n * (n - 1) / 2; Graph g(n, fcv_small("links", 0, 7) & ((1 << t) - 1), fcv_small("reverse", 0, 1)); g.add(a, b);
}
FCV_UNIT(remove_small, "shape=one removal from any acyclic graph of up to 3 nodes")
{
	u32 n = fcv_small("n", 1, 3); PICK(3); fcv_assume(a < n && b < n);
	u32 t = n * (n - 1) / 2; Graph g(n, fcv_small("links", 0, 7) & ((1 << t) - 1), fcv_small("reverse", 0, 1)); g.remove(a, b);
}
FCV_UNIT(add_four, "shape=one add to any acyclic graph of 4 nodes;split=links:0-63")
{
	u32 links = fcv_small("links", 0, 63); PICK(4); Graph g(4, links, links & 1); g.add(a, b);
}
FCV_UNIT(remove_four, "shape=one removal from any acyclic graph of 4 nodes;split=links:0-63")
{
	u32 links = fcv_small("links", 0, 63); PICK(4); Graph g(4, links, links & 1); g.remove(a, b);
}
FCV_UNIT(nothing_added, "shape=single node")
{
	FCDSceneNode* s = node(); fcv_check(!s->AddChildNode(NULL), "adding no node is refused"); fcv_check(s->GetChildrenCount() == 0 && s->GetParentCount() == 0, "a refused add changes nothing");
}
FCV_UNIT(history, "native;search=6")
{
	// histories over five nodes
	Graph g(5, 0, false); u32 len = fcv_small("len", 1, 30);
	for (u32 i = 0; i < len; ++i) { u32 a = fcv_small("a", 0, 4), b = fcv_small("b", 0, 4); if (fcv_small("op", 0, 3) != 0) g.add(a, b); else g.remove(a, b); }
}
