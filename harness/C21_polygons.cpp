// @property C21
// @sources FCollada/FCDocument/FCDGeometryPolygons.cpp FCollada/FCDocument/FCDGeometryPolygonsInput.cpp FCollada/FCDocument/FCDGeometryPolygonsTools.cpp FCollada/FCDocument/FCDGeometryMesh.cpp FCollada/FCDocument/FCDObject.cpp FCollada/FCDocument/FCDObjectWithId.cpp FCollada/FUtils/FUObject.cpp FCollada/FUtils/FUObjectType.cpp FCollada/FUtils/FUParameterizable.cpp FCollada/FUtils/FUTracker.cpp
// @native whole
#include "StdAfx.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometryPolygons.h"
#include "FCDocument/FCDGeometryPolygonsInput.h"
#include "FCDocument/FCDGeometryPolygonsTools.h"
#include "FCDocument/FCDGeometrySource.h"
#include "fcv.h"

static FCDGeometryMesh* mesh()
{
#ifdef FCV_SYM
	// only the set list exists, the rest of the object is zero
	FCDGeometryMesh* m = (FCDGeometryMesh*) calloc(1, sizeof(FCDGeometryMesh));
	typedef decltype(m->polygons) P; new ((void*) &m->polygons) P();
	return m;
#else
	static FCDocument* doc = FCollada::NewTopDocument();
	return new FCDGeometryMesh(doc, NULL);
#endif
}
enum { MAXF = 10, MAXI = 64, INPUTS = 3 };
struct Set
{
	FCDGeometryMesh* m; FCDGeometryPolygons* p;
	u32 n; u32 c[MAXF]; bool hole[MAXF];                       // vertex counts, in order, of the faces and their holes
	u32 in; FCDGeometryPolygonsInput* input[INPUTS]; u32 off[INPUTS]; u32 ni; u32 v[INPUTS][MAXI]; // inputs and their indices
	Set() : m(mesh()), n(0), in(0), ni(0) { p = new FCDGeometryPolygons(m->GetDocument(), m); m->polygons.push_back(p); }
	u32 faces() const { u32 f = 0; for (u32 i = 0; i < n; ++i) if (!hole[i]) ++f; return f; }
	u32 place(u32 face) const { for (u32 i = 0; i < n; ++i) if (!hole[i]) { if (face == 0) return i; --face; } return n; }
	u32 end(u32 at) const { ++at; while (at < n && hole[at]) ++at; return at; }
	u32 sum(u32 from, u32 to) const { u32 s = 0; for (u32 i = from; i < to; ++i) s += c[i]; return s; }
	// a polygon set as it is loaded: counts, holes, then indices
	void counts(u32 _n, u32 holes, u32 lo, u32 hi)
	{
		n = _n;
		for (u32 i = 0; i < n; ++i) { hole[i] = i > 0 && (holes >> i & 1); c[i] = hi - lo < 8 ? fcv_small("count", lo, hi) : fcv_u32("count"); fcv_assume(c[i] >= lo); fcv_assume(c[i] <= hi); }
		build(false);
	}
	void build(bool up)
	{
		for (u32 i = 0; i < n; ++i) p->AddFaceVertexCount(c[i]);
		for (u32 k = 0; k < n; ++k) { u32 i = up ? k : n - 1 - k; if (hole[i]) p->AddHole(i); }
		m->Recalculate();
	}
	void inputs(u32 config)
	{
		// one input; two inputs of their own indices; two that share; three of which the first and last share
		static const u32 number[4] = { 1, 2, 2, 3 }; static const u32 offs[4][3] = { { 0, 0, 0 }, { 0, 1, 0 }, { 0, 0, 0 }, { 0, 1, 0 } };
		in = number[config]; ni = sum(0, n);
		for (u32 i = 0; i < in; ++i)
		{
			off[i] = offs[config][i]; input[i] = p->AddInput(NULL, off[i]); bool owns = true;
			for (u32 j = 0; j < i; ++j) if (off[j] == off[i]) { owns = false; for (u32 k = 0; k < ni; ++k) v[i][k] = v[j][k]; }
			if (owns) for (u32 k = 0; k < ni; ++k) { v[i][k] = fcv_u32("index"); input[i]->AddIndex(v[i][k]); }
		}
	}
	void check()
	{
		u32 f = faces(); u32 total = sum(0, n);
		fcv_check(p->GetFaceCount() == f && p->GetFaceVertexCountCount() == n, "the set has its faces");
		fcv_check(p->GetHoleCount() == n - f && p->GetHoleFaceCount() == n - f, "the set has its holes");
		for (u32 i = 0; i < n; ++i) fcv_check(p->GetFaceVertexCounts()[i] == c[i] && p->IsHoleFaceHole(i) == hole[i], "every face and hole has its vertex count");
		fcv_check(p->GetFaceVertexCount() == total && m->GetFaceVertexCount() == total && m->GetFaceCount() == f && m->GetHoleCount() == n - f, "the total is the sum over all faces");
		for (u32 k = 0; k < f; ++k)
		{
			u32 at = place(k), e = end(at);
			fcv_check(p->GetHoleCountBefore(k) == at - k, "the holes before a face are those of the faces before it");
			fcv_check(p->GetHoleCount(k) == e - at - 1, "the holes of a face are those that follow it");
			fcv_check(p->GetFaceVertexOffset(k) == sum(0, at), "the offset of a face is the sum of the counts of all preceding faces and holes");
			fcv_check(p->GetFaceVertexCount(k) == sum(at, e), "the count of a face includes its holes");
		}
		for (u32 i = 0; i < in; ++i)
		{
			fcv_check(input[i]->GetIndexCount() == ni, "every input has an index for every vertex of every face");
			const uint32* x = input[i]->GetIndices();
			for (u32 k = 0; k < ni; ++k) fcv_check(x[k] == v[i][k], "the indices are kept");
		}
	}
	void remove(u32 face)
	{
		u32 at = place(face), e = end(at), from = sum(0, at), len = sum(at, e);
		p->RemoveFace(face);
		for (u32 i = 0; i < in; ++i) for (u32 k = from; k + len < ni; ++k) v[i][k] = v[i][k + len];
		if (in > 0) ni -= len;
		for (u32 i = e; i < n; ++i) { c[at + i - e] = c[i]; hole[at + i - e] = hole[i]; }
		n -= e - at; check();
	}
	void add(u32 degree)
	{
		p->AddFace(degree); c[n] = degree; hole[n] = false; ++n;
		for (u32 i = 0; i < in; ++i) { const uint32* x = input[i]->GetIndices(); for (u32 k = ni; k < ni + degree; ++k) v[i][k] = x[k]; }
		if (in > 0) ni += degree;
		check();
	}
	void triangulate(bool whole, u32 type)
	{
		static u32 w[INPUTS][MAXI * 3]; u32 nw = 0, t = 0, old = 0;
		for (u32 i = 0; i < n; old += c[i], ++i) if (!hole[i] && c[i] >= 3)
			for (u32 k = 0; k + 2 < c[i]; ++k, nw += 3, ++t) for (u32 j = 0; j < in; ++j)
			{
				bool strip = type == FCDGeometryPolygons::TRIANGLE_STRIPS, flip = strip && (k & 1);
				w[j][nw] = v[j][old + (strip ? k : 0)]; w[j][nw + (flip ? 2 : 1)] = v[j][old + k + 1]; w[j][nw + (flip ? 1 : 2)] = v[j][old + k + 2];
			}
		p->SetPrimitiveType((FCDGeometryPolygons::PrimitiveType) type);
		if (whole) FCDGeometryPolygonsTools::Triangulate(m); else FCDGeometryPolygonsTools::Triangulate(p);
		n = t; for (u32 i = 0; i < n; ++i) { c[i < MAXF ? i : 0] = 3; hole[i < MAXF ? i : 0] = false; } ni = nw;
		fcv_check(p->GetFaceCount() == t && p->GetHoleCount() == 0 && p->IsTriangles(), "only triangles remain, n-2 for each polygon of n vertices");
		fcv_check(p->GetFaceVertexCount() == 3 * t, "the total is that of the triangles");
		fcv_check(p->GetPrimitiveType() == FCDGeometryPolygons::POLYGONS, "the triangles are a polygon list");
		for (u32 j = 0; j < in; ++j)
		{
			fcv_check(input[j]->GetIndexCount() == nw, "all inputs are kept in step");
			const uint32* x = input[j]->GetIndices();
			for (u32 k = 0; k < nw; ++k) fcv_check(x[k] == w[j][k], "every triangle consists of vertices of its polygon, in order");
		}
	}
};
// any number of faces
static u64 add_count(u64 acc, const void* c, u64 i) { return acc + ((const u32*) c)[i]; }
FCV_UNIT(any_offset, "")
{
	u64 n = fcv_len("n", 40), k = fcv_len("k", 40); fcv_assume(k < n); u32* c = fcv_u32s("counts", n); Set s;
	s.p->faceVertexCounts.~vector(); s.p->faceVertexCounts.heapBuffer = c; s.p->faceVertexCounts.sized = s.p->faceVertexCounts.reserved = n;
	u64 before = fcv_fold_u64(add_count, 0, c, k), all = fcv_fold_u64(add_count, 0, c, n);
	fcv_check(s.p->GetFaceCount() == n && s.p->GetHoleCountBefore(k) == 0 && s.p->GetHoleCount(k) == 0, "a set without holes has a face for every count");
	fcv_check(s.p->GetFaceVertexOffset(k) == before, "the offset of a face is the sum of the counts of all preceding faces");
	fcv_check(s.p->GetFaceVertexCount(k) == c[k], "the count of a face is its own");
	s.p->Recalculate(); fcv_check(s.p->GetFaceVertexCount() == all, "the total is the sum over all faces");
	s.p->faceVertexCounts.heapBuffer = NULL; s.p->faceVertexCounts.sized = s.p->faceVertexCounts.reserved = 0;
}
FCV_UNIT(bookkeeping, "shape=up to 5 faces and holes in any arrangement, of any vertex counts;split=n:0-5")
{
	u32 n = fcv_small("n", 0, 5), holes = fcv_small("holes", 0, n < 2 ? 0 : (1 << (n - 1)) - 1) << 1; Set s;
	s.counts(n, holes, 0, 1 << 20); s.check();
}
FCV_UNIT(remove_counts, "shape=up to 4 faces and holes in any arrangement, of any vertex counts, no inputs;split=n:1-4")
{
	u32 n = fcv_small("n", 1, 4), holes = fcv_small("holes", 0, (1 << (n - 1)) - 1) << 1; Set s;
	s.counts(n, holes, 0, 1 << 20); u32 k = fcv_small("face", 0, 3); fcv_assume(k < s.faces()); s.remove(k);
}
FCV_UNIT(remove_indices, "shape=up to 4 faces and holes in any arrangement, of 1 to 2 vertices, up to 3 inputs that share or own their indices;split=case:0-15")
{
	u32 which = fcv_small("case", 0, 15), config = which % 4, n = 1 + which / 4, holes = fcv_small("holes", 0, (1 << (n - 1)) - 1) << 1; Set s;
	s.counts(n, holes, 1, 2); s.inputs(config); u32 k = fcv_small("face", 0, 3); fcv_assume(k < s.faces()); s.remove(k);
}
FCV_UNIT(add_remove, "shape=up to 2 faces, one added, one removed, up to 3 inputs;split=config:0-3")
{
	u32 config = fcv_small("config", 0, 3); Set s; s.counts(fcv_small("n", 0, 2), 0, 1, 3); s.inputs(config); s.check(); s.add(3);
	u32 k = fcv_small("face", 0, 2); fcv_assume(k < s.faces()); s.remove(k); s.add(4);
}
FCV_UNIT(triangulate_one, "shape=one polygon of up to 7 vertices, up to 3 inputs;split=config:0-3")
{
	u32 config = fcv_small("config", 0, 3); Set s; s.n = 1; s.c[0] = fcv_small("count", 0, 7); s.hole[0] = false; s.build(true); s.inputs(config);
	static const u32 types[3] = { FCDGeometryPolygons::POLYGONS, FCDGeometryPolygons::TRIANGLE_FANS, FCDGeometryPolygons::TRIANGLE_STRIPS };
	s.triangulate(fcv_bool("whole"), types[fcv_small("type", 0, 2)]);
}
FCV_UNIT(triangulate_some, "shape=up to 3 faces and holes in any arrangement, of 2 to 4 vertices (2 to 5 for two), up to 3 inputs;split=case:0-7")
{
	u32 which = fcv_small("case", 0, 7), config = which % 4, n = 2 + which / 4, holes = fcv_small("holes", 0, (1 << (n - 1)) - 1) << 1; Set s;
	s.counts(n, holes, 2, n == 2 ? 5 : 4); s.inputs(config);
	s.triangulate(true, fcv_small("type", 0, 1) ? FCDGeometryPolygons::TRIANGLE_STRIPS : FCDGeometryPolygons::POLYGONS);
}
FCV_UNIT(history, "native;search=6")
{
	Set s; s.counts(fcv_small("n", 0, 6), fcv_small("holes", 0, 31) << 1, 1, 5); if (fcv_small("noinputs", 0, 3)) s.inputs(fcv_small("config", 0, 3));
	if (fcv_bool("whole")) s.check();
	u32 len = fcv_small("len", 0, 6);
	for (u32 i = 0; i < len; ++i)
		if (fcv_small("op", 0, 2)) { u32 f = s.faces(); if (f) s.remove(fcv_small("face", 0, MAXF) % f); }
		else if (s.n < MAXF && s.ni < MAXI - 8) s.add(fcv_small("degree", 1, 6));
	if (fcv_bool("triangulate")) s.triangulate(fcv_bool("all"), FCDGeometryPolygons::POLYGONS);
}
