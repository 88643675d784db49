// @property C18
// @sources FCollada/FUtils/FUObject.cpp FCollada/FUtils/FUObjectType.cpp FCollada/FUtils/FUTracker.cpp
// @native FCollada/FUtils/FUObject.cpp FCollada/FUtils/FUObjectType.cpp FCollada/FUtils/FUTracker.cpp FCollada/FUtils/FUAssert.cpp
#include "StdAfx.h"
#include "FUtils/FUObject.h"
#include "FUtils/FUTracker.h"
#include "fcv.h"

enum { NO = 3, NT = 2, MAXO = 4 };
static int died[MAXO];
struct Obj : public FUTrackable { int id; Obj(int i) : id(i) {} virtual ~Obj() { ++died[id]; } };
typedef FUTrackedPtr<Obj> Ptr; typedef FUTrackedList<Obj> List; typedef FUObjectRef<Obj> Ref; typedef FUObjectContainer<Obj> Cont;

// a sequence of different objects
struct Seq
{
	int n; int v[MAXO];
	Seq() : n(0) {}
	int find(int o) const { for (int i = 0; i < n; ++i) if (v[i] == o) return i; return -1; }
	void insert(int at, int o) { for (int i = n; i > at; --i) v[i] = v[i - 1]; v[at] = o; ++n; }
	void erase(int at) { for (int i = at + 1; i < n; ++i) v[i - 1] = v[i]; --n; }
	void remove(int o) { int i = find(o); if (i >= 0) erase(i); }
	// the k-th sequence of different objects out of NO
	void kth(u32 k)
	{
		int len = k < 1 ? 0 : k < 4 ? 1 : k < 10 ? 2 : 3; k -= len == 0 ? 0 : len == 1 ? 1 : len == 2 ? 4 : 10;
		int left[3] = { 0, 1, 2 }; int m = 3; int per = len == 1 ? 1 : len == 2 ? 2 : 2;
		for (int i = 0; i < len; ++i) { int d = per ? k / per : 0; k = per ? k % per : 0; v[n++] = left[d]; for (int j = d + 1; j < m; ++j) left[j - 1] = left[j]; --m; per = 1; }
	}
};
enum { SEQS = 16 };
struct World
{
	Obj* o[MAXO]; bool live[MAXO];
	Ptr* p[NT]; int pm[NT];          // tracked pointers and what they refer to (-1: none)
	List* l[NT]; Seq lm[NT];         // tracked lists
	Ref* r[NT]; int rm[NT];          // owning references
	Cont* c; Seq cm;                 // owning container
	World()
	{
		for (int i = 0; i < NO; ++i) { died[i] = 0; o[i] = new Obj(i); live[i] = true; }
		for (int i = 0; i < NT; ++i) { p[i] = NULL; l[i] = NULL; r[i] = NULL; pm[i] = rm[i] = -1; }
		c = NULL;
	}
	void pointers() { for (int i = 0; i < NT; ++i) p[i] = new Ptr(); }
	void lists() { for (int i = 0; i < NT; ++i) l[i] = new List(); }
	void owners() { for (int i = 0; i < NT; ++i) r[i] = new Ref(); c = new Cont(); }
	bool owned(int x) const { return rm[0] == x || rm[1] == x || cm.find(x) >= 0; }
	// an object is gone: nothing refers to it any more
	void gone(int x)
	{
		live[x] = false;
		for (int i = 0; i < NT; ++i) { if (pm[i] == x) pm[i] = -1; if (rm[i] == x) rm[i] = -1; lm[i].remove(x); }
		cm.remove(x);
	}
	void check()
	{
		for (int x = 0; x < NO; ++x)
		{
			fcv_check(died[x] == (live[x] ? 0 : 1), "an object is released exactly once, when its owner or the user releases it");
			if (!live[x]) continue;
			size_t k = 0;
			for (int i = 0; i < NT; ++i)
			{
				if (p[i]) { bool t = pm[i] == x; k += t; fcv_check(o[x]->HasTracker(p[i]) == t && p[i]->TracksObject(o[x]) == t, "an object knows exactly the pointers that refer to it"); }
				if (l[i]) { bool t = lm[i].find(x) >= 0; k += t; fcv_check(o[x]->HasTracker((FUTracker*) l[i]) == t && l[i]->TracksObject(o[x]) == t, "an object knows exactly the lists that hold it"); }
			}
			fcv_check(o[x]->GetTrackerCount() == k, "an object has no other trackers");
			FUObjectOwner* w = rm[0] == x ? (FUObjectOwner*) r[0] : rm[1] == x ? (FUObjectOwner*) r[1] : cm.find(x) >= 0 ? (FUObjectOwner*) c : NULL;
			fcv_check(o[x]->objectOwner == w, "an object is owned by exactly the reference or container that contains it");
		}
		for (int i = 0; i < NT; ++i)
		{
			if (p[i]) fcv_check((Obj*) *p[i] == (pm[i] < 0 ? NULL : o[pm[i]]), "a tracked pointer refers to its object, or to nothing once that is released");
			if (r[i]) fcv_check((Obj*) *r[i] == (rm[i] < 0 ? NULL : o[rm[i]]), "an owning reference refers to its object, or to nothing once that is released");
			if (l[i]) { fcv_check(l[i]->size() == (size_t) lm[i].n, "a tracked list holds its live objects"); for (int k = 0; k < lm[i].n; ++k) fcv_check((*l[i])[k] == o[lm[i].v[k]], "a tracked list keeps the order of its objects"); }
		}
		if (c) { fcv_check(c->size() == (size_t) cm.n, "a container holds its live objects"); for (int k = 0; k < cm.n; ++k) fcv_check((*c)[k] == o[cm.v[k]], "a container keeps the order of its objects"); }
	}
	// ---- operations ----
	Obj* obj(int x) { return x < 0 ? NULL : o[x]; }
	void release(int x) { if (!live[x]) return; o[x]->Release(); gone(x); }
	void point(int i, int x) { if (x >= 0 && !live[x]) x = -1; *p[i] = obj(x); pm[i] = x; }
	void point_same(int i, int k) { *p[i] = *p[k]; pm[i] = pm[k]; }
	void point_copy(int i)
	{
		// a copy follows the object on its own
		Ptr* q = new Ptr(*p[i]); fcv_check((Obj*) *q == obj(pm[i]), "a copy of a tracked pointer refers to the same object");
		if (pm[i] >= 0) fcv_check(o[pm[i]]->HasTracker(q), "a copy of a tracked pointer tracks its object");
		delete q;
	}
	void point_copy_release(int i)
	{
		Ptr q(*p[i]); if (pm[i] >= 0) release(pm[i]);
		fcv_check((Obj*) q == NULL, "a copy of a tracked pointer refers to nothing once the object is released");
	}
	void point_end(int i) { delete p[i]; p[i] = NULL; pm[i] = -1; check(); p[i] = new Ptr(); }
	void build(int i, u32 k) { Seq s; s.kth(k); for (int j = 0; j < s.n; ++j) list_push(i, s.v[j]); }
	void list_push(int i, int x) { if (!live[x] || lm[i].find(x) >= 0) return; l[i]->push_back(o[x]); lm[i].insert(lm[i].n, x); }
	void list_insert(int i, int at, int x)
	{
		if (!live[x] || lm[i].find(x) >= 0 || at > lm[i].n) return;
		List::iterator it = l[i]->insert(l[i]->begin() + at, o[x]); fcv_check(*it == o[x], "an insert returns the place of the new object"); lm[i].insert(at, x);
	}
	void list_insert_range(int i, int at, int k)
	{
		// the objects of another list that this one does not hold yet
		Obj* a[MAXO]; int n = 0; Seq s = lm[k]; if (at > lm[i].n) return;
		for (int j = 0; j < s.n; ++j) if (lm[i].find(s.v[j]) < 0) a[n++] = o[s.v[j]];
		l[i]->insert(l[i]->begin() + at, a, a + n); for (int j = 0; j < n; ++j) lm[i].insert(at + j, a[j]->id);
	}
	void list_erase(int i, int x) { if (!live[x]) return; bool had = lm[i].find(x) >= 0; fcv_check(l[i]->erase(o[x]) == had, "erasing an object reports whether the list held it"); lm[i].remove(x); }
	void list_erase_at(int i, int at) { if (at >= lm[i].n) return; l[i]->erase((size_t) at); lm[i].erase(at); }
	void list_erase_range(int i, int from, int to) { if (from >= to || to > lm[i].n) return; l[i]->erase((size_t) from, (size_t) to); for (int j = from; j < to; ++j) lm[i].erase(from); }
	void list_pop(int i, bool front) { if (front) l[i]->pop_front(); else l[i]->pop_back(); if (lm[i].n > 0) lm[i].erase(front ? 0 : lm[i].n - 1); }
	void list_clear(int i) { l[i]->clear(); lm[i].n = 0; }
	void list_release(int i, int x) { if (!live[x]) return; bool had = lm[i].find(x) >= 0; fcv_check(l[i]->release(o[x]) == had, "releasing an object of a list reports whether the list held it"); if (had) gone(x); }
	void list_assign(int i, int k) { *l[i] = *l[k]; lm[i] = lm[k]; }
	void list_copy(int i)
	{
		List* q = new List(*l[i]); fcv_check(q->size() == (size_t) lm[i].n, "a copy of a list holds the same objects");
		for (int j = 0; j < lm[i].n; ++j) fcv_check((*q)[j] == o[lm[i].v[j]] && o[lm[i].v[j]]->HasTracker((FUTracker*) q), "a copy of a list tracks the same objects");
		delete q;
	}
	void list_copy_release(int i)
	{
		List q(*l[i]); if (lm[i].n > 0) { int x = lm[i].v[0]; release(x); }
		fcv_check(q.size() == (size_t) lm[i].n, "a copy of a list drops a released object");
		for (int j = 0; j < lm[i].n; ++j) fcv_check(q[j] == o[lm[i].v[j]], "a copy of a list keeps its other objects");
	}
	void list_end(int i) { delete l[i]; l[i] = NULL; lm[i].n = 0; check(); l[i] = new List(); }
	void own(int i, int x)
	{
		if (x >= 0 && (!live[x] || owned(x))) return; int old = rm[i];
		*r[i] = obj(x); if (old >= 0) gone(old); rm[i] = x;
	}
	void own_from(int i, int k) { int old = rm[i], now = rm[k]; *r[i] = *r[k]; if (i == k) return; if (old >= 0) gone(old); rm[k] = -1; rm[i] = now; }
	void own_end(int i) { int old = rm[i]; delete r[i]; r[i] = NULL; if (old >= 0) gone(old); check(); r[i] = new Ref(); }
	void cbuild(u32 k) { Seq s; s.kth(k); for (int j = 0; j < s.n; ++j) cpush(s.v[j]); }
	void cpush(int x) { if (!live[x] || owned(x)) return; c->push_back(o[x]); cm.insert(cm.n, x); }
	void cinsert(int at, int x) { if (!live[x] || owned(x) || at > cm.n) return; c->insert((size_t) at, o[x]); cm.insert(at, x); }
	void cinsert_range(int at)
	{
		Obj* a[MAXO]; int n = 0; if (at > cm.n) return;
		for (int x = 0; x < NO; ++x) if (live[x] && !owned(x)) a[n++] = o[x];
		c->insert(c->begin() + at, a, a + n); for (int j = 0; j < n; ++j) cm.insert(at + j, a[j]->id);
	}
	void cerase(int x) { if (!live[x]) return; bool had = cm.find(x) >= 0; fcv_check(c->erase(o[x]) == had, "erasing an object reports whether the container held it"); if (had) gone(x); }
	void cerase_at(int at) { if (at >= cm.n) return; int x = cm.v[at]; c->erase((size_t) at); gone(x); }
	void cerase_range(int from, int to) { if (from >= to || to > cm.n) return; Seq s = cm; c->erase((size_t) from, (size_t) to); for (int j = from; j < to; ++j) gone(s.v[j]); }
	void cdetach(int x) { if (!live[x]) return; bool had = cm.find(x) >= 0; fcv_check(c->Detach(o[x]) == had, "detaching an object reports whether the container held it"); cm.remove(x); }
	void cdetach_range(int from, int to) { if (from >= to || to > cm.n) return; c->Detach((size_t) from, (size_t) to); for (int j = from; j < to; ++j) cm.erase(from); }
	void cpop(bool front) { if (cm.n == 0) return; int x = cm.v[front ? 0 : cm.n - 1]; if (front) c->pop_front(); else c->pop_back(); gone(x); }
	void cclear() { c->clear(); Seq s = cm; for (int j = 0; j < s.n; ++j) gone(s.v[j]); }
	void cend() { Seq s = cm; delete c; c = NULL; for (int j = 0; j < s.n; ++j) gone(s.v[j]); check(); c = new Cont(); }

	void pointer_op(u32 op, int i, int x)
	{
		switch (op)
		{
		case 0: point(i, x); break;
		case 1: point(i, -1); break;
		case 2: point_same(i, x & 1); break;
		case 3: point_copy(i); break;
		case 4: point_copy_release(i); break;
		case 5: point_end(i); break;
		default: release(x); break;
		}
	}
	enum { POINTER_OPS = 6 };
	void list_op(u32 op, int i, int x, int y)
	{
		switch (op)
		{
		case 0: list_push(i, x); break;
		case 1: list_insert(i, y, x); break;
		case 2: list_erase(i, x); break;
		case 3: list_erase_at(i, x); break;
		case 4: list_erase_range(i, x, y); break;
		case 5: list_pop(i, false); break;
		case 6: list_pop(i, true); break;
		case 7: list_clear(i); break;
		case 8: list_release(i, x); break;
		case 9: release(x); break;
		case 10: list_copy(i); break;
		case 11: list_copy_release(i); break;
		case 12: list_end(i); break;
		case 13: list_assign(i, x & 1); break;
		default: list_insert_range(i, y, x & 1); break;
		}
	}
	enum { LIST_OPS = 14 };
	void owner_op(u32 op, int i, int x, int y)
	{
		switch (op)
		{
		case 0: own(i, x); break;
		case 1: own(i, -1); break;
		case 2: own_from(i, x & 1); break;
		case 3: own_end(i); break;
		case 4: cpush(x); break;
		case 5: cinsert(y, x); break;
		case 6: cinsert_range(x); break;
		case 7: cerase(x); break;
		case 8: cerase_at(x); break;
		case 9: cerase_range(x, y); break;
		case 10: cdetach(x); break;
		case 11: cdetach_range(x, y); break;
		case 12: cpop(false); break;
		case 13: cpop(true); break;
		case 14: cclear(); break;
		case 15: cend(); break;
		default: release(x); break;
		}
	}
	enum { OWNER_OPS = 16 };
};
// Every history: each operation takes any state of the given shape in which every reference is tracked to one in which every
// reference is tracked (the states are reached by the real operations, in the order that gives that state).
FCV_UNIT(pointers, "shape=3 objects, 2 tracked pointers and a tracked list in any state, one operation;split=op:0-6")
{
	u32 op = fcv_small("op", 0, World::POINTER_OPS);
	World w; w.pointers(); w.lists();
	bool first = fcv_bool("first"); if (first) w.list_push(0, 0);
	w.point(0, (int) fcv_small("p0", 0, 3) - 1); w.point(1, (int) fcv_small("p1", 0, 3) - 1); if (!first && fcv_bool("last")) w.list_push(0, 0);
	w.pointer_op(op, 0, op == 0 || op == 2 || op == 6 ? fcv_small("x", 0, 2) : 0); w.check();
}
FCV_UNIT(lists, "shape=3 objects, a tracked list in any state and a tracked pointer, one operation;split=op:0-12")
{
	u32 op = fcv_small("op", 0, 12);
	World w; w.pointers(); w.lists();
	w.point(0, (int) fcv_small("p0", 0, 1) - 1); w.build(0, fcv_small("l0", 0, SEQS - 1)); w.build(1, 5);
	int x = 0, y = 0;
	if (op <= 4 || op == 8 || op == 9) x = fcv_small("x", 0, 2);
	if (op == 1 || op == 4) y = fcv_small("y", 0, 3);
	w.list_op(op, 0, x, y); w.check();
}
FCV_UNIT(two_lists, "shape=3 objects, 2 tracked lists in any state, one operation that takes one to the other;split=l0:0-15")
{
	u32 l0 = fcv_small("l0", 0, SEQS - 1), op = fcv_small("op", 13, 14);
	World w; w.lists();
	w.build(0, l0); w.build(1, fcv_small("l1", 0, SEQS - 1));
	w.list_op(op, 0, op == 13 ? fcv_small("x", 0, 1) : 1, op == 14 ? fcv_small("y", 0, 3) : 0); w.check();
}
FCV_UNIT(container, "shape=3 objects, an owning container in any state and an owning reference, one operation;split=op:4-16")
{
	u32 op = fcv_small("op", 4, World::OWNER_OPS);
	World w; w.owners(); w.pointers(); w.point(0, (int) fcv_small("p0", 0, 1) - 1);
	w.cbuild(fcv_small("c", 0, SEQS - 1)); if (fcv_bool("ref")) w.own(0, 1);
	int x = 0, y = 0;
	if (op <= 11 || op == 16) x = fcv_small("x", 0, 2);
	if (op == 5 || op == 9 || op == 11) y = fcv_small("y", 0, 3);
	w.owner_op(op, 0, x, y); w.check();
}
FCV_UNIT(references, "shape=3 objects, 2 owning references and an owning container, one operation;split=r0:0-3")
{
	u32 r0 = fcv_small("r0", 0, 3), op = fcv_small("op", 0, 3);
	World w; w.owners(); w.pointers(); w.point(0, (int) fcv_small("p0", 0, 3) - 1);
	w.own(0, (int) r0 - 1); w.own(1, (int) fcv_small("r1", 0, 3) - 1); if (fcv_bool("c")) w.cpush(2);
	w.owner_op(op, 0, op == 0 || op == 2 ? fcv_small("x", 0, 2) : 0, 0); w.check();
}
FCV_UNIT(history, "native;search=6")
{
	World w; w.pointers(); w.lists(); w.owners();
	u32 len = fcv_small("len", 1, 25);
	for (u32 k = 0; k < len; ++k)
	{
		int i = fcv_small("i", 0, 1), x = fcv_small("x", 0, 2), y = fcv_small("y", 0, 3);
		switch (fcv_small("what", 0, 2))
		{
		case 0: w.pointer_op(fcv_small("op", 0, World::POINTER_OPS), i, x); break;
		case 1: w.list_op(fcv_small("op", 0, World::LIST_OPS), i, x, y); break;
		default: w.owner_op(fcv_small("op", 0, World::OWNER_OPS), i, x, y); break;
		}
		w.check();
	}
}
