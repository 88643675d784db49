// @property C19
// @sources FCollada/FUtils/FUObject.cpp
// @native FCollada/FUtils/FUObject.cpp FCollada/FUtils/FUAssert.cpp
#include "StdAfx.h"
#include "FUtils/FUEvent.h"
#include "fcv.h"

typedef FUEvent<int, long> Event;
enum { MAXH = 16, OBJECTS = 3 };
enum { NOTHING, RELEASE, RELEASE_TWICE, INSERT, RELEASE_INSERT, RETRIGGER, ACTIONS };
static char objects[OBJECTS];

// the handlers registered, in order, and the calls that a trigger must make
struct Model
{
	Event* event; int n; int object[MAXH], id[MAXH]; int next;
	int action[4 * MAXH], target[4 * MAXH]; bool acted[4 * MAXH];
	int calls; int called[4 * MAXH]; int a1; long a2; int depth;
	Model() : n(0), next(0), calls(0), depth(0) {}
	bool has(int i) const { for (int k = 0; k < n; ++k) if (id[k] == i) return true; return false; }
	void insert(int o) { object[n] = o; id[n] = next++; ++n; }
	void release(int o) { for (int k = 0; k < n; ++k) if (object[k] == o) { for (int j = k + 1; j < n; ++j) { object[j - 1] = object[j]; id[j - 1] = id[j]; } --n; return; } }
	void act(int i)
	{
		if (acted[i]) return; acted[i] = true;
		int t = target[i];
		switch (action[i]) { case RELEASE: release(t); break; case RELEASE_TWICE: release(t); release(t); break; case INSERT: insert(t); break; case RELEASE_INSERT: release(t); insert(t); break; case RETRIGGER: trigger(); break; default: break; }
	}
	void trigger()
	{
		// latest registration first, those released in the meantime left out, those inserted in the meantime not called
		int m = n; int was[MAXH]; for (int k = 0; k < m; ++k) was[k] = id[k];
		for (int k = m; k-- > 0;) if (has(was[k])) { called[calls++] = was[k]; act(was[k]); }
	}
};
static Model expect, real;
static void insert(int o, int action, int target);
static int arg1; static long arg2;
struct Handler
{
	int id;
	void operator()(int a, long b) const
	{
		int me = id; // the handler itself may go away while it runs: it must not
		fcv_check(real.calls < 4 * MAXH, "no handler is called twice");
		fcv_check(a == arg1 && b == arg2, "a handler receives the arguments of the trigger");
		real.called[real.calls++] = me;
		if (real.acted[me]) return; real.acted[me] = true;
		int t = real.target[me];
		switch (real.action[me])
		{
		case RELEASE: real.event->ReleaseHandler(&objects[t]); break;
		case RELEASE_TWICE: real.event->ReleaseHandler(&objects[t]); real.event->ReleaseHandler(&objects[t]); break;
		case INSERT: insert(t, NOTHING, 0); break;
		case RELEASE_INSERT: real.event->ReleaseHandler(&objects[t]); insert(t, NOTHING, 0); break;
		case RETRIGGER: (*real.event)(arg1, arg2); break;
		default: break;
		}
		fcv_check(id == me, "a callback is not destroyed while it runs");
	}
};
static void insert(int o, int action, int target)
{
	int i = real.next++; Handler h; h.id = i;
	real.event->InsertHandler(&objects[o], h);
	real.action[i] = action; real.target[i] = target; real.acted[i] = false;
}
static void start() { expect = Model(); real = Model(); real.event = new Event(); for (int i = 0; i < 4 * MAXH; ++i) { expect.acted[i] = real.acted[i] = false; expect.action[i] = real.action[i] = 0; expect.target[i] = real.target[i] = 0; } }
static void add(int o, int action, int target) { expect.action[expect.next] = action; expect.target[expect.next] = target; expect.insert(o); insert(o, action, target); }
static void release(int o) { expect.release(o); real.event->ReleaseHandler(&objects[o]); }
static void trigger()
{
	arg1 = fcv_i32("a"); arg2 = fcv_i64("b"); expect.calls = real.calls = 0;
	expect.trigger(); (*real.event)(arg1, arg2);
	fcv_check(real.calls == expect.calls, "every handler registered and not released is called exactly once");
	for (int k = 0; k < expect.calls; ++k) fcv_check(real.called[k] == expect.called[k], "handlers are called once each, the latest registered first");
	fcv_check(real.event->GetHandlerCount() == (size_t) expect.n, "the event has the handlers inserted and not released");
}
static void finish() { delete real.event; }

FCV_UNIT(insert_release, "shape=up to 4 handlers of 3 objects, one or two releases, one trigger;split=n:0-4")
{
	u32 n = fcv_small("n", 0, 4); start();
	if (n > 0) add(fcv_small("object", 0, 0), NOTHING, 0); // (the objects are alike)
	if (n > 1) add(fcv_small("object", 0, 1), NOTHING, 0);
	if (n > 2) add(fcv_small("object", 0, OBJECTS - 1), NOTHING, 0);
	if (n > 3) add(fcv_small("object", 0, OBJECTS - 1), NOTHING, 0);
	release(fcv_small("released", 0, OBJECTS - 1)); if (fcv_bool("again")) release(fcv_small("released2", 0, OBJECTS - 1));
	fcv_check(real.event->GetHandlerCount() == (size_t) expect.n, "a release removes exactly one handler of the object, or none if it has none");
	if (fcv_bool("more")) add(0, NOTHING, 0);
	trigger(); finish();
}
FCV_UNIT(reentrant, "shape=up to 3 handlers of 3 objects, one of which changes the event while it runs;split=who:0-5")
{
	u32 who = fcv_small("who", 0, 5); u32 n = who < 1 ? 1 : who < 3 ? 2 : 3; u32 w = who < 1 ? 0 : who < 3 ? who - 1 : who - 3; start();
	int action = fcv_small("action", RELEASE, ACTIONS - 1), target = fcv_small("target", 0, OBJECTS - 1);
	for (u32 i = 0; i < n; ++i) add(fcv_small("object", 0, OBJECTS - 1), i == w ? action : NOTHING, target);
	trigger(); trigger(); finish();
}
FCV_UNIT(reentrant_all, "shape=2 handlers of 3 objects, each of which changes the event while it runs;split=first:0-5")
{
	u32 a = fcv_small("first", 0, ACTIONS - 1), b = fcv_small("second", RELEASE, ACTIONS - 1); start();
	add(0, a, fcv_small("target", 0, OBJECTS - 1)); add(fcv_small("object", 0, 1), b, fcv_small("target2", 0, OBJECTS - 1));
	trigger(); trigger(); finish();
}
FCV_UNIT(history, "native;search=5")
{
	start(); u32 len = fcv_small("len", 1, 14);
	for (u32 i = 0; i < len; ++i)
		switch (fcv_small("op", 0, 3)) { case 0: release(fcv_small("o", 0, OBJECTS - 1)); break; case 1: trigger(); break; default: if (expect.n < 6 && expect.next < 3 * MAXH) add(fcv_small("o", 0, OBJECTS - 1), fcv_small("action", 0, ACTIONS - 1), fcv_small("target", 0, OBJECTS - 1)); break; }
	finish();
}
