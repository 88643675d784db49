// @property C13
// @sources FCollada/FMath/FMAllocator.cpp
// @native FCollada/FMath/FMAllocator.cpp FCollada/FUtils/FUAssert.cpp
#include "StdAfx.h"
#include "FMath/FMTree.h"
#include "fcv.h"
#ifndef FCV_SYM
#include <map>
#include <string>
#endif
typedef fm::tree<u32, u32> T;
typedef T::node N;
static N* fresh(N* parent, u32 key, u32 data) { N* n = (N*) fm::Allocate(sizeof(N)); n->left = n->right = 0; n->parent = parent; n->weight = 0; n->data.first = key; n->data.second = data; return n; }
static i32 taller(i32 a, i32 b) { return a > b ? a : b; }

// ---- rotations: arbitrary subtrees below, of arbitrary heights
struct Turn
{
	N top, x, y, a, b, c; i32 ha, hb, hc; bool under, ea, eb, ec;
	// x with the subtree `a` on one side and y on the other; y has the subtrees b (towards x) and c
	void make(bool left) // a left turn: y is the right child of x
	{
		ha = fcv_i32("height a") & 0xFFFFF; hb = fcv_i32("height b") & 0xFFFFF; hc = fcv_i32("height c") & 0xFFFFF; ea = fcv_bool("no a"); eb = fcv_bool("no b"); ec = fcv_bool("no c"); under = fcv_bool("on the right");
		fcv_assume(ea == (ha == 0)); fcv_assume(eb == (hb == 0)); fcv_assume(ec == (hc == 0));
		x.parent = &top; (under ? top.right : top.left) = &x; (under ? top.left : top.right) = 0; x.data.first = fcv_u32("kx"); y.data.first = fcv_u32("ky"); x.data.second = fcv_u32("dx"); y.data.second = fcv_u32("dy");
		y.parent = &x; a.parent = &x; b.parent = &y; c.parent = &y; a.weight = fcv_i32("wa"); b.weight = fcv_i32("wb"); c.weight = fcv_i32("wc"); top.weight = fcv_i32("wt");
		(left ? x.right : x.left) = &y; (left ? x.left : x.right) = ea ? 0 : &a; (left ? y.left : y.right) = eb ? 0 : &b; (left ? y.right : y.left) = ec ? 0 : &c;
		i32 s = left ? 1 : -1; y.weight = s * (hc - hb); x.weight = s * (1 + taller(hb, hc) - ha);
	}
	void check(bool left)
	{
		i32 s = left ? 1 : -1; N* A = ea ? 0 : &a,* B = eb ? 0 : &b,* C = ec ? 0 : &c;
		fcv_check((under ? top.right : top.left) == &y && (under ? top.left : top.right) == 0, "the lower node takes the place of the upper one"); fcv_check(y.parent == &top && x.parent == &y, "parent links of the turned nodes");
		fcv_check((left ? y.left : y.right) == &x && (left ? y.right : y.left) == C && (left ? x.left : x.right) == A && (left ? x.right : x.left) == B, "a rotation keeps the order of nodes and subtrees");
		fcv_check((ea || a.parent == &x) && (eb || b.parent == &x) && (ec || c.parent == &y), "parent links of the subtrees");
		fcv_check(x.weight == s * (hb - ha), "the weight of the sinking node is the difference of its heights"); fcv_check(y.weight == s * (hc - 1 - taller(ha, hb)), "the weight of the rising node is the difference of its heights");
	}
};
FCV_UNIT(rotate_left, "") { Turn t; t.make(true); u32 kx = t.x.data.first, ky = t.y.data.first, dx = t.x.data.second, dy = t.y.data.second; i32 wa = t.a.weight, wb = t.b.weight, wc = t.c.weight, wt = t.top.weight; t.x.rotateLeft(); t.check(true); fcv_check(t.x.data.first == kx && t.y.data.first == ky && t.x.data.second == dx && t.y.data.second == dy && t.a.weight == wa && t.b.weight == wb && t.c.weight == wc && t.top.weight == wt, "a rotation changes nothing else"); }
FCV_UNIT(rotate_right, "") { Turn t; t.make(false); u32 kx = t.x.data.first, ky = t.y.data.first, dx = t.x.data.second, dy = t.y.data.second; i32 wa = t.a.weight, wb = t.b.weight, wc = t.c.weight, wt = t.top.weight; t.x.rotateRight(); t.check(false); fcv_check(t.x.data.first == kx && t.y.data.first == ky && t.x.data.second == dx && t.y.data.second == dy && t.a.weight == wa && t.b.weight == wb && t.c.weight == wc && t.top.weight == wt, "a rotation changes nothing else"); }

// ---- trees: every balanced shape up to a height, arbitrary keys in order and arbitrary data
enum { MAXN = 16 };
struct Tree
{
	T t; u32 k[MAXN + 1], d[MAXN + 1]; N* at[MAXN + 1]; u32 n; u64 live;
	Tree(u32 height) { n = 0; live = fcv_live(); t.root->right = grow(t.root, height); t.sized = n; }
	N* grow(N* parent, u32 h)
	{
		if (h == 0) return 0;
		u32 b = h >= 2 ? fcv_small("lean", 0, 2) : 0; N* x = fresh(parent, 0, 0); x->weight = b == 0 ? 0 : b == 1 ? -1 : 1;
		x->left = grow(x, b == 2 ? h - 2 : h - 1); u32 i = n++; k[i] = x->data.first = fcv_u32("key") & (FCV_NATIVE ? 63 : ~0u); d[i] = x->data.second = fcv_u32("data"); at[i] = x; if (i > 0) fcv_assume(k[i - 1] < k[i]);
		x->right = grow(x, b == 1 ? h - 2 : h - 1); return x;
	}
	u32 seen;
	i32 walk(N* x, N* parent, u32 depth)
	{
		if (x == 0) return 0; fcv_check(depth < 8, "the tree is finite"); if (depth >= 8) return 0;
		fcv_check(x->parent == parent, "parent links"); i32 l = walk(x->left, x, depth + 1); u32 i = seen++; fcv_check(i < n, "no node beyond the expected ones"); if (i >= n) return 0;
		fcv_check(x->data.first == k[i], "keys are in order"); fcv_check(x->data.second == d[i], "every key has its latest value"); i32 r = walk(x->right, x, depth + 1);
		fcv_check(x->weight == r - l, "weights are differences of heights"); fcv_check(r - l <= 1 && l - r <= 1, "the tree is balanced"); return 1 + taller(l, r);
	}
	void check()
	{
		fcv_check(t.size() == n && t.empty() == (n == 0), "the size is the number of keys"); fcv_check(t.root != 0 && t.root->parent == 0 && t.root->left == 0, "the sentinel has no key"); seen = 0; walk(t.root->right, t.root, 0); fcv_check(seen == n, "every key has a node"); fcv_check(FCV_NATIVE || fcv_live() == live + n, "one node is kept for every key");
	}
	void put(u32 i, u32 key, u32 data) { for (u32 j = n; j > i; --j) { k[j] = k[j - 1]; d[j] = d[j - 1]; } k[i] = key; d[i] = data; ++n; }
	void del(u32 i) { for (u32 j = i; j + 1 < n; ++j) { k[j] = k[j + 1]; d[j] = d[j + 1]; } --n; }
	u32 gap(u32 key) { u32 g = fcv_small("gap", 0, n); if (g > 0) fcv_assume(k[g - 1] < key); if (g < n) fcv_assume(key < k[g]); return g; } // where a key belongs that is not there
};
static u32 height() { return fcv_small("height", 0, FCV_NATIVE ? 4 : 3); }
FCV_UNIT(insert_new, "shape=all balanced trees of up to 7 nodes, any keys;unrollall=1;split=height:0-3") { Tree a(height()); u32 key = fcv_u32("new") & (FCV_NATIVE ? 63 : ~0u), data = fcv_u32("v"); u32 g = a.gap(key); T::iterator it = a.t.insert(key, data); fcv_check(it.currentNode != a.t.root && it->first == key && it->second == data, "the inserted pair is returned"); a.put(g, key, data); a.check(); }
FCV_UNIT(insert_there, "shape=all balanced trees of up to 7 nodes, any keys;unrollall=1;split=height:0-3") { Tree a(height()); if (a.n > 0) { u32 i = fcv_small("i", 0, a.n - 1), data = fcv_u32("v"); T::iterator it = a.t.insert(a.k[i], data); fcv_check(it.currentNode == a.at[i], "the pair of the key is returned"); a.d[i] = data; } a.check(); }
FCV_UNIT(index_new, "shape=all balanced trees of up to 7 nodes, any keys;unrollall=1;split=height:0-3") { Tree a(height()); u32 key = fcv_u32("new") & (FCV_NATIVE ? 63 : ~0u); u32 g = a.gap(key); u32& r = a.t[key]; fcv_check(r == 0, "the value of a new key is the default value"); u32 data = fcv_u32("v"); r = data; a.put(g, key, data); a.check(); }
FCV_UNIT(index_there, "shape=all balanced trees of up to 7 nodes, any keys;unrollall=1;split=height:0-3") { Tree a(height()); if (a.n > 0) { u32 i = fcv_small("i", 0, a.n - 1), data = fcv_u32("v"); const T& c = a.t; fcv_check(c[a.k[i]] == a.d[i] && a.t[a.k[i]] == a.d[i], "the index gives the latest value"); a.t[a.k[i]] = data; a.d[i] = data; } a.check(); }
FCV_UNIT(find_there, "shape=all balanced trees of up to 7 nodes, any keys;unrollall=1;split=height:0-3") { Tree a(height()); const T& c = a.t; for (u32 i = 0; i < a.n; ++i) { fcv_check(a.t.find(a.k[i]).currentNode == a.at[i] && c.find(a.k[i]).currentNode == a.at[i], "a key that is there is found"); } a.check(); }
FCV_UNIT(find_missing, "shape=all balanced trees of up to 7 nodes, any keys;unrollall=1;split=height:0-3") { Tree a(height()); const T& c = a.t; u32 key = fcv_u32("other") & (FCV_NATIVE ? 63 : ~0u); a.gap(key); fcv_check(a.t.find(key) == a.t.end() && c.find(key) == c.end(), "a key that is not there is not found"); a.check(); }
FCV_UNIT(erase_there, "shape=all balanced trees of up to 7 nodes, any keys;unrollall=1;split=height:0-3") { Tree a(height()); if (a.n > 0) { u32 i = fcv_small("i", 0, a.n - 1); if (fcv_bool("by key")) a.t.erase(a.k[i]); else a.t.erase(T::iterator(a.at[i])); a.del(i); } a.check(); }
FCV_UNIT(erase_missing, "shape=all balanced trees of up to 7 nodes, any keys;unrollall=1;split=height:0-3") { Tree a(height()); u32 key = fcv_u32("other") & (FCV_NATIVE ? 63 : ~0u); a.gap(key); a.t.erase(key); a.check(); }
FCV_UNIT(iterate, "shape=all balanced trees of up to 7 nodes, any keys;unrollall=1;split=height:0-3")
{
	Tree a(height()); const T& c = a.t; u32 i = 0;
	for (T::iterator it = a.t.begin(); it != a.t.end() && i < a.n; ++it, ++i) fcv_check(it.currentNode == a.at[i] && (*it).first == a.k[i] && it->second == a.d[i], "iteration visits the keys in increasing order");
	fcv_check(i == a.n, "iteration visits every key"); i = 0; T::iterator e = a.t.begin(); for (; i < a.n; ++i) ++e; fcv_check(e == a.t.end(), "iteration ends after the last key"); i = 0;
	for (T::const_iterator it = c.begin(); it != c.end() && i < a.n; ++it, ++i) fcv_check(it.currentNode == a.at[i] && (*it).first == a.k[i] && it->second == a.d[i], "constant iteration visits the keys in increasing order");
	fcv_check(i == a.n, "iteration visits every key");
	T::iterator l = a.t.last(); T::const_iterator m = c.last(); fcv_check(m == l, "the last key"); if (a.n == 0) { fcv_check(l == a.t.end() && a.t.begin() == a.t.end(), "an empty map has no first and no last key"); return; }
	for (i = a.n - 1; i > 0; --i) { fcv_check(l.currentNode == a.at[i] && m.currentNode == a.at[i], "iteration visits the keys in decreasing order backwards"); --l; --m; }
	fcv_check(l == a.t.begin() && m == c.begin() && l.currentNode == a.at[0], "backward iteration reaches the first key"); a.check();
}
FCV_UNIT(clear_all, "shape=all balanced trees of up to 7 nodes, any keys;unrollall=1;split=height:0-3") { Tree a(height()); a.t.clear(); a.n = 0; a.check(); u32 key = fcv_u32("key"), data = fcv_u32("v"); a.t.insert(key, data); a.put(0, key, data); a.check(); a.t.clear(); a.t.clear(); a.n = 0; a.check(); }
FCV_UNIT(end_of_life, "shape=all balanced trees of up to 7 nodes, any keys;unrollall=1;split=height:0-3") { u64 live = fcv_live(); { Tree a(height()); } fcv_check(FCV_NATIVE || fcv_live() == live, "the destructor releases every node"); }
FCV_UNIT(copies, "shape=all balanced trees of up to 7 nodes, any keys;unrollall=1;split=height:0-3")
{
	Tree a(height()); u64 live = fcv_live(); u32 how = fcv_small("how", 0, 2);
	{
		Tree b(0); b.live = fcv_live(); b.n = a.n; for (u32 i = 0; i < a.n; ++i) { b.k[i] = a.k[i]; b.d[i] = a.d[i]; }
		if (how == 0) b.t = a.t; else if (how == 1) { b.t.insert(1, 2); b.t.insert(3, 4); b.t = a.t; } else { a.t = a.t; b.t = a.t; }
		b.check(); for (u32 i = 0; i < a.n; ++i) fcv_check(b.t.find(a.k[i]).currentNode != a.at[i], "a copy has nodes of its own"); T c(b.t); b.t.clear(); fcv_check(c.size() == a.n, "a copy is independent of the original"); b.t = c; c.clear(); b.live = fcv_live() - a.n; b.check(); b.t.clear(); b.n = 0; b.check(); a.live = fcv_live() - a.n; a.check();
	}
	a.live = fcv_live() - a.n; a.check(); fcv_check(FCV_NATIVE || fcv_live() == live, "copies release their nodes");
}

// ---- one path of up to 4 levels through a tree whose other subtrees are arbitrary (opaque: only their height is known)
struct Path
{
	T t; N* p[6]; bool right[6]; N* order[64]; u32 n; u32 depth; u64 live; i32 bottom; bool rich; i32 hs[6];
	bool good; u32 seen; N* visited[64];
	static bool opaque(N* x) { return x->data.second == 0xFFFFFFFF; }
	N* stub(N* parent, i32 h) { if (h <= 0) return 0; N* s = fresh(parent, (u32) h, 0xFFFFFFFF); s->weight = 0x55; return s; }
	// the sibling subtree of a path: opaque, or with the nodes a double rotation takes apart
	N* sibling(N* parent, i32 h, bool onRight, bool open)
	{
		if (h <= 0) return 0; if (!open) return stub(parent, h);
		N* s = fresh(parent, 0, 7); u32 b = h >= 2 ? fcv_small("lean", 0, 2) : 0; i32 near = b == 1 ? h - 2 : h - 1, far = b == 2 ? h - 2 : h - 1; // near: towards the path
		N* q = 0; if (near > 0) { q = fresh(s, 0, 8); u32 c = near >= 2 && near > far ? fcv_small("lean", 0, 2) : 0; i32 l = c == 1 ? near - 2 : near - 1, r = c == 2 ? near - 2 : near - 1; q->left = stub(q, l); q->right = stub(q, r); q->weight = r - l; }
		N* f = stub(s, far); (onRight ? s->left : s->right) = q; (onRight ? s->right : s->left) = f; s->weight = onRight ? far - near : near - far; return s;
	}
	// a path whose last node is followed by a subtree of height `bottom` (0: an empty place)
	void make(u32 levels, i32 bottom, bool open)
	{
		depth = levels; n = 0; live = fcv_live(); i32 h = bottom; u32 lean[6]; N* parent = t.root; for (u32 i = 0; i < depth; ++i) { right[i] = fcv_small("right", 0, 1) == 1; p[i] = fresh(parent, 0, i); if (i == 0) t.root->right = p[0]; else (right[i - 1] ? p[i - 1]->right : p[i - 1]->left) = p[i]; parent = p[i]; }
		for (u32 j = depth; j > 0; --j)
		{
			u32 i = j - 1; lean[i] = fcv_small("weight", h == 0 ? 1 : 0, 2); i32 s = h + (i32) lean[i] - 1; hs[i] = s; N* q = sibling(p[i], s, !right[i], open && s > h); (right[i] ? p[i]->left : p[i]->right) = q; p[i]->weight = right[i] ? h - s : s - h; h = 1 + taller(h, s);
		}
		t.sized = 1000;
	}
	void list(N* x) { if (x == 0) return; if (!opaque(x)) list(x->left); order[n++] = x; if (!opaque(x)) list(x->right); }
	// the tree has the nodes and subtrees of `order`, in that order, and is balanced
	i32 walk(N* x, N* parent, u32 depth)
	{
		if (x == 0) return 0; fcv_check(depth < 12 && seen < 64, "the tree is finite"); if (depth >= 12 || seen >= 64) return 0; fcv_check(x->parent == parent, "parent links");
		if (opaque(x)) { visited[seen++] = x; fcv_check(x->weight == 0x55 && x->left == 0 && x->right == 0, "other subtrees are not touched"); return (i32) x->data.first; }
		i32 l = walk(x->left, x, depth + 1); visited[seen++] = x; i32 r = walk(x->right, x, depth + 1); fcv_check(x->weight == r - l, "weights are differences of heights"); fcv_check(r - l <= 1 && l - r <= 1, "the tree is balanced"); return 1 + taller(l, r);
	}
	void check(size_t size)
	{
		seen = 0; fcv_check(t.root->left == 0 && t.root->parent == 0, "the sentinel has no key"); walk(t.root->right, t.root, 0); fcv_check(seen == n, "nodes and subtrees are kept"); bool same = seen == n; for (u32 i = 0; i < n && same; ++i) same = visited[i] == order[i]; fcv_check(same, "nodes and subtrees keep their order"); fcv_check(t.size() == size, "the size is the number of keys");
	}
	void drop(N* x) { if (x == 0) return; if (!opaque(x)) { drop(x->left); drop(x->right); } fm::Release(x); }
	void end() { drop(t.root->right); t.root->right = 0; t.sized = 0; }
};
FCV_UNIT(insert_path, "shape=paths of up to 4 levels, any subtrees beside them;unrollall=1;split=levels:1-4")
{
	Path a; u32 levels = fcv_small("levels", 1, FCV_NATIVE ? 5 : 4); a.make(levels, 0, false);
	// keys: the new key lies to the given side of every node of the path, and the nodes are in order
	u32 key = fcv_u32("new"); for (u32 i = 0; i < levels; ++i) { u32 k = fcv_u32("k"); if (FCV_NATIVE) k = a.right[i] ? (key | 1) - 1 - (key & 1 ? 0 : 1) : key + 1; fcv_assume(a.right[i] ? k < key : key < k); a.p[i]->data.first = k; }
	a.list(a.t.root->right); T::iterator it = a.t.insert(key, 77); N* x = it.currentNode; fcv_check(x->data.first == key && x->data.second == 77, "the inserted pair is returned");
	N* last = a.p[levels - 1]; u32 at = 0; while (at < a.n && a.order[at] != last) ++at; if (a.right[levels - 1]) ++at; for (u32 i = a.n; i > at; --i) a.order[i] = a.order[i - 1]; a.order[at] = x; ++a.n; a.check(1001); a.end();
}
FCV_UNIT(erase_path, "shape=paths of up to 3 levels, any subtrees beside them;unrollall=1;split=levels:1-3")
{
	Path a; u32 levels = fcv_small("levels", 1, FCV_NATIVE ? 5 : 3); a.make(levels, 1, true); N* last = a.p[levels - 1]; N* leaf = fresh(last, 0, 9); (a.right[levels - 1] ? last->right : last->left) = leaf;
	a.list(a.t.root->right); a.t.erase(T::iterator(leaf)); u32 j = 0; for (u32 i = 0; i < a.n; ++i) if (a.order[i] != leaf) a.order[j++] = a.order[i]; a.n = j; a.check(999); a.end();
}
#ifndef FCV_SYM
struct Datum { Datum* self; u32 v; static i64 alive; static bool good; Datum(u32 x = 0) : self(this), v(x) { ++alive; } Datum(const Datum& o) : self(this), v(o.v) { if (o.self != &o) good = false; ++alive; } Datum& operator=(const Datum& o) { if (self != this || o.self != &o) good = false; v = o.v; return *this; } ~Datum() { if (self != this) good = false; self = 0; --alive; } };
i64 Datum::alive = 0; bool Datum::good = true;
template <class X> static i32 heights(X* x, X* parent, bool& ok) { if (x == 0) return 0; if (x->parent != parent) ok = false; i32 l = heights(x->left, x, ok), r = heights(x->right, x, ok); if (x->weight != r - l || r - l > 1 || l - r > 1) ok = false; return 1 + taller(l, r); }
#endif
FCV_UNIT(history, "native")
{
#ifndef FCV_SYM
	typedef fm::map<std::string, Datum> M; Datum::alive = 0; Datum::good = true; u32 extra = 0;
	{
		M v; std::map<std::string, u32> m; u32 keys = fcv_small("keys", 1, 200), steps = fcv_small("steps", 1, 150), grow = fcv_small("grow", 1, 9);
		for (u32 i = 0; i < steps; ++i)
		{
			u32 op = fcv_small("op", 0, 11), x = fcv_small("x", 0, 99); char b[16]; sprintf(b, "%u", fcv_small("key", 0, keys)); std::string k(b);
			if (op < grow) { M::iterator it = v.insert(k, Datum(x)); m[k] = x; fcv_check(it->first == k && it->second.v == x, "the inserted pair is returned"); }
			else if (op == 9) { if (x < 5) { M w; w = v; v.clear(); fcv_check(v.empty() && v.begin() == v.end(), "a cleared map is empty"); v = w; } else if (x < 10) { v.clear(); m.clear(); } else if (x < 14) v = v; else if (x < 20) { M w(v); v = w; } }
			else if (op == 10) { fcv_check(v[k].v == m[k], "the index gives the latest value"); v[k].v = x; m[k] = x; }
			else { if (x & 1) v.erase(k); else { M::iterator it = v.find(k); fcv_check((it != v.end()) == (m.count(k) != 0), "a key is found if it is there"); v.erase(it); } m.erase(k); }
			bool ok = v.size() == m.size(); heights(v.root->right, v.root, ok); M::iterator it = v.begin(); M::const_iterator ct = ((const M&) v).begin(); std::map<std::string, u32>::iterator jt = m.begin(); for (; ok && jt != m.end(); ++jt, ++it, ++ct) ok = it != v.end() && it->first == jt->first && it->second.v == jt->second && ct == it; ok = ok && it == v.end();
			if (ok && !m.empty()) { it = v.last(); std::map<std::string, u32>::reverse_iterator rt = m.rbegin(); for (;; --it) { ok = ok && it->first == rt->first; if (++rt == m.rend()) break; } ok = ok && it == v.begin(); }
			fcv_check(ok, "the map holds the pairs of a mathematical map, in order"); fcv_check(Datum::good && Datum::alive == (i64) m.size() + 1, "every value is constructed once and destroyed once");
		}
	}
	fcv_check(Datum::alive == 0, "the destructor destroys every value once");
#endif
}
