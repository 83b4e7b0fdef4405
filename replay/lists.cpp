// ForwardList / DoublyList against std::vector, all operation sequences.
#include "hx.h"
#ifdef DOUBLY
#include "mg/box/DoublyList.h"
#else
#include "mg/box/ForwardList.h"
#endif
#include <algorithm>

struct Node { int id; Node* myPrev; Node* myNext; };
#ifdef DOUBLY
using List = mg::box::DoublyList<Node>;
#else
using List = mg::box::ForwardList<Node>;
#endif
typedef std::vector<Node*> V;

static const int N = 6;
static Node pool[N];

static void check(const List& c, List& l, const V& v)
{
	HX(l.IsEmpty() == v.empty());
	HX(l.GetFirst() == (v.empty() ? nullptr : v.front()));
	HX(l.GetLast() == (v.empty() ? nullptr : v.back()));
	HX(c.GetFirst() == l.GetFirst());
	HX(c.GetLast() == l.GetLast());
	size_t k = 0;
	for (const Node* n : c) { HX(k < v.size()); HX(n == v[k]); ++k; }
	HX(k == v.size());
	k = 0;
	for (Node* n : l) { HX(k < v.size()); HX(n == v[k]); ++k; }
	HX(k == v.size());
	for (k = 0; k < v.size(); ++k)
	{
		HX(v[k]->myNext == (k + 1 < v.size() ? v[k + 1] : nullptr));
#ifdef DOUBLY
		HX(v[k]->myPrev == (k > 0 ? v[k - 1] : nullptr));
#endif
	}
}

static void drop(V& v, std::vector<Node*>& freeN) { for (Node* n : v) freeN.push_back(n); v.clear(); }

static void scenario(int steps)
{
	std::vector<Node*> freeN;
	for (int i = 0; i < N; ++i) { pool[i].id = i; pool[i].myPrev = (Node*)0x10; pool[i].myNext = (Node*)0x10; freeN.push_back(&pool[i]); }
	List a, b; V va, vb;
	auto take = [&]() { Node* n = freeN.back(); freeN.pop_back(); n->myNext = (Node*)0x10; n->myPrev = (Node*)0x10; return n; };
	// a chain of k free nodes
	auto chain = [&](unsigned k, V& out) {
		for (unsigned i = 0; i < k; ++i) out.push_back(take());
		for (unsigned i = 0; i < k; ++i) { out[i]->myNext = i + 1 < k ? out[i + 1] : (Node*)0x20; out[i]->myPrev = i > 0 ? out[i - 1] : (Node*)0x20; }
	};
	check(a, a, va);
	for (int s = 0; s < steps; ++s)
	{
		bool onB = hx::pick(4) == 3;
		List& x = onB ? b : a; List& y = onB ? a : b;
		V& vx = onB ? vb : va; V& vy = onB ? va : vb;
		const char* nm = onB ? "b" : "a";
		switch (hx::pick(17))
		{
		case 0: if (freeN.empty()) return; { Node* n = take(); hx::log("%s.Append(#%d)", nm, n->id); x.Append(n); vx.push_back(n); } break;
		case 1: if (freeN.empty()) return; { Node* n = take(); hx::log("%s.Prepend(#%d)", nm, n->id); x.Prepend(n); vx.insert(vx.begin(), n); } break;
		case 2: hx::log("%s.Append(move(other))", nm); x.Append(std::move(y)); vx.insert(vx.end(), vy.begin(), vy.end()); vy.clear(); break;
		case 3: hx::log("%s.Prepend(move(other))", nm); x.Prepend(std::move(y)); vx.insert(vx.begin(), vy.begin(), vy.end()); vy.clear(); break;
		case 4: { unsigned k = hx::pick(4); if (k > freeN.size()) return; V c; chain(k, c); hx::log("%s.Append(chain of %u)", nm, k);
			x.Append(k ? c.front() : nullptr, k ? c.back() : nullptr); vx.insert(vx.end(), c.begin(), c.end()); } break;
		case 5: { unsigned k = hx::pick(4); if (k > freeN.size()) return; V c; chain(k, c); hx::log("%s.Prepend(chain of %u)", nm, k);
			x.Prepend(k ? c.front() : nullptr, k ? c.back() : nullptr); vx.insert(vx.begin(), c.begin(), c.end()); } break;
		case 6: { if (freeN.empty()) return; unsigned at = hx::pick((unsigned)vx.size() + 1); Node* n = take();
#ifdef DOUBLY
			return;
#else
			if (at == 0) { hx::log("%s.Insert(nullptr, #%d)", nm, n->id); x.Insert(nullptr, n); }
			else { hx::log("%s.Insert(after #%d, #%d)", nm, vx[at - 1]->id, n->id); x.Insert(vx[at - 1], n); }
#endif
			vx.insert(vx.begin() + at, n); } break;
		case 7: hx::log("%s.Reverse()", nm); x.Reverse(); std::reverse(vx.begin(), vx.end()); break;
		case 8: hx::log("%s.Clear()", nm); x.Clear(); drop(vx, freeN); break;
		case 9: { hx::log("%s.PopAll()", nm); Node* r = x.PopAll(); HX(r == (vx.empty() ? nullptr : vx.front()));
			for (size_t k = 0; k < vx.size(); ++k) { HX(r == vx[k]); r = r->myNext; } HX(r == nullptr); drop(vx, freeN); } break;
		case 10: { hx::log("%s.PopAll(last)", nm); Node* l = (Node*)0x30; Node* r = x.PopAll(l); HX(r == (vx.empty() ? nullptr : vx.front())); HX(l == (vx.empty() ? nullptr : vx.back()));
			for (size_t k = 0; k < vx.size(); ++k) { HX(r == vx[k]); r = r->myNext; } HX(r == nullptr); drop(vx, freeN); } break;
		case 11: if (vx.empty()) return; { hx::log("%s.PopFirst()", nm); Node* r = x.PopFirst(); HX(r == vx.front()); vx.erase(vx.begin()); freeN.push_back(r);
#ifdef DOUBLY
			HX(r->myNext == nullptr && r->myPrev == nullptr);
#endif
			} break;
		case 12: hx::log("%s = move(other)", nm); x = std::move(y); drop(vx, freeN); vx = vy; vy.clear(); break;
		case 13: { hx::log("move-construct from %s, append there, move back", nm); List t(std::move(x)); V vt = vx; vx.clear(); check(x, x, vx); check(t, t, vt);
			if (!freeN.empty()) { Node* n = take(); t.Append(n); vt.push_back(n); check(t, t, vt); }
			x = std::move(t); vx = vt; vt.clear(); check(t, t, vt); } break;
		case 14: { unsigned k = hx::pick(3); if (k > freeN.size()) return; V c; chain(k, c); hx::log("%s = List(chain of %u)", nm, k);
			List t(k ? c.front() : nullptr, k ? c.back() : nullptr);
#ifdef DOUBLY
			if (k) { HX(c[0]->myPrev == nullptr); }
#endif
			check(t, t, c);
			drop(vx, freeN); x = std::move(t); vx = c; } break;
#ifdef DOUBLY
		case 15: if (vx.empty()) return; { hx::log("%s.PopLast()", nm); Node* r = x.PopLast(); HX(r == vx.back()); vx.pop_back(); freeN.push_back(r); HX(r->myNext == nullptr && r->myPrev == nullptr); } break;
		case 16: if (vx.empty()) return; { unsigned at = hx::pick((unsigned)vx.size()); Node* r = vx[at]; hx::log("%s.Remove(#%d)", nm, r->id); x.Remove(r); vx.erase(vx.begin() + at); freeN.push_back(r); HX(r->myNext == nullptr && r->myPrev == nullptr); } break;
#else
		case 15: { hx::log("iterate %s destroying visited links", nm); size_t k = 0; for (Node* n : x) { HX(k < vx.size() && n == vx[k]); n->myNext = (Node*)0x40; ++k; } HX(k == vx.size()); x.Clear(); drop(vx, freeN); } break;
		case 16: return;
#endif
		default: return;
		}
		check(a, a, va); check(b, b, vb);
	}
}

int main(int argc, char** argv)
{
	hx::init(argc, argv);
	double T = hx::theThorough ? 120 : 12;
	hx::exhaustive("all sequences of 3 operations", 4000000, T, []() { scenario(3); });
	hx::random("sequences of 30 operations", 4000000, T, []() { scenario(30); });
	printf("PASS\n");
	return 0;
}
