// BinaryHeap (all flavours) against a multiset model.
#include "hx.h"
#include "mg/box/BinaryHeap.h"
#include <algorithm>
struct Node { int id; int myKey; int32_t myIndex; bool operator<=(const Node& o) const { return myKey <= o.myKey; } bool operator>=(const Node& o) const { return myKey >= o.myKey; } };
static const int N = 12;
template<bool Min> static bool above(int a, int b) { return Min ? a <= b : a >= b; }

template<bool Min, bool Intr>
static void scenario(int steps, int keys, int pool)
{
	using Heap = std::conditional_t<Intr,
		std::conditional_t<Min, mg::box::BinaryHeapMinIntrusive<Node>, mg::box::BinaryHeapMaxIntrusive<Node>>,
		std::conditional_t<Min, mg::box::BinaryHeapMinPtr<Node>, mg::box::BinaryHeapMaxPtr<Node>>>;
	Node ns[64]; Heap h; std::vector<Node*> in, out;
	for (int i = 0; i < pool; ++i) { ns[i] = Node{i, 0, -1}; out.push_back(&ns[i]); }
	auto check = [&]() {
		HX(h.Count() == in.size());
		HX(h.GetCapacity() >= h.Count());
		if (!in.empty()) {
			Node* t = h.GetTop();
			HX(t == const_cast<const Heap&>(h).GetTop());
			HX(std::find(in.begin(), in.end(), t) != in.end());
			for (Node* n : in) HXM(above<Min>(t->myKey, n->myKey), "top %d, #%d has %d", t->myKey, n->id, n->myKey);
		}
		if (Intr) {
			for (Node* n : out) HX(n->myIndex == -1);
			bool used[64] = {};
			for (Node* n : in) { HX(n->myIndex >= 0 && n->myIndex < (int)in.size()); HX(!used[n->myIndex]); used[n->myIndex] = true; }
		}
	};
	for (int s = 0; s < steps; ++s)
	{
		switch (hx::pick(Intr ? 7 : 5)) {
		case 0: if (out.empty()) return; { Node* n = out.back(); out.pop_back(); n->myKey = hx::pick(keys); hx::log("Push(#%d key %d)", n->id, n->myKey); h.Push(n); in.push_back(n); } break;
		case 1: { hx::log("RemoveTop()"); Node* t = in.empty() ? nullptr : h.GetTop(); HX(h.RemoveTop() == !in.empty()); if (t) { in.erase(std::find(in.begin(), in.end(), t)); out.push_back(t); } } break;
		case 2: { hx::log("Pop()"); Node* t = (Node*)1; Node* top = in.empty() ? nullptr : h.GetTop(); bool r = h.Pop(t); HX(r == !in.empty()); if (r) { HX(t == top); in.erase(std::find(in.begin(), in.end(), t)); out.push_back(t); } else HX(t == (Node*)1); } break;
		case 3: if (in.empty()) return; { Node* t = h.GetTop(); t->myKey = hx::pick(keys); hx::log("UpdateTop(key %d)", t->myKey); h.UpdateTop(); } break;
		case 4: hx::log("Reserve"); h.Reserve(hx::pick(3) * 4); break;
		case 5: if constexpr (Intr) { if (in.empty()) return; Node* t = in[hx::pick((unsigned)in.size())]; t->myKey = hx::pick(keys); hx::log("Update(#%d key %d)", t->id, t->myKey); h.Update(t); } break;
		case 6: if constexpr (Intr) { if (in.empty()) return; size_t k = hx::pick((unsigned)in.size()); Node* t = in[k]; hx::log("Remove(#%d)", t->id); h.Remove(t); in.erase(in.begin() + k); out.push_back(t); } break;
		}
		check();
	}
	hx::log("drain");
	int last = 0; bool first = true;
	while (!in.empty()) { Node* t; HX(h.Pop(t)); HX(first || above<Min>(last, t->myKey)); last = t->myKey; first = false; in.erase(std::find(in.begin(), in.end(), t)); out.push_back(t); check(); }
}

template<bool Min>
static void byValue(int steps, int keys)
{
	struct Val { std::string s; int k; bool operator<=(const Val& o) const { return k <= o.k; } bool operator>=(const Val& o) const { return k >= o.k; } };
	using Heap = std::conditional_t<Min, mg::box::BinaryHeapMin<Val>, mg::box::BinaryHeapMax<Val>>;
	Heap h; std::vector<std::pair<int, std::string>> in; int id = 0;
	auto str = [&]() { return "a string long enough to live on the heap " + std::to_string(id++); };
	auto best = [&]() { size_t b = 0; for (size_t i = 1; i < in.size(); ++i) if (!above<Min>(in[b].first, in[i].first)) b = i; return in[b].first; };
	auto erase = [&](const Val& v) { for (size_t i = 0; i < in.size(); ++i) if (in[i].second == v.s) { HX(in[i].first == v.k); in.erase(in.begin() + i); return; } hx::fail("an element that was never pushed: %s", v.s.c_str()); };
	for (int s = 0; s < steps; ++s)
	{
		switch (hx::pick(4)) {
		case 0: { Val v{str(), (int)hx::pick(keys)}; hx::log("Push(key %d)", v.k); h.Push(v); in.push_back({v.k, v.s}); } break;
		case 1: { hx::log("Pop()"); Val v; bool r = h.Pop(v); HX(r == !in.empty()); if (r) { HX(v.k == best()); erase(v); } } break;
		case 2: if (in.empty()) return; { Val& v = h.GetTop(); for (auto& p : in) if (p.second == v.s) { p.first = v.k = hx::pick(keys); break; } hx::log("UpdateTop()"); h.UpdateTop(); } break;
		case 3: { hx::log("RemoveTop()"); if (!in.empty()) { Val v = h.GetTop(); erase(v); HX(h.RemoveTop()); } else HX(!h.RemoveTop()); } break;
		}
		HX(h.Count() == in.size());
		if (!in.empty()) { HX(h.GetTop().k == best()); }
	}
	while (!in.empty()) { Val v; HX(h.Pop(v)); erase(v); }
}

static void large(unsigned count)
{
	std::vector<Node> ns(count);
	mg::box::BinaryHeapMinIntrusive<Node> h;
	unsigned x = 1 + hx::pick(1000);
	hx::log("Push %u random keys, update some, remove some, pop all", count);
	auto rnd = [&]() { x = x * 1664525u + 1013904223u; return (int)(x >> 4); };
	for (unsigned i = 0; i < count; ++i) { ns[i] = Node{(int)i, rnd(), -1}; h.Push(&ns[i]); }
	for (unsigned i = 0; i < count; i += 3) { ns[i].myKey = rnd(); h.Update(&ns[i]); }
	unsigned left = count;
	for (unsigned i = 0; i < count; i += 7) { h.Remove(&ns[i]); HX(ns[i].myIndex == -1); --left; }
	HX(h.Count() == left);
	int last = -1; Node* n;
	while (h.Pop(n)) { HXM(n->myKey >= last, "popped %d after %d", n->myKey, last); HX(n->myIndex == -1); last = n->myKey; --left; }
	HX(left == 0);
}

int main(int argc, char** argv)
{
	hx::init(argc, argv);
	double T = hx::theThorough ? 40 : 3;
	hx::exhaustive("min intrusive, 5 operations, 2 keys", 9000000, T, []() { scenario<true, true>(5, 2, 8); });
	hx::exhaustive("max intrusive, 5 operations, 2 keys", 9000000, T, []() { scenario<false, true>(5, 2, 8); });
	hx::random("min intrusive", 9000000, T, []() { scenario<true, true>(60, 6, 20); });
	hx::random("max intrusive", 9000000, T, []() { scenario<false, true>(60, 6, 20); });
	hx::random("min intrusive, big", 9000000, T, []() { scenario<true, true>(300, 40, 60); });
	hx::random("min intrusive, thousands of elements", hx::theThorough ? 20 : 2, T * 3, []() { large(300 + 141000 * hx::pick(2)); });
	hx::random("min pointer", 9000000, T, []() { scenario<true, false>(60, 6, 20); });
	hx::random("max pointer", 9000000, T, []() { scenario<false, false>(60, 6, 20); });
	hx::random("min by value", 9000000, T, []() { byValue<true>(60, 6); });
	hx::random("max by value", 9000000, T, []() { byValue<false>(60, 6); });
	printf("PASS\n");
}
