#include "conc.h"
#include "mg/box/MultiProducerQueueIntrusive.h"
struct Node { int id = 0; sc::Var<int> data{"a queue element"}; Node* myNext = nullptr; };
using Q = mg::box::MultiProducerQueueIntrusive<Node>;

static void body(bool big)
{
	std::unique_ptr<Q> q(new Q());
	int np = 1 + (int)hx::pick(2), per = big ? 4 : 2;
	std::unique_ptr<Node[]> n(new Node[np * per]);
	std::vector<std::vector<int>> got;        // batches, oldest first
	std::vector<int> first;                    // pushes which found the queue empty
	int pops = 1 + (int)hx::pick(2);
	int emptyPush = 0, nonEmptyPop = 0;
	std::vector<std::function<void()>> fs;
	for (int p = 0; p < np; ++p)
	{
		int kind = (int)hx::pick(p == 0 || big ? 4 : 2);
		hx::log("producer %d: kind %d", p, kind);
		fs.push_back([&, p, kind]() {
			Node* b = &n[p * per];
			for (int k = 0; k < per; ++k) { b[k].id = p * per + k; b[k].data.set(b[k].id + 100); b[k].myNext = (Node*)0x10; }
			auto chain = [&](bool rev) { for (int k = 0; k < per; ++k) { int nx = rev ? k - 1 : k + 1; b[k].myNext = nx >= 0 && nx < per ? &b[nx] : nullptr; } };
			bool e = false;
			if (kind == 0) for (int k = 0; k < per; ++k) emptyPush += q->Push(&b[k]);
			else if (kind == 1) { chain(false); emptyPush += q->PushMany(b); }
			else if (kind == 2) { chain(true); emptyPush += q->PushManyFastReversed(&b[per - 1]); }
			else { chain(true); emptyPush += q->PushManyFastReversed(&b[per - 1], &b[0]); }
			(void)e;
		});
	}
	auto drain = [&](int how) {
		Node *h = nullptr, *t = nullptr;
		std::vector<int> v;
		if (how == 0) h = q->PopAll();
		else if (how == 1) { h = q->PopAll(t); }
		else h = q->PopAllFastReversed();
		Node* last = nullptr;
		for (Node* x = h; x != nullptr; x = x->myNext) { HXM(x->data.get() == x->id + 100, "element content"); v.push_back(x->id); last = x; HXM(v.size() <= (size_t)(np * per), "more elements than pushed"); }
		if (how == 1) HXM(t == last, "PopAll tail");
		if (how == 2) std::reverse(v.begin(), v.end());
		nonEmptyPop += !v.empty();
		got.push_back(v);
		for (int id : v) { n[id].data.set(0); n[id].myNext = nullptr; }
	};
	fs.push_back([&]() { for (int k = 0; k < pops; ++k) { if (k == 0) (void)q->IsEmpty(); drain((int)hx::pick(3)); } });
	sc::run(fs);
	drain(1);
	HXM(q->IsEmpty(), "queue is empty after the last pop");
	std::vector<int> all;
	for (auto& v : got) for (int id : v) all.push_back(id);
	std::vector<int> nxt(np, 0);
	for (int id : all) { int p = id / per; HXM(id % per == nxt[p], "elements of producer %d arrive out of order, twice or never", p); ++nxt[p]; }
	for (int p = 0; p < np; ++p) HXM(nxt[p] == per, "producer %d: %d of %d elements arrived", p, nxt[p], per);
	HXM(emptyPush == nonEmptyPop, "pushes reporting an empty queue: %d, non-empty pops: %d", emptyPush, nonEmptyPop);
}
int main(int argc, char** argv)
{
	hx::init(argc, argv);
	double T = hx::theThorough ? 100 : 12;
	sc::preemptBound = 2;
	hx::exhaustive("2 producers, 2 elements, <=2 preemptions", 100000000, T, []() { body(false); });
	sc::preemptBound = 1000; sc::spuriousCasBound = 3; sc::staleBound = 3;
	hx::random("random schedules", 100000000, T, []() { body(true); });
	printf("PASS\n");
	_exit(0);
}
