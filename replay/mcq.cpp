#include "conc.h"
#include "mg/box/Mutex.cpp"
#include "mg/box/MultiConsumerQueueBase.cpp"
#include "mg/box/MultiConsumerQueue.h"
using namespace mg::box;
struct Item { int id = 0; sc::Var<int> data{"a queue element"}; };
typedef MultiConsumerQueue<Item> Q;
typedef MultiConsumerQueueConsumer<Item> C;

static void body(int nc, int items, bool big)
{
	int size = 1 + (int)hx::pick(big ? 3 : 2);
	auto q = std::make_unique<Q>((uint32_t)size);
	std::unique_ptr<Item[]> it(new Item[items]);
	std::vector<int> cons;                          // total order of the taken elements
	std::vector<int> got(items, 0);
	int pushed = 0, taken = 0, inside = 0, done = 0, wake = 0;   // visible for sure / taken / consumers in Pop
	bool weak = sc::staleBound != 0;
	std::vector<int> ops;
	for (int k = 0; k < items; ++k) ops.push_back((int)hx::pick(big ? 5 : 3));
	int reserve = big ? (int)hx::pick(4) : 0, pops = big ? 4 : 2, reattach = (int)hx::pick(2);
	hx::log("sub-queue size %d, reserve %d, reattach %d", size, reserve, reattach);
	// Let the sub-queues be recycled ones.
	int pre = big ? (int)hx::pick(3) * size : 0;
	for (int k = 0; k < pre; ++k) q->Push(&it[k % items]);
	{
		C c(q.get());
		for (int k = 0; k < pre; ++k) HXM(c.Pop() == &it[k % items], "the first round");
		c.Detach();
	}
	std::vector<std::function<void()>> fs;
	fs.push_back([&]() {
		int pend = 0;
		if (reserve) q->Reserve((uint32_t)(reserve * size));
		for (int k = 0; k < items; ++k)
		{
			it[k].id = k; it[k].data.set(k + 100);
			if (ops[k] == 0 || ops[k] == 4) { wake += q->Push(&it[k]); pushed = k + 1; pend = 0; }
			else { wake += q->PushPending(&it[k]); ++pend; if (ops[k] == 2) { wake += q->FlushPending(); pushed = k + 1; pend = 0; } }
			if (ops[k] == 4) q->Reserve((uint32_t)(size + k));
		}
		wake += q->FlushPending(); pushed = items;
		HX(!q->FlushPending());
		++done;
	});
	auto pop = [&](C& c, int& last) -> bool {
		int before = pushed;
		++inside;
		Item* x = c.Pop();
		--inside;
		if (x == nullptr) { HXM(weak || before <= taken + inside, "nothing is popped while %d elements are there", before - taken); return false; }
		int id = x->id;
		HXM(id >= 0 && id < items && x == &it[id], "not an element");
		HXM(got[id] == 0, "element %d is popped twice", id);
		HXM(id > last, "element %d is popped after %d", id, last);
		++got[id]; ++taken; last = id;
		HX(x->data.get() == id + 100);
		x->data.set(-1);
		return true;
	};
	for (int i = 0; i < nc; ++i) fs.push_back([&]() {
		C c;
		c.Attach(q.get());
		int last = -1;
		for (int k = 0; k < pops; ++k)
		{
			pop(c, last);
			if (k == 0 && reattach) { c.Detach(); c.Attach(q.get()); }
		}
		c.Detach();
		++done;
	});
	sc::run(fs);
	HXM((int)q->Count() == items - taken, "count %d with %d elements", (int)q->Count(), items - taken);
	HX(q->ConsumerCount() == 0);
	HXM(items == 0 || wake > 0, "no push has told that the queue is not empty any more");
	{
		C c(q.get());
		int last = -1;
		int left = items - taken;
		for (int k = 0; k < left; ++k) HXM(pop(c, last), "an element is lost");
		HXM(!pop(c, last), "more elements than pushed");
		HX(q->ConsumerCount() == 1);
		c.Detach();
	}
	for (int k = 0; k < items; ++k) HXM(got[k] == 1, "element %d is popped %d times", k, got[k]);
	HX(q->Count() == 0);
	// Everything is recycled: the next round works as well.
	{
		C c(q.get());
		int last = -1, said = 0;
		for (int k = 0; k < items; ++k) { got[k] = 0; it[k].data.set(k + 100); said += q->PushPending(&it[k]); }
		said += q->FlushPending();
		HX(said == 1);
		for (int k = 0; k < items; ++k) HXM(pop(c, last) && last == k, "the second round");
		HX(!pop(c, last));
		c.Detach();
	}
	q.reset();
}

int main(int argc, char** argv)
{
	hx::init(argc, argv);
	double T = hx::theThorough ? 100 : 8;
	sc::preemptBound = 2;
	hx::exhaustive("1 consumer, 2 elements, <=2 preemptions", 100000000, T, []() { body(1, 2, false); });
	sc::preemptBound = 1;
	hx::exhaustive("2 consumers, 3 elements, <=1 preemption", 100000000, T, []() { body(2, 3, false); });
	sc::preemptBound = 1000; sc::spuriousCasBound = 3;
	hx::random("random schedules", 100000000, T, []() { body(1 + (int)hx::pick(3), 1 + (int)hx::pick(8), true); });
	sc::staleBound = 3;
	hx::random("random schedules, weak memory", 100000000, T, []() { body(1 + (int)hx::pick(3), 1 + (int)hx::pick(8), true); });
	printf("PASS\n");
	_exit(0);
}
