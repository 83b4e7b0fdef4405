#include "conc.h"
#include "mg/box/Mutex.cpp"
#include "mg/box/ConditionVariable.cpp"
#include "mg/box/Signal.cpp"
#include "mg/box/InterruptibleMutex.cpp"
using namespace mg::box;

// Any mix of TryLock and Lock: exclusion, data visibility, nobody is left behind.
static void mix(int nt, int ops)
{
	auto m = std::make_unique<InterruptibleMutex>();
	sc::Var<int> v("what the mutex protects");
	int inside = -1;
	int wakeups = 0;
	std::vector<std::vector<int>> script(nt);
	for (int i = 0; i < nt; ++i) for (int k = 0; k < ops; ++k) script[i].push_back((int)hx::pick(3));
	std::vector<std::function<void()>> fs;
	for (int i = 0; i < nt; ++i) fs.push_back([&, i]() {
		for (int op : script[i])
		{
			if (op == 0)
			{
				if (!m->TryLock()) continue;
			}
			else m->Lock([&]() { ++wakeups; });
			HXM(inside == -1, "two threads own the mutex");
			inside = i;
			v.set(v.get() + 1);
			if (op == 2) sc::yield();
			HX(inside == i);
			inside = -1;
			m->Unlock();
		}
	});
	sc::run(fs);
	HXM(m->TryLock(), "the mutex is not free when nobody owns it");
	HX(!m->TryLock());
	m->Unlock();
}

// The documented use: the owner sleeps on a signal, the others wake it up.
static void sleeping(int nw, int no)
{
	auto m = std::make_unique<InterruptibleMutex>();
	auto sig = std::make_unique<Signal>();
	sc::Var<int> v("what the mutex protects");
	int inside = -1, left = no;
	std::vector<std::function<void()>> fs;
	for (int i = 0; i < nw; ++i) fs.push_back([&, i]() {
		while (left > 0)
		{
			if (!m->TryLock()) { sc::yield(); continue; }
			HXM(inside == -1, "two threads own the mutex");
			inside = i;
			v.get();
			if (left > 0) sig->ReceiveBlocking();
			v.set(v.get() + 1);
			HX(inside == i); inside = -1;
			m->Unlock();
			break;
		}
	});
	for (int i = 0; i < no; ++i) fs.push_back([&, i]() {
		m->Lock([&]() { sig->Send(); });
		HXM(inside == -1, "two threads own the mutex");
		inside = 100 + i;
		v.set(v.get() + 1);
		HX(inside == 100 + i); inside = -1;
		if (--left == 0) sig->Send();   // let the sleepers go at the end
		m->Unlock();
	});
	sc::run(fs);
}

int main(int argc, char** argv)
{
	hx::init(argc, argv);
	double T = hx::theThorough ? 60 : 6;
	hx::exhaustive("2 threads x 2 operations, <=2 preemptions", 100000000, T, []() { mix(2, 2); });
	hx::exhaustive("3 threads x 1 operation, <=2 preemptions", 100000000, T, []() { mix(3, 1); });
	hx::exhaustive("a sleeping owner, <=2 preemptions", 100000000, T, []() { sleeping(1, 1 + (int)hx::pick(2)); });
	sc::preemptBound = 1000; sc::spuriousCasBound = 3; sc::staleBound = 3; sc::spuriousWakeBound = 2; sc::earlyTimeoutBound = 2;
	hx::random("mix, random", 100000000, T, []() { mix(2 + (int)hx::pick(3), 3); });
	hx::random("a sleeping owner, random", 100000000, T, []() { sleeping(1, 1 + (int)hx::pick(3)); });
	printf("PASS\n");
	_exit(0);
}
