#include "conc.h"
#include "mg/box/Mutex.cpp"
#include "mg/box/ConditionVariable.cpp"
using namespace mg::box;

// Recursive locking by several threads; the protected data may be touched by the holder only.
static void recursive(int nt, int ops)
{
	auto m = std::make_unique<Mutex>();
	sc::Var<int> v("what the mutex protects");
	int inside = -1, done = 0;
	std::vector<std::vector<int>> script(nt);
	for (int i = 0; i < nt; ++i) for (int k = 0; k < ops; ++k) script[i].push_back((int)hx::pick(6));
	std::vector<std::function<void()>> fs;
	for (int i = 0; i < nt; ++i) fs.push_back([&, i]() {
		int n = 0;
		auto enter = [&]() {
			if (n++ == 0) { HXM(inside == -1, "two threads hold the mutex"); inside = i; }
			HX(inside == i);
			HX(m->IsOwnedByThisThread());
			v.set(v.get() + 1); ++done;
		};
		auto leave = [&]() { HX(inside == i); HX(m->IsOwnedByThisThread()); v.get(); if (--n == 0) inside = -1; };
		for (int op : script[i])
		{
			if (n == 0) HX(!m->IsOwnedByThisThread());
			if (op == 0) { m->Lock(); enter(); }
			else if (op == 1)
			{
				bool ok = m->TryLock();
				if (n > 0) HXM(ok, "the owner failed to lock recursively");
				if (ok) enter();
			}
			else if (op == 2) { if (n > 0) { leave(); m->Unlock(); } }
			else if (op == 3) { MutexLock l(*m); enter(); leave(); }
			else if (op == 4) { MutexLock l(*m); enter(); leave(); l.Unlock(); }
			else if (n > 0) { HX(inside == i); sc::yield(); HX(inside == i); }
		}
		while (n > 0) { leave(); m->Unlock(); }
		HX(!m->IsOwnedByThisThread());
	});
	sc::run(fs);
	HX(v.v == done);
	HX(m->TryLock());
	m->Unlock();
}

// Waiters for a condition: all of them see it, with the mutex held.
static void wait(int nw)
{
	auto m = std::make_unique<Mutex>();
	auto c = std::make_unique<ConditionVariable>();
	int mode = (int)hx::pick(3), bc = (int)hx::pick(2);
	hx::log("wait mode %d broadcast %d", mode, bc);
	sc::Var<int> v("what the mutex protects");
	int inside = -1;
	std::vector<std::function<void()>> fs;
	for (int i = 0; i < nw; ++i) fs.push_back([&, i]() {
		MutexLock l(*m);
		HX(inside == -1); inside = i;
		while (v.get() <= 0)
		{
			inside = -1;
			uint64_t t0 = sc::nowMs;
			bool ok = true;
			if (mode == 0) c->Wait(*m);
			else if (mode == 1) ok = c->TimedWait(*m, TimeDuration((uint64_t)70));
			else ok = c->TimedWait(*m, hx::pick(2) ? TimeLimit(theTimeDurationInf) : TimeLimit(TimeDuration(UINT64_MAX - 5)));
			HXM(m->IsOwnedByThisThread(), "the mutex is not owned after a wait");
			HX(inside == -1); inside = i;
			if (!ok) HXM(mode == 1 && sc::nowMs >= t0 + 70, "reported a timeout too early");
			if (mode == 1 && !ok && hx::pick(2)) break;
		}
		v.set(v.get() - 1);
		inside = -1;
	});
	fs.push_back([&]() {
		if (bc) { { MutexLock l(*m); HX(inside == -1); v.set(v.get() + nw); } c->Broadcast(); return; }
		for (int i = 0; i < nw; ++i) { MutexLock l(*m); HX(inside == -1); v.set(v.get() + 1); c->Signal(); }
	});
	sc::run(fs);
	HX(!m->IsOwnedByThisThread());
	HX(m->TryLock());
	m->Unlock();
}

// A time limit is obeyed exactly.
static void timeout()
{
	static const uint64_t ds[] = {0, 1, 2, 999, 1000, 86400000ull * 365 * 5, (1ull << 32), (1ull << 32) + 7, 1ull << 33};
	uint64_t d = ds[hx::pick(9)];
	int point = (int)hx::pick(2);
	hx::log("timeout %llu ms", (unsigned long long)d);
	Mutex m;
	ConditionVariable c;
	sc::nowMs = 1000;
	sc::run({[&]() {
		uint64_t t0 = sc::nowMs;
		TimeLimit tl = point ? TimeLimit(TimePoint(t0 + d)) : TimeLimit(TimeDuration(d));
		m.Lock();
		bool ok = c.TimedWait(m, tl);
		HX(m.IsOwnedByThisThread());
		HXM(!ok || sc::spuriousWake > 0, "no timeout without a signal");
		if (!ok) HXM(sc::nowMs >= t0 + d && sc::nowMs <= t0 + d + 5, "waited %llu ms instead of %llu", (unsigned long long)(sc::nowMs - t0), (unsigned long long)d);
		m.Unlock();
	}});
}

static void stat()
{
	MutexStatClear();
	HX(MutexStatContentionCount() == 0);
	Mutex m;
	sc::run({[&]() { m.Lock(); sc::yield(); m.Unlock(); }, [&]() { bool o = m.TryLock(); HX(o || MutexStatContentionCount() >= 1); if (o) m.Unlock(); }});
}

int main(int argc, char** argv)
{
	hx::init(argc, argv);
	double T = hx::theThorough ? 60 : 5;
	hx::exhaustive("2 threads x 2 operations, <=2 preemptions", 100000000, T, []() { recursive(2, 2); });
	hx::exhaustive("waiters, <=2 preemptions", 100000000, T, []() { wait(1 + (int)hx::pick(2)); });
	hx::exhaustive("timeouts", 100000000, T, []() { timeout(); });
	hx::exhaustive("statistics", 1000000, T, []() { stat(); });
	sc::preemptBound = 1000; sc::spuriousCasBound = 3; sc::staleBound = 3; sc::spuriousWakeBound = 2; sc::earlyTimeoutBound = 2;
	hx::random("recursive locks, random", 100000000, T, []() { recursive(2 + (int)hx::pick(2), 5); });
	hx::random("waiters, random", 100000000, T, []() { wait(1 + (int)hx::pick(3)); });
	printf("PASS\n");
	_exit(0);
}
