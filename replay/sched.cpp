#include "conc.h"
#include "mg/box/Mutex.cpp"
#include "mg/box/ConditionVariable.cpp"
#include "mg/box/Signal.cpp"
#include "mg/box/InterruptibleMutex.cpp"
#include "mg/box/MultiConsumerQueueBase.cpp"
#include "mg/box/Thread.cpp"
#include "mg/box/Coro.cpp"
#include "mg/sch/Task.cpp"
#include "mg/sch/TaskScheduler.cpp"
namespace mg { namespace box {
	std::string StringFormat(const char* f, ...) { return f; }
	std::string StringVFormat(const char* f, va_list) { return f; }
} }
using namespace mg::box;
using namespace mg::sch;

// One task which re-posts itself in different ways, and outsiders who wake and signal it.
struct Job
{
	Task t;
	sc::Var<int> data{"what the task works with"};
	int inside = 0, runs = 0, posts = 0, left = 0;
	int wakeups = 0, signals = 0, sigSeen = 0;   // sent (started) / received
	uint64_t deadline = 0;                        // of the last post
	std::vector<int> script;
	Job() : t([this](Task* a) { body(a); }) {}
	void body(Task* a);
	void post(TaskScheduler& s, int mode)
	{
		++posts;
		if (mode == 0) { deadline = 0; s.Post(&t); }
		else if (mode == 1) { deadline = sc::nowMs + 7; s.PostDelay(&t, 7); }
		else if (mode == 2) { deadline = sc::nowMs > 2 ? sc::nowMs - 2 : 0; s.PostDeadline(&t, deadline); }
		else if (mode == 3) { deadline = MG_TIME_INFINITE; s.PostWait(&t); }
		else { deadline = sc::nowMs + 30; t.SetDeadline(sc::nowMs + 90); t.AdjustDeadline(deadline); s.Post(&t); }
	}
};

static TaskScheduler* theSched;

void Job::body(Task* a)
{
	HX(a == &t);
	HXM(inside == 0, "the task is executed by two threads");
	inside = 1;
	data.set(data.get() + 1);
	++runs;
	HXM(runs <= posts, "the task is executed %d times after %d posts", runs, posts);
	HX(&TaskScheduler::This() == theSched);
	bool early = sc::nowMs < deadline;
	HXM(!early || wakeups + signals > 0, "executed at %d before the deadline %d with no reason", (int)sc::nowMs, (int)deadline);
	if (t.IsExpired()) HXM(!early, "reported as expired before the deadline");
	else HXM(wakeups + signals > 0, "not expired and not woken");
	if (hx::pick(2))
	{
		bool is = t.IsSignaled();
		if (t.ReceiveSignal()) { ++sigSeen; HXM(sigSeen <= signals, "more signals are received than sent"); }
		else HXM(!is, "a seen signal can not be received");
	}
	HX(t.GetDeadline() == 0);
	inside = 0;
	if (left > 0) { --left; int m = script[left]; post(*theSched, m); }
}

static void jobs(int nw, int nj, int no, int subq)
{
	sc::nowMs = 1000;
	std::vector<std::unique_ptr<Job>> js;
	for (int i = 0; i < nj; ++i)
	{
		js.push_back(std::make_unique<Job>());
		int k = (int)hx::pick(3);
		for (int q = 0; q < k; ++q) js[i]->script.push_back((int)hx::pick(no ? 5 : 3));
		js[i]->left = k;
	}
	std::vector<int> first; for (int i = 0; i < nj; ++i) first.push_back((int)hx::pick(5));
	std::vector<std::function<void()>> fs;
	int posted = 0, gone = 0;
	fs.push_back([&]() {
		TaskScheduler s("t", (uint32_t)subq);
		theSched = &s;
		s.Start((uint32_t)nw);
		for (int i = 0; i < nj; ++i) js[i]->post(s, first[i]);
		posted = 1;
		// Those who wait for ever need to be woken up.
		for (int round = 0; ; ++round)
		{
			bool all = gone == no;
			for (auto& j : js) all &= j->runs == j->posts && j->left == 0;
			if (all) break;
			Sleep(200);
			for (auto& j : js) if (j->runs < j->posts && j->deadline == MG_TIME_INFINITE) { ++j->wakeups; j->t.PostWakeup(); }
			HXM(round < 50, "a posted task was not executed");
		}
		s.WaitEmpty();
		for (auto& j : js) HXM(j->runs == j->posts, "%d executions after %d posts", j->runs, j->posts);
		if (hx::pick(2)) s.Stop();
	});
	for (int k = 0; k < no; ++k) fs.push_back([&]() {
		Job* j = js[hx::pick((uint32_t)nj)].get();
		bool sig = hx::pick(2);
		if (sig) { ++j->signals; j->t.PostSignal(); }
		else { ++j->wakeups; j->t.PostWakeup(); }
		++gone;
	});
	sc::run(fs);
	for (auto& j : js)
	{
		bool left = j->t.IsSignaled();
		HXM(j->signals == 0 || left || j->sigSeen > 0, "a signal is lost");
		HX(j->runs == j->posts);
		HX(j->t.ReceiveSignal() == left);
	}
}

// A signal or a wakeup sent at any moment reaches the task which waits for ever.
static void wakes(int nw, int no)
{
	sc::nowMs = 1000;
	auto j = std::make_unique<Job>();
	Task* t = &j->t;
	sc::Var<int> result("what the signal is about");
	int done = 0, sig = (int)hx::pick(2), sched2 = 0;
	std::vector<std::function<void()>> fs;
	auto run = [&](Task* a) {
		bool got = a->ReceiveSignal();
		if (got || !sig)
		{
			if (sig) HX(result.get() == 5);
			done = 1;
			return;
		}
		theSched->PostWait(a);
	};
	t->SetCallback(run);
	fs.push_back([&]() {
		TaskScheduler s("t", 1);
		theSched = &s;
		s.Start((uint32_t)nw);
		s.PostWait(t);
		if (no == 0) { result.set(5); if (sig) t->PostSignal(); else t->PostWakeup(); }
		for (int k = 0; !done; ++k) { Sleep(50); HXM(k < 20, "the waiting task did not notice the %s", sig ? "signal" : "wakeup"); }
		s.WaitEmpty();
	});
	for (int k = 0; k < no; ++k) fs.push_back([&, k]() {
		if (k == 0) { result.set(5); if (sig) t->PostSignal(); else t->PostWakeup(); }
		else t->PostWakeup();
	});
	sc::run(fs);
	HX(done);
}

// An empty scheduler has nothing to do.
static void empty(int nw)
{
	sc::nowMs = 1000;
	int left = (int)hx::pick(3), runs = 0, posts = 1;
	Task t;
	t.SetCallback([&](Task* a) { ++runs; sc::yield(); sc::yield(); if (left-- > 0) { ++posts; theSched->Post(a); } });
	sc::run({[&]() {
		TaskScheduler s("t", 1 + hx::pick(2));
		theSched = &s;
		s.Start((uint32_t)nw);
		s.Post(&t);
		for (int k = 0; k < 3; ++k) if (s.IsEmpty()) { HXM(left < 0 && runs == posts, "the scheduler is said to be empty while a task is there"); break; }
	}});
}

#if MG_CORO_IS_ENABLED
static Coro coroBody(Task* t, int* out, Signal* sig, int how)
{
	*out = 1;
	co_await t->AsyncYield();
	*out = 2;
	t->SetDelay(7);
	uint64_t at = sc::nowMs + 7;
	co_await t->AsyncYield();
	HX(sc::nowMs >= at && t->IsExpired());
	*out = 3;
	while (true)
	{
		t->SetWait();
		if (co_await t->AsyncReceiveSignal()) break;
	}
	*out = 4;
	if (how == 0) co_await t->AsyncExitDelete();
	else if (how == 1) co_await t->AsyncExitExec([out](Task* a) { *out = 5; delete a; });
	else co_await t->AsyncExitSendSignal(*sig);
	HXM(false, "code after an exit is executed");
}

static void coro(int nw)
{
	sc::nowMs = 1000;
	int out = 0, how = (int)hx::pick(3);
	hx::log("coroutine, exit %d", how);
	sc::run({[&]() {
		TaskScheduler s("t", 2);
		theSched = &s;
		s.Start((uint32_t)nw);
		Task* t = new Task();
		auto sig = std::make_unique<Signal>();
		t->SetCallback(coroBody(t, &out, sig.get(), how));
		s.Post(t);
		for (int k = 0; out < 3; ++k) { Sleep(20); HXM(k < 20, "the coroutine does not go on"); }
		t->PostSignal();
		if (how == 2) { sig->ReceiveBlocking(); sig.reset(); delete t; }
		for (int k = 0; out < (how == 1 ? 5 : 4); ++k) { Sleep(20); HXM(k < 20, "the coroutine does not end"); }
		s.WaitEmpty();
	}});
}
#endif

int main(int argc, char** argv)
{
	hx::init(argc, argv);
	double T = hx::theThorough ? 60 : 4;
	sc::earlyTimeoutBound = 0; sc::preemptBound = 1; sc::spuriousCasBound = 1;
#if defined(WAKES)
	hx::exhaustive("a waiting task is woken", 100000000, T, []() { wakes(1, 1); });
	sc::preemptBound = 1000; sc::spuriousCasBound = 3; sc::staleBound = 3; sc::earlyTimeoutBound = 1;
	hx::random("wakes, random", 100000000, T, []() { wakes(1 + (int)hx::pick(3), (int)hx::pick(3)); });
#if MG_CORO_IS_ENABLED
	hx::random("coroutines, random", 100000000, T, []() { coro(1 + (int)hx::pick(3)); });
#endif
	hx::random("tasks, random", 100000000, 2 * T, []() { jobs(1 + (int)hx::pick(2), 1 + (int)hx::pick(2), 1 + (int)hx::pick(3), 1 + (int)hx::pick(3)); });
#elif defined(EMPTY)
	hx::exhaustive("empty, <=1 preemption", 100000000, T, []() { empty(1); });
	sc::preemptBound = 2;
	hx::exhaustive("empty, <=2 preemptions", 100000000, T, []() { empty(1); });
	sc::preemptBound = 1000; sc::spuriousCasBound = 3; sc::staleBound = 3; sc::earlyTimeoutBound = 1;
	hx::random("empty, random", 100000000, 2 * T, []() { empty(1 + (int)hx::pick(3)); });
#else
	hx::exhaustive("one task, 1 worker", 100000000, T, []() { jobs(1, 1, 0, 1); });
	sc::preemptBound = 1000; sc::spuriousCasBound = 3; sc::staleBound = 3; sc::earlyTimeoutBound = 1;
	hx::random("tasks, random", 100000000, 3 * T, []() { jobs(1 + (int)hx::pick(3), 1 + (int)hx::pick(3), (int)hx::pick(3), 1 + (int)hx::pick(3)); });
	hx::random("wakes, random", 100000000, T, []() { wakes(1 + (int)hx::pick(3), (int)hx::pick(3)); });
#endif
	printf("PASS\n");
	_exit(0);
}
