// Controlled concurrency for the replay harnesses: the real code is compiled with
// "-include conc.h"; its std::atomic, std::mutex, std::condition_variable_any and
// std::thread are these.  Exactly one thread runs at a time; at every operation on one
// of these objects the harness picks (hx::pick) who continues, so schedules are
// enumerated or drawn like any other input.  Memory orders are tracked with vector
// clocks, and sc::Var reports accesses not ordered by happens-before.
#pragma once
#include <bits/stdc++.h>
#include <sched.h>
#include <semaphore.h>
#include <pthread.h>
#include <unistd.h>
#include "hx.h"

namespace sc {

static const int MAXT = 10;
enum St { FREE, RUNNABLE, BLOCKED, WAITING, DONE };
typedef uint32_t Clock[MAXT];

struct Th
{
	St st = FREE;
	sem_t sem;
	pthread_t pt;
	bool started = false;
	std::function<void()> job;
	const void* on = nullptr;      // what it is blocked on
	uint64_t deadline = 0;         // 0: none
	bool timedOut = false;
	int joiner = -1;
	Clock vc{};
};

struct Ev { int8_t t; const char* op; const void* p; long long v; };

inline Th th[MAXT];
inline int cur = -1;               // running logical thread; -1: outside of a run
inline sem_t mainSem;
inline std::vector<Ev> evs;
inline uint64_t nowMs = 1000;
inline int preempt, preemptBound = 2;
inline int spuriousCas, spuriousCasBound = 1;
inline int spuriousWake, spuriousWakeBound = 0;
inline int stale, staleBound = 0;      // loads which return an overwritten value
inline int earlyTimeout, earlyTimeoutBound = 1;
inline uint64_t steps, stepLimit = 60000;
inline int sinceSwitch;
inline Clock mainVc;
inline std::vector<const void*> sharedObjs;

inline bool active() { return cur >= 0; }

inline void dumpEvs()
{
	printf("schedule (thread: operation), last %d of %d steps:\n", (int)std::min<size_t>(evs.size(), 400), (int)evs.size());
	std::map<const void*, int> ids;
	for (auto& e : evs) if (e.p && !ids.count(e.p)) { int n = (int)ids.size(); ids[e.p] = n; }
	for (size_t k = evs.size() > 400 ? evs.size() - 400 : 0; k < evs.size(); ++k)
		printf("  T%d: %s obj%d %lld\n", evs[k].t, evs[k].op, evs[k].p ? ids[evs[k].p] : -1, evs[k].v);
	fflush(stdout);
}

inline void join(Clock a, const Clock b) { for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }
inline Clock& myvc() { return active() ? th[cur].vc : mainVc; }
inline int me() { return active() ? cur : 0; }
inline void ev(const char* op, const void* p, long long v = 0) { if (active() && evs.size() < 200000) evs.push_back({(int8_t)cur, op, p, v}); }

inline void resume(int t)
{
	int was = cur;
	if (t == was) return;
	cur = t;
	sinceSwitch = 0;
	bool wait = was >= 0 && th[was].st != DONE;
	sem_post(&th[t].sem);
	if (wait) { while (sem_wait(&th[was].sem) != 0) {} }
}

// Pick the next thread; the current one may be not runnable.
inline void choose()
{
	if (++steps > stepLimit) hx::fail("no progress: %llu steps without an end (livelock)", (unsigned long long)steps);
	int en[MAXT + MAXT], n = 0;
	bool curOk = th[cur].st == RUNNABLE;
	if (curOk) en[n++] = cur;
	for (int i = 0; i < MAXT; ++i) if (i != cur && th[i].st == RUNNABLE) en[n++] = i;
	int nrun = n;
	bool forced = curOk && ++sinceSwitch > 150 && nrun > 1;
	for (int i = 0; i < MAXT; ++i)
		if (th[i].st == WAITING && th[i].deadline != 0 && (nrun == 0 || (earlyTimeout < earlyTimeoutBound && !forced))) en[n++] = 100 + i;
	if (n == 0)
	{
		std::string s;
		for (int i = 0; i < MAXT; ++i) if (th[i].st == BLOCKED || th[i].st == WAITING) s += " T" + std::to_string(i) + (th[i].st == BLOCKED ? " (blocked)" : " (waiting)");
		hx::fail("deadlock: nothing can run:%s", s.c_str());
	}
	int k = 0;
	if (forced) k = 1 + (hx::theRandom ? (int)hx::pick(nrun - 1) : 0);
	else if (curOk)
	{
		if (n > 1 && preempt < preemptBound)
		{
			if (hx::theRandom) { if (hx::pick(4) == 0) k = (int)hx::pick(n); }
			else k = (int)hx::pick(n);
		}
		if (k != 0) ++preempt;
	}
	else k = (int)hx::pick(n);
	int t = en[k];
	if (t >= 100)
	{
		t -= 100;
		if (nrun != 0) ++earlyTimeout;
		if (nrun == 0) for (int i = 0; i < MAXT; ++i)        // the earliest deadline goes first
			if (th[i].st == WAITING && th[i].deadline != 0 && th[i].deadline < th[t].deadline) t = i;
		if (th[t].deadline > nowMs) nowMs = th[t].deadline;
		th[t].st = RUNNABLE; th[t].timedOut = true; th[t].deadline = 0;
		evs.push_back({(int8_t)t, "timeout", th[t].on, (long long)nowMs});
	}
	resume(t);
}

inline void step() { if (active()) { ++th[cur].vc[cur]; choose(); } }
inline void yield() { step(); }

inline void sleepMs(uint64_t ms)
{
	if (!active()) return;
	Th& t = th[cur];
	t.st = WAITING; t.on = &t; t.deadline = nowMs + (ms == 0 ? 1 : ms);
	choose();
	t.timedOut = false; t.on = nullptr;
}

inline void block(const void* on) { th[cur].st = BLOCKED; th[cur].on = on; choose(); }
inline void wake(const void* on) { for (auto& t : th) if (t.st == BLOCKED && t.on == on) { t.st = RUNNABLE; t.on = nullptr; } }

inline void* loop(void* a)
{
	Th& t = *(Th*)a;
	int id = (int)(&t - th);
	while (true)
	{
		while (sem_wait(&t.sem) != 0) {}
		t.job();
		t.job = nullptr;
		evs.push_back({(int8_t)id, "exit", nullptr, 0});
		t.st = DONE;
		wake(&t);
		bool any = false;
		for (auto& x : th) any |= x.st == RUNNABLE || x.st == BLOCKED || x.st == WAITING;
		if (!any) { cur = -1; sem_post(&mainSem); }
		else choose();
	}
}

inline int spawn(std::function<void()> f)
{
	for (int i = 0; i < MAXT; ++i) if (th[i].st == FREE)
	{
		Th& t = th[i];
		t.st = RUNNABLE; t.job = std::move(f); t.deadline = 0; t.timedOut = false; t.on = nullptr;
		memcpy(t.vc, myvc(), sizeof(Clock));
		++t.vc[i];
		if (active()) ++th[cur].vc[cur];
		if (!t.started)
		{
			t.started = true;
			sem_init(&t.sem, 0, 0);
			pthread_create(&t.pt, nullptr, loop, &t);
		}
		return i;
	}
	hx::fail("harness: too many threads");
}

inline void join(int i)
{
	ev("join", &th[i]);
	step();
	while (th[i].st != DONE) block(&th[i]);
	join(th[cur].vc, th[i].vc);
	th[i].st = FREE;
}

// Run the functions as concurrent threads; returns when all threads have ended.
inline void run(std::vector<std::function<void()>> fs)
{
	static bool init;
	if (!init)
	{
		init = true;
		hx::theDumpHook = dumpEvs;
		sem_init(&mainSem, 0, 0);
		cpu_set_t s; CPU_ZERO(&s);
		CPU_SET(sched_getcpu(), &s);
		sched_setaffinity(0, sizeof s, &s);
	}
	for (auto& t : th) if (t.st != FREE) hx::fail("harness: thread left over");
	evs.clear();
	preempt = spuriousCas = spuriousWake = earlyTimeout = stale = 0; steps = 0; sinceSwitch = 0;
	for (auto& f : fs) spawn(std::move(f));
	int first = fs.size() > 1 ? (int)hx::pick((uint32_t)fs.size()) : 0;
	cur = first;
	sem_post(&th[first].sem);
	while (sem_wait(&mainSem) != 0) {}
	for (auto& t : th) { if (t.st == DONE) { join(mainVc, t.vc); t.st = FREE; } }
	++mainVc[0];
}

struct Sync
{
	Clock c{};
	uint32_t magic = 0x600D600D;
	~Sync() { magic = 0xDEADDEAD; asm volatile("" ::: "memory"); }
	void live(const char* op) const { if (magic != 0x600D600D) hx::fail("%s on a destroyed synchronization object", op); }
	void acq() { join(myvc(), c); }
	void rel() { join(c, myvc()); ++myvc()[me()]; }
	void relStore() { memcpy(c, myvc(), sizeof c); ++myvc()[me()]; }
	void rlxStore() { memset(c, 0, sizeof c); }
};

inline bool isAcq(std::memory_order o) { return o == std::memory_order_acquire || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst || o == std::memory_order_consume; }
inline bool isRel(std::memory_order o) { return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst; }

// A plain variable of the harness, checked for data races.
template<typename T> struct Var
{
	T v{};
	Clock w{}, r{};
	const char* nm;
	Var(const char* n = "data") : nm(n) {}
	void fresh() { memset(w, 0, sizeof w); memset(r, 0, sizeof r); }
	void ok(const Clock a, const char* what) { for (int i = 0; i < MAXT; ++i) if (i != me() && a[i] > myvc()[i]) hx::fail("data race on %s: T%d %s it without being ordered after T%d", nm, me(), what, i); }
	T get() { ok(w, "reads"); r[me()] = myvc()[me()]; return v; }
	void set(T x) { ok(w, "writes"); ok(r, "writes"); w[me()] = myvc()[me()]; v = x; }
};

}

namespace std {

template<typename T> struct hx_atomic
{
	T v;
	mutable sc::Sync s;
	// Weak memory: the last stores in the modification order, the newest first. A load
	// may return an overwritten value as long as the overwriting store is not ordered
	// before the load and the thread has not yet seen it.
	struct Old { T v{}; sc::Clock c{}; int by = 0; uint32_t at = 0, no = 0; };
	static constexpr int HIST = 4;
	mutable Old h[HIST];
	int hn = 0;
	Old now;
	mutable uint32_t seen[sc::MAXT] = {};
	hx_atomic() noexcept : v() {}
	constexpr hx_atomic(T x) noexcept : v(x) {}
	void before()
	{
		if (sc::staleBound == 0) { hn = 0; return; }
		for (int i = std::min(hn, HIST - 1); i > 0; --i) h[i] = h[i - 1];
		h[0] = now; h[0].v = v; memcpy(h[0].c, s.c, sizeof(sc::Clock));
		hn = std::min(hn + 1, (int)HIST);
		now.by = sc::me(); now.at = sc::myvc()[sc::me()]; ++now.no;
		seen[sc::me()] = now.no;
	}
	T view(bool acq, bool sc_) const
	{
		int me = sc::me();
		if (hn > 0 && !sc_ && sc::active() && sc::stale < sc::staleBound)
		{
			int n = 0;
			const Old* newer = &now;
			while (n < hn && h[n].no >= seen[me] && sc::myvc()[newer->by] < newer->at) newer = &h[n++];
			int k = n > 0 ? (int)hx::pick((uint32_t)n + 1) : 0;
			if (k > 0)
			{
				++sc::stale;
				const Old& o = h[k - 1];
				seen[me] = o.no;
				sc::ev("stale load", this, num(o.v));
				if (acq) sc::join(sc::myvc(), o.c);
				return o.v;
			}
		}
		seen[me] = now.no;
		sc::ev("load", this, num(v));
		if (acq) s.acq();
		return v;
	}
	hx_atomic(const hx_atomic&) = delete;
	typedef memory_order mo;
	static long long num(T x) { if constexpr (is_integral_v<T> || is_enum_v<T>) return (long long)x; else if constexpr (is_pointer_v<T>) return (long long)(intptr_t)x; else return 0; }
	T load(mo o = mo::seq_cst) const { s.live("atomic load"); sc::step(); s.live("atomic load"); return view(sc::isAcq(o), o == mo::seq_cst); }
	void store(T x, mo o = mo::seq_cst) { s.live("atomic store"); sc::step(); s.live("atomic store"); sc::ev("store", this, num(x)); before(); if (sc::isRel(o)) s.relStore(); else s.rlxStore(); v = x; }
	template<typename F> T rmw(const char* nm, F f, mo o)
	{
		s.live(nm); sc::step(); s.live(nm);
		before();
		T old = v;
		v = f(old);
		sc::ev(nm, this, num(v));
		if (sc::isAcq(o)) s.acq();
		if (sc::isRel(o)) s.rel();
		return old;
	}
	T exchange(T x, mo o = mo::seq_cst) { return rmw("exchange", [&](T) { return x; }, o); }
	template<typename D> T fetch_add(D d, mo o = mo::seq_cst) { return rmw("add", [&](T a) { return (T)(a + d); }, o); }
	template<typename D> T fetch_sub(D d, mo o = mo::seq_cst) { return rmw("sub", [&](T a) { return (T)(a - d); }, o); }
	T fetch_or(T d, mo o = mo::seq_cst) { return rmw("or", [&](T a) { return (T)(a | d); }, o); }
	T fetch_and(T d, mo o = mo::seq_cst) { return rmw("and", [&](T a) { return (T)(a & d); }, o); }
	T fetch_xor(T d, mo o = mo::seq_cst) { return rmw("xor", [&](T a) { return (T)(a ^ d); }, o); }
	bool cas(T& e, T x, mo a, mo b, bool weak)
	{
		s.live("compare-exchange"); sc::step(); s.live("compare-exchange");
		bool ok = v == e;
		if (ok && weak && sc::active() && sc::spuriousCas < sc::spuriousCasBound && hx::pick(2) == 1) { ++sc::spuriousCas; ok = false; }
		if (ok)
		{
			before();
			v = x;
			sc::ev("cas", this, num(x));
			if (sc::isAcq(a)) s.acq();
			if (sc::isRel(a)) s.rel();
			return true;
		}
		sc::ev("cas-failed", this, num(v));
		if (sc::isAcq(b)) s.acq();
		e = v;
		return false;
	}
	bool compare_exchange_weak(T& e, T x, mo a = mo::seq_cst, mo b = mo::relaxed) { return cas(e, x, a, b, true); }
	bool compare_exchange_strong(T& e, T x, mo a = mo::seq_cst, mo b = mo::relaxed) { return cas(e, x, a, b, false); }
	operator T() const { return load(); }
	T operator=(T x) { store(x); return x; }
	T operator++() { return fetch_add(1) + 1; }
	T operator++(int) { return fetch_add(1); }
	T operator--() { return fetch_sub(1) - 1; }
	T operator--(int) { return fetch_sub(1); }
	T operator+=(T d) { return fetch_add(d) + d; }
	T operator-=(T d) { return fetch_sub(d) - d; }
	bool is_lock_free() const { return true; }
};

struct hx_mutex
{
	sc::Sync s;
	int owner = -1;
	hx_mutex() {}
	hx_mutex(const hx_mutex&) = delete;
	~hx_mutex() { if (owner != -1) hx::fail("a locked mutex is destroyed"); }
	void take() { owner = sc::active() ? sc::cur : 1000; s.acq(); }
	void lock()
	{
		s.live("lock"); sc::step(); s.live("lock");
		if (owner == (sc::active() ? sc::cur : 1000)) hx::fail("deadlock: a thread locks a mutex it holds");
		while (owner != -1) { sc::block(this); s.live("lock"); }
		take();
		sc::ev("lock", this);
	}
	bool try_lock()
	{
		s.live("try_lock"); sc::step(); s.live("try_lock");
		sc::ev("try_lock", this, owner == -1);
		if (owner != -1) return false;
		take();
		return true;
	}
	void drop()
	{
		s.live("unlock");
		if (owner != (sc::active() ? sc::cur : 1000)) hx::fail("unlock of a mutex the thread does not hold");
		s.rel(); owner = -1; sc::wake(this);
		sc::ev("unlock", this);
	}
	void unlock() { drop(); sc::step(); }
};
struct hx_recursive_mutex : hx_mutex {};

struct hx_cv
{
	sc::Sync s;
	std::vector<int> ws;
	hx_cv() {}
	hx_cv(const hx_cv&) = delete;
	~hx_cv() { if (!ws.empty()) hx::fail("a condition variable is destroyed with waiters"); }
	static void remove(std::vector<int>& v, int t) { v.erase(std::remove(v.begin(), v.end(), t), v.end()); }
	void notify_one()
	{
		s.live("notify"); sc::step(); s.live("notify");
		sc::ev("notify_one", this, (long long)ws.size());
		if (ws.empty()) return;
		int t = ws[hx::pick((uint32_t)ws.size())];
		wakeOne(t);
	}
	void notify_all()
	{
		s.live("notify"); sc::step(); s.live("notify");
		sc::ev("notify_all", this, (long long)ws.size());
		while (!ws.empty()) wakeOne(ws.back());
	}
	void wakeOne(int t) { remove(ws, t); sc::th[t].st = sc::RUNNABLE; sc::th[t].on = nullptr; sc::th[t].deadline = 0; }
	template<typename L> cv_status waitUntil(L& m, uint64_t dl)
	{
		s.live("wait");
		if (!sc::active()) hx::fail("wait outside of a scheduled run");
		int me = sc::cur;
		ws.push_back(me);
		sc::ev("wait", this, (long long)dl);
		unlockQuiet(m);
		sc::Th& t = sc::th[me];
		t.timedOut = false;
		if (sc::spuriousWake < sc::spuriousWakeBound && hx::pick(2) == 1) { ++sc::spuriousWake; t.st = sc::RUNNABLE; remove(ws, me); sc::step(); }
		else
		{
			t.st = sc::WAITING; t.on = this; t.deadline = dl;
			sc::choose();
			s.live("wait");
			if (t.timedOut) remove(ws, me);
		}
		bool to = t.timedOut;
		t.timedOut = false;
		m.lock();
		return to ? cv_status::timeout : cv_status::no_timeout;
	}
	static void unlockQuiet(hx_mutex& m) { m.drop(); }
	template<typename M> static void unlockQuiet(unique_lock<M>& m) { m.unlock(); }
	template<typename L> void wait(L& m) { waitUntil(m, 0); }
	template<typename L, typename P> void wait(L& m, P p) { while (!p()) wait(m); }
	template<typename L, typename R, typename Q> cv_status wait_for(L& m, const chrono::duration<R, Q>& d)
	{
		// As libstdc++: steady clock now plus the duration in nanoseconds, in 64 bits.
		chrono::steady_clock::time_point t(chrono::nanoseconds((long long)(sc::nowMs * 1000000ull)));
		auto n = (unsigned long long)t.time_since_epoch().count() + (unsigned long long)d.count() * (1000000000ull * Q::num / Q::den);
		long long ns = (long long)n;
		if (ns <= (long long)(sc::nowMs * 1000000ull)) return waitUntil(m, sc::nowMs);   // passed already: times out at once
		return waitUntil(m, (uint64_t)((ns + 999999) / 1000000));
	}
};

struct hx_thread
{
	int id = -1;
	hx_thread() {}
	template<typename F, typename... A, typename = enable_if_t<!is_same_v<decay_t<F>, hx_thread>>>
	explicit hx_thread(F&& f, A&&... a)
	{
		auto b = std::bind(std::forward<F>(f), std::forward<A>(a)...);
		if (!sc::active()) hx::fail("harness: a thread is started outside of a scheduled run");
		id = sc::spawn([b]() mutable { b(); });
		sc::ev("spawn", nullptr, id);
		sc::step();
	}
	hx_thread(hx_thread&& o) : id(o.id) { o.id = -1; }
	hx_thread& operator=(hx_thread&& o) { if (id != -1) hx::fail("a running thread is overwritten"); id = o.id; o.id = -1; return *this; }
	~hx_thread() { if (id != -1) hx::fail("a thread is destroyed without join"); }
	bool joinable() const { return id != -1; }
	void join() { if (id == -1) hx::fail("join of no thread"); sc::join(id); id = -1; }
	void detach() { id = -1; }
};

}

// Platform functions under the harness' control.
namespace mg { namespace box {
	inline uint64_t GetMilliseconds();
	inline double GetMillisecondsPrecise();
	inline uint64_t GetNanoseconds();
	inline uint32_t GetCurrentThreadId();
	inline void ThreadSetCurrentName(const char*);
	inline void Sleep(uint64_t);
	inline uint64_t GetMilliseconds() { return sc::nowMs; }
	inline double GetMillisecondsPrecise() { return (double)sc::nowMs; }
	inline uint64_t GetNanoseconds() { return sc::nowMs * 1000000; }
	inline uint32_t GetCurrentThreadId() { return sc::active() ? (uint32_t)sc::cur + 1 : 1000; }
	inline void ThreadSetCurrentName(const char*) {}
	inline void Sleep(uint64_t n) { sc::sleepMs(n); }
} }

#define atomic hx_atomic
#define mutex hx_mutex
#define recursive_mutex hx_recursive_mutex
#define condition_variable_any hx_cv
#define condition_variable hx_cv
#define thread hx_thread
