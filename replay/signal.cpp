#include "conc.h"
#include "mg/box/Mutex.cpp"
#include "mg/box/ConditionVariable.cpp"
#include "mg/box/Signal.cpp"
using mg::box::Signal;
using namespace mg::box;

// Senders write their data and send; a receiver which consumed the signal after a send
// was complete must see what the sender wrote.
static void senders(int maxS, int maxN)
{
	auto s = std::make_unique<Signal>();
	int ns = 1 + (int)hx::pick(maxS), mode = (int)hx::pick(3), nr = 1 + (int)hx::pick(2);
	int per = 1 + (int)hx::pick(maxN);
	if (nr == 2 && mode == 0) mode = 2;
	hx::log("%d senders x %d, receive mode %d, %d receivers", ns, per, mode, nr);
	struct D { sc::Var<int> v{"what a sender wrote before its send"}; int sent = 0; };
	std::vector<std::unique_ptr<D[]>> d;
	for (int i = 0; i < ns; ++i) d.emplace_back(new D[per]);
	int got = 0, total = 0, begun = 0;
	std::vector<std::function<void()>> fs;
	for (int i = 0; i < ns; ++i) fs.push_back([&, i]() {
		for (int k = 0; k < per; ++k) { d[i][k].v.set(5); ++begun; s->Send(); d[i][k].sent = 1; ++total; }
	});
	auto look = [&]() {
		std::vector<std::pair<int, int>> c;
		for (int i = 0; i < ns; ++i) for (int k = 0; k < per; ++k) if (d[i][k].sent) c.push_back({i, k});
		return c;
	};
	auto see = [&](const std::vector<std::pair<int, int>>& c) { ++got; for (auto& p : c) HX(d[p.first][p.second].v.get() == 5); };
	for (int r = 0; r < nr; ++r) fs.push_back([&, r]() {
		auto c = look();
		if (mode == 0) { s->ReceiveBlocking(); see(c); return; }
		for (int k = 0; k < 2; ++k)
		{
			c = look();
			uint64_t t0 = sc::nowMs;
			bool ok = mode == 1 ? s->Receive() : s->ReceiveTimed(TimeDuration((uint64_t)50));
			if (ok) see(c);
			else if (mode == 2) HXM(sc::nowMs >= t0 + 50 || sc::spuriousWake > 0 || begun > 0, "gave up before the time limit");
		}
	});
	sc::run(fs);
	HXM(got <= total, "%d signals received of %d sent", got, total);
	// A pending signal is there exactly once.
	bool a = s->Receive(), b = s->Receive();
	HX(!b);
	HXM(got + a >= 1, "the signal is lost: %d sends, none received", total);
}

// A waiter is never left behind, and may destroy the signal at once.
static void destroy(bool timed)
{
	Signal* s = new Signal();
	int ns = 1 + (int)hx::pick(2);
	sc::Var<int> data("what the sender wrote");
	std::vector<std::function<void()>> fs;
	fs.push_back([&]() {
		int n = 0;
		if (timed) { while (!s->ReceiveTimed(theTimeDurationInf)) HXM(++n < 1000, "ReceiveTimed never succeeds"); }
		else s->ReceiveBlocking();
		HX(data.get() == 3);
		s->~Signal();
		memset((void*)s, 0xDD, sizeof *s);
		operator delete(s);
	});
	fs.push_back([&]() { data.set(3); s->Send(); });
	(void)ns;
	sc::run(fs);
}

// Ping-pong: every send is followed by a receive of the other side.
static void pingpong(int rounds)
{
	Signal a, b;
	sc::Var<int> v("ping-pong value");
	sc::run({[&]() { for (int i = 0; i < rounds; ++i) { v.set(2 * i); a.Send(); b.ReceiveBlocking(); HX(v.get() == 2 * i + 1); } },
		[&]() { for (int i = 0; i < rounds; ++i) { a.ReceiveBlocking(); HX(v.get() == 2 * i); v.set(2 * i + 1); b.Send(); } }});
	HX(!a.Receive() && !b.Receive());
}

int main(int argc, char** argv)
{
	hx::init(argc, argv);
	double T = hx::theThorough ? 60 : 6;
	hx::exhaustive("receive and destroy, <=2 preemptions", 100000000, T, []() { destroy(hx::pick(2)); });
	hx::exhaustive("ping-pong, <=2 preemptions", 100000000, T, []() { pingpong(2); });
	hx::exhaustive("2 senders, <=2 preemptions", 100000000, T, []() { senders(2, 1); });
	sc::preemptBound = 1000; sc::spuriousCasBound = 3; sc::staleBound = 3; sc::spuriousWakeBound = 2; sc::earlyTimeoutBound = 2;
	hx::random("receive and destroy, random", 100000000, T, []() { destroy(hx::pick(2)); });
	hx::random("senders, random", 100000000, T, []() { senders(3, 2); });
	hx::random("ping-pong, random", 100000000, T, []() { pingpong(3); });
	printf("PASS\n");
	_exit(0);
}
