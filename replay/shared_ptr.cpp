#include "conc.h"
#include "mg/box/SharedPtr.h"
static int live, dead[64];
class Base
{
	SHARED_PTR_API(Base, myRef)
public:
	int id;
	sc::Var<int> data{"a shared object"};
	mg::box::SharedPtrIntrusive<Base> myNext;
	Base(int i = 0) : id(i) { ++live; }
	virtual ~Base() { data.get(); data.set(-1); --live; ++dead[id]; }
	int refs() const { return (int)myRef.Get(); }
	mg::box::RefCount myRef;
};
class Kid : public Base
{
	SHARED_PTR_RENEW_API(Kid)
public:
	Kid(int i) : Base(i) {}
};
using P = Base::Ptr;
using KP = mg::box::SharedPtrIntrusive<Kid>;
static void seq(int len)
{
	live = 0; memset(dead, 0, sizeof dead);
	const int NP = 3, NO = 3;
	{
		std::vector<std::unique_ptr<P>> p(NP);
		KP k;
		Base* obj[NO] = {};
		for (int i = 0; i < NO; ++i) { P t = i == NO - 1 ? P(Kid::NewShared(i)) : Base::NewShared(i); obj[i] = t.GetPointer(); p[i].reset(new P()); *p[i] = t; if (i == NO - 1) k = KP((Kid*)obj[i]); }
		bool lv[NO] = {true, true, true};
		std::vector<Base*> kept;             // references taken out with Unwrap
		int nkept[NO] = {};
		auto at = [&](Base* b) { for (int i = 0; i < NO; ++i) if (lv[i] && obj[i] == b) return i; return -1; };
		auto verify = [&](const char* what) {
			int cnt[NO] = {};
			for (auto& q : p) if (q->GetPointer()) { int i = at(q->GetPointer()); HXM(i >= 0 && !dead[i], "%s: pointer at a destroyed object", what); ++cnt[i]; }
			if (k.GetPointer()) { int i = at(k.GetPointer()); HXM(i >= 0 && !dead[i], "%s: child pointer at a destroyed object", what); ++cnt[i]; }
			// references held by live objects only
			for (bool ch = true; ch;) { ch = false; for (int i = 0; i < NO; ++i) if (lv[i] && !dead[i] && false) ch = true; }
			for (int i = 0; i < NO; ++i) if (!dead[i]) { Base* n = obj[i]->myNext.GetPointer(); if (n) { int j = at(n); HXM(j >= 0 && !dead[j], "%s: link at a destroyed object", what); ++cnt[j]; } }
			for (int i = 0; i < NO; ++i)
			{
				cnt[i] += nkept[i];
				HXM(dead[i] <= 1, "%s: object %d destroyed twice", what, i);
				if (dead[i]) { HXM(cnt[i] == 0, "%s: object %d destroyed while referenced", what, i); lv[i] = false; }
				else HXM(obj[i]->refs() == cnt[i] && cnt[i] > 0, "%s: object %d has %d references, counter %d", what, i, cnt[i], obj[i]->refs());
			}
		};
		verify("start");
		for (int s = 0; s < len; ++s)
		{
			int op = (int)hx::pick(15), a = (int)hx::pick(NP), b = (int)hx::pick(NP);
			P &x = *p[a], &y = *p[b];
			hx::log("op %d a=%d b=%d", op, a, b);
			switch (op)
			{
			case 0: x = y; break;
			case 1: { Base* o = y.GetPointer(); x = std::move(y); HXM(x.GetPointer() == o, "move result"); if (a != b) HXM(!y.IsSet(), "moved-from pointer is empty"); break; }
			case 2: x.Clear(); break;
			case 3: x.Set(y.GetPointer()); break;
			case 4: if (a != b) { p[a].reset(new P(y)); } break;
			case 5: if (a != b) { P* n = new P(std::move(y)); HXM(!y.IsSet(), "moved-from pointer is empty"); p[a].reset(n); } break;
			case 6: if (Base* o = x.Unwrap()) { ++nkept[at(o)]; kept.push_back(o); HXM(!x.IsSet(), "unwrapped pointer is empty"); } break;
			case 7: if (!kept.empty()) { Base* o = kept.back(); kept.pop_back(); --nkept[at(o)]; x = P::Wrap(o); } break;
			case 8: if (x.IsSet() && y.IsSet() && y->id > x->id) x->myNext = y; break;
			case 9: if (x.IsSet()) x = std::move(x->myNext); break;
			case 10: if (x.IsSet()) x = x->myNext; break;
			case 11: x = k; break;
			case 12: x = std::move(k); HXM(!k.IsSet(), "moved-from pointer is empty"); break;
			case 13: { P n(k); HX(n == k); break; }
			case 14: { P n(x.GetPointer()); HX(n == x && !(n != x) && (n == nullptr) == !n.IsSet()); P m(std::move(k)); HX(!k.IsSet()); if (m.IsSet()) k = KP((Kid*)m.GetPointer()); break; }
			}
			verify("after an operation");
		}
		while (!kept.empty()) { P::Wrap(kept.back()); --nkept[at(kept.back())]; kept.pop_back(); verify("drop"); }
		for (auto& q : p) { q.reset(new P()); verify("drop"); }
		k.Clear();
	}
	HXM(live == 0, "%d objects leaked", live);
}
static void threads()
{
	live = 0; memset(dead, 0, sizeof dead);
	{
		P root = Base::NewShared(0);
		int n = 2 + (int)hx::pick(2);
		std::vector<P> own(n, root);
		bool early = hx::pick(2);
		if (early) root.Clear();
		std::vector<std::function<void()>> fs;
		for (int t = 0; t < n; ++t)
		{
			int kind = (int)hx::pick(3);
			fs.push_back([&, t, kind]() {
				P mine = std::move(own[t]);
				if (t == 0) mine->data.set(7);
				if (kind == 1) { P c = mine; c.Clear(); }
				if (kind == 2) { P c = mine; mine = std::move(c); }
				mine.Clear();
			});
		}
		sc::run(fs);
		if (early) HXM(live == 0 && dead[0] == 1, "destroyed with the last reference");
		else HXM(live == 1 && root->refs() == 1, "one reference is left, counter %d", root->refs());
	}
	HXM(live == 0 && dead[0] == 1, "objects left %d, destroyed %d times", live, dead[0]);
}
static void plain()
{
	{ mg::box::RefCount r; HX(r.Get() == 1); r.Inc(); HX(r.Get() == 2); HX(!r.Dec()); HX(r.Dec()); HX(r.Get() == 0); }
	uint32_t n = hx::pick(4) * 3; { mg::box::RefCount r(n); HX(r.Get() == n); for (uint32_t i = 0; i < n; ++i) HX(r.Dec() == (i + 1 == n)); }
}
int main(int argc, char** argv)
{
	hx::init(argc, argv);
	double T = hx::theThorough ? 60 : 6;
	hx::exhaustive("RefCount alone", 100, T, plain);
	hx::exhaustive("2 operations", 100000000, T, []() { seq(2); });
	hx::random("operations", 100000000, T, []() { seq(12); });
	hx::exhaustive("2-3 threads sharing an object", 100000000, T, threads);
	sc::preemptBound = 1000; sc::staleBound = 3;
	hx::random("random schedules", 100000000, T, threads);
	printf("PASS\n");
	_exit(0);
}
