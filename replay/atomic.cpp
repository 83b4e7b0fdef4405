// Every method of Atomic<T> against the meaning of its name: value, result, number of
// accesses and memory order (std::atomic is replaced by a recorder with the same values).
#include <bits/stdc++.h>
#include "hx.h"
namespace rec {
	inline int n, order, order2, kind;
	inline bool weakFail;
}
namespace std {
	template<typename T> struct rec_atomic
	{
		T v;
		rec_atomic() = default;
		constexpr rec_atomic(T x) : v(x) {}
		typedef memory_order mo;
		static void hit(mo o, int k, mo o2 = mo::relaxed) { ++rec::n; rec::order = (int)o; rec::order2 = (int)o2; rec::kind = k; }
		T load(mo o = mo::seq_cst) const { hit(o, 0); return v; }
		void store(T x, mo o = mo::seq_cst) { hit(o, 1); v = x; }
		T exchange(T x, mo o = mo::seq_cst) { hit(o, 2); T r = v; v = x; return r; }
		template<typename D> T fetch_add(D d, mo o = mo::seq_cst) { hit(o, 2); T r = v; v = (T)((unsigned long long)v + (unsigned long long)d); return r; }
		template<typename D> T fetch_sub(D d, mo o = mo::seq_cst) { hit(o, 2); T r = v; v = (T)((unsigned long long)v - (unsigned long long)d); return r; }
		T fetch_or(T d, mo o = mo::seq_cst) { hit(o, 2); T r = v; v = (T)(v | d); return r; }
		T fetch_and(T d, mo o = mo::seq_cst) { hit(o, 2); T r = v; v = (T)(v & d); return r; }
		T fetch_xor(T d, mo o = mo::seq_cst) { hit(o, 2); T r = v; v = (T)(v ^ d); return r; }
		bool cas(T& e, T x, mo a, mo b, bool weak)
		{
			hit(a, weak ? 4 : 3, b);
			if (v == e && !(weak && rec::weakFail)) { v = x; return true; }
			e = v;
			return false;
		}
		static mo fo(mo o) { return o == mo::acq_rel ? mo::acquire : o == mo::release ? mo::relaxed : o; }
		bool compare_exchange_weak(T& e, T x, mo a, mo b) { return cas(e, x, a, b, true); }
		bool compare_exchange_strong(T& e, T x, mo a, mo b) { return cas(e, x, a, b, false); }
		bool compare_exchange_weak(T& e, T x, mo a = mo::seq_cst) { return cas(e, x, a, fo(a), true); }
		bool compare_exchange_strong(T& e, T x, mo a = mo::seq_cst) { return cas(e, x, a, fo(a), false); }
		operator T() const { return load(); }
		T operator=(T x) { store(x); return x; }
		T operator++() { return (T)(fetch_add(1) + 1); }
		T operator++(int) { return fetch_add(1); }
		T operator--() { return (T)(fetch_sub(1) - 1); }
		T operator--(int) { return fetch_sub(1); }
		T operator+=(T d) { return (T)(fetch_add(d) + d); }
		T operator-=(T d) { return (T)(fetch_sub(d) - d); }
		T operator|=(T d) { return (T)(fetch_or(d) | d); }
		T operator&=(T d) { return (T)(fetch_and(d) & d); }
	};
}
#define atomic rec_atomic
#include "mg/box/Atomic.h"
#undef atomic
#include "atomic_ops.inc"
using namespace mg::box;
typedef unsigned long long U;

static bool atLeast(int got, const std::string& want)
{
	auto o = (std::memory_order)got;
	bool a = o == std::memory_order_acquire || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst;
	bool r = o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst;
	if (want == "Relaxed") return true;
	if (want == "Acquire") return a;
	if (want == "Release") return r;
	if (want == "AcqRel") return a && r;
	return o == std::memory_order_seq_cst;
}
static void split(const char* nm, std::string& op, std::string& ord)
{
	op = nm; ord = "";
	for (const char* s : {"Relaxed", "Acquire", "AcqRel", "Release"})
	{
		size_t l = strlen(s);
		if (op.size() > l && op.substr(op.size() - l) == s) { op.resize(op.size() - l); ord = s; return; }
	}
}
template<typename T> static U num(T v) { if constexpr (std::is_pointer_v<T>) return (U)(uintptr_t)v; else return (U)v; }
template<typename T> static T val(U v) { if constexpr (std::is_pointer_v<T>) return (T)(uintptr_t)v; else return (T)v; }

template<typename T> static void done(const char* t, const char* nm, U old, U arg, bool hasRes, T res, T left, int kind)
{
	std::string op, ord;
	split(nm, op, ord);
	HXM(rec::n == 1, "%s::%s: %d atomic accesses instead of one", t, nm, rec::n);
	HXM(atLeast(rec::order, ord), "%s::%s: memory order is %d", t, nm, rec::order);
	auto has = [&](const char* s) { return op.find(s) != std::string::npos; };
	U exp = old;
	if (op == "Load") ;
	else if (op == "Store" || op == "Exchange") exp = arg;
	else if (has("Add")) exp = old + arg;
	else if (has("Sub")) exp = old - arg;
	else if (has("Increment")) exp = old + 1;
	else if (has("Decrement")) exp = old - 1;
	else if (has("BitOr")) exp = old | arg;
	else if (has("BitAnd")) exp = old & arg;
	T e = val<T>(exp);
	HXM(left == e, "%s::%s(%llx) of %llx left %llx instead of %llx", t, nm, arg, old, num(left), num(e));
	if (hasRes)
	{
		T r = op == "Load" || op.find("Fetch") == 0 || op == "Exchange" ? val<T>(old) : e;
		HXM(res == r, "%s::%s(%llx) of %llx returned %llx instead of %llx", t, nm, arg, old, num(res), num(r));
	}
}

template<typename A, typename T> struct One
{
	static const char* t;
	static T rnd()
	{
		static const U sp[] = {0, 1, 2, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, 0x123456789abcdefull};
		return val<T>(sp[hx::pick(16)] + (hx::pick(2) ? hx::pick(3) : 0));
	}
	static void L(const char* nm, T (*f)(A&)) { T v = rnd(); A a(v); rec::n = 0; T r = f(a); auto n = rec::n; T left = get(a); rec::n = n; done<T>(t, nm, num(v), 0, true, r, left, 0); }
	static void V(const char* nm, void (*f)(A&)) { T v = rnd(); A a(v); rec::n = 0; f(a); T left = get(a); done<T>(t, nm, num(v), 0, false, v, left, 0); }
	static void S(const char* nm, void (*f)(A&, T)) { T v = rnd(), x = rnd(); A a(v); rec::n = 0; f(a, x); T left = get(a); done<T>(t, nm, num(v), num(x), false, v, left, 0); }
	static void X(const char* nm, T (*f)(A&, T)) { T v = rnd(), x = rnd(); A a(v); rec::n = 0; T r = f(a, x); T left = get(a); done<T>(t, nm, num(v), num(x), true, r, left, 0); }
	static void C(const char* nm, bool (*f)(A&, T&, T))
	{
		T v = rnd(), x = rnd(), e = hx::pick(2) ? v : rnd(), e0 = e;
		rec::weakFail = hx::pick(3) == 0;
		A a(v);
		rec::n = 0;
		bool ok = f(a, e, x);
		std::string op, ord; split(nm, op, ord);
		HXM(rec::n == 1 && atLeast(rec::order, ord), "%s::%s: %d accesses, order %d", t, nm, rec::n, rec::order);
		bool weak = op == "CmpExchgWeak";
		HXM(weak || rec::kind == 3, "%s::%s may fail spuriously", t, nm);
		bool exp = v == e0 && !(weak && rec::kind == 4 && rec::weakFail);
		HXM(ok == exp, "%s::%s returned %d", t, nm, ok);
		HXM(get(a) == (ok ? x : v), "%s::%s left a wrong value", t, nm);
		HXM(e == (ok ? e0 : v), "%s::%s left a wrong expected value", t, nm);
	}
	static T get(A& a) { auto n = rec::n; auto o = rec::order; T r; memcpy(&r, &a, sizeof r); rec::n = n; rec::order = o; return r; }
};
template<typename A, typename T> const char* One<A, T>::t = "?";

#define L_(n) O::L(#n, [](A& a) { return (T)a.n(); });
#define S_(n) O::S(#n, [](A& a, T v) { a.n(v); });
#define X_(n) O::X(#n, [](A& a, T v) { return (T)a.n(v); });
#define V_(n) O::V(#n, [](A& a) { a.n(); });
#define C_(n) O::C(#n, [](A& a, T& e, T v) { return a.n(e, v); });
template<typename A, typename W, bool Int> static void all(const char* nm)
{
	using T = decltype(std::declval<A>().LoadRelaxed());
	using O = One<A, T>;
	O::t = nm;
	HXM((std::is_same_v<T, W>), "%s has another value type", nm);
	for (int i = 0; i < (hx::theThorough ? 20000 : 1000); ++i)
	{
		OPS_ALL(L_, S_, X_, V_, C_)
		if constexpr (Int) { OPS_INT(L_, S_, X_, V_, C_) }
	}
}

int main(int argc, char** argv)
{
	hx::init(argc, argv);
	hx::random("all methods of all types", 1, 1000, []() {
		all<AtomicU8, uint8_t, true>("AtomicU8"); all<AtomicU16, uint16_t, true>("AtomicU16");
		all<AtomicU32, uint32_t, true>("AtomicU32"); all<AtomicU64, uint64_t, true>("AtomicU64");
		all<AtomicI8, int8_t, true>("AtomicI8"); all<AtomicI16, int16_t, true>("AtomicI16");
		all<AtomicI32, int32_t, true>("AtomicI32"); all<AtomicI64, int64_t, true>("AtomicI64");
		all<AtomicBool, bool, false>("AtomicBool"); all<AtomicVoidPtr, void*, false>("AtomicVoidPtr");
	});
	printf("PASS\n");
	return 0;
}
