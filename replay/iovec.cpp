// IOVecPropagate against a byte-by-byte oracle.
#include "hx.h"
#include "mg/box/IOVec.cpp"
using namespace mg::box;
static void run(uint32_t cnt, const uint32_t* sz, uint32_t off)
{
	IOVec v[10], w[10];
	static uint8_t mem[10][1 << 12];
	for (uint32_t i = 0; i < cnt; ++i) { v[i].myData = mem[i]; v[i].mySize = sz[i]; w[i] = v[i]; hx::log("size[%u]=%u", i, sz[i]); }
	hx::log("consume %u", off);
	IOVec guard; guard.myData = (void*)1; guard.mySize = 77; v[cnt] = guard;
	IOVec* p = v; uint32_t c = cnt;
	IOVecPropagate(p, c, off);
	HX(p >= v && p <= v + cnt);
	HX(c == cnt - (uint32_t)(p - v));
	HX(v[cnt].myData == (void*)1 && v[cnt].mySize == 77);
	// what is left must be the original bytes with the first off removed
	uint32_t skip = off, oi = 0, oo = 0;
	while (skip > 0) { uint32_t t = w[oi].mySize - oo; if (t > skip) t = skip; oo += t; skip -= t; if (oo == w[oi].mySize) { ++oi; oo = 0; } }
	uint64_t have = 0, want = 0;
	for (uint32_t i = 0; i < c; ++i) have += p[i].mySize;
	for (uint32_t i = 0; i < cnt; ++i) want += w[i].mySize;
	HX(have == want - off);
	uint32_t k = oi;
	for (uint32_t i = 0; i < c; ++i)
	{
		for (uint32_t b = 0; b < p[i].mySize; ++b)
		{
			while (oo == w[k].mySize) { ++k; oo = 0; }
			HXM((uint8_t*)p[i].myData + b == (uint8_t*)w[k].myData + oo, "entry %u byte %u", i, b);
			++oo;
		}
	}
}
// sizes as big as the type allows; only the addresses are compared
static void big()
{
	uint32_t n = 1 + hx::pick(5);
	IOVec v[6]; std::vector<std::pair<uintptr_t, uint64_t>> want, have; uint64_t tot = 0;
	static const uint64_t sizes[] = {0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001, 0x1800000000};
	for (uint32_t i = 0; i < n; ++i) { v[i].myData = (void*)((uintptr_t)(i + 1) << 40); v[i].mySize = sizes[hx::pick(8)]; tot += v[i].mySize; hx::log("size[%u]=%llu", i, (unsigned long long)v[i].mySize); }
	uint64_t lim = tot < 0xffffffff ? tot : 0xffffffff;
	static const uint64_t offs[] = {0, 1, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff};
	uint64_t off = offs[hx::pick(7)];
	if (off > lim) off = lim;
	hx::log("consume %llu", (unsigned long long)off);
	uint64_t skip = off;
	for (uint32_t i = 0; i < n; ++i) { uint64_t t = skip < v[i].mySize ? skip : v[i].mySize; skip -= t; if (v[i].mySize > t) want.push_back({(uintptr_t)v[i].myData + t, v[i].mySize - t}); }
	IOVec* p = v; uint32_t c = n;
	IOVecPropagate(p, c, (uint32_t)off);
	HX(p >= v && p <= v + n); HX(c == n - (uint32_t)(p - v));
	for (uint32_t i = 0; i < c; ++i) if (p[i].mySize) have.push_back({(uintptr_t)p[i].myData, p[i].mySize});
	HX(have == want);
}
int main(int argc, char** argv)
{
	hx::init(argc, argv);
	hx::exhaustive("up to 4 entries of size 0..3, every offset", 10000000, 30, []() {
		uint32_t n = 1 + hx::pick(4), sz[4], tot = 0;
		for (uint32_t i = 0; i < n; ++i) tot += sz[i] = hx::pick(4);
		run(n, sz, hx::pick(tot + 1));
	});
	hx::random("random sizes", hx::theThorough ? 1000000 : 20000, hx::theThorough ? 60 : 5, []() {
		uint32_t n = 1 + hx::pick(8), sz[8], tot = 0;
		for (uint32_t i = 0; i < n; ++i) tot += sz[i] = hx::pick(3) == 0 ? hx::pick(2) : hx::pick(1000);
		run(n, sz, hx::pick(tot + 1));
	});
	hx::exhaustive("huge sizes", hx::theThorough ? 10000000 : 60000, hx::theThorough ? 60 : 3, big);
	hx::random("huge sizes, random", hx::theThorough ? 1000000 : 60000, hx::theThorough ? 60 : 3, big);
	puts("PASS");
}
