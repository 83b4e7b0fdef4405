// Deadline arithmetic with a controlled clock: boundary values and random ones.
#include "hx.h"
#include "mg/box/Time.h"
static uint64_t theNow;
namespace mg { namespace box {
	uint64_t GetMilliseconds() { return theNow; }
} }
using namespace mg::box;
static uint64_t value()
{
	static const uint64_t v[] = {0, 1, 2, 999, 1000, 1ull << 31, (1ull << 31) - 1, 1ull << 32, (1ull << 32) - 1, 1ull << 62, 1ull << 63, (1ull << 63) - 1,
		UINT64_MAX, UINT64_MAX - 1, UINT64_MAX - 2, UINT64_MAX - 1000, 123456789};
	if (hx::theRandom && hx::pick(2)) return hx::rnd() >> (hx::rnd() % 64);
	return v[hx::pick(sizeof v / sizeof *v)];
}
static void body()
{
	theNow = value();
	uint64_t v = value();
	hx::log("now=%llu value=%llu", (unsigned long long)theNow, (unsigned long long)v);
	unsigned __int128 sum = (unsigned __int128)theNow + v;
	uint64_t point = sum >= UINT64_MAX ? UINT64_MAX : (uint64_t)sum;
	HX(TimeDuration(v).ToPointFromNow().myValue == point);
	TimeLimit ld{TimeDuration(v)}, lp{TimePoint(v)}, ln;
	HX(ld.ToPointFromNow().myValue == point);
	HX(ld.ToDurationFromNow().myValue == v);
	HX(lp.ToPointFromNow().myValue == v);
	uint64_t rest = v == UINT64_MAX ? UINT64_MAX : theNow >= v ? 0 : v - theNow;
	HX(lp.ToDurationFromNow().myValue == rest);
	HX(ln.myType == TIME_LIMIT_NONE);
	lp.Reset();
	HX(lp.myType == TIME_LIMIT_NONE);
	HX(TimeDuration((int32_t)v).myValue == ((int32_t)v < 0 ? 0 : (uint64_t)(int32_t)v));
	HX(TimeDuration((int64_t)v).myValue == ((int64_t)v < 0 ? 0 : v));
	HX(TimeDuration((uint32_t)v).myValue == (uint32_t)v);
	HX((TimePoint(theNow) <= TimePoint(v)) == (theNow <= v));
	HX(theTimePointInf.myValue == UINT64_MAX && theTimeDurationInf.myValue == UINT64_MAX);
}
int main(int argc, char** argv)
{
	hx::init(argc, argv);
	hx::exhaustive("boundary values of clock and value", 1000000, 20, body);
	hx::random("random clock and value", hx::theThorough ? 20000000 : 300000, hx::theThorough ? 60 : 5, body);
	puts("PASS");
}
