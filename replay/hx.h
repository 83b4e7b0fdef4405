// Harness support: an exhaustive / random choice enumerator, a trace of the
// operations of the current case, and failure reporting.  The code under test is
// compiled from /repo's current sources; this file supplies the assertion handlers.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <functional>
#include <string>
#include <unistd.h>
#include <vector>

extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));

namespace hx {

inline std::string theTrace;
inline void (*theDumpHook)() = nullptr;
inline std::string theName;
inline std::vector<uint32_t> thePath;     // choices of the current case
inline std::vector<uint32_t> theArity;
inline size_t thePos;
inline bool theRandom;
inline uint64_t theRng = 88172645463325252ull;
inline uint64_t theCases, theSeed = 1;
inline bool theThorough;
inline bool theFailed;

inline uint64_t rnd() { theRng ^= theRng << 13; theRng ^= theRng >> 7; theRng ^= theRng << 17; return theRng * 2685821657736338717ull; }

inline void dump()
{
	static bool done; if (done) return; done = true;
	fprintf(stdout, "case %s #%llu, operations:\n%s\n", theName.c_str(), (unsigned long long)theCases, theTrace.c_str());
	if (theDumpHook) theDumpHook();
	fprintf(stdout, "choices:");
	for (size_t k = 0; k < thePath.size() && k < 400; ++k) fprintf(stdout, " %u", thePath[k]);
	fprintf(stdout, "\n");
	fflush(stdout);
}

inline void log(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline void log(const char* f, ...)
{
	if (theTrace.size() > 60000) return;
	char b[512]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
	theTrace += "  "; theTrace += b; theTrace += "\n";
}

[[noreturn]] inline void fail(const char* f, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char* f, ...)
{
	char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
	theFailed = true;
	fprintf(stdout, "FAIL: %s\n", b);
	dump();
	_exit(3);
}

#define HX(cond) do { if (!(cond)) hx::fail("%s (line %d)", #cond, __LINE__); } while (0)
#define HXM(cond, ...) do { if (!(cond)) { char b_[600]; snprintf(b_, sizeof b_, __VA_ARGS__); hx::fail("%s: %s (line %d)", #cond, b_, __LINE__); } } while (0)

// A choice among n alternatives.
inline uint32_t pick(uint32_t n)
{
	if (n <= 1) return 0;
	if (theRandom) { uint32_t c = (uint32_t)((rnd() >> 11) % n); thePath.push_back(c); return c; }
	if (thePos == thePath.size()) { thePath.push_back(0); theArity.push_back(n); }
	theArity[thePos] = n;
	return thePath[thePos++];
}

inline bool next()
{
	thePath.resize(thePos); theArity.resize(thePos);
	while (!thePath.empty())
	{
		if (thePath.back() + 1 < theArity.back()) { ++thePath.back(); return true; }
		thePath.pop_back(); theArity.pop_back();
	}
	return false;
}

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline void on_alarm(int) { fprintf(stdout, "FAIL: no progress (the operation does not terminate)\n"); dump(); _exit(3); }
inline void on_crash(int s) { fprintf(stdout, "FAIL: crash, signal %d\n", s); dump(); _exit(3); }

inline void init(int argc, char** argv)
{
	theThorough = argc > 1 && strcmp(argv[1], "thorough") == 0;
	theSeed = argc > 2 ? strtoull(argv[2], nullptr, 10) : 1;
	theRng ^= theSeed * 0x9E3779B97F4A7C15ull;
	for (int i = 0; i < 5; ++i) rnd();
	setvbuf(stdout, nullptr, _IOLBF, 0);
	signal(SIGALRM, on_alarm);
	for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) signal(s, on_crash);
	if (__asan_set_death_callback != nullptr)
		__asan_set_death_callback([]() { fprintf(stdout, "FAIL: sanitizer report (see above)\n"); dump(); });
}

// Enumerate every choice sequence of the body (up to limit cases / seconds).
// Returns true if the space was exhausted.
inline bool exhaustive(const char* name, uint64_t limit, double seconds, const std::function<void()>& body)
{
	theName = name; theRandom = false; thePath.clear(); theArity.clear(); theCases = 0;
	double t0 = now();
	bool full = true;
	do {
		thePos = 0; theTrace.clear();
		if ((theCases & 255) == 0) alarm(60);
		body();
		++theCases;
		if (theCases >= limit || ((theCases & 63) == 0 && now() - t0 > seconds)) { full = false; break; }
	} while (next());
	alarm(0);
	printf("SPACE %s: %llu cases%s, %.1fs\n", name, (unsigned long long)theCases, full ? ", exhausted" : " (cut)", now() - t0);
	return full;
}

inline void random(const char* name, uint64_t limit, double seconds, const std::function<void()>& body)
{
	theName = name; theRandom = true; theCases = 0;
	double t0 = now();
	for (uint64_t k = 0; k < limit; ++k)
	{
		thePath.clear(); theTrace.clear();
		if ((theCases & 63) == 0) alarm(60);
		body();
		++theCases;
		if ((theCases & 15) == 0 && now() - t0 > seconds) break;
	}
	alarm(0);
	printf("RANDOM %s: %llu cases, %.1fs\n", name, (unsigned long long)theCases, now() - t0);
}

}

#ifndef HX_NO_ASSERT
namespace mg { namespace box {
	void AssertS(const char* aExpression, const char* aFile, int aLine);
	void AssertF(const char* aExpression, const char* aFile, int aLine, const char* aFormat, ...);
	void AssertS(const char* e, const char* f, int l) { hx::fail("assertion (%s) at %s:%d", e, f, l); }
	void AssertF(const char* e, const char* f, int l, const char*, ...) { hx::fail("assertion (%s) at %s:%d", e, f, l); }
} }
#endif
