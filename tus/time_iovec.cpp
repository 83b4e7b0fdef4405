#include "mg/box/Time.h"
#include "mg/box/IOVec.cpp"
using namespace mg::box;
// Drivers through which a user reaches the constructors; each has a contract.
extern "C" {
uint64_t drv_duration_i32(int32_t v) { return TimeDuration(v).myValue; }
uint64_t drv_duration_u32(uint32_t v) { return TimeDuration(v).myValue; }
uint64_t drv_duration_i64(int64_t v) { return TimeDuration(v).myValue; }
uint64_t drv_duration_u64(uint64_t v) { return TimeDuration(v).myValue; }
uint64_t drv_duration_to_point(uint64_t v) { return TimeDuration(v).ToPointFromNow().myValue; }
uint64_t drv_limit_duration_to_point(uint64_t v) { TimeLimit l{TimeDuration(v)}; return l.ToPointFromNow().myValue; }
uint64_t drv_limit_point_to_point(uint64_t v) { TimeLimit l{TimePoint(v)}; return l.ToPointFromNow().myValue; }
uint64_t drv_limit_duration_to_duration(uint64_t v) { TimeLimit l{TimeDuration(v)}; return l.ToDurationFromNow().myValue; }
uint64_t drv_limit_point_to_duration(uint64_t v) { TimeLimit l{TimePoint(v)}; return l.ToDurationFromNow().myValue; }
bool drv_point_le(uint64_t a, uint64_t b) { return TimePoint(a) <= TimePoint(b); }
uint64_t drv_inf_point() { return theTimePointInf.myValue; }
uint64_t drv_inf_duration() { return theTimeDurationInf.myValue; }
uint32_t drv_limit_none() { TimeLimit l; return (uint32_t)l.myType; }
uint32_t drv_limit_reset(uint64_t v) { TimeLimit l{TimePoint(v)}; l.Reset(); return (uint32_t)l.myType; }
#define K(name, val) extern const unsigned long name; const unsigned long name = (val);
K(k_none, (unsigned long)TIME_LIMIT_NONE)
K(off_data, offsetof(IOVec, myData))
K(off_size, offsetof(IOVec, mySize))
K(k_iovec, sizeof(IOVec))
}
