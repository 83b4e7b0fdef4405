#include "mg/box/Signal.cpp"
#include <cstddef>
#define K(name, val) extern const unsigned long name; const unsigned long name = (val);
extern "C" {
K(off_state, offsetof(mg::box::Signal, myState))
K(off_lock, offsetof(mg::box::Signal, myLock))
K(off_cond, offsetof(mg::box::Signal, myCond))
K(st_empty, mg::box::Signal::SIGNAL_STATE_EMPTY)
K(st_probe, mg::box::Signal::SIGNAL_STATE_PROBE)
K(st_signaled, mg::box::Signal::SIGNAL_STATE_SIGNALED)
void drv_cv_signal(mg::box::ConditionVariable* c) { c->Signal(); }
}
