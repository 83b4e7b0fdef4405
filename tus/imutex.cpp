#include "mg/box/InterruptibleMutex.cpp"
#include <cstddef>
#define K(name, val) extern const unsigned long name; const unsigned long name = (val);
extern "C" {
K(off_state, offsetof(mg::box::InterruptibleMutex, myState))
K(off_mutex, offsetof(mg::box::InterruptibleMutex, myMutex))
K(off_waiters, offsetof(mg::box::InterruptibleMutex, myWaiters))
K(off_signal, offsetof(mg::box::InterruptibleMutexWaiter, mySignal))
K(f_taken, mg::box::INTERRUPTIBLE_MUTEX_TAKEN)
K(f_waiters, mg::box::INTERRUPTIBLE_MUTEX_HAS_WAITERS)
}
