#include "mg/box/Mutex.cpp"
#include "mg/box/ConditionVariable.cpp"
#include <cstddef>
#define K(name, val) extern const unsigned long name; const unsigned long name = (val);
extern "C" {
K(off_owner, offsetof(mg::box::Mutex, myOwner))
K(off_count, offsetof(mg::box::Mutex, myCount))
K(off_lockptr, offsetof(mg::box::MutexLock, myMutex))
void drv_guard(mg::box::MutexLock* l, mg::box::Mutex* m) { new (l) mg::box::MutexLock(*m); }
void drv_unguard(mg::box::MutexLock* l) { l->~MutexLock(); }
void drv_guard_unlock(mg::box::MutexLock* l) { l->Unlock(); }
void drv_new(mg::box::Mutex* m) { new (m) mg::box::Mutex(); }
void drv_del(mg::box::Mutex* m) { m->~Mutex(); }
void drv_signal(mg::box::ConditionVariable* c) { c->Signal(); }
void drv_broadcast(mg::box::ConditionVariable* c) { c->Broadcast(); }
}
