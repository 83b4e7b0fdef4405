#include "mg/aio/IOTask.cpp"
#include "mg/aio/IOTask_epoll.cpp"
#include "mg/aio/IOCore.cpp"
#include "mg/aio/IOCore_epoll.cpp"
#include <cerrno>
#include <climits>
#include <cstddef>
#define K(name, val) extern const unsigned long name; const unsigned long name = (unsigned long)(val);
using mg::aio::IOTask;
using mg::aio::IOCore;
using mg::aio::IOCoreWorker;
using mg::aio::IOEvent;
extern "C" {
K(t_status, offsetof(IOTask, myStatus))
K(t_ready, offsetof(IOTask, myReadyEvents))
K(t_pending, offsetof(IOTask, myPendingEvents))
K(t_in, offsetof(IOTask, myInEvent))
K(t_out, offsetof(IOTask, myOutEvent))
K(t_sub, offsetof(IOTask, mySub))
K(t_sock, offsetof(IOTask, mySocket))
K(t_next, offsetof(IOTask, myNext))
K(t_index, offsetof(IOTask, myIndex))
K(t_guard, offsetof(IOTask, myCloseGuard))
K(t_deadline, offsetof(IOTask, myDeadline))
K(t_closed, offsetof(IOTask, myIsClosed))
K(t_inq, offsetof(IOTask, myIsInQueues))
K(t_expired, offsetof(IOTask, myIsExpired))
K(t_core, offsetof(IOTask, myCore))
K(c_native, offsetof(IOCore, myNativeCore))
K(c_eventfd, offsetof(IOCore, myEventFd))
K(c_front, offsetof(IOCore, myFrontQueue))
K(c_pending, offsetof(IOCore, myPendingQueue))
K(c_waiting, offsetof(IOCore, myWaitingQueue))
K(c_ready, offsetof(IOCore, myReadyQueue))
K(c_sigready, offsetof(IOCore, myReadySignal))
K(c_execbatch, offsetof(IOCore, myExecBatchSize))
K(c_schedbatch, offsetof(IOCore, mySchedBatchSize))
K(c_flag, offsetof(IOCore, myIsSchedulerWorking))
K(c_count, offsetof(IOCore, myDescriptorCount))
K(c_state, offsetof(IOCore, myState))
K(w_core, offsetof(IOCoreWorker, myCore))
K(w_consumer, offsetof(IOCoreWorker, myConsumer))
K(st_pending, mg::aio::IOTASK_STATUS_PENDING)
K(st_waiting, mg::aio::IOTASK_STATUS_WAITING)
K(st_ready, mg::aio::IOTASK_STATUS_READY)
K(st_closing, mg::aio::IOTASK_STATUS_CLOSING)
K(st_closed, mg::aio::IOTASK_STATUS_CLOSED)
K(cs_running, mg::aio::IOCORE_STATE_RUNNING)
K(k_epollin, EPOLLIN)
K(k_epollout, EPOLLOUT)
K(k_epollerr, EPOLLERR)
K(k_epollhup, EPOLLHUP)
K(k_epollet, EPOLLET)
K(k_epollpri, EPOLLPRI)
K(k_add, EPOLL_CTL_ADD)
K(k_del, EPOLL_CTL_DEL)
K(k_pollin, POLLIN)
K(k_eintr, EINTR)
K(k_eagain, EAGAIN)
K(k_einprogress, EINPROGRESS)
K(k_nonblock, SOCK_NONBLOCK)
K(k_aborted, mg::box::ERR_NET_ABORTED)
K(e_locked, offsetof(IOEvent, myIsLocked))
K(e_empty, offsetof(IOEvent, myIsEmpty))
K(e_error, offsetof(IOEvent, myIsError))
K(e_value, offsetof(IOEvent, myBytes))
K(c_workers, offsetof(IOCore, myWorkers))
K(c_mutex, offsetof(IOCore, myMutex))
K(cs_stopped, mg::aio::IOCORE_STATE_STOPPED)
K(cs_stopping, mg::aio::IOCORE_STATE_STOPPING)
K(tl_point, mg::box::TIME_LIMIT_POINT)
K(tl_duration, mg::box::TIME_LIMIT_DURATION)
K(w_stride, sizeof(IOCoreWorker))
K(s_sock, offsetof(mg::aio::IOServerSocket, mySock))
void drv_is_closed(IOTask* t) { t->IsClosed(); }
void drv_is_expired(IOTask* t) { t->IsExpired(); }
void drv_set_deadline(IOTask* t, uint64_t d) { t->SetDeadline(d); }
void drv_reschedule(IOTask* t) { t->Reschedule(); }
void drv_less(IOTask* t, IOTask* o) { (void)(*t <= *o); }
void drv_has_socket(IOTask* t) { t->HasSocket(); }
void drv_ev_reset(IOEvent* e) { e->Reset(); }
void drv_ev_lock(IOEvent* e) { e->Lock(); }
void drv_ev_locked(IOEvent* e) { e->IsLocked(); }
void drv_ev_unlock(IOEvent* e) { e->Unlock(); }
void drv_ev_unlockf(IOEvent* e) { e->UnlockForced(); }
void drv_ev_reterr(IOEvent* e, mg::box::ErrorCode c) { e->ReturnError(c); }
void drv_ev_retb(IOEvent* e, uint32_t n) { e->ReturnBytes(n); }
void drv_ev_rete(IOEvent* e) { e->ReturnEmpty(); }
void drv_ev_isempty(IOEvent* e) { e->IsEmpty(); }
void drv_ev_iserr(IOEvent* e) { e->IsError(); }
void drv_ev_geterr(IOEvent* e) { e->GetError(); }
void drv_ev_poperr(IOEvent* e) { e->PopError(); }
void drv_ev_getb(IOEvent* e) { e->GetBytes(); }
void drv_ev_popb(IOEvent* e) { e->PopBytes(); }
}
