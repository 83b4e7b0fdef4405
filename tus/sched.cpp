#include "mg/sch/Task.cpp"
#include "mg/sch/TaskScheduler.cpp"
#include <cstddef>
#define K(name, val) extern const unsigned long name; const unsigned long name = (val);
using mg::sch::Task;
using mg::sch::TaskScheduler;
using mg::sch::TaskSchedulerThread;
extern "C" {
K(t_next, offsetof(Task, myNext))
K(t_index, offsetof(Task, myIndex))
K(t_status, offsetof(Task, myStatus))
K(t_sched, offsetof(Task, myScheduler))
K(t_deadline, offsetof(Task, myDeadline))
K(t_callback, offsetof(Task, myCallback))
K(t_expired, offsetof(Task, myIsExpired))
K(s_front, offsetof(TaskScheduler, myQueueFront))
K(s_sigfront, offsetof(TaskScheduler, mySignalFront))
K(s_pending, offsetof(TaskScheduler, myQueuePending))
K(s_waiting, offsetof(TaskScheduler, myQueueWaiting))
K(s_sigready, offsetof(TaskScheduler, mySignalReady))
K(s_execbatch, offsetof(TaskScheduler, myExecBatchSize))
K(s_schedbatch, offsetof(TaskScheduler, mySchedBatchSize))
K(s_ready, offsetof(TaskScheduler, myQueueReady))
K(s_mutex, offsetof(TaskScheduler, mySchedulerMutex))
K(s_threads, offsetof(TaskScheduler, myThreads))
K(w_sched, offsetof(TaskSchedulerThread, myScheduler))
K(w_state, offsetof(TaskSchedulerThread, myState))
K(w_consumer, offsetof(TaskSchedulerThread, myConsumer))
K(w_execs, offsetof(TaskSchedulerThread, myExecuteCount))
K(w_scheds, offsetof(TaskSchedulerThread, myScheduleCount))
K(st_pending, mg::sch::TASK_STATUS_PENDING)
K(st_waiting, mg::sch::TASK_STATUS_WAITING)
K(st_ready, mg::sch::TASK_STATUS_READY)
K(st_signaled, mg::sch::TASK_STATUS_SIGNALED)
K(limit_point, mg::box::TIME_LIMIT_POINT)
K(limit_duration, mg::box::TIME_LIMIT_DURATION)
void drv_post_delay(TaskScheduler* s, Task* t, uint32_t d) { s->PostDelay(t, d); }
void drv_post_deadline(TaskScheduler* s, Task* t, uint64_t d) { s->PostDeadline(t, d); }
void drv_post_wait(TaskScheduler* s, Task* t) { s->PostWait(t); }
void drv_is_signaled(Task* t) { t->IsSignaled(); }
}
using namespace mg::sch;
extern "C" {
K(oy_task, offsetof(TaskCoroOpYield, myTask))
K(oy_sched, offsetof(TaskCoroOpYield, mySched))
K(or_task, offsetof(TaskCoroOpReceiveSignal, myTask))
K(or_sched, offsetof(TaskCoroOpReceiveSignal, mySched))
K(od_task, offsetof(TaskCoroOpExitDelete, myTask))
K(oe_task, offsetof(TaskCoroOpExitExec, myTask))
K(oe_cb, offsetof(TaskCoroOpExitExec, myNewCallback))
K(os_task, offsetof(TaskCoroOpExitSendSignal, myTask))
K(os_sig, offsetof(TaskCoroOpExitSendSignal, mySignal))
K(one_cb, offsetof(TaskOneShot, myCallback))
K(ws_idle, mg::sch::TASK_SCHEDULER_WORKER_STATE_IDLE)
K(ws_running, mg::sch::TASK_SCHEDULER_WORKER_STATE_RUNNING)
}
