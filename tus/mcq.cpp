#define private public
#include "mg/box/MultiConsumerQueueBase.cpp"
#include "mg/box/MultiConsumerQueue.h"
#include <cstddef>
using namespace mg::box;
#define K(name, val) extern const unsigned long name; const unsigned long name = (val);
extern "C" {
K(s_r, offsetof(MCQBaseSubQueue, myReadIndex))
K(s_f, offsetof(MCQBaseSubQueue, myFlushIndex))
K(s_w, offsetof(MCQBaseSubQueue, myWriteIndex))
K(s_fp, offsetof(MCQBaseSubQueue, myFirstPending))
K(s_q, offsetof(MCQBaseSubQueue, myQueue))
K(s_size, offsetof(MCQBaseSubQueue, mySize))
K(s_cc, offsetof(MCQBaseSubQueue, myConsumerCount))
K(s_prev, offsetof(MCQBaseSubQueue, myPrev))
K(s_next, offsetof(MCQBaseSubQueue, myNext))
K(q_count, offsetof(MCQBaseQueue, myCount))
K(q_pend, offsetof(MCQBaseQueue, myPendingCount))
K(q_lock, offsetof(MCQBaseQueue, myLock))
K(q_sqc, offsetof(MCQBaseQueue, mySubQueueCount))
K(q_cc, offsetof(MCQBaseQueue, myConsumerCount))
K(q_head, offsetof(MCQBaseQueue, myHead))
K(q_wpos, offsetof(MCQBaseQueue, myWpos))
K(q_tail, offsetof(MCQBaseQueue, myTail))
K(c_sub, offsetof(MCQBaseConsumer, mySubQueue))
K(c_queue, offsetof(MCQBaseConsumer, myQueue))
K(size_sq, sizeof(MCQBaseSubQueue))
}
struct Item {};
template class mg::box::MultiConsumerQueue<Item>;
template class mg::box::MultiConsumerQueueConsumer<Item>;
