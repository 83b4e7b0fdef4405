#include "mg/box/MultiProducerQueueIntrusive.h"
#include <cstddef>
struct Node
{
	long myValue;
	Node* myNext;
};
template class mg::box::MultiProducerQueueIntrusive<Node>;
using Q = mg::box::MultiProducerQueueIntrusive<Node>;
#define K(name, val) extern const unsigned long name; const unsigned long name = (val);
extern "C" {
K(off_head, offsetof(Q, myHead))
K(off_next, offsetof(Node, myNext))
}
