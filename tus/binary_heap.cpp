#include "mg/box/BinaryHeap.h"
#include <cstddef>
struct Node
{
	unsigned long myKey;
	int32_t myIndex;
	bool operator<=(const Node& o) const { return myKey <= o.myKey; }
	bool operator>=(const Node& o) const { return myKey >= o.myKey; }
};
template class mg::box::BinaryHeap<Node*, mg::box::BinaryHeapMinPtrIntrusiveMethods<Node, &Node::myIndex>>;
template class mg::box::BinaryHeap<Node*, mg::box::BinaryHeapMaxPtrIntrusiveMethods<Node, &Node::myIndex>>;
static_assert(__is_same(mg::box::BinaryHeapMinIntrusive<Node>, mg::box::BinaryHeap<Node*, mg::box::BinaryHeapMinPtrIntrusiveMethods<Node, &Node::myIndex>>));
static_assert(__is_same(mg::box::BinaryHeapMaxIntrusive<Node>, mg::box::BinaryHeap<Node*, mg::box::BinaryHeapMaxPtrIntrusiveMethods<Node, &Node::myIndex>>));
#define K(name, val) extern const unsigned long name; const unsigned long name = (val);
extern "C" {
K(off_key, offsetof(Node, myKey))
K(off_index, offsetof(Node, myIndex))
}
