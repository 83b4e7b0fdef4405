#include "mg/box/ForwardList.h"
#include <cstddef>
struct Node
{
	long myValue;
	Node* myNext;
};
template struct mg::box::ForwardList<Node>;
template struct mg::box::ForwardListIterator<Node, &Node::myNext>;
template struct mg::box::ForwardListConstIterator<Node, &Node::myNext>;
using L = mg::box::ForwardList<Node>;
using It = mg::box::ForwardListIterator<Node, &Node::myNext>;
using CIt = mg::box::ForwardListConstIterator<Node, &Node::myNext>;
#define K(name, val) extern const unsigned long name; const unsigned long name = (val);
extern "C" {
K(off_first, offsetof(L, myFirst))
K(off_last, offsetof(L, myLastLink))
K(off_next, offsetof(Node, myNext))
K(off_it_pos, offsetof(It, myPos))
K(off_it_next, offsetof(It, myNext))
K(off_cit_pos, offsetof(CIt, myPos))
}
