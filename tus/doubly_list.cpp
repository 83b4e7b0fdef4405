#include "mg/box/DoublyList.h"
#include <cstddef>
struct Node
{
	long myValue;
	Node* myPrev;
	Node* myNext;
};
template struct mg::box::DoublyList<Node>;
template struct mg::box::DoublyListIterator<Node, &Node::myNext>;
template struct mg::box::DoublyListConstIterator<Node, &Node::myNext>;
using L = mg::box::DoublyList<Node>;
using It = mg::box::DoublyListIterator<Node, &Node::myNext>;
using CIt = mg::box::DoublyListConstIterator<Node, &Node::myNext>;
#define K(name, val) extern const unsigned long name; const unsigned long name = (val);
extern "C" {
K(off_first, offsetof(L, myFirst))
K(off_last, offsetof(L, myLast))
K(off_next, offsetof(Node, myNext))
K(off_prev, offsetof(Node, myPrev))
K(off_it_pos, offsetof(It, myPos))
K(off_it_next, offsetof(It, myNext))
K(off_cit_pos, offsetof(CIt, myPos))
}
