#include "mg/net/Buffer.cpp"
#include "mg/box/IOVec.h"
#include <cstddef>
#define K(name, val) extern const unsigned long name; const unsigned long name = (val);
using mg::net::Buffer;
using mg::net::BufferStream;
using mg::net::BufferLink;
using mg::net::BufferLinkList;
extern "C" {
K(b_pos, offsetof(Buffer, myPos))
K(b_cap, offsetof(Buffer, myCapacity))
K(b_data, offsetof(Buffer, myRData))
K(b_next, offsetof(Buffer, myNext))
K(b_ref, offsetof(Buffer, myRef))
K(s_head, offsetof(BufferStream, myHead))
K(s_rsize, offsetof(BufferStream, myRSize))
K(s_rend, offsetof(BufferStream, myREnd))
K(s_wpos, offsetof(BufferStream, myWPos))
K(s_wsize, offsetof(BufferStream, myWSize))
K(s_tail, offsetof(BufferStream, myTail))
K(l_head, offsetof(BufferLink, myHead))
K(l_next, offsetof(BufferLink, myNext))
K(copy_size, mg::net::theBufferCopySize)
K(iov_data, offsetof(mg::box::IOVec, myData))
K(iov_size, offsetof(mg::box::IOVec, mySize))
K(k_iovec, sizeof(mg::box::IOVec))
}
// Drivers for the inline functions.
void drv_ctor(BufferStream* s) { new (s) BufferStream(); }
extern "C" {
K(ll_first, offsetof(mg::box::ForwardList<BufferLink>, myFirst))
K(ll_last, offsetof(mg::box::ForwardList<BufferLink>, myLastLink))
}
void drv_links(BufferLinkList* l, BufferLink* h) { l->AppendMove(h); }
// The proofs of the lemmas are attached to an empty function.
void lemma_sums() {}
void lemma_positions() {}
void lemma_heads() {}
