#include "mg/net/DomainToIP.cpp"
#include <cstddef>
#define K(name, val) extern const unsigned long name; const unsigned long name = (unsigned long)(val);
using mg::net::DomainToIPContext;
using mg::net::DomainToIPWorker;
extern "C" {
K(x_deadline, offsetof(DomainToIPContext, myDeadline))
K(x_index, offsetof(DomainToIPContext, myIndex))
K(x_canc, offsetof(DomainToIPContext, myIsCancelled))
K(x_domain, offsetof(DomainToIPContext, myDomain))
K(x_cb, offsetof(DomainToIPContext, myCallback))
K(x_ref, offsetof(DomainToIPContext, myRef))
K(w_main, offsetof(DomainToIPWorker, myMain))
K(w_heap, offsetof(DomainToIPWorker, myMainHeap))
K(w_mutex, offsetof(DomainToIPWorker, myMutex))
K(w_cond, offsetof(DomainToIPWorker, myCond))
K(w_front, offsetof(DomainToIPWorker, myFront))
K(w_fcancel, offsetof(DomainToIPWorker, myFrontCancel))
K(t_inf, MG_TIME_INFINITE)
K(e_cancel, mg::box::ERR_BOX_CANCEL)
K(e_timeout, mg::box::ERR_BOX_TIMEOUT)
K(r_ref, offsetof(mg::box::Error, myRef))
K(r_msg, offsetof(mg::box::Error, myMessage))
K(a_family, offsetof(addrinfo, ai_family))
K(a_addr, offsetof(addrinfo, ai_addr))
K(a_next, offsetof(addrinfo, ai_next))
K(k_inet, AF_INET)
K(k_inet6, AF_INET6)
K(k_ep, sizeof(mg::net::DomainEndpoint))
}
