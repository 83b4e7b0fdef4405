#include "mg/aio/TCPSocketCtl.cpp"
#include "mg/aio/TCPSocketIFace.cpp"
#include "mg/aio/TCPSocket.cpp"
#include "mg/aio/TCPSocketSubscription.h"
#include <cstddef>
#define K(name, val) extern const unsigned long name; const unsigned long name = (unsigned long)(val);
using mg::aio::IOTask;
using mg::aio::IOEvent;
using mg::aio::TCPSocketCtl;
using mg::aio::TCPSocketIFace;
using mg::aio::TCPSocket;
extern "C" {
K(c_shut, offsetof(TCPSocketCtl, myHasShutdown))
K(c_conn, offsetof(TCPSocketCtl, myHasConnect))
K(c_started, offsetof(TCPSocketCtl, myConnectIsStarted))
K(c_host, offsetof(TCPSocketCtl, myConnectHost))
K(c_domain, offsetof(TCPSocketCtl, myConnectDomain))
K(c_sock, offsetof(TCPSocketCtl, myConnectSocket))
K(c_delay, offsetof(TCPSocketCtl, myConnectDelay))
K(c_deadline, offsetof(TCPSocketCtl, myConnectStartDeadline))
K(c_event, offsetof(TCPSocketCtl, myConnectEvent))
K(c_att, offsetof(TCPSocketCtl, myHasAttach))
K(c_attsock, offsetof(TCPSocketCtl, myAttachSocket))
K(c_hs, offsetof(TCPSocketCtl, myHasHandshake))
K(c_hand, offsetof(TCPSocketCtl, myHandshake))
K(c_task, offsetof(TCPSocketCtl, myTask))
K(d_err, offsetof(mg::aio::TCPSocketCtlDomainRequest, myError))
K(d_host, offsetof(mg::aio::TCPSocketCtlDomainRequest, myHost))
K(d_task, offsetof(mg::aio::TCPSocketCtlDomainRequest, myTask))
K(d_sent, offsetof(mg::aio::TCPSocketCtlDomainRequest, myIsSent))
K(d_port, offsetof(mg::aio::TCPSocketCtlDomainRequest, myPort))
K(d_fam, offsetof(mg::aio::TCPSocketCtlDomainRequest, myAddrFamily))
K(d_name, offsetof(mg::aio::TCPSocketCtlDomainRequest, myDomain))
K(d_req, offsetof(mg::aio::TCPSocketCtlDomainRequest, myRequest))
K(d_mutex, offsetof(mg::aio::TCPSocketCtlDomainRequest, myMutex))
K(k_endsize, sizeof(mg::net::DomainEndpoint))
K(k_hostsize, sizeof(mg::net::Host))
K(k_delaysize, sizeof(mg::box::TimeLimit))
K(dl_type, offsetof(mg::box::TimeLimit, myType))
K(tl_point, mg::box::TIME_LIMIT_POINT)
K(tl_none, mg::box::TIME_LIMIT_NONE)
K(p_sock, offsetof(mg::aio::TCPSocketCtlConnectParams, mySocket))
K(p_end, offsetof(mg::aio::TCPSocketCtlConnectParams, myEndpoint))
K(p_fam, offsetof(mg::aio::TCPSocketCtlConnectParams, myAddrFamily))
K(p_delay, offsetof(mg::aio::TCPSocketCtlConnectParams, myDelay))
K(u_host, offsetof(mg::net::URL, myHost))
K(u_port, offsetof(mg::net::URL, myPort))
K(t_closed, offsetof(IOTask, myIsClosed))
K(t_deadline, offsetof(IOTask, myDeadline))
K(t_sock, offsetof(IOTask, mySocket))
K(t_inq, offsetof(IOTask, myIsInQueues))
K(s_mutex, offsetof(TCPSocketIFace, myMutex))
K(s_state, offsetof(TCPSocketIFace, myState))
K(s_hsdone, offsetof(TCPSocketIFace, myWasHandshakeDone))
K(s_running, offsetof(TCPSocketIFace, myIsRunning))
K(s_ready, offsetof(TCPSocketIFace, myIsReadyToStart))
K(s_sub, offsetof(TCPSocketIFace, mySub))
K(s_fq, offsetof(TCPSocketIFace, myFrontSendQueue))
K(s_frecv, offsetof(TCPSocketIFace, myFrontRecvSize))
K(s_fctl, offsetof(TCPSocketIFace, myFrontCtl))
K(s_ctl, offsetof(TCPSocketIFace, myCtl))
K(s_sq, offsetof(TCPSocketIFace, mySendQueue))
K(s_rq, offsetof(TCPSocketIFace, myRecvQueue))
K(s_rsize, offsetof(TCPSocketIFace, myRecvSize))
K(s_sev, offsetof(TCPSocketIFace, mySendEvent))
K(s_rev, offsetof(TCPSocketIFace, myRecvEvent))
K(s_task, offsetof(TCPSocketIFace, myTask))
K(s_off, offsetof(TCPSocket, mySendOffset))
K(k_evsize, sizeof(IOEvent))
K(e_locked, offsetof(IOEvent, myIsLocked))
K(e_empty, offsetof(IOEvent, myIsEmpty))
K(e_error, offsetof(IOEvent, myIsError))
K(e_value, offsetof(IOEvent, myBytes))
K(st_new, mg::aio::TCP_SOCKET_STATE_NEW)
K(st_empty, mg::aio::TCP_SOCKET_STATE_EMPTY)
K(st_connecting, mg::aio::TCP_SOCKET_STATE_CONNECTING)
K(st_handshake, mg::aio::TCP_SOCKET_STATE_HANDSHAKE)
K(st_connected, mg::aio::TCP_SOCKET_STATE_CONNECTED)
K(st_closing, mg::aio::TCP_SOCKET_STATE_CLOSING)
K(st_closed, mg::aio::TCP_SOCKET_STATE_CLOSED)
}
