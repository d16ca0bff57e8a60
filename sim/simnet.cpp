// Simulated kernel objects behind file descriptors: eventfd, timerfd, epoll and loopback TCP sockets.
// Everything happens in virtual time; delivery delay, short transfers, resets and stalls are fault decisions.
#include "engine.hpp"
#include <cerrno>
#include <cstring>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <poll.h>
#include <fcntl.h>
#include <unistd.h>
enum { FD0=500, NFD=96, NITEM=48, RX=1<<15, NSEG=256, NBACK=16 };
enum K : u8 { K_FREE, K_EVENT, K_TIMER, K_EPOLL, K_SOCK };
struct Item { int fd; u32 gen; u32 events; u64 data; u64 last; bool used, oneshot_off; };
struct Seg { u64 at; u32 len; bool eof, rst; };
struct Fd { K kind; u32 gen; bool nonblock; u64 seq;
  u64 cnt; bool sema;                                  // eventfd
  u64 expiry, interval; clockid_t clk;                 // timerfd
  Item* it;                                            // epoll
  bool listening, connected, connecting, refused, eof, wrshut, reuse; int err; int peer; u32 peergen; u16 port, pport; u64 conn_at;
  int back[NBACK]; u64 backat[NBACK]; int nback;
  char* rx; u32 rxh, rxn;                              // delivered bytes (ring)
  Seg seg[NSEG]; u32 sh, sn; char* fl; u32 flh, fln;   // in-flight bytes
  u64 ops; };
static Fd F[NFD]; static Item items[NFD][NITEM]; static char rxb[NFD][RX], flb[NFD][RX]; static u16 next_port=40000; static u64 conn_ops; static char NETOBJ;
static u64 net_fault_seq; u64 net_stat_bytes, net_stat_conns;
static Fd* get(int fd){ if(fd<FD0||fd>=FD0+NFD) return nullptr; Fd* f=&F[fd-FD0]; return f->kind==K_FREE?nullptr:f; }
static int idx(Fd* f){ return (int)(f-F); }
static int mk(K k){ for(int i=0;i<NFD;i++) if(F[i].kind==K_FREE){ u32 g=F[i].gen; F[i]=Fd(); F[i].kind=k; F[i].gen=g+1; F[i].it=items[i]; F[i].rx=rxb[i]; F[i].fl=flb[i]; F[i].peer=-1; memset(items[i],0,sizeof items[i]); return FD0+i; } errno=EMFILE; return -1; }
static void changed(Fd* f){ f->seq++; wake_obj(&NETOBJ,MAXT); }
static void advance(Fd* f){ u64 n=now_ns();
  if(f->kind==K_TIMER){ if(f->expiry&&f->expiry<=n){ if(f->interval){ u64 k=(n-f->expiry)/f->interval+1; f->cnt+=k; f->expiry+=k*f->interval; } else { f->cnt++; f->expiry=0; } f->seq++; } }
  if(f->kind==K_SOCK){
    if(f->connecting&&f->conn_at<=n){ f->connecting=false; if(f->refused){ f->err=ECONNREFUSED; } else f->connected=true; f->seq++; }
    while(f->sn&&f->seg[f->sh].at<=n){ Seg& s=f->seg[f->sh]; if(s.rst){ f->err=ECONNRESET; f->eof=true; f->fln=0; f->sn=0; f->seq++; break; } if(s.eof) f->eof=true; else { if(f->rxn+s.len>RX) break; for(u32 i=0;i<s.len;i++){ f->rx[(f->rxh+f->rxn++)%RX]=f->fl[f->flh]; f->flh=(f->flh+1)%RX; f->fln--; } } f->sh=(f->sh+1)%NSEG; f->sn--; f->seq++; } } }
static Fd* peer_of(Fd* f){ if(f->peer<0) return nullptr; Fd* p=&F[f->peer]; return p->kind==K_SOCK&&p->gen==f->peergen?p:nullptr; }
static u32 space(Fd* f){ Fd* p=peer_of(f); if(!p) return RX; u32 used=p->rxn+p->fln; if(p->sn>=NSEG-4) return 0; return used>=RX?0:RX-used; }
static u32 evs(Fd* f){ advance(f); u32 e=0; switch(f->kind){
  case K_EVENT: if(f->cnt) e|=EPOLLIN; e|=EPOLLOUT; break;
  case K_TIMER: if(f->cnt) e|=EPOLLIN; break;
  case K_SOCK: if(f->listening){ if(f->nback&&f->backat[0]<=now_ns()) e|=EPOLLIN; }
    else { if(f->err) e|=EPOLLERR|EPOLLHUP|EPOLLIN|EPOLLOUT; if(f->rxn||f->eof) e|=EPOLLIN; if(f->eof) e|=EPOLLRDHUP; if(f->connected&&(f->wrshut||space(f))) e|=EPOLLOUT; if(f->eof&&f->wrshut) e|=EPOLLHUP; if(!f->connected&&!f->connecting&&!f->err) e|=EPOLLHUP|EPOLLOUT; }
    break; default: break; } return e; }
static u64 next_at(Fd* f){ u64 d=~0ull; if(f->kind==K_TIMER&&f->expiry) d=f->expiry; if(f->kind==K_SOCK){ if(f->connecting) d=f->conn_at; if(f->sn&&f->seg[f->sh].at<d) d=f->seg[f->sh].at; if(f->listening&&f->nback&&f->backat[0]<d) d=f->backat[0]; } return d; }
static u64 lseq(Fd* f){ return f->seq+((f->kind==K_SOCK&&f->listening&&f->nback&&f->backat[0]<=now_ns())?1000000007ull*(u64)f->nback:0); }
static bool nf(int kind,Fd* f){ return active&&!cur->nopre&&sim_fault(kind,((u64)(idx(f)+1)<<44)|((u64)(f->gen&255)<<36)|f->ops++); }
static bool waitfd(Fd* f,u64 dl,const char* why){ u64 d=next_at(f); if(d==~0ull) d=0; if(dl&&(!d||dl<d)) d=dl; return block_on(&NETOBJ,d,why); }
#define RET(e) do{ errno=(e); return -1; }while(0)
static long raw(long r){ if(r<0&&r>-4096){ errno=(int)-r; return -1; } return r; }
static void enqueue(Fd* p,const char* d,u32 n,u64 at,bool eof,bool rst){ if(p->sn){ u64 last=p->seg[(p->sh+p->sn-1)%NSEG].at; if(at<last) at=last; } if(p->sn>=NSEG) return; Seg& s=p->seg[(p->sh+p->sn)%NSEG]; s.at=at; s.len=n; s.eof=eof; s.rst=rst; p->sn++; for(u32 i=0;i<n;i++) p->fl[(p->flh+p->fln++)%RX]=d[i]; advance(p); changed(p); }
static u64 delay(Fd* f){ if(nf(SF_NET_STALL,f)) return 300000000ull; if(nf(SF_NET_DELAY,f)) return 1000000ull*(1+(f->ops*2654435761u>>7)%40); return 0; }
static u64 net_resets; extern "C" unsigned long long sim_net_resets(){ return net_resets; }
static void do_reset(Fd* f){ net_resets++; vlog("  net: fd %d reset",FD0+idx(f)); f->err=ECONNRESET; f->eof=true; f->connected=true; f->sn=f->fln=0; changed(f); if(Fd* p=peer_of(f)){ enqueue(p,nullptr,0,now_ns(),false,true); p->peer=-1; } f->peer=-1; }
static ssize_t snd(Fd* f,const char* b,size_t n,bool nb){ for(;;){ advance(f); if(f->err){ int e=f->err; if(e==ECONNRESET){ f->err=0; } errno=e; return -1; } if(!f->connected) RET(f->connecting?EAGAIN:ENOTCONN); if(f->wrshut) RET(EPIPE); if(!peer_of(f)){ vlog("  net: thr%d send on dead %d",cur->id,FD0+idx(f)); RET(f->eof?EPIPE:ECONNRESET); } if(n==0) return 0;
    if(nf(SF_NET_RESET,f)){ do_reset(f); f->err=0; RET(ECONNRESET); }
    u32 sp=space(f); if(sp){ u32 k=n<sp?(u32)n:sp; if(k>1&&nf(SF_NET_SHORT,f)) k=1+(u32)((f->ops*2654435761u>>5)%(k-1)); hb_release(&NETOBJ); vlog("  net: thr%d sends %u of %zu on %d",cur->id,k,n,FD0+idx(f)); enqueue(peer_of(f),b,k,now_ns()+delay(f),false,false); net_stat_bytes+=k; return k; }
    if(nb) RET(EAGAIN); waitfd(f,0,"send"); } }
static ssize_t rcv(Fd* f,char* b,size_t n,bool nb,bool peek){ for(;;){ advance(f); if(f->rxn){ u32 k=n<f->rxn?(u32)n:f->rxn; if(k>1&&nf(SF_NET_SHORT,f)) k=1+(u32)((f->ops*2654435761u>>5)%(k-1)); for(u32 i=0;i<k;i++) b[i]=f->rx[(f->rxh+i)%RX]; if(!peek){ bool full=space(f)==0; (void)full; f->rxh=(f->rxh+k)%RX; f->rxn-=k; advance(f); if(Fd* p=peer_of(f)) changed(p); } hb_acquire(&NETOBJ); return k; }
    if(f->err){ int e=f->err; f->err=0; errno=e; return -1; } if(f->eof){ vlog("  net: thr%d reads eof on %d",cur->id,FD0+idx(f)); return 0; } if(!f->connected) RET(ENOTCONN); if(n==0) return 0; if(nb) RET(EAGAIN); waitfd(f,0,"recv"); } }
extern "C" {
int epoll_create1(int) noexcept { point(16); return mk(K_EPOLL); }
int epoll_create(int) noexcept { point(16); return mk(K_EPOLL); }
int eventfd(unsigned init,int flags) noexcept { point(16); int fd=mk(K_EVENT); if(fd>=0){ Fd* f=get(fd); f->cnt=init; f->nonblock=flags&EFD_NONBLOCK; f->sema=flags&EFD_SEMAPHORE; } return fd; }
int timerfd_create(clockid_t c,int flags) noexcept { point(16); int fd=mk(K_TIMER); if(fd>=0){ get(fd)->clk=c; get(fd)->nonblock=flags&TFD_NONBLOCK; } return fd; }
int timerfd_settime(int fd,int flags,const struct itimerspec* n,struct itimerspec* o) noexcept { point(16); Fd* f=get(fd); if(!f||f->kind!=K_TIMER) RET(EBADF); if(o) memset(o,0,sizeof *o); u64 v=(u64)n->it_value.tv_sec*1000000000ull+n->it_value.tv_nsec; f->interval=(u64)n->it_interval.tv_sec*1000000000ull+n->it_interval.tv_nsec; f->cnt=0; if(!v) f->expiry=0; else f->expiry=(flags&TFD_TIMER_ABSTIME)?v:now_ns()+v; changed(f); return 0; }
int epoll_ctl(int ep,int op,int fd,struct epoll_event* e) noexcept { point(16); Fd* p=get(ep); Fd* f=get(fd); if(!p||p->kind!=K_EPOLL) RET(EBADF); if(!f) RET(EBADF); Item* x=nullptr; for(int i=0;i<NITEM;i++) if(p->it[i].used&&p->it[i].fd==fd&&p->it[i].gen==f->gen) x=&p->it[i];
  if(op==EPOLL_CTL_ADD){ if(x) RET(EEXIST); for(int i=0;i<NITEM&&!x;i++) if(!p->it[i].used||!get(p->it[i].fd)||get(p->it[i].fd)->gen!=p->it[i].gen) x=&p->it[i]; if(!x) RET(ENOSPC); *x=Item(); x->used=true; x->fd=fd; x->gen=f->gen; x->events=e->events; x->data=e->data.u64; x->last=~0ull; wake_obj(&NETOBJ,MAXT); return 0; }
  if(!x) RET(ENOENT); if(op==EPOLL_CTL_DEL){ x->used=false; return 0; } x->events=e->events; x->data=e->data.u64; x->last=~0ull; x->oneshot_off=false; wake_obj(&NETOBJ,MAXT); return 0; }
int epoll_wait(int ep,struct epoll_event* out,int max,int timeout){ point(16); Fd* p=get(ep); if(!p||p->kind!=K_EPOLL) RET(EBADF); u64 dl=timeout>0?now_ns()+(u64)timeout*1000000ull:0;
  for(;;){ int n=0; u64 d=~0ull; u32 start=(u32)p->ops++;
    for(int k=0;k<NITEM&&n<max;k++){ Item* x=&p->it[(k+start)%NITEM]; if(!x->used) continue; Fd* f=get(x->fd); if(!f||f->gen!=x->gen){ x->used=false; continue; } u32 e=evs(f)&(x->events|EPOLLERR|EPOLLHUP); u64 s=lseq(f); u64 na=next_at(f); if(na<d) d=na;
      if(!e||x->oneshot_off) continue; if((x->events&EPOLLET)&&x->last==s) continue; x->last=s; if(x->events&EPOLLONESHOT) x->oneshot_off=true; out[n].events=e; out[n].data.u64=x->data; n++; }
    if(n){ hb_acquire(&NETOBJ); return n; } if(timeout==0) return 0; if(dl&&now_ns()>=dl) return 0; if(dl&&dl<d) d=dl; block_on(&NETOBJ,d==~0ull?0:d,"epoll"); } }
int epoll_pwait(int ep,struct epoll_event* out,int max,int timeout,const sigset_t*){ return epoll_wait(ep,out,max,timeout); }
ssize_t read(int fd,void* b,size_t n){ Fd* f=get(fd); if(!f) return raw(raw_syscall(SYS_read,fd,(long)b,n)); point(16); if(f->kind==K_SOCK) return rcv(f,(char*)b,n,f->nonblock,false); if(n<8) RET(EINVAL); for(;;){ advance(f); if(f->cnt){ u64 v=f->sema?1:f->cnt; f->cnt-=v; memcpy(b,&v,8); hb_acquire(f); changed(f); return 8; } if(f->nonblock) RET(EAGAIN); waitfd(f,0,"read"); } }
ssize_t write(int fd,const void* b,size_t n){ Fd* f=get(fd); if(!f) return raw(raw_syscall(SYS_write,fd,(long)b,n)); point(16); if(f->kind==K_SOCK) return snd(f,(const char*)b,n,f->nonblock); if(f->kind!=K_EVENT||n<8) RET(EINVAL); u64 v; memcpy(&v,b,8); f->cnt+=v; hb_release(f); changed(f); return 8; }
int close(int fd){ Fd* f=get(fd); if(!f) return (int)raw(raw_syscall(SYS_close,fd)); point(16); if(f->kind==K_SOCK) vlog("  net: thr%d closes %d",cur->id,fd);
  if(f->kind==K_SOCK){ if(f->listening) for(int i=0;i<f->nback;i++){ Fd* c=&F[f->back[i]]; if(Fd* q=peer_of(c)){ enqueue(q,nullptr,0,now_ns(),false,true); } c->kind=K_FREE; }
    if(Fd* p=peer_of(f)){ if(f->rxn) enqueue(p,nullptr,0,now_ns(),false,true); else if(!f->wrshut) enqueue(p,nullptr,0,now_ns()+delay(f),true,false); } }
  f->kind=K_FREE; f->gen++; wake_obj(&NETOBJ,MAXT); return 0; }
int socket(int d,int t,int p) noexcept { if(!active) return (int)raw(raw_syscall(SYS_socket,d,t,p)); point(16); if(d==AF_INET6) RET(EAFNOSUPPORT); int fd=mk(K_SOCK); if(fd>=0) get(fd)->nonblock=t&SOCK_NONBLOCK; return fd; }
int bind(int fd,const struct sockaddr* a,socklen_t l) noexcept { Fd* f=get(fd); if(!f) return (int)raw(raw_syscall(SYS_bind,fd,(long)a,l)); point(16); u16 port=ntohs(((const sockaddr_in*)a)->sin_port); if(!port) port=next_port++; for(auto& x:F) if(x.kind==K_SOCK&&x.listening&&x.port==port) RET(EADDRINUSE); f->port=port; return 0; }
int listen(int fd,int n) noexcept { Fd* f=get(fd); if(!f) return (int)raw(raw_syscall(SYS_listen,fd,n)); point(16); f->listening=true; return 0; }
int connect(int fd,const struct sockaddr* a,socklen_t l){ Fd* f=get(fd); if(!f) return (int)raw(raw_syscall(SYS_connect,fd,(long)a,l)); point(16); if(f->connecting) RET(EALREADY); if(f->connected) RET(EISCONN); u16 port=ntohs(((const sockaddr_in*)a)->sin_port); Fd* L=nullptr; for(auto& x:F) if(x.kind==K_SOCK&&x.listening&&x.port==port) L=&x;
  f->err=0; f->connecting=true; f->conn_at=now_ns()+delay(f); vlog("  net: thr%d connects %d t=%llu",cur->id,fd,(unsigned long long)f->conn_at); f->refused=!L||L->nback>=NBACK; f->port=next_port++; f->pport=port;
  if(!f->refused){ int s=mk(K_SOCK); if(s<0) f->refused=true; else { Fd* c=get(s); c->connected=true; c->port=port; c->pport=f->port; c->peer=idx(f); c->peergen=f->gen; f->peer=idx(c); f->peergen=c->gen; L->back[L->nback]=idx(c); L->backat[L->nback]=f->conn_at+(nf(SF_ACCEPT_DELAY,f)?30000000ull:0); if(L->nback&&L->backat[L->nback]<L->backat[L->nback-1]) L->backat[L->nback]=L->backat[L->nback-1]; L->nback++; net_stat_conns++; changed(L); } }
  if(f->nonblock){ changed(f); RET(EINPROGRESS); } while(f->connecting){ advance(f); if(!f->connecting) break; waitfd(f,0,"connect"); } if(f->err){ int e=f->err; f->err=0; RET(e); } return 0; }
int accept4(int fd,struct sockaddr* a,socklen_t* l,int fl){ Fd* f=get(fd); if(!f) return (int)raw(raw_syscall(SYS_accept4,fd,(long)a,(long)l,fl)); point(16); for(;;){ if(f->nback&&f->backat[0]<=now_ns()){ int c=f->back[0]; for(int i=1;i<f->nback;i++){ f->back[i-1]=f->back[i]; f->backat[i-1]=f->backat[i]; } f->nback--; Fd* s=&F[c]; vlog("  net: accepted %d",FD0+c); s->nonblock=fl&SOCK_NONBLOCK; if(a){ sockaddr_in* x=(sockaddr_in*)a; memset(x,0,sizeof *x); x->sin_family=AF_INET; x->sin_port=htons(s->pport); x->sin_addr.s_addr=htonl(INADDR_LOOPBACK); if(l) *l=sizeof *x; } return FD0+c; } if(f->nonblock) RET(EAGAIN); waitfd(f,0,"accept"); } }
int accept(int fd,struct sockaddr* a,socklen_t* l){ return accept4(fd,a,l,0); }
ssize_t recvmsg(int fd,struct msghdr* m,int fl){ Fd* f=get(fd); if(!f) return raw(raw_syscall(SYS_recvmsg,fd,(long)m,fl)); point(16); m->msg_flags=0; for(size_t i=0;i<m->msg_iovlen;i++) if(m->msg_iov[i].iov_len) return rcv(f,(char*)m->msg_iov[i].iov_base,m->msg_iov[i].iov_len,f->nonblock||(fl&MSG_DONTWAIT),fl&MSG_PEEK); return rcv(f,nullptr,0,true,false); }
ssize_t recv(int fd,void* b,size_t n,int fl){ Fd* f=get(fd); if(!f) return raw(raw_syscall(SYS_recvfrom,fd,(long)b,n,fl,0,0)); point(16); return rcv(f,(char*)b,n,f->nonblock||(fl&MSG_DONTWAIT),fl&MSG_PEEK); }
ssize_t recvfrom(int fd,void* b,size_t n,int fl,struct sockaddr*,socklen_t*){ return recv(fd,b,n,fl); }
ssize_t sendmsg(int fd,const struct msghdr* m,int fl){ Fd* f=get(fd); if(!f) return raw(raw_syscall(SYS_sendmsg,fd,(long)m,fl)); point(16); ssize_t t=0; bool nb=f->nonblock||(fl&MSG_DONTWAIT); for(size_t i=0;i<m->msg_iovlen;i++){ if(!m->msg_iov[i].iov_len) continue; ssize_t r=snd(f,(const char*)m->msg_iov[i].iov_base,m->msg_iov[i].iov_len,nb||t>0); if(r<0) return t?t:-1; t+=r; if((size_t)r<m->msg_iov[i].iov_len) break; } return t; }
ssize_t send(int fd,const void* b,size_t n,int fl){ Fd* f=get(fd); if(!f) return raw(raw_syscall(SYS_sendto,fd,(long)b,n,fl,0,0)); point(16); return snd(f,(const char*)b,n,f->nonblock||(fl&MSG_DONTWAIT)); }
ssize_t sendto(int fd,const void* b,size_t n,int fl,const struct sockaddr*,socklen_t){ return send(fd,b,n,fl); }
ssize_t readv(int fd,const struct iovec* v,int n){ if(!get(fd)) return raw(raw_syscall(SYS_readv,fd,(long)v,n)); msghdr m{}; m.msg_iov=(iovec*)v; m.msg_iovlen=n; return recvmsg(fd,&m,0); }
ssize_t writev(int fd,const struct iovec* v,int n){ if(!get(fd)) return raw(raw_syscall(SYS_writev,fd,(long)v,n)); msghdr m{}; m.msg_iov=(iovec*)v; m.msg_iovlen=n; return sendmsg(fd,&m,0); }
int shutdown(int fd,int how) noexcept { Fd* f=get(fd); if(!f) return (int)raw(raw_syscall(SYS_shutdown,fd,how)); point(16); if(!f->connected) RET(ENOTCONN); if(how!=SHUT_RD&&!f->wrshut){ f->wrshut=true; if(Fd* p=peer_of(f)) enqueue(p,nullptr,0,now_ns(),true,false); } if(how!=SHUT_WR) f->eof=true; changed(f); return 0; }
int getsockopt(int fd,int lv,int o,void* v,socklen_t* l) noexcept { Fd* f=get(fd); if(!f) return (int)raw(raw_syscall(SYS_getsockopt,fd,lv,o,(long)v,(long)l)); point(16); advance(f); int r=0; if(lv==SOL_SOCKET&&o==SO_ERROR){ r=f->err; f->err=0; if(r==ECONNREFUSED){ f->connected=false; } } else if(lv==SOL_SOCKET&&o==SO_TYPE) r=SOCK_STREAM; if(*l>=4){ memcpy(v,&r,4); *l=4; } return 0; }
int setsockopt(int fd,int lv,int o,const void* v,socklen_t l) noexcept { Fd* f=get(fd); if(!f) return (int)raw(raw_syscall(SYS_setsockopt,fd,lv,o,(long)v,l)); point(16); return 0; }
int getsockname(int fd,struct sockaddr* a,socklen_t* l) noexcept { Fd* f=get(fd); if(!f) return (int)raw(raw_syscall(SYS_getsockname,fd,(long)a,(long)l)); sockaddr_in* x=(sockaddr_in*)a; memset(x,0,sizeof *x); x->sin_family=AF_INET; x->sin_port=htons(f->port); x->sin_addr.s_addr=htonl(INADDR_LOOPBACK); *l=sizeof *x; return 0; }
int getpeername(int fd,struct sockaddr* a,socklen_t* l) noexcept { Fd* f=get(fd); if(!f) return (int)raw(raw_syscall(SYS_getpeername,fd,(long)a,(long)l)); if(!f->connected) RET(ENOTCONN); sockaddr_in* x=(sockaddr_in*)a; memset(x,0,sizeof *x); x->sin_family=AF_INET; x->sin_port=htons(f->pport); x->sin_addr.s_addr=htonl(INADDR_LOOPBACK); *l=sizeof *x; return 0; }
int ioctl(int fd,unsigned long rq,...) noexcept { va_list ap; va_start(ap,rq); void* p=va_arg(ap,void*); va_end(ap); Fd* f=get(fd); if(!f) return (int)raw(raw_syscall(SYS_ioctl,fd,rq,(long)p)); point(16); if(rq==FIONBIO) f->nonblock=*(int*)p; else if(rq==FIONREAD){ advance(f); *(int*)p=f->rxn; } return 0; }
int fcntl(int fd,int c,...){ va_list ap; va_start(ap,c); long p=va_arg(ap,long); va_end(ap); Fd* f=get(fd); if(!f) return (int)raw(raw_syscall(SYS_fcntl,fd,c,p)); if(c==F_GETFL) return O_RDWR|(f->nonblock?O_NONBLOCK:0); if(c==F_SETFL) f->nonblock=p&O_NONBLOCK; return 0; }
int poll(struct pollfd* v,nfds_t n,int timeout){ bool any=false; for(nfds_t i=0;i<n;i++) if(get(v[i].fd)) any=true; if(!any||!active) return (int)raw(raw_syscall(SYS_poll,(long)v,n,timeout)); point(16); u64 dl=timeout>0?now_ns()+(u64)timeout*1000000ull:0;
  for(;;){ int r=0; u64 d=dl?dl:~0ull; for(nfds_t i=0;i<n;i++){ v[i].revents=0; Fd* f=get(v[i].fd); if(!f){ v[i].revents=POLLNVAL; r++; continue; } u32 e=evs(f); short o=0; if(e&EPOLLIN) o|=POLLIN; if(e&EPOLLOUT) o|=POLLOUT; if(e&EPOLLERR) o|=POLLERR; if(e&EPOLLHUP) o|=POLLHUP; o&=(v[i].events|POLLERR|POLLHUP); v[i].revents=o; if(o) r++; u64 na=next_at(f); if(na<d) d=na; } if(r||timeout==0) return r; if(dl&&now_ns()>=dl) return 0; block_on(&NETOBJ,d==~0ull?0:d,"poll"); } }
// name resolution: numeric addresses and localhost
struct RA { addrinfo ai; sockaddr_in sa; };
static RA ras[32]; static int nra;
int getaddrinfo(const char* node,const char* svc,const struct addrinfo* h,struct addrinfo** res){ point(16); u32 ip=htonl(INADDR_LOOPBACK); if(node&&strcmp(node,"localhost")){ in_addr a; if(inet_pton(AF_INET,node,&a)!=1) return EAI_NONAME; ip=a.s_addr; } RA* r=&ras[nra++%32]; memset(r,0,sizeof *r); r->sa.sin_family=AF_INET; r->sa.sin_addr.s_addr=ip; r->sa.sin_port=htons((u16)(svc?atoi(svc):0)); r->ai.ai_family=AF_INET; r->ai.ai_socktype=SOCK_STREAM; r->ai.ai_protocol=IPPROTO_TCP; r->ai.ai_addrlen=sizeof r->sa; r->ai.ai_addr=(sockaddr*)&r->sa; *res=&r->ai; (void)h; return 0; }
void freeaddrinfo(struct addrinfo*) noexcept {}
}
