// P09: reported queue sizes and maxima.
#include "pools.hpp"
#include <boost/asynchronous/queue/queue_converter.hpp>
#include <boost/asynchronous/post.hpp>
#include <numeric>
namespace {
struct E { token tok; int v; E(int i=0):tok(i),v(i){} };
typedef ba::any_queue_concept<E> Q; typedef std::shared_ptr<Q> QP; template<class C> using cfg=ba::any_queue_container_config<C>;
enum { SPSC=1,NOMAX=2,MULTI=4 };
struct qk { const char* name; QP (*make)(); unsigned fl; };
const qk qs[]={
 {"lockfree-size",[]{ return QP(std::make_shared<ba::lockfree_queue<E,ba::lockfree_size>>(2)); },NOMAX},
 {"lockfree-max",[]{ return QP(std::make_shared<ba::lockfree_queue<E,ba::lockfree_size_max_size>>()); },0},
 {"stack-max",[]{ return QP(std::make_shared<ba::lockfree_stack<E,ba::lockfree_size_max_size>>()); },0},
 {"stack-size",[]{ return QP(std::make_shared<ba::lockfree_stack<E,ba::lockfree_size>>()); },NOMAX},
 {"spsc-max",[]{ return QP(std::make_shared<ba::lockfree_spsc_queue<E,ba::lockfree_size_max_size>>(32)); },SPSC},
 {"guarded",[]{ return QP(std::make_shared<ba::guarded_deque<E>>()); },0},
 {"circular",[]{ return QP(std::make_shared<ba::circular_queue<E>>(2)); },NOMAX},
 {"container",[]{ return QP(std::make_shared<ba::any_queue_container<E>>(cfg<ba::lockfree_queue<E,ba::lockfree_size_max_size>>(1),cfg<ba::guarded_deque<E>>(1))); },MULTI},
};
long sum(std::vector<std::size_t> const& v){ long r=0; for(auto x:v){ if((long)x<0||x>1000000) return -1; r+=x; } return r; }
struct ev { int push; uint64_t call,ret; bool ok; };   // a push or a pop
struct H { ev e[64]; int n=0; uint64_t clk=0; uint64_t tick(){ return ++clk; } 
  long pushes_started(uint64_t t){ long r=0; for(int i=0;i<n;i++) if(e[i].push&&e[i].call<t) r++; return r; } long pushes_done(uint64_t t){ long r=0; for(int i=0;i<n;i++) if(e[i].push&&e[i].ret<t) r++; return r; }
  long pops_started(uint64_t t){ long r=0; for(int i=0;i<n;i++) if(!e[i].push&&e[i].call<t&&(e[i].ok||e[i].ret==~0ull)) r++; return r; } long pops_done(uint64_t t){ long r=0; for(int i=0;i<n;i++) if(!e[i].push&&e[i].ok&&e[i].ret<t) r++; return r; } };
void queue_run(){ const qk& k=qs[sim_pick(sizeof qs/sizeof*qs)]; sim_probe(k.name,1); QP q=k.make(); H h; ba::queue_converter<E,E> conv{ba::any_queue_ptr<E>(q)};
  int nt=2+sim_pick(2); std::vector<std::vector<int>> plan(nt); int tot=0; for(int t=0;t<nt;t++){ int n=2+sim_pick(6); for(int i=0;i<n;i++,tot++) plan[t].push_back((k.fl&SPSC)?(t==0?0:1):(int)sim_pick(2)); if((k.fl&SPSC)&&t>1) plan[t].clear(); }
  auto exec=[&](int kd){ int i; { sim::atomic_section s; i=h.n++; h.e[i]={kd==0,h.tick(),~0ull,true}; } bool ok=true; if(kd==0){ if(i&1) q->push(E(i)); else q->push(E(i),1+i%3); } else { E e; ok=(i&1)||(k.fl&SPSC)?q->try_pop(e):q->try_steal(e); } { sim::atomic_section s; h.e[i].ok=ok; h.e[i].ret=h.tick(); } };
  // one thread owns the maximum: it alone queries and resets it
  uint64_t rc=0,rr=0; int nq=1+sim_pick(6); 
  auto query=[&](bool use_conv){ uint64_t a,b; { sim::atomic_section s; a=h.tick(); } long v=sum(use_conv?conv.get_queue_size():q->get_queue_size()); { sim::atomic_section s; b=h.tick(); }
    sim::atomic_section s; long hi=h.pushes_started(b)-h.pops_done(a), lo=h.pushes_done(a)-h.pops_started(b); if(lo<0) lo=0; if(v<lo||v>hi) sim_fail("wrong-size","%s%s: reported size %ld, possible %ld..%ld",k.name,use_conv?" (converted)":"",v,lo,hi); };
  auto qmax=[&](bool use_conv){ if(k.fl&NOMAX) return; uint64_t a,b; { sim::atomic_section s; a=h.tick(); } auto vec=use_conv?conv.get_max_queue_size():q->get_max_queue_size(); long v=sum(vec); { sim::atomic_section s; b=h.tick(); }
    sim::atomic_section s; uint64_t from=rc; for(int i=0;i<h.n;i++) if(h.e[i].push&&h.e[i].call<rr&&h.e[i].ret>rc&&h.e[i].call<from) from=h.e[i].call;
    long hi=0,lo=0; for(uint64_t t=from;t<=b;t++){ long u=h.pushes_started(t+1)-h.pops_done(t); if(u>hi) hi=u; } if(k.fl&MULTI) hi=h.pushes_started(b);
    // sizes proved: at the return of a push which began after the reset, when every overlapping push is over
    if(!(k.fl&MULTI)) for(int i=0;i<h.n;i++){ ev& x=h.e[i]; if(!x.push||x.call<rr||x.ret>a) continue; bool ov=false; for(int j=0;j<h.n;j++) if(h.e[j].push&&h.e[j].call<x.ret&&h.e[j].ret>a) ov=true; if(ov) continue; long l=h.pushes_done(x.ret+1)-h.pops_started(x.ret); if(l>lo) lo=l; }
    if(v<lo||v>hi) sim_fail("wrong-max","%s: reported maximum %ld, possible %ld..%ld",k.name,v,lo,hi); };
  { std::vector<client> cs; for(int t=0;t<nt;t++) cs.emplace_back([&,t]{ for(int kd:plan[t]) exec(kd); }); 
    cs.emplace_back([&]{ for(int i=0;i<nq;i++){ switch(sim_pick(4)){ case 0: query(false); break; case 1: query(true); break; case 2: qmax(sim_pick(2)); break; default: { uint64_t c; { sim::atomic_section s; c=h.tick(); } q->reset_max_queue_size(); sim::atomic_section s; rc=c; rr=h.tick(); } } if(sim_pick(2)) sim_sleep(sim::ms); } });
    for(auto& c:cs) c.join(); }
  query(false); query(true); qmax(false); qmax(true); long left=h.pushes_started(~0ull)-h.pops_done(~0ull);
  if(!(k.fl&NOMAX)){ uint64_t c=h.tick(); if(sim_pick(2)) q->reset_max_queue_size(); else conv.reset_max_queue_size(); rc=c; rr=h.tick(); if(k.fl&MULTI){ long v=sum(q->get_max_queue_size()); if(v>left) sim_fail("wrong-max","%s: maximum %ld after a reset with %ld waiting",k.name,v,left); } qmax(false); exec(0); qmax(false); }
  for(long i=0;i<left+2;i++){ exec(1); query(false); } qmax(false); q.reset(); }
// schedulers: workers blocked by gate jobs, so the jobs waiting are known exactly
struct pkk { const char* name; pool_t (*make)(int); bool single; int max; };   // max: 0 none, 1 exact
template<class C> pool_t mp(int n){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<C>>(n); }
const pkk ps[]={
 {"single/guarded",[](int){ return (pool_t)ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::guarded_deque<job_t>>>(); },true,1},
 {"single/circular",[](int){ return (pool_t)ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::circular_queue<job_t>>>(1); },true,0},
 {"pool/lockfree-max",&mp<ba::lockfree_queue<job_t,ba::lockfree_size_max_size>>,false,1},
 {"pool/lockfree-size",&mp<ba::lockfree_queue<job_t,ba::lockfree_size>>,false,0},
 {"pool/container",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::any_queue_container<job_t>>>(n,ba::any_queue_container_config<ba::guarded_deque<job_t>>(1),ba::any_queue_container_config<ba::lockfree_queue<job_t,ba::lockfree_size_max_size>>(2)); },false,1},
 {"multiqueue/max",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<ba::lockfree_queue<job_t,ba::lockfree_size_max_size>>>(n); },false,1},
 {"multiqueue/guarded",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<ba::guarded_deque<job_t>>>(n); },false,1},
 {"stealing/guarded",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<ba::guarded_deque<job_t>,ba::default_save_cpu_load<10,80000,5000>,true>>(n); },false,1},
 {"stealing-mq/max",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<ba::lockfree_queue<job_t,ba::lockfree_size_max_size>,ba::default_find_position<>,ba::default_save_cpu_load<10,80000,5000>,true>>(n); },false,1},
 {"multiple/guarded",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::guarded_deque<job_t>>>(n,n); },false,2},
};
void pool_run(){ const pkk& k=ps[sim_pick(sizeof ps/sizeof*ps)]; sim_probe(k.name,1); int nw=k.single?1:1+sim_pick(3); int ran=0; int nj[4]={0,0,0,0}; int rounds=1+sim_pick(3);
  { pool_t pool=k.make(nw); for(int r=0;r<rounds;r++){ std::shared_ptr<std::promise<void>> open(new std::promise<void>); std::shared_future<void> of(open->get_future()); int started=0;
    for(int i=0;i<nw;i++) pool.post(job_t([&started,of]{ { sim::atomic_section s; started++; } of.wait(); }),k.max==2?(size_t)i*100000:0);
    if(!wait_for([&]{ return started==nw; },200,10*sim::ms)) sim_fail("stuck","gate jobs do not start");
    pool.reset_max_queue_size(); int nc=1+sim_pick(2); int total=0; ran=0; std::vector<int> cnt; for(int c=0;c<nc;c++){ cnt.push_back(sim_pick(6)); total+=cnt[c]; }
    int servants=nw; { std::vector<client> cs; for(int c=0;c<nc;c++) cs.emplace_back([&,c]{ for(int i=0;i<cnt[c];i++){ size_t p=k.max==2?sim_pick(servants)*100000:sim_pick(4); pool.post(job_t([&ran]{ sim::atomic_section s; ran++; }),p); long v=sum(pool.get_queue_size()); if(v<i+1||v>total) sim_fail("wrong-size","%s: size %ld after posting %d of %d jobs",k.name,v,i+1,total); } }); for(auto& c:cs) c.join(); }
    long v=sum(pool.get_queue_size()); if(v!=total) sim_fail("wrong-size","%s: %ld reported, %d waiting",k.name,v,total);
    if(k.max){ long m=sum(pool.get_max_queue_size()); if(m!=total) sim_fail("wrong-max","%s: maximum %ld reported, %d reached since the reset",k.name,m,total); }
    client q([&]{ for(int i=0;i<5;i++){ long v; int r0; { sim::atomic_section s; r0=ran; } v=sum(pool.get_queue_size()); if(v<0||v>total-r0) sim_fail("wrong-size","%s: size %ld while at most %d wait",k.name,v,total-r0); } });
    open->set_value(); q.join(); if(!wait_for([&]{ return ran==total; },200,10*sim::ms)) sim_fail("stuck","jobs do not run");
    if(!wait_for([&]{ return sum(pool.get_queue_size())==0; },3,20*sim::ms)) sim_fail("wrong-size","%s: %ld reported, nothing waiting",k.name,sum(pool.get_queue_size()));
    if(k.max){ long m=sum(pool.get_max_queue_size()); if(m!=total) sim_fail("wrong-max","%s: maximum %ld reported after draining, %d reached since the reset",k.name,m,total); pool.reset_max_queue_size(); m=sum(pool.get_max_queue_size()); if(m!=0) sim_fail("wrong-max","%s: maximum %ld after a reset of an empty queue",k.name,m); }
  } } }
}
SIM_SCENARIO(P09,queues,0,10){ queue_run(); expect_no_leak("elements"); }
SIM_SCENARIO(P09,schedulers,0,5){ pool_run(); }
