// P06: schedulers terminate cleanly, weak references never revive them.
#include "pools.hpp"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/post.hpp>
namespace {
typedef ba::any_weak_scheduler<job_t> weak_t; typedef ba::scheduler_weak_proxy<job_t> wproxy_t;
struct W { int accepted=0, ran=0; int last_done=0; uint64_t t_done=0; int holders=0; bool gone=false; uint64_t t_drop=0; bool dropped=false; int maxlive=0; };
void ran(W* w){ sim::atomic_section s; w->ran++; w->t_done=sim_now(); sim_event("ran",w->ran,0); }
struct job { W* w; int d; weak_t weak; int depth; std::shared_ptr<token> tok; void operator()(){ tok->check("run"); if(d) boost::this_thread::sleep_for(boost::chrono::milliseconds(d*3)); if(depth>0){ auto l=weak.lock(); if(l.is_valid()){ { sim::atomic_section s; w->accepted++; } l.post(job_t(job{w,0,weak,depth-1,tok})); } } ran(w); if(d==3) throw sim_error(1); } };
struct op{ int kind,d; };
// clients use weak references while the owner is dropped at a random moment from a random place
void run_weak(pool_kind* k){
  W w; auto tok=std::make_shared<token>(1); int nc=1+sim_pick(3); if(k->flags&PK_SPSC) nc=1; std::vector<std::vector<op>> plan(nc); for(auto& p:plan){ int n=1+sim_pick(5); for(int i=0;i<n;i++) p.push_back({(int)sim_pick(6),(int)sim_pick(4)}); }
  int where=sim_pick(4), dd=sim_pick(4); int nown=1+sim_pick(2);
  { pool_t pool=k->make(1+sim_pick(3)); auto ids=pool.thread_ids(); weak_t weak=pool.get_weak_scheduler(); wproxy_t wp(pool);
    std::vector<client> cs; for(int c=0;c<nc;c++) cs.emplace_back([&,c,weak,wp]()mutable{ for(auto& o:plan[c]){
        bool was_gone; { sim::atomic_section s; was_gone=w.gone; }
        if(o.kind<=2){ auto l=weak.lock(); if(l.is_valid()){ if(was_gone) sim_fail("revived","weak reference locked after the scheduler was joined"); { sim::atomic_section s; w.accepted++; w.holders++; }
            if(o.d) sim_sleep(o.d*2*sim::ms); 
            if(o.kind==2) { auto h=l.interruptible_post(job_t(job{&w,o.d,weak,0,tok})); (void)h; } else l.post(job_t(job{&w,o.d,weak,(k->flags&PK_SPSC)?0:o.kind,tok}));
            if(!(k->flags&PK_DYN)&&l.thread_ids()!=ids) sim_fail("broken-lock","a locked scheduler reports other threads"); 
            if(sim_pick(3)==2){ // kept alive for as long as it is held: its jobs run while we hold it
              int target; { sim::atomic_section s; target=w.accepted; } (void)target; auto pr=std::make_shared<std::promise<void>>(); auto f=pr->get_future(); { sim::atomic_section s; w.accepted++; } W* ww=&w; l.post(job_t([ww,pr]{ ran(ww); pr->set_value(); })); for(int i=0;i<300&&f.wait_for(std::chrono::seconds(0))!=std::future_status::ready;i++) sim_sleep(10*sim::ms); if(f.wait_for(std::chrono::seconds(0))!=std::future_status::ready) sim_fail("dead-lock-holder","job posted through a held lock does not run"); sim_probe("held until done",1); }
            { sim::atomic_section s; w.holders--; } } else { sim_probe("lock failed",1); sim::atomic_section s; if(!w.dropped) sim_fail("lost-lock","weak reference of a living scheduler cannot be locked"); } }
        else if(o.kind==3){ auto p=wp.lock(); if(p.is_valid()){ if(was_gone) sim_fail("revived","weak proxy locked after the scheduler was joined"); { sim::atomic_section s; w.accepted++; } p.post(job_t(job{&w,o.d,weak,0,tok})); } else { sim::atomic_section s; if(!w.dropped) sim_fail("lost-lock","weak proxy of a living scheduler cannot be locked"); } }
        else sim_sleep(o.d*3*sim::ms); } });
    auto drop=[&w,&k](pool_t p,int delay,int n)mutable{ if(delay) sim_sleep(delay*4*sim::ms); { sim::atomic_section s; w.dropped=true; } p.reset(); };
    if(k->flags&PK_SPSC){ for(auto& c:cs) c.join(); { sim::atomic_section s; w.dropped=true; } pool.reset(); }
    else switch(where){
     case 0: drop(std::move(pool),dd,0); break;
     case 1: { client t([&drop,p=std::move(pool),dd]()mutable{ drop(std::move(p),dd,0); }); break; }
     case 2: { pool_t other=pool_pick(0,PK_SPSC)->make(1); auto h=std::make_shared<pool_t>(std::move(pool)); auto f=ba::post_future(other,[&drop,h,dd]()mutable{ drop(std::move(*h),dd,0); h.reset(); }); h.reset(); f.get(); sim_probe("dropped by a job of another pool",1); break; }
     default: { // several owners in several threads
       { client t1([&w,p=pool,dd]()mutable{ sim_sleep(dd*2*sim::ms); { sim::atomic_section s; w.dropped=true; } p.reset(); }); client t2([&w,p=std::move(pool),dd]()mutable{ sim_point(); { sim::atomic_section s; w.dropped=true; } p.reset(); }); } } }
    for(auto& c:cs) c.join();
    // whoever dropped the last owner has joined the workers by now
    bool joined=wait_for([&]{ return sim_live_threads()==1; },20,100*sim::ms);
    if(!joined) sim_fail("threads-left","%d threads still run after the scheduler was dropped and released",sim_live_threads()-1);
    { sim::atomic_section s; w.gone=true; if(w.accepted!=w.ran) sim_fail("job-lost","%d jobs accepted, %d ran",w.accepted,w.ran); }
    if(weak.lock().is_valid()) sim_fail("revived","weak reference still locks"); if(wp.lock().is_valid()) sim_fail("revived","weak proxy still locks");
  }
  tok.reset(); expect_no_leak("jobs");
}
struct Servant : ba::trackable_servant<> { typedef int requires_weak_scheduler; Servant(ba::any_weak_scheduler<> s,pool_t p):ba::trackable_servant<>(s,p){}
  std::function<void(int)> cb(W* w){ return make_safe_callback([w](int){ ran(w); }); } int cycle(W* w,int n){ for(int i=0;i<n;i++){ { sim::atomic_section s; w->accepted++; } post_callback([w]{ ran(w); },[](ba::expected<void>){ sim_point(); }); } return n; } };
struct Proxy : ba::servant_proxy<Proxy,Servant> { template<class S> Proxy(S s,pool_t p):ba::servant_proxy<Proxy,Servant>(s,p){} BOOST_ASYNC_FUTURE_MEMBER(cb) BOOST_ASYNC_FUTURE_MEMBER(cycle) };
}
SIM_SCENARIO(P06,weak_users,0,10){ pool_kind* k=pool_pick(); sim_probe(k->name,1); run_weak(k); }
// creation and destruction of several pools, plain or nested in each other's jobs: the threads end, in bounded time, before the drop returns
SIM_SCENARIO(P06,drop_joins,SIM_NO_CLOCKJUMP,6){
  W w; int n=1+sim_pick(3); std::vector<pool_t> ps; for(int i=0;i<n;i++){ pool_kind* k=pool_pick(); sim_probe(k->name,1); ps.push_back(k->make(1+sim_pick(3))); }
  auto tok=std::make_shared<token>(1); int nj=sim_pick(5); for(int i=0;i<nj;i++){ w.accepted++; pool_t& p=ps[sim_pick(n)]; p.post(job_t(job{&w,(int)sim_pick(3),p.get_weak_scheduler(),0,tok})); }
  if(sim_pick(3)==0&&n>1){ // nested: a job of one pool owns the next
    for(int i=0;i+1<n;i++){ auto h=std::make_shared<pool_t>(ps[i+1]); ps[i].post(job_t([h]()mutable{ sim_point(); h.reset(); })); } sim_probe("pools owned by jobs",1); }
  if(sim_pick(2)) sim_sleep(20*sim::ms);
  uint64_t t0=sim_now(); ps.clear(); uint64_t t1=sim_now();
  if(sim_live_threads()!=1) sim_fail("not-joined","%d worker threads still run after the owner's destructor returned",sim_live_threads()-1);
  if(w.accepted!=w.ran) sim_fail("job-lost","%d jobs accepted, %d ran",w.accepted,w.ran);
  uint64_t from=w.t_done>t0?w.t_done:t0; if(t1-from>sim::sec) sim_fail("slow-shutdown","shutdown took %llu ms after the last job",(unsigned long long)((t1-from)/sim::ms));
  tok.reset(); expect_no_leak("jobs"); }
// a servant's scheduler and pool go away together; what was handed out does nothing afterwards
SIM_SCENARIO(P06,servant,0,4){
  W w; std::function<void(int)> cb; weak_t ws,wpool; int n=sim_pick(5); int order=sim_pick(3); int before=sim_pick(3);
  { pool_kind* k=pool_pick(PK_SINGLE,PK_SPSC); pool_kind* k2=pool_pick(0,PK_SPSC); sim_probe(k2->name,1); pool_t sched=k->make(1), pool=k2->make(1+sim_pick(3)); ws=sched.get_weak_scheduler(); wpool=pool.get_weak_scheduler();
    std::unique_ptr<Proxy> p(new Proxy(sched,pool)); auto f=p->cb(&w); cb=f.get(); if(order==0){ sched.reset(); pool.reset(); } p->cycle(&w,n).get(); for(int i=0;i<before;i++){ { sim::atomic_section s; w.accepted++; } cb(i); }
    if(order==1) p.reset(); 
    wait_for([&]{ return w.accepted==w.ran; },order==1?5:100); if(order!=1&&w.accepted!=w.ran) sim_fail("job-lost","%d of %d jobs of a living servant ran",w.ran,w.accepted); }
  if(!wait_for([&]{ return sim_live_threads()==1; },20,100*sim::ms)) sim_fail("threads-left","%d threads left",sim_live_threads()-1);
  if(ws.lock().is_valid()||wpool.lock().is_valid()) sim_fail("revived","weak reference locks a dead scheduler");
  int r=w.ran; cb(1); cb(2); sim_sleep(50*sim::ms); if(w.ran!=r) sim_fail("revived","safe callback ran after its scheduler died"); }
