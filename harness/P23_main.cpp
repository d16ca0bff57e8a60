// P23: the I/O thread pool grows and shrinks within its bounds and loses no job.
#include "pools.hpp"
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
namespace {
enum { MAXJ=64 };
struct io_kind { const char* name; bool grows; pool_t (*make)(int,int); };
template<class Q> pool_t mk(int a,int b){ return ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<Q>>(a,b); }
typedef ba::any_queue_container_config<ba::lockfree_queue<job_t,ba::lockfree_size>> c_lf; typedef ba::any_queue_container_config<ba::guarded_deque<job_t>> c_gd;
const io_kind kinds[]={
 {"io/guarded",true,&mk<ba::guarded_deque<job_t>>},
 {"io/lockfree",true,&mk<ba::lockfree_queue<job_t,ba::lockfree_size>>},
 {"io/named",true,[](int a,int b){ return (pool_t)ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<ba::guarded_deque<job_t>>>(a,b,std::string("io")); }},
 {"io/busy",true,[](int a,int b){ return (pool_t)ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<ba::guarded_deque<job_t>,ba::no_cpu_load_saving>>(a,b); }},
 {"io/container",true,[](int a,int b){ return (pool_t)ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<ba::any_queue_container<job_t>>>(a,b,c_gd(1),c_lf(1)); }},
 {"io/nosize",false,&mk<ba::lockfree_queue<job_t>>} };
struct J { int accepted=0,ran=0,done=0; };
struct world { J j[MAXJ]; int n=0, running=0, peak=0, max=0; bool gated_only=true; int add(){ sim::atomic_section s; if(n>=MAXJ) return -1; int i=n++; j[i]=J(); j[i].accepted=1; return i; } };
world* w;
struct job { int id; int dur; bool thr; std::shared_ptr<token> tok; std::shared_ptr<std::shared_future<void>> gate; ba::any_weak_scheduler<job_t> weak; int kids;
  void operator()(){ { sim::atomic_section s; tok->check("run"); J& x=w->j[id]; if(++x.ran>1) sim_fail("job-ran-twice","job %d ran %d times",id,x.ran); if(++w->running>w->max) sim_fail("too-many","%d jobs run at the same time in a pool of at most %d threads",w->running,w->max); if(w->running>w->peak) w->peak=w->running; sim_event("run",id,w->running); }
    if(gate) gate->wait(); if(dur) sim_sleep(dur*sim::ms);
    for(int i=0;i<kids;i++){ auto l=weak.lock(); if(!l.is_valid()) break; int c=w->add(); if(c>=0) l.post(job_t(job{c,0,false,tok,gate,{},0})); }
    { sim::atomic_section s; w->running--; w->j[id].done=1; }
    if(thr) throw sim_error(id); } };
int running(){ sim::atomic_section s; return w->running; } int waiting(){ sim::atomic_section s; int r=0; for(int i=0;i<w->n;i++) r+=!w->j[i].ran; return r; }
bool all_done(){ for(int i=0;i<w->n;i++) if(!w->j[i].done) return false; return true; }
void check_done(){ sim::atomic_section s; for(int i=0;i<w->n;i++) if(w->j[i].ran!=1) sim_fail("job-lost","job %d was accepted but never ran",i); }
struct pools_ { int mn,mx; const io_kind* k; pool_t p; };
pools_ make(){ pools_ r; r.mn=1+sim_pick(3); r.mx=r.mn+sim_pick(4); r.k=&kinds[sim_pick(6)]; sim_probe(r.k->name,1); w->max=r.mx; bool swapped=sim_pick(6)==5; r.p=swapped?r.k->make(r.mx,r.mn):r.k->make(r.mn,r.mx); return r; }
}
// blocking jobs: the pool grows while jobs wait, everything runs in the end, surplus threads go away
SIM_SCENARIO(P23,growth,0,10){ world W; w=&W; auto tok=std::make_shared<token>(1); int before=sim_live_threads(); bool fail_create=sim_pick(4)==3;
  { pools_ q=make(); std::promise<void> open; auto gate=std::make_shared<std::shared_future<void>>(open.get_future().share()); int rounds=1+sim_pick(3);
    for(int r=0;r<rounds;r++){ open=std::promise<void>(); gate=std::make_shared<std::shared_future<void>>(open.get_future().share()); W.peak=0;
      int pre=sim_pick(5); for(int i=0;i<pre;i++){ int id=W.add(); if(id<0) break; q.p.post(job_t(job{id,(int)sim_pick(2)*3,sim_pick(4)==3,tok,nullptr,{},0})); } if(sim_pick(2)) { if(!wait_for([&]{ return all_done(); },200,1*sim::ms)) sim_fail("job-starved","jobs do not run although nothing blocks the pool"); }
      int k=1+sim_pick(q.mx+2); int np=fail_create?1:1+sim_pick(2); bool mixed=pre&&!all_done(); int first=W.n;
      { std::vector<client> cs; for(int c=0;c<np;c++) cs.emplace_back([&,c]{ if(fail_create) sim_fault_budget(SF_THREADCREATE,2); for(int i=c;i<k;i+=np){ int id=W.add(); if(id<0) break; if(sim_pick(4)==3) sim_sleep(sim_pick(12)*sim::ms); job jb{id,0,sim_pick(6)==5,tok,gate,q.p.get_weak_scheduler(),sim_pick(8)==7?1:0}; if(sim_pick(4)==3){ auto h=q.p.interruptible_post(job_t(jb)); (void)h; } else q.p.post(job_t(jb)); } if(fail_create) sim_fault_budget(SF_THREADCREATE,0); }); for(auto& c:cs) c.join(); }
      bool ok=wait_for([&]{ return running()==q.mx||waiting()==0; },200,5*sim::ms); (void)mixed;
      // a post creates a thread while more than one job waits: never more than one is left waiting below the maximum
      if(!ok&&q.k->grows&&!fail_create&&waiting()>1) { sim::atomic_section s; sim_fail("did-not-grow","%d jobs wait although only %d of at most %d threads are blocked",waiting(),W.running,q.mx); }
      if(!ok&&running()<q.mn) sim_fail("did-not-grow","%d jobs wait although only %d of %d permanent threads are blocked",waiting(),running(),q.mn);
      if(running()>q.mn) sim_probe("grew",1); if(running()==q.mx) sim_probe("reached its maximum",1);
      open.set_value();
      if(!wait_for([&]{ return all_done(); },300)) sim_fail("job-starved","job%s wait although no thread is blocked"," "); (void)first;
      if(sim_pick(2)){ sim_sleep(1*sim::sec); auto ids=q.p.thread_ids(); if((int)ids.size()!=q.mn) sim_fail("did-not-shrink","the idle pool reports %zu threads, its minimum is %d",ids.size(),q.mn); if(sim_live_threads()!=before+q.mn) sim_fail("did-not-shrink","the idle pool has %d threads, its minimum is %d",sim_live_threads()-before,q.mn); sim_probe("shrank",1); } }
    }
  check_done(); if(sim_live_threads()!=before) sim_fail("thread-leak","%d threads outlive the pool",sim_live_threads()-before);
  tok.reset(); expect_no_leak("jobs"); }
// destruction at a random moment
SIM_SCENARIO(P23,shutdown,0,6){ world W; w=&W; auto tok=std::make_shared<token>(1); int before=sim_live_threads();
  { pools_ q=make(); int np=1+sim_pick(3); bool own=sim_pick(2); std::vector<int> n(np); for(auto& x:n) x=1+sim_pick(6); std::promise<void> open; auto gate=std::make_shared<std::shared_future<void>>(open.get_future().share()); bool blocked=sim_pick(2);
    { std::vector<client> cs; for(int c=0;c<np;c++) cs.emplace_back([&,c,p=q.p]()mutable{ auto weak=p.get_weak_scheduler(); for(int i=0;i<n[c];i++){ int id=W.add(); if(id<0) break; job jb{id,(int)sim_pick(3)*2,sim_pick(5)==4,tok,blocked&&sim_pick(2)?gate:nullptr,weak,sim_pick(3)==2?(int)sim_pick(3):0}; if(sim_pick(3)==2){ auto h=p.interruptible_post(job_t(jb)); (void)h; } else p.post(job_t(jb)); if(sim_pick(4)==3) sim_sleep(2*sim::ms); } p.reset(); });
      if(sim_pick(2)) sim_sleep(sim_pick(10)*sim::ms); open.set_value(); if(own) q.p.reset(); for(auto& c:cs) c.join(); q.p.reset(); } }
  check_done(); sim_sleep(1*sim::sec); if(sim_live_threads()!=before) sim_fail("thread-leak","%d threads outlive the pool",sim_live_threads()-before);
  tok.reset(); expect_no_leak("jobs"); }
// futures and continuations started in threads which may go away
namespace {
struct fjob { job j; int operator()(){ j(); return j.id; } };
struct later : ba::continuation_task<int> { std::shared_ptr<std::promise<int>> p; later(std::shared_ptr<std::promise<int>> x):p(x){} void operator()(){ auto res=this->this_task_result(); std::vector<std::future<int>> v; v.push_back(p->get_future()); ba::create_continuation([res](std::vector<std::future<int>> f)mutable{ try{ res.set_value(f[0].get()); }catch(...){ res.set_exception(std::current_exception()); } },std::move(v)); } };
}
SIM_SCENARIO(P23,continuations,0,4){ world W; w=&W; auto tok=std::make_shared<token>(1);
  { pools_ q=make(); std::promise<void> open; auto gate=std::make_shared<std::shared_future<void>>(open.get_future().share()); int n=1+sim_pick(8); std::vector<std::pair<int,std::future<int>>> fs; std::vector<std::shared_ptr<std::promise<int>>> ps;
    for(int i=0;i<n;i++){ if(sim_pick(4)==3) sim_sleep(2*sim::ms); if(sim_pick(2)){ int id=W.add(); fs.emplace_back(id,ba::post_future(q.p,fjob{{id,0,false,tok,sim_pick(2)?gate:nullptr,{},0}})); } else { auto p=std::make_shared<std::promise<int>>(); fs.emplace_back(1000+(int)ps.size(),ba::post_future(q.p,[p,tok]{ return ba::top_level_continuation<int>(later(p)); })); ps.push_back(p); } }
    if(sim_pick(2)) sim_sleep(30*sim::ms); if(sim_pick(2)) open.set_value(),sim_sleep(30*sim::ms); else { if(sim_pick(2)) sim_sleep(30*sim::ms); open.set_value(); }
    for(int i=0;i<(int)ps.size();i++) ps[i]->set_value(1000+i);
    for(auto& f:fs){ if(!wait_for([&]{ return f.second.wait_for(std::chrono::seconds(0))==std::future_status::ready; },300)) sim_fail("future-stuck","result %d never comes",f.first); int v=-1; try{ v=f.second.get(); }catch(std::exception& e){ sim_fail("wrong-outcome","result %d: %s",f.first,e.what()); } if(v!=f.first) sim_fail("wrong-value","result %d is %d",f.first,v); }
    ps.clear(); if(sim_pick(2)){ sim_sleep(1*sim::sec); if((int)q.p.thread_ids().size()!=q.mn) sim_fail("did-not-shrink","the idle pool reports %zu threads, its minimum is %d",q.p.thread_ids().size(),q.mn); } }
  tok.reset(); expect_no_leak("jobs"); }
// work which comes back just when the surplus threads are leaving
SIM_SCENARIO(P23,refill,0,5){ world W; w=&W; auto tok=std::make_shared<token>(1);
  { pools_ q; q.mn=1; q.mx=2+sim_pick(2); q.k=&kinds[sim_pick(5)]; W.max=q.mx; q.p=q.k->make(q.mn,q.mx); int rounds=1+sim_pick(3); static const uint64_t st[]={1*sim::us,100*sim::us,1*sim::ms};
    for(int r=0;r<rounds;r++){ std::promise<void> open; auto gate=std::make_shared<std::shared_future<void>>(open.get_future().share()); int pre=2+sim_pick(3); for(int i=0;i<pre;i++){ int id=W.add(); if(id>=0) q.p.post(job_t(job{id,0,false,tok,nullptr,{},0})); } uint64_t step=st[sim_pick(3)]; wait_for([&]{ return all_done(); },3000,step); if(sim_pick(2)) sim_sleep(sim_pick(20)*sim::us);
      int k=q.mx+1; for(int i=0;i<k;i++){ int id=W.add(); if(id>=0) q.p.post(job_t(job{id,0,false,tok,gate,{},0})); }
      if(!wait_for([&]{ return running()==q.mx||waiting()<=1; },200,5*sim::ms)) sim_fail("did-not-grow","%d jobs wait although only %d of at most %d threads are blocked",waiting(),running(),q.mx);
      open.set_value(); if(!wait_for([&]{ return all_done(); },300)) sim_fail("job-starved","jobs wait although no thread is blocked"); } }
  tok.reset(); expect_no_leak("jobs"); }
