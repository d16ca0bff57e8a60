// P01: every accepted job runs exactly once, shutdown included.
#include "pools.hpp"
#include <boost/asynchronous/post.hpp>

namespace {
enum { MAXJ=64 };
struct world {
  int runs[MAXJ]={0}; int accepted[MAXJ]={0}; int njobs=0; bool done=false;
  int running=0,maxrun=0;
  pool_t* none=nullptr;
};
struct job {
  world* w; int id; int kind; int arg; int child; std::shared_ptr<token> tok; 
  ba::any_weak_scheduler<job_t> weak; pool_t strong;
  void operator()(){
    { sim::atomic_section s; tok->check("run"); if(++w->runs[id]>1) sim_fail("job-ran-twice","job %d ran %d times",id,w->runs[id]); sim_event("run",id,kind); }
    if(kind==2) sim_sleep(30*sim::ms);
    if(kind==3){ // post children through the weak scheduler: only counted as accepted if it could be locked
      for(int c=0;c<arg;c++){ auto l=weak.lock(); if(!l.is_valid()) break; { sim::atomic_section s; w->accepted[child+c]++; } l.post(job_t(job{w,child+c,0,0,0,tok,{},{}}),sim_pick(4)); } }
    if(kind==4){ for(int c=0;c<arg;c++){ { sim::atomic_section s; w->accepted[child+c]++; } strong.post(job_t(job{w,child+c,0,0,0,tok,{},{}})); } strong.reset(); }
    if(kind==1) throw sim_error(id);
  }
};
struct op { int kind,arg,prio,id,child; bool intr; };
void drive(pool_kind* k,int nth){
  world w; std::shared_ptr<token> tok=std::make_shared<token>(7);
  int npost=(k->flags&PK_SPSC)?1:1+sim_pick(3);
  std::vector<std::vector<op>> plan(npost); int id=0;
  for(int p=0;p<npost;p++){ int n=sim_pick(6); for(int i=0;i<n&&id<40;i++){ op o{}; int r=sim_pick(8); o.kind= r<3?0:r==3?1:r==4?2:r<7?3:4; if((k->flags&PK_SPSC)&&o.kind>=3) o.kind=0; o.arg=1+sim_pick(3); o.id=id++; o.child=id; if(o.kind>=3) id+=o.arg; o.prio=(k->flags&(PK_PRIO|PK_MULTIQ))?sim_pick(6):0; o.intr=sim_pick(4)==3; plan[p].push_back(o);} }
  int strong_ops=0; for(auto& v:plan) for(auto& o:v) if(o.kind==4) strong_ops++;
  bool inplace = npost==1 && sim_pick(2); int dropdelay=sim_pick(3);
  sim_event("plan",id,npost);
  {
    pool_t pool=k->make(nth);
    auto ids=pool.thread_ids();
    // a job may own another pool (never its own: a worker cannot join itself), and be the one that drops it last
    pool_t other0; pool_kind* ok=nullptr; if(strong_ops){ ok=pool_pick(0,PK_SPSC); other0=ok->make(1+sim_pick(2)); }
    auto body=[&w,tok](pool_t p,std::vector<op> ops,pool_t other){
      for(auto& o:ops){ { sim::atomic_section s; w.accepted[o.id]++; }
        job j{&w,o.id,o.kind,o.arg,o.child,tok,p.get_weak_scheduler(),o.kind==4?other:pool_t()};
        if(o.intr){ auto h=p.interruptible_post(job_t(std::move(j)),o.prio); (void)h; } else if(o.prio) p.post(job_t(std::move(j)),o.prio); else p.post(job_t(std::move(j))); }
      p.reset();
    };
    if(inplace){ body(pool,plan[0],std::move(other0)); other0.reset(); if(dropdelay==1) sim_sleep(10*sim::ms); pool.reset(); }
    else {
      std::vector<client> cs; for(int p=0;p<npost;p++) cs.emplace_back([&body,pool,other0,&plan,p]()mutable{ pool_t q=std::move(pool); auto ops=plan[p]; body(std::move(q),ops,std::move(other0)); });
      other0.reset();
      if(dropdelay==0) pool.reset();
      for(auto& c:cs) c.join();
      if(dropdelay==1) sim_sleep(100*sim::ms);
      pool.reset();
    }
  }
  sim_sleep(2*sim::sec);
  { sim::atomic_section s; for(int i=0;i<id;i++){ if(w.runs[i]!=w.accepted[i]) sim_fail(w.runs[i]<w.accepted[i]?"job-lost":"job-ran-unposted","%s with %d threads: job %d accepted %d times, ran %d times",k->name,nth,i,w.accepted[i],w.runs[i]); }
    for(int i=0;i<id;i++) if(w.accepted[i]) sim_probe("jobs",1); }
  tok.reset(); expect_no_leak("jobs destroyed");
  if(strong_ops) sim_probe("job owned another pool",1);
}
}
SIM_SCENARIO(P01,any_pool,0,10){ pool_kind* k=pool_pick(); int nth=1+sim_pick(3); sim_probe(k->name,1); drive(k,nth); }
