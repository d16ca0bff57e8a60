// P07: priorities and routing of queue containers, disabled queues.
#include "pools.hpp"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/post.hpp>
namespace {
typedef ba::any_queue_container_config<ba::lockfree_queue<job_t>> c_lf; typedef ba::any_queue_container_config<ba::guarded_deque<job_t>> c_gd; typedef ba::any_queue_container_config<ba::threadsafe_list<job_t>> c_ls; typedef ba::any_queue_container_config<ba::circular_queue<job_t>> c_ci; typedef ba::any_queue_container_config<ba::lockfree_queue<job_t,ba::lockfree_size>> c_ls2; typedef ba::any_queue_container_config<ba::lockfree_stack<job_t>> c_st;
typedef ba::any_queue_container<job_t> cont; typedef ba::any_queue_container<job_t,ba::default_find_position<ba::sequential_push_policy>> cont_seq;
struct pkind { const char* name; pool_t (*make)(int); int levels; bool single; unsigned lifo; int servants; };
const pkind kinds[]={
 {"single/3",[](int){ return (pool_t)ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<cont>>(c_lf(1),c_gd(1),c_ls(1)); },3,true,0},
 {"single/seq4",[](int){ return (pool_t)ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<cont_seq>>(c_ls(2),c_lf(2)); },4,true,0},
 {"single/circ2",[](int){ return (pool_t)ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<cont>>(c_ci(1,4),c_ls2(1)); },2,true,0},
 {"single/stack3",[](int){ return (pool_t)ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<cont>>(c_lf(1),c_st(1),c_gd(1)); },3,true,2},
 {"single/one",[](int){ return (pool_t)ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<cont>>(c_gd(1)); },1,true,0},
 {"pool/3",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<cont>>(n,c_gd(1),c_lf(2)); },3,false,0},
 {"pool/seq4",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<cont_seq>>(n,c_ls(3),c_ls2(1)); },4,false,0},
 {"stealing/3",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<cont,ba::default_save_cpu_load<10,80000,5000>,true>>(n,c_lf(1),c_ls(1),c_gd(1)); },3,false,0},
 {"stealing/spin2",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<cont,ba::no_cpu_load_saving,true>>(n,c_gd(2)); },2,false,0},
 // a queue container per servant, chosen by priority/100000
 {"multiple/3",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<cont>>(n,3,c_lf(1),c_ls(1),c_gd(1)); },3,false,0,3},
 {"multiple/seq2",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<cont_seq>>(n,4,c_ls(2)); },2,false,0,4},
};
struct J { int level; uint64_t pb,pe,st,en,prev; int ran; int worker; int srv; };   // level -1: unknown
struct H { J j[64]; int n=0; int workers; int L; unsigned lifo; uint64_t clk=0; uint64_t last_end[8]; boost::thread::id ids[8]; int nid=0; bool check=true;
  // periods in which a level is surely disabled
  struct off{ int level; uint64_t from,to; int srv; }; off o[16]; int no=0; int servants=0; uint64_t tick(){ return ++clk; }
  int wid(){ auto me=boost::this_thread::get_id(); for(int i=0;i<nid;i++) if(ids[i]==me) return i; sim_fail("wrong-thread","job ran outside the scheduler's threads"); return 0; } };
H* g;
bool disabled_at(int level,int srv,uint64_t a,uint64_t b){ for(int i=0;i<g->no;i++) if(g->o[i].level==level&&g->o[i].srv==srv&&g->o[i].from<b&&g->o[i].to>a) return true; return false; }
void run_job(int i,int dur){ int w; { sim::atomic_section s; H& h=*g; J& x=h.j[i]; w=h.wid(); if(x.ran++) sim_fail("ran-twice","job %d (priority level %d) ran twice",i,x.level); if(h.servants) w=x.srv; x.worker=w; x.st=h.tick(); sim_event("run",i,x.level); x.prev=h.last_end[w];
    if(x.level>=0&&x.prev){ // the pick began after prev
      for(int k=0;k<h.no;k++) if(h.o[k].level==x.level&&h.o[k].srv==x.srv&&h.o[k].from<x.prev&&h.o[k].to==~0ull) sim_fail("disabled-ran","job %d of disabled priority %d was started",i,x.level+1);
      int higher=0,before=0,hj=-1,bj=-1; for(int k=0;k<h.n;k++){ J& y=h.j[k]; if(k==i||y.srv!=x.srv||y.level<0||y.st||!y.pe||y.pe>=x.prev) continue; if(disabled_at(y.level,y.srv,x.prev,~0ull)) continue; bool en=true; for(int q=0;q<h.no;q++) if(h.o[q].level==y.level&&h.o[q].srv==y.srv&&h.o[q].to!=~0ull&&h.o[q].to>x.prev) en=false; if(!en) continue;
        if(y.level<x.level) higher++,hj=k; else if(y.level==x.level&&!(h.lifo>>y.level&1)&&y.pe<x.pb) before++,bj=k; }
      if(higher>h.workers-1) sim_fail("priority-inverted","job %d of priority %d started while job %d of priority %d, posted earlier than the worker's previous job ended, was waiting",i,x.level+1,hj,h.j[hj].level+1);
      if(before>h.workers-1) sim_fail("order-in-priority","job %d of priority %d started before job %d posted earlier with the same priority",i,x.level+1,bj); } }
  if(dur) boost::this_thread::sleep_for(boost::chrono::milliseconds(dur)); else sim_point();
  { sim::atomic_section s; J& x=g->j[i]; x.en=g->tick(); g->last_end[w]=x.en; } }
struct job{ int i,dur; std::shared_ptr<token> tok; bool thr; void operator()(){ tok->check("run"); run_job(i,dur); if(thr) throw sim_error(i); } };
struct fjob{ job j; int operator()(){ j.thr=false; j(); return j.i; } };
int level_of(int prio,int L){ if(prio==0) return -1; if(prio<0) return L-1; return prio-1<L-1?prio-1:L-1; }
struct op{ int kind,prio,dur; bool thr; int srv=0; };
int reserve(int prio,int L,int srv=0){ sim::atomic_section s; if(g->n>=64) return -1; int i=g->n++; sim_event("post",i,prio); J& x=g->j[i]; x=J(); x.level=level_of(prio,L); x.srv=srv; x.pb=g->tick(); return i; }
void posted(int i){ sim::atomic_section s; g->j[i].pe=g->tick(); }
struct Servant : ba::trackable_servant<> { typedef int simple_ctor; std::shared_ptr<token> tok; Servant(ba::any_weak_scheduler<> s,std::shared_ptr<token> t):ba::trackable_servant<>(s),tok(t){} 
  void f(int i,int d){ run_job(i,d); } int g1(int i,int d){ run_job(i,d); return i; } };
struct Proxy : ba::servant_proxy<Proxy,Servant> { template<class S> Proxy(S s,std::shared_ptr<token> t):ba::servant_proxy<Proxy,Servant>(s,t){}
  BOOST_ASYNC_SERVANT_POST_CTOR(1) BOOST_ASYNC_SERVANT_POST_DTOR(2)
  BOOST_ASYNC_POST_MEMBER(f,1) BOOST_ASYNC_FUTURE_MEMBER(g1,2) };
}
namespace {
void one_post(pool_t& pool,op const& o,int L,std::shared_ptr<token> const& tok,std::vector<std::future<int>>& futs){ int i=reserve(o.prio,L,o.srv); if(i<0) return; std::size_t p=o.prio<0?(g->servants?99998:std::numeric_limits<std::size_t>::max()):(std::size_t)o.prio; p+=o.srv*100000; job jb{i,o.dur,tok,o.thr};
  switch(o.kind){ case 0: case 1: pool.post(job_t(jb),p); break; case 2: { auto h=pool.interruptible_post(job_t(jb),p); (void)h; break; } case 3: ba::post_future(pool,jb,"",p); break; default: futs.push_back(ba::post_future(pool,fjob{jb},"",p)); }
  posted(i); }
op pick_op(int L){ static const int pr[]={1,1,2,3,4,0,7,-1,99999}; op o; o.kind=sim_pick(5); o.prio=pr[sim_pick(9)]; o.dur=sim_pick(3)*2; o.thr=o.kind<3&&sim_pick(8)==0; if(g->servants) o.srv=sim_pick(g->servants); return o; }
void finish(){ for(int i=0;i<g->n;i++) if(g->j[i].ran!=1) sim_fail("job-lost","job %d with priority level %d ran %d times",i,g->j[i].level,g->j[i].ran); }
void scenario(bool disable){ H h; g=&h; for(auto& x:h.last_end) x=0; const pkind& k=kinds[sim_pick(sizeof kinds/sizeof*kinds)]; sim_probe(k.name,1); int nw=k.single?1:1+sim_pick(3); h.workers=k.servants?1:nw; h.servants=k.servants; h.L=k.levels; h.lifo=k.lifo;
  auto tok=std::make_shared<token>(1); int nc=1+sim_pick(3); std::vector<std::vector<op>> plan(nc); for(auto& p:plan){ int n=1+sim_pick(8); for(int i=0;i<n;i++) p.push_back(pick_op(k.levels)); }
  int gates=sim_pick(nw+1); if(k.servants&&gates>k.servants) gates=k.servants; int reposts=sim_pick(3);
  { pool_t pool=k.make(nw); { auto ids=pool.thread_ids(); for(auto& i:ids) h.ids[h.nid++]=i; }
    // occupy some workers so that a backlog of mixed priorities builds up
    std::shared_ptr<std::promise<void>> open(new std::promise<void>); std::shared_future<void> of(open->get_future()); bool opened=false;
    for(int i=0;i<gates;i++){ int sv=k.servants?i%k.servants:0; int id=reserve(1,k.levels,sv); h.j[id].level=-1; pool.post(job_t([id,of,sv]{ run_job(id,0); of.wait(); { sim::atomic_section s; H& h=*g; h.last_end[h.servants?sv:h.wid()]=h.tick(); } }),sv*100000+1); posted(id); }
    if(gates) wait_for([&]{ int r=0; for(int i=0;i<gates;i++) r+=h.j[i].ran; return r==gates; },50,5*sim::ms);
    { std::vector<client> cs; for(int c=0;c<nc;c++) cs.emplace_back([&,c]{ std::vector<std::future<int>> fs; for(auto& o:plan[c]){ one_post(pool,o,k.levels,tok,fs); if(o.dur==4) sim_sleep(2*sim::ms); }
        if(gates==0||!sim_pick(2)){ } for(auto& f:fs) { (void)f; } });
      if(disable){ int n=1+sim_pick(3); cs.emplace_back([&,n]{ auto l=pool.get_weak_scheduler().lock(); for(int q=0;q<n;q++){ int lv=sim_pick(k.levels), sv=k.servants?sim_pick(k.servants):0; l.enable_queue(sv*100000+lv+1,false); int slot; { sim::atomic_section s; slot=h.no++; h.o[slot]={lv,h.tick(),~0ull,sv}; } sim_sleep((1+sim_pick(6))*2*sim::ms); { sim::atomic_section s; h.o[slot].to=h.tick(); } l.enable_queue(sv*100000+lv+1,true); { sim::atomic_section s; h.o[slot].to=h.tick(); } sim_probe("disabled for a while",1); } }); }
      if(gates&&sim_pick(2)){ sim_sleep(5*sim::ms); open->set_value(); opened=true; }
      if(disable&&gates&&!opened){ sim_sleep(10*sim::ms); open->set_value(); opened=true; }
      for(auto& c:cs) c.join(); }
    if(!opened) open->set_value();
    for(int r=0;r<reposts;r++){ std::vector<std::future<int>> fs; one_post(pool,pick_op(k.levels),k.levels,tok,fs); }
    if(sim_pick(2)&&!wait_for([&]{ for(int i=0;i<h.n;i++) if(!h.j[i].ran) return false; return true; },200)) sim_fail("job-starved","a posted job does not run although its queue is enabled");
  }
  finish(); tok.reset(); expect_no_leak("jobs"); }
}
SIM_SCENARIO(P07,priorities,0,10){ scenario(false); }
SIM_SCENARIO(P07,disable,SIM_NO_CLOCKJUMP,6){ scenario(true); }
// a servant whose members have priorities
SIM_SCENARIO(P07,servant,0,4){ H h; g=&h; for(auto& x:h.last_end) x=0; const pkind& k=kinds[sim_pick(4)]; sim_probe(k.name,1); h.workers=1; h.L=k.levels; h.lifo=k.lifo; auto tok=std::make_shared<token>(1);
  { pool_t pool=k.make(1); h.ids[h.nid++]=pool.thread_ids()[0]; Proxy p(pool,tok); std::shared_ptr<std::promise<void>> open(new std::promise<void>); std::shared_future<void> of(open->get_future()); bool gate=sim_pick(3)!=0;
    if(gate){ int id=reserve(1,k.levels); h.j[id].level=-1; pool.post(job_t([id,of]{ run_job(id,0); of.wait(); sim::atomic_section s; g->last_end[0]=g->tick(); }),1); posted(id); }
    int nc=1+sim_pick(3); { std::vector<client> cs; for(int c=0;c<nc;c++){ int n=1+sim_pick(6); cs.emplace_back([&,n]{ for(int i=0;i<n;i++){ int w=sim_pick(3), d=sim_pick(2)*3; if(w==0){ int id=reserve(1,k.levels); if(id>=0){ p.f(id,d); posted(id); } } else if(w==1){ int id=reserve(2,k.levels); if(id>=0){ p.g1(id,d); posted(id); } } else { std::vector<std::future<int>> fs; one_post(pool,pick_op(k.levels),k.levels,tok,fs); } } }); } for(auto& c:cs) c.join(); }
    if(gate) open->set_value();
    if(!wait_for([&]{ for(int i=0;i<h.n;i++) if(!h.j[i].ran) return false; return true; },200)) sim_fail("job-starved","a posted call does not run");
  }
  finish(); tok.reset(); expect_no_leak("servant"); }
// queue numbers of multi-queue schedulers: every number is served, exactly once, also when only some workers are free
SIM_SCENARIO(P07,multiqueue,0,4){ H h; g=&h; h.check=false; int nw=1+sim_pick(3); h.workers=64; h.L=1; h.lifo=~0u; for(auto& x:h.last_end) x=0; auto tok=std::make_shared<token>(1);
  { pool_kind* k=pool_pick(PK_MULTIQ); sim_probe(k->name,1); pool_t pool=k->make(nw); { auto ids=pool.thread_ids(); for(auto& i:ids) h.ids[h.nid++]=i; } std::shared_ptr<std::promise<void>> open(new std::promise<void>); std::shared_future<void> of(open->get_future()); int gates=sim_pick(nw);
    for(int i=0;i<gates;i++){ int id=reserve(1+sim_pick(nw),1); pool.post(job_t([id,of]{ run_job(id,0); of.wait(); }),1+sim_pick(nw)); posted(id); }
    int nc=1+sim_pick(3); { std::vector<client> cs; for(int c=0;c<nc;c++){ int n=1+sim_pick(6); cs.emplace_back([&,n]{ for(int i=0;i<n;i++){ std::vector<std::future<int>> fs; op o=pick_op(nw); if(o.prio<0) o.prio=5; one_post(pool,o,1,tok,fs); } }); } for(auto& c:cs) c.join(); }
    // one worker at least is free: it serves every queue
    if(!wait_for([&]{ for(int i=gates;i<h.n;i++) if(!h.j[i].ran) return false; return true; },300)) sim_fail("job-starved","a job posted to a busy worker's queue is not picked by the free worker"); open->set_value(); }
  finish(); tok.reset(); expect_no_leak("jobs"); }
// the queues of a container are disabled for thieves as well
#include <boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp>
SIM_SCENARIO(P07,disabled_lender,0,3){ H h; g=&h; h.check=false; h.workers=64; h.L=3; h.lifo=~0u; for(auto& x:h.last_end) x=0; auto tok=std::make_shared<token>(1); int L=2+sim_pick(2);
  { pool_t a= L==2?ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<cont>>(1+sim_pick(2),c_lf(1),c_gd(1)):ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<cont,ba::default_save_cpu_load<10,80000,5000>>>(1+sim_pick(2),c_ls(1),c_lf(1),c_gd(1));
    pool_t b= sim_pick(2)?ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<ba::lockfree_queue<job_t>>>(1+sim_pick(2)):ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<ba::threadsafe_list<job_t>>>(1+sim_pick(2));
    pool_t c= sim_pick(2)?ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<job_t>>(a,b):ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<job_t>>(b,a);
    { auto ids=c.thread_ids(); for(auto& i:ids) h.ids[h.nid++]=i; }
    bool off[3]={}; { auto l=a.get_weak_scheduler().lock(); for(int q=0;q<L;q++) if(sim_pick(2)){ off[q]=true; sim_event("off",q,0); l.enable_queue(q+1,false); } }
    sim_sleep(200*sim::ms); // a worker which is just picking (a guarded_deque waits a little for jobs) may not have seen it yet
    int n=1+sim_pick(8); int lv[8]; for(int i=0;i<n;i++){ lv[i]=sim_pick(L); int id=reserve(lv[i]+1,L); job jb{id,(int)sim_pick(2),tok,false}; if(sim_pick(3)==2){ auto x=a.interruptible_post(job_t(jb),lv[i]+1); (void)x; } else a.post(job_t(jb),lv[i]+1); posted(id); }
    if(!wait_for([&]{ sim::atomic_section s; for(int i=0;i<n;i++) if(!off[lv[i]]&&!h.j[i].ran) return false; return true; },200)) sim_fail("job-starved","a job of an enabled queue does not run");
    sim_sleep((sim_pick(3)+1)*5*sim::ms); { sim::atomic_section s; for(int i=0;i<n;i++) if(off[lv[i]]&&h.j[i].ran) sim_fail("disabled-ran","job %d of disabled priority %d was executed",i,lv[i]+1); }
    { auto l=a.get_weak_scheduler().lock(); for(int q=0;q<L;q++) if(off[q]) l.enable_queue(q+1,true); }
    if(!wait_for([&]{ sim::atomic_section s; for(int i=0;i<n;i++) if(!h.j[i].ran) return false; return true; },200)) sim_fail("job-starved","a posted job does not run although its queue is enabled again"); }
  finish(); tok.reset(); expect_no_leak("jobs"); }
