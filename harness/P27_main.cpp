// P27: what is handed over with a task is moved, destroyed exactly once, promptly, and in the thread it came from.
#include "P27.hpp"
using namespace p27;
namespace {
// one job of the given kind; raw posted jobs must not throw
void post_job(pool_t& pool,W* w,int kind,int how,std::vector<fref>& fs,std::vector<ba::any_interruptible>& hs,std::atomic<int>& raw){ fref f;
  switch(kind){
    case 0: raw++; pool.post(job_t([g=cargo(w,TASK,0),how,&raw]()mutable{ try{ work(g,how&1?0:how); }catch(...){ } raw--; })); return;
    case 1: raw++; hs.push_back(pool.interruptible_post(job_t([g=cargo(w,TASK,1),how]()mutable{ work(g,how&1?0:how); }))); raw--; return;
    case 2: f.i=ba::post_future(pool,[g=cargo(w,TASK,2),how]()mutable{ return work(g,how); }); break;
    case 3: f.v=ba::post_future(pool,[g=cargo(w,TASK,3),how]()mutable{ work(g,how); }); break;
    case 4: f.c=ba::post_future(pool,[g=cargo(w,TASK,4),how,w]()mutable{ work(g,how); return cargo(w,RESULT,4); }); break;
    case 5: { auto t=ba::interruptible_post_future(pool,[g=cargo(w,TASK,5),how]()mutable{ return work(g,how); }); f.i=std::move(std::get<0>(t)); hs.push_back(std::get<1>(t)); break; }
    case 6: f.i=ba::post_future(pool,[g=cargo(w,TASK,6),h=cargo(w,TASK,6),w,how]()mutable{ return ba::top_level_callback_continuation<int>(cont(w,std::move(g),how,6)); }); break;
    case 7: { auto t=ba::interruptible_post_future(pool,[g=cargo(w,TASK,7),w,how]()mutable{ return ba::top_level_callback_continuation<int>(cont(w,std::move(g),how,7)); }); f.i=std::move(std::get<0>(t)); hs.push_back(std::get<1>(t)); break; }
    case 8: f.v=ba::post_future(pool,[g=cargo(w,TASK,8),how,w]()mutable{ return ba::then(ba::top_level_callback_continuation<int>(cont(w,std::move(g),how,8)),[d=cargo(w,DONE,8)](ba::expected<int> r)mutable{ d.use("a then functor"); r.get(); }); }); break;
    default: { auto t=ba::interruptible_post_future(pool,[g=cargo(w,TASK,9),how,w]()mutable{ work(g,how); return cargo(w,RESULT,9); }); f.c=std::move(std::get<0>(t)); hs.push_back(std::get<1>(t)); break; } }
  fs.push_back(std::move(f)); }
struct op{ int kind,how; };
op pick_op(){ return {(int)sim_pick(10),(int)sim_pick(4)}; }
void run_pool(){ W w; pool_kind* k=pool_pick(0,PK_SPSC); sim_probe(k->name,1); std::vector<fref> fs; std::vector<ba::any_interruptible> hs; std::atomic<int> raw{0}; int mode=sim_pick(4), n=1+sim_pick(10); std::vector<op> plan; for(int i=0;i<n;i++) plan.push_back(pick_op());
  { pool_t pool=k->make(1+sim_pick(3)); for(auto& o:plan){ post_job(pool,&w,o.kind,o.how,fs,hs,raw); if(!hs.empty()&&sim_pick(4)==0) hs[sim_pick(hs.size())].interrupt(); if(sim_pick(5)==0) sim_sleep(1*sim::ms); }
    if(mode){ if(!wait_for([&]{ if(raw) return false; for(auto& f:fs) if(!ready(f.i)||!ready(f.v)||!ready(f.c)) return false; return true; },200)) sim_fail("outcome-missing","a job has no outcome");
      if(mode==1) hs.clear(); for(auto& f:fs){ fetch(f.i); fetch(f.v); fetch(f.c); } if(sim_pick(2)) fs.clear();
      expect_gone(&w,"all jobs are done"); } }
  for(auto& f:fs){ fetch(f.i); fetch(f.v); fetch(f.c); } fs.clear(); hs.clear(); expect_gone(&w,"the pool is gone"); expect_moved(&w); }
// jobs waiting in the queue when the last proxy goes
void run_shutdown(){ W w; pool_kind* k=pool_pick(0,PK_SPSC); sim_probe(k->name,1); std::vector<fref> fs; std::vector<ba::any_interruptible> hs; std::atomic<int> raw{0}; std::atomic<bool> go{false}; int n=1+sim_pick(8); std::vector<op> plan; for(int i=0;i<n;i++) plan.push_back(pick_op());
  { pool_t pool=k->make(1+sim_pick(2)); std::vector<std::future<void>> gates=pool.execute_in_all_threads([&]{ while(!go) sim_sleep(1*sim::ms); }); for(auto& o:plan) post_job(pool,&w,o.kind,o.how,fs,hs,raw); for(auto& h:hs) if(sim_pick(3)==0) h.interrupt(); go=true; }
  for(auto& f:fs){ if(!ready(f.i)||!ready(f.v)||!ready(f.c)) sim_fail("outcome-missing","a future is not ready although the pool is gone"); fetch(f.i); fetch(f.v); fetch(f.c); } fs.clear(); if(sim_pick(2)) hs.clear(); expect_gone(&w,"the pool is gone"); expect_moved(&w); }
// servants: what they hand to a pool comes back to be destroyed
struct Servant : ba::trackable_servant<> { typedef int requires_weak_scheduler; W* w; std::vector<std::pair<int,ba::any_interruptible>> h; int* cbs; Servant(ba::any_weak_scheduler<> s,pool_t p,W* ww,int* c):ba::trackable_servant<>(s,p),w(ww),cbs(c){}
  cargo mine(int role,int kind){ cargo g(w,role,kind); if(g.c){ sim::atomic_section s; CS& x=w->c[g.id()]; x.owner=boost::this_thread::get_id(); x.bound=true; } return g; }
  void go(int kind,int how,cargo arg){ if(arg.c) arg.use("a member"); int* c=cbs; W* ww=w; cargo t=mine(TASK,kind), b=mine(CALLBACK,kind); 
    int tid=t.id(); if(t.c) t.c->stop=tid; if(b.c) b.c->stop=tid;
    auto icb=[b=std::move(b),c](ba::expected<int> r)mutable{ b.use("a callback"); try{ r.get(); }catch(...){ } sim::atomic_section s; ++*c; };
    switch(kind){
      case 20: post_callback([t=std::move(t),how]()mutable{ return work(t,how); },std::move(icb)); break;
      case 21: h.emplace_back(tid,interruptible_post_callback([t=std::move(t),how]()mutable{ return work(t,how); },std::move(icb))); break;
      case 22: post_callback([t=std::move(t),how,ww]()mutable{ t.use("a task"); return ba::top_level_callback_continuation<int>(cont(ww,cargo(ww,LEAF,22),how,22)); },std::move(icb)); break;
      case 23: h.emplace_back(tid,interruptible_post_callback([t=std::move(t),how,ww]()mutable{ t.use("a task"); return ba::top_level_callback_continuation<int>(cont(ww,cargo(ww,LEAF,23),how,23)); },std::move(icb))); break;
      case 24: { cargo b2=mine(CALLBACK,24); post_callback([t=std::move(t),how]()mutable{ work(t,how); },[b2=std::move(b2),c](ba::expected<void> r)mutable{ b2.use("a callback"); sim::atomic_section s; ++*c; }); break; }
      case 25: { cargo b2=mine(CALLBACK,25); post_callback([t=std::move(t),how,ww]()mutable{ work(t,how); return cargo(ww,RESULT,25); },[b2=std::move(b2),c](ba::expected<cargo> r)mutable{ b2.use("a callback"); try{ cargo x=r.get(); x.use("a callback's result"); }catch(sim_error&){ }catch(ba::task_aborted_exception&){ } sim::atomic_section s; ++*c; }); break; }
      case 26: { cargo b2(w,CALLBACK,26); auto f=make_safe_callback([b2=std::move(b2),c](int)mutable{ b2.use("a safe callback"); sim::atomic_section s; ++*c; }); get_worker().post(job_t([f]()mutable{ f(3); })); { sim::atomic_section s; } break; }
      default: { post_self([t=std::move(t),c]()mutable{ t.use("own task"); sim::atomic_section s; ++*c; }); break; } } }
  void stop(int k){ if(h.empty()) return; auto& x=h[k%h.size()]; if(x.first>=0){ sim::atomic_section s; w->stopped[x.first]=true; } x.second.interrupt(); } };
struct Proxy : ba::servant_proxy<Proxy,Servant> { template<class S> Proxy(S s,pool_t p,W* w,int* c):ba::servant_proxy<Proxy,Servant>(s,p,w,c){} BOOST_ASYNC_POST_MEMBER(go) BOOST_ASYNC_FUTURE_MEMBER(stop) };
void run_servant(){ W w; int cbs=0; pool_kind* k=pool_pick(0,PK_SPSC); pool_kind* k1=pool_pick(PK_SINGLE,PK_SPSC); sim_probe(k->name,1); int leave=sim_pick(3); 
  { pool_t pool=k->make(1+sim_pick(2)), sched=k1->make(1); 
    { Proxy p(sched,pool,&w,&cbs); int n=1+sim_pick(8); bool stops=sim_pick(3)==0;
      for(int i=0;i<n;i++){ int kind=20+sim_pick(8); p.go(kind,(int)sim_pick(4),cargo(&w,ARG,kind)); if(stops&&sim_pick(3)==0) p.stop(sim_pick(8)); if(sim_pick(3)==0) sim_sleep(2*sim::ms); }
      if(leave==0) expect_gone(&w,"all work of the servant is done"); }
    if(leave==1) expect_gone(&w,"the servant is gone, its scheduler and the pool are not"); 
    w.free_threads=true; }
  expect_gone(&w,"the pools are gone"); expect_moved(&w);
  for(int i=0;i<w.n;i++) if(w.strayed[i]) sim_fail("wrong-thread-interrupted","work of kind %d, interrupted before its result was known, is destroyed in the worker's thread",w.c[i].kind); }
void run_algo(){ W w; pool_kind* k=pool_pick(0,PK_SPSC); sim_probe(k->name,1); int nt=1+sim_pick(3); pool_t pool=k->make(nt); int rounds=1+sim_pick(3); bool last=sim_pick(3)==0;
  for(int r=0;r<rounds;r++){ W* wp=&w; int n=sim_pick(14); algo_ctx c{wp,pool,n,1+(int)sim_pick(6),sim_pick(2)?-1:(int)sim_pick(14),nt,sim_pick(4)==0,last&&r==rounds-1,nullptr,{},{},{},(int)sim_pick(ALGOS)}; int a=c.a; c.fn=std::make_shared<cargo>(wp,DONE,100+a); for(int i=0;i<n;i++) c.in.emplace_back(wp,(int)sim_pick(9)); 
    static const char part[]="2221222111323333112221331323333"; switch(part[a]){ case '1': algos1(c); break; case '2': algos2(c); break; default: algos3(c); }
    if(c.hasint) wait_for([]{ return false; },3);
    c.fn.reset(); c.in.clear(); c.out.clear(); if(sim_pick(2)) c.ih=ba::any_interruptible(); bool sorts=a==3||a==7||a==9||a==16||a==21; expect_gone(&w,"the algorithm is done",sorts&&(c.hasint||c.drop)?"sort-cut-short":"lingers"); } }
}
SIM_SCENARIO(P27,pool,0,10){ run_pool(); }
SIM_SCENARIO(P27,shutdown,0,5){ run_shutdown(); }
SIM_SCENARIO(P27,servant,0,10){ run_servant(); }
SIM_SCENARIO(P27,algo,0,14){ run_algo(); }
