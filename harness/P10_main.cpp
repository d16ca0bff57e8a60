// P10: interrupting a job affects that job only.
#include "pools.hpp"
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
namespace {
enum { MAXJ=40 };
struct JS { int kind; bool intr; int asked,asked_done; int started,ended,seen; int cb; bool thr; };
struct W { JS j[MAXJ]; int n=0; W(){ for(auto& x:j) x=JS(); } };
struct body { W* w; int id,steps,how; 
  // an interruption point of the user's code
  static void ipoint(W* w,int id,int how){ bool must; { sim::atomic_section s; JS& x=w->j[id]; must=x.asked_done>0&&!x.seen; }
    try{ if(how==0) boost::this_thread::interruption_point(); else if(how==1) boost::this_thread::sleep_for(boost::chrono::milliseconds(4)); else { boost::mutex m; boost::condition_variable c; boost::unique_lock<boost::mutex> l(m); c.wait_for(l,boost::chrono::milliseconds(4)); } }
    catch(boost::thread_interrupted&){ sim::atomic_section s; JS& x=w->j[id]; if(!x.asked) sim_fail("foreign-interruption","job %d (kind %d) observes an interruption which was not addressed to it",id,x.kind); if(x.seen++&&x.kind!=6) sim_fail("interrupted-twice","job %d observes its interruption twice",id); throw; }
    if(must) sim_fail("interruption-lost","job %d passed an interruption point after interrupt() had returned",id); }
  int run(){ { sim::atomic_section s; JS& x=w->j[id]; if(x.started++) sim_fail("ran-twice","job %d ran twice",id); }
    for(int i=0;i<steps;i++){ int h=(how+i)%5; if(h<3) ipoint(w,id,h); else if(h==3) sim_point(); else sim_sleep(3*sim::ms); }
    bool thr; { sim::atomic_section s; w->j[id].ended++; thr=w->j[id].thr; } if(thr) throw sim_error(id); return id; } };
struct leaf : ba::continuation_task<int> { body b; leaf(body x):b(x){} void operator()(){ auto r=this->this_task_result(); for(int i=0;i<b.steps;i++) body::ipoint(b.w,b.id,i%2); r.set_value(b.id); } };
struct cont : ba::continuation_task<int> { body b; cont(body x):b(x){} void operator()(){ auto res=this->this_task_result(); body bb=b; W* w=b.w; int id=b.id; { sim::atomic_section s; w->j[id].started++; }
    ba::create_callback_continuation([res,w,id](std::tuple<ba::expected<int>,ba::expected<int>> r)mutable{ { sim::atomic_section s; w->j[id].ended++; } try{ res.set_value((std::get<0>(r).get()+std::get<1>(r).get())/2); }catch(...){ res.set_exception(std::current_exception()); } },leaf(bb),leaf(bb)); } };
struct op{ int kind,steps,how,delay; bool thr; };
op pick_op(){ static const int k[]={0,1,1,1,2,2,3,4,5,6}; return {k[sim_pick(10)],(int)sim_pick(4),(int)sim_pick(5),(int)sim_pick(3),sim_pick(4)==0}; }
int reserve(W* w,int kind,bool thr=false){ sim::atomic_section s; if(w->n>=MAXJ) return -1; int i=w->n++; w->j[i].kind=kind; w->j[i].thr=thr&&kind<4; w->j[i].intr=kind==1||kind==2||kind==6; return i; }
struct HB { std::vector<std::pair<int,ba::any_interruptible>> hs; boost::mutex m; void put(int id,ba::any_interruptible h){ boost::mutex::scoped_lock l(m); hs.emplace_back(id,h); } bool get(int k,std::pair<int,ba::any_interruptible>& o){ boost::mutex::scoped_lock l(m); if(hs.empty()) return false; o=hs[k%hs.size()]; return true; } };
void interrupt(W* w,std::pair<int,ba::any_interruptible>& h){ { sim::atomic_section s; w->j[h.first].asked++; } h.second.interrupt(); sim::atomic_section s; w->j[h.first].asked_done++; sim_event("interrupt",h.first,0); }
void check_future(W* w,int id,std::future<int>& f,bool alive){ if(alive){ if(!wait_for([&]{ return f.wait_for(std::chrono::seconds(0))==std::future_status::ready; },200)) sim_fail("future-stuck","future of job %d (kind %d, interrupted %d) never becomes ready",id,w->j[id].kind,w->j[id].asked); }
  else if(f.wait_for(std::chrono::seconds(0))!=std::future_status::ready) sim_fail("future-stuck","future of job %d not ready although the pool is gone",id);
  bool val=false; try{ if(f.get()!=id) sim_fail("wrong-value","future of job %d has a wrong value",id); val=true; } catch(...){ }
  sim::atomic_section s; JS& x=w->j[id]; bool ran=x.ended>0&&!x.seen; if((x.kind==2||x.kind==3)&&(ran&&!x.thr)!=val) sim_fail("wrong-outcome","future of job %d: job %s, future %s",id,ran?"finished":"did not finish",val?"has a value":"failed"); if(!x.asked&&!x.thr&&!val&&(alive||(x.kind!=4&&x.kind!=6))) sim_fail("wrong-outcome","future of job %d (kind %d) failed although it was never interrupted",id,x.kind); }
void run_pool(){ W w; pool_kind* k=pool_pick(0,PK_SPSC); sim_probe(k->name,1); auto tok=std::make_shared<token>(1); int nc=1+sim_pick(2), ni=1+sim_pick(2); std::vector<std::vector<op>> plan(nc); for(auto& p:plan){ int n=1+sim_pick(6); for(int i=0;i<n;i++) p.push_back(pick_op()); }
  HB hb; std::vector<std::pair<int,std::future<int>>> fs; boost::mutex fm; std::vector<std::future<void>> all; int early=sim_pick(3);
  { pool_t pool=k->make(1+sim_pick(2));
    { std::vector<client> cs; bool posting=true; for(int c=0;c<nc;c++) cs.emplace_back([&,c]{ for(auto& o:plan[c]){ int id=reserve(&w,o.kind,o.thr); if(id<0) break; body b{&w,id,o.steps,o.how}; if(o.delay==2) sim_sleep(3*sim::ms);
        auto addf=[&](std::future<int> f){ boost::mutex::scoped_lock l(fm); fs.emplace_back(id,std::move(f)); };
        switch(o.kind){ case 0: pool.post(job_t([b,tok]()mutable{ b.run(); })); break;
          case 1: hb.put(id,pool.interruptible_post(job_t([b,tok]()mutable{ b.run(); }))); break;
          case 2: { auto t=ba::interruptible_post_future(pool,[b,tok]()mutable{ return b.run(); }); hb.put(id,std::get<1>(t)); addf(std::move(std::get<0>(t))); break; }
          case 3: addf(ba::post_future(pool,[b,tok]()mutable{ return b.run(); })); break;
          case 4: addf(ba::post_future(pool,[b,tok]{ return ba::top_level_callback_continuation<int>(cont(b)); })); break;
          case 6: { auto t=ba::interruptible_post_future(pool,[b,tok]{ return ba::top_level_callback_continuation<int>(cont(b)); }); hb.put(id,std::get<1>(t)); { sim::atomic_section s; } addf(std::move(std::get<0>(t))); break; }
          default: { auto v=pool.execute_in_all_threads([b,tok]()mutable{ { sim::atomic_section s; b.w->j[b.id].started=0; } b.run(); }); boost::mutex::scoped_lock l(fm); for(auto& f:v) all.push_back(std::move(f)); } } } });
      for(int i=0;i<ni;i++) cs.emplace_back([&]{ int n=1+sim_pick(5); for(int q=0;q<n;q++){ sim_sleep(sim_pick(5)*2*sim::ms); std::pair<int,ba::any_interruptible> h; if(hb.get(sim_pick(12),h)) interrupt(&w,h); } });
      for(auto& c:cs) c.join(); }
    if(early!=0){ for(auto& f:fs) check_future(&w,f.first,f.second,true); fs.clear();
      // every worker still serves jobs
      std::vector<std::future<void>> v=pool.execute_in_all_threads([&w]{ sim_point(); }); for(auto& f:v){ if(!wait_for([&]{ return f.wait_for(std::chrono::seconds(0))==std::future_status::ready; },200)) sim_fail("worker-dead","a worker no longer serves jobs"); f.get(); } }
    if(early==2){ std::pair<int,ba::any_interruptible> h; for(int q=0;q<3;q++) if(hb.get(sim_pick(12),h)) interrupt(&w,h); for(int q=0;q<3;q++){ int id=reserve(&w,0); if(id>=0) pool.post(job_t([b=body{&w,id,2,0},tok]()mutable{ b.run(); })); } }
  }
  for(auto& f:fs) check_future(&w,f.first,f.second,false); for(auto& f:all){ try{ f.get(); }catch(std::exception& e){ sim_fail("wrong-outcome","execute_in_all_threads task failed: %s",e.what()); } }
  for(int i=0;i<w.n;i++){ JS& x=w.j[i]; if(!x.asked&&x.ended<1&&(early||(x.kind!=4&&x.kind!=6))) sim_fail("job-lost","job %d (kind %d) was never interrupted but did not finish",i,x.kind); if(x.kind==1&&x.asked&&x.started&&!x.ended&&!x.seen) sim_fail("job-lost","job %d vanished",i); }
  // too late
  std::pair<int,ba::any_interruptible> h; for(int q=0;q<2;q++) if(hb.get(q,h)) h.second.interrupt();
  h=std::pair<int,ba::any_interruptible>(); hb.hs.clear(); fs.clear(); all.clear(); tok.reset(); expect_no_leak("jobs"); }
// a servant interrupts its own work
struct Servant : ba::trackable_servant<> { typedef int requires_weak_scheduler; W* w; std::vector<std::pair<int,ba::any_interruptible>> h; Servant(ba::any_weak_scheduler<> s,pool_t p,W* ww):ba::trackable_servant<>(s,p),w(ww){}
  void go(int id,int steps,int how,bool intr){ W* ww=w; body b{ww,id,steps,how}; auto work=[b]()mutable{ return b.run(); }; auto cb=[ww,id](ba::expected<int> r){ bool val=false; try{ val=r.get()==id; if(!val) sim_fail("wrong-value","callback of %d",id); }catch(...){ } sim::atomic_section s; JS& x=ww->j[id]; if(x.cb++) sim_fail("callback-twice","callback of job %d",id); bool ran=x.ended>0&&!x.seen&&!x.thr; if(val!=ran) sim_fail("wrong-outcome","callback of job %d: job %s, result %s",id,ran?"finished":"did not finish",val?"is a value":"is an error"); if(!val&&!x.asked&&!x.thr) sim_fail("wrong-outcome","callback of %d failed",id); boost::this_thread::interruption_point(); };
    if(intr) h.emplace_back(id,interruptible_post_callback(std::move(work),std::move(cb))); else post_callback(std::move(work),std::move(cb)); }
  void stop(int k){ if(h.empty()) return; interrupt(w,h[k%h.size()]); } };
struct Proxy : ba::servant_proxy<Proxy,Servant> { template<class S> Proxy(S s,pool_t p,W* w):ba::servant_proxy<Proxy,Servant>(s,p,w){} BOOST_ASYNC_POST_MEMBER(go) BOOST_ASYNC_POST_MEMBER(stop) };
void run_servant(){ W w; pool_kind* k=pool_pick(0,PK_SPSC); pool_kind* k1=pool_pick(PK_SINGLE,PK_SPSC); sim_probe(k->name,1);
  { pool_t pool=k->make(1+sim_pick(2)), sched=k1->make(1); Proxy p(sched,pool,&w); int n=1+sim_pick(8); for(int i=0;i<n;i++){ int a=sim_pick(3); if(a<2){ int id=reserve(&w,a==0?0:1,sim_pick(4)==0); if(id>=0) p.go(id,sim_pick(4),sim_pick(5),a==1); } else p.stop(sim_pick(8)); if(sim_pick(3)==0) sim_sleep(4*sim::ms); }
    if(!wait_for([&]{ for(int i=0;i<w.n;i++) if(!w.j[i].asked&&!w.j[i].cb) return false; return true; },200)) sim_fail("callback-lost","callback of a job that was never interrupted does not come"); 
    // a job that was running or finished delivers its callback, interrupted or not
    if(!wait_for([&]{ for(int i=0;i<w.n;i++) if(w.j[i].started&&!w.j[i].cb) return false; return true; },100)) sim_fail("callback-lost","callback of a started job does not come"); } }
// jobs interrupted while they wait in the queue never start, all others run
void run_queued(){ W w; pool_kind* k=pool_pick(0,PK_SPSC); sim_probe(k->name,1); int th=(k->flags&PK_SINGLE)?1:1+sim_pick(2); auto tok=std::make_shared<token>(1);
  { pool_t pool=k->make(th); std::atomic<bool> go{false}; std::atomic<int> at{0}; std::vector<std::future<void>> gates=pool.execute_in_all_threads([&]{ at++; while(!go) sim_sleep(1*sim::ms); });
    if(!wait_for([&]{ return at==(int)gates.size(); },200)) sim_fail("worker-dead","not all workers reached the gate");
    int n=2+sim_pick(7); std::vector<std::pair<int,ba::any_interruptible>> hs; std::vector<std::pair<int,std::future<int>>> fs; std::vector<char> stopped(MAXJ,0);
    for(int i=0;i<n;i++){ static const int ks[]={0,1,1,2,2,3,6}; int kd=ks[sim_pick(7)]; int id=reserve(&w,kd,sim_pick(4)==0); body b{&w,id,(int)sim_pick(3),(int)sim_pick(5)};
      if(kd==0) pool.post(job_t([b,tok]()mutable{ b.run(); })); else if(kd==1) hs.emplace_back(id,pool.interruptible_post(job_t([b,tok]()mutable{ b.run(); }))); else if(kd==3) fs.emplace_back(id,ba::post_future(pool,[b,tok]()mutable{ return b.run(); }));
      else if(kd==6){ auto t=ba::interruptible_post_future(pool,[b,tok]{ return ba::top_level_callback_continuation<int>(cont(b)); }); hs.emplace_back(id,std::get<1>(t)); fs.emplace_back(id,std::move(std::get<0>(t))); }
      else { auto t=ba::interruptible_post_future(pool,[b,tok]()mutable{ return b.run(); }); hs.emplace_back(id,std::get<1>(t)); fs.emplace_back(id,std::move(std::get<0>(t))); } }
    for(auto& h:hs) if(sim_pick(2)){ interrupt(&w,h); stopped[h.first]=1; if(sim_pick(3)==0) interrupt(&w,h); }
    go=true; for(auto& f:gates) f.get();
    for(auto& f:fs){ if(!wait_for([&]{ return f.second.wait_for(std::chrono::seconds(0))==std::future_status::ready; },200)) sim_fail("future-stuck","future of job %d (kind %d, interrupted %d) never becomes ready",f.first,w.j[f.first].kind,(int)stopped[f.first]); bool val=false; try{ val=f.second.get()==f.first; }catch(...){ } if(val==(bool)(stopped[f.first]||w.j[f.first].thr)) sim_fail("wrong-outcome","future of job %d, interrupted in the queue: %d, has a value: %d",f.first,(int)stopped[f.first],(int)val); }
    if(!wait_for([&]{ for(int i=0;i<w.n;i++) if(!stopped[i]&&!w.j[i].ended) return false; return true; },200)) sim_fail("job-lost","a job which was not interrupted did not run");
    hs.clear(); fs.clear();
    for(int i=0;i<w.n;i++) if(stopped[i]&&w.j[i].started) sim_fail("started-after-interrupt","job %d was interrupted while queued but was started",i);
  } for(int i=0;i<w.n;i++) if(w.j[i].started>1) sim_fail("ran-twice","job %d",i); tok.reset(); expect_no_leak("jobs"); }
}
SIM_SCENARIO(P10,pool,0,10){ run_pool(); }
SIM_SCENARIO(P10,servant,0,4){ run_servant(); }
SIM_SCENARIO(P10,queued,0,4){ run_queued(); }
