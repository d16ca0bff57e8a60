// P03: every future gets exactly the outcome of its own job.
#include "pools.hpp"
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
namespace {
enum { MAXJ=40 };
struct W { int ran[MAXJ]={0}; int finished[MAXJ]={0}; sim_cell cell[MAXJ][2]; W(){ for(auto& c:cell) { sim_cell_init(&c[0]); sim_cell_init(&c[1]); } } };
void begin(W* w,int id){ sim::atomic_section s; if(++w->ran[id]>1) sim_fail("job-ran-twice","job %d",id); sim_cell_write(&w->cell[id][0],"job effects"); sim_cell_write(&w->cell[id][1],"job effects"); }
void finish(W* w,int id,int part=0){ sim_point(); sim::atomic_section s; sim_cell_write(&w->cell[id][part],"job effects"); w->finished[id]++; sim_event("finished",id,0); }
void delay(int d){ if(d) sim_sleep(d*4*sim::ms); else sim_point(); }
struct nodef { int v; explicit nodef(int i):v(i){} };   // no default constructor
// leaf subtask of a continuation
template<class T> struct leaf : ba::continuation_task<T> { W* w; int id,part,d; bool thr; leaf(W* ww,int i,int p,int dd,bool t):w(ww),id(i),part(p),d(dd),thr(t){}
  void operator()(){ auto res=this->this_task_result(); delay(d); if(thr){ finish(w,id,part-1); res.set_exception(std::make_exception_ptr(sim_error(id))); return; } finish(w,id,part-1); res.set_value(id*100+part); } };
template<> struct leaf<void> : ba::continuation_task<void> { W* w; int id,part,d; bool thr; leaf(W* ww,int i,int p,int dd,bool t):w(ww),id(i),part(p),d(dd),thr(t){}
  void operator()(){ auto res=this->this_task_result(); delay(d); if(thr){ finish(w,id,part-1); res.set_exception(std::make_exception_ptr(sim_error(id))); return; } finish(w,id,part-1); res.set_value(); } };
struct main_int : ba::continuation_task<int> { W* w; int id,d; bool thr; main_int(W* ww,int i,int dd,bool t):w(ww),id(i),d(dd),thr(t){}
  void operator()(){ auto res=this->this_task_result(); 
    ba::create_callback_continuation([res](std::tuple<ba::expected<int>,ba::expected<int>> t)mutable{ try{ int s=std::get<0>(t).get()+std::get<1>(t).get(); res.set_value(s); } catch(...){ res.set_exception(std::current_exception()); } },
      leaf<int>(w,id,1,d,thr),leaf<int>(w,id,2,d/2,false)); } };
struct main_void : ba::continuation_task<void> { W* w; int id,d; bool thr; main_void(W* ww,int i,int dd,bool t):w(ww),id(i),d(dd),thr(t){}
  void operator()(){ auto res=this->this_task_result(); 
    ba::create_callback_continuation([res](std::tuple<ba::expected<void>,ba::expected<void>> t)mutable{ try{ std::get<0>(t).get(); std::get<1>(t).get(); res.set_value(); } catch(...){ res.set_exception(std::current_exception()); } },
      leaf<void>(w,id,1,d,thr),leaf<void>(w,id,2,d/2,false)); } };
// continuation over futures
struct main_fut : ba::continuation_task<int> { W* w; int id,d; bool thr; main_fut(W* ww,int i,int dd,bool t):w(ww),id(i),d(dd),thr(t){}
  void operator()()const{ auto res=this->this_task_result(); auto wl=ba::get_thread_scheduler<job_t>(); auto l=wl.lock();
    if(!l.is_valid()){ finish(w,id); finish(w,id); res.set_value(id*200+3); return; }
    W* ww=w; int i=id,dd=d; bool t=thr;
    auto f1=ba::post_future(l,[ww,i,dd,t]()->int{ delay(dd); finish(ww,i); if(t) throw sim_error(i); return i*100+1; }); auto f2=ba::post_future(l,[ww,i]()->int{ finish(ww,i,1); return i*100+2; });
    ba::create_continuation([res](std::tuple<std::future<int>,std::future<int>> tt)mutable{ try{ int s=std::get<0>(tt).get()+std::get<1>(tt).get(); res.set_value(s); } catch(...){ res.set_exception(std::current_exception()); } },std::move(f1),std::move(f2)); } };
struct Servant : ba::trackable_servant<> { typedef int requires_weak_scheduler; W* w;
  Servant(ba::any_weak_scheduler<> s,pool_t p,W* ww):ba::trackable_servant<>(s,p),w(ww){}
  int value(int id,int d){ begin(w,id); delay(d); finish(w,id); return id*7; }
  void nothing(int id,int d){ begin(w,id); delay(d); finish(w,id); }
  int thrower(int id,int d){ begin(w,id); delay(d); finish(w,id); throw sim_error(id); }
  std::unique_ptr<int> unique(int id,int d){ begin(w,id); delay(d); finish(w,id); return std::unique_ptr<int>(new int(id*7)); }
  int arg(std::unique_ptr<int> p,token t,int id){ begin(w,id); t.check("argument"); int r=*p+t.id; finish(w,id); return r; }
  // work posted by the servant, future handed out
  std::shared_ptr<std::future<int>> own(int id,int d,bool thr){ W* ww=w; return std::make_shared<std::future<int>>(this->post_future([ww,id,d,thr]()->int{ begin(ww,id); delay(d); finish(ww,id); if(thr) throw sim_error(id); return id*7; },"",0)); }
  std::shared_ptr<std::future<int>> self(int id,int d){ W* ww=w; return std::make_shared<std::future<int>>(this->post_self([ww,id,d]()->int{ begin(ww,id); delay(d); finish(ww,id); return id*7; },"",0)); }
  std::shared_ptr<std::future<int>> cont(int id,int d,bool thr){ W* ww=w; return std::make_shared<std::future<int>>(this->post_future([ww,id,d,thr](){ begin(ww,id); return ba::top_level_callback_continuation<int>(main_int(ww,id,d,thr)); },"",0)); }
};
struct Proxy : ba::servant_proxy<Proxy,Servant> { template<class S> Proxy(S s,pool_t p,W* w):ba::servant_proxy<Proxy,Servant>(s,p,w){}
  BOOST_ASYNC_FUTURE_MEMBER(value) BOOST_ASYNC_FUTURE_MEMBER(nothing) BOOST_ASYNC_FUTURE_MEMBER(thrower) BOOST_ASYNC_FUTURE_MEMBER(unique) BOOST_ASYNC_FUTURE_MEMBER(arg) BOOST_ASYNC_FUTURE_MEMBER(own) BOOST_ASYNC_FUTURE_MEMBER(self) BOOST_ASYNC_FUTURE_MEMBER(cont) };
struct expect_t { W* w; int id; int parts; };
void ready_check(W* w,int id,int parts){ sim::atomic_section s; if(w->finished[id]<parts) sim_fail("future-ready-early","future of job %d is ready but %d of %d parts of the job have finished",id,w->finished[id],parts); for(auto& c:w->cell[id]) sim_cell_write(&c,"job effects read by the owner of the future"); }
template<class F> bool bounded(F& f,int id){ if(!f.valid()) sim_fail("future-invalid","future of job %d is invalid",id); for(int i=0;i<400;i++){ if(f.wait_for(std::chrono::seconds(0))==std::future_status::ready) return true; sim_sleep(10*sim::ms); } sim_fail("future-never-ready","future of job %d is still pending after 4 s",id); }
template<class F> void expect_error(F& f,int id){ try{ f.get(); } catch(sim_error& e){ if(e.id!=id) sim_fail("wrong-outcome","future of job %d got the exception of job %d",id,e.id); return; } catch(std::exception& e){ sim_fail("wrong-outcome","future of job %d: unexpected exception %s",id,e.what()); } sim_fail("exception-lost","job %d threw but its future reports success",id); }
template<class F,class C> void expect_value(F& f,int id,C c){ try{ c(f); } catch(std::exception& e){ sim_fail("wrong-outcome","job %d returned normally but its future throws %s",id,e.what()); } }
template<class F> void wait_some(F& f,int id,int mode){ if(mode==0) bounded(f,id); else if(mode==1) f.wait(); }
void one(W* w,pool_t& pool,int id,int kind,int d,int mode,bool thr,int prio){
  const bool multi=false; (void)multi;
  switch(kind){
   case 0: { auto f=ba::post_future(pool,[w,id,d]{ begin(w,id); delay(d); finish(w,id); return id*7; },"",prio); wait_some(f,id,mode); expect_value(f,id,[&](auto& f){ if(f.get()!=id*7) sim_fail("wrong-outcome","value of job %d",id); }); ready_check(w,id,1); break; }
   case 1: { auto f=ba::post_future(pool,[w,id,d]{ begin(w,id); delay(d); finish(w,id); return std::unique_ptr<int>(new int(id*7)); },"",prio); wait_some(f,id,mode); expect_value(f,id,[&](auto& f){ auto p=f.get(); if(!p||*p!=id*7) sim_fail("wrong-outcome","value of job %d",id); }); ready_check(w,id,1); break; }
   case 2: { token t(id); auto f=ba::post_future(pool,[w,id,d,t]{ begin(w,id); delay(d); finish(w,id); return t; },"",prio); wait_some(f,id,mode); expect_value(f,id,[&](auto& f){ token r=f.get(); r.check("result"); if(r.id!=id) sim_fail("wrong-outcome","value of job %d",id); }); ready_check(w,id,1); break; }
   case 3: { auto f=ba::post_future(pool,[w,id,d]{ begin(w,id); delay(d); finish(w,id); },"",prio); wait_some(f,id,mode); expect_value(f,id,[&](auto& f){ f.get(); }); ready_check(w,id,1); break; }
   case 4: { auto f=ba::post_future(pool,[w,id,d]()->int{ begin(w,id); delay(d); finish(w,id); throw sim_error(id); },"",prio); wait_some(f,id,mode); expect_error(f,id); ready_check(w,id,1); break; }
   case 5: { auto f=ba::post_future(pool,[w,id,d,thr]{ begin(w,id); return ba::top_level_callback_continuation<int>(main_int(w,id,d,thr)); },"",prio); wait_some(f,id,mode); if(thr) expect_error(f,id); else expect_value(f,id,[&](auto& f){ int v=f.get(); if(v!=id*200+3) sim_fail("wrong-outcome","value %d of continuation job %d",v,id); }); ready_check(w,id,2); break; }
   case 6: { auto f=ba::post_future(pool,[w,id,d,thr]{ begin(w,id); return ba::top_level_callback_continuation<void>(main_void(w,id,d,thr)); },"",prio); wait_some(f,id,mode); if(thr) expect_error(f,id); else expect_value(f,id,[&](auto& f){ f.get(); }); ready_check(w,id,2); break; }
   case 7: { auto f=ba::post_future(pool,[w,id,d,thr]{ begin(w,id); return ba::top_level_continuation<int>(main_fut(w,id,d,thr)); },"",prio); wait_some(f,id,mode); if(thr) expect_error(f,id); else expect_value(f,id,[&](auto& f){ int v=f.get(); if(v!=id*200+3) sim_fail("wrong-outcome","value %d of future-continuation job %d",v,id); }); ready_check(w,id,2); break; }
   case 8: { auto tup=ba::interruptible_post_future(pool,[w,id,d]{ begin(w,id); delay(d); finish(w,id); return id*7; },"",prio); auto f=std::move(std::get<0>(tup)); wait_some(f,id,mode); expect_value(f,id,[&](auto& f){ if(f.get()!=id*7) sim_fail("wrong-outcome","value of job %d",id); }); ready_check(w,id,1); break; }
   case 9: { auto f=ba::post_future(pool,[w,id,d]()->void{ begin(w,id); delay(d); finish(w,id); throw sim_error(id); },"",prio); wait_some(f,id,mode); expect_error(f,id); ready_check(w,id,1); break; }
   case 10: { auto f=ba::post_future(pool,[w,id,d]{ begin(w,id); delay(d); finish(w,id); throw sim_error(id); return ba::top_level_callback_continuation<int>(main_int(w,id,d,false)); },"",prio); wait_some(f,id,mode); expect_error(f,id); ready_check(w,id,1); break; }
   default: { auto f=ba::post_future(pool,[w,id,d]{ begin(w,id); delay(d); finish(w,id); return std::string(50,(char)('a'+id%26)); },"",prio); f.wait(); expect_value(f,id,[&](auto& f){ if(f.get()!=std::string(50,(char)('a'+id%26))) sim_fail("wrong-outcome","value of job %d",id); }); ready_check(w,id,1); break; }
  } }
void serv(W* w,Proxy& p,int id,int kind,int d,int mode,bool thr){
  switch(kind){
   case 0: { auto f=p.value(id,d); wait_some(f,id,mode); expect_value(f,id,[&](auto& f){ if(f.get()!=id*7) sim_fail("wrong-outcome","value of call %d",id); }); ready_check(w,id,1); break; }
   case 1: { auto f=p.nothing(id,d); wait_some(f,id,mode); expect_value(f,id,[&](auto& f){ f.get(); }); ready_check(w,id,1); break; }
   case 2: { auto f=p.thrower(id,d); wait_some(f,id,mode); expect_error(f,id); ready_check(w,id,1); break; }
   case 3: { auto f=p.unique(id,d); wait_some(f,id,mode); expect_value(f,id,[&](auto& f){ auto q=f.get(); if(!q||*q!=id*7) sim_fail("wrong-outcome","value of call %d",id); }); ready_check(w,id,1); break; }
   case 4: { auto f=p.arg(std::unique_ptr<int>(new int(1000)),token(id),id); wait_some(f,id,mode); expect_value(f,id,[&](auto& f){ if(f.get()!=1000+id) sim_fail("wrong-outcome","value of call %d",id); }); ready_check(w,id,1); break; }
   case 5: { auto f=p.own(id,d,thr).get(); wait_some(*f,id,mode); if(thr) expect_error(*f,id); else expect_value(*f,id,[&](auto& f){ if(f.get()!=id*7) sim_fail("wrong-outcome","value of posted work %d",id); }); ready_check(w,id,1); break; }
   case 6: { auto f=p.self(id,d).get(); wait_some(*f,id,mode); expect_value(*f,id,[&](auto& f){ if(f.get()!=id*7) sim_fail("wrong-outcome","value of posted work %d",id); }); ready_check(w,id,1); break; }
   default: { auto f=p.cont(id,d,thr).get(); wait_some(*f,id,mode); if(thr) expect_error(*f,id); else expect_value(*f,id,[&](auto& f){ int v=f.get(); if(v!=id*200+3) sim_fail("wrong-outcome","value %d of continuation %d",v,id); }); ready_check(w,id,2); break; }
  } }
struct op{ int id,kind,d,mode; bool thr; int prio; };
std::vector<std::vector<op>> make_plan(int nc,int kinds){ std::vector<std::vector<op>> plan(nc); int id=0; for(auto& p:plan){ int n=1+sim_pick(4); for(int i=0;i<n&&id<MAXJ;i++){ op o; o.id=id++; o.kind=sim_pick(kinds); o.d=sim_pick(3); o.mode=sim_pick(3); o.thr=sim_pick(3)==2; o.prio=sim_pick(4); p.push_back(o); sim_probe("jobs",1); if(o.thr) sim_probe("throwing jobs",1); } } return plan; }
}
SIM_SCENARIO(P03,pool,SIM_HB,10){
  pool_kind* k=pool_pick(); sim_probe(k->name,1); W w; bool spsc=k->flags&PK_SPSC;
  { pool_t pool=k->make(1+sim_pick(3)); auto plan=make_plan(spsc?1:1+sim_pick(3),spsc?5:12);
    bool prio=k->flags&(PK_PRIO|PK_MULTIQ);
    if(spsc) for(auto& o:plan[0]) one(&w,pool,o.id,o.kind,o.d,o.mode,o.thr,0);
    else { std::vector<client> cs; for(auto& p:plan) cs.emplace_back([&w,pool,&p,prio]()mutable{ for(auto& o:p) one(&w,pool,o.id,o.kind,o.d,o.mode,o.thr,prio?o.prio:0); }); for(auto& c:cs) c.join(); }
    // the workers must all still serve
    auto f=ba::post_future(pool,[]{ return 11; }); bounded(f,-1); if(f.get()!=11) sim_fail("wrong-outcome","probe job"); }
  expect_no_leak("results and arguments"); }
SIM_SCENARIO(P03,servant,SIM_HB,6){
  W w; { pool_kind* k=pool_pick(PK_SINGLE,PK_SPSC); pool_kind* k2=pool_pick(0,PK_SPSC); sim_probe(k2->name,1);
    pool_t side=k2->make(1+sim_pick(3)); Proxy p(k->make(1),side,&w); side.reset();
    auto plan=make_plan(1+sim_pick(3),8); std::vector<client> cs; for(auto& pl:plan) cs.emplace_back([&w,p,&pl]()mutable{ for(auto& o:pl) serv(&w,p,o.id,o.kind,o.d,o.mode,o.thr); }); for(auto& c:cs) c.join(); }
  expect_no_leak("results and arguments"); }
