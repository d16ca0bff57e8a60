// P12: continuations over futures, with and without timeout.
#include "pools.hpp"
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
namespace {
typedef std::chrono::high_resolution_clock clk;
enum src { READY, VALUE, EXC, NEVER, NSRC };
struct C { int form; bool timed; long tmo; std::vector<int> src; std::vector<long> delay; int started=0, done=0; bool incomplete=false; std::vector<std::shared_ptr<std::promise<long>>> pr; std::vector<bool> set_done; clk::time_point start; std::vector<clk::time_point> set_at; };
struct W { std::vector<C> c; boost::mutex m; bool early=false; };
long val(int c,int i){ return 1000*c+i+1; }
// the harness' side of a future: set at some time by a helper thread
void feeder(W* w){ std::vector<std::tuple<long,int,int>> ev; for(unsigned i=0;i<w->c.size();i++) if(w->c[i].form!=2) for(unsigned j=0;j<w->c[i].src.size();j++) if(w->c[i].src[j]==VALUE||w->c[i].src[j]==EXC) ev.emplace_back(w->c[i].delay[j],i,j); std::sort(ev.begin(),ev.end()); long t=0;
  for(auto& e:ev){ if(std::get<0>(e)>t){ sim_sleep((std::get<0>(e)-t)*sim::ms); t=std::get<0>(e); } C& c=w->c[std::get<1>(e)]; int j=std::get<2>(e); if(c.src[j]==EXC) c.pr[j]->set_exception(std::make_exception_ptr(sim_error(val(std::get<1>(e),j)))); else c.pr[j]->set_value(val(std::get<1>(e),j)); sim::atomic_section s; c.set_done[j]=true; c.set_at[j]=clk::now(); } }
bool rdy(std::future<long>& f){ return f.wait_for(std::chrono::seconds(0))==std::future_status::ready; }
bool rdy(std::shared_future<long>& f){ return f.wait_for(std::chrono::seconds(0))==std::future_status::ready; }
// one future of continuation c; returns its value, throws its exception, or counts it as missing
template<class F> long take(W* w,int ci,int j,F& f,int& missing){ C& c=w->c[ci]; auto now=clk::now(); if(!rdy(f)){ missing++; bool was; { sim::atomic_section s; was=c.set_done[j]||c.src[j]==READY; } if(was&&!rdy(f)) sim_fail("lost-result","continuation %d: future %d was ready but is reported as not ready",ci,j); if(rdy(f)){ return 0; } 
    if(w->early) return 0; if(!c.timed) sim_fail("too-early","continuation %d without timeout completes although future %d is not ready",ci,j); if(now-c.start<std::chrono::milliseconds(c.tmo)) sim_fail("too-early","continuation %d completes before its timeout although future %d is not ready",ci,j); return 0; }
  try{ long v=f.get(); if(c.src[j]==EXC) sim_fail("wrong-outcome","continuation %d: future %d has a value instead of its exception",ci,j); if(v!=val(ci,j)) sim_fail("wrong-value","continuation %d: future %d has value %ld, expected %ld",ci,j,v,val(ci,j)); return v; }
  catch(sim_error& e){ if(c.src[j]!=EXC||e.id!=val(ci,j)) sim_fail("foreign-exception","continuation %d: future %d failed with exception of %d",ci,j,e.id); throw; }
  catch(std::exception& e){ if(!w->early) sim_fail("wrong-exception","continuation %d: future %d: %s",ci,j,e.what()); missing++; } return 0; }
template<class R> struct ender { W* w; int ci; R r; std::shared_ptr<token> tok; long sum=0; int missing=0; std::exception_ptr ex; ender(W* w,int ci,R r):w(w),ci(ci),r(r),tok(std::make_shared<token>(ci)){}
  void enter(){ sim::atomic_section s; tok->check("completion of"); if(w->c[ci].done++) sim_fail("completion-twice","completion of continuation %d called twice",ci); }
  template<class F> void one(int j,F& f){ try{ sum+=take(w,ci,j,f,missing); }catch(sim_error&){ ex=std::current_exception(); } }
  void leave(){ { sim::atomic_section s; w->c[ci].incomplete=missing>0; } if(ex) r.set_exception(ex); else r.set_value(missing?-1:sum); }
  template<class A,class B> void operator()(std::tuple<A,B> t){ enter(); one(0,std::get<0>(t)); one(1,std::get<1>(t)); leave(); }
  template<class A> void operator()(std::vector<A> t){ enter(); if(t.size()!=w->c[ci].src.size()) sim_fail("wrong-count","continuation %d gets %d futures of %d",ci,(int)t.size(),(int)w->c[ci].src.size()); for(unsigned j=0;j<t.size();j++) one(j,t[j]); leave(); } };
// a subtask instead of a future: same behaviour, but completes through the continuation machinery (maybe in a nested continuation)
struct sub : ba::continuation_task<long> { W* w; int ci,j; sub(W* w,int ci,int j):ba::continuation_task<long>("sub"),w(w),ci(ci),j(j){}
  void operator()(){ auto r=this->this_task_result(); C& c=w->c[ci]; auto ww=w; int i=ci,jj=j; if(c.src[j]==EXC){ if(c.delay[j]%2) throw sim_error(val(ci,j)); r.set_exception(std::make_exception_ptr(sim_error(val(ci,j)))); return; }
    if(c.src[j]==VALUE){ sim_sleep(c.delay[j]*sim::ms/8); auto ls=ba::get_thread_scheduler<job_t>().lock(); if(c.delay[j]%3==0&&ls.is_valid()){ std::vector<std::future<long>> fs; fs.push_back(ba::post_future(ls,[ww,i,jj]{ return val(i,jj); })); ba::create_continuation([r](std::vector<std::future<long>> v){ try{ r.set_value(v[0].get()); }catch(...){ r.set_exception(std::current_exception()); } },std::move(fs)); return; } }
    r.set_value(val(ci,j)); } };
struct top : ba::continuation_task<long> { W* w; int ci; top(W* w,int ci):ba::continuation_task<long>("top"),w(w),ci(ci){}
  void operator()(){ auto r=this->this_task_result(); C& c=w->c[ci]; { sim::atomic_section s; if(c.started++) sim_fail("ran-twice","top-level task %d runs twice",ci); } ender<decltype(r)> e(w,ci,r); std::chrono::milliseconds d(c.tmo); c.start=clk::now();
    switch(c.form){ case 0: if(c.timed) ba::create_continuation_timeout(std::move(e),d,c.pr[0]->get_future(),c.pr[1]->get_future()); else ba::create_continuation(std::move(e),c.pr[0]->get_future(),c.pr[1]->get_future()); break;
      case 1: { std::vector<std::future<long>> v; for(auto& p:c.pr) v.push_back(p->get_future()); if(c.timed) ba::create_continuation_timeout(std::move(e),d,std::move(v)); else ba::create_continuation(std::move(e),std::move(v)); break; }
      case 2: if(c.timed) ba::create_continuation_timeout(std::move(e),d,sub(w,ci,0),sub(w,ci,1)); else ba::create_continuation(std::move(e),sub(w,ci,0),sub(w,ci,1)); break;
      case 3: { std::vector<std::shared_future<long>> v; for(auto& p:c.pr) v.push_back(p->get_future().share()); if(c.timed) ba::create_continuation_job_timeout<job_t>(std::move(e),d,std::move(v)); else ba::create_continuation_job<job_t>(std::move(e),std::move(v)); break; }
      default: if(c.timed) ba::create_continuation_job_timeout<job_t>(std::move(e),d,c.pr[0]->get_future(),c.pr[1]->get_future()); else ba::create_continuation_job<job_t>(std::move(e),c.pr[0]->get_future(),c.pr[1]->get_future()); } } };
void plan(W& w,int n,bool allow_never){ for(int i=0;i<n;i++){ w.c.emplace_back(); C& c=w.c.back(); c.form=sim_pick(5); c.timed=sim_pick(2); c.tmo=1+sim_pick(40); int k=(c.form==1||c.form==3)?(int)sim_pick(4):2; for(int j=0;j<k;j++){ int s=sim_pick((c.timed&&allow_never&&c.form!=2)?4:3); c.src.push_back(s); c.delay.push_back(sim_pick(40)); auto p=std::make_shared<std::promise<long>>(); if(s==READY) p->set_value(val(i,j)); c.pr.push_back(p); c.set_done.push_back(c.form!=2&&s==READY); c.set_at.emplace_back(); } } 
  for(auto& c:w.c) if(c.form==2) for(unsigned j=0;j<c.src.size();j++){ c.set_done[j]=false; if(c.src[j]==READY) c.src[j]=VALUE,c.delay[j]=1; } }
void check_result(W& w,int ci,std::function<long()> get){ C& c=w.c[ci]; bool hasex=false; for(int s:c.src) if(s==EXC) hasex=true; long want=0; for(unsigned j=0;j<c.src.size();j++) want+=val(ci,j);
  try{ long v=get(); if(c.incomplete? v!=-1 : (v!=want||hasex)) sim_fail("wrong-value","continuation %d has result %ld",ci,v); }
  catch(sim_error& e){ bool own=false; for(unsigned j=0;j<c.src.size();j++) if(c.src[j]==EXC&&e.id==val(ci,j)) own=true; if(!own) sim_fail("foreign-exception","continuation %d failed with exception of %d",ci,e.id); }
  catch(std::exception& e){ sim_fail("wrong-exception","continuation %d failed with %s",ci,e.what()); } }
void run_futures(){ W w; plan(w,1+sim_pick(4),true); pool_kind* k=pool_pick(0,PK_SPSC); sim_probe(k->name,1); int mode=sim_pick(2);
  { pool_t pool=k->make(1+sim_pick(3)); std::vector<std::future<long>> fs; W* ww=&w; for(unsigned i=0;i<w.c.size();i++){ if(mode) fs.push_back(ba::post_future(pool,[ww,i]{ return ba::top_level_continuation<long>(top(ww,i)); })); else fs.push_back(ba::post_future(pool,[ww,i]{ return ba::top_level_continuation_job<long,job_t>(top(ww,i)); })); }
    client f([&]{ W fw; feeder(ww); }); // other work keeps the workers busy for a while
    int busy=sim_pick(3)*4; for(int i=0;i<busy;i++) pool.post(job_t([]{ sim_sleep(2*sim::ms); }));
    for(unsigned i=0;i<fs.size();i++){ if(!wait_for([&]{ return rdy(fs[i]); },300)) sim_fail("never-completes","continuation %d (form %d, timed %d) never completes",i,w.c[i].form,(int)w.c[i].timed); check_result(w,i,[&]{ return fs[i].get(); }); }
    f.join(); }
  for(auto& c:w.c) if(c.done!=1||c.started!=1) sim_fail("completion-lost","completion called %d times",c.done); w.c.clear(); expect_no_leak("completions"); }
struct Servant : ba::trackable_servant<> { typedef int requires_weak_scheduler; Servant(ba::any_weak_scheduler<> s,pool_t p):ba::trackable_servant<>(s,p){}
  void go(W* w,int i,std::atomic<int>* n){ post_callback([w,i]{ return ba::top_level_continuation<long>(top(w,i)); },[w,i,n](ba::expected<long> e){ check_result(*w,i,[&]{ return e.get(); }); ++*n; }); } };
struct Proxy : ba::servant_proxy<Proxy,Servant> { template<class S> Proxy(S s,pool_t p):ba::servant_proxy<Proxy,Servant>(s,p){} BOOST_ASYNC_POST_MEMBER(go) };
void run_servant(){ W w; plan(w,1+sim_pick(3),true); pool_kind* k=pool_pick(0,PK_SPSC); pool_kind* k1=pool_pick(PK_SINGLE,PK_SPSC); std::vector<std::atomic<int>> cnt(w.c.size()); for(auto& c:cnt) c=0;
  { pool_t pool=k->make(1+sim_pick(3)), s=k1->make(1); { Proxy p(s,pool); W* ww=&w; for(unsigned i=0;i<w.c.size();i++) p.go(ww,i,&cnt[i]); client f([&]{ feeder(ww); }); if(!wait_for([&]{ for(auto& c:cnt) if(!c) return false; return true; },300)) sim_fail("never-completes","callback of a continuation never comes"); f.join(); } }
  for(auto& c:cnt) if(c!=1) sim_fail("completed-twice","callback called %d times",(int)c); for(auto& c:w.c) if(c.done!=1) sim_fail("completion-lost","completion called %d times",c.done); w.c.clear(); expect_no_leak("completions"); }
// interrupted or abandoned: completes at most once, the waiting future always becomes ready
void run_stop(){ W w; w.early=true; plan(w,1+sim_pick(3),false); pool_kind* k=pool_pick(0,PK_SPSC); std::vector<std::future<long>> fs; bool drop=sim_pick(2); W* ww=&w; { pool_t pool=k->make(1+sim_pick(2)); std::vector<ba::any_interruptible> in; for(unsigned i=0;i<w.c.size();i++){ auto t=ba::interruptible_post_future(pool,[ww,i]{ return ba::top_level_continuation<long>(top(ww,i)); }); fs.push_back(std::move(std::get<0>(t))); in.push_back(std::get<1>(t)); }
    client f([&]{ feeder(ww); }); for(auto& c:w.c) for(unsigned j=0;j<c.src.size();j++) (void)0; sim_sleep(sim_pick(10)*3*sim::ms); if(!drop){ for(auto& x:in) if(sim_pick(3)) x.interrupt(); for(unsigned i=0;i<fs.size();i++) if(!wait_for([&]{ return rdy(fs[i]); },300)) sim_fail("never-completes","interrupted continuation %d never completes",i); } else { in.clear(); pool.reset(); } f.join(); }
  for(auto& f:fs){ if(!rdy(f)) sim_fail("never-completes","future not ready although the pool is gone"); try{ f.get(); }catch(std::exception&){ } } for(auto& c:w.c) if(c.done>1) sim_fail("completion-twice","completion called %d times",c.done); fs.clear(); w.c.clear(); expect_no_leak("completions"); }
}
SIM_SCENARIO(P12,futures,0,10){ run_futures(); }
SIM_SCENARIO(P12,servant,0,5){ run_servant(); }
SIM_SCENARIO(P12,stop,0,3){ run_stop(); }
