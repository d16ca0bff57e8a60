// P18: deadline timers: every wait completes exactly once, on time or aborted, in the right thread.
#include "pools.hpp"
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
#include <boost/asynchronous/extensions/asio/asio_deadline_timer.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/post.hpp>
namespace {
typedef boost::system::error_code ec; typedef ba::asio_deadline_timer_proxy timer_t_; typedef std::chrono::milliseconds msec;
enum { NT=3, MAXW=64 };
struct wait { int timer=-1; uint64_t not_before=0; bool abortable=false, one=false; uint64_t cancel_done=0; int calls=0, err=0; bool gone=false; };
struct model { wait w[MAXW]; int n=0; int ones[NT]={}; int abort_one[NT]={}; int act=0; boost::thread::id servant_thread, asio_thread; int alive=0; bool ended=false; };
model* M;
enum how { CANCEL, RESET, DROP, ONE };
int new_wait(int t,uint64_t nb){ sim::atomic_section s; if(M->n>=MAXW) return -1; int i=M->n++; M->w[i]=wait(); M->w[i].timer=t; M->w[i].not_before=nb; return i; }
// requests are made by one thread at a time and reach the timer in that order
std::vector<int> stop_waits(int t,how h){ sim::atomic_section s; std::vector<int> r; for(int i=0;i<M->n;i++) if(M->w[i].timer==t&&!M->w[i].gone){ if(h==ONE){ M->w[i].one=true; } else { M->w[i].abortable=true; if(h!=CANCEL) M->w[i].gone=true; r.push_back(i); } } if(h==ONE) M->ones[t]++; return r; }
void stopped(std::vector<int> const& v){ sim::atomic_section s; for(int i:v) if(!M->w[i].cancel_done) M->w[i].cancel_done=sim_now(); }
void called(int i,ec const& e){ sim::atomic_section s; wait& x=M->w[i]; sim_event("timer callback",i,e?1:0);
  if(++x.calls>1) sim_fail("callback-twice","wait %d completed %d times",i,x.calls);
  if(!e){ if(sim_now()<x.not_before) sim_fail("fired-early","wait %d fired %llu us before its delay was over",i,(unsigned long long)(x.not_before-sim_now())/1000); if(x.cancel_done&&x.cancel_done<x.not_before) sim_fail("cancelled-but-fired","wait %d reports success although it was cancelled before its delay was over",i); sim_probe("timer fired",1); }
  else { if(e!=boost::asio::error::operation_aborted) sim_fail("wrong-error","wait %d failed with error %d",i,e.value()); x.err=1; if(!x.abortable){ if(!x.one) sim_fail("aborted-without-cancel","wait %d was aborted although nobody cancelled it",i); if(++M->abort_one[x.timer]>M->ones[x.timer]) sim_fail("aborted-too-many","cancel_one was called %d times but %d waits were aborted",M->ones[x.timer],M->abort_one[x.timer]); } sim_probe("timer aborted",1); } }
pool_t asio_pool(){ return ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>(1); }
struct S : ba::trackable_servant<> { typedef int simple_ctor_none; typedef int requires_weak_scheduler;
  std::vector<std::shared_ptr<timer_t_>> t; uint64_t exp[NT]; std::shared_ptr<token> tok; bool dead=false;
  S(ba::any_weak_scheduler<> s,pool_t a,std::shared_ptr<token> k):ba::trackable_servant<>(s,a),t(NT),tok(k){ sim::atomic_section x; M->servant_thread=boost::this_thread::get_id(); M->alive=1; }
  ~S(){ sim::atomic_section x; M->alive=0; for(int i=0;i<M->n;i++) M->w[i].abortable=true; }
  void mark(std::vector<int> v){ if(v.empty()) return; get_worker().post(job_t([v]{ stopped(v); })); }
  std::function<void(ec const&)> cb(int i,int again,bool thr){ return [this,i,again,thr](ec const& e){ { sim::atomic_section x; if(!M->alive) sim_fail("callback-after-destruction","wait %d completed after its servant was destroyed",i); if(boost::this_thread::get_id()!=M->servant_thread) sim_fail("wrong-thread","the callback of wait %d runs outside its servant's thread",i); tok->check("callback"); }
      called(i,e); if(again&&!e) { int tm=M->w[i].timer; arm(tm,again,0,false); } if(thr) throw sim_error(i); }; }
  // create (or replace) the timer and wait
  void start(int i,int ms,int again,bool thr){ std::vector<int> v; if(t[i]) v=stop_waits(i,DROP); uint64_t nb=sim_now()+ms*sim::ms; t[i]=std::make_shared<timer_t_>(get_worker(),msec(ms)); mark(v); exp[i]=nb; wait_(i,again,thr); }
  void wait_(int i,int again,bool thr){ if(!t[i]) return; int w=new_wait(i,exp[i]); if(w<0) return; async_wait(*t[i],cb(w,again,thr)); }
  void arm(int i,int ms,int again,bool thr){ if(!t[i]) return start(i,ms,again,thr); auto v=stop_waits(i,RESET); exp[i]=sim_now()+ms*sim::ms; int w=new_wait(i,exp[i]); if(w<0) return; async_wait_duration(*t[i],msec(ms),cb(w,again,thr)); mark(v); }
  void rearm(int i,int ms){ if(!t[i]) return; auto v=stop_waits(i,RESET); exp[i]=sim_now()+ms*sim::ms; t[i]->reset(msec(ms)); mark(v); wait_(i,0,false); }
  void cancel(int i){ if(!t[i]) return; auto v=stop_waits(i,CANCEL); t[i]->cancel(); mark(v); }
  void cancel_one(int i){ if(!t[i]) return; stop_waits(i,ONE); t[i]->cancel_one(); }
  void drop(int i){ if(!t[i]) return; auto v=stop_waits(i,DROP); t[i].reset(); mark(v); }
  void op(int k,int i,int ms,int again,bool thr){ sim_event("op",k,i); switch(k){ case 0: case 1: start(i,ms,again,thr); break; case 2: wait_(i,again,thr); break; case 3: arm(i,ms,again,thr); break; case 4: rearm(i,ms); break; case 5: cancel(i); break; case 6: cancel_one(i); break; default: drop(i); } }
};
struct SP : ba::servant_proxy<SP,S> { template<class X> SP(X s,pool_t a,std::shared_ptr<token> k):ba::servant_proxy<SP,S>(s,a,k){} BOOST_ASYNC_POST_MEMBER(op) };
void check_all(){ sim::atomic_section s; for(int i=0;i<M->n;i++) if(!M->w[i].calls) sim_fail("callback-lost","wait %d on timer %d never completed%s",i,M->w[i].timer,M->w[i].abortable?" although it was cancelled":""); }
bool all_called(){ for(int i=0;i<M->n;i++) if(!M->w[i].calls) return false; return true; }
struct cmd { int k,i,ms,again,gap; bool thr; };
std::vector<cmd> plan_ops(int maxn){ std::vector<cmd> p; int n=1+sim_pick(maxn); for(int i=0;i<n;i++){ static const int d[]={20,0,1,5,50,200}; cmd c; c.k=i==0?0:sim_pick(8); c.i=sim_pick(NT); c.ms=d[sim_pick(6)]; static const int g[]={0,0,1,5,20,21,50,100}; c.gap=g[sim_pick(8)]; c.again=sim_pick(5)==4?10:0; c.thr=sim_pick(8)==7; p.push_back(c); } return p; }
}
// timers owned by a servant in any single-threaded scheduler, or in the timer's own scheduler
SIM_SCENARIO(P18,servant,0,10){ model m; M=&m; auto tok=std::make_shared<token>(1);
  { pool_t a=asio_pool(); bool same=sim_pick(4)==3; pool_t own= same?a:pool_pick(PK_SINGLE,PK_SPSC)->make(1); { int np=1+sim_pick(2); std::vector<std::vector<cmd>> plan(np); for(auto& p:plan) p=plan_ops(7); bool early=sim_pick(3)==2; bool keep=sim_pick(2);
      { std::shared_ptr<SP> p=std::make_shared<SP>(own,a,tok); std::vector<client> cs; for(int c=0;c<np;c++) cs.emplace_back([&,c]{ SP q(*p); for(auto& o:plan[c]){ if(o.gap) sim_sleep(o.gap*sim::ms); q.op(o.k,o.i,o.ms,o.again,o.thr); } });
        if(!keep) { } for(auto& c:cs) c.join();
        if(!early){ sim_sleep(100*sim::ms); if(!wait_for([&]{ return all_called(); },400)) check_all(); }
        else if(sim_pick(2)) sim_sleep(sim_pick(60)*sim::ms); }
      sim_sleep(500*sim::ms); { sim::atomic_section s; if(M->alive) sim_fail("servant-not-destroyed","the servant outlives its last proxy"); } }
    own.reset(); a.reset(); }
  sim_sleep(1*sim::sec); tok.reset(); expect_no_leak("timers"); }
// timers used directly: the callback runs in the timer's scheduler
SIM_SCENARIO(P18,direct,0,4){ model m; M=&m; auto tok=std::make_shared<token>(2);
  { pool_t a=asio_pool(); M->asio_thread=a.thread_ids()[0]; bool early=sim_pick(4)==3; std::vector<cmd> p=plan_ops(10);
    { std::vector<std::shared_ptr<timer_t_>> t(NT); uint64_t exp[NT]; auto mark=[&](std::vector<int> v){ if(!v.empty()) a.post(job_t([v]{ stopped(v); })); };
      auto cb=[&](int w,bool thr){ return std::function<void(ec const&)>([w,thr,tok](ec const& e){ { sim::atomic_section s; if(boost::this_thread::get_id()!=M->asio_thread) sim_fail("wrong-thread","the callback of wait %d runs outside the timer's thread",w); tok->check("callback"); } called(w,e); if(thr) throw sim_error(w); }); };
      for(auto& o:p){ if(o.gap) sim_sleep(o.gap*sim::ms); int i=o.i; std::vector<int> v; if(!t[i]&&o.k>3) continue;
        switch(o.k){ case 0: if(t[i]) v=stop_waits(i,DROP); exp[i]=sim_now()+o.ms*sim::ms; { int w=new_wait(i,exp[i]); t[i]=std::make_shared<timer_t_>(a,msec(o.ms),cb(w,o.thr)); } mark(v); break;
          case 1: if(t[i]) v=stop_waits(i,DROP); exp[i]=sim_now()+o.ms*sim::ms; t[i]=std::make_shared<timer_t_>(a,msec(o.ms)); mark(v); break;
          case 2: if(t[i]){ int w=new_wait(i,exp[i]); t[i]->async_wait(cb(w,o.thr)); } break;
          case 3: case 4: if(!t[i]) { t[i]=std::make_shared<timer_t_>(a); } v=stop_waits(i,RESET); exp[i]=sim_now()+o.ms*sim::ms; { int w=new_wait(i,exp[i]); t[i]->reset(msec(o.ms),cb(w,o.thr)); } mark(v); break;
          case 5: v=stop_waits(i,CANCEL); t[i]->cancel(); mark(v); break; case 6: stop_waits(i,ONE); t[i]->cancel_one(); break;
          default: v=stop_waits(i,DROP); t[i].reset(); mark(v); } }
      if(!early){ if(!wait_for([&]{ return all_called(); },400)) check_all(); } else { { sim::atomic_section s; for(int i=0;i<M->n;i++) M->w[i].abortable=true; } sim_probe("timers dropped early",1); if(sim_pick(2)) a.reset(); } }
    if(early&&a.is_valid()){ if(!wait_for([&]{ return all_called(); },400)) check_all(); } }
  sim_sleep(1*sim::sec); tok.reset(); expect_no_leak("timers"); }
