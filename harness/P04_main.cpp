// P04: callbacks come back exactly once, in the servant's thread, and only while the servant lives.
#include "pools.hpp"
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
namespace {
enum { MAXJ=48 };
struct W {
  int work_run[MAXJ]={0}, work_done[MAXJ]={0}, cb[MAXJ]={0}, want[MAXJ]={0}; bool issued[MAXJ]={false}, many[MAXJ]={false}; sim_cell cell[MAXJ];
  boost::thread::id th; bool alive=false,destroyed=false; sim_cell state; int inside=0;
  W(){ for(auto& c:cell) sim_cell_init(&c); sim_cell_init(&state); }
};
// bodies ------------------------------------------------------------------------------------
void work_begin(W* w,int id){ sim::atomic_section s; w->work_run[id]++; if(!w->many[id]) sim_cell_write(&w->cell[id],"work effects"); }
void work_end(W* w,int id){ sim_point(); sim::atomic_section s; w->work_done[id]++; if(!w->many[id]) sim_cell_write(&w->cell[id],"work effects"); sim_event("work done",id,0); }
struct in_cb { W* w; in_cb(W* ww,int id,bool aborted=false):w(ww){ { sim::atomic_section s; sim_event("callback",id,sim_tid());
    if(boost::this_thread::get_id()!=w->th) sim_fail("wrong-thread","callback %d runs in thread %d which is not the servant's",id,sim_tid());
    if(w->destroyed) sim_fail("callback-after-death","callback %d runs although the servant is destroyed",id);
    if(w->inside++) sim_fail("overlap","callback %d runs while another call or callback of the servant does",id);
    sim_cell_write(&w->state,"servant state");
    if(!aborted && w->work_done[id]<1) sim_fail("callback-early","callback %d runs before its work finished",id);
    if(++w->cb[id]>w->want[id]) sim_fail("callback-twice","callback %d ran %d times, expected %d",id,w->cb[id],w->want[id]);
    if(!w->many[id]) sim_cell_write(&w->cell[id],"work effects seen by the callback"); } sim_point(); }
  ~in_cb(){ sim_point(); sim::atomic_section s; w->inside--; sim_cell_write(&w->state,"servant state"); } };
struct in_call { W* w; in_call(W* ww):w(ww){ sim::atomic_section s; if(w->inside++) sim_fail("overlap","servant call overlaps"); sim_cell_write(&w->state,"servant state"); } ~in_call(){ sim::atomic_section s; sim_cell_write(&w->state,"servant state"); w->inside--; } };
struct nested { W* w; int old; nested(W* ww):w(ww){ sim::atomic_section s; old=w->inside; w->inside=0; } ~nested(){ sim::atomic_section s; w->inside=old; } };
void delay(int d){ if(d) sim_sleep(d*5*sim::ms); else sim_point(); }
template<class E> void check_error(E& e,int id){ try{ e.get(); } catch(sim_error& x){ if(x.id!=id) sim_fail("wrong-outcome","callback %d got the exception of %d",id,x.id); return; } catch(std::exception& x){ sim_fail("wrong-outcome","callback %d got %s",id,x.what()); } sim_fail("wrong-outcome","work %d threw but its callback got a value",id); }
struct leaf : ba::continuation_task<int> { int v; leaf(int x):v(x){} void operator()(){ auto r=this->this_task_result(); sim_point(); r.set_value(v); } };
struct cont : ba::continuation_task<int> { W* w; int id,d; bool thr; cont(W* ww,int i,int dd,bool t):w(ww),id(i),d(dd),thr(t){}
  void operator()(){ auto res=this->this_task_result(); W* ww=w; int i=id; bool t=thr;
    ba::create_callback_continuation([res,ww,i,t](std::tuple<ba::expected<int>,ba::expected<int>> r)mutable{ work_end(ww,i); try{ int v=std::get<0>(r).get()+std::get<1>(r).get(); if(t) res.set_exception(std::make_exception_ptr(sim_error(i))); else res.set_value(v); } catch(...){ res.set_exception(std::current_exception()); } },
      leaf(i),leaf(i*1000)); } };
struct vcont : ba::continuation_task<void> { W* w; int id; bool thr; vcont(W* ww,int i,bool t):w(ww),id(i),thr(t){}
  void operator()(){ auto res=this->this_task_result(); work_end(w,id); if(thr) res.set_exception(std::make_exception_ptr(sim_error(id))); else res.set_value(); } };
// a second servant, called through call_callback
struct Other { typedef int requires_weak_scheduler; Other(ba::any_weak_scheduler<>){} int foo(W* w,int id,int d,bool thr){ work_begin(w,id); delay(d); work_end(w,id); if(thr) throw sim_error(id); return id+5; } };
struct OtherProxy : ba::servant_proxy<OtherProxy,Other> { template<class S> OtherProxy(S s):ba::servant_proxy<OtherProxy,Other>(s){} BOOST_ASYNC_UNSAFE_MEMBER(foo) };
struct Servant : ba::trackable_servant<> { typedef int requires_weak_scheduler; W* w; std::shared_ptr<OtherProxy> other; pool_t side;
  Servant(ba::any_weak_scheduler<> s,pool_t p,W* ww,std::shared_ptr<OtherProxy> o,pool_t sd):ba::trackable_servant<>(s,p),w(ww),other(o),side(sd){ sim::atomic_section a; w->th=boost::this_thread::get_id(); w->alive=true; }
  ~Servant(){ in_call c(w); { sim::atomic_section s; w->alive=false; w->destroyed=true; } }
  void go(int id,int kind,int d,bool thr,int prio,bool cbthrows){ in_call c(w); W* ww=w; { sim::atomic_section s; w->issued[id]=true; w->want[id]=1; }
    auto icb=[ww,id,thr,cbthrows](ba::expected<int> r)mutable{ in_cb c(ww,id); if(thr) check_error(r,id); else if(r.has_exception()||r.get()!=id*3) sim_fail("wrong-outcome","callback %d got a wrong result",id); if(cbthrows) throw sim_error(id); };
    auto iwork=[ww,id,d,thr]()->int{ work_begin(ww,id); delay(d); work_end(ww,id); if(thr) throw sim_error(id); return id*3; };
    switch(kind){
     case 0: post_callback(std::move(iwork),icb,"",0,prio); break;
     case 1: post_callback(side,iwork,icb,"",0,prio); break;
     case 2: (void)interruptible_post_callback(std::move(iwork),icb,"",0,prio); break;
     case 3: post_callback([ww,id,d,thr]{ work_begin(ww,id); delay(d); work_end(ww,id); if(thr) throw sim_error(id); },[ww,id,thr,cbthrows](ba::expected<void> r){ in_cb c(ww,id); if(thr) check_error(r,id); else if(r.has_exception()) sim_fail("wrong-outcome","callback %d got an exception",id); if(cbthrows) throw sim_error(id); },"",0,prio); break;
     case 4: post_callback([ww,id,d,thr]{ work_begin(ww,id); return ba::top_level_callback_continuation<int>(cont(ww,id,d,thr)); },[ww,id,thr,cbthrows](ba::expected<int> r)mutable{ in_cb c(ww,id); if(thr) check_error(r,id); else if(r.has_exception()||r.get()!=id*1001) sim_fail("wrong-outcome","callback %d of a continuation got a wrong result",id); if(cbthrows) throw sim_error(id); },"",0,prio); break;
     case 5: { token t(id); post_callback([ww,id,d,t]{ work_begin(ww,id); delay(d); work_end(ww,id); return t; },[ww,id,cbthrows](ba::expected<token> r)mutable{ in_cb c(ww,id); if(r.has_exception()) sim_fail("wrong-outcome","callback %d got an exception",id); token t=r.get(); t.check("result"); if(t.id!=id) sim_fail("wrong-outcome","callback %d got result %d",id,t.id); if(cbthrows) throw sim_error(id); },"",0,prio); break; }
     case 6: { // safe callback, called n times from the pool
       int n=1+d; w->want[id]=n; w->many[id]=true; std::function<void(int,std::string)> cb=this->make_safe_callback(std::function<void(int,std::string)>([ww,id,cbthrows](int a,std::string s){ in_cb c(ww,id); if(a!=id||s!=std::string(30,'x')) sim_fail("wrong-outcome","safe callback %d got wrong arguments",id); if(cbthrows) throw sim_error(id); }),"",prio);
       for(int i=0;i<n;i++) ba::post_future(i%2?side:get_worker(),[ww,id,cb]{ work_begin(ww,id); work_end(ww,id); cb(id,std::string(30,'x')); }); break; }
     case 7: { // safe callback called by the servant itself
       auto cb=this->make_safe_callback([ww,id,cbthrows](int a){ in_cb c(ww,id); if(a!=id) sim_fail("wrong-outcome","safe callback %d got wrong argument",id); if(cbthrows) throw sim_error(id); },"",prio); { sim::atomic_section s; w->work_done[id]++; } nested nn(w); cb(id); break; }
     case 8: { // safe post callback: never inline
       auto cb=this->make_safe_post_callback([ww,id,cbthrows](int a){ in_cb c(ww,id); if(a!=id) sim_fail("wrong-outcome","safe callback %d got wrong argument",id); if(cbthrows) throw sim_error(id); },"",prio); { sim::atomic_section s; w->work_done[id]++; } cb(id); break; }
     case 9: call_callback(other->get_proxy(),other->foo(w,id,d,thr),[ww,id,thr,cbthrows](ba::expected<int> r)mutable{ in_cb c(ww,id); if(thr) check_error(r,id); else if(r.has_exception()||r.get()!=id+5) sim_fail("wrong-outcome","callback %d got a wrong result",id); if(cbthrows) throw sim_error(id); },"",0,prio); break;
     case 10: { auto f=post_self([ww,id]{ work_begin(ww,id); work_end(ww,id); in_cb c(ww,id); },"",prio); (void)f; break; }
     case 11: post_callback([ww,id,thr]{ work_begin(ww,id); return ba::top_level_callback_continuation<void>(vcont(ww,id,thr)); },[ww,id,thr,cbthrows](ba::expected<void> r)mutable{ in_cb c(ww,id); if(thr) check_error(r,id); else if(r.has_exception()) sim_fail("wrong-outcome","callback %d got an exception",id); if(cbthrows) throw sim_error(id); },"",0,prio); break;
     case 12: { // nested: callback posts further work with a callback
       post_callback([ww,id,d]{ work_begin(ww,id); delay(d); work_end(ww,id); },[ww,id,this](ba::expected<void>){ in_cb c(ww,id); { sim::atomic_section s; ww->want[id]=2; } this->post_callback([]{ sim_point(); },[ww,id](ba::expected<void>){ in_cb c(ww,id); }); },"",0,prio); { sim::atomic_section s; w->want[id]=2; } break; }
     default: (void)interruptible_post_callback(side,iwork,icb,"",0,prio); break;
    } }
};
struct Proxy : ba::servant_proxy<Proxy,Servant> { template<class S> Proxy(S s,pool_t p,W* w,std::shared_ptr<OtherProxy> o,pool_t sd):ba::servant_proxy<Proxy,Servant>(s,p,w,o,sd){} BOOST_ASYNC_POST_MEMBER(go) };
struct op{ int id,kind,d; bool thr; int prio; bool cbt; };
void run(bool early){
  W w; pool_kind* k=pool_pick(PK_SINGLE,PK_SPSC); pool_kind* k2=pool_pick(0,PK_SPSC); pool_kind* k3=pool_pick(0,PK_SPSC); sim_probe(k->name,1); sim_probe(k2->name,1);
  int nc=1+sim_pick(3); std::vector<std::vector<op>> plan(nc); int id=0; for(auto& p:plan){ int n=1+sim_pick(4); for(int i=0;i<n&&id<MAXJ;i++){ op o; o.id=id++; o.kind=sim_pick(14); o.d=sim_pick(3); o.thr=sim_pick(3)==2; o.prio=sim_pick(4); o.cbt=sim_pick(4)==3; p.push_back(o); sim_probe("callbacks",1); } }
  { pool_t side=k2->make(1+sim_pick(2)); auto other=std::make_shared<OtherProxy>(k3->make(1)); pool_t workers=k2==k3?side:k3->make(1+sim_pick(2));
    { Proxy p(k->make(1),workers,&w,other,side);
      std::vector<client> cs; for(auto& pl:plan) cs.emplace_back([p,&pl]()mutable{ for(auto& o:pl) p.go(o.id,o.kind,o.d,o.thr,o.prio,o.cbt); });
      for(auto& c:cs) c.join();
      if(!early){ wait_for([&]{ for(int i=0;i<id;i++) if(!w.issued[i]||w.cb[i]<w.want[i]) return false; return true; },200);
        sim::atomic_section s; for(int i=0;i<id;i++) if(w.cb[i]!=w.want[i]) { int kd=-1; for(auto& pl:plan) for(auto& o:pl) if(o.id==i) kd=o.kind; sim_fail("callback-lost","callback %d (kind %d) ran %d times instead of %d (work ran %d times)",i,kd,w.cb[i],w.want[i],w.work_run[i]); } }
      else sim_sleep(sim_pick(4)*5*sim::ms); }
    if(!early){ } sim_sleep(500*sim::ms); }
  sim_sleep(sim::sec);
  { sim::atomic_section s; if(!w.destroyed) sim_fail("servant-not-destroyed","servant still alive after its proxy died"); for(int i=0;i<id;i++) if(w.work_run[i]>w.want[i]) sim_fail("job-ran-twice","work %d ran %d times",i,w.work_run[i]); }
  expect_no_leak("callback results"); }
  // destroyed after the trackable_servant base, that is, when the servant is gone completely
  struct grave { W* gw; grave(W* w):gw(w){} ~grave(){ sim::atomic_section s; gw->destroyed=true; } };
  struct S2 : grave, ba::trackable_servant<> { typedef int requires_weak_scheduler; W* w; S2(ba::any_weak_scheduler<> s,pool_t p,W* ww):grave(ww),ba::trackable_servant<>(s,p),w(ww){}
    std::function<void(int)> go(int n,int base){ W* ww=w; for(int i=0;i<n;i++){ int id=base+i; int how=sim_pick(4); auto work=[ww,id]{ sim::atomic_section s; ww->work_run[id]++; if(ww->destroyed) sim_fail("work-after-death","work %d starts although its servant was destroyed long before",id); }; auto cb=[ww,id](ba::expected<void>){ sim::atomic_section s; if(ww->destroyed) sim_fail("callback-after-death","callback %d",id); };
        if(how==0) post_callback(std::move(work),std::move(cb)); else if(how==1) (void)interruptible_post_callback(std::move(work),std::move(cb)); else if(how==2) (void)post_future(work); else (void)interruptible_post_future(work); }
      return make_safe_callback([ww](int){ sim::atomic_section s; if(ww->destroyed) sim_fail("callback-after-death","safe callback"); }); } };
  struct P2 : ba::servant_proxy<P2,S2> { template<class S> P2(S s,pool_t p,W* w):ba::servant_proxy<P2,S2>(s,p,w){} BOOST_ASYNC_FUTURE_MEMBER(go) };
}
SIM_SCENARIO(P04,alive,SIM_HB,10){ run(false); }
SIM_SCENARIO(P04,dropped,SIM_HB,8){ run(true); }
// work not started when the servant dies is skipped: the only worker is held at a gate meanwhile
SIM_SCENARIO(P04,skip_after_death,SIM_HB,4){
  W w; pool_kind* k=pool_pick(PK_SINGLE,PK_SPSC); pool_kind* k2=pool_pick(PK_SINGLE,PK_SPSC|PK_PRIO);
  { pool_t pool=k2->make(1); pool_t keep=k->make(1); std::promise<void> gate; auto sf=gate.get_future().share(); std::promise<void> in; auto inf=in.get_future();
    auto g=ba::post_future(pool,[sf,&in]{ in.set_value(); sf.wait(); }); inf.wait();
    std::function<void(int)> cb; { P2 p(keep,pool,&w); cb=p.go(1+sim_pick(6),0).get(); if(sim_pick(2)) p.go(1+sim_pick(3),20).get(); if(sim_pick(2)) keep.reset(); }
    if(!wait_for([&]{ return w.destroyed; })) sim_fail("servant-not-destroyed","servant still alive");
    gate.set_value(); cb(1); auto probe=ba::post_future(pool,[]{ return 1; }); if(probe.get()!=1) sim_fail("wrong-outcome","probe"); g.get(); } }
