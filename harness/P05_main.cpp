// P05: servants are constructed, called and destroyed once, in their own thread.
#include "pools.hpp"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/post.hpp>
pool_t make_multiple(int th,int ns); pool_t make_multiple_prio(int th,int ns);
namespace {
struct sw { int id=0; std::vector<boost::thread::id> ids; int ctor=0,dtor=0,posted=0,ran=0,inside=0; bool may_die_early=false; int throws=0; sim_cell cell; uint64_t ctor_sleep=0; bool ctor_outside=false;
  sw(){ sim_cell_init(&cell); }
  bool own(){ auto me=boost::this_thread::get_id(); for(auto& i:ids) if(i==me) return true; return false; } };
struct enter { sw* w; const char* what; enter(sw* ww,const char* wh):w(ww),what(wh){ { sim::atomic_section s; sim_event(wh,w->id,sim_tid());
    if(!w->own()) sim_fail("wrong-thread","servant %d: %s in thread %d which is not one of its scheduler",w->id,what,sim_tid());
    if(w->inside++) sim_fail("overlap","servant %d: %s overlaps another call",w->id,what); sim_cell_write(&w->cell,"servant state"); } sim_point(); }
  ~enter(){ sim_point(); sim::atomic_section s; w->inside--; sim_cell_write(&w->cell,"servant state"); } };
struct Base { virtual ~Base(){} virtual int basecall(int)=0; };
struct Servant : Base { sw* w; std::shared_ptr<void> layer; typedef int requires_weak_scheduler;
  Servant(ba::any_weak_scheduler<> ,sw* ww):w(ww){ enter e(w,"constructor"); if(w->ctor_sleep) boost::this_thread::sleep_for(boost::chrono::nanoseconds(w->ctor_sleep)); sim::atomic_section s; if(w->throws) throw sim_error(w->id); if(w->ctor++) sim_fail("constructed-twice","servant %d",w->id); }
  ~Servant(){ enter e(w,"destructor"); sim::atomic_section s; if(w->dtor++) sim_fail("destroyed-twice","servant %d",w->id); if(!w->ctor) sim_fail("destroyed-unconstructed","servant %d",w->id); if(w->ran!=w->posted) sim_fail("destroyed-early","servant %d destroyed after %d of %d calls",w->id,w->ran,w->posted); }
  void ran(){ sim::atomic_section s; if(!w->ctor||w->dtor) sim_fail("call-on-dead","servant %d called while %s",w->id,w->dtor?"destroyed":"not constructed"); w->ran++; }
  void call(int d){ enter e(w,"call"); if(d) sim_sleep(d*3*sim::ms); ran(); }
  int fut(int d){ enter e(w,"call"); if(d) sim_sleep(d*3*sim::ms); ran(); return d+1; }
  void thrower(){ enter e(w,"call"); ran(); throw sim_error(1); }
  void hold(std::shared_ptr<void> p){ enter e(w,"call"); layer=p; ran(); }
  void drop_here(std::shared_ptr<void>* p){ enter e(w,"call"); p->reset(); ran(); }
  virtual int basecall(int d){ enter e(w,"call"); if(d) sim_sleep(sim::ms); ran(); return d+2; }
};
struct Proxy : ba::servant_proxy<Proxy,Servant> { template<class S,class... A> Proxy(S s,A... a):ba::servant_proxy<Proxy,Servant>(std::move(s),std::move(a)...){}
  BOOST_ASYNC_POST_MEMBER(call) BOOST_ASYNC_FUTURE_MEMBER(fut) BOOST_ASYNC_POST_MEMBER_2(thrower,1) BOOST_ASYNC_FUTURE_MEMBER(hold) BOOST_ASYNC_POST_MEMBER_2(basecall,1) };
struct BaseProxy : ba::servant_proxy<BaseProxy,Base> { template<class P> BaseProxy(P p):ba::servant_proxy<BaseProxy,Base>(p){} BOOST_ASYNC_FUTURE_MEMBER(basecall) BOOST_ASYNC_SERVANT_POST_DTOR(1) };
struct TProxy : ba::servant_proxy<TProxy,Servant,job_t,40> { template<class S> TProxy(S s,sw* w):ba::servant_proxy<TProxy,Servant,job_t,40>(s,w){} BOOST_ASYNC_POST_MEMBER(call) };
typedef std::vector<std::unique_ptr<Proxy>> proxies_t;
struct op{ int kind,servant,other,d; };
void posted(sw* w){ sim::atomic_section s; w->posted++; }
template<class F> void ready(F& f){ for(int i=0;i<1000;i++){ if(f.wait_for(std::chrono::seconds(0))==std::future_status::ready) return; sim_sleep(10*sim::ms);} sim_fail("call-lost","call never completes"); }
void run(pool_t sched,bool multi,int ns){
  std::vector<std::unique_ptr<sw>> ws; for(int i=0;i<ns;i++){ ws.emplace_back(new sw); ws.back()->id=i; ws.back()->ids=sched.thread_ids(); ws.back()->throws=sim_pick(6)==5; ws.back()->ctor_sleep=sim_pick(4)==3?10*sim::ms:0; }
  int nc=1+sim_pick(3); std::vector<std::vector<op>> plan(nc); for(auto& p:plan){ int n=sim_pick(7); for(int i=0;i<n;i++) p.push_back({(int)sim_pick(12),(int)sim_pick(ns),(int)sim_pick(ns),(int)sim_pick(3)}); }
  bool drop_sched=sim_pick(2); int how=sim_pick(3); bool tail_in_own=!drop_sched&&sim_pick(2);
  { proxies_t ps(ns);
    for(int i=0;i<ns;i++){ try{
        if(multi) ps[i].reset(new Proxy(std::make_tuple(sched,(std::size_t)i),ws[i].get()));
        else if(how==1){ sw* w=ws[i].get(); auto wk=sched.get_weak_scheduler(); ps[i].reset(new Proxy(sched,ba::post_future(sched,[w,wk]{ return std::make_shared<Servant>(wk,w); }))); }
        else if(how==2){ sw* w=ws[i].get(); pool_t sc=sched; auto f=ba::post_future(sched,[w,sc]()mutable{ std::unique_ptr<Proxy> p(new Proxy(sc,w)); return p; }); ps[i]=f.get(); }
        else ps[i].reset(new Proxy(sched,ws[i].get()));
        if(ws[i]->throws) sim_fail("ctor-exception-lost","constructor of servant %d threw but the proxy was created",i);
      } catch(sim_error& e){ if(!ws[i]->throws) sim_fail("wrong-outcome","creation of servant %d failed",i); if(e.id!=i) sim_fail("wrong-outcome","creation of servant %d reports the exception of %d",i,e.id); sim_probe("throwing constructors",1); } 
      catch(std::exception& e){ sim_fail("wrong-outcome","creation of servant %d failed with %s",i,e.what()); } }
    { auto f=ba::post_future(sched,[]{ return 5; }); ready(f); if(f.get()!=5) sim_fail("wrong-outcome","probe"); }
    std::vector<client> cs;
    for(int c=0;c<nc;c++){ proxies_t mine; for(auto& p:ps) mine.emplace_back(p?new Proxy(*p):nullptr);
      cs.emplace_back([mine=std::move(mine),&plan,c,&ws,multi,sched=drop_sched?pool_t():sched]()mutable{
        for(auto& o:plan[c]){ Proxy* p=mine[o.servant].get(); if(!p) continue; sw* w=p->get_servant()->w;
          switch(o.kind){
            case 0: case 1: posted(w); p->call(o.d); break;
            case 2: { posted(w); auto f=p->fut(o.d); ready(f); if(f.get()!=o.d+1) sim_fail("wrong-outcome","result of a call"); break; }
            case 3: posted(w); p->thrower(); break;
            case 4: { Proxy q(*p); posted(w); q.call(0); break; }
            case 5: mine[o.servant].reset(); break;
            case 6: if(mine[o.other]&&o.other!=o.servant){ *p=*mine[o.other]; sim_probe("proxy assigned",1); } break;       // copy assignment
            case 7: if(mine[o.other]&&o.other!=o.servant){ *p=std::move(*mine[o.other]); mine[o.other].reset(); sim_probe("proxy move-assigned",1); } break;
            case 8: { BaseProxy b=ba::dynamic_servant_proxy_cast<BaseProxy>(*p); posted(w); auto f=b.basecall(o.d); if(sim_pick(2)){ ready(f); if(f.get()!=o.d+2) sim_fail("wrong-outcome","result of a base call"); } break; }
            case 9: if(sched.is_valid()){ // hand a copy to the servant's own scheduler, dropped there
                auto q=std::make_shared<Proxy>(std::move(*p)); mine[o.servant].reset(); ba::post_future(sched,[q]()mutable{ sim_point(); q.reset(); }); q.reset(); sim_probe("proxy dropped in own thread",1); } break;
            case 10: if(mine[o.other]&&o.other!=o.servant&&sched.is_valid()&&o.servant<o.other){ // layered: servant holds a proxy of another one
                auto q=std::make_shared<Proxy>(*mine[o.other]); posted(w); if(q->get_servant()->w->id>w->id){ auto f=p->hold(q); q.reset(); ready(f); sim_probe("layered",1);} else p->call(0); } break;
            default: sim_sleep(o.d*4*sim::ms); } }
      }); }
    if(drop_sched) sched.reset();
    if(tail_in_own){ auto h=std::make_shared<proxies_t>(std::move(ps)); auto f=ba::post_future(sched,[h]()mutable{ h.reset(); }); h.reset(); }
    ps.clear();
    for(auto& c:cs) c.join();
  }
  bool ok=wait_for([&]{ for(auto& w:ws) if(w->ctor!=w->dtor) return false; return true; },100);
  { sim::atomic_section s; for(auto& w:ws){ if(w->throws? w->ctor!=0 : w->ctor!=1) sim_fail("ctor-count","servant %d constructed %d times",w->id,w->ctor); if(w->dtor!=w->ctor) sim_fail("not-destroyed","servant %d not destroyed although all its proxies are gone",w->id); } (void)ok; }
  sched.reset();
}
}
SIM_SCENARIO(P05,single,SIM_HB,10){ pool_kind* k=pool_pick(PK_SINGLE,PK_SPSC); sim_probe(k->name,1); run(k->make(1),false,1+sim_pick(3)); }
SIM_SCENARIO(P05,multiple,SIM_HB,6){ int ns=1+sim_pick(3); int th=1+sim_pick(3); run(sim_pick(2)?make_multiple_prio(th,ns):make_multiple(th,ns),true,ns); }
// creation does not finish in time: the proxy reports a timeout, the late servant still dies in its own thread
SIM_SCENARIO(P05,slow_ctor,SIM_HB,4){ pool_kind* k=pool_pick(PK_SINGLE,PK_SPSC); pool_t sched=k->make(1); sw w; w.ids=sched.thread_ids(); 
  bool tight=sim_pick(2); w.ctor_sleep=tight?40*sim::ms+sim_pick(64)*2*sim::us-64*sim::us:(30+sim_pick(20))*sim::ms; int busy=tight?0:sim_pick(3); if(busy) sched.post(job_t([busy]{ sim_sleep(busy*12*sim::ms); })); bool got=false;
  try{ TProxy p(sched,&w); got=true; posted(&w); p.call(0); } catch(ba::servant_proxy_timeout&){ sim_probe("creation timed out",1); } catch(std::exception& e){ sim_fail("wrong-outcome","creation failed with %s",e.what()); }
  if(sim_pick(2)) sched.reset(); else { auto f=ba::post_future(sched,[]{ return 5; }); ready(f); if(f.get()!=5) sim_fail("wrong-outcome","probe"); }
  wait_for([&]{ return w.ctor==1&&w.dtor==1; },100); sim::atomic_section s; if(w.ctor!=1||w.dtor!=1) sim_fail("not-destroyed","late servant constructed %d, destroyed %d times",w.ctor,w.dtor); if(got&&w.ran!=1) sim_fail("call-lost","call on a slowly created servant"); }
