// P02: calls to one servant are serialized, ordered per poster and see each other's writes.
#include "pools.hpp"
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/post.hpp>
pool_t make_multiple(int th,int ns); pool_t make_multiple_prio(int th,int ns);
namespace {
enum { MAXP=8, MAXS=4 };
struct sworld {          // one per servant
  sim_cell cell; int inside=0; int last[MAXP][4]; int calls=0; bool dead=false; int id=0; bool fifo[2]={true,true}; int plain=0; bool multi=false; boost::thread::id th; bool destroying=false;
  sworld(){ sim_cell_init(&cell); for(auto& a:last) for(int& x:a) x=-1; }
};
struct enter { sworld* w; enter(sworld* ww):w(ww){ { sim::atomic_section s; sim_event("enter",w->id,sim_tid()); if(w->inside++) sim_fail("overlap","two calls of servant %d run at the same time",w->id); sim_cell_write(&w->cell,"servant state"); if(w->destroying) sim_fail("overlap","call of servant %d while it is being destroyed",w->id); } sim_point(); w->plain++; sim_point(); }
  ~enter(){ sim_point(); sim::atomic_section s; sim_cell_write(&w->cell,"servant state"); sim_event("leave",w->id,sim_tid()); w->inside--; } };
void seen(sworld* w,int poster,int prio,int seq){ sim::atomic_section s; w->calls++; sim_event("call",w->id*1000+poster*10+prio,seq); if(w->fifo[prio] && seq<=w->last[poster][prio]) sim_fail("order","servant %d: call %d of poster %d (priority %d) ran after call %d",w->id,seq,poster,prio,w->last[poster][prio]); if(seq>w->last[poster][prio]) w->last[poster][prio]=seq; }
struct Servant : ba::trackable_servant<> {
  typedef int requires_weak_scheduler;
  sworld* w; pool_t pool;
  Servant(ba::any_weak_scheduler<> s,sworld* ww,pool_t p):ba::trackable_servant<>(s,p),w(ww),pool(p){ enter e(w); }
  ~Servant(){ enter e(w); { sim::atomic_section s; w->destroying=true; } }
  void call(int poster,int seq){ enter e(w); seen(w,poster,0,seq); }
  void call1(int poster,int seq){ enter e(w); seen(w,poster,1,seq); }
  int fut(int poster,int seq){ enter e(w); seen(w,poster,0,seq); return seq; }
  void slow(int poster,int seq){ enter e(w); seen(w,poster,0,seq); sim_sleep(3*sim::ms); }
  void thrower(int poster,int seq){ enter e(w); seen(w,poster,0,seq); throw sim_error(seq); }
  void work(int poster,int seq,int prio){ enter e(w); seen(w,poster,0,seq); sworld* ww=w; 
    this->post_callback([]{ sim_point(); return 1; },[ww](ba::expected<int> r){ enter e(ww); (void)r; },"",0,prio); 
    auto safe=this->make_safe_callback([ww](int){ enter e(ww); },"",prio); ba::post_future(pool,[safe]{ safe(3); },"",0); }
};
struct Proxy : ba::servant_proxy<Proxy,Servant> {
  template<class S> Proxy(S s,sworld* w,pool_t p):ba::servant_proxy<Proxy,Servant>(s,w,p){}
  BOOST_ASYNC_POST_MEMBER(call)
  BOOST_ASYNC_POST_MEMBER_2(call1,1)
  BOOST_ASYNC_FUTURE_MEMBER(fut)
  BOOST_ASYNC_FUTURE_MEMBER(slow)
  BOOST_ASYNC_POST_MEMBER(thrower)
  BOOST_ASYNC_POST_MEMBER_2(work,0)
};
struct step { int what; int servant; };
void run(pool_t sched,bool multi,bool prio_q,bool fifo,int nserv,pool_t side){
  std::vector<std::unique_ptr<sworld>> ws; for(int i=0;i<nserv;i++){ ws.emplace_back(new sworld); ws.back()->id=i; ws.back()->fifo[0]=fifo&&!prio_q; ws.back()->fifo[1]=fifo; ws.back()->multi=multi; }
  int nposter=1+sim_pick(3); std::vector<std::vector<step>> plan(nposter); int total=0;
  for(auto& p:plan){ int n=1+sim_pick(6); for(int i=0;i<n;i++){ p.push_back({(int)sim_pick(9),(int)sim_pick(nserv)}); total++; } }
  bool early=sim_pick(2);
  { std::vector<Proxy> proxies; for(int i=0;i<nserv;i++){ if(multi) proxies.emplace_back(std::make_tuple(sched,(std::size_t)i),ws[i].get(),side); else proxies.emplace_back(sched,ws[i].get(),side); }
    sched.reset();
    std::vector<client> cs;
    for(int p=0;p<nposter;p++) cs.emplace_back([p,proxies,&plan,multi,prio_q,&ws]()mutable{
      int seq=0; std::vector<std::future<int>> fs;
      for(auto& st:plan[p]){ Proxy& x=proxies[st.servant]; int s=seq++; 
        switch(st.what){ case 0: case 1: x.call(p,s); break; case 2: x.call1(p,s); break; case 3: fs.push_back(x.fut(p,s)); break; case 4: (void)x.slow(p,s); break; case 5: x.thrower(p,s); break;
          case 6: x.work(p,s,multi?100000*st.servant:0); break;
          case 7: { sworld* w=ws[st.servant].get(); auto sv=x.get_servant(); (void)x.get_proxy().interruptible_post(job_t([w,p,s,sv]{ enter e(w); seen(w,p,0,s); }),multi?100000*st.servant:0); break; }
          default: { sworld* w=ws[st.servant].get(); auto sv=x.get_servant(); x.post(job_t([w,p,s,sv]{ enter e(w); seen(w,p,0,s); }),0); } } }
      for(auto& f:fs) f.get();
    });
    if(early) proxies.clear();
    for(auto& c:cs) c.join();
  }
  side.reset();
  int got=0; for(auto& w:ws){ got+=w->calls; }
  if(got!=total) sim_fail("call-lost","%d calls posted, %d ran",total,got);
}
}
SIM_SCENARIO(P02,single_thread,SIM_HB,10){
  pool_kind* k; unsigned forbid=PK_SPSC; k=pool_pick(PK_SINGLE,forbid); sim_probe(k->name,1);
  pool_t side=pool_pick(0,PK_SPSC|PK_SINGLE)->make(1+sim_pick(2));
  run(k->make(1),false,k->flags&PK_PRIO,(k->flags&(PK_FIFO|PK_PRIO))!=0,1+sim_pick(2),side); }
SIM_SCENARIO(P02,multiple_thread,SIM_HB,10){
  int ns=1+sim_pick(3); int th=1+sim_pick(3); pool_t side=pool_pick(0,PK_SPSC|PK_SINGLE)->make(1);
  bool prio=sim_pick(3)==0; sim_probe(prio?"multiple/prio":"multiple/plain",1);
  run(prio?make_multiple_prio(th,ns):make_multiple(th,ns),true,prio,true,ns,side); }
