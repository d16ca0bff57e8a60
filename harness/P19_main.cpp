// P19: the asio scheduler runs every posted handler exactly once, in its workers.
#include "pools.hpp"
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
#include <boost/asynchronous/extensions/asio/asio_deadline_timer.hpp>
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
namespace {
enum { MAXJ=64 };
struct J { int poster=-1,seq=0; bool intr=false,asked=false; int accepted=0,ran=0,done=0; int level=0; };
struct world { J j[MAXJ]; int n=0; std::vector<boost::thread::id> ids; bool one=false; int last[8]; world(){ for(auto& x:last) x=-1; }
  int add(int poster,int seq){ sim::atomic_section s; if(n>=MAXJ) return -1; int i=n++; j[i]=J(); j[i].poster=poster; j[i].seq=seq; j[i].accepted=1; return i; } };
world* w;
typedef ba::any_weak_scheduler<job_t> weak_t;
struct job { int id; int dur; int thr; std::shared_ptr<token> tok; weak_t weak; int child; std::shared_ptr<std::shared_future<void>> gate;
  void operator()(){ { sim::atomic_section s; tok->check("run"); J& x=w->j[id]; if(++x.ran>1) sim_fail("job-ran-twice","job %d ran %d times",id,x.ran); if(!is_worker(w->ids)) sim_fail("wrong-thread","job %d runs outside the scheduler's threads",id); sim_event("run",id,x.poster);
      if(w->one&&x.poster>=0&&!x.intr){ if(x.seq<w->last[x.poster]) sim_fail("wrong-order","job %d of poster %d runs after a later one",x.seq,x.poster); w->last[x.poster]=x.seq; } }
    if(gate) gate->wait();
    if(dur) sim_sleep(dur*sim::ms);
    if(child>=0){ auto l=weak.lock(); if(l.is_valid()){ int c=w->add(-1,0); if(c>=0){ job k{c,0,0,tok,{},-1,nullptr}; switch(child){ case 0: l.post(job_t(k)); break; case 1: l.post(job_t(k),1); break; case 2: { auto h=l.interruptible_post(job_t(k)); (void)h; break; }
        case 3: boost::asio::post(*ba::get_io_service<>(),k); break; default: { auto f=ba::post_future(l,k); (void)f; } } sim_probe("handler posted a handler",1); } } }
    { sim::atomic_section s; w->j[id].done=1; }
    if(thr==1) throw sim_error(id); } };
struct fjob { job j; int operator()(){ j(); return j.id; } };
struct op { int kind,prio,dur,thr,child,gap; bool intr; };
struct asio_kind { const char* name; pool_t (*make)(int); };
const asio_kind kinds[]={
 {"asio/default",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>(n); }},
 {"asio/named",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>(n,true,"asio"); }},
 {"asio/random",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::asio_scheduler<ba::default_find_position<>>>(n); }},
 {"asio/nosave",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::asio_scheduler<ba::default_find_position<ba::sequential_push_policy>,ba::no_cpu_load_saving>>(n); }},
 {"asio/slow",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::asio_scheduler<ba::default_find_position<ba::sequential_push_policy>,ba::default_save_cpu_load<2,80000,5000>>>(n); }} };
// jobs which no blocked worker holds back
bool pending(){ for(int i=0;i<w->n;i++) if(!w->j[i].ran&&!w->j[i].asked) return true; return false; }
void check_done(){ sim::atomic_section s; for(int i=0;i<w->n;i++) if(!w->j[i].ran&&!w->j[i].asked) sim_fail("job-lost","job %d was accepted but never ran",i); }
}
SIM_SCENARIO(P19,posting,0,10){ world W; w=&W; auto tok=std::make_shared<token>(1); int nw=1+sim_pick(3); const asio_kind* k=&kinds[sim_pick(5)]; sim_probe(k->name,1); int np=1+sim_pick(3); W.one=nw==1;
  std::vector<std::vector<op>> plan(np); for(auto& p:plan){ int n=1+sim_pick(8); for(int i=0;i<n;i++){ op o; o.kind=sim_pick(5); o.prio=sim_pick(nw+3); if(o.prio==nw+2) o.prio=1000; o.dur=sim_pick(4)==3?4:0; o.thr=sim_pick(5)==4; o.child=sim_pick(3)==2?sim_pick(5):-1; o.gap=sim_pick(4)==3?3:0; o.intr=sim_pick(3)==2; p.push_back(o); } }
  bool early=sim_pick(3)==2; std::promise<void> open; auto gate=std::make_shared<std::shared_future<void>>(open.get_future().share()); int gates=nw>1?sim_pick(nw):0; std::vector<std::pair<int,std::future<int>>> fs; boost::mutex fm;
  { pool_t pool=k->make(nw); W.ids=pool.thread_ids(); if((int)W.ids.size()!=nw) sim_fail("thread-ids","a scheduler of %d workers reports %zu threads",nw,W.ids.size());
    for(int i=0;i<gates;i++){ int id=W.add(-1,0); pool.post(job_t(job{id,0,0,tok,{},-1,gate}),sim_pick(nw+1)); }
    { std::vector<client> cs; for(int c=0;c<np;c++) cs.emplace_back([&,c,pool]()mutable{ weak_t weak=pool.get_weak_scheduler(); int seq=0; for(auto& o:plan[c]){ if(o.gap) sim_sleep(o.gap*sim::ms); int id=W.add(c,seq++); if(id<0) break; job jb{id,o.dur,o.thr,tok,o.child>=0?weak:weak_t(),o.child,nullptr};
          switch(o.kind){ case 0: pool.post(job_t(jb)); break; case 1: pool.post(job_t(jb),o.prio); break;
            case 2: { W.j[id].intr=true; auto h=pool.interruptible_post(job_t(jb),o.prio); if(o.intr){ { sim::atomic_section s; W.j[id].asked=true; } h.interrupt(); } break; }
            case 3: { auto f=ba::post_future(pool,fjob{jb},"f",o.prio); boost::mutex::scoped_lock l(fm); fs.emplace_back(id,std::move(f)); break; }
            default: { W.j[id].intr=true; auto t=ba::interruptible_post_future(pool,fjob{jb},"f",o.prio); if(o.intr){ { sim::atomic_section s; W.j[id].asked=true; } std::get<1>(t).interrupt(); } boost::mutex::scoped_lock l(fm); fs.emplace_back(id,std::move(std::get<0>(t))); } } } pool.reset(); });
      bool opened=false; if(early&&sim_pick(2)){ open.set_value(); opened=true; pool.reset(); /* the last client to leave waits for the workers */ }
      for(auto& c:cs) c.join(); if(opened) open=std::promise<void>(); }
    if(!early){ // blocked workers do not hold the others back
      if(!wait_for([&]{ return !pending(); },300)) sim_fail("job-starved","a job does not run although %d of %d workers are idle",nw-gates,nw); if(gates) sim_probe("ran with blocked workers",1); }
    open.set_value(); }
  check_done();
  for(auto& f:fs){ if(f.second.wait_for(std::chrono::seconds(0))!=std::future_status::ready) sim_fail("future-stuck","future of job %d is not ready although the scheduler is gone",f.first); int v=-1; bool threw=false; try{ v=f.second.get(); }catch(sim_error& e){ if(e.id!=f.first) sim_fail("foreign-exception","future of job %d has the exception of job %d",f.first,e.id); threw=true; }catch(...){ if(!W.j[f.first].asked) sim_fail("wrong-outcome","future of job %d failed although the job was not interrupted",f.first); threw=true; } if(!threw&&v!=f.first) sim_fail("wrong-value","future of job %d has value %d",f.first,v); }
  fs.clear(); gate.reset(); tok.reset(); expect_no_leak("jobs"); }
// interrupting an asio job concerns this job only, not other work of the thread which posted it
namespace {
struct leaf : ba::continuation_task<int> { int v; leaf(int x):v(x){} void operator()(){ auto r=this->this_task_result(); sim_point(); boost::this_thread::interruption_point(); r.set_value(v); } };
struct cont : ba::continuation_task<int> { void operator()(){ auto res=this->this_task_result(); ba::create_callback_continuation([res](std::tuple<ba::expected<int>,ba::expected<int>> r)mutable{ try{ res.set_value(std::get<0>(r).get()+std::get<1>(r).get()); }catch(...){ res.set_exception(std::current_exception()); } },leaf(20),leaf(22)); } };
}
SIM_SCENARIO(P19,unrelated,0,3){ world W; w=&W; auto tok=std::make_shared<token>(1);
  { pool_t a=kinds[sim_pick(5)].make(1+sim_pick(2)); pool_kind* k=pool_pick(0,PK_SPSC); sim_probe(k->name,1); pool_t b=sim_pick(4)==3?a:k->make(1+sim_pick(2)); W.ids=a.thread_ids(); int n=1+sim_pick(3); bool before=sim_pick(2); int dur=sim_pick(3)*3; std::vector<std::future<int>> fs;
    for(int i=0;i<n;i++){ int id=W.add(-1,0); W.j[id].asked=true; fs.push_back(ba::post_future(b,[a,tok,id,before,dur]()mutable{ auto h=a.interruptible_post(job_t(job{id,dur,0,tok,{},-1,nullptr})); if(before) h.interrupt(); auto c=ba::top_level_callback_continuation<int>(cont()); if(!before) h.interrupt(); return c; })); if(sim_pick(2)) sim_sleep(2*sim::ms); }
    for(auto& f:fs){ if(!wait_for([&]{ return f.wait_for(std::chrono::seconds(0))==std::future_status::ready; },300)) sim_fail("future-stuck","a continuation started beside an interrupted asio job never completes"); try{ if(f.get()!=42) sim_fail("wrong-value","wrong result"); }catch(boost::thread_interrupted&){ sim_fail("foreign-interruption","work was interrupted because its thread had posted an asio job which was interrupted"); }catch(std::exception& e){ sim_fail("foreign-interruption","work was aborted (%s) because its thread had posted an asio job which was interrupted",e.what()); } } }
  tok.reset(); expect_no_leak("jobs"); }
// a servant living in, or working with, an asio scheduler
namespace {
struct Servant : ba::trackable_servant<> { typedef int requires_weak_scheduler; std::shared_ptr<token> tok; boost::thread::id me; int busy=0;
  Servant(ba::any_weak_scheduler<> s,pool_t p,std::shared_ptr<token> t):ba::trackable_servant<>(s,p),tok(t),me(boost::this_thread::get_id()){ }
  void here(const char* what){ if(boost::this_thread::get_id()!=me) sim_fail("wrong-thread","%s outside the servant's thread",what); }
  void go(int id,int kind,int dur,int thr){ here("member"); tok->check("member"); auto t=tok; job jb{id,dur,thr,t,{},-1,nullptr};
    auto cb=[this,id](ba::expected<int> r){ here("callback"); sim::atomic_section s; if(++w->j[id].level>1) sim_fail("callback-twice","callback of job %d",id); bool ok=false; try{ ok=r.get()==id; }catch(sim_error& e){ ok=e.id==id; } catch(...){ } if(!ok) sim_fail("wrong-outcome","callback of job %d gets a wrong result",id); };
    switch(kind){ case 0: post_callback(fjob{jb},std::move(cb),"",sim_pick(3),sim_pick(2)); break; case 1: { auto h=interruptible_post_callback(fjob{jb},std::move(cb)); (void)h; break; }
      default: jb.thr=0; { auto f=post_future(fjob{jb}); (void)f; sim::atomic_section s; w->j[id].level=1; } } } };
struct Proxy : ba::servant_proxy<Proxy,Servant> { template<class S> Proxy(S s,pool_t p,std::shared_ptr<token> t):ba::servant_proxy<Proxy,Servant>(s,p,t){} BOOST_ASYNC_POST_MEMBER(go) };
}
SIM_SCENARIO(P19,servant,0,4){ world W; w=&W; auto tok=std::make_shared<token>(1); bool early=sim_pick(3)==2; int n=1+sim_pick(8);
  { int how=sim_pick(3); pool_t own= how==0?kinds[sim_pick(5)].make(1):pool_pick(PK_SINGLE,PK_SPSC)->make(1); pool_t work= how==2?own:kinds[sim_pick(5)].make(1+sim_pick(3)); W.ids=work.thread_ids();
    { Proxy p(own,work,tok); std::vector<client> cs; int nc=1+sim_pick(2); for(int c=0;c<nc;c++) cs.emplace_back([&,p]()mutable{ for(int i=0;i<n;i++){ int id=W.add(-1,0); if(id<0) break; p.go(id,sim_pick(3),sim_pick(3)==2?4:0,sim_pick(4)==3); if(sim_pick(3)==2) sim_sleep(2*sim::ms); } }); for(auto& c:cs) c.join();
      if(!early&&!wait_for([&]{ for(int i=0;i<W.n;i++) if(!W.j[i].level||!W.j[i].ran) return false; return true; },300)) sim_fail("callback-lost","a job or its callback does not run"); }
    if(early||how==2) sim_sleep(500*sim::ms); /* a scheduler must not be dropped last by its own servant */ }
  for(int i=0;i<W.n;i++) if(!early&&!W.j[i].ran) sim_fail("job-lost","job %d",i);
  tok.reset(); expect_no_leak("jobs"); }
