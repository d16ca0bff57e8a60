// P21: execute_in_all_threads runs its functor exactly once in every worker.
#include "pools.hpp"
#include <boost/asynchronous/post.hpp>
namespace {
enum { MAXC=12, MAXJ=40 };
struct C { int from=0; bool started=false, done=false; std::map<boost::thread::id,int> runs; std::set<int> thr; int failed=0, told=0; std::size_t expect=0; bool snapped=false; std::set<boost::thread::id> before; };   // one call
struct J { int accepted=0,ran=0,fin=0; bool gate=false; boost::thread::id where; };
struct world { std::vector<boost::thread::id> ids; bool dyn=false; C c[MAXC]; int nc=0; J j[MAXJ]; int nj=0; std::shared_future<void> open; std::set<boost::thread::id> outsiders; std::vector<std::future<void>> kept[MAXC]; bool up=true;
  int call(std::size_t n){ sim::atomic_section s; if(nc>=MAXC) return -1; int i=nc++; c[i].expect=n; return i; }
  int job(bool g=false){ sim::atomic_section s; if(nj>=MAXJ) return -1; int i=nj++; j[i].accepted=1; j[i].gate=g; return i; } };
world* w;
struct functor { int id; int dur; std::shared_ptr<token> tok;
  void operator()(){ bool thr; { sim::atomic_section s; tok->check("run"); C& c=w->c[id]; auto t=boost::this_thread::get_id(); int& n=c.runs[t]; if(++n>1) sim_fail("functor-ran-twice","call %d ran twice in one worker",id); 
      if(!w->dyn&&!is_worker(w->ids)) sim_fail("wrong-thread","call %d ran outside of the workers",id); if(w->outsiders.count(t)) sim_fail("wrong-thread","call %d ran in a posting thread",id);
      thr=c.thr.count((int)c.runs.size()-1)>0; if(thr) c.failed++; sim_event("call",id,c.runs.size()); }
    if(dur) sim_sleep(dur*sim::ms);
    if(thr) throw sim_error(1000+id); } };
struct job { int id; int dur; bool thr; std::shared_ptr<token> tok; ba::any_weak_scheduler<job_t> weak; int callback; std::size_t n; std::shared_ptr<token> ftok;
  void operator()(){ { sim::atomic_section s; tok->check("run"); J& x=w->j[id]; x.where=boost::this_thread::get_id(); if(++x.ran>1) sim_fail("job-ran-twice","job %d ran twice",id);
      // a thread which did not exist at the time of the call runs the functor before its first job
      for(int c=0;c<w->nc;c++) if(w->c[c].snapped&&!w->c[c].before.count(x.where)){ sim_probe("job in a younger thread",1); if(!w->c[c].runs.count(x.where)) sim_fail("new-thread-missed","a job runs in a thread started after call %d which did not run its functor",c); } }
    if(dur) sim_sleep(dur*sim::ms);
    if(callback>=0){ auto l=weak.lock(); if(l.is_valid()&&(w->dyn||l.thread_ids().size()==n)){ int c=w->call(n); if(c>=0){ { auto f=l.execute_in_all_threads(functor{c,0,ftok}); sim::atomic_section s; if(f.size()!=n) sim_fail("future-count","%zu futures for %zu workers",f.size(),n); w->kept[c]=std::move(f); w->c[c].started=true; } sim_probe("called from a worker",1); } } }
    if(w->j[id].gate) w->open.wait();
    { sim::atomic_section s; w->j[id].fin=1; }
    if(thr) throw sim_error(id); } };
int ready(int c){ int n=0; for(auto& f:w->kept[c]) if(f.wait_for(std::chrono::seconds(0))==std::future_status::ready) n++; return n; }
int blocked(){ std::set<boost::thread::id> b; for(int i=0;i<w->nj;i++) if(w->j[i].ran&&!w->j[i].fin) b.insert(w->j[i].where); return b.size(); }
// every future of every finished call
void verify(bool all){ for(int c=0;c<w->nc;c++){ C& x=w->c[c]; if(!x.started) continue; int& failed=x.told;
    for(auto& f:w->kept[c]){ if(f.wait_for(std::chrono::seconds(0))!=std::future_status::ready){ if(all) sim_fail("future-not-ready","a future of call %d never becomes ready",c); continue; }
      try { f.get(); } catch(sim_error& e){ failed++; if(e.id!=1000+c) sim_fail("wrong-exception","a future of call %d carries exception %d",c,e.id); } catch(std::exception& e){ sim_fail("wrong-exception","a future of call %d: %s",c,e.what()); } catch(...){ sim_fail("wrong-exception","a future of call %d carries something else",c); } }
    w->kept[c].clear(); sim::atomic_section s;
    if(all){ if(w->dyn? x.runs.size()<x.expect : x.runs.size()!=x.expect) sim_fail("worker-missed","call %d ran in %zu workers of %zu",c,x.runs.size(),x.expect); if(!w->dyn&&failed!=x.failed) sim_fail("exception-lost","call %d threw in %d workers, %d futures tell",c,x.failed,failed); if(x.failed&&failed) sim_probe("exception delivered",1); x.done=true; } } 
  sim::atomic_section s; for(int i=0;i<w->nj;i++) if(w->j[i].ran!=w->j[i].accepted) sim_fail("job-lost","job %d ran %d times",i,w->j[i].ran); }
struct op { int kind,dur; bool thr; unsigned mask; };
struct target { std::function<pool_t()> make; unsigned flags; bool composite; };
void scenario(bool composite){ world W; w=&W; auto tok=std::make_shared<token>(3), ftok=std::make_shared<token>(5); { std::vector<pool_t> parts; pool_t p; bool one=false; std::size_t expect=0;
    if(composite){ int n=1+sim_pick(3); for(int i=0;i<n;i++){ pool_kind* k; do k=pool_pick(0,PK_SPSC); while(std::string(k->name).find("composite")!=std::string::npos); sim_probe(k->name,1); sim_event(k->name,0,0); if(k->flags&PK_DYN) W.dyn=true; parts.push_back(k->make(1+sim_pick(2))); }
      typedef ba::composite_threadpool_scheduler<job_t> CT; p= n==1?ba::make_shared_scheduler_proxy<CT>(parts[0]):n==2?ba::make_shared_scheduler_proxy<CT>(parts[0],parts[1]):ba::make_shared_scheduler_proxy<CT>(parts[0],parts[1],parts[2]); for(auto& x:parts) expect+=x.thread_ids().size(); if(sim_pick(2)) parts.clear(); }
    else { pool_kind* k=sim_pick(5)==4?pool_pick(PK_DYN):pool_pick(); sim_probe(k->name,1); one=k->flags&PK_SPSC; W.dyn=k->flags&PK_DYN; p=k->make(1+sim_pick(3)); }
    W.ids=p.thread_ids(); if(composite&&W.ids.size()!=expect) sim_fail("thread-ids","the composite reports %zu threads, its members %zu",W.ids.size(),expect); expect=W.ids.size();
    { std::set<boost::thread::id> d(W.ids.begin(),W.ids.end()); if(d.size()!=W.ids.size()) sim_fail("thread-ids","a thread is reported twice"); }
    std::promise<void> open; W.open=open.get_future().share(); sim_event("pool",expect,composite);
    int gates=(expect>1||sim_pick(3)==2)&&!one?sim_pick(expect+1):0; bool all_blocked=gates==(int)expect;
    for(int i=0;i<gates;i++){ int id=W.job(true); p.post(job_t(job{id,0,false,tok,{},-1,0,{}}),composite?i+1:0); }
    if(gates) sim_sleep(sim_pick(3)*10*sim::ms);
    int nc=one?1:1+sim_pick(3); std::vector<std::vector<op>> plan(nc); for(auto& q:plan){ int n=1+sim_pick(4); for(int i=0;i<n;i++){ op o; o.kind=sim_pick(6); o.dur=sim_pick(4)==3?5:0; o.thr=sim_pick(4)==3; o.mask=sim_pick(8); q.push_back(o); } }
    bool early=sim_pick(3)==2; ba::any_weak_scheduler<job_t> weak=p.get_weak_scheduler();
    { std::vector<client> cs; for(int c=0;c<nc;c++) cs.emplace_back([&,c,p]()mutable{ { sim::atomic_section s; W.outsiders.insert(boost::this_thread::get_id()); }
        for(auto& o:plan[c]) switch(o.kind){
          case 0: case 1: case 2: { int id=W.call(expect); if(id<0) break; if(o.thr) for(int b=0;b<3;b++) if(o.mask>>b&1) W.c[id].thr.insert(b); std::vector<std::future<void>> f; functor fn{id,o.dur,ftok};
              if(o.kind==2){ auto l=p.get_weak_scheduler().lock(); f=l.execute_in_all_threads(fn); } else f=p.execute_in_all_threads(fn);
              if(W.dyn&&!composite){ auto ids=p.thread_ids(); sim::atomic_section s; W.c[id].before.insert(ids.begin(),ids.end()); W.c[id].snapped=true; }
              sim::atomic_section s; if(f.size()!=expect) sim_fail("future-count","%zu futures for %zu workers",f.size(),expect); W.kept[id]=std::move(f); W.c[id].started=true; break; }
          case 3: { int id=W.job(); if(id>=0) p.post(job_t(job{id,o.dur,o.thr,tok,{},-1,0,{}}),o.mask%3); break; }
          case 4: { int id=W.job(); if(id>=0) p.post(job_t(job{id,o.dur,o.thr,tok,weak,one||(composite&&W.dyn)?-1:0,expect,ftok})); break; }
          default: p.set_name(std::string(1+o.mask,'n')); } p.reset(); });
      for(auto& c:cs) c.join(); }
    if(!early){ // blocked workers hold up only their own share
      auto settled=[&]{ sim::atomic_section s; int b=blocked(); for(int i=0;i<W.nc;i++) if(W.c[i].started&&ready(i)+b<(int)W.kept[i].size()) return false; return true; };
      if(!W.dyn&&!wait_for(settled,200)) sim_fail("call-starved","a call does not complete in the workers which are not blocked");
      if(gates&&!all_blocked) sim_probe("waited with blocked workers",1);
      open.set_value();
      auto fin=[&]{ sim::atomic_section s; for(int i=0;i<W.nc;i++) if(W.c[i].started&&ready(i)<(int)W.kept[i].size()) return false; for(int i=0;i<W.nj;i++) if(!W.j[i].fin) return false; return true; };
      if(!wait_for(fin,200)) { verify(true); sim_fail("call-starved","a call or job does not complete"); }
      verify(true); }
    else { open.set_value(); sim_probe("shut down at once",1); }
    weak=ba::any_weak_scheduler<job_t>(); p.reset(); parts.clear(); }
  sim_sleep(500*sim::ms); verify(true);
  tok.reset(); ftok.reset(); expect_no_leak("functors"); }
}
SIM_SCENARIO(P21,pools,0,10){ scenario(false); }
SIM_SCENARIO(P21,composite,0,4){ scenario(true); }
