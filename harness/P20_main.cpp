// P20: composite schedulers: routing by sub-pool number, stealing, nothing lost.
#include "pools.hpp"
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
namespace {
typedef ba::any_loggable ljob_t; typedef ba::any_shared_scheduler_proxy<ljob_t> lpool_t;
typedef ba::any_queue_container_config<ba::lockfree_queue<job_t>> c_lf; typedef ba::any_queue_container_config<ba::guarded_deque<job_t>> c_gd; typedef ba::any_queue_container_config<ba::threadsafe_list<job_t>> c_ls;
typedef ba::any_queue_container<job_t> cont; typedef ba::default_find_position<ba::sequential_push_policy> seqp; typedef ba::default_save_cpu_load<10,80000,5000> load;
struct mkind { const char* name; pool_t (*make)(int); bool steals,lends; bool one_producer; int levels; };
template<class Q> pool_t tp(int n){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<Q>>(n); }
template<class Q> pool_t mq(int n){ return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<Q,seqp>>(n); }
template<class Q,class L> pool_t st(int n){ return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<Q,L>>(n); }
template<class Q,class F,class L> pool_t sm(int n){ return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<Q,F,L>>(n); }
const mkind kinds[]={
 {"pool/lockfree",&tp<ba::lockfree_queue<job_t>>,false,true,false,1},
 {"pool/guarded",&tp<ba::guarded_deque<job_t>>,false,true,false,1},
 {"pool/list",&tp<ba::threadsafe_list<job_t>>,false,true,false,1},
 {"pool/stack",&tp<ba::lockfree_stack<job_t>>,false,true,false,1},
 {"pool/container",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<cont>>(n,c_gd(1),c_lf(1),c_ls(1)); },false,true,false,3},
 {"multiqueue/list",&mq<ba::threadsafe_list<job_t>>,false,true,false,1},
 {"multiqueue/lockfree",&mq<ba::lockfree_queue<job_t>>,false,true,false,1},
 {"single/guarded",[](int){ return (pool_t)ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::guarded_deque<job_t>>>(); },false,false,false,1},
 {"multiqueue/spsc",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<ba::lockfree_spsc_queue<job_t>>>(n,100); },false,false,true,1},
 {"stealing/lockfree",&st<ba::lockfree_queue<job_t>,load>,true,true,false,1},
 {"stealing/guarded",&st<ba::guarded_deque<job_t>,ba::no_cpu_load_saving>,true,true,false,1},
 {"stealing/container",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<cont,load>>(n,c_lf(1),c_gd(1)); },true,true,false,2},
 {"stealing-mq/list",&sm<ba::threadsafe_list<job_t>,seqp,load>,true,true,false,1},
 {"stealing-mq/lockfree",&sm<ba::lockfree_queue<job_t>,ba::default_find_position<>,ba::no_cpu_load_saving>,true,true,false,1},
 {"stealing-mq/guarded",&sm<ba::guarded_deque<job_t>,ba::default_find_position<>,load>,true,true,false,1},
 {"asio/stealing",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>(n,false); },true,false,false,1},
 {"asio/random",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::asio_scheduler<ba::default_find_position<>,ba::no_cpu_load_saving>>(n,false); },true,false,false,1},
 {"stealing/default",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<ba::lockfree_queue<>>>(n); },true,true,false,1},
};
enum { NK=sizeof kinds/sizeof*kinds, MAXJ=80 };
struct member { const mkind* k; pool_t p; std::vector<boost::thread::id> ids; lpool_t lp; bool foreign=false; bool steals()const{ return k&&k->steals; } bool lends()const{ return foreign||k->lends; } };
struct J { int member=-1; int accepted=0,ran=0,fin=0; boost::thread::id where; int level=-1; bool gate=false; };   // member -1: any
struct world { std::vector<member> m; std::vector<std::vector<boost::thread::id>> ids; std::vector<char> steals,lends,strict; J j[MAXJ]; int n=0; std::shared_future<void> open; int total=0;
  bool may(int member,boost::thread::id t){ for(int k=0;k<(int)ids.size();k++){ bool in=std::find(ids[k].begin(),ids[k].end(),t)!=ids[k].end(); if(in) return member<0||k==member||(steals[k]&&lends[member]); } return false; }
  int add(int member,bool gate=false){ sim::atomic_section s; if(n>=MAXJ) return -1; int i=n++; j[i]=J(); j[i].member=member; j[i].gate=gate; j[i].accepted++; return i; } };
world* w;
struct job { int id; int dur; bool thr; std::shared_ptr<token> tok; ba::any_weak_scheduler<job_t> weak; int child,cm;
  void operator()(){ { sim::atomic_section s; tok->check("run"); J& x=w->j[id]; x.where=boost::this_thread::get_id(); if(++x.ran>1) sim_fail("job-ran-twice","job %d ran %d times",id,x.ran); if(!w->may(x.member,x.where)) sim_fail("wrong-pool","job %d posted to sub-pool %d ran in a thread which is neither of that pool nor of one that may steal from it",id,x.member+1); sim_event("run",id,x.member); }
    if(dur) sim_sleep(dur*sim::ms);
    if(child>=0){ auto l=weak.lock(); if(l.is_valid()&&!l.thread_ids().empty()){ /* members may be gone while the composite is being destroyed */ int c=w->add((int)l.thread_ids().size()==w->total?cm:-1); if(c>=0){ auto t=tok; l.post(job_t(job{c,0,false,t,{},-1,0}),cm+1); sim_probe("posted through the weak composite",1); } } }
    if(w->j[id].gate){ w->open.wait(); }
    { sim::atomic_section s; w->j[id].fin=1; }
    if(thr) throw sim_error(id); } };
struct fjob { job j; int operator()(){ j(); return j.id; } };
// every job which some idle worker may take runs, although other workers are blocked
bool runnable(int i){ J& x=w->j[i]; if(!x.accepted||x.ran) return false; std::vector<boost::thread::id> blocked; for(int k=0;k<w->n;k++) if(w->j[k].ran&&!w->j[k].fin) blocked.push_back(w->j[k].where);
  if(x.member>=0&&w->strict[x.member]){ for(auto& t:w->ids[x.member]) if(std::find(blocked.begin(),blocked.end(),t)!=blocked.end()) return false; }
  for(int k=0;k<(int)w->ids.size();k++) if((x.member>=0&&k==x.member)||(x.member>=0&&w->steals[k]&&w->lends[x.member])) for(auto& t:w->ids[k]) if(std::find(blocked.begin(),blocked.end(),t)==blocked.end()) return true; return false; }
template<class T> ljob_t lj(T t){ typename ba::job_traits<ljob_t>::wrapper_type x(ba::any_callable(std::move(t))); x.set_name("j"); return ljob_t(std::move(x)); }
bool any_runnable(){ sim::atomic_section s; for(int i=0;i<w->n;i++) if(runnable(i)) return true; return false; }
void check_done(){ sim::atomic_section s; for(int i=0;i<w->n;i++) if(w->j[i].ran!=w->j[i].accepted) sim_fail("job-lost","job %d posted to sub-pool %d ran %d times",i,w->j[i].member+1,w->j[i].ran); }
struct op { int kind,num,dur,sub; bool thr,child; int cm; };
void scenario(bool foreign){ world W; w=&W; auto tok=std::make_shared<token>(3); int nm=foreign?2+sim_pick(2):1+sim_pick(4); int np=1+sim_pick(2); int total=0; bool one=false; int fpos=foreign?sim_pick(nm):-1;
  for(int i=0;i<nm;i++){ member m; if(i==fpos){ m.k=nullptr; m.foreign=true; int n=1+sim_pick(2); m.lp=ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<ljob_t>>>(n); }
    else { const mkind* k=&kinds[(foreign&&sim_pick(2))?9+sim_pick(NK-9):sim_pick(NK)]; if(k->one_producer) one=true; m.k=k; sim_probe(k->name,1); int n=1+sim_pick(2); m.p=k->make(n); } W.m.push_back(std::move(m)); }
  if(one) np=1;
  { typedef ba::composite_threadpool_scheduler<job_t> C; typedef ba::composite_threadpool_scheduler<job_t,seqp> CS; pool_t comp; bool seq=sim_pick(3)==2; auto& m=W.m; std::shared_ptr<C> direct;
    if(foreign){ // one member has other jobs: it only lends
      int f=fpos; lpool_t L=m[f].lp; std::vector<pool_t> o; for(int i=0;i<nm;i++) if(i!=f) o.push_back(m[i].p);
      if(nm==2) comp= f==0?ba::make_shared_scheduler_proxy<C>(L,o[0]):ba::make_shared_scheduler_proxy<C>(o[0],L);
      else comp= f==0?ba::make_shared_scheduler_proxy<C>(L,o[0],o[1]):f==1?ba::make_shared_scheduler_proxy<C>(o[0],L,o[1]):ba::make_shared_scheduler_proxy<C>(o[0],o[1],L); }
    else if(seq) comp= nm==1?ba::make_shared_scheduler_proxy<CS>(m[0].p):nm==2?ba::make_shared_scheduler_proxy<CS>(m[0].p,m[1].p):nm==3?ba::make_shared_scheduler_proxy<CS>(m[0].p,m[1].p,m[2].p):ba::make_shared_scheduler_proxy<CS>(m[0].p,m[1].p,m[2].p,m[3].p);
    else comp= nm==1?ba::make_shared_scheduler_proxy<C>(m[0].p):nm==2?ba::make_shared_scheduler_proxy<C>(m[0].p,m[1].p):nm==3?ba::make_shared_scheduler_proxy<C>(m[0].p,m[1].p,m[2].p):ba::make_shared_scheduler_proxy<C>(m[0].p,m[1].p,m[2].p,m[3].p);
    for(auto& x:W.m){ x.ids=x.foreign?x.lp.thread_ids():x.p.thread_ids(); W.ids.push_back(x.ids); W.steals.push_back(x.steals()); W.lends.push_back(x.lends()); W.strict.push_back(x.k&&x.k->one_producer); sim_event(x.k?x.k->name:"foreign",x.ids.size(),0); total+=x.ids.size(); }
    // numbers of the composite count only the members which take jobs of its type
    std::vector<int> num; for(int i=0;i<(int)W.m.size();i++) if(!W.m[i].foreign) num.push_back(i);
    { auto ids=comp.thread_ids(); std::size_t want=0; for(int i:num) want+=W.ids[i].size(); if(ids.size()!=want) sim_fail("thread-ids","the composite reports %zu threads, its members have %zu",ids.size(),want); }
    W.total=total; std::promise<void> open; W.open=open.get_future().share();
    auto target=[&](int n){ return n==0?(num.size()==1?num[0]:-1):num[std::min<int>(n-1,num.size()-1)]; };
    int gates=sim_pick(total); if(foreign&&sim_pick(2)) gates=std::min<int>(W.ids[fpos].size(),total-1);
    for(int i=0;i<gates;i++){ int k=(foreign&&sim_pick(2))?fpos:sim_pick(W.m.size()); int id=W.add(k,true); job jb{id,0,false,tok,{},-1,0}; if(W.m[k].foreign) W.m[k].lp.post(lj(jb)); else W.m[k].p.post(job_t(jb)); if(one||sim_pick(2)) wait_for([&]{ sim::atomic_section s; return W.j[id].ran||!runnable(id); },50,5*sim::ms); }
    std::vector<std::vector<op>> plan(np); for(auto& p:plan){ int n=1+sim_pick(8); for(int i=0;i<n;i++){ op o; o.kind=sim_pick(7); o.num=sim_pick(num.size()+3); if(o.num==(int)num.size()+2) o.num=1000; o.dur=sim_pick(4)==3?5:0; o.sub=sim_pick(W.m.size()); if(foreign&&sim_pick(2)) o.kind=6,o.sub=fpos; o.thr=sim_pick(6)==5; o.child=!one&&sim_pick(4)==3; o.cm=num[sim_pick(num.size())]; if(foreign) o.child=false; p.push_back(o); } }
    bool drop_subs=sim_pick(2), early=sim_pick(3)==2; ba::any_weak_scheduler<job_t> cw=comp.get_weak_scheduler();
    { std::vector<client> cs; for(int c=0;c<np;c++) cs.emplace_back([&,c,comp]{ for(auto& o:plan[c]){ bool direct=o.kind==6; int mem=direct?o.sub:target(o.num); int id=W.add(mem); if(id<0) break; job jb{id,o.dur,o.thr,tok,o.child?cw:ba::any_weak_scheduler<job_t>(),o.child?1:-1,o.cm};
        switch(o.kind){ case 0: case 1: comp.post(job_t(jb),o.num); break; case 2: { jb.thr=false; auto h=comp.interruptible_post(job_t(jb),o.num); (void)h; break; } case 3: { auto f=ba::post_future(comp,fjob{jb},"",o.num); (void)f; break; }
          case 4: { auto l=comp.get_weak_scheduler().lock(); l.post(job_t(jb),o.num); break; } case 5: { auto l=comp.get_weak_scheduler().lock(); if(sim_pick(2)) l.post(job_t(jb),o.num); else { auto h=l.interruptible_post(job_t(jb),o.num); (void)h; } break; }
          default: if(W.m[o.sub].foreign) W.m[o.sub].lp.post(lj(jb)); else W.m[o.sub].p.post(job_t(jb)); } } });
      for(auto& c:cs) c.join(); }
    if(!early){ if(!wait_for([&]{ return !any_runnable(); },400)) { sim::atomic_section s; int i=0; while(!runnable(i)) i++; sim_fail("job-starved","job %d posted to sub-pool %d does not run although a worker which may take it is idle",i,W.j[i].member+1); } if(gates) sim_probe("waited with blocked workers",1); }
    open.set_value();
    if(drop_subs) for(auto& x:W.m){ x.p.reset(); x.lp=lpool_t(); }
    cw=ba::any_weak_scheduler<job_t>(); comp.reset(); for(auto& x:W.m){ x.p.reset(); x.lp=lpool_t(); }
  }
  sim_sleep(1*sim::sec); check_done(); W.m.clear(); tok.reset(); expect_no_leak("jobs"); }
}
SIM_SCENARIO(P20,composite,0,10){ scenario(false); }
SIM_SCENARIO(P20,foreign_jobs,0,3){ scenario(true); }
