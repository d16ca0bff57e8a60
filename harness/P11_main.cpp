// P11: callback continuations complete exactly once with every subtask's own result.
#include "pools.hpp"
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
namespace {
enum shape { LEAF, VAR1, VAR2, VAR3, TUPLE, SEQ, SEQCONT, CONTARG };
enum how { VALUE, THROW, SETEX, LATER, FOREIGN, SLEEP };
struct N { int shape=LEAF, how=VALUE; std::vector<int> kids; int runs=0, done=0; bool finished=false; bool fail=false; long val=0; bool anyfail=false; sim_cell cell; };
struct T { std::vector<N> n; boost::mutex fm; std::vector<std::function<void()>> foreign; bool closing=false; int open=0; };
struct E : sim_error { using sim_error::sim_error; };
// build a tree; returns node id
int build(T& t,int depth,bool foreign){ int id=t.n.size(); t.n.emplace_back(); sim_cell_init(&t.n[id].cell); int sh=(depth==0||t.n.size()>22)?LEAF:(int)sim_pick(8); t.n[id].shape=sh;
  if(sh==LEAF){ int h=sim_pick(foreign?8:7); static const int hs[]={VALUE,VALUE,THROW,SETEX,LATER,SLEEP,VALUE,FOREIGN}; t.n[id].how=hs[h]; t.n[id].fail=h==2||h==3; t.n[id].val=id+1; return id; }
  int nk=sh==VAR1?1:sh==VAR2||sh==CONTARG?2:sh==VAR3||sh==TUPLE?3:(int)sim_pick(5); if(sh==SEQCONT&&nk==0) nk=1;
  long v=0; bool f=false; for(int i=0;i<nk;i++){ int k=build(t,depth-1,foreign); t.n[id].kids.push_back(k); v+=t.n[k].val*(i+1); if(t.n[k].fail) f=true; } t.n[id].fail=f; t.n[id].val=v; return id; }
struct node : ba::continuation_task<long> { std::shared_ptr<T> t; int id; std::shared_ptr<token> tok; node(std::shared_ptr<T> t,int id):ba::continuation_task<long>("n"),t(t),id(id),tok(std::make_shared<token>(id)){} void operator()(); };
// a subtask without a value
struct vnode : ba::continuation_task<void> { std::shared_ptr<T> t; int id; vnode(std::shared_ptr<T> t,int id):ba::continuation_task<void>("v"),t(t),id(id){} void operator()(){ auto r=this->this_task_result(); auto tt=t; int i=id; ba::create_callback_continuation([r,tt,i](std::tuple<ba::expected<long>> x)mutable{ try{ if(std::get<0>(x).get()!=tt->n[i].val) sim_fail("wrong-value","subtask %d",i); r.set_value(); }catch(...){ r.set_exception(std::current_exception()); } },node(t,id)); } };
void finish(T* t,int id){ sim_cell_write(&t->n[id].cell,"result of a subtask"); sim::atomic_section s; N& n=t->n[id]; if(n.finished) sim_fail("completed-twice","task %d completes twice",id); n.finished=true; }
template<class Ex> void check_kid(T* t,int parent,int id,Ex& e){ N& k=t->n[id]; { sim::atomic_section s; if(!k.finished) sim_fail("too-early","completion of %d called before subtask %d finished",parent,id); }
  sim_cell_read(&k.cell,"result of a subtask"); if(e.has_exception()!=k.fail) sim_fail("wrong-outcome","subtask %d of %d: %s, expected %s",id,parent,e.has_exception()?"exception":"value",k.fail?"exception":"value"); }
template<class Ex> long kid_value(T* t,int parent,int i,Ex& e){ int id=t->n[parent].kids[i]; check_kid(t,parent,id,e); if(e.has_exception()){ try{ e.get(); }catch(E& x){ // the exception comes from a failing leaf below this subtask
        int q=x.id; std::function<bool(int)> below=[&](int r){ if(r==q) return true; for(int k:t->n[r].kids) if(below(k)) return true; return false; }; if(!below(id)||t->n[q].shape!=LEAF) sim_fail("foreign-exception","subtask %d of %d got the exception of %d",id,parent,q); throw; }
      catch(std::exception& x){ sim_fail("wrong-exception","subtask %d of %d failed with %s",id,parent,x.what()); } }
  long v=e.get(); if(v!=t->n[id].val) sim_fail("wrong-value","subtask %d of %d has value %ld, expected %ld",id,parent,v,t->n[id].val); return v*(i+1); }
void enter_done(T* t,int id){ sim::atomic_section s; if(t->n[id].done++) sim_fail("completion-twice","completion of %d called twice",id); }
// combine: every kid is checked even if an earlier one failed
template<class R,class... Ex> void combine(R& r,T* t,int id,Ex&... ex){ enter_done(t,id); long v=0; std::exception_ptr p; int i=0; int dummy[]={0,([&]{ try{ v+=kid_value(t,id,i,ex); }catch(E&){ p=std::current_exception(); } i++; }(),0)...}; (void)dummy; finish(t,id); if(p) r.set_exception(p); else r.set_value(v); }
void node::operator()(){ auto r=this->this_task_result(); auto tt=t; T* t=tt.get(); int id=this->id; N& n=t->n[id]; tok->check("run"); { sim::atomic_section s; if(n.runs++) sim_fail("ran-twice","task %d runs twice",id); }
  auto kid=[&](int i){ return node(tt,n.kids[i]); };
  switch(n.shape){
    case LEAF: switch(n.how){ case THROW: finish(t,id); throw E(id); case SETEX: finish(t,id); r.set_exception(std::make_exception_ptr(E(id))); return;
        case SLEEP: sim_sleep(sim_pick(3)*sim::ms); finish(t,id); r.set_value(n.val); return;
        case LATER: { auto w=ba::get_thread_scheduler<job_t>(); auto s=w.lock(); if(!s.is_valid()){ finish(t,id); r.set_value(n.val); return; } s.post(job_t([r,tt,id]{ finish(tt.get(),id); r.set_value(tt->n[id].val); })); return; }
        case FOREIGN: { boost::mutex::scoped_lock l(t->fm); if(!t->closing){ t->foreign.push_back([r,tt,id]{ finish(tt.get(),id); r.set_value(tt->n[id].val); }); return; } l.unlock(); finish(t,id); r.set_value(n.val); return; }
        default: finish(t,id); r.set_value(n.val); return; }
    case VAR1: ba::create_callback_continuation([r,tt,id](std::tuple<ba::expected<long>> x)mutable{ combine(r,tt.get(),id,std::get<0>(x)); },kid(0)); return;
    case VAR2: ba::create_callback_continuation([r,tt,id](std::tuple<ba::expected<long>,ba::expected<long>> x)mutable{ combine(r,tt.get(),id,std::get<0>(x),std::get<1>(x)); },kid(0),kid(1)); return;
    case VAR3: // the middle subtask is void
      ba::create_callback_continuation([r,tt,id](std::tuple<ba::expected<long>,ba::expected<void>,ba::expected<long>> x)mutable{ T* t=tt.get(); enter_done(t,id); long v=0; std::exception_ptr p; try{ v+=kid_value(t,id,0,std::get<0>(x)); }catch(E&){ p=std::current_exception(); }
          check_kid(t,id,t->n[id].kids[1],std::get<1>(x)); v+=2*t->n[t->n[id].kids[1]].val; try{ std::get<1>(x).get(); }catch(E&){ p=std::current_exception(); } try{ v+=kid_value(t,id,2,std::get<2>(x)); }catch(E&){ p=std::current_exception(); }
          finish(t,id); if(p) r.set_exception(p); else r.set_value(v); },kid(0),vnode(tt,n.kids[1]),kid(2)); return;
    case TUPLE: { auto tup=std::make_tuple(kid(0),kid(1),kid(2)); typedef std::tuple<ba::expected<long>,ba::expected<long>,ba::expected<long>> ET; ba::create_callback_continuation([r,tt,id](ET x)mutable{ combine(r,tt.get(),id,std::get<0>(x),std::get<1>(x),std::get<2>(x)); },ET(),std::move(tup)); return; }
    case CONTARG: // a continuation given as subtask next to a plain task
      ba::create_callback_continuation([r,tt,id](std::tuple<ba::expected<long>,ba::expected<long>> x)mutable{ combine(r,tt.get(),id,std::get<0>(x),std::get<1>(x)); },ba::top_level_callback_continuation<long>(kid(0)),kid(1)); return;
    case SEQ: case SEQCONT: { auto fin=[r,tt,id](std::vector<ba::expected<long>> x)mutable{ T* t=tt.get(); enter_done(t,id); if(x.size()!=t->n[id].kids.size()) sim_fail("wrong-count","completion of %d gets %d results of %d",id,(int)x.size(),(int)t->n[id].kids.size()); long v=0; std::exception_ptr p; for(unsigned i=0;i<x.size();i++){ try{ v+=kid_value(t,id,i,x[i]); }catch(E&){ p=std::current_exception(); } } finish(t,id); if(p) r.set_exception(p); else r.set_value(v); };
      if(n.shape==SEQ){ std::vector<node> v; for(unsigned i=0;i<n.kids.size();i++) v.push_back(kid(i)); ba::create_callback_continuation(fin,std::move(v)); }
      else { std::vector<ba::detail::callback_continuation<long,job_t>> v; for(unsigned i=0;i<n.kids.size();i++) v.push_back(ba::top_level_callback_continuation<long>(kid(i))); ba::create_callback_continuation(fin,std::move(v)); } return; } } }
void check_top(T* t,int root,std::function<long()> get){ bool val=false; long v=0; try{ v=get(); val=true; }catch(E& x){ if(!t->n[root].fail) sim_fail("wrong-outcome","top-level task failed with the exception of %d",x.id); if(t->n[x.id].shape!=LEAF||!t->n[x.id].fail) sim_fail("foreign-exception","exception of %d",x.id); }catch(std::exception& x){ sim_fail("wrong-exception","top-level task failed with %s",x.what()); }
  if(val&&t->n[root].fail) sim_fail("wrong-outcome","top-level task succeeded although a subtask failed"); if(val&&v!=t->n[root].val) sim_fail("wrong-value","top-level value %ld, expected %ld",v,t->n[root].val); }
void check_tree(T* t){ for(unsigned i=0;i<t->n.size();i++){ N& n=t->n[i]; if(n.runs!=1) sim_fail("task-lost","task %d ran %d times",i,n.runs); if(!n.finished) sim_fail("task-lost","task %d never finished",i); if(n.shape!=LEAF&&n.done!=1) sim_fail("completion-lost","completion of %d called %d times",i,n.done); } }
struct pumper { std::vector<std::shared_ptr<T>> ts; std::atomic<bool> stop{false}; boost::thread th; void start(){ th=boost::thread([this]{ for(;;){ bool st=stop; bool did=false; for(auto& t:ts){ std::function<void()> f; { boost::mutex::scoped_lock l(t->fm); if(!t->foreign.empty()){ unsigned i=sim_pick(t->foreign.size()); f=t->foreign[i]; t->foreign.erase(t->foreign.begin()+i); } } if(f){ f(); did=true; } } if(!did){ if(st) break; sim_sleep(2*sim::ms); } } }); } void join(){ for(auto& t:ts){ boost::mutex::scoped_lock l(t->fm); t->closing=true; } stop=true; th.join(); ts.clear(); } };
void run_futures(bool force){ pool_kind* k=pool_pick(0,PK_SPSC); sim_probe(k->name,1); int nt=1+sim_pick(3); std::vector<std::shared_ptr<T>> ts; std::vector<int> roots; std::vector<int> modes; pumper pm; for(int i=0;i<nt;i++){ ts.push_back(std::make_shared<T>()); ts[i]->n.reserve(64); roots.push_back(build(*ts[i],1+sim_pick(3),true)); modes.push_back(force?3:(int)sim_pick(4)); } pm.ts=ts; pm.start();
  { pool_t pool=k->make(1+sim_pick(3)); std::vector<std::future<long>> fs(nt); { std::vector<client> cs; for(int i=0;i<nt;i++) cs.emplace_back([&,i]{ auto t=ts[i]; int root=roots[i];
        switch(modes[i]){ case 0: fs[i]=ba::post_future(pool,[t,root]{ return ba::top_level_callback_continuation<long>(node(t,root)); }); break;
          case 1: fs[i]=ba::post_future(pool,[t,root]{ return ba::top_level_callback_continuation_force_post<long>(node(t,root)); }); break;
          case 2: fs[i]=ba::post_future(pool,[t,root]{ return ba::top_level_callback_continuation_job<long,job_t>(node(t,root)); }); break;
          default: fs[i]=std::get<0>(ba::interruptible_post_future(pool,[t,root]{ return ba::top_level_callback_continuation<long>(node(t,root)); })); } }); }
    for(int i=0;i<nt;i++){ if(!wait_for([&]{ return fs[i].wait_for(std::chrono::seconds(0))==std::future_status::ready; },300)) sim_fail("never-completes","top-level task never completes"); check_top(ts[i].get(),roots[i],[&]{ return fs[i].get(); }); }
    pm.join(); }
  for(auto& t:ts) check_tree(t.get()); ts.clear(); expect_no_leak("tasks"); }
struct Servant : ba::trackable_servant<> { typedef int requires_weak_scheduler; Servant(ba::any_weak_scheduler<> s,pool_t p):ba::trackable_servant<>(s,p){}
  void go(std::shared_ptr<T> t,int root,std::atomic<int>* n){ post_callback([t,root]{ return ba::top_level_callback_continuation<long>(node(t,root)); },[t,root,n](ba::expected<long> e){ check_top(t.get(),root,[&]{ return e.get(); }); ++*n; }); } };
struct Proxy : ba::servant_proxy<Proxy,Servant> { template<class S> Proxy(S s,pool_t p):ba::servant_proxy<Proxy,Servant>(s,p){} BOOST_ASYNC_POST_MEMBER(go) };
void run_servant(){ pool_kind* k=pool_pick(0,PK_SPSC); pool_kind* k1=pool_pick(PK_SINGLE,PK_SPSC); sim_probe(k->name,1); int nt=1+sim_pick(3); std::vector<std::shared_ptr<T>> ts; std::vector<int> roots; pumper pm; for(int i=0;i<nt;i++){ ts.push_back(std::make_shared<T>()); ts[i]->n.reserve(64); roots.push_back(build(*ts[i],1+sim_pick(2),true)); } pm.ts=ts; pm.start(); std::vector<std::atomic<int>> cnt(nt); for(auto& c:cnt) c=0;
  { pool_t pool=k->make(1+sim_pick(3)), s=k1->make(1); { Proxy p(s,pool); for(int i=0;i<nt;i++) p.go(ts[i],roots[i],&cnt[i]); if(!wait_for([&]{ for(auto& c:cnt) if(!c) return false; return true; },300)) sim_fail("never-completes","callback of a top-level task never comes"); pm.join(); } }
  for(auto& c:cnt) if(c!=1) sim_fail("completed-twice","callback called %d times",(int)c); for(auto& t:ts) check_tree(t.get()); ts.clear(); expect_no_leak("tasks"); }
// pools with loggable jobs: the default continuations find them by themselves
void run_log(){ typedef ba::any_loggable L; int nt=1+sim_pick(2); std::vector<std::shared_ptr<T>> ts; std::vector<int> roots; for(int i=0;i<nt;i++){ ts.push_back(std::make_shared<T>()); ts[i]->n.reserve(64); roots.push_back(build(*ts[i],1+sim_pick(2),false)); for(auto& n:ts[i]->n) if(n.how==LATER) n.how=VALUE; for(auto& n:ts[i]->n) if(n.shape==SEQCONT||n.shape==CONTARG){ if(n.shape==CONTARG) n.shape=VAR2; else n.shape=SEQ; } }
  { auto pool=ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<L>>>(1+sim_pick(3)); std::vector<std::future<long>> fs; for(int i=0;i<nt;i++){ auto t=ts[i]; int root=roots[i]; fs.push_back(ba::post_future(pool,[t,root]{ return ba::top_level_callback_continuation_job<long,L>(node(t,root)); },"top")); }
    for(int i=0;i<nt;i++){ if(!wait_for([&]{ return fs[i].wait_for(std::chrono::seconds(0))==std::future_status::ready; },300)) sim_fail("never-completes","top-level task never completes"); check_top(ts[i].get(),roots[i],[&]{ return fs[i].get(); }); } }
  for(auto& t:ts) check_tree(t.get()); ts.clear(); expect_no_leak("tasks"); }
}
SIM_SCENARIO(P11,futures,SIM_HB,10){ run_futures(false); }
SIM_SCENARIO(P11,interruptible,SIM_HB,4){ run_futures(true); }
SIM_SCENARIO(P11,servant,SIM_HB,5){ run_servant(); }
SIM_SCENARIO(P11,loggable,SIM_HB,3){ run_log(); }
