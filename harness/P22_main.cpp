// P22: diagnostics of loggable jobs account for every job that ran exactly once, with consistent times and marks.
#include "pools.hpp"
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/algorithm/parallel_for.hpp>
namespace {
typedef ba::any_loggable ljob_t; typedef ba::any_shared_scheduler_proxy<ljob_t> lpool_t; typedef std::chrono::high_resolution_clock clk;
typedef ba::default_find_position<ba::sequential_push_policy> seqp; typedef ba::default_save_cpu_load<10,80000,5000> load;
enum { K_FIX=1, K_IO=2, K_COMP=4 };
struct lkind { const char* name; lpool_t (*make)(int); int flags; };
template<class Q> lpool_t tp(int n){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<Q>>(n); }
template<class Q> lpool_t mq(int n){ return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<Q>>(n); }
template<class Q> lpool_t sg(int){ return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<Q>>(); }
template<class Q> lpool_t st(int n){ return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<Q,load,true>>(n); }
template<class Q> lpool_t sm(int n){ return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<Q,ba::default_find_position<>,load,true>>(n); }
template<class Q> lpool_t io(int n){ return ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<Q>>(n,n+2); }
template<class A,class B> lpool_t comp(A a,B b){ return ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<ljob_t>>(a,b); }
typedef ba::lockfree_queue<ljob_t> lf; typedef ba::guarded_deque<ljob_t> gd; typedef ba::threadsafe_list<ljob_t> ls;
const lkind kinds[]={
 {"pool/lockfree",&tp<lf>,K_FIX},{"pool/guarded",&tp<gd>,K_FIX},{"pool/list",&tp<ls>,K_FIX},{"pool/stack",&tp<ba::lockfree_stack<ljob_t>>,K_FIX},
 {"multiqueue/lockfree",&mq<lf>,K_FIX},{"multiqueue/guarded",&mq<gd>,K_FIX},{"single/lockfree",&sg<lf>,K_FIX},{"single/list",&sg<ls>,K_FIX},
 {"stealing/lockfree",&st<lf>,K_FIX},{"stealing/guarded",&st<gd>,K_FIX},{"stealing-mq/lockfree",&sm<lf>,K_FIX},{"stealing-mq/list",&sm<ls>,K_FIX},
 {"multiple/lockfree",[](int n){ return (lpool_t)ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<lf>>(n,10); },K_FIX},
 {"io/lockfree",&io<ba::lockfree_queue<ljob_t,ba::lockfree_size>>,K_IO},{"io/guarded",&io<gd>,K_IO},
 {"composite/plain",[](int n){ return comp(tp<lf>(n),mq<gd>(1)); },K_COMP},
 {"composite/stealing",[](int n){ return comp((lpool_t)ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<lf,load>>(n),(lpool_t)ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<ls,ba::default_find_position<>,load>>(1)); },K_COMP},
};
enum { NK=sizeof kinds/sizeof*kinds, MAXJ=60, GROUP=3 };
enum how { H_POST,H_FUTURE,H_INT_RAW,H_INT_FUTURE,H_CONT,H_TASK,H_CB,H_MEMBER,H_LEAF };
struct J { int kind=-1; int sched=0; std::string name; bool accepted=false,ran=false,fin=false,thr=false,aborted=false,gate=false,maybe=false; bool intr=false, asked=false; clk::time_point post0,post1,b,e; boost::thread::id where; int finseq=0; int gone_at=0; int entries=0; bool fail_known=true; };
struct world { std::vector<boost::thread::id> ids; int flags=0; J j[MAXJ]; int n=0; int seq=0; int clear_end=-1, clears=0, clear_running=0; std::shared_future<void> open; bool up=true;
  int add(int kind,std::string const& name,int sched=0){ sim::atomic_section s; if(n>=MAXJ) return -1; int i=n++; J& x=j[i]; x=J(); x.kind=kind; x.name=name; x.sched=sched; x.accepted=true; x.post0=clk::now(); x.post1=clk::time_point::max(); return i; }
  void posted(int i){ sim::atomic_section s; j[i].post1=clk::now(); } };
world* w;
struct body { int id; int dur; bool thr; std::shared_ptr<token> tok;
  void begin(){ sim::atomic_section s; tok->check("run"); J& x=w->j[id]; if(x.ran) sim_fail("job-ran-twice","job %d ran twice",id); x.ran=true; x.where=boost::this_thread::get_id(); x.b=clk::now(); x.thr=thr; sim_event("run",id,x.kind); }
  void end(bool aborted=false){ sim::atomic_section s; J& x=w->j[id]; x.e=clk::now(); x.aborted=aborted; x.fin=true; x.finseq=++w->seq; }
  int operator()(){ begin(); try { if(dur) boost::this_thread::sleep_for(boost::chrono::milliseconds(dur)); if(w->j[id].gate) w->open.wait(); boost::this_thread::interruption_point(); } catch(boost::thread_interrupted&){ end(true); throw; } end(); if(thr) throw sim_error(id); return id; } };
struct vbody { body b; void operator()(){ b(); } };
template<class T> ljob_t lj(T t,std::string const& name){ typename ba::job_traits<ljob_t>::wrapper_type x(ba::any_callable(std::move(t))); x.set_name(name); return ljob_t(std::move(x)); }
// one diagnostic entry
std::string nm(int i){ return i==0?"alpha":i==1?"beta":"gamma"; }
struct snapshot { std::vector<int> seen; std::vector<int> running; };
// every entry belongs to exactly one finished job, with consistent data
void read(ba::scheduler_diagnostics const& d,snapshot& out,int sched,bool final,int since){ sim::atomic_section s; for(int i=0;i<w->n;i++) w->j[i].entries=0;
  for(auto& e:d.totals()) for(auto& it:e.second){ if(e.first=="skip") continue; if(!(it.get_posted_time()<=it.get_started_time()&&it.get_started_time()<=it.get_finished_time())) sim_fail("diag-times","an entry named %s has posted/started/finished times out of order (%lld %lld %lld)",e.first.c_str(),(long long)it.get_posted_time().time_since_epoch().count(),(long long)it.get_started_time().time_since_epoch().count(),(long long)it.get_finished_time().time_since_epoch().count());
    int hit=-1; bool named=false; for(int pass=0;pass<2;pass++) for(int i=0;i<w->n&&hit<0;i++){ J& x=w->j[i]; if(x.sched!=sched||x.name!=e.first||x.entries||x.ran!=(pass==0)) continue; named=true;
      bool post=it.get_posted_time()>=x.post0&&it.get_posted_time()<=x.post1;
      if(x.kind==H_LEAF) post=true;
      if(x.ran){ if(x.fin&&it.get_executing_thread_id()==x.where&&it.get_started_time()<=x.b&&it.get_finished_time()>=x.e&&post&&(x.kind==H_LEAF||x.kind==H_CONT||it.get_started_time()>=x.post0)){ // later bodies in the same thread do not overlap
            bool other=false; for(int k=0;k<w->n;k++){ J& y=w->j[k]; if(k!=i&&y.sched==sched&&y.ran&&y.fin&&y.where==x.where&&y.b>x.e&&y.b<it.get_finished_time()) other=true; if(k!=i&&y.sched==sched&&y.ran&&y.fin&&y.where==x.where&&y.e<x.b&&y.e>it.get_started_time()) other=true; } if(!other||x.kind==H_CONT) hit=i; } }
      else if(x.kind==H_CB||x.kind==H_TASK||(x.intr&&it.is_interrupted())) hit=i; }   // skipped: interrupted, or its servant is gone
    if(hit<0){ if(e.first=="cont"&&w->j[0].name.size()) continue; sim_fail(named?"diag-entry-unmatched":"diag-entry-invented","sched %d: an entry named %s (posted %lld, time %lld..%lld, interrupted %d, failed %d) belongs to no finished job",sched,e.first.c_str(),(long long)it.get_posted_time().time_since_epoch().count(),(long long)it.get_started_time().time_since_epoch().count(),(long long)it.get_finished_time().time_since_epoch().count(),(int)it.is_interrupted(),(int)it.is_failed()); }
    J& x=w->j[hit]; x.entries++; if(x.gone_at&&x.gone_at<=since) sim_fail("diag-not-cleared","job %d is still listed after clear_diagnostics",hit); if(x.ran) out.seen.push_back(hit);
    if(x.ran&&x.kind!=H_CONT){ if(x.aborted?!it.is_interrupted():it.is_interrupted()&&!(x.asked&&x.thr)) sim_fail("diag-interrupted","job %d (%s, kind %d) was %sinterrupted while it ran, its entry tells %d",hit,x.name.c_str(),x.kind,x.aborted?"":"not ",(int)it.is_interrupted()); if(!x.aborted&&x.fail_known&&it.is_failed()!=x.thr) sim_fail("diag-failed","job %d (%s, kind %d) %s, its entry tells %d",hit,x.name.c_str(),x.kind,x.thr?"failed":"succeeded",(int)it.is_failed()); if(x.thr) sim_probe("failed entry",1); if(x.aborted) sim_probe("interrupted entry",1); }
    else if(!x.ran) sim_probe("entry of a skipped job",1); }
  int named=0; for(auto& c:d.current()){ if(c.first.empty()) continue; named++; bool ok=false; for(int i=0;i<w->n;i++){ J& x=w->j[i]; if(x.sched==sched&&x.name==c.first){ ok=true; if(x.gate&&x.ran&&c.second.get_executing_thread_id()==x.where) out.running.push_back(i); } } if(c.first=="skip"||c.first=="cont") ok=true; if(!ok) sim_fail("diag-current-invented","'%s' is listed as running, but there is no such job",c.first.c_str()); if(!(c.second.get_posted_time()<=c.second.get_started_time())) sim_fail("diag-times","a running entry was started before it was posted"); }
  if(final&&named) sim_fail("diag-current-stale","%d job(s) are still listed as running although all have ended",named); }
void check_final(ba::scheduler_diagnostics const& d,int sched){ snapshot sn; read(d,sn,sched,true,w->seq); sim::atomic_section s;
  for(int i=0;i<w->n;i++){ J& x=w->j[i]; if(x.sched!=sched||!x.accepted||x.maybe) continue; if(x.ran&&x.finseq>w->clear_end&&!x.entries) sim_fail("diag-entry-missing","job %d (%s, kind %d) ran%s and has no entry",i,x.name.c_str(),x.kind,x.aborted?" and was interrupted":""); if(!x.ran&&!x.intr) sim_fail("job-lost","job %d never ran",i); } }
struct op { int kind,dur,name,prio; bool thr; int delay; };
void scenario(bool servant);
// servant whose own scheduler is loggable too
struct servant : ba::trackable_servant<ljob_t,ljob_t> { int dummy=0; 
  servant(ba::any_weak_scheduler<ljob_t> s,lpool_t p): ba::trackable_servant<ljob_t,ljob_t>(s,p){}
  void work(int t,int c,int dur,bool thr,bool cthr,std::shared_ptr<token> tok,bool intr){ body tb{t,dur,thr,tok}; body cb{c,0,cthr,tok}; std::string n=w->j[t].name; { sim::atomic_section s; w->j[t].post0=clk::now(); }
    auto k=[cb](ba::expected<int> e)mutable{ (void)e; cb(); };
    if(intr){ auto h=interruptible_post_callback(tb,std::move(k),n); w->posted(t); h.interrupt(); } else { post_callback(tb,std::move(k),n); w->posted(t); } }
  int member(int id,bool thr,std::shared_ptr<token> tok){ body b{id,0,thr,tok}; return b(); } };
struct proxy : ba::servant_proxy<proxy,servant,ljob_t> { template<class S> proxy(S s,lpool_t p): ba::servant_proxy<proxy,servant,ljob_t>(s,p){}
  BOOST_ASYNC_POST_MEMBER_LOG(work,"skip")
  BOOST_ASYNC_FUTURE_MEMBER_LOG(member,"beta")
  BOOST_ASYNC_SERVANT_POST_CTOR_LOG("skip",0)
  BOOST_ASYNC_SERVANT_POST_DTOR_LOG("skip",0) };
bool settled(int sched){ for(int i=0;i<w->n;i++) if(w->j[i].accepted&&w->j[i].sched==sched&&!(w->j[i].ran?w->j[i].fin:(w->j[i].intr||w->j[i].maybe))) return false; return true; }
void scenario(bool with_servant){ world W; w=&W; auto tok=std::make_shared<token>(3); { const lkind* k=&kinds[sim_pick(NK)]; sim_probe(k->name,1); W.flags=k->flags; lpool_t p=k->make(1+sim_pick(3)), sp; if(with_servant) sp=ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<lf>>(); W.ids=p.thread_ids(); sim_event(k->name,W.ids.size(),with_servant); std::size_t nthreads=W.ids.size();
    std::promise<void> open; W.open=open.get_future().share(); int gates=with_servant?0:sim_pick((k->flags==K_IO?nthreads+2:nthreads)+1); if(gates>(int)nthreads&&k->flags!=K_IO) gates=nthreads;
    int nc=1+sim_pick(3); std::vector<std::vector<op>> plan(nc); for(auto& q:plan){ int n=1+sim_pick(6); for(int i=0;i<n;i++){ op o; o.kind=with_servant?(sim_pick(4)==3?9+sim_pick(3):6+sim_pick(3)):sim_pick(12); o.dur=sim_pick(4)==3?7:0; o.name=sim_pick(GROUP); o.prio=sim_pick(3); o.thr=sim_pick(4)==3; o.delay=sim_pick(3); q.push_back(o); } }
    bool early=sim_pick(4)==3; std::vector<int> gid; for(int i=0;i<gates;i++){ int id=W.add(H_POST,nm(sim_pick(GROUP))); W.j[id].gate=true; p.post(lj(vbody{{id,0,false,tok}},W.j[id].name),i+1); W.posted(id); gid.push_back(id); }
    std::vector<std::future<int>> fs; std::mutex fm; (void)fm;
    { std::vector<client> cs; for(int c=0;c<nc;c++) cs.emplace_back([&,c,p,sp]()mutable{ std::unique_ptr<proxy> px; if(with_servant) px.reset(new proxy(sp,p)); snapshot prev[2]; int prevclear[2]={-1,-1};
        for(auto& o:plan[c]) switch(o.kind){
          case 0: case 1: { int id=W.add(H_POST,nm(o.name)); if(id<0) break; p.post(lj(vbody{{id,o.dur,o.thr,tok}},nm(o.name)),o.prio); W.posted(id); break; }
          case 2: case 3: { int id=W.add(H_FUTURE,nm(o.name)); if(id<0) break; auto f=ba::post_future(p,body{id,o.dur,o.thr,tok},nm(o.name),o.prio); W.posted(id); break; }
          case 4: { int id=W.add(H_INT_RAW,nm(o.name)); if(id<0) break; auto h=p.interruptible_post(lj(vbody{{id,o.dur,o.thr,tok}},nm(o.name)),o.prio); W.posted(id); if(o.delay) sim_sleep((o.delay-1)*3*sim::ms+1); { sim::atomic_section s; W.j[id].asked=true; if(!W.j[id].fin) W.j[id].intr=true; } h.interrupt(); break; }
          case 5: { int id=W.add(H_INT_FUTURE,nm(o.name)); if(id<0) break; auto h=ba::interruptible_post_future(p,body{id,o.dur,o.thr,tok},nm(o.name),o.prio); W.posted(id); if(o.delay) sim_sleep((o.delay-1)*3*sim::ms+1); { sim::atomic_section s; W.j[id].asked=true; if(!W.j[id].fin) W.j[id].intr=true; } std::get<1>(h).interrupt(); break; }
          case 6: case 7: if(!with_servant){ sim_sleep(o.delay*2*sim::ms); break; } { int t=W.add(H_TASK,nm(o.name)); int cb=W.add(H_CB,nm(o.name),1); if(cb>=0){ sim::atomic_section s; W.j[t].maybe=W.j[cb].maybe=true; } if(t<0||cb<0){ if(t>=0) W.j[t].accepted=false; break; } bool intr=o.prio==2; if(intr){ sim::atomic_section s; W.j[t].intr=W.j[t].asked=true; W.j[cb].maybe=true; } px->work(t,cb,o.dur,o.thr,false,tok,intr); sim_probe("callback",1); break; }
          case 8: if(!with_servant) break; { int id=W.add(H_MEMBER,"beta",1); if(id<0) break; auto f=px->member(id,o.thr,tok); W.posted(id); break; }
          case 9: { sim::atomic_section s; W.clear_running++; } if(prev[0].seen.size()) sim_probe("cleared entries",1);
            p.clear_diagnostics(); { sim::atomic_section s; ++W.seq; for(int i:prev[0].seen) W.j[i].gone_at=W.seq; W.clears++; W.clear_running--; W.clear_end=++W.seq; } break;
          default: { int sc=with_servant?sim_pick(2):0; int cl,since; { sim::atomic_section s; cl=W.clear_running?-1:W.clears; since=W.seq; } auto d=(sc?sp:p).get_diagnostics(); snapshot sn; read(d,sn,sc,false,since); sim_probe("read while running",1);
            { sim::atomic_section s; if(W.clears==cl&&!W.clear_running&&prevclear[sc]==W.clears) for(int i:prev[sc].seen) if(std::find(sn.seen.begin(),sn.seen.end(),i)==sn.seen.end()) sim_fail("diag-entry-vanished","the entry of job %d vanished without clear_diagnostics",i); prev[sc]=sn; prevclear[sc]=(W.clear_running||cl!=W.clears)?-2:cl; } } }
        px.reset(); p.reset(); sp.reset(); });
      for(auto& c:cs) c.join(); }
    // blocked jobs are listed as running
    if(gates&&!early){ auto all=[&]{ int n=0; for(int i:gid) if(W.j[i].ran) n++; return n; }; sim_sleep(200*sim::ms); int n; { sim::atomic_section s; n=all(); } snapshot sn; auto d=p.get_diagnostics(); read(d,sn,0,false,0); sim::atomic_section s; if((int)sn.running.size()<n){ sim_fail("diag-current-missing","%d jobs run, %zu are listed as running",n,sn.running.size()); } if(n) sim_probe("running job listed",1); }
    open.set_value();
    if(!early){ wait_for([&]{ return settled(0)&&settled(1); },200); sim_sleep(200*sim::ms); check_final(p.get_diagnostics(),0); if(sp.is_valid()) check_final(sp.get_diagnostics(),1); }
    else { sim_probe("shut down at once",1); }
    p.reset(); sp.reset(); }
  sim_sleep(500*sim::ms); tok.reset(); expect_no_leak("jobs"); }
}
SIM_SCENARIO(P22,jobs,0,10){ scenario(false); }
SIM_SCENARIO(P22,servants,0,4){ scenario(true); }
