// P22, algorithms: pools and checks
#include "P22_algos.hpp"
using namespace p22;
namespace {
typedef ba::lockfree_queue<LJ> lf; typedef ba::guarded_deque<LJ> gd; typedef ba::default_save_cpu_load<10,80000,5000> load;
template<class Q> lpool_t tp(int n){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<Q>>(n); }
struct lkind { const char* name; lpool_t (*make)(int); };
const lkind kinds[]={ {"algo pool/lockfree",&tp<lf>},{"algo pool/guarded",&tp<gd>},
 {"algo multiqueue",[](int n)->lpool_t{ return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<lf>>(n); }},
 {"algo single",[](int)->lpool_t{ return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<lf>>(); }},
 {"algo stealing",[](int n)->lpool_t{ return ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<LJ>>((lpool_t)ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<lf,load>>(n),tp<gd>(1)); }},
 {"algo stealing-mq",[](int n)->lpool_t{ return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<lf,ba::default_find_position<>,load,true>>(n); }},
 {"algo io",[](int n)->lpool_t{ return ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<gd>>(n,n+2); }} };
enum { NK=sizeof kinds/sizeof*kinds };
const alg* pick_alg(){ int n=0; for(alg* a=alg::head;a;a=a->next) n++; n=sim_pick(n); alg* a=alg::head; while(n--) a=a->next; return a; }
bool starts(std::string const& s,std::string const& p){ return s.compare(0,p.size(),p)==0; }
void check(ba::scheduler_diagnostics const& d){ sim::atomic_section s; struct iv { boost::thread::id t; clk::time_point b,e; int algo; std::string n; }; std::vector<iv> all;
  for(auto& e:d.totals()) for(auto& it:e.second){ int a=starts(e.first,"first")?0:starts(e.first,"second")?1:e.first=="partition_worker"?2:-1; if(a<0) sim_fail("diag-name","a subtask of an algorithm is listed under the name '%s' instead of the name given to the algorithm (%s / %s)",e.first.c_str(),W->cur[0]?W->cur[0]->name:"",W->cur[1]?W->cur[1]->name:"");
    if(!(it.get_posted_time()<=it.get_started_time()&&it.get_started_time()<=it.get_finished_time())) sim_fail("diag-times","an entry named %s has posted/started/finished times out of order",e.first.c_str()); all.push_back({it.get_executing_thread_id(),it.get_started_time(),it.get_finished_time(),a,e.first}); }
  for(auto& c:W->calls){ int n=0; for(auto& i:all) if(i.t==c.th&&i.b<=c.t&&c.t<=i.e) n+=i.algo==c.algo||i.algo==2; if(!n) sim_fail("diag-subtask-missing","%s: a functor call is not covered by any diagnostic entry of its thread",W->cur[c.algo]->name); }
  for(size_t i=0;i<all.size();i++) for(size_t k=0;k<i;k++) if(all[i].t==all[k].t&&all[i].b<all[k].e&&all[k].b<all[i].e) sim_fail("diag-overlap","two entries (%s, %s) of one thread overlap",all[i].n.c_str(),all[k].n.c_str());
  for(auto& c:d.current()) if(!c.first.empty()) sim_fail("diag-current-stale","'%s' is listed as running although everything has ended",c.first.c_str());
  if(all.size()>4) sim_probe("algorithm with many entries",1); }
}
SIM_SCENARIO(P22,algos,0,8){ world w; W=&w; w.calls.reserve(MAXC); { const lkind* k=&kinds[sim_pick(NK)]; sim_probe(k->name,1); lpool_t p=k->make(1+sim_pick(3)); X xs[2]; int na=1+(sim_pick(3)==2); std::vector<client> cs; cs.reserve(2);
    for(int a=0;a<na;a++){ X& x=xs[a]; x.pool=p; x.id=a; x.nm=a?"second":"first"; x.n=sim_pick(4)==3?sim_pick(40):sim_pick(14); x.cut=1+sim_pick(5); x.k=sim_pick(3); int vals=1+sim_pick(5); for(int i=0;i<x.n;i++) x.v.push_back(sim_pick(vals)); x.w=x.v; w.cur[a]=&x; const alg* al=pick_alg(); x.name=al->name; sim_probe(al->name,1); if(sim_pick(5)==4) w.bad[a]=sim_pick(20); cs.emplace_back([&x,al]{ al->run(x); }); }
    for(auto& c:cs) c.join(); sim_sleep(300*sim::ms); check(p.get_diagnostics()); }
  }
