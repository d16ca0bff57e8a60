// P13: combinators over continuations (then, invoke, all_of, any_of, if/else, if_then_else, parallel_invoke)
// complete exactly once with the outcome a sequential reading gives.
#include "pools.hpp"
#include <set>
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/algorithm/then.hpp>
#include <boost/asynchronous/algorithm/invoke.hpp>
#include <boost/asynchronous/algorithm/all_of.hpp>
#include <boost/asynchronous/algorithm/any_of.hpp>
#include <boost/asynchronous/algorithm/if_else.hpp>
#include <boost/asynchronous/algorithm/if_then_else.hpp>
#include <boost/asynchronous/algorithm/parallel_invoke.hpp>
namespace {
enum kind { LEAF, THENV, THENC, THENREC, THENVOID, INVOKE, ALL2, ALL3VOID, ALLV, ALLVVOID, ALLTUP, ANY2, ANY3VOID, ITE, IFELSE, ELSEIF, PINV, THENCVOID, NK };
const char* const names[]={"leaf","then","then-cont","then-recover","then-void","invoke","all2","all3void","allvec","allvecvoid","alltuple","any2","any3void","if_then_else","if-else","else-if","parallel_invoke","then-cont-void"};
enum { VALUE, THROW, SETEX, LATER, LATEREX, SLEEP };
typedef std::pair<int,long> out; // (failed,value or id of the failing place); (1,-1)= combined
struct N { int k=LEAF, how=VALUE; bool fthrow=false; std::vector<int> kids; int calls[4]={0,0,0,0}; std::set<out> o; };
struct T { std::vector<N> n; std::shared_ptr<token> tok=std::make_shared<token>(0); int failing=25; };
struct E : sim_error { using sim_error::sim_error; };
typedef ba::detail::callback_continuation<long,job_t> C;
typedef std::shared_ptr<T> tp;
// ---- the plan and its possible outcomes
int build(T& t,int depth){ int id=t.n.size(); t.n.emplace_back(); int k=(depth==0||t.n.size()>16)?LEAF:1+(int)sim_pick(NK-1); t.n[id].k=k;
  if(k==LEAF){ bool bad=(int)sim_pick(100)<t.failing; int h=sim_pick(4); static const int good[]={VALUE,LATER,SLEEP,LATER}, fails[]={THROW,SETEX,LATEREX,LATEREX}; t.n[id].how=bad?fails[h]:good[h]; t.n[id].o={bad?out(1,id):out(0,id+1)}; return id; }
  bool ft=(k==THENV||k==THENC||k==INVOKE||k==ITE||k==IFELSE||k==THENVOID||k==THENCVOID)&&sim_pick(6)==5; t.n[id].fthrow=ft;
  int nk= k==THENV||k==THENREC||k==THENVOID||k==INVOKE?1:k==THENC||k==THENCVOID||k==ALL2||k==ALLTUP||k==ANY2?2:k==ALL3VOID||k==ANY3VOID||k==ITE||k==IFELSE?3:k==ELSEIF?4:k==ALLV||k==ALLVVOID?(int)sim_pick(4):3;
  if(k==PINV){ for(int i=0;i<3;i++){ int q=t.n.size(); t.n.emplace_back(); bool bad=(int)sim_pick(100)<t.failing; t.n[q].how=bad?THROW:(sim_pick(2)?SLEEP:VALUE); t.n[q].o={bad?out(1,q):out(0,q+1)}; t.n[id].kids.push_back(q); } }
  else for(int i=0;i<nk;i++){ int q=build(t,depth-1); t.n[id].kids.push_back(q); }
  std::set<out> r; auto K=[&](int i)->std::set<out>&{ return t.n[t.n[id].kids[i]].o; };
  switch(k){
    case THENV: case THENVOID: case INVOKE: for(auto& x:K(0)) r.insert(x.first?x:ft?out(1,id):out(0,x.second*2+1)); break;
    case THENREC: for(auto& x:K(0)) r.insert(x.first?out(0,-x.second):x); break;
    case THENC: for(auto& x:K(0)){ if(x.first) r.insert(x); else if(ft) r.insert(out(1,id)); else r.insert(K(1).begin(),K(1).end()); } break;
    case THENCVOID: for(auto& x:K(0)){ if(x.first) r.insert(x); else if(ft) r.insert(out(1,id)); else for(auto& y:K(1)) r.insert(y.first?y:out(0,x.second*2+1)); } break;
    case ALL2: case ALL3VOID: case ALLV: case ALLVVOID: case ALLTUP: { std::set<long> s{0}; bool allok=true; for(int i=0;i<nk;i++){ std::set<long> s2; bool ok=false; for(auto& x:K(i)){ if(x.first) r.insert(x); else { ok=true; long w=(k==ALLVVOID||(k==ALL3VOID&&i==1))?1:x.second*(i+1); for(long y:s) s2.insert(y+w); } } s=s2; if(!ok) allok=false; } if(allok) for(long y:s) r.insert(out(0,y)); break; }
    case ANY2: case ANY3VOID: { bool allfail=true; for(int i=0;i<nk;i++){ bool f=false; for(auto& x:K(i)){ if(x.first) f=true; else r.insert(out(0,(k==ANY3VOID&&i==1)?-7:x.second)); } if(!f) allfail=false; } if(allfail) r.insert(out(1,-1)); break; }
    case ITE: case IFELSE: for(auto& x:K(0)){ if(x.first) r.insert(x); else if(ft) r.insert(out(1,id)); else { auto& b=K((x.second&1)?1:2); r.insert(b.begin(),b.end()); } } break;
    case ELSEIF: for(auto& x:K(0)){ if(x.first) r.insert(x); else { long m=((x.second%3)+3)%3; auto& b=K(1+m); r.insert(b.begin(),b.end()); } } break;
    case PINV: { out o(0,0); for(int i=0;i<3;i++){ auto x=*K(i).begin(); if(x.first){ o=x; break; } o.second+=x.second*(i+1); } r.insert(o); break; } }
  t.n[id].o=r; return id; }
// ---- the real thing
void called(T* t,int id,int what){ sim::atomic_section s; if(t->n[id].calls[what]++) sim_fail("functor-twice","functor %d of %s %d called twice",what,names[t->n[id].k],id); }
struct leaf : ba::continuation_task<long> { tp t; int id; leaf(tp t,int id):ba::continuation_task<long>("l"),t(t),id(id){}
  void operator()(){ t->tok->check("run"); called(t.get(),id,0); auto r=this->this_task_result(); auto tt=t; int i=id; N& n=t->n[id];
    switch(n.how){ case THROW: throw E(id); case SETEX: r.set_exception(std::make_exception_ptr(E(id))); return; case SLEEP: sim_sleep(sim_pick(3)*sim::ms); r.set_value(id+1); return;
      case LATER: case LATEREX: { auto w=ba::get_thread_scheduler<job_t>(); auto s=w.lock(); auto f=[r,tt,i]{ if(tt->n[i].how==LATEREX) r.set_exception(std::make_exception_ptr(E(i))); else r.set_value(i+1); }; if(s.is_valid()) s.post(job_t(f)); else f(); return; }
      default: r.set_value(id+1); return; } } };
C mk(tp t,int id);
ba::detail::callback_continuation<void,job_t> mkv(tp t,int id){ return ba::then(mk(t,id),[t](ba::expected<long> e){ e.get(); }); }
struct lam { tp t; int id; long operator()(){ called(t.get(),id,0); if(t->n[id].how==SLEEP) sim_sleep(sim_pick(3)*sim::ms); if(t->n[id].how==THROW) throw E(id); return id+1; } };
C mk(tp t,int id){ N& n=t->n[id]; auto K=[&](int i){ return mk(t,n.kids[i]); }; bool ft=n.fthrow; T* p=t.get();
  switch(n.k){
    case LEAF: return ba::top_level_callback_continuation_job<long,job_t>(leaf(t,id));
    case THENV: return ba::then(K(0),[t,p,id,ft](ba::expected<long> e){ called(p,id,0); long v=e.get(); if(ft) throw E(id); return v*2+1; });
    case THENREC: return ba::then(K(0),[t,p,id](ba::expected<long> e)->long { called(p,id,0); if(!e.has_exception()) return e.get(); try{ e.get(); }catch(E& x){ return -(long)x.id; }catch(ba::combined_exception&){ return 1; } return 0; });
    case THENVOID: return ba::then(ba::then(K(0),[t,p,id,ft](ba::expected<long> e){ called(p,id,0); p->n[id].calls[3]=(int)e.get(); if(ft) throw E(id); }),[t,p,id](ba::expected<void> e)->long { called(p,id,1); e.get(); return (long)p->n[id].calls[3]*2+1; });
    case THENC: { auto kids=n.kids; return ba::then(K(0),[t,p,id,ft,kids](ba::expected<long> e){ called(p,id,0); e.get(); if(ft) throw E(id); return mk(t,kids[1]); }); }
    case THENCVOID: { auto kids=n.kids; return ba::then(ba::then(K(0),[t,p,id,ft,kids](ba::expected<long> e){ called(p,id,0); p->n[id].calls[3]=(int)e.get(); if(ft) throw E(id); return mkv(t,kids[1]); }),[t,p,id](ba::expected<void> e)->long { called(p,id,1); e.get(); return (long)p->n[id].calls[3]*2+1; }); }
    case INVOKE: return ba::invoke(K(0),[t,p,id,ft](long v){ if(p) called(p,id,0); if(ft) throw E(id); return v*2+1; });
    case ALL2: { auto a=K(0); auto b=K(1); return ba::then(ba::all_of(std::move(a),std::move(b)),[t,p,id](ba::expected<std::tuple<long,long>> e){ called(p,id,0); auto& v=e.get(); return std::get<0>(v)+2*std::get<1>(v); }); }
    case ALLTUP: { auto a=K(0); auto b=K(1); return ba::then(ba::all_of(std::make_tuple(std::move(a),std::move(b))),[t,p,id](ba::expected<std::tuple<long,long>> e){ called(p,id,0); auto& v=e.get(); return std::get<0>(v)+2*std::get<1>(v); }); }
    case ALL3VOID: { auto a=K(0); auto b=mkv(t,n.kids[1]); auto c=K(2); return ba::then(ba::all_of(std::move(a),std::move(b),std::move(c)),[t,p,id](ba::expected<std::tuple<long,ba::detail::void_wrapper,long>> e){ called(p,id,0); auto& v=e.get(); return std::get<0>(v)+1+3*std::get<2>(v); }); }
    case ALLV: { std::vector<C> v; int m=n.kids.size(); for(int i=0;i<m;i++) v.push_back(K(i)); return ba::then(ba::all_of(std::move(v)),[t,p,id,m](ba::expected<std::vector<long>> e){ called(p,id,0); auto& v=e.get(); if((int)v.size()!=m) sim_fail("wrong-count","all_of of %d gives %d values",m,(int)v.size()); long s=0; for(int i=0;i<m;i++) s+=v[i]*(i+1); return s; }); }
    case ALLVVOID: { std::vector<ba::detail::callback_continuation<void,job_t>> v; int m=n.kids.size(); for(int i=0;i<m;i++) v.push_back(mkv(t,n.kids[i])); return ba::then(ba::all_of(std::move(v)),[t,p,id,m](ba::expected<std::vector<ba::detail::void_wrapper>> e){ called(p,id,0); auto& v=e.get(); return (long)v.size(); }); }
    case ANY2: { auto a=K(0); auto b=K(1); return ba::then(ba::any_of(std::move(a),std::move(b)),[t,p,id](ba::expected<ba::any_of_result<long,long>> e)->long { called(p,id,0); auto& v=e.get(); if(v.index()>1) sim_fail("wrong-index","any_of of two answers with index %d",(int)v.index()); long x=boost::get<long>(v.value()); if(!p->n[p->n[id].kids[v.index()]].o.count(out(0,x))) sim_fail("wrong-value","any_of: member %d cannot give %ld",(int)v.index(),x); return x; }); }
    case ANY3VOID: { auto a=K(0); auto b=mkv(t,n.kids[1]); auto c=K(2); return ba::then(ba::any_of(std::move(a),std::move(b),std::move(c)),[t,p,id](ba::expected<ba::any_of_result<long,void,long>> e)->long { called(p,id,0); auto& v=e.get(); if(v.index()>2) sim_fail("wrong-index","any_of of three answers with index %d",(int)v.index()); if(v.index()==1) return -7; long x=boost::get<long>(v.value()); if(!p->n[p->n[id].kids[v.index()]].o.count(out(0,x))) sim_fail("wrong-value","any_of: member %d cannot give %ld",(int)v.index(),x); return x; }); }
    case ITE: { auto kids=n.kids; auto f=ba::if_then_else([t,p,id,ft](long const& v){ called(p,id,0); if(ft) throw E(id); return (v&1)!=0; },[t,p,id,kids](long){ called(p,id,1); return mk(t,kids[1]); },[t,p,id,kids](long){ called(p,id,2); return mk(t,kids[2]); }); return f(K(0)); }
    case IFELSE: { auto kids=n.kids; return ba::else_(ba::if_(K(0),[t,p,id,ft](long const& v){ called(p,id,0); if(ft) throw E(id); return (v&1)!=0; },[t,p,id,kids](long){ called(p,id,1); return mk(t,kids[1]); }),[t,p,id,kids](long){ called(p,id,2); return mk(t,kids[2]); }); }
    case ELSEIF: { auto kids=n.kids; return ba::else_(ba::else_if(ba::if_(K(0),[t](long const& v){ return ((v%3)+3)%3==0; },[t,p,id,kids](long){ called(p,id,0); return mk(t,kids[1]); }),[t](long const& v){ return ((v%3)+3)%3==1; },[t,p,id,kids](long){ called(p,id,1); return mk(t,kids[2]); }),[t,p,id,kids](long){ called(p,id,2); return mk(t,kids[3]); }); }
    case PINV: { auto kids=n.kids; return ba::then(ba::parallel_invoke<job_t>(ba::to_continuation_task(lam{t,kids[0]}),ba::to_continuation_task(lam{t,kids[1]}),ba::to_continuation_task(lam{t,kids[2]})),[t,p,id,kids](ba::expected<std::tuple<ba::expected<long>,ba::expected<long>,ba::expected<long>>> e)->long { called(p,id,0); auto& v=e.get(); auto one=[&](int i,ba::expected<long>& x)->long { bool bad=p->n[kids[i]].how==THROW; if(x.has_exception()!=bad) sim_fail("wrong-outcome","parallel_invoke: member %d %s",i,bad?"must fail":"must succeed"); return x.get()*(i+1); }; return one(0,std::get<0>(v))+one(1,std::get<1>(v))+one(2,std::get<2>(v)); }); } }
  abort(); }
void check_top(T* t,int root,std::function<long()> get){ out o; try{ o=out(0,get()); }catch(E& x){ o=out(1,x.id); }catch(ba::combined_exception& x){ o=out(1,-1); if(x.underlying_exceptions().size()<2) sim_fail("wrong-exception","any_of: %d exceptions",(int)x.underlying_exceptions().size()); for(auto& e:x.underlying_exceptions()) if(!e) sim_fail("wrong-exception","any_of fails although a member did not"); }catch(std::exception& x){ sim_fail("wrong-exception","%s fails with %s",names[t->n[root].k],x.what()); }
  if(!t->n[root].o.count(o)){ std::string s; for(auto& x:t->n[root].o) s+=(x.first?" exception ":" value ")+std::to_string(x.second); sim_fail("wrong-outcome","%s gives %s %ld, possible:%s",names[t->n[root].k],o.first?"exception":"value",o.second,s.c_str()); } }
void run(bool callback,bool deep){ pool_kind* k=pool_pick(0,PK_SPSC); sim_probe(k->name,1); int nt=1+sim_pick(deep?2:3); std::vector<tp> ts; std::vector<int> roots; for(int i=0;i<nt;i++){ ts.push_back(std::make_shared<T>()); ts[i]->n.reserve(96); ts[i]->failing=sim_pick(4)*25; roots.push_back(build(*ts[i],deep?2+sim_pick(2):1)); for(auto& n:ts[i]->n) sim_probe(names[n.k],1); }
  { pool_t pool=k->make(1+sim_pick(3)); std::vector<std::future<long>> fs; for(int i=0;i<nt;i++){ auto t=ts[i]; int root=roots[i]; fs.push_back(ba::post_future(pool,[t,root]{ return mk(t,root); })); }
    for(int i=0;i<nt;i++){ if(!wait_for([&]{ return fs[i].wait_for(std::chrono::seconds(0))==std::future_status::ready; },200)) sim_fail("never-completes","%s of %d nodes never completes",names[ts[i]->n[roots[i]].k],(int)ts[i]->n.size()); check_top(ts[i].get(),roots[i],[&]{ return fs[i].get(); }); } }
  ts.clear(); expect_no_leak("tasks and functors"); }
}
SIM_SCENARIO(P13,single,0,6){ run(false,false); }
SIM_SCENARIO(P13,nested,0,10){ run(false,true); }
