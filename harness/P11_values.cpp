// P11, value kinds: subtask results which have no default constructor, are move-only or empty, copied and moved by the completion.
#include "pools.hpp"
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
namespace {
struct nd { int v; std::shared_ptr<token> t; nd(int v,std::shared_ptr<token> t):v(v),t(t){} };            // copyable, no default constructor
struct mo { std::unique_ptr<int> v; std::shared_ptr<token> t; mo(){} mo(int v,std::shared_ptr<token> t):v(new int(v)),t(t){} };  // move-only
inline int value(nd const& x){ x.t->check("value"); return x.v; } inline int value(mo const& x){ if(!x.v) sim_fail("wrong-value","an empty value arrives"); x.t->check("value"); return *x.v; }
struct E : sim_error { using sim_error::sim_error; };
struct state { std::atomic<int> done{0}; int outcome=-1; };
// how==0 value, 1 throws, 2 exception set, 3 value set by another job
template<class R> struct leaf : ba::continuation_task<R> { int id,how; std::shared_ptr<token> t; leaf(int id,int how,std::shared_ptr<token> t):ba::continuation_task<R>("leaf"),id(id),how(how),t(t){}
  void operator()(){ auto r=this->this_task_result(); int i=id; auto tk=t; switch(how){ case 1: throw E(i); case 2: r.set_exception(std::make_exception_ptr(E(i))); return; case 3: { auto s=ba::get_thread_scheduler<job_t>().lock(); if(s.is_valid()){ s.post(job_t([r,i,tk]{ r.set_value(R(i,tk)); })); return; } } } r.set_value(R(i,tk)); } };
struct vleaf : ba::continuation_task<void> { int id,how; vleaf(int id,int how):ba::continuation_task<void>("vleaf"),id(id),how(how){} void operator()(){ auto r=this->this_task_result(); if(how==1) throw E(id); if(how==2) r.set_exception(std::make_exception_ptr(E(id))); else r.set_value(); } };
template<class X> void check1(X& e,int id,int how){ bool f=how==1||how==2; if(e.has_exception()!=f||e.has_value()==f) sim_fail("wrong-outcome","subtask %d: %s, expected %s",id,e.has_exception()?"exception":"value",f?"exception":"value");
  try{ int v=value(e.get()); if(f) sim_fail("wrong-outcome","subtask %d failed but gives a value",id); if(v!=id) sim_fail("wrong-value","subtask %d has the value %d",id,v); }catch(E& x){ if(!f||x.id!=id) sim_fail("foreign-exception","subtask %d got the exception of %d",id,x.id); if(!e.get_exception_ptr()) sim_fail("wrong-outcome","no exception pointer"); } }
template<class X> void check_void(X& e,int id,int how){ bool f=how==1||how==2; if(e.has_exception()!=f) sim_fail("wrong-outcome","void subtask %d: wrong outcome",id); try{ e.get(); if(f) sim_fail("wrong-outcome","void subtask %d failed",id); }catch(E& x){ if(!f||x.id!=id) sim_fail("foreign-exception","void subtask %d got the exception of %d",id,x.id); } }
// what a completion may do with an expected: copy it, assign it, move it, and look at it again
template<class R> void use(ba::expected<R>& e,int id,int how,int mode,ba::expected<R> other,std::true_type){ check1(e,id,how); switch(mode){
   case 0: { ba::expected<R> c(e); check1(c,id,how); check1(e,id,how); break; }
   case 1: { ba::expected<R> c; c=e; check1(c,id,how); check1(e,id,how); break; }
   case 2: { other=e; check1(other,id,how); check1(e,id,how); ba::expected<R> c(std::move(other)); check1(c,id,how); break; }
   case 3: { other=std::move(e); check1(other,id,how); e=other; break; }
   default: { ba::expected<R> c(std::move(e)); check1(c,id,how); e=std::move(c); } } check1(e,id,how); }
template<class R> void use(ba::expected<R>& e,int id,int how,int mode,ba::expected<R> other,std::false_type){ check1(e,id,how); if(mode&1){ other=std::move(e); check1(other,id,how); e=std::move(other); } else { ba::expected<R> c(std::move(e)); check1(c,id,how); e=std::move(c); } check1(e,id,how); }
template<class R> struct copyable : std::is_copy_constructible<R> {};
struct plan { int form,n; int how[4]; int mode[4]; int other; };
plan make_plan(){ plan p; p.form=sim_pick(4); p.n=sim_pick(4); for(int i=0;i<4;i++){ static const int h[]={0,0,1,2,3}; p.how[i]=h[sim_pick(5)]; p.mode[i]=sim_pick(5); } p.other=sim_pick(3); return p; }
template<class R> ba::expected<R> make_other(plan const& p,std::shared_ptr<token> t){ if(p.other==0) return ba::expected<R>(); if(p.other==1) return ba::expected<R>(R(77,t)); return ba::expected<R>(std::make_exception_ptr(E(77))); }
inline bool bad(int h){ return h==1||h==2; }
// the top-level task: result = value 100 + first subtask, or its exception
template<class R> struct top : ba::continuation_task<R> { plan p; std::shared_ptr<state> st; std::shared_ptr<token> t; top(plan p,std::shared_ptr<state> st,std::shared_ptr<token> t):ba::continuation_task<R>("top"),p(p),st(st),t(t){}
  static void finish(ba::continuation_result<R>& r,plan const& p,std::shared_ptr<state> const& st,std::shared_ptr<token> const& t,bool fail,std::exception_ptr ep){ (void)p; if(++st->done!=1) sim_fail("completion-twice","the completion is called twice"); if(fail) r.set_exception(ep); else r.set_value(R(100,t)); }
  void operator()(){ auto r=this->this_task_result(); auto pl=p; auto s=st; auto tk=t; typedef ba::expected<R> X; copyable<R> cp;
    switch(p.form){
     case 0: ba::create_callback_continuation([r,pl,s,tk,cp](std::tuple<X> x)mutable{ use(std::get<0>(x),1,pl.how[0],pl.mode[0],make_other<R>(pl,tk),cp); finish(r,pl,s,tk,bad(pl.how[0]),std::get<0>(x).get_exception_ptr()); },leaf<R>(1,pl.how[0],tk)); return;
     case 1: ba::create_callback_continuation([r,pl,s,tk,cp](std::tuple<X,ba::expected<void>,X> x)mutable{ use(std::get<0>(x),1,pl.how[0],pl.mode[0],make_other<R>(pl,tk),cp); check_void(std::get<1>(x),2,pl.how[1]); { auto c=std::get<1>(x); check_void(c,2,pl.how[1]); } use(std::get<2>(x),3,pl.how[2],pl.mode[2],make_other<R>(pl,tk),cp);
          std::exception_ptr e=bad(pl.how[0])?std::get<0>(x).get_exception_ptr():bad(pl.how[1])?std::get<1>(x).get_exception_ptr():bad(pl.how[2])?std::get<2>(x).get_exception_ptr():nullptr; finish(r,pl,s,tk,!!e,e); },leaf<R>(1,pl.how[0],tk),vleaf(2,pl.how[1]),leaf<R>(3,pl.how[2],tk)); return;
     case 2: { std::vector<leaf<R>> v; for(int i=0;i<pl.n;i++) v.emplace_back(i+1,pl.how[i],tk); ba::create_callback_continuation([r,pl,s,tk,cp](std::vector<X> x)mutable{ if((int)x.size()!=pl.n) sim_fail("wrong-count","the completion gets %zu results instead of %d",x.size(),pl.n); std::exception_ptr e; for(int i=0;i<pl.n;i++){ use(x[i],i+1,pl.how[i],pl.mode[i],make_other<R>(pl,tk),cp); if(!e&&bad(pl.how[i])) e=x[i].get_exception_ptr(); } finish(r,pl,s,tk,!!e,e); },std::move(v)); return; }
     default: ba::create_callback_continuation([r,pl,s,tk,cp](std::tuple<ba::expected<nd>,ba::expected<mo>> x)mutable{ use(std::get<0>(x),1,pl.how[0],pl.mode[0],make_other<nd>(pl,tk),std::true_type()); use(std::get<1>(x),2,pl.how[1],pl.mode[1],make_other<mo>(pl,tk),std::false_type());
          std::exception_ptr e=bad(pl.how[0])?std::get<0>(x).get_exception_ptr():bad(pl.how[1])?std::get<1>(x).get_exception_ptr():nullptr; finish(r,pl,s,tk,!!e,e); },leaf<nd>(1,pl.how[0],tk),leaf<mo>(2,pl.how[1],tk)); return; } } };
bool fails(plan const& p){ int n=p.form==0?1:p.form==1?3:p.form==2?p.n:2; for(int i=0;i<n;i++) if(bad(p.how[i])) return true; return false; }
int first_bad(plan const& p){ for(int i=0;i<4;i++) if(bad(p.how[i])) return i+1; return 0; }
template<class X> void check_top(plan const& p,X get){ try{ int v=get(); if(fails(p)) sim_fail("wrong-outcome","the task succeeds although a subtask failed"); if(v!=100) sim_fail("wrong-value","value %d",v); }catch(E& x){ if(!fails(p)||x.id!=first_bad(p)) sim_fail("wrong-outcome","the task fails with the exception of %d",x.id); }catch(std::exception& x){ sim_fail("wrong-exception","the task fails with %s",x.what()); } }
template<class R> void by_future(pool_t& pool,plan p,std::shared_ptr<token> t){ auto st=std::make_shared<state>(); std::future<R> f=ba::post_future(pool,[p,st,t]{ return ba::top_level_callback_continuation<R>(top<R>(p,st,t)); }); if(!wait_for([&]{ return f.wait_for(std::chrono::seconds(0))==std::future_status::ready; },300)) sim_fail("never-completes","the task never completes"); check_top(p,[&]{ R r=f.get(); return value(r); }); if(st->done!=1) sim_fail("completion-lost","the completion was called %d times",(int)st->done); }
struct Servant : ba::trackable_servant<> { typedef int requires_weak_scheduler; Servant(ba::any_weak_scheduler<> s,pool_t p):ba::trackable_servant<>(s,p){}
  template<class R> void start(plan p,std::shared_ptr<state> st,std::shared_ptr<token> t,std::shared_ptr<std::atomic<int>> n){ post_callback([p,st,t]{ return ba::top_level_callback_continuation<R>(top<R>(p,st,t)); },[p,n](ba::expected<R> e){ check_top(p,[&]{ return value(e.get()); }); if constexpr(std::is_copy_constructible<R>::value){ ba::expected<R> c(e),d; d=e; check_top(p,[&]{ return value(c.get()); }); check_top(p,[&]{ return value(d.get()); }); } else { ba::expected<R> c(std::move(e)); check_top(p,[&]{ return value(c.get()); }); } ++*n; }); }
  // a plain task with such a result
  template<class R> void plain(int how,std::shared_ptr<token> t,std::shared_ptr<std::atomic<int>> n){ post_callback([how,t]()->R{ if(bad(how)) throw E(5); return R(5,t); },[how,t,n](ba::expected<R> e){ plan p=plan(); p.other=1; use(e,5,how?1:0,(int)(n.use_count()%5),make_other<R>(p,t),copyable<R>()); ++*n; }); }
  void go(plan p,bool m,std::shared_ptr<state> st,std::shared_ptr<token> t,std::shared_ptr<std::atomic<int>> n){ if(m) start<mo>(p,st,t,n); else start<nd>(p,st,t,n); }
  void go_plain(int how,bool m,std::shared_ptr<token> t,std::shared_ptr<std::atomic<int>> n){ if(m) plain<mo>(how,t,n); else plain<nd>(how,t,n); } };
struct Proxy : ba::servant_proxy<Proxy,Servant> { template<class S> Proxy(S s,pool_t p):ba::servant_proxy<Proxy,Servant>(s,p){} BOOST_ASYNC_POST_MEMBER(go) BOOST_ASYNC_POST_MEMBER(go_plain) };
}
SIM_SCENARIO(P11,values,SIM_HB,5){ pool_kind* k=pool_pick(0,PK_SPSC); pool_kind* k1=pool_pick(PK_SINGLE,PK_SPSC); sim_probe(k->name,1); auto tok=std::make_shared<token>(1); { pool_t pool=k->make(1+sim_pick(3)); pool_t s; bool serv=sim_pick(2); int nc=1+sim_pick(2); std::vector<plan> ps; std::vector<int> kinds; for(int i=0;i<nc*2;i++){ ps.push_back(make_plan()); kinds.push_back(sim_pick(3)); }
    if(!serv){ std::vector<client> cs; for(int c=0;c<nc;c++) cs.emplace_back([&,c]{ for(int i=0;i<2;i++){ plan p=ps[c*2+i]; if(kinds[c*2+i]&1) by_future<mo>(pool,p,tok); else by_future<nd>(pool,p,tok); } }); for(auto& c:cs) c.join(); }
    else { s=k1->make(1); auto n=std::make_shared<std::atomic<int>>(0); std::vector<std::shared_ptr<state>> sts; { Proxy px(s,pool); for(unsigned i=0;i<ps.size();i++){ sts.push_back(std::make_shared<state>()); if(kinds[i]==2) px.go_plain(bad(ps[i].how[0])?1:0,ps[i].mode[0]&1,tok,n); else px.go(ps[i],kinds[i]&1,sts[i],tok,n); } if(!wait_for([&]{ return *n==(int)ps.size(); },300)) sim_fail("never-completes","%d of %zu callbacks come",(int)*n,ps.size()); } sim_probe("servant",1); } }
  tok.reset(); expect_no_leak("values"); }
