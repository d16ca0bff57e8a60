#pragma once
// P27: what is handed over with a task is moved, destroyed exactly once, promptly, and in the thread it came from.
#include "pools.hpp"
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/algorithm/then.hpp>
#include <algorithm>
namespace p27 {
enum { MAXC=160 };
enum role { TASK, CALLBACK, RESULT, ARG, LEAF, DONE };
inline const char* rname(int r){ static const char* n[]={"task","callback","result","argument","subtask","continuation callback"}; return n[r]; }
struct CS { int role,kind; int live,made,copies,dead; boost::thread::id last; boost::thread::id owner; bool bound; bool used; };
struct W { bool stopped[MAXC]={},strayed[MAXC]={}; CS c[MAXC]; int n=0; bool free_threads=false; W(){ for(auto& x:c){ x.role=x.kind=x.live=x.made=x.copies=x.dead=0; x.bound=x.used=false; } } };
// payload which travels with a task
struct content { W* w; int id; unsigned magic; int stop; };
struct cargo { content* c;
  cargo():c(nullptr){}
  cargo(W* w,int role,int kind):c(nullptr){ sim::atomic_section s; if(w->n>=MAXC) return; int id=w->n++; c=new content{w,id,0xCAFE,-1}; CS& x=w->c[id]; x.role=role; x.kind=kind; x.live=x.made=1; }
  cargo(cargo&& o)noexcept:c(o.c){ o.c=nullptr; }
  cargo(cargo const& o):c(nullptr){ if(o.c){ sim::atomic_section s; c=new content(*o.c); CS& x=c->w->c[c->id]; x.copies++; x.live++; x.made++; } }
  cargo& operator=(cargo&& o)noexcept{ if(this!=&o){ drop(); c=o.c; o.c=nullptr; } return *this; }
  cargo& operator=(cargo const& o){ cargo t(o); std::swap(c,t.c); return *this; }
  ~cargo(){ drop(); }
  int id()const{ return c?c->id:-1; }
  // the user's code looks at what it was given
  void use(const char* who)const{ if(!c) sim_fail("cargo-missing","%s is called but what was handed over with it is gone",who); if(c->magic!=0xCAFE) sim_fail("dead-object","%s uses a destroyed object",who); c->w->c[c->id].used=true; if(c->stop>=0&&c->w->strayed[c->stop]) sim_fail("wrong-thread","parts of interrupted work were destroyed in the worker's thread, its %s is called all the same",rname(c->w->c[c->id].role)); }
  void drop(){ if(!c) return; auto me=boost::this_thread::get_id(); sim::atomic_section s; if(c->magic!=0xCAFE) sim_fail("double-destruction","an object is destroyed twice"); c->magic=0xDEAD; CS& x=c->w->c[c->id]; x.live--; x.dead++; x.last=me; if(x.live<0) sim_fail("double-destruction","the %s of kind %d is destroyed twice",rname(x.role),x.kind);
    // interrupted work which never comes back: reported at the end, and at once if its callback comes all the same
    if(x.bound&&!c->w->free_threads&&me!=x.owner&&c->stop>=0&&c->w->stopped[c->stop]&&!(x.role==CALLBACK&&x.used)) { c->w->strayed[c->stop]=true; delete c; c=nullptr; return; }
    if(x.bound&&!c->w->free_threads&&me!=x.owner) sim_fail("wrong-thread","the %s (kind %d, object %d) of work posted by a servant is destroyed in another thread than the servant's",rname(x.role),x.kind,c->id); delete c; c=nullptr; } };
// all objects are gone, while the pool is still there
inline void expect_gone(W* w,const char* when,const char* cls="lingers"){ int left=-1; auto gone=[&]{ left=-1; for(int i=0;i<w->n;i++) if(w->c[i].live){ left=i; return false; } return true; };
  if(!wait_for(gone,100)) sim_fail(cls,"%s: the %s of kind %d (object %d) is still alive: %d instance(s), %d made",when,rname(w->c[left].role),w->c[left].kind,left,w->c[left].live,w->c[left].made); }
inline void expect_moved(W* w){ for(int i=0;i<w->n;i++) if(w->c[i].copies&&w->c[i].kind>1&&w->c[i].kind!=26&&(w->c[i].role==TASK||w->c[i].role==CALLBACK||w->c[i].role==ARG)) sim_fail("copied","the %s of kind %d was copied %d time(s)",rname(w->c[i].role),w->c[i].kind,w->c[i].copies); }
struct leaf : ba::continuation_task<int> { cargo g; int how; leaf(cargo x,int h):g(std::move(x)),how(h){} leaf(leaf&&)=default; leaf(leaf const&)=default; leaf& operator=(leaf&&)=default; leaf& operator=(leaf const&)=default; void operator()(){ g.use("a subtask"); auto r=this->this_task_result(); if(how==1) throw sim_error(7); if(how==2) boost::this_thread::interruption_point(); sim_point(); r.set_value(3); } };
struct cont : ba::continuation_task<int> { W* w; cargo g; int how,kind; cont(W* ww,cargo x,int h,int k):w(ww),g(std::move(x)),how(h),kind(k){} cont(cont&&)=default; cont(cont const&)=default; cont& operator=(cont&&)=default; cont& operator=(cont const&)=default;
  void operator()(){ g.use("a continuation task"); if(how==3) throw sim_error(8); auto res=this->this_task_result(); cargo d(w,DONE,kind);
    ba::create_callback_continuation([res,d=std::move(d)](std::tuple<ba::expected<int>,ba::expected<int>> r)mutable{ d.use("a continuation callback"); try{ res.set_value(std::get<0>(r).get()+std::get<1>(r).get()); }catch(...){ res.set_exception(std::current_exception()); } },leaf(cargo(w,LEAF,kind),how),leaf(cargo(w,LEAF,kind),how==1?0:how)); } };
inline int work(cargo const& g,int how){ g.use("a task"); sim_point(); if(how==1) throw sim_error(5); if(how==2) boost::this_thread::interruption_point(); if(how==3) sim_sleep(2*sim::ms); return 6; }
struct fref { std::future<int> i; std::future<void> v; std::future<cargo> c; };
template<class F> bool ready(F& f){ return !f.valid()||f.wait_for(std::chrono::seconds(0))==std::future_status::ready; }
template<class F> void fetch(F& f){ if(f.valid()) try{ f.get(); }catch(...){ } }
// algorithms: functors, subtasks, moved ranges and results do not outlive the result of the algorithm
struct item { cargo g; int v; item(W* w,int x):g(w,LEAF,50),v(x){} item():v(0){} bool operator<(item const& o)const{ return v<o.v; } };
struct algo_ctx { W* wp; pool_t& pool; int n,cut,bad,nt; bool hasint,drop; std::shared_ptr<cargo> fn; std::vector<item> in,out; ba::any_interruptible ih; int a;
  template<class T> void go(T task){ typedef typename decltype(task())::return_type R; std::future<R> f; if(hasint){ auto t=ba::interruptible_post_future(pool,std::move(task)); f=std::move(std::get<0>(t)); ih=std::get<1>(t); if(sim_pick(2)) sim_sleep(sim_pick(3)*100); ih.interrupt(); } else f=ba::post_future(pool,std::move(task));
    if(!drop){ if(!wait_for([&]{ return ready(f); },200)) sim_fail("outcome-missing","algorithm %d never completes",a); } else pool=pool_t();
    try{ if constexpr(std::is_same<R,void>::value) f.get(); else { auto x=f.get(); (void)x; } }catch(...){ } } };
struct check_value { int bad; void operator()(int v)const{ if(v==bad) throw sim_error(9); sim_point(); } };
void algos1(algo_ctx&); void algos2(algo_ctx&); void algos3(algo_ctx&);
enum { ALGOS=31 };
}
