// Common driver of the algorithm harnesses (P14..P17): inputs, element type with happens-before cells, functor faults.
#pragma once
#include "pools.hpp"
#include <algorithm>
#include <numeric>
#include <list>
#include <set>
#include <type_traits>
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/continuation_task.hpp>
struct elem_error : sim_error { using sim_error::sim_error; };
struct odd_error { int id; }; // not derived from std::exception
// element: value, identity (for stability and conservation) and a happens-before cell
struct el { int v,id; sim_cell c; enum { LIVE=0x11223344, DEAD=0x55667788 }; unsigned st;
  el(int v=0,int id=-1):v(v),id(id),st(LIVE){ sim_cell_init(&c); sim_cell_write(&c,"element"); sim::atomic_section s; ++lives().live; }
  el(el const& o):el(){ assign(o); } el(el&& o):el(){ assign(o); o.moved(); }
  el& operator=(el const& o){ if(this!=&o) assign(o); return *this; } el& operator=(el&& o){ if(this!=&o){ assign(o); o.moved(); } return *this; }
  ~el(){ sim::atomic_section s; if(st!=LIVE) sim_fail("double-destruction","element destroyed twice"); st=DEAD; --lives().live; }
  void live() const { if(st!=LIVE) sim_fail("dead-object","use of a destroyed element"); }
  void assign(el const& o){ live(); o.live(); sim_cell_read(const_cast<sim_cell*>(&o.c),"element"); sim_cell_write(&c,"element"); v=o.v; id=o.id; }
  void moved(){ sim_cell_write(&c,"element"); v=-999; id=-999; }
  int get() const { live(); sim_cell_read(const_cast<sim_cell*>(&c),"element"); return v; }
  void set(int x){ live(); sim_cell_write(&c,"element"); v=x; } };
inline bool operator==(el const& a,el const& b){ return a.get()==b.get(); } inline bool operator!=(el const& a,el const& b){ return a.get()!=b.get(); }
inline bool operator<(el const& a,el const& b){ return a.get()<b.get(); }
typedef std::vector<el> V; typedef std::vector<int> VI;
struct A { pool_t pool; int n=0; long cut=1; bool throwing=false; bool shortcut=false; std::vector<char> bad; std::vector<int> hits; int thrown=0; bool done=false; bool finished=false; const char* name="";
  std::set<int> thrown_ids; bool odd=false; bool sleepy=false;
  void init(int sz){ n=sz; hits.assign(sz+1,0); bad.assign(sz+1,0); if(throwing){ int k=sim_pick(4); for(int i=0;i<k&&sz>0;i++) bad[sim_pick(sz)]=1; } }
  // functor entry for element i (identity)
  void hit(int i){ bool th=false; { sim::atomic_section s; if(i<0||i>=(int)hits.size()) sim_fail("wrong-element","%s: functor called with an element which is not in the range (id %d)",name,i); if(done) sim_fail("after-completion","%s: functor called after the algorithm completed",name); hits[i]++; if(bad[i]){ th=true; thrown++; thrown_ids.insert(i); } } if(th&&odd) throw odd_error{i}; if(th) throw elem_error(i); if(sleepy&&sim_pick(8)==7) sim_sleep(sim_pick(3)*sim::ms); }
  void pair(int i,int j){ hit(i); (void)j; }
  void once(const char* what="element"){ for(int i=0;i<n;i++) if(hits[i]!=1) sim_fail("wrong-count","%s: functor called %d times for %s %d",name,hits[i],what,i); }
  template<class R,class G> struct fin { static void go(A& a,std::future<R>& f,G& g){ R r=f.get(); a.completed(); g(std::move(r)); } };
  void completed(){ sim::atomic_section s; done=true; if(thrown&&!shortcut) sim_fail("exception-lost","%s succeeds although its functor threw %d times",name,thrown); }
  void failed(int id,bool kind){ { sim::atomic_section s; done=true; } if(!thrown) sim_fail("wrong-exception","%s fails although nothing threw",name); if(!kind||!thrown_ids.count(id)) sim_fail("wrong-exception","%s fails with an exception of element %d which threw none",name,id); sim_probe("failed",1); }
  // run the algorithm f (returns a continuation) in the pool, give its result to g
  template<class F,class G> void run(F f,G g){ typedef typename decltype(f())::return_type R; std::future<R> fu=ba::post_future(pool,f); go<R>(fu,g); }
  template<class R,class G> void go(std::future<R>& fu,G& g){
    if(!wait_for([&]{ return fu.wait_for(std::chrono::seconds(0))==std::future_status::ready; },300)) sim_fail("never-completes","%s of %d elements, cutoff %ld never completes",name,n,cut);
    try{ if constexpr(std::is_same<R,void>::value){ fu.get(); completed(); g(); } else { R r=fu.get(); completed(); g(std::move(r)); } finished=true; }
    catch(elem_error& x){ failed(x.id,!odd); } catch(odd_error& x){ failed(x.id,odd); }
    catch(std::exception& x){ sim_fail("wrong-exception","%s fails with %s",name,x.what()); } } };
template<class C> inline std::vector<int> vals(C const& c){ std::vector<int> r; for(auto& e:c) r.push_back(e.get()); return r; }
template<class C> inline std::vector<int> ids(C const& c){ std::vector<int> r; for(auto& e:c){ e.get(); r.push_back(e.id); } return r; }
inline std::string show(std::vector<int> const& v){ std::string s="["; for(int x:v) s+=std::to_string(x)+" "; return s+"]"; }
inline void same(A& a,std::vector<int> const& got,std::vector<int> const& want,const char* what="result"){ if(got!=want) sim_fail("wrong-result","%s (n %d cutoff %ld): %s %s, expected %s",a.name,a.n,a.cut,what,show(got).c_str(),show(want).c_str()); }
inline void same(A& a,long got,long want,const char* what="result"){ if(got!=want) sim_fail("wrong-result","%s (n %d cutoff %ld): %s %ld, expected %ld",a.name,a.n,a.cut,what,got,want); }
inline V make_v(A& a,int n,int range){ (void)a; V v; v.reserve(n); for(int i=0;i<n;i++) v.emplace_back((int)sim_pick(range),i); return v; }
inline std::vector<int> sorted(std::vector<int> v){ std::sort(v.begin(),v.end()); return v; }
// registry
enum { OP_FUNC=1 /* has a user functor */, OP_SHORT=2 /* may skip elements */ };
struct op { const char* name; void (*fn)(A&); unsigned flags; int group; op* next; static op*& head(){ static op* h=nullptr; return h; } op(const char* n,void(*f)(A&),unsigned fl,int g):name(n),fn(f),flags(fl),group(g),next(nullptr){ op** q=&head(); while(*q) q=&(*q)->next; *q=this; } };
#define OP(group,name,flags) static void op_##name(A&); static op rop_##name(#name,&op_##name,flags,group); static void op_##name(A& a)
inline int op_size(){ return sim_pick(4)==3?(int)sim_pick(40):(int)sim_pick(14); }
inline op* op_pick(int group,unsigned need){ int c=0; for(op* o=op::head();o;o=o->next) if((!group||o->group==group)&&(o->flags&need)==need) c++; int i=sim_pick(c); for(op* o=op::head();o;o=o->next) if((!group||o->group==group)&&(o->flags&need)==need){ if(i--==0) return o; } return nullptr; }
// a run: 1-3 clients execute 1-2 random algorithms each, on one pool
inline void algo_run(int group,bool throwing){ pool_kind* k=pool_pick(0,PK_SPSC); sim_probe(k->name,1); int nc=1+(sim_pick(3)==2); { pool_t pool=k->make(1+sim_pick(4)); { std::vector<client> cs; for(int c=0;c<nc;c++) cs.emplace_back([&]{ int m=1+sim_pick(2); for(int i=0;i<m;i++){ op* o=op_pick(group,throwing?OP_FUNC:0); sim_probe(o->name,1); A a; a.pool=pool; a.cut=1+sim_pick(6); a.throwing=throwing; a.odd=throwing&&sim_pick(3)==2; a.shortcut=(o->flags&OP_SHORT)!=0; a.name=o->name; a.sleepy=sim_pick(3)==2; o->fn(a); } }); } }
  expect_no_leak("elements"); }
