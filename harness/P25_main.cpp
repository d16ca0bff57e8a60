// P25: boost::asynchronous::vector behaves like a standard vector, also when elements throw.
#include "pools.hpp"
#include <algorithm>
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/container/vector.hpp>
#include <boost/asynchronous/container/algorithms.hpp>
namespace {
struct elem_error : sim_error { using sim_error::sim_error; };
struct block { char* p; size_t n; size_t bytes; };
// the storage of all vectors of a run (blocks handed out by the allocator) and the elements living in it
struct W { std::vector<block> blocks; int stored=0; bool armed=false; int thrown=0; unsigned keys=0; const char* op="construction"; W(){ blocks.reserve(256); }
  bool in(void const* q){ for(auto& b:blocks) if((char*)q>=b.p&&(char*)q<b.p+b.bytes) return true; return false; } };
W* w;
void may_throw(){ bool t=false; { sim::atomic_section s; if(w->armed&&sim_fault(SF_ELEM_THROW,w->keys++)){ w->thrown++; t=true; } } if(t) throw elem_error(7); }
template<bool NM> struct E { int v; unsigned st; bool mine; sim_cell c; enum { LIVE=0x11223344, DEAD=0x55667788 };
  void born(int x){ sim::atomic_section s; if(w->in(this)){ mine=true; if(st==LIVE&&seen(this,0)) sim_fail("constructed-twice","%s: element constructed over a living element",w->op); w->stored++; seen(this,1); } else mine=false; v=x; st=LIVE; sim_cell_init(&c); sim_cell_write(&c,"element"); ++lives().live; }
  // addresses of living elements in storage
  static bool seen(void const* p,int d){ static std::vector<void const*> l; auto it=std::find(l.begin(),l.end(),p); if(d==0) return it!=l.end(); if(d==1) l.push_back(p); else if(it!=l.end()){ *it=l.back(); l.pop_back(); } return true; }
  E(int x=-1){ bool dflt=x==-1; if(dflt) may_throw(); born(x); }
  E(E const& o){ o.check(); if(stor(this)) may_throw(); int x=o.get(); born(x); }
  E(E&& o) noexcept(NM) { o.check(); if(!NM&&stor(this)) may_throw(); int x=o.get(); if(NM) o.put(-2); born(x); }
  E& operator=(E const& o){ o.check(); check(); if(stor(this)) may_throw(); if(this!=&o) put(o.get()); return *this; }
  E& operator=(E&& o) noexcept(NM) { o.check(); check(); if(!NM&&stor(this)) may_throw(); if(this!=&o){ put(o.get()); if(NM) o.put(-2); } return *this; }
  ~E(){ sim::atomic_section s; if(st!=LIVE) sim_fail("double-destruction","%s: element destroyed twice or never constructed",w->op); sim_cell_write(&c,"element"); st=DEAD; if(mine){ w->stored--; seen(this,2); } --lives().live; }
  static bool stor(void const* p){ sim::atomic_section s; return w->in(p); }
  void check() const { if(st!=LIVE) sim_fail("dead-object","%s: use of an element which does not exist",w->op); }
  int get() const { check(); sim_cell_read(const_cast<sim_cell*>(&c),"element"); return v; }
  void put(int x){ sim_cell_write(&c,"element"); v=x; } };
template<bool NM> bool operator==(E<NM> const& a,E<NM> const& b){ return a.get()==b.get(); }
template<bool NM> bool operator<(E<NM> const& a,E<NM> const& b){ return a.get()<b.get(); }
// allocator with an identity, which has to be alive when it is used
template<class T> struct alloc_t { typedef T value_type; unsigned magic=0xA110C; alloc_t(){} alloc_t(alloc_t const& o){ if(o.magic!=0xA110C) sim_fail("dead-allocator","%s: copy of a destroyed allocator",w->op); } alloc_t& operator=(alloc_t const&){ return *this; } template<class U> alloc_t(alloc_t<U> const&){} ~alloc_t(){ *(volatile unsigned*)&magic=0xDEAD; }
  void ok(){ if(*(volatile unsigned*)&magic!=0xA110C) sim_fail("dead-allocator","%s: use of a destroyed allocator",w->op); }
  T* allocate(size_t n){ ok(); char* p=(char*)::operator new(n*sizeof(T)+1); memset(p,0,n*sizeof(T)); sim::atomic_section s; w->blocks.push_back(block{p,n,n*sizeof(T)}); return (T*)p; }
  void deallocate(T* p,size_t n){ ok(); { sim::atomic_section s; bool f=false; for(size_t i=0;i<w->blocks.size();i++) if(w->blocks[i].p==(char*)p){ if(w->blocks[i].n!=n) sim_fail("wrong-deallocation","%s: block of %zu elements freed as %zu",w->op,w->blocks[i].n,n); w->blocks.erase(w->blocks.begin()+i); f=true; break; } if(!f) sim_fail("wrong-deallocation","%s: unknown block freed",w->op); } ::operator delete(p); }
  bool operator==(alloc_t const&) const { return true; } bool operator!=(alloc_t const&) const { return false; } };
typedef std::vector<int> M;
template<bool NM,bool FM> struct run_t { typedef E<NM> T; typedef alloc_t<T> Al; typedef ba::vector<T,job_t,FM,Al> V;
  pool_t pool; long cut; std::unique_ptr<V> v[3]; M m[3]; bool par[3]; int next=1; bool faults;
  int fresh(){ return next++; }
  void arm(const char* op){ sim::atomic_section s; w->op=op; w->thrown=0; w->armed=faults; }
  int disarm(){ sim::atomic_section s; w->armed=false; return w->thrown; }
  void check(int i){ V& x=*v[i]; M& y=m[i]; if(x.size()!=y.size()) sim_fail("wrong-size","%s: size %zu instead of %zu",w->op,x.size(),y.size()); if(x.capacity()<x.size()) sim_fail("wrong-size","%s: capacity %zu smaller than size %zu",w->op,x.capacity(),x.size()); if(x.empty()!=y.empty()) sim_fail("wrong-size","%s: empty()",w->op);
    if((size_t)(x.end()-x.begin())!=y.size()) sim_fail("wrong-size","%s: end()-begin() is %ld instead of %zu",w->op,(long)(x.end()-x.begin()),y.size());
    for(size_t k=0;k<y.size();k++) if(x[k].get()!=y[k]) sim_fail("wrong-contents","%s: element %zu of %zu is %d instead of %d",w->op,k,y.size(),x[k].get(),y[k]);
    if(!y.empty()&&(x.front().get()!=y.front()||x.back().get()!=y.back()||x.data()->get()!=y[0]||x.at(y.size()-1).get()!=y.back())) sim_fail("wrong-contents","%s: front, back, data or at",w->op);
    size_t k=0; for(auto it=x.rbegin();k<y.size();++it,++k) if((*it).get()!=y[y.size()-1-k]) sim_fail("wrong-contents","%s: reverse iteration",w->op);
    try{ x.at(y.size()); sim_fail("wrong-contents","%s: at() accepts an index out of range",w->op); }catch(std::out_of_range&){ } }
  void check_all(){ for(int i=0;i<3;i++) if(v[i]) check(i); size_t n=0; for(int i=0;i<3;i++) if(v[i]) n+=m[i].size();
    if(!wait_for([&]{ return w->stored==(int)n; },40,1*sim::ms)) sim_fail("wrong-element-count","%s: %d elements exist in the storage of the vectors, whose sizes add up to %zu",w->op,w->stored,n); }
  M read(int i){ M r; for(size_t k=0;k<v[i]->size();k++) r.push_back((*v[i])[k].get()); return r; }
  // runs one operation; on success the model is updated by g, on failure a growing operation changes nothing
  template<class F,class G> void op(const char* name,int i,bool strong,F f,G g){ bool threw=false; arm(name); try{ f(); }catch(elem_error&){ threw=true; } catch(std::exception& e){ disarm(); sim_fail("wrong-exception","%s throws %s",name,e.what()); } int n=disarm();
    if(threw&&!n) sim_fail("wrong-exception","%s throws although no element did",name); if(!threw&&n) sim_fail("exception-lost","%s succeeds although an element threw",name);
    if(threw){ sim_probe("threw",1); if(!strong&&i>=0&&v[i]){ m[i]=read(i); } } else g(); check_all(); }
  template<class F> void make(const char* name,int i,bool p,M mm,F f){ v[i].reset(); m[i].clear(); par[i]=p; bool threw=false; arm(name); try{ v[i].reset(f()); }catch(elem_error&){ threw=true; } catch(std::exception& e){ disarm(); sim_fail("wrong-exception","%s throws %s",name,e.what()); } int n=disarm(); if(threw!=(n>0)) sim_fail(threw?"wrong-exception":"exception-lost","%s: %d elements threw, the constructor %s",name,n,threw?"throws":"succeeds");
    if(!threw) m[i]=mm; check_all(); if(threw){ v[i].reset(p?new V(pool,cut):new V()); } }
  M range(){ M r; int n=sim_pick(7); for(int k=0;k<n;k++) r.push_back(fresh()); return r; }
  std::vector<T> elems(M const& x){ std::vector<T> r; r.reserve(x.size()); for(int k:x) r.emplace_back(k); return r; }
  void construct(int i){ int k=sim_pick(11); switch(k){
      case 0: make("construct empty in pool",i,true,M(),[&]{ return new V(pool,cut); }); break;
      case 1: { int n=sim_pick(8); make("construct n in pool",i,true,M(n,-1),[&]{ return new V(pool,cut,n); }); break; }
      case 2: { int n=sim_pick(8); T x(fresh()); make("construct n copies in pool",i,true,M(n,x.get()),[&]{ return new V(pool,cut,n,x); }); break; }
      case 3: { M r=range(); auto e=elems(r); make("construct from range in pool",i,true,r,[&]{ return new V(pool,cut,e.begin(),e.end()); }); break; }
      case 4: { int a=fresh(),b=fresh(),c=fresh(); T x(a),y(b),z(c); make("construct from list in pool",i,true,M{a,b,c},[&]{ w->armed=false; std::initializer_list<T> l{x,y,z}; w->armed=faults; return new V(pool,cut,l); }); break; }
      case 5: make("construct empty",i,false,M(),[&]{ return new V(); }); break;
      case 6: { int n=sim_pick(8); T x(fresh()); make("construct n copies",i,false,M(n,x.get()),[&]{ return new V(n,x); }); break; }
      case 7: { M r=range(); auto e=elems(r); make("construct from range",i,false,r,[&]{ return new V(e.begin(),e.end()); }); break; }
      case 8: { int a=fresh(),b=fresh(); T x(a),y(b); make("construct from list",i,false,M{a,b},[&]{ w->armed=false; std::initializer_list<T> l{x,y}; w->armed=faults; return new V(l); }); break; }
      case 9: { int n=1+sim_pick(7); make("make_asynchronous_range",i,true,M(n,-1),[&]{ long c=cut; auto f=ba::post_future(pool,[n,c]{ return ba::make_asynchronous_range<V,job_t>(n,c); }); std::unique_ptr<V> r(new V(f.get())); r->set_scheduler(pool); return r.release(); }); break; }
      default: { int j=(i+1)%3; if(!v[j]){ construct(j); } make("copy construct",i,par[j],m[j],[&]{ return new V(*v[j]); }); break; } } }
  // in the pool, on a vector without scheduler
  template<class F,class G> void async(const char* name,int i,F f,G g){ if(!par[i]){ v[i]->set_scheduler(pool); par[i]=true; } v[i]->release_scheduler(); std::shared_ptr<V> x=std::make_shared<V>(std::move(*v[i])); v[i].reset(); bool threw=false; arm(name); std::unique_ptr<V> r;
    { auto fu=ba::post_future(pool,[x,f]()mutable{ return f(std::move(*x)); }); if(!wait_for([&]{ return fu.wait_for(std::chrono::seconds(0))==std::future_status::ready; },300)) sim_fail("never-completes","%s never completes",name); try{ r.reset(new V(fu.get())); }catch(elem_error&){ threw=true; }catch(std::exception& e){ disarm(); sim_fail("wrong-exception","%s throws %s",name,e.what()); } } x.reset(); int n=disarm(); if(threw!=(n>0)) sim_fail(threw?"wrong-exception":"exception-lost","%s: %d elements threw, the operation %s",name,n,threw?"fails":"succeeds");
    if(threw){ m[i].clear(); par[i]=true; v[i].reset(new V(pool,cut)); } else { g(); v[i]=std::move(r); v[i]->set_scheduler(pool); par[i]=true; } check_all(); }
  void step(){ int i=sim_pick(3); int k=sim_pick(40); if(!v[i]){ construct(i); return; } V& x=*v[i]; M& y=m[i]; size_t n=y.size(); int at=n?sim_pick(n+1):0; int j=(i+1+sim_pick(2))%3; bool big=n>14;
    switch(k){
      case 0: case 30: { T e(fresh()); op("push_back(const&)",i,true,[&]{ x.push_back(e); },[&]{ y.push_back(e.get()); }); break; }
      case 1: { int a=fresh(); T e(a); op("push_back(&&)",i,true,[&]{ x.push_back(std::move(e)); },[&]{ y.push_back(a); }); break; }
      case 2: if(n){ int q=sim_pick(n); int val=y[q]; op("push_back(own element)",i,true,[&]{ x.push_back(x[q]); },[&]{ y.push_back(val); }); } break;
      case 3: { int a=fresh(); op("emplace_back",i,true,[&]{ x.emplace_back(a); },[&]{ y.push_back(a); }); break; }
      case 4: if(n) op("pop_back",i,true,[&]{ x.pop_back(); },[&]{ y.pop_back(); }); break;
      case 5: if(!big){ T e(fresh()); op("insert(const&)",i,false,[&]{ auto it=x.insert(x.cbegin()+at,e); if(it-x.begin()!=at) sim_fail("wrong-result","insert returns position %ld",(long)(it-x.begin())); },[&]{ y.insert(y.begin()+at,e.get()); }); } break;
      case 6: if(!big){ int a=fresh(); T e(a); op("insert(&&)",i,false,[&]{ auto it=x.insert(x.cbegin()+at,std::move(e)); if(it-x.begin()!=at) sim_fail("wrong-result","insert returns position %ld",(long)(it-x.begin())); },[&]{ y.insert(y.begin()+at,a); }); } break;
      case 7: if(!big){ T e(fresh()); int c=sim_pick(5); op("insert(n copies)",i,false,[&]{ auto it=x.insert(x.cbegin()+at,(typename V::size_type)c,e); if(it-x.begin()!=at) sim_fail("wrong-result","insert returns position %ld",(long)(it-x.begin())); },[&]{ y.insert(y.begin()+at,c,e.get()); }); } break;
      case 8: if(!big){ M r=range(); auto e=elems(r); op("insert(range)",i,false,[&]{ auto it=x.insert(x.cbegin()+at,e.begin(),e.end()); if(it-x.begin()!=at) sim_fail("wrong-result","insert returns position %ld",(long)(it-x.begin())); },[&]{ y.insert(y.begin()+at,r.begin(),r.end()); }); } break;
      case 9: if(n&&!big){ int q=sim_pick(n); int val=y[q]; op("insert(own element)",i,false,[&]{ x.insert(x.cbegin()+at,x[q]); },[&]{ y.insert(y.begin()+at,val); }); } break;
      case 10: if(!big){ int a=fresh(); op("emplace",i,false,[&]{ auto it=x.emplace(x.cbegin()+at,a); if(it-x.begin()!=at) sim_fail("wrong-result","emplace returns position %ld",(long)(it-x.begin())); },[&]{ y.insert(y.begin()+at,a); }); } break;
      case 11: case 12: if(n){ int q=sim_pick(n); op("erase(position)",i,false,[&]{ auto it=x.erase(x.cbegin()+q); if(it-x.begin()!=q) sim_fail("wrong-result","erase of %d returns position %ld",q,(long)(it-x.begin())); },[&]{ y.erase(y.begin()+q); }); } break;
      case 13: case 31: if(n){ int b=sim_pick(n+1), e=b+sim_pick(n-b+1); op("erase(range)",i,false,[&]{ auto it=x.erase(x.cbegin()+b,x.cbegin()+e); if(it-x.begin()!=b) sim_fail("wrong-result","erase of [%d,%d) returns position %ld",b,e,(long)(it-x.begin())); },[&]{ y.erase(y.begin()+b,y.begin()+e); }); } break;
      case 14: { int c=sim_pick(16); op("resize",i,true,[&]{ x.resize(c); },[&]{ y.resize(c,-1); }); break; }
      case 15: case 32: { int c=sim_pick(16); T e(fresh()); op("resize(value)",i,true,[&]{ x.resize(c,e); },[&]{ y.resize(c,e.get()); }); break; }
      case 16: { int c=sim_pick(24); op("reserve",i,true,[&]{ x.reserve(c); if(x.capacity()<(size_t)c) sim_fail("wrong-size","reserve(%d) leaves capacity %zu",c,x.capacity()); },[&]{ }); break; }
      case 17: op("shrink_to_fit",i,true,[&]{ x.shrink_to_fit(); },[&]{ }); break;
      case 18: op("clear",i,false,[&]{ x.clear(); },[&]{ y.clear(); }); break;
      case 19: { M r=range(); auto e=elems(r); op("assign(range)",i,false,[&]{ x.assign(e.begin(),e.end()); },[&]{ y=r; }); break; }
      case 20: { int c=sim_pick(8); T e(fresh()); op("assign(n copies)",i,false,[&]{ x.assign((typename V::size_type)c,e); },[&]{ y.assign(c,e.get()); }); break; }
      case 21: { int a=fresh(),b=fresh(); T p(a),q(b); op("assign(list)",i,false,[&]{ w->armed=false; std::initializer_list<T> l{p,q}; w->armed=faults; x.assign(l); },[&]{ y=M{a,b}; }); break; }
      case 22: case 33: if(v[j]) op("copy assignment",i,false,[&]{ x=*v[j]; },[&]{ y=m[j]; par[i]=par[j]; }); break;
      case 23: if(v[j]){ op("move assignment",i,false,[&]{ V t(std::move(*v[j])); x=std::move(t); },[&]{ y=m[j]; m[j].clear(); par[i]=par[j]; par[j]=false; }); } break;
      case 24: if(v[j]) op("swap",i,true,[&]{ x.swap(*v[j]); },[&]{ std::swap(y,m[j]); }); break;
      case 25: { op("copy and move construction",i,true,[&]{ V t(x); V u(std::move(t)); if(u.size()!=n) sim_fail("wrong-size","copy of %zu elements has %zu",n,u.size()); for(size_t q=0;q<n;q++) if(u[q].get()!=y[q]) sim_fail("wrong-contents","copy: element %zu is %d instead of %d",q,u[q].get(),y[q]); },[&]{ }); break; }
      case 26: if(v[j]){ M& z=m[j]; op("comparison",i,true,[&]{ V const& a=x; V const& b=*v[j]; if((a==b)!=(y==z)||(a!=b)!=(y!=z)||(a<b)!=(y<z)||(a>b)!=(y>z)||(a<=b)!=(y<=z)||(a>=b)!=(y>=z)) sim_fail("wrong-result","comparison of vectors of %zu and %zu elements",y.size(),z.size()); },[&]{ }); } break;
      case 27: op("access",i,true,[&]{ if(n){ V const& c=x; if(c.rend()-c.rbegin()!=(long)n||x.crend()-x.crbegin()!=(long)n||x.rend()-x.rbegin()!=(long)n||(size_t)(c.end()-c.begin())!=n||(size_t)(x.cend()-x.cbegin())!=n||c.front().get()!=y[0]||c.back().get()!=y[n-1]||c.at(n-1).get()!=y[n-1]||c.data()->get()!=y[0]) sim_fail("wrong-contents","const access"); int a=fresh(); int q=sim_pick(n); w->armed=false; T e(a); x[q]=e; w->armed=faults; y[q]=a; } },[&]{ }); break;
      case 28: construct(i); break;
      case 29: v[i].reset(); m[i].clear(); { sim::atomic_section s; w->op="destruction"; } check_all(); break;
      case 34: { int a=fresh(); async("async_push_back",i,[a](V c){ return ba::async_push_back<V,T,job_t>(std::move(c),T(a)); },[&]{ y.push_back(a); }); break; }
      case 35: { int c=sim_pick(16); async("async_resize",i,[c](V q){ return ba::async_resize<V,job_t>(std::move(q),c); },[&]{ y.resize(c,-1); }); break; }
      case 36: { int c=sim_pick(24); if(sim_pick(2)) async("async_reserve",i,[c](V q){ return ba::async_reserve<V,job_t>(std::move(q),c); },[&]{ }); else async("async_shrink_to_fit",i,[](V q){ return ba::async_shrink_to_fit<V,job_t>(std::move(q)); },[&]{ }); break; }
      case 38: if(n<10){ M z=y; std::shared_ptr<std::vector<V>> o=std::make_shared<std::vector<V>>(); int cc=sim_pick(3); for(int q=0;q<cc;q++){ M r=range(); auto e=elems(r); o->emplace_back(pool,cut,e.begin(),e.end()); o->back().release_scheduler(); z.insert(z.end(),r.begin(),r.end()); }
        async("async_merge_containers of containers",i,[o](V q)mutable{ std::vector<V> l; l.push_back(std::move(q)); for(auto& x:*o) l.push_back(std::move(x)); o.reset(); return ba::async_merge_containers<std::vector<V>,job_t>(std::move(l)); },[&]{ y=z; }); } break;
      case 39: { int a=fresh(),c=sim_pick(16),d=sim_pick(24); async("chained operations",i,[a,c,d](V q){ auto r=ba::async_resize<V,job_t>(std::move(q),c); auto s=ba::async_reserve(std::move(r),(size_t)d); auto t=ba::async_push_back(std::move(s),T(a)); auto u=ba::async_shrink_to_fit(std::move(t)); return u; },[&]{ y.resize(c,-1); y.push_back(a); }); break; }
      default: if(v[j]&&m[j].size()+n<20){ v[j]->release_scheduler(); std::shared_ptr<V> o=std::make_shared<V>(std::move(*v[j])); v[j].reset(); M z=m[j]; m[j].clear(); async("async_merge_containers",i,[o](V q)mutable{ return ba::async_merge_containers<V,job_t>(std::move(q),std::move(*o)); },[&]{ y.insert(y.end(),z.begin(),z.end()); }); } } }
  void go(bool fl){ faults=fl; pool_kind* k=pool_pick(0,PK_SPSC); pool=k->make(1+sim_pick(3)); cut=1+sim_pick(4); if(fl) sim_fault_budget(SF_ELEM_THROW,4); int n=1+sim_pick(12); for(int s=0;s<n;s++) step(); { sim::atomic_section s; w->op="destruction"; } for(auto& x:v) x.reset(); pool=pool_t(); } };
void run(bool faults){ W ww; w=&ww; switch(sim_pick(3)){ case 0: { run_t<true,false> r; r.go(faults); break; } case 1: { run_t<false,false> r; r.go(faults); break; } default: { run_t<true,true> r; r.go(faults); } }
  if(ww.stored) sim_fail("leak","%d elements still exist after the vectors",ww.stored); if(!ww.blocks.empty()) sim_fail("leak","%zu blocks of memory not freed",ww.blocks.size()); expect_no_leak("elements"); w=nullptr; }
}
SIM_SCENARIO(P25,history,SIM_HB,5){ run(false); }
SIM_SCENARIO(P25,throwing,SIM_HB,5){ run(true); }
