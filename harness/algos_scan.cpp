// scans and placement (group 14)
#include "algos.hpp"
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sum.hpp>
#include <boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_placement.hpp>
namespace {
typedef std::vector<std::string> VS;
// scans with concatenation: associative, not commutative
VS strings(A& a){ a.init(op_size()); VS r; for(int i=0;i<a.n;i++) r.push_back(std::string(1,(char)('A'+i))); return r; }
VS prefix(VS const& v,std::string s,bool incl){ VS r; for(auto& x:v){ if(incl) s+=x; r.push_back(s); if(!incl) s+=x; } return r; }
std::string joined(VS const& v){ std::string s; for(auto& x:v) s+=x+","; return s; }
void sames(A& a,VS const& got,VS const& want){ if(got!=want) sim_fail("wrong-result","%s (n %d cutoff %ld): %s, expected %s",a.name,a.n,a.cut,joined(got).c_str(),joined(want).c_str()); }
#define CAT [pa](std::string const& x,std::string const& y)->std::string { if(!y.empty()&&y[0]>='A'&&y[0]-'A'<pa->n) pa->hit(y[0]-'A'); return x+y; }
OP(14,partial_sum_iterators,OP_FUNC){ VS v=strings(a),o(a.n); auto *p=&v,*q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_partial_sum(p->begin(),p->end(),q->begin(),CAT,pa->cut); },[&](std::string){ sames(a,o,prefix(v,"",true)); }); }
OP(14,partial_sum_move,OP_FUNC){ VS v=strings(a); VS w=v; auto* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_partial_sum(std::move(*p),CAT,pa->cut); },[&](VS r){ sames(a,r,prefix(w,"",true)); }); }
OP(14,partial_sum_continuation,OP_FUNC){ VS v=strings(a); VS w=v; auto* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_partial_sum(ba::parallel_for(std::move(*p),[](std::string const&){},pa->cut),CAT,pa->cut); },[&](VS r){ sames(a,r,prefix(w,"",true)); }); }
OP(14,transform_inclusive_scan,OP_FUNC){ VS v=strings(a),o(a.n); auto *p=&v,*q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_transform_inclusive_scan(p->begin(),p->end(),q->begin(),std::string("_"),CAT,[](std::string const& x)->std::string { return x+"-"; },pa->cut); },[&](std::string){ VS w=v; for(auto& x:w) x+="-"; sames(a,o,prefix(w,"_",true)); }); }
OP(14,transform_exclusive_scan,OP_FUNC){ VS v=strings(a),o(a.n); auto *p=&v,*q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_transform_exclusive_scan(p->begin(),p->end(),q->begin(),std::string("_"),CAT,[](std::string const& x)->std::string { return x+"-"; },pa->cut); },[&](std::string){ VS w=v; for(auto& x:w) x+="-"; sames(a,o,prefix(w,"_",false)); }); }
// elements constructed in raw storage: each slot once; if constructors throw, nothing is left and one of the exceptions is reported
struct pl; struct plbuf { char* b; int n; A* a; std::vector<int> st; };
std::vector<plbuf*>& bufs(){ static std::vector<plbuf*> v=[]{ std::vector<plbuf*> x; x.reserve(16); return x; }(); return v; }
struct pl { int v; sim_cell c; char pad[8];
  plbuf* home(int& i){ sim::atomic_section s; for(auto* b:bufs()) if((char*)this>=b->b&&(char*)this<b->b+b->n*sizeof(pl)){ i=((char*)this-b->b)/sizeof(pl); return b; } return nullptr; }
  void born(int x){ int i=0; plbuf* b=home(i); if(b){ { sim::atomic_section s; if(b->st[i]) sim_fail("wrong-count","%s constructs slot %d twice",b->a->name,i); } b->a->hit(i); sim::atomic_section s; b->st[i]=1; } sim_cell_init(&c); sim_cell_write(&c,"slot"); v=x; }
  pl(){ born(7); } pl(pl const& o){ born(o.v); } explicit pl(el const& e){ born(e.get()); }
  ~pl(){ int i=0; plbuf* b=home(i); if(b){ sim::atomic_section s; if(!b->st[i]) sim_fail("double-destruction","%s destroys slot %d which holds nothing",b->a->name,i); b->st[i]=0; } sim_cell_write(&c,"slot"); } };
struct storage { plbuf b; std::shared_ptr<char> mem; storage(A& a){ a.init(op_size()); std::size_t bytes=sizeof(pl)*(a.n?a.n:1); mem=std::shared_ptr<char>((char*)::operator new(bytes),[](char* p){ ::operator delete(p); }); b.b=mem.get(); b.n=a.n; b.a=&a; b.st.assign(a.n,0); sim::atomic_section s; bufs().push_back(&b); }
  ~storage(){ sim::atomic_section s; auto& v=bufs(); v.erase(std::find(v.begin(),v.end(),&b)); }
  template<class R> void check(A& a,R const& r,std::vector<int> const* want,int same_value){ int held=0; for(int x:b.st) held+=x; if(a.thrown){ if(r.first==ba::detail::parallel_placement_helper_enum::success||!r.second) sim_fail("exception-lost","%s reports success although %d constructors threw",a.name,a.thrown); if(held) sim_fail("left-over","%s failed but left %d elements",a.name,held);
      try{ std::rethrow_exception(r.second); }catch(elem_error& x){ if(!a.thrown_ids.count(x.id)) sim_fail("wrong-exception","%s reports an exception of element %d which threw none",a.name,x.id); }catch(odd_error& x){ if(!a.thrown_ids.count(x.id)) sim_fail("wrong-exception","%s reports an exception of element %d which threw none",a.name,x.id); }catch(...){ sim_fail("wrong-exception","%s reports another exception",a.name); } sim_probe("failing placement",1); return; }
    if(r.first!=ba::detail::parallel_placement_helper_enum::success) sim_fail("wrong-exception","%s fails although nothing threw",a.name); if(held!=a.n) sim_fail("wrong-count","%s constructed %d of %d elements",a.name,held,a.n); pl* p=(pl*)mem.get(); for(int i=0;i<a.n;i++){ sim_cell_read(&p[i].c,"slot"); int w=want?(*want)[i]:same_value; if(p[i].v!=w) sim_fail("wrong-result","%s: slot %d holds %d, not %d",a.name,i,p[i].v,w); }
    // and away again
    long cut=a.cut; auto m=mem; int n=a.n,from=n?sim_pick(n+1):0; auto wait=[&](std::future<void> f){ if(!wait_for([&]{ return f.wait_for(std::chrono::seconds(0))==std::future_status::ready; },300)) sim_fail("never-completes","parallel_placement_delete never completes"); f.get(); };
    if(sim_pick(2)) wait(ba::post_future(a.pool,[m,n,cut]{ return ba::parallel_placement_delete<pl>(m,(std::size_t)n,cut); })); else { wait(ba::post_future(a.pool,[m,from,n,cut]{ return ba::parallel_placement_delete<pl>(m,(std::size_t)from,(std::size_t)n,cut); })); for(int i=0;i<n;i++) if(b.st[i]!=(i<from)) sim_fail("wrong-count","parallel_placement_delete of [%d,%d) %s slot %d",from,n,i<from?"destroys":"leaves",i); wait(ba::post_future(a.pool,[m,from,cut]{ return ba::parallel_placement_delete<pl>(m,(std::size_t)from,cut); })); }
    for(int i=0;i<n;i++) if(b.st[i]) sim_fail("left-over","parallel_placement_delete leaves slot %d",i); } };
typedef ba::detail::parallel_placement_helper_result PR;
OP(14,placement_shared,OP_FUNC|OP_SHORT){ storage s(a); auto m=s.mem; A* pa=&a; a.run([m,pa]{ return ba::parallel_placement<pl>(0,pa->n,m,pa->cut); },[&](PR r){ s.check(a,r,nullptr,7); }); }
OP(14,placement_init,OP_FUNC|OP_SHORT){ storage s(a); auto m=s.mem; A* pa=&a; pl x; x.v=(int)sim_pick(100); a.run([m,pa,x]{ return ba::parallel_placement<pl>(0,pa->n,m.get(),x,pa->cut); },[&](PR r){ s.check(a,r,nullptr,x.v); }); }
OP(14,placement_iterators,OP_FUNC|OP_SHORT){ storage s(a); V v=make_v(a,a.n,100); auto w=vals(v); V* p=&v; auto m=s.mem; A* pa=&a; a.run([m,pa,p]{ return ba::parallel_placement<pl>(0,pa->n,p->begin(),m,pa->cut); },[&](PR r){ s.check(a,r,&w,0); }); }
}
