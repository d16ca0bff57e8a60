// reductions and queries (group 15), part 1
#include "algos.hpp"
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/algorithm/parallel_inner_product.hpp>
#include <boost/asynchronous/algorithm/parallel_count.hpp>
#include <boost/asynchronous/algorithm/parallel_find_all.hpp>
#include <boost/asynchronous/algorithm/parallel_any_of.hpp>
#include <boost/asynchronous/algorithm/parallel_all_of.hpp>
#include <boost/asynchronous/algorithm/parallel_none_of.hpp>
#include <boost/asynchronous/algorithm/parallel_extremum.hpp>
namespace {
typedef std::vector<std::string> VS;
V input(A& a,int range=10,int mn=0){ int n=op_size(); if(n<mn) n=mn; a.init(n); return make_v(a,a.n,range); }
VS strings(A& a,int mn){ int n=op_size(); if(n<mn) n=mn; a.init(n); VS r; for(int i=0;i<n;i++) r.push_back(std::string(1,(char)('A'+i))); return r; }
std::string joined(VS const& v){ std::string s; for(auto& x:v) s+=x; return s; }
void sames(A& a,std::string got,std::string want){ if(got!=want) sim_fail("wrong-result","%s (n %d cutoff %ld): %s, expected %s",a.name,a.n,a.cut,got.c_str(),want.c_str()); }
// concatenation: associative, not commutative, shows lost and duplicated elements; b starts with the element hit
OP(15,reduce_iterators,OP_FUNC){ VS v=strings(a,1); auto* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_reduce(p->begin(),p->end(),[pa](std::string const& x,std::string const& y)->std::string { pa->hit(y[0]-'A'); return x+y; },pa->cut); },[&](std::string s){ sames(a,s,joined(v)); }); }
OP(15,reduce_ref,OP_FUNC){ VS v=strings(a,1); auto* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_reduce(*(const VS*)p,[pa](std::string const& x,std::string const& y)->std::string { pa->hit(y[0]-'A'); return x+y; },pa->cut); },[&](std::string s){ sames(a,s,joined(v)); }); }
OP(15,reduce_move,OP_FUNC){ VS v=strings(a,1); std::string w=joined(v); auto* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_reduce(std::move(*p),[pa](std::string const& x,std::string const& y)->std::string { pa->hit(y[0]-'A'); return x+y; },pa->cut); },[&](std::string s){ sames(a,s,w); }); }
OP(15,reduce_continuation,OP_FUNC){ VS v=strings(a,1); std::string w=joined(v); auto* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_reduce(ba::parallel_for(std::move(*p),[](std::string const&){},pa->cut),[pa](std::string const& x,std::string const& y)->std::string { pa->hit(y[0]-'A'); return x+y; },pa->cut); },[&](std::string s){ sames(a,s,w); }); }
OP(15,reduce_two,OP_FUNC){ VS v=strings(a,1); auto* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_reduce(p->begin(),p->end(),[pa](std::string const& x,std::string const& y)->std::string { pa->hit(y[0]-'A'); return x+y; },[pa](std::string const& x,std::string const& y)->std::string { pa->hit(y[0]-'A'); return x+y; },pa->cut); },[&](std::string s){ sames(a,s,joined(v)); }); }
OP(15,reduce_elements,OP_FUNC){ V v=input(a,10,1); auto w=vals(v); auto* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_reduce(p->begin(),p->end(),[pa](el const& x,el const& y)->el { pa->hit(y.id); return el(x.get()+y.get(),x.id); },pa->cut); },[&](el s){ same(a,s.get(),std::accumulate(w.begin(),w.end(),0)); }); }
long ip(VI const& x,VI const& y,long init){ for(unsigned i=0;i<x.size();i++) init+=x[i]*y[i]; return init; }
OP(15,inner_product_iterators,OP_FUNC){ V v=input(a,10,1); V u=make_v(a,a.n,10); long w=ip(vals(v),vals(u),5); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_inner_product(p->begin(),p->end(),q->begin(),[pa](el const& x,el const& y)->long { if(x.id!=y.id) sim_fail("wrong-element","inner_product pairs %d with %d",x.id,y.id); pa->hit(x.id); return (long)x.get()*y.get(); },[](long x,long y)->long { return x+y; },(long)5,pa->cut); },[&](long s){ same(a,s,w); a.once(); }); }
OP(15,inner_product_move,OP_FUNC){ V v=input(a,10,1); V u=make_v(a,a.n,10); long w=ip(vals(v),vals(u),5); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_inner_product(std::move(*p),std::move(*q),[pa](el const& x,el const& y)->long { if(x.id!=y.id) sim_fail("wrong-element","inner_product pairs %d with %d",x.id,y.id); pa->hit(x.id); return (long)x.get()*y.get(); },[](long x,long y)->long { return x+y; },(long)5,pa->cut); },[&](long s){ same(a,s,w); a.once(); }); }
OP(15,inner_product_noinit,OP_FUNC){ V v=input(a,10,1); V u=make_v(a,a.n,10); long w=ip(vals(v),vals(u),0); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_inner_product(std::move(*p),std::move(*q),[pa](el const& x,el const& y)->long { pa->hit(x.id); return (long)x.get()*y.get(); },[](long x,long y)->long { return x+y; },pa->cut); },[&](long s){ same(a,s,w); a.once(); }); }
OP(15,inner_product_continuations,OP_FUNC){ V v=input(a,10,1); V u=make_v(a,a.n,10); long w=ip(vals(v),vals(u),5); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ auto c1=ba::parallel_for(std::move(*p),[](el const&){},pa->cut); auto c2=ba::parallel_for(std::move(*q),[](el const&){},pa->cut); return ba::parallel_inner_product(std::move(c1),std::move(c2),[pa](el const& x,el const& y)->long { pa->hit(x.id); return (long)x.get()*y.get(); },[](long x,long y)->long { return x+y; },(long)5,pa->cut); },[&](long s){ same(a,s,w); a.once(); }); }
long cnt(VI const& w,bool(*f)(int)){ long n=0; for(int x:w) n+=f(x); return n; }
bool lt5(int x){ return x<5; }
#define COUNT(nm,expr) OP(15,nm,OP_FUNC){ V v=input(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ auto f=[pa](el const& e){ pa->hit(e.id); return e.get()<5; }; return expr; },[&](long c){ same(a,c,cnt(w,lt5)); a.once(); }); }
COUNT(count_if_iterators,ba::parallel_count_if(p->begin(),p->end(),f,pa->cut))
COUNT(count_if_ref,ba::parallel_count_if(*(const V*)p,f,pa->cut))
COUNT(count_if_move,ba::parallel_count_if(std::move(*p),f,pa->cut))
COUNT(count_if_continuation,ba::parallel_count_if(ba::parallel_for(std::move(*p),[](el const&){},pa->cut),f,pa->cut))
OP(15,count,0){ V v=input(a,4); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_count(p->begin(),p->end(),el(2),pa->cut); },[&](long c){ same(a,c,std::count(w.begin(),w.end(),2)); }); }
OP(15,count_move,0){ V v=input(a,4); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_count(std::move(*p),el(2),pa->cut); },[&](long c){ same(a,c,std::count(w.begin(),w.end(),2)); }); }
#define FINDALL(nm,expr) OP(15,nm,OP_FUNC){ V v=input(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ auto f=[pa](el const& e){ pa->hit(e.id); return e.get()<5; }; return expr; },[&](V r){ VI x,xi; for(int i=0;i<a.n;i++) if(w[i]<5){ x.push_back(w[i]); xi.push_back(i); } same(a,vals(r),x); same(a,ids(r),xi,"identities"); a.once(); }); }
FINDALL(find_all_iterators,ba::parallel_find_all(p->begin(),p->end(),f,pa->cut))
FINDALL(find_all_ref,ba::parallel_find_all(*(const V*)p,f,pa->cut))
FINDALL(find_all_move,ba::parallel_find_all(std::move(*p),f,pa->cut))
FINDALL(find_all_continuation,ba::parallel_find_all(ba::parallel_for(std::move(*p),[](el const&){},pa->cut),f,pa->cut))
V skewed(A& a){ a.init(op_size()); V v; v.reserve(a.n); int mode=sim_pick(4); for(int i=0;i<a.n;i++) v.emplace_back(mode==0?0:mode==1?9:mode==2?(sim_pick(8)==7?9:0):(sim_pick(8)==7?0:9),i); return v; }
#define QUERY(nm,expr,want) OP(15,nm,OP_FUNC|OP_SHORT){ V v=skewed(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ auto f=[pa](el const& e){ pa->hit(e.id); return e.get()<5; }; return expr; },[&](bool b){ long c=cnt(w,lt5); (void)c; same(a,b,want); for(int h:a.hits) if(h>1) sim_fail("wrong-count","%s: functor called twice for an element",a.name); }); }
QUERY(any_of,ba::parallel_any_of(p->begin(),p->end(),f,pa->cut),c>0)
QUERY(all_of,ba::parallel_all_of(p->begin(),p->end(),f,pa->cut),c==a.n)
QUERY(none_of,ba::parallel_none_of(p->begin(),p->end(),f,pa->cut),c==0)
QUERY(any_of_continuation,ba::parallel_any_of(ba::parallel_for(std::move(*p),[](el const&){},pa->cut),f,pa->cut),c>0)
QUERY(all_of_continuation,ba::parallel_all_of(ba::parallel_for(std::move(*p),[](el const&){},pa->cut),f,pa->cut),c==a.n)
QUERY(none_of_continuation,ba::parallel_none_of(ba::parallel_for(std::move(*p),[](el const&){},pa->cut),f,pa->cut),c==0)
#define EXTR(nm,expr) OP(15,nm,OP_FUNC){ V v=input(a,30,1); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ auto f=[pa](el const& x,el const& y){ pa->hit(x.id); return x.get()<y.get(); }; return expr; },[&](el r){ same(a,r.get(),*std::min_element(w.begin(),w.end())); if(r.id<0||r.id>=a.n||w[r.id]!=r.get()) sim_fail("wrong-element","extremum is not an element of the range"); }); }
EXTR(extremum_iterators,ba::parallel_extremum(p->begin(),p->end(),f,pa->cut))
EXTR(extremum_ref,ba::parallel_extremum(*(const V*)p,f,pa->cut))
EXTR(extremum_move,ba::parallel_extremum(std::move(*p),f,pa->cut))
EXTR(extremum_continuation,ba::parallel_extremum(ba::parallel_for(std::move(*p),[](el const&){},pa->cut),f,pa->cut))
}
