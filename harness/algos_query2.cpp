// searches, comparisons and scans (group 15), part 2
#include "algos.hpp"
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_adjacent_find.hpp>
#include <boost/asynchronous/algorithm/parallel_equal.hpp>
#include <boost/asynchronous/algorithm/parallel_find_end.hpp>
#include <boost/asynchronous/algorithm/parallel_find_first_of.hpp>
#include <boost/asynchronous/algorithm/parallel_is_partitioned.hpp>
#include <boost/asynchronous/algorithm/parallel_is_sorted.hpp>
#include <boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp>
#include <boost/asynchronous/algorithm/parallel_mismatch.hpp>
#include <boost/asynchronous/algorithm/parallel_search.hpp>
#include <boost/asynchronous/algorithm/parallel_search_n.hpp>
#include <boost/asynchronous/algorithm/parallel_kmp.hpp>
namespace {
typedef std::vector<std::string> VS;
V input(A& a,int range=10){ a.init(op_size()); return make_v(a,a.n,range); }
long at(A& a,V& v,V::iterator it){ long d=it-v.begin(); if(d<0||d>a.n) sim_fail("wrong-result","%s returns an iterator outside of the range",a.name); return d; }
#define EQF [pa](el const& x,el const& y){ pa->hit(x.id); return x.get()==y.get(); }
// functor pairs: x always comes from the (first) range
OP(15,adjacent_find,OP_FUNC|OP_SHORT){ V v=input(a,1+sim_pick(20)); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_adjacent_find(p->begin(),p->end(),EQF,pa->cut); },[&](V::iterator it){ same(a,at(a,v,it),std::adjacent_find(w.begin(),w.end())-w.begin()); }); }
OP(15,adjacent_find_plain,0){ V v=input(a,1+sim_pick(20)); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_adjacent_find(p->begin(),p->end(),pa->cut); },[&](V::iterator it){ same(a,at(a,v,it),std::adjacent_find(w.begin(),w.end())-w.begin()); }); }
V nearly(A& a,V const& v){ V u(v.begin(),v.end()); if(a.n&&sim_pick(2)) u[sim_pick(a.n)].v+=sim_pick(3)-1; if(a.n&&sim_pick(4)==3) u[sim_pick(a.n)].v+=1; return u; }
OP(15,equal,OP_FUNC|OP_SHORT){ V v=input(a); V u=nearly(a,v); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_equal(p->begin(),p->end(),q->begin(),EQF,pa->cut); },[&](bool b){ same(a,b,w==x); }); }
OP(15,equal_plain,0){ V v=input(a); V u=nearly(a,v); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_equal(p->begin(),p->end(),q->begin(),pa->cut); },[&](bool b){ same(a,b,w==x); }); }
OP(15,mismatch,OP_FUNC|OP_SHORT){ V v=input(a); V u=nearly(a,v); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_mismatch(p->begin(),p->end(),q->begin(),EQF,pa->cut); },[&](std::pair<V::iterator,V::iterator> r){ long m=std::mismatch(w.begin(),w.end(),x.begin()).first-w.begin(); same(a,at(a,v,r.first),m); same(a,at(a,u,r.second),m,"second position"); }); }
OP(15,mismatch_plain,0){ V v=input(a); V u=nearly(a,v); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_mismatch(p->begin(),p->end(),q->begin(),pa->cut); },[&](std::pair<V::iterator,V::iterator> r){ long m=std::mismatch(w.begin(),w.end(),x.begin()).first-w.begin(); same(a,at(a,v,r.first),m); same(a,at(a,u,r.second),m,"second position"); }); }
V shorter(A& a,V const& v){ V u=nearly(a,v); int k=sim_pick(4); if(k==1&&!u.empty()) u.pop_back(); if(k==2) u.emplace_back((int)sim_pick(10),a.n); if(k==3) while(!u.empty()&&sim_pick(3)) u.pop_back(); return u; }
OP(15,lexicographical,OP_SHORT){ V v=input(a); V u=shorter(a,v); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_lexicographical_compare(p->begin(),p->end(),q->begin(),q->end(),[](el const& x,el const& y){ return x.get()<y.get(); },pa->cut); },[&](bool b){ same(a,b,w<x); }); }
OP(15,lexicographical_plain,0){ V v=input(a); V u=shorter(a,v); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_lexicographical_compare(p->begin(),p->end(),q->begin(),q->end(),pa->cut); },[&](bool b){ same(a,b,w<x); }); }
V needle(A& a){ V u; int m=1+sim_pick(4); u.reserve(m); for(int i=0;i<m;i++) u.emplace_back((int)sim_pick(2),i); return u; }
OP(15,search,OP_FUNC|OP_SHORT){ V v=input(a,2); V u=needle(a); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_search(p->begin(),p->end(),q->begin(),q->end(),EQF,pa->cut); },[&](V::iterator it){ same(a,at(a,v,it),std::search(w.begin(),w.end(),x.begin(),x.end())-w.begin()); }); }
OP(15,search_plain,0){ V v=input(a,2); V u=needle(a); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_search(p->begin(),p->end(),q->begin(),q->end(),pa->cut); },[&](V::iterator it){ same(a,at(a,v,it),std::search(w.begin(),w.end(),x.begin(),x.end())-w.begin()); }); }
OP(15,search_continuation,OP_FUNC|OP_SHORT){ V v=input(a,2); V u=needle(a); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_search(p->begin(),p->end(),ba::parallel_for(std::move(*q),[](el const&){},1),EQF,pa->cut); },[&](V::iterator it){ same(a,at(a,v,it),std::search(w.begin(),w.end(),x.begin(),x.end())-w.begin()); }); }
OP(15,search_n,OP_FUNC|OP_SHORT){ V v=input(a,2); int c=sim_pick(5); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,c,pa]{ return ba::parallel_search_n(p->begin(),p->end(),c,el(1,0),EQF,pa->cut); },[&](V::iterator it){ same(a,at(a,v,it),std::search_n(w.begin(),w.end(),c,1)-w.begin()); }); }
OP(15,search_n_plain,0){ V v=input(a,2); int c=sim_pick(5); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,c,pa]{ return ba::parallel_search_n(p->begin(),p->end(),c,el(1,0),pa->cut); },[&](V::iterator it){ same(a,at(a,v,it),std::search_n(w.begin(),w.end(),c,1)-w.begin()); }); }
OP(15,find_end,OP_FUNC|OP_SHORT){ V v=input(a,2); V u=needle(a); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_find_end(p->begin(),p->end(),q->begin(),q->end(),EQF,pa->cut); },[&](V::iterator it){ same(a,at(a,v,it),std::find_end(w.begin(),w.end(),x.begin(),x.end())-w.begin()); }); }
OP(15,find_end_plain,0){ V v=input(a,2); V u=needle(a); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_find_end(p->begin(),p->end(),q->begin(),q->end(),pa->cut); },[&](V::iterator it){ same(a,at(a,v,it),std::find_end(w.begin(),w.end(),x.begin(),x.end())-w.begin()); }); }
OP(15,find_end_continuation,OP_FUNC|OP_SHORT){ V v=input(a,2); V u=needle(a); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_find_end(p->begin(),p->end(),ba::parallel_for(std::move(*q),[](el const&){},1),EQF,pa->cut); },[&](V::iterator it){ same(a,at(a,v,it),std::find_end(w.begin(),w.end(),x.begin(),x.end())-w.begin()); }); }
V rare(A& a){ V u; int m=1+sim_pick(3); u.reserve(m); for(int i=0;i<m;i++) u.emplace_back((int)sim_pick(30),i); return u; }
OP(15,find_first_of,OP_FUNC|OP_SHORT){ V v=input(a,30); V u=rare(a); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_find_first_of(p->begin(),p->end(),q->begin(),q->end(),EQF,pa->cut); },[&](V::iterator it){ same(a,at(a,v,it),std::find_first_of(w.begin(),w.end(),x.begin(),x.end())-w.begin()); }); }
OP(15,find_first_of_plain,0){ V v=input(a,30); V u=rare(a); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_find_first_of(p->begin(),p->end(),q->begin(),q->end(),pa->cut); },[&](V::iterator it){ same(a,at(a,v,it),std::find_first_of(w.begin(),w.end(),x.begin(),x.end())-w.begin()); }); }
OP(15,find_first_of_continuation,OP_FUNC|OP_SHORT){ V v=input(a,30); V u=rare(a); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_find_first_of(p->begin(),p->end(),ba::parallel_for(std::move(*q),[](el const&){},1),EQF,pa->cut); },[&](V::iterator it){ same(a,at(a,v,it),std::find_first_of(w.begin(),w.end(),x.begin(),x.end())-w.begin()); }); }
// mostly ordered input with a random defect
V ordered(A& a,bool part){ a.init(op_size()); V v; v.reserve(a.n); int x=0,cutp=sim_pick(a.n+1); for(int i=0;i<a.n;i++){ if(part) v.emplace_back(i<cutp?(int)sim_pick(5):5+(int)sim_pick(5),i); else { x+=sim_pick(3); v.emplace_back(x,i); } } if(a.n>1&&sim_pick(2)){ int i=sim_pick(a.n),j=sim_pick(a.n); std::swap(v[i].v,v[j].v); } return v; }
// the same with a predicate which is not symmetric
#define LEF [pa](el const& x,el const& y){ pa->hit(x.id); return x.get()<=y.get(); }
#define LEI [](int x,int y){ return x<=y; }
#define BEI [](int x,int y){ return x>y; }
OP(15,adjacent_find_descent,OP_FUNC|OP_SHORT){ V v=ordered(a,false); if(sim_pick(2)&&a.n>1){ int i=sim_pick(a.n); v[i].v+=sim_pick(5)-2; } auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_adjacent_find(p->begin(),p->end(),[pa](el const& x,el const& y){ pa->hit(x.id); return x.get()>y.get(); },pa->cut); },[&](V::iterator it){ same(a,at(a,v,it),std::adjacent_find(w.begin(),w.end(),BEI)-w.begin()); }); }
OP(15,equal_less,OP_FUNC|OP_SHORT){ V v=input(a); V u=nearly(a,v); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_equal(p->begin(),p->end(),q->begin(),LEF,pa->cut); },[&](bool b){ same(a,b,std::equal(w.begin(),w.end(),x.begin(),LEI)); }); }
OP(15,mismatch_less,OP_FUNC|OP_SHORT){ V v=input(a); V u=nearly(a,v); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_mismatch(p->begin(),p->end(),q->begin(),LEF,pa->cut); },[&](std::pair<V::iterator,V::iterator> r){ long m=std::mismatch(w.begin(),w.end(),x.begin(),LEI).first-w.begin(); same(a,at(a,v,r.first),m); same(a,at(a,u,r.second),m,"second position"); }); }
OP(15,search_less,OP_FUNC|OP_SHORT){ V v=input(a,4); V u=needle(a); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_search(p->begin(),p->end(),q->begin(),q->end(),LEF,pa->cut); },[&](V::iterator it){ same(a,at(a,v,it),std::search(w.begin(),w.end(),x.begin(),x.end(),LEI)-w.begin()); }); }
OP(15,search_n_less,OP_FUNC|OP_SHORT){ V v=input(a,4); int c=sim_pick(5); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,c,pa]{ return ba::parallel_search_n(p->begin(),p->end(),c,el(1,0),LEF,pa->cut); },[&](V::iterator it){ same(a,at(a,v,it),std::search_n(w.begin(),w.end(),c,1,LEI)-w.begin()); }); }
OP(15,find_end_less,OP_FUNC|OP_SHORT){ V v=input(a,4); V u=needle(a); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_find_end(p->begin(),p->end(),q->begin(),q->end(),LEF,pa->cut); },[&](V::iterator it){ same(a,at(a,v,it),std::find_end(w.begin(),w.end(),x.begin(),x.end(),LEI)-w.begin()); }); }
OP(15,find_first_of_less,OP_FUNC|OP_SHORT){ V v=input(a,30); V u=rare(a); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_find_first_of(p->begin(),p->end(),q->begin(),q->end(),LEF,pa->cut); },[&](V::iterator it){ same(a,at(a,v,it),std::find_first_of(w.begin(),w.end(),x.begin(),x.end(),LEI)-w.begin()); }); }
OP(15,is_partitioned,OP_FUNC|OP_SHORT){ V v=ordered(a,true); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_is_partitioned(p->begin(),p->end(),[pa](el const& e){ pa->hit(e.id); return e.get()<5; },pa->cut); },[&](bool b){ same(a,b,std::is_partitioned(w.begin(),w.end(),[](int x){ return x<5; })); }); }
OP(15,is_sorted,OP_FUNC|OP_SHORT){ V v=ordered(a,false); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_is_sorted(p->begin(),p->end(),[pa](el const& x,el const& y){ pa->hit(x.id); return x.get()<y.get(); },pa->cut); },[&](bool b){ same(a,b,std::is_sorted(w.begin(),w.end())); }); }
OP(15,is_reverse_sorted,OP_FUNC|OP_SHORT){ V v=ordered(a,false); if(sim_pick(8)) for(unsigned i=0,j=v.size();i<j;i++) v[i].v=100-v[i].v; auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_is_reverse_sorted(p->begin(),p->end(),[pa](el const& x,el const& y){ pa->hit(x.id); return x.get()<y.get(); },pa->cut); },[&](bool b){ same(a,b,std::is_sorted(w.rbegin(),w.rend())); }); }
struct kf { A* pa; std::vector<long> at; void operator()(long i){ at.push_back(i); pa->hit((int)i); } void merge(kf&& o){ at.insert(at.end(),o.at.begin(),o.at.end()); } };
OP(15,kmp,OP_FUNC|OP_SHORT){ V v=input(a,2); V u=needle(a); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ kf f; f.pa=pa; return ba::parallel_kmp(p->begin(),p->end(),q->begin(),q->end(),std::move(f),pa->cut); },[&](kf f){ VI got(f.at.begin(),f.at.end()),want; for(int i=0;i+(int)x.size()<=a.n;i++) if(std::equal(x.begin(),x.end(),w.begin()+i)) want.push_back(i); same(a,got,want); }); }
}
