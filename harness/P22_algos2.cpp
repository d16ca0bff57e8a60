// P22, algorithms, part 2
#include "P22_algos.hpp"
using namespace p22;
namespace {
alg algs2[]={
 {"is_sorted",[](X& x){ if(x.k) x.w=x.v=sorted(x.v); RUN((ba::parallel_is_sorted<It,lt,LJ>(B,E,lt{a},L)),bool r){ eqn(x,r,std::is_sorted(x.w.begin(),x.w.end())); }); }},
 {"is_reverse_sorted",[](X& x){ if(x.k){ x.v=sorted(x.v); std::reverse(x.v.begin(),x.v.end()); x.w=x.v; } RUN((ba::parallel_is_reverse_sorted<It,lt,LJ>(B,E,lt{a},L)),bool r){ if(x.n>1) eqn(x,r,std::is_sorted(x.w.rbegin(),x.w.rend())); }); }},
 {"all_of",[](X& x){ RUN((ba::parallel_all_of<It,odd,LJ>(B,E,odd{a},L)),bool r){ eqn(x,r,std::all_of(x.w.begin(),x.w.end(),[](int i){ return i&1; })); }); }},
 {"any_of",[](X& x){ RUN((ba::parallel_any_of<It,neg,LJ>(B,E,neg{a},L)),bool r){ eqn(x,r,0); }); }},
 {"none_of",[](X& x){ RUN((ba::parallel_none_of<It,neg,LJ>(B,E,neg{a},L)),bool r){ eqn(x,r,1); }); }},
 {"adjacent_find",[](X& x){ RUN((ba::parallel_adjacent_find<It,eq,LJ>(B,E,eq{a},L)),It r){ eqn(x,r-x.v.begin(),std::adjacent_find(x.w.begin(),x.w.end())-x.w.begin()); }); }},
 {"search",[](X& x){ VI o{1,2}; VI* p=&o; go(x,[&x,p]{ return ba::parallel_search<It,It,eq,LJ>(B,E,p->begin(),p->end(),eq{x.id},L); },[&](It r){ eqn(x,r-x.v.begin(),std::search(x.w.begin(),x.w.end(),o.begin(),o.end())-x.w.begin()); }); }},
 {"search_n",[](X& x){ RUN((ba::parallel_search_n<It,int,int,eq,LJ>(B,E,2,1,eq{a},L)),It r){ eqn(x,r-x.v.begin(),std::search_n(x.w.begin(),x.w.end(),2,1)-x.w.begin()); }); }},
 {"find_end",[](X& x){ VI o{1,2}; VI* p=&o; go(x,[&x,p]{ return ba::parallel_find_end<It,It,eq,LJ>(B,E,p->begin(),p->end(),eq{x.id},L); },[&](It r){ eqn(x,r-x.v.begin(),std::find_end(x.w.begin(),x.w.end(),o.begin(),o.end())-x.w.begin()); }); }},
 {"find_first_of",[](X& x){ VI o{1,2}; VI* p=&o; go(x,[&x,p]{ return ba::parallel_find_first_of<It,It,eq,LJ>(B,E,p->begin(),p->end(),eq{x.id},L); },[&](It r){ eqn(x,r-x.v.begin(),std::find_first_of(x.w.begin(),x.w.end(),o.begin(),o.end())-x.w.begin()); }); }},
 {"mismatch",[](X& x){ VI o=x.v; if(x.n) o[sim_pick(x.n)]=-5; VI* p=&o; typedef std::pair<It,It> R; go(x,[&x,p]{ return ba::parallel_mismatch<It,It,eq,LJ>(B,E,p->begin(),eq{x.id},L); },[&](R r){ eqn(x,r.first-x.v.begin(),std::mismatch(x.w.begin(),x.w.end(),o.begin()).first-x.w.begin()); }); }},
 {"lexicographical_compare",[](X& x){ VI o=x.v; if(x.n) o[sim_pick(x.n)]+=1; VI* p=&o; go(x,[&x,p]{ return ba::parallel_lexicographical_compare<It,It,lt,LJ>(B,E,p->begin(),p->end(),lt{x.id},L); },[&](bool r){ eqn(x,r,x.n>0); }); }},
 {"merge",[](X& x){ x.v=x.w=sorted(x.v); VI o=x.v,out(2*x.n); VI *p=&o,*q=&out; VI w=x.v; w.insert(w.end(),o.begin(),o.end()); go(x,[&x,p,q]{ return ba::parallel_merge<It,It,It,lt,LJ>(B,E,p->begin(),p->end(),q->begin(),lt{x.id},L); },[&]{ eqv(x,out,sorted(w)); }); }},
 {"nth_element",[](X& x){ if(!x.n) return; int k=sim_pick(x.n); go(x,[&x,k]{ return ba::parallel_nth_element<It,lt,LJ>(B,B+k,E,lt{x.id},x.cut,1+x.k,x.nm,0); },[&]{ eqn(x,x.v[k],sorted(x.w)[k]); eqv(x,sorted(x.v),sorted(x.w)); }); }},
 {"partial_sort",[](X& x){ if(!x.n) return; int k=sim_pick(x.n+1); go(x,[&x,k]{ return ba::parallel_partial_sort<It,lt,LJ>(B,B+k,E,lt{x.id},x.cut,1+x.k,x.nm,0); },[&]{ VI s=sorted(x.w); eqv(x,VI(x.v.begin(),x.v.begin()+k),VI(s.begin(),s.begin()+k)); eqv(x,sorted(x.v),s); }); }},
 {"partial_sum",[](X& x){ VI out(x.n),w(x.n); std::partial_sum(x.w.begin(),x.w.end(),w.begin()); VI* o=&out; go(x,[&x,o]{ return ba::parallel_partial_sum<It,It,sum,LJ>(B,E,o->begin(),sum{x.id},L); },[&](auto&&...){ eqv(x,out,w); }); }},
 {"partition",[](X& x){ go(x,[&x]{ return ba::parallel_partition<It,odd,LJ>(B,E,odd{x.id},1+x.k,x.nm,0); },[&](It r){ eqn(x,r-x.v.begin(),std::count_if(x.w.begin(),x.w.end(),[](int i){ return i&1; })); eqn(x,std::is_partitioned(x.v.begin(),x.v.end(),[](int i){ return i&1; }),1); }); }},
};
}
