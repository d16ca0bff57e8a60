// P22, algorithms, part 3
#include "P22_algos.hpp"
using namespace p22;
namespace {
alg algs3[]={
 {"stable_partition",[](X& x){ VI out(x.n),w=x.v; std::stable_partition(w.begin(),w.end(),[](int i){ return i&1; }); VI* o=&out; go(x,[&x,o]{ return ba::parallel_stable_partition<It,It,odd,LJ>(B,E,o->begin(),odd{x.id},L); },[&](It){ eqv(x,out,w); }); }},
 {"partition_copy",[](X& x){ VI o1(x.n),o2(x.n); VI *p=&o1,*q=&o2; typedef std::pair<It,It> R; go(x,[&x,p,q]{ return ba::parallel_partition_copy<It,It,It,odd,LJ>(B,E,p->begin(),q->begin(),odd{x.id},L); },[&](R r){ eqn(x,r.first-o1.begin(),std::count_if(x.w.begin(),x.w.end(),[](int i){ return i&1; })); }); }},
 {"quicksort",[](X& x){ go(x,[&x]{ return ba::parallel_quicksort<It,lt,LJ>(B,E,lt{x.id},x.cut,1+x.k,x.nm,0); },[&]{ eqv(x,x.v,sorted(x.w)); }); }},
 {"replace_if",[](X& x){ VI w=x.v; std::replace_if(w.begin(),w.end(),[](int i){ return i&1; },9); RUN((ba::parallel_replace_if<It,int,odd,LJ>(B,E,odd{a},9,L))){ eqv(x,x.v,w); }); }},
 {"replace",[](X& x){ VI w=x.v; std::replace(w.begin(),w.end(),3,9); RUN((ba::parallel_replace<It,int,LJ>(B,E,3,9,L))){ eqv(x,x.v,w); }); }},
 {"replace_copy_if",[](X& x){ VI w=x.v,out(x.n); std::replace_if(w.begin(),w.end(),[](int i){ return i&1; },9); VI* o=&out; go(x,[&x,o]{ return ba::parallel_replace_copy_if<It,It,int,odd,LJ>(B,E,o->begin(),odd{x.id},9,L); },[&](auto&&...){ eqv(x,out,w); }); }},
 {"reverse",[](X& x){ VI w=x.v; std::reverse(w.begin(),w.end()); RUN((ba::parallel_reverse<It,LJ>(B,E,L))){ eqv(x,x.v,w); }); }},
 {"sort",[](X& x){ RUN((ba::parallel_sort<It,lt,LJ>(B,E,lt{a},L))){ eqv(x,x.v,sorted(x.w)); }); }},
 {"stable_sort",[](X& x){ RUN((ba::parallel_stable_sort<It,lt,LJ>(B,E,lt{a},L))){ eqv(x,x.v,sorted(x.w)); }); }},
 {"sort_inplace",[](X& x){ RUN((ba::parallel_sort_inplace<It,lt,LJ>(B,E,lt{a},L))){ eqv(x,x.v,sorted(x.w)); }); }},
 {"stable_sort_inplace",[](X& x){ RUN((ba::parallel_stable_sort_inplace<It,lt,LJ>(B,E,lt{a},L))){ eqv(x,x.v,sorted(x.w)); }); }},
 {"swap_ranges",[](X& x){ VI o(x.n,1); VI* p=&o; go(x,[&x,p]{ return ba::parallel_swap_ranges<It,It,LJ>(B,E,p->begin(),L); },[&](auto&&...){ eqv(x,o,x.w); eqv(x,x.v,VI(x.n,1)); }); }},
 {"unique",[](X& x){ VI w=x.v; w.erase(std::unique(w.begin(),w.end()),w.end()); RUN((ba::parallel_unique<It,eq,LJ>(B,E,eq{a},L)),It r){ eqv(x,VI(x.v.begin(),r),w); }); }},
 {"group_by",[](X& x){ typedef std::vector<VI> R; x.v=x.w=sorted(x.v); RUN((ba::parallel_group_by<R,It,lt,LJ>(B,E,lt{a},L)),R r){ std::set<int> s(x.w.begin(),x.w.end()); if(x.n) eqn(x,r.size(),s.size()); }); }},
 {"grouped_for",[](X& x){ x.v=x.w=sorted(x.v); RUN((ba::parallel_grouped_for<It,lt,ipsum,LJ>(B,E,lt{a},ipsum{a},L))){}); }},
};
}
