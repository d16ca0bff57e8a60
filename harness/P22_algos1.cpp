// P22, algorithms, part 1
#include "P22_algos.hpp"
using namespace p22;
namespace {
alg algs1[]={
 {"for",[](X& x){ VI w=x.v; for(int& i:w) i+=100; RUN((ba::parallel_for<It,inc,LJ>(B,E,inc{a},L))){ eqv(x,x.v,w); }); }},
 {"for_each",[](X& x){ RUN((ba::parallel_for_each<It,look,LJ>(B,E,look{a},L)),look r){ eqn(x,r.n,x.n); }); }},
 {"reduce",[](X& x){ if(!x.n) return; RUN((ba::parallel_reduce<It,sum,LJ>(B,E,sum{a},L)),int r){ eqn(x,r,std::accumulate(x.w.begin(),x.w.end(),0)); }); }},
 {"transform",[](X& x){ VI out(x.n); VI* o=&out; VI w=x.v; for(int& i:w) i*=2; go(x,[&x,o]{ return ba::parallel_transform<It,It,dbl,LJ>(B,E,o->begin(),dbl{x.id},L); },[&](It){ eqv(x,out,w); }); }},
 {"copy",[](X& x){ VI out(x.n); VI* o=&out; go(x,[&x,o]{ return ba::parallel_copy<It,It,LJ>(B,E,o->begin(),L); },[&]{ eqv(x,out,x.w); }); }},
 {"move",[](X& x){ VI out(x.n); VI* o=&out; go(x,[&x,o]{ return ba::parallel_move<It,It,LJ>(B,E,o->begin(),L); },[&]{ eqv(x,out,x.w); }); }},
 {"copy_if",[](X& x){ VI out(x.n); VI* o=&out; go(x,[&x,o]{ return ba::parallel_copy_if<It,It,odd,LJ>(B,E,o->begin(),odd{x.id},L); },[&](It r){ eqn(x,r-out.begin(),std::count_if(x.w.begin(),x.w.end(),[](int i){ return i&1; })); }); }},
 {"remove_copy_if",[](X& x){ VI out(x.n); VI* o=&out; go(x,[&x,o]{ return ba::parallel_remove_copy_if<It,It,odd,LJ>(B,E,o->begin(),odd{x.id},L); },[&](It r){ eqn(x,r-out.begin(),std::count_if(x.w.begin(),x.w.end(),[](int i){ return !(i&1); })); }); }},
 {"remove_copy",[](X& x){ VI out(x.n); VI* o=&out; go(x,[&x,o]{ return ba::parallel_remove_copy<It,It,int,LJ>(B,E,o->begin(),3,L); },[&](It r){ eqn(x,r-out.begin(),x.n-std::count(x.w.begin(),x.w.end(),3)); }); }},
 {"count_if",[](X& x){ RUN((ba::parallel_count_if<It,odd,LJ>(B,E,odd{a},L)),long r){ eqn(x,r,std::count_if(x.w.begin(),x.w.end(),[](int i){ return i&1; })); }); }},
 {"count",[](X& x){ RUN((ba::parallel_count<It,int,LJ>(B,E,3,L)),long r){ eqn(x,r,std::count(x.w.begin(),x.w.end(),3)); }); }},
 {"equal",[](X& x){ VI o=x.v; VI* p=&o; go(x,[&x,p]{ return ba::parallel_equal<It,It,eq,LJ>(B,E,p->begin(),eq{x.id},L); },[&](bool r){ eqn(x,r,1); }); }},
 {"fill",[](X& x){ RUN((ba::parallel_fill<It,int,LJ>(B,E,5,L))){ eqv(x,x.v,VI(x.n,5)); }); }},
 {"find_all",[](X& x){ RUN((ba::parallel_find_all<It,odd,VI,LJ>(B,E,odd{a},L)),VI r){ eqn(x,r.size(),std::count_if(x.w.begin(),x.w.end(),[](int i){ return i&1; })); }); }},
 {"generate",[](X& x){ RUN((ba::parallel_generate<It,gen,LJ>(B,E,gen{a},L))){ eqv(x,x.v,VI(x.n,7)); }); }},
 {"iota",[](X& x){ VI w(x.n); std::iota(w.begin(),w.end(),4); RUN((ba::parallel_iota<It,int,LJ>(B,E,4,L))){ eqv(x,x.v,w); }); }},
 {"is_partitioned",[](X& x){ RUN((ba::parallel_is_partitioned<It,odd,LJ>(B,E,odd{a},L)),bool r){ eqn(x,r,std::is_partitioned(x.w.begin(),x.w.end(),[](int i){ return i&1; })); }); }},
};
}
