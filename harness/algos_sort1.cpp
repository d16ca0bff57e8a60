// FLAGS: -DBOOST_ASYNCHRONOUS_USE_BOOST_SPREADSORT
// sorting (group 16), part 1: parallel_sort and parallel_sort_inplace
#include "algos.hpp"
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_sort_inplace.hpp>
#include "algos_order.hpp"
namespace {
#define SORT_OP(nm,fn,stable) \
 OP(16,nm##_iterators,OP_FUNC){ V v=shuffled(a); auto w=vals(v); bool d=sim_pick(2); V* p=&v; A* pa=&a; a.run([p,pa,d]{ return ba::fn(p->begin(),p->end(),cmp{pa,d},pa->cut); },[&]{ ordered(a,v,w,d,stable); }); }
#define SORT_MOVE(nm,fn,stable) \
 OP(16,nm##_move,OP_FUNC){ V v=shuffled(a); auto w=vals(v); bool d=sim_pick(2); V* p=&v; A* pa=&a; a.run([p,pa,d]{ return ba::fn(std::move(*p),cmp{pa,d},pa->cut); },[&](V r){ ordered(a,r,w,d,stable); }); }
#define SORT_CONT(nm,fn,stable) \
 OP(16,nm##_continuation,OP_FUNC){ V v=shuffled(a); auto w=vals(v); bool d=sim_pick(2); V* p=&v; A* pa=&a; a.run([p,pa,d]{ return ba::fn(ba::parallel_for(std::move(*p),[](el const&){},pa->cut),cmp{pa,d},pa->cut); },[&](V r){ ordered(a,r,w,d,stable); }); }
#define SORT_REF(nm,fn,stable) \
 OP(16,nm##_ref,OP_FUNC){ V v=shuffled(a); auto w=vals(v); bool d=sim_pick(2); V* p=&v; A* pa=&a; a.run([p,pa,d]{ return ba::fn(*p,cmp{pa,d},pa->cut); },[&]{ ordered(a,v,w,d,stable); }); }
SORT_OP(sort,parallel_sort,false) SORT_OP(stable_sort,parallel_stable_sort,true)
SORT_MOVE(sort,parallel_sort,false) SORT_MOVE(stable_sort,parallel_stable_sort,true)
SORT_CONT(sort,parallel_sort,false) SORT_CONT(stable_sort,parallel_stable_sort,true)
SORT_OP(sort_inplace,parallel_sort_inplace,false) SORT_OP(stable_sort_inplace,parallel_stable_sort_inplace,true)
SORT_REF(sort_inplace,parallel_sort_inplace,false) SORT_REF(stable_sort_inplace,parallel_stable_sort_inplace,true)
SORT_MOVE(sort_inplace,parallel_sort_move_inplace,false) SORT_MOVE(stable_sort_inplace,parallel_stable_sort_move_inplace,true)
SORT_CONT(sort_inplace,parallel_sort_inplace,false) SORT_CONT(stable_sort_inplace,parallel_stable_sort_inplace,true)
// spreadsort: integers only
VI ints(A& a){ V v=shuffled(a); return vals(v); }
OP(16,spreadsort_iterators,0){ VI v=ints(a),w=v; VI* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_spreadsort(p->begin(),p->end(),std::less<int>(),pa->cut); },[&]{ same(a,v,sorted(w)); }); }
OP(16,spreadsort_move,0){ VI v=ints(a),w=v; VI* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_spreadsort(std::move(*p),std::less<int>(),pa->cut); },[&](VI r){ same(a,r,sorted(w)); }); }
OP(16,spreadsort_inplace_iterators,0){ VI v=ints(a),w=v; VI* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_spreadsort_inplace(p->begin(),p->end(),std::less<int>(),pa->cut); },[&]{ same(a,v,sorted(w)); }); }
OP(16,spreadsort_continuation,0){ VI v=ints(a),w=v; VI* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_spreadsort(ba::parallel_for(std::move(*p),[](int){},pa->cut),std::less<int>(),pa->cut); },[&](VI r){ same(a,r,sorted(w)); }); }
}
