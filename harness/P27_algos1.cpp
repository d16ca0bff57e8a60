#include "P27.hpp"
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/algorithm/then.hpp>
#include <boost/asynchronous/algorithm/parallel_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_count.hpp>
#include <boost/asynchronous/algorithm/parallel_find_all.hpp>
#include <boost/asynchronous/algorithm/parallel_invoke.hpp>
#include <boost/asynchronous/algorithm/parallel_reverse.hpp>
#include <boost/asynchronous/algorithm/parallel_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_sort_inplace.hpp>
#include <boost/asynchronous/algorithm/parallel_grouped_for.hpp>
#include <boost/asynchronous/algorithm/parallel_stable_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_move.hpp>
#include <boost/asynchronous/algorithm/parallel_quicksort.hpp>
#include <boost/asynchronous/algorithm/parallel_group_by.hpp>
#include <boost/asynchronous/algorithm/parallel_extremum.hpp>
#include <boost/asynchronous/algorithm/parallel_find_end.hpp>
#include <boost/asynchronous/algorithm/parallel_find_first_of.hpp>
#include <boost/asynchronous/algorithm/parallel_search.hpp>
namespace p27 {
void algos1(algo_ctx& c){ auto& in=c.in; auto& out=c.out; auto& fn=c.fn; int n=c.n, cut=c.cut, nt=c.nt; (void)n; (void)nt; (void)out; check_value chk{c.bad}; std::vector<int> iv(n,1); auto go=[&](auto t){ c.go(std::move(t)); };
    switch(c.a){
      case 3: go([in=std::move(in),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_sort(std::move(in),[fn,chk](item const& x,item const& y){ fn->use("a functor"); chk(x.v); return x.v<y.v; },cut); }); break;
      case 7: go([in=std::move(in),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_stable_sort(std::move(in),[fn,chk](item const& x,item const& y){ fn->use("a functor"); chk(x.v); return x.v<y.v; },cut); }); break;
      case 9: go([in=std::move(in),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_sort_move_inplace(std::move(in),[fn,chk](item const& x,item const& y){ fn->use("a functor"); chk(x.v); return x.v<y.v; },cut); }); break;
      case 16: go([in=std::move(in),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_sort(ba::parallel_for(std::move(in),[fn,chk](item const& e){ fn->use("a functor"); e.g.use("an element"); chk(e.v); },cut),[fn](item const& x,item const& y){ fn->use("a functor"); x.g.use("an element"); return x.v<y.v; },cut); }); break;
      case 21: go([b=in.begin(),e=in.end(),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_quicksort(b,e,[fn,chk](item const& x,item const& y){ fn->use("a functor"); chk(x.v); return x.v<y.v; },cut); }); break;
      case 8: go([in=std::move(in),cut]()mutable{ return ba::parallel_reverse(std::move(in),cut); }); break;
      case 17: go([in=std::move(in),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_reverse(ba::parallel_for(std::move(in),[fn,chk](item const& e){ fn->use("a functor"); chk(e.v); },cut),cut); }); break;
      case 24: go([fn=std::move(fn),chk]()mutable{ return ba::parallel_invoke<job_t>(ba::to_continuation_task([fn,chk]{ fn->use("a functor"); chk(1); return 1; }),ba::to_continuation_task([fn,chk]{ fn->use("a functor"); chk(2); return 2; })); }); break;
    } }
}
