#include "P27.hpp"
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/algorithm/then.hpp>
#include <boost/asynchronous/algorithm/parallel_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_count.hpp>
#include <boost/asynchronous/algorithm/parallel_find_all.hpp>
#include <boost/asynchronous/algorithm/parallel_invoke.hpp>
#include <boost/asynchronous/algorithm/parallel_reverse.hpp>
#include <boost/asynchronous/algorithm/parallel_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_sort_inplace.hpp>
#include <boost/asynchronous/algorithm/parallel_grouped_for.hpp>
#include <boost/asynchronous/algorithm/parallel_stable_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_move.hpp>
#include <boost/asynchronous/algorithm/parallel_quicksort.hpp>
#include <boost/asynchronous/algorithm/parallel_group_by.hpp>
#include <boost/asynchronous/algorithm/parallel_extremum.hpp>
#include <boost/asynchronous/algorithm/parallel_find_end.hpp>
#include <boost/asynchronous/algorithm/parallel_find_first_of.hpp>
#include <boost/asynchronous/algorithm/parallel_search.hpp>
namespace p27 {
void algos2(algo_ctx& c){ auto& in=c.in; auto& out=c.out; auto& fn=c.fn; int n=c.n, cut=c.cut, nt=c.nt; (void)n; (void)nt; (void)out; check_value chk{c.bad}; std::vector<int> iv(n,1); auto go=[&](auto t){ c.go(std::move(t)); };
    switch(c.a){
      case 0: go([in=std::move(in),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_for(std::move(in),[fn,chk](item const& e){ fn->use("a functor"); e.g.use("an element"); chk(e.v); },cut); }); break;
      case 1: go([b=in.begin(),e=in.end(),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_for(b,e,[fn,chk](item const& e){ fn->use("a functor"); chk(e.v); },cut); }); break;
      case 2: go([iv,fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_reduce(std::move(iv),[fn,chk](int x,int y){ fn->use("a functor"); chk(x); return x+y; },cut); }); break;
      case 4: out.resize(n); go([b=in.begin(),e=in.end(),o=out.begin(),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_transform(b,e,o,[fn,chk](item const& x){ fn->use("a functor"); chk(x.v); return x; },cut); }); break;
      case 5: go([in=std::move(in),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_count_if(std::move(in),[fn,chk](item const& x){ fn->use("a functor"); chk(x.v); return x.v>3; },cut); }); break;
      case 6: go([in=std::move(in),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_find_all(std::move(in),[fn,chk](item const& x){ fn->use("a functor"); chk(x.v); return x.v>3; },cut); }); break;
      case 11: go([in=std::move(in),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_for(ba::parallel_for(std::move(in),[fn,chk](item const& e){ fn->use("a functor"); e.g.use("an element"); chk(e.v); },cut),[fn](item const& e){ fn->use("a functor"); e.g.use("an element"); },cut); }); break;
      case 18: go([in=std::move(in),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_count_if(ba::parallel_for(std::move(in),[fn,chk](item const& e){ fn->use("a functor"); chk(e.v); },cut),[fn](item const& x){ fn->use("a functor"); x.g.use("an element"); return x.v>3; },cut); }); break;
      case 19: go([in=std::move(in),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_find_all(ba::parallel_for(std::move(in),[fn,chk](item const& e){ fn->use("a functor"); chk(e.v); },cut),[fn](item const& x){ fn->use("a functor"); x.g.use("an element"); return x.v>3; },cut); }); break;
      case 20: go([in=std::move(in),fn=std::move(fn),cut,chk]()mutable{ return ba::then(ba::parallel_for(std::move(in),[fn,chk](item const& e){ fn->use("a functor"); chk(e.v); },cut),[fn](ba::expected<std::vector<item>> r){ fn->use("a functor"); auto v=r.get(); return (int)v.size(); }); }); break;
      case 26: go([in=std::move(in),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_reduce(ba::parallel_for(std::move(in),[fn,chk](item const& e){ fn->use("a functor"); chk(e.v); },cut),[fn](item const& x,item const& y){ fn->use("a functor"); x.g.use("an element"); return x.v<y.v?x:y; },cut); }); break;
    } }
}
