#include "P27.hpp"
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/algorithm/then.hpp>
#include <boost/asynchronous/algorithm/parallel_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_count.hpp>
#include <boost/asynchronous/algorithm/parallel_find_all.hpp>
#include <boost/asynchronous/algorithm/parallel_invoke.hpp>
#include <boost/asynchronous/algorithm/parallel_reverse.hpp>
#include <boost/asynchronous/algorithm/parallel_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_sort_inplace.hpp>
#include <boost/asynchronous/algorithm/parallel_grouped_for.hpp>
#include <boost/asynchronous/algorithm/parallel_stable_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_move.hpp>
#include <boost/asynchronous/algorithm/parallel_quicksort.hpp>
#include <boost/asynchronous/algorithm/parallel_group_by.hpp>
#include <boost/asynchronous/algorithm/parallel_extremum.hpp>
#include <boost/asynchronous/algorithm/parallel_find_end.hpp>
#include <boost/asynchronous/algorithm/parallel_find_first_of.hpp>
#include <boost/asynchronous/algorithm/parallel_search.hpp>
namespace p27 {
void algos3(algo_ctx& c){ auto& in=c.in; auto& out=c.out; auto& fn=c.fn; int n=c.n, cut=c.cut, nt=c.nt; (void)n; (void)nt; (void)out; check_value chk{c.bad}; std::vector<int> iv(n,1); auto go=[&](auto t){ c.go(std::move(t)); };
    switch(c.a){
      case 10: go([in=std::move(in),fn=std::move(fn),nt,chk]()mutable{ return ba::parallel_partition(std::move(in),[fn,chk](item const& x){ fn->use("a functor"); chk(x.v); return x.v>3; },(uint32_t)nt); }); break;
      case 12: go([in=std::move(in),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_stable_partition(std::move(in),[fn,chk](item const& x){ fn->use("a functor"); x.g.use("an element"); chk(x.v); return x.v>3; },cut); }); break;
      case 13: std::sort(in.begin(),in.end()); go([in=std::move(in),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_grouped_for(std::move(in),[](item const& x,item const& y){ x.g.use("an element"); return x.v<y.v; },[fn,chk](std::vector<item>::iterator b,std::vector<item>::iterator e){ fn->use("a functor"); for(;b!=e;++b){ b->g.use("an element"); chk(b->v); } },cut); }); break;
      case 14: out.resize(n); go([in=std::move(in),o=out.begin(),cut]()mutable{ return ba::parallel_copy(std::move(in),o,cut); }); break;
      case 15: out.resize(n); go([in=std::move(in),o=out.begin(),cut]()mutable{ return ba::parallel_move(std::move(in),o,cut); }); break;
      case 22: std::sort(in.begin(),in.end()); go([in=std::move(in),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_group_by<std::vector<std::vector<item>>>(std::move(in),[fn,chk](item const& x,item const& y){ fn->use("a functor"); chk(x.v); return x.v<y.v; },cut); }); break;
      case 23: std::sort(in.begin(),in.end()); go([in=std::move(in),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_grouped_transform<std::vector<item>>(std::move(in),[](item const& x,item const& y){ x.g.use("an element"); return x.v<y.v; },[fn,chk](std::vector<item>::iterator b,std::vector<item>::iterator e,std::vector<item>::iterator o){ fn->use("a functor"); for(;b!=e;++b,++o){ b->g.use("an element"); chk(b->v); *o=*b; } },cut); }); break;
      case 25: go([in=std::move(in),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_extremum(std::move(in),[fn,chk](item const& x,item const& y){ fn->use("a functor"); x.g.use("an element"); chk(x.v); return x.v<y.v; },cut); }); break;
      case 27: out.resize(n); go([in=std::move(in),b=out.begin(),e=out.end(),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_find_end(b,e,ba::parallel_for(std::move(in),[fn,chk](item const& e){ fn->use("a functor"); chk(e.v); },cut),[fn](item const& x,item const& y){ fn->use("a functor"); return x.v==y.v; },cut); }); break;
      case 28: out.resize(n); go([in=std::move(in),b=out.begin(),e=out.end(),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_find_first_of(b,e,ba::parallel_for(std::move(in),[fn,chk](item const& e){ fn->use("a functor"); chk(e.v); },cut),[fn](item const& x,item const& y){ fn->use("a functor"); return x.v==y.v; },cut); }); break;
      case 29: out.resize(n); go([in=std::move(in),b=out.begin(),e=out.end(),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_search(b,e,ba::parallel_for(std::move(in),[fn,chk](item const& e){ fn->use("a functor"); chk(e.v); },cut),[fn](item const& x,item const& y){ fn->use("a functor"); return x.v==y.v; },cut); }); break;
      case 30: out.resize(n); go([in=std::move(in),o=out.begin(),fn=std::move(fn),cut,chk]()mutable{ return ba::parallel_copy(ba::parallel_for(std::move(in),[fn,chk](item const& e){ fn->use("a functor"); chk(e.v); },cut),o,cut); }); break;
    } }
}
