// P22, algorithms: the subtasks of an algorithm posted as loggable jobs are all listed, under the name given to the algorithm.
#pragma once
#include "pools.hpp"
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_for_each.hpp>
#include <boost/asynchronous/algorithm/parallel_reduce.hpp>
#include <boost/asynchronous/algorithm/parallel_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_copy_if.hpp>
#include <boost/asynchronous/algorithm/parallel_count.hpp>
#include <boost/asynchronous/algorithm/parallel_equal.hpp>
#include <boost/asynchronous/algorithm/parallel_fill.hpp>
#include <boost/asynchronous/algorithm/parallel_find_all.hpp>
#include <boost/asynchronous/algorithm/parallel_generate.hpp>
#include <boost/asynchronous/algorithm/parallel_group_by.hpp>
#include <boost/asynchronous/algorithm/parallel_grouped_for.hpp>
#include <boost/asynchronous/algorithm/parallel_iota.hpp>
#include <boost/asynchronous/algorithm/parallel_is_partitioned.hpp>
#include <boost/asynchronous/algorithm/parallel_is_sorted.hpp>
#include <boost/asynchronous/algorithm/parallel_all_of.hpp>
#include <boost/asynchronous/algorithm/parallel_any_of.hpp>
#include <boost/asynchronous/algorithm/parallel_none_of.hpp>
#include <boost/asynchronous/algorithm/parallel_adjacent_find.hpp>
#include <boost/asynchronous/algorithm/parallel_search.hpp>
#include <boost/asynchronous/algorithm/parallel_search_n.hpp>
#include <boost/asynchronous/algorithm/parallel_find_end.hpp>
#include <boost/asynchronous/algorithm/parallel_find_first_of.hpp>
#include <boost/asynchronous/algorithm/parallel_mismatch.hpp>
#include <boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp>
#include <boost/asynchronous/algorithm/parallel_merge.hpp>
#include <boost/asynchronous/algorithm/parallel_move.hpp>
#include <boost/asynchronous/algorithm/parallel_nth_element.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sum.hpp>
#include <boost/asynchronous/algorithm/parallel_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_partition_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_stable_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_quicksort.hpp>
#include <boost/asynchronous/algorithm/parallel_remove_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_replace.hpp>
#include <boost/asynchronous/algorithm/parallel_replace_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_reverse.hpp>
#include <boost/asynchronous/algorithm/parallel_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_sort_inplace.hpp>
#include <boost/asynchronous/algorithm/parallel_swap_ranges.hpp>
#include <boost/asynchronous/algorithm/parallel_unique.hpp>
#include <boost/asynchronous/algorithm/parallel_extremum.hpp>
#include <boost/asynchronous/algorithm/parallel_inner_product.hpp>
#include <boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp>
#include <boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp>
#include <set>
namespace p22 {
typedef ba::any_loggable LJ; typedef ba::any_shared_scheduler_proxy<LJ> lpool_t; typedef std::chrono::high_resolution_clock clk; typedef std::vector<int> VI; typedef VI::iterator It;
enum { MAXC=6000 };
struct call { boost::thread::id th; clk::time_point t; int algo; };
struct X { lpool_t pool; int id; std::string nm; int n; long cut; VI v,w; int k; bool throwing=false; const char* name=""; };
struct world { std::vector<call> calls; int n=0; X* cur[2]={nullptr,nullptr}; int thrown[2]={0,0}; int bad[2]={-1,-1}; bool ended[2]={false,false}; };
inline world* W=nullptr;
// every functor call is recorded: it must be inside an entry
inline void hit(int a){ bool t; { sim::atomic_section s; if(W->ended[a]) sim_fail("after-completion","%s: functor called after completion",W->cur[a]->name); if((int)W->calls.size()<MAXC) W->calls.push_back({boost::this_thread::get_id(),clk::now(),a}); t=W->bad[a]>=0&&W->bad[a]--==0; if(t) W->thrown[a]++; } if(t) throw sim_error(a); if(sim_pick(12)==11) sim_sleep(sim::ms); }
struct lt { int a; bool operator()(int x,int y) const { hit(a); return x<y; } };
struct eq { int a; bool operator()(int x,int y) const { hit(a); return x==y; } };
struct odd { int a; bool operator()(int x) const { hit(a); return x&1; } };
struct neg { int a; bool operator()(int x) const { hit(a); return x<0; } };
struct inc { int a; void operator()(int& x) const { hit(a); x+=100; } };
struct look { int a; int n=0; void operator()(int const&){ n++; hit(a); } void merge(look const& o){ n+=o.n; } };
struct dbl { int a; int operator()(int x) const { hit(a); return 2*x; } };
struct sum { int a; int operator()(int x,int y) const { hit(a); return x+y; } };
struct gen { int a; int operator()() const { hit(a); return 7; } };
struct ipsum { int a; void operator()(It b,It e) const { hit(a); (void)b; (void)e; } };
inline void eqv(X& x,VI const& got,VI const& want){ if(got!=want) sim_fail("wrong-result","%s of %d elements, cutoff %ld: wrong result",x.name,x.n,x.cut); }
inline void eqn(X& x,long got,long want){ if(got!=want) sim_fail("wrong-result","%s of %d elements, cutoff %ld: %ld, expected %ld",x.name,x.n,x.cut,got,want); }
typedef std::function<void()> fn;
template<class F,class G> void go(X& x,F f,G g){ typedef typename decltype(f())::return_type R; std::future<R> fu=ba::post_future(x.pool,f,x.nm);
  if(!wait_for([&]{ return fu.wait_for(std::chrono::seconds(0))==std::future_status::ready; },300)) sim_fail("never-completes","%s of %d elements, cutoff %ld never completes",x.name,x.n,x.cut);
  try { if constexpr(std::is_same<R,void>::value){ fu.get(); { sim::atomic_section s; W->ended[x.id]=true; } g(); } else { R r=fu.get(); { sim::atomic_section s; W->ended[x.id]=true; } g(std::move(r)); } }
  catch(sim_error& e){ { sim::atomic_section s; W->ended[x.id]=true; } if(!W->thrown[x.id]) sim_fail("wrong-exception","%s fails although nothing threw",x.name); sim_probe("algorithm failed",1); }
  catch(std::exception& e){ sim_fail("wrong-exception","%s fails with %s",x.name,e.what()); } }
struct alg { const char* name; void (*run)(X&); alg* next; static inline alg* head=nullptr; alg(const char* n,void(*r)(X&)):name(n),run(r),next(nullptr){ alg** q=&head; while(*q) q=&(*q)->next; *q=this; } };
inline VI sorted(VI v){ std::sort(v.begin(),v.end()); return v; }
#define B x.v.begin()
#define E x.v.end()
#define L x.cut,x.nm,0
#define RUN(expr,...) go(x,[&x]{ auto a=x.id; (void)a; return expr; },[&](__VA_ARGS__)
}
