// unique (group 16): what stays are the first elements of the runs, in order; moved-from elements and strings tell nothing
#include "algos.hpp"
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_unique.hpp>
namespace {
typedef std::vector<std::string> VS;
V input(A& a,int range){ a.init(op_size()); return make_v(a,a.n,range); }
VI firsts(VI const& w){ VI r; for(int i=0;i<(int)w.size();i++) if(!i||w[i]!=w[i-1]) r.push_back(i); return r; }
VI at(VI const& w,VI const& i){ VI r; for(int x:i) r.push_back(w[x]); return r; }
long pos(A& a,long d){ if(d<0||d>a.n) sim_fail("wrong-result","%s returns an iterator outside of the range",a.name); return d; }
OP(16,unique,0){ V v=input(a,1+sim_pick(3)); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_unique(p->begin(),p->end(),[](el const& x,el const& y){ return x.get()==y.get(); },pa->cut); },[&](V::iterator it){ VI f=firsts(w); long m=pos(a,it-v.begin()); same(a,m,f.size(),"size"); auto y=vals(v),z=ids(v); y.resize(m); z.resize(m); same(a,y,at(w,f)); same(a,z,f,"identities"); }); }
OP(16,unique_throwing,OP_FUNC|OP_SHORT){ V v=input(a,1+sim_pick(3)); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_unique(p->begin(),p->end(),[pa](el const& x,el const& y){ bool th=false; { sim::atomic_section s; if(y.id>=0&&y.id<pa->n&&pa->bad[y.id]){ th=true; pa->thrown++; pa->thrown_ids.insert(y.id); } } if(th&&pa->odd) throw odd_error{y.id}; if(th) throw elem_error(y.id); return x.get()==y.get(); },pa->cut); },[&](V::iterator it){ if(a.thrown) sim_fail("exception-lost","%s succeeds although its functor threw",a.name); VI f=firsts(w); long m=pos(a,it-v.begin()); same(a,m,f.size(),"size"); auto z=ids(v); z.resize(m); same(a,z,f,"identities"); }); }
OP(16,unique_continuation,0){ V v=input(a,1+sim_pick(3)); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_unique(ba::parallel_for(std::move(*p),[](el const&){},pa->cut),[](el const& x,el const& y){ return x.get()==y.get(); },pa->cut); },[&](V r){ VI f=firsts(w); same(a,vals(r),at(w,f)); same(a,ids(r),f,"identities"); }); }
OP(16,unique_strings,0){ a.init(op_size()); VS v; int range=1+sim_pick(3); for(int i=0;i<a.n;i++) v.push_back("a string which does not fit into the small buffer "+std::to_string(sim_pick(range))); VS w=v; w.erase(std::unique(w.begin(),w.end()),w.end()); VS* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_unique(p->begin(),p->end(),[](std::string const& x,std::string const& y){ return x==y; },pa->cut); },[&](VS::iterator it){ long m=pos(a,it-v.begin()); v.resize(m); if(v!=w) sim_fail("wrong-result","%s (n %d cutoff %ld): %zu strings, expected %zu",a.name,a.n,a.cut,v.size(),w.size()); }); }
}
