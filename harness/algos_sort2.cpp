// sorting (group 16), part 2: quicksort, partial sort, nth_element, merge, partitions
#include "algos.hpp"
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_quicksort.hpp>
#include <boost/asynchronous/algorithm/parallel_partial_sort.hpp>
#include <boost/asynchronous/algorithm/parallel_nth_element.hpp>
#include <boost/asynchronous/algorithm/parallel_merge.hpp>
#include <boost/asynchronous/algorithm/parallel_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_stable_partition.hpp>
#include <boost/asynchronous/algorithm/parallel_partition_copy.hpp>
#include "algos_order.hpp"
namespace {
uint32_t thr(){ return 1+sim_pick(4); }
OP(16,quicksort,OP_FUNC){ V v=shuffled(a); auto w=vals(v); bool d=sim_pick(2); V* p=&v; A* pa=&a; a.run([p,pa,d]{ return ba::parallel_quicksort(p->begin(),p->end(),cmp{pa,d},pa->cut,thr()); },[&]{ ordered(a,v,w,d,false); }); }
OP(16,partial_sort,OP_FUNC){ V v=shuffled(a); auto w=vals(v); int m=sim_pick(a.n+1); bool d=sim_pick(2); V* p=&v; A* pa=&a; a.run([p,pa,d,m]{ return ba::parallel_partial_sort(p->begin(),p->begin()+m,p->end(),cmp{pa,d},pa->cut,thr()); },[&]{ conserved(a,v,w); VI s=w; if(d) std::sort(s.begin(),s.end(),std::greater<int>()); else std::sort(s.begin(),s.end()); VI g=vals(v); g.resize(m); s.resize(m); same(a,g,s,"sorted part"); }); }
OP(16,nth_element,OP_FUNC){ V v=shuffled(a); auto w=vals(v); int m=sim_pick(a.n+1); bool d=sim_pick(2); V* p=&v; A* pa=&a; a.run([p,pa,d,m]{ return ba::parallel_nth_element(p->begin(),p->begin()+m,p->end(),cmp{pa,d},pa->cut,thr()); },[&]{ conserved(a,v,w); if(m==a.n) return; VI s=w; if(d) std::sort(s.begin(),s.end(),std::greater<int>()); else std::sort(s.begin(),s.end()); VI g=vals(v); same(a,g[m],s[m],"nth element"); for(int i=0;i<a.n;i++) if(d?(i<m?g[i]<g[m]:g[i]>g[m]):(i<m?g[i]>g[m]:g[i]<g[m])) sim_fail("wrong-result","%s (n %d nth %d cutoff %ld): element %d is on the wrong side: %s",a.name,a.n,m,a.cut,i,show(g).c_str()); }); }
// both ranges sorted; ids tell the origin (stability: equal elements of the first range come first)
OP(16,merge,OP_FUNC){ V v=shuffled(a); int n1=sim_pick(a.n+1); auto w=vals(v); bool d=sim_pick(2); auto c=[d](el const& x,el const& y){ return d?x.v>y.v:x.v<y.v; }; V u(v.begin(),v.begin()+n1),t(v.begin()+n1,v.end()); std::stable_sort(u.begin(),u.end(),c); std::stable_sort(t.begin(),t.end(),c); for(int i=0;i<a.n;i++){ el& e=i<n1?u[i]:t[i-n1]; e.id=i; w[i]=e.v; } V o(a.n); V *p=&u,*q=&t,*r=&o; A* pa=&a;
  a.run([p,q,r,pa,d]{ return ba::parallel_merge(p->begin(),p->end(),q->begin(),q->end(),r->begin(),cmp{pa,d},pa->cut); },[&]{ ordered(a,o,w,d,true); same(a,ids(u).size(),n1); for(int i=0;i<n1;i++) same(a,u[i].id,i,"first input"); for(int i=n1;i<a.n;i++) same(a,t[i-n1].id,i,"second input"); }); }
int trues(VI const& w){ int k=0; for(int x:w) k+=x<5; return k; }
#define PRED [pa](el const& e){ int i=e.get(); pa->hit(e.id); return i<5; }
void parted(A& a,V const& v,long at,VI const& w,bool stable){ conserved(a,v,w); same(a,at,trues(w),"partition point"); for(long i=0;i<(long)v.size();i++) if((v[i].v<5)!=(i<at)) sim_fail("wrong-result","%s (n %d): element %ld is on the wrong side: %s",a.name,a.n,i,show(vals(v)).c_str()); if(stable) for(long i=1;i<(long)v.size();i++) if(i!=at&&v[i-1].id>v[i].id) sim_fail("unstable","%s (n %d cutoff %ld) changed the relative order: %s",a.name,a.n,a.cut,show(ids(v)).c_str()); }
OP(16,partition_iterators,OP_FUNC){ V v=shuffled(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_partition(p->begin(),p->end(),PRED,thr()); },[&](V::iterator it){ parted(a,v,it-v.begin(),w,false); }); }
OP(16,partition_move,OP_FUNC){ V v=shuffled(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_partition(std::move(*p),PRED,thr()); },[&](std::pair<V,V::iterator> r){ parted(a,r.first,r.second-r.first.begin(),w,false); }); }
OP(16,partition_continuation,OP_FUNC){ V v=shuffled(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_partition(ba::parallel_for(std::move(*p),[](el const&){},pa->cut),PRED,thr()); },[&](std::pair<V,V::iterator> r){ parted(a,r.first,r.second-r.first.begin(),w,false); }); }
// the blocks of parallel_partition have at least 1000 elements: sizes around several blocks
OP(16,partition_blocks,0){ int n=sim_pick(4)?1+sim_pick(4)*1000-1+sim_pick(3):10000+sim_pick(3000); a.init(0); a.n=n; VI v(n); unsigned m=1+sim_pick(10),x=sim_pick(1000); for(int i=0;i<n;i++){ x=x*1103515245u+12345u; v[i]=(x>>16)%10+(x>>16)%m*0; if(m>5&&i*10<n*(int)(m-4)) v[i]=9; } VI w=v; VI* p=&v; a.run([p]{ return ba::parallel_partition(p->begin(),p->end(),[](int i){ return i<5; },1+sim_pick(6)); },[&](VI::iterator it){ same(a,it-v.begin(),trues(w),"partition point"); for(int i=0;i<n;i++) if((v[i]<5)!=(i<it-v.begin())) sim_fail("wrong-result","%s of %d elements: element %d is on the wrong side",a.name,n,i); if(sorted(v)!=sorted(w)) sim_fail("wrong-result","%s of %d elements lost elements",a.name,n); }); }
OP(16,stable_partition_iterators,OP_FUNC){ V v=shuffled(a); V o(a.n); auto w=vals(v); V *p=&v,*q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_stable_partition(p->begin(),p->end(),q->begin(),PRED,pa->cut); },[&](V::iterator it){ parted(a,o,it-o.begin(),w,true); }); }
OP(16,stable_partition_move,OP_FUNC){ V v=shuffled(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_stable_partition(std::move(*p),PRED,pa->cut); },[&](std::pair<V,V::iterator> r){ parted(a,r.first,r.second-r.first.begin(),w,true); }); }
OP(16,stable_partition_continuation,OP_FUNC){ V v=shuffled(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_stable_partition(ba::parallel_for(std::move(*p),[](el const&){},pa->cut),PRED,pa->cut); },[&](std::pair<V,V::iterator> r){ parted(a,r.first,r.second-r.first.begin(),w,true); }); }
OP(16,partition_copy,OP_FUNC){ V v=shuffled(a); auto w=vals(v); V t(a.n),f(a.n); V *p=&v,*q=&t,*r=&f; A* pa=&a; a.run([p,q,r,pa]{ return ba::parallel_partition_copy(p->begin(),p->end(),q->begin(),r->begin(),PRED,pa->cut); },[&](std::pair<V::iterator,V::iterator> z){ int k=trues(w); same(a,z.first-t.begin(),k,"first end"); same(a,z.second-f.begin(),a.n-k,"second end"); V all; for(int i=0;i<k;i++) all.push_back(t[i]); for(int i=0;i<a.n-k;i++) all.push_back(f[i]); parted(a,all,k,w,true); conserved(a,v,w); }); }
}
