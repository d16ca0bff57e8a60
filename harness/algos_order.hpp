// helpers of the sorting harnesses
#pragma once
namespace {
struct cmp { A* pa; bool desc; bool operator()(el const& x,el const& y) const { int i=x.get(),j=y.get(); pa->hit(x.id); return desc?i>j:i<j; } };
// inputs: random, few distinct values, nearly sorted either way, constant
V shuffled(A& a,int mn=0){ int n=op_size(); if(n<mn) n=mn; a.init(n); V v=make_v(a,n,1+sim_pick(12)); unsigned k=sim_pick(5); if(k>=2) for(int i=0;i<n;i++) v[i].v=k==2?i/2:k==3?(n-i)/2:n-i; if(k>=2&&n&&sim_pick(2)) std::swap(v[sim_pick(n)].v,v[sim_pick(n)].v); return v; }
void conserved(A& a,V const& v,VI const& w){ std::vector<int> i=ids(v); std::sort(i.begin(),i.end()); VI want(w.size()); std::iota(want.begin(),want.end(),0); if(i!=want) sim_fail("wrong-result","%s (n %d cutoff %ld): elements lost or duplicated: %s",a.name,a.n,a.cut,show(ids(v)).c_str()); for(auto& e:v) if(e.get()!=w[e.id]) sim_fail("wrong-result","%s: the value of element %d changed",a.name,e.id); }
void ordered(A& a,V const& v,VI const& w,bool desc,bool stable){ VI s=w; if(desc) std::sort(s.begin(),s.end(),std::greater<int>()); else std::sort(s.begin(),s.end()); same(a,vals(v),s,"order"); conserved(a,v,w); if(stable) for(unsigned i=1;i<v.size();i++) if(v[i-1].v==v[i].v&&v[i-1].id>v[i].id) sim_fail("unstable","%s (n %d cutoff %ld): equal elements changed their order: %s of values %s",a.name,a.n,a.cut,show(ids(v)).c_str(),show(w).c_str()); }
}
