// elementwise algorithms (group 14)
#include "algos.hpp"
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_fill.hpp>
#include <boost/asynchronous/algorithm/parallel_iota.hpp>
#include <boost/asynchronous/algorithm/parallel_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_copy_if.hpp>
#include <boost/asynchronous/algorithm/parallel_move.hpp>
#include <boost/asynchronous/algorithm/parallel_move_if_noexcept.hpp>
#include <boost/asynchronous/algorithm/parallel_replace.hpp>
#include <boost/asynchronous/algorithm/parallel_replace_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_remove_copy.hpp>
#include <boost/asynchronous/algorithm/parallel_reverse.hpp>
#include <boost/asynchronous/algorithm/parallel_swap_ranges.hpp>
#include <boost/asynchronous/algorithm/parallel_grouped_for.hpp>
#include <boost/asynchronous/algorithm/parallel_grouped_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_group_by.hpp>
namespace {
V input(A& a,int range=10){ a.init(op_size()); return make_v(a,a.n,range); }
std::vector<int> plus(std::vector<int> v,int d){ for(int& x:v) x+=d; return v; }
OP(14,fill_iterators,0){ V v=input(a); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_fill(p->begin(),p->end(),el(42),pa->cut); },[&]{ same(a,vals(v),VI(a.n,42)); }); }
OP(14,fill_range,0){ V v=input(a); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_fill(*(const V*)p,el(42),pa->cut); },[&]{ same(a,vals(v),VI(a.n,42)); }); }
OP(14,fill_move,0){ V v=input(a); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_fill(ba::parallel_fill(std::move(*p),el(41),pa->cut),el(42),pa->cut); },[&](V r){ same(a,vals(r),VI(a.n,42)); }); }
OP(14,iota_iterators,0){ VI v(op_size()); a.init(v.size()); VI* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_iota(p->begin(),p->end(),7,pa->cut); },[&]{ VI x(a.n); std::iota(x.begin(),x.end(),7); same(a,v,x); }); }
OP(14,iota_move,0){ VI v(op_size()); a.init(v.size()); VI* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_iota(std::move(*p),7,pa->cut); },[&](VI r){ VI x(a.n); std::iota(x.begin(),x.end(),7); same(a,r,x); }); }
OP(14,copy_iterators,0){ V v=input(a); V o(a.n); auto w=vals(v); V *p=&v,*q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_copy(p->begin(),p->end(),q->begin(),pa->cut); },[&]{ same(a,vals(o),w); same(a,vals(v),w,"source"); }); }
OP(14,copy_list,0){ V v0=input(a); std::list<el> v(v0.begin(),v0.end()); V o(a.n); auto w=vals(v); auto *p=&v; auto *q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_copy(p->begin(),p->end(),q->begin(),pa->cut); },[&]{ same(a,vals(o),w); same(a,vals(v),w,"source"); }); }
OP(14,copy_move,0){ V v=input(a); V o(a.n); auto w=vals(v); V *p=&v,*q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_copy(std::move(*p),q->begin(),pa->cut); },[&](V r){ same(a,vals(o),w); same(a,vals(r),w,"returned range"); }); }
OP(14,copy_continuation,0){ V v=input(a); V o(a.n); auto w=plus(vals(v),1); V *p=&v,*q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_copy(ba::parallel_for(std::move(*p),[](el const& e){ const_cast<el&>(e).set(e.get()+1); },pa->cut),q->begin(),pa->cut); },[&](V r){ same(a,vals(o),w); same(a,vals(r),w,"returned range"); }); }
OP(14,move_iterators,0){ V v=input(a); V o(a.n); auto w=vals(v); V *p=&v,*q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_move(p->begin(),p->end(),q->begin(),pa->cut); },[&]{ same(a,vals(o),w); same(a,vals(v),VI(a.n,-999),"source"); }); }
OP(14,move_range,0){ V v=input(a); V o(a.n); auto w=vals(v); V *p=&v,*q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_move(std::move(*p),q->begin(),pa->cut); },[&](V r){ same(a,vals(o),w); same(a,vals(r),VI(a.n,-999),"returned range"); }); }
OP(14,move_if_noexcept,0){ V v=input(a); V o(a.n); auto w=vals(v); V *p=&v,*q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_move_if_noexcept(p->begin(),p->end(),q->begin(),pa->cut); },[&]{ same(a,vals(o),w); }); }
OP(14,copy_if,OP_FUNC){ V v=input(a); V o(a.n); auto w=vals(v); V *p=&v,*q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_copy_if(p->begin(),p->end(),q->begin(),[pa](el const& e){ pa->hit(e.id); return e.get()<5; },pa->cut); },[&](V::iterator it){ VI x; for(int i:w) if(i<5) x.push_back(i); int m=x.size(); same(a,it-o.begin(),m,"number of copied elements"); x.resize(a.n,0); same(a,vals(o),x); }); }
OP(14,remove_copy_if,OP_FUNC){ V v=input(a); V o(a.n); auto w=vals(v); V *p=&v,*q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_remove_copy_if(p->begin(),p->end(),q->begin(),[pa](el const& e){ pa->hit(e.id); return e.get()<5; },pa->cut); },[&](V::iterator it){ VI x; for(int i:w) if(i>=5) x.push_back(i); int m=x.size(); same(a,it-o.begin(),m,"number of copied elements"); x.resize(a.n,0); same(a,vals(o),x); }); }
OP(14,remove_copy,0){ V v=input(a,4); V o(a.n); auto w=vals(v); V *p=&v,*q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_remove_copy(p->begin(),p->end(),q->begin(),el(2),pa->cut); },[&](V::iterator it){ VI x; for(int i:w) if(i!=2) x.push_back(i); int m=x.size(); same(a,it-o.begin(),m,"number of copied elements"); x.resize(a.n,0); same(a,vals(o),x); }); }
VI repl(VI w,bool(*f)(int)){ for(int& x:w) if(f(x)) x=77; return w; }
OP(14,replace_if,OP_FUNC){ V v=input(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_replace_if(p->begin(),p->end(),[pa](el const& e){ pa->hit(e.id); return e.get()<5; },el(77),pa->cut); },[&]{ same(a,vals(v),repl(w,[](int x){ return x<5; })); a.once(); }); }
OP(14,replace,0){ V v=input(a,4); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_replace(p->begin(),p->end(),el(2),el(77),pa->cut); },[&]{ same(a,vals(v),repl(w,[](int x){ return x==2; })); }); }
OP(14,replace_if_move,OP_FUNC){ V v=input(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_replace_if(std::move(*p),[pa](el const& e){ pa->hit(e.id); return e.get()<5; },el(77),pa->cut); },[&](V r){ same(a,vals(r),repl(w,[](int x){ return x<5; })); a.once(); }); }
OP(14,replace_move,0){ V v=input(a,4); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_replace(std::move(*p),el(2),el(77),pa->cut); },[&](V r){ same(a,vals(r),repl(w,[](int x){ return x==2; })); }); }
OP(14,replace_copy_if,OP_FUNC){ V v=input(a); V o(a.n); auto w=vals(v); V *p=&v,*q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_replace_copy_if(p->begin(),p->end(),q->begin(),[pa](el const& e){ pa->hit(e.id); return e.get()<5; },el(77),pa->cut); },[&](V::iterator it){ same(a,it-o.begin(),a.n,"returned position"); same(a,vals(o),repl(w,[](int x){ return x<5; })); same(a,vals(v),w,"source"); a.once(); }); }
OP(14,replace_copy,0){ V v=input(a,4); V o(a.n); auto w=vals(v); V *p=&v,*q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_replace_copy(p->begin(),p->end(),q->begin(),el(2),el(77),pa->cut); },[&](V::iterator it){ same(a,it-o.begin(),a.n,"returned position"); same(a,vals(o),repl(w,[](int x){ return x==2; })); }); }
OP(14,reverse,0){ V v=input(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_reverse(p->begin(),p->end(),pa->cut); },[&]{ std::reverse(w.begin(),w.end()); same(a,vals(v),w); }); }
OP(14,reverse_move,0){ V v=input(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_reverse(std::move(*p),pa->cut); },[&](V r){ std::reverse(w.begin(),w.end()); same(a,vals(r),w); }); }
OP(14,reverse_continuation,0){ V v=input(a); auto w=plus(vals(v),1); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_reverse(ba::parallel_for(std::move(*p),[](el const& e){ const_cast<el&>(e).set(e.get()+1); },pa->cut),pa->cut); },[&](V r){ std::reverse(w.begin(),w.end()); same(a,vals(r),w); }); }
OP(14,swap_ranges,0){ V v=input(a); V u=make_v(a,a.n,10); auto w=vals(v),x=vals(u); V *p=&v,*q=&u; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_swap_ranges(p->begin(),p->end(),q->begin(),pa->cut); },[&](V::iterator it){ same(a,vals(v),x); same(a,vals(u),w); same(a,it-u.begin(),a.n,"returned position"); }); }
// grouped: sorted input, groups are never split
V grouped(A& a){ a.init(op_size()); VI w; for(int i=0;i<a.n;i++) w.push_back(sim_pick(5)); std::sort(w.begin(),w.end()); V v; v.reserve(a.n); for(int i=0;i<a.n;i++) v.emplace_back(w[i],i); return v; }
struct groups { std::vector<int> seen=std::vector<int>(8,0); void chunk(int b){ sim::atomic_section s; if(seen[b]++) sim_fail("group-split","the group of value %d is split",b); } };
template<class I> void mark(groups& g,I b,I e){ int last=-1; for(;b!=e;++b){ int x=b->get(); if(x!=last) g.chunk(x); last=x; } }
OP(14,grouped_for,OP_FUNC){ V v=grouped(a); auto w=vals(v); V* p=&v; A* pa=&a; auto g=std::make_shared<groups>(); a.run([p,pa,g]{ return ba::parallel_grouped_for(p->begin(),p->end(),std::less<el>(),[pa,g](V::iterator b,V::iterator e){ mark(*g,b,e); for(;b!=e;++b){ pa->hit(b->id); b->set(b->get()+1); } },pa->cut); },[&]{ same(a,vals(v),plus(w,1)); a.once(); }); }
OP(14,grouped_for_range,OP_FUNC){ V v=grouped(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_grouped_for(*p,std::less<el>(),[pa](el& e){ pa->hit(e.id); e.set(e.get()); },pa->cut); },[&]{ same(a,vals(v),w); a.once(); }); }
OP(14,grouped_for_move,OP_FUNC){ V v=grouped(a); V* p=&v; A* pa=&a; auto g=std::make_shared<groups>(); a.run([p,pa,g]{ return ba::parallel_grouped_for(std::move(*p),std::less<el>(),[pa,g](V::iterator b,V::iterator e){ mark(*g,b,e); for(;b!=e;++b) pa->hit(b->id); },pa->cut); },[&](V r){ same(a,r.size(),a.n,"size"); a.once(); }); }
OP(14,grouped_transform,OP_FUNC){ V v=grouped(a); V o(a.n); auto w=vals(v); V *p=&v,*q=&o; A* pa=&a; auto g=std::make_shared<groups>(); a.run([p,q,pa,g]{ return ba::parallel_grouped_transform(p->begin(),p->end(),q->begin(),std::less<el>(),[pa,g](V::iterator b,V::iterator e,V::iterator o){ mark(*g,b,e); for(;b!=e;++b,++o){ pa->hit(b->id); o->set(b->get()*2); } },pa->cut); },[&](V::iterator it){ for(int& x:w) x*=2; same(a,vals(o),w); a.once(); (void)it; }); }
OP(14,group_by,0){ V v=grouped(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_group_by<std::vector<V>>(p->begin(),p->end(),std::less<el>(),pa->cut); },[&](std::vector<V> r){ VI got,sizes; for(auto& x:r){ if(x.empty()) sim_fail("wrong-result","group_by gives an empty group"); for(int i=1;i<(int)x.size();i++) if(x[i].get()!=x[0].get()) sim_fail("wrong-result","group_by mixes groups"); for(auto& y:x) got.push_back(y.get()); } std::set<int> s(w.begin(),w.end()); same(a,(long)r.size(),(long)s.size(),"number of groups"); same(a,got,w); }); }
}
