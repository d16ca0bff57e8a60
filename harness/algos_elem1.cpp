// elementwise algorithms (group 14)
#include "algos.hpp"
#include <boost/asynchronous/algorithm/parallel_for.hpp>
#include <boost/asynchronous/algorithm/parallel_for_each.hpp>
#include <boost/asynchronous/algorithm/parallel_transform.hpp>
#include <boost/asynchronous/algorithm/parallel_generate.hpp>
namespace {
V input(A& a,int range=10){ a.init(op_size()); return make_v(a,a.n,range); }
std::vector<int> plus(std::vector<int> v,int d){ for(int& x:v) x+=d; return v; }
OP(14,for_iterators,OP_FUNC){ V v=input(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_for(p->begin(),p->end(),[pa](el& e){ pa->hit(e.id); e.set(e.get()+1); },pa->cut); },[&]{ same(a,vals(v),plus(w,1)); a.once(); }); }
OP(14,for_list,OP_FUNC){ V v0=input(a); std::list<el> v(v0.begin(),v0.end()); auto w=vals(v); auto* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_for(p->begin(),p->end(),[pa](el& e){ pa->hit(e.id); e.set(e.get()+1); },pa->cut); },[&]{ same(a,vals(v),plus(w,1)); a.once(); }); }
OP(14,for_range_ref,OP_FUNC){ V v=input(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_for(*(const V*)p,[pa](el const& e){ pa->hit(e.id); const_cast<el&>(e).set(e.get()+1); },pa->cut); },[&]{ same(a,vals(v),plus(w,1)); a.once(); }); }
OP(14,for_range_move,OP_FUNC){ V v=input(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_for(std::move(*p),[pa](el const& e){ pa->hit(e.id); const_cast<el&>(e).set(e.get()+1); },pa->cut); },[&](V r){ same(a,vals(r),plus(w,1)); a.once(); }); }
OP(14,for_continuation,OP_FUNC){ V v=input(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_for(ba::parallel_for(std::move(*p),[](el const& e){ const_cast<el&>(e).set(e.get()+10); },pa->cut),[pa](el const& e){ pa->hit(e.id); const_cast<el&>(e).set(e.get()+1); },pa->cut); },[&](V r){ same(a,vals(r),plus(w,11)); a.once(); }); }
OP(14,for_chunks,OP_FUNC){ V v=input(a); auto w=vals(v); V* p=&v; A* pa=&a; a.run([p,pa]{ return ba::parallel_for(p->begin(),p->end(),[pa](V::iterator b,V::iterator e){ for(;b!=e;++b){ pa->hit(b->id); b->set(b->get()+1); } },pa->cut); },[&]{ same(a,vals(v),plus(w,1)); a.once(); }); }
OP(14,for_integers,OP_FUNC){ a.init(op_size()); A* pa=&a; a.run([pa]{ return ba::parallel_for(0,pa->n,[pa](int const& i){ pa->hit(i); },pa->cut); },[&]{ a.once(); }); }
struct fe { A* pa; long sum=0; int cnt=0; void operator()(el const& e){ pa->hit(e.id); sum+=e.get(); cnt++; } void merge(fe const& o){ sum+=o.sum; cnt+=o.cnt; } };
OP(14,for_each,OP_FUNC){ V v=input(a); auto w=vals(v); long s=std::accumulate(w.begin(),w.end(),0L); V* p=&v; A* pa=&a; a.run([p,pa]{ fe f; f.pa=pa; return ba::parallel_for_each(p->begin(),p->end(),std::move(f),pa->cut); },[&](fe f){ same(a,f.sum,s); same(a,f.cnt,a.n,"count"); a.once(); }); }
OP(14,transform1,OP_FUNC){ V v=input(a); V o(a.n); auto w=vals(v); V *p=&v,*q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_transform(p->begin(),p->end(),q->begin(),[pa](el const& e){ pa->hit(e.id); return el(e.get()*3,e.id); },pa->cut); },[&](V::iterator it){ same(a,vals(o),[&]{ for(int& x:w) x*=3; return w; }()); same(a,it-o.begin(),a.n,"returned position"); a.once(); }); }
OP(14,transform1_list,OP_FUNC){ V v0=input(a); std::list<el> v(v0.begin(),v0.end()); V o(a.n); auto w=vals(v); auto* p=&v; V* q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_transform(p->begin(),p->end(),q->begin(),[pa](el const& e){ pa->hit(e.id); return el(e.get()*3,e.id); },pa->cut); },[&](V::iterator it){ same(a,vals(o),[&]{ for(int& x:w) x*=3; return w; }()); same(a,it-o.begin(),a.n,"returned position"); a.once(); }); }
OP(14,transform2,OP_FUNC){ V v=input(a); V u=make_v(a,a.n,10); V o(a.n); auto w=vals(v),x=vals(u); V *p=&v,*p2=&u,*q=&o; A* pa=&a; a.run([p,p2,q,pa]{ return ba::parallel_transform(p->begin(),p->end(),p2->begin(),q->begin(),[pa](el const& e,el const& f){ if(e.id!=f.id) sim_fail("wrong-element","transform pairs %d with %d",e.id,f.id); pa->hit(e.id); return el(e.get()*3+f.get(),e.id); },pa->cut); },[&](V::iterator it){ for(int i=0;i<a.n;i++) w[i]=w[i]*3+x[i]; same(a,vals(o),w); same(a,it-o.begin(),a.n,"returned position"); a.once(); }); }
OP(14,transform_range,OP_FUNC){ V v=input(a); V o(a.n); auto w=vals(v); V *p=&v,*q=&o; A* pa=&a; a.run([p,q,pa]{ return ba::parallel_transform(*p,q->begin(),[pa](el const& e){ pa->hit(e.id); return el(e.get()*3,e.id); },pa->cut); },[&](V::iterator it){ for(int& x:w) x*=3; same(a,vals(o),w); same(a,it-o.begin(),a.n,"returned position"); a.once(); }); }
OP(14,transform_range2,OP_FUNC){ V v=input(a); V u=make_v(a,a.n,10); V o(a.n); auto w=vals(v),x=vals(u); V *p=&v,*p2=&u,*q=&o; A* pa=&a; a.run([p,p2,q,pa]{ return ba::parallel_transform(*p,*p2,q->begin(),[pa](el const& e,el const& f){ if(e.id!=f.id) sim_fail("wrong-element","transform pairs %d with %d",e.id,f.id); pa->hit(e.id); return el(e.get()*3+f.get(),e.id); },pa->cut); },[&](V::iterator it){ for(int i=0;i<a.n;i++) w[i]=w[i]*3+x[i]; same(a,vals(o),w); same(a,it-o.begin(),a.n,"returned position"); a.once(); }); }
OP(14,transform3,OP_FUNC){ V v=input(a); V u=make_v(a,a.n,10),t=make_v(a,a.n,10); V o(a.n); auto w=vals(v),x=vals(u),y=vals(t); V *p=&v,*p2=&u,*p3=&t,*q=&o; A* pa=&a; auto f=[pa](el const& e,el const& g,el const& h){ if(e.id!=g.id||e.id!=h.id) sim_fail("wrong-element","transform combines %d %d %d",e.id,g.id,h.id); pa->hit(e.id); return el(e.get()*3+g.get()-h.get(),e.id); }; a.run([p,p2,p3,q,pa,f]{ return ba::parallel_transform<V::iterator,decltype(f),job_t,V::iterator,V::iterator,V::iterator>(q->begin(),f,p->begin(),p->end(),p2->begin(),p3->begin(),pa->cut,"",0); },[&](V::iterator it){ for(int i=0;i<a.n;i++) w[i]=w[i]*3+x[i]-y[i]; same(a,vals(o),w); same(a,it-o.begin(),a.n,"returned position"); a.once(); }); }
OP(14,generate_iterators,OP_FUNC){ V v=input(a); V* p=&v; A* pa=&a; auto cnt=std::make_shared<std::atomic<int>>(0); a.run([p,pa,cnt]{ return ba::parallel_generate(p->begin(),p->end(),[pa,cnt]{ int i=(*cnt)++; pa->hit(i); return el(i+100,i); },pa->cut); },[&]{ auto w=sorted(vals(v)); std::vector<int> x(a.n); std::iota(x.begin(),x.end(),100); same(a,w,x); a.once(); }); }
OP(14,generate_range,OP_FUNC){ V v=input(a); V* p=&v; A* pa=&a; auto cnt=std::make_shared<std::atomic<int>>(0); a.run([p,pa,cnt]{ return ba::parallel_generate(*(const V*)p,[pa,cnt]{ int i=(*cnt)++; pa->hit(i); return el(i+100,i); },pa->cut); },[&]{ auto w=sorted(vals(v)); std::vector<int> x(a.n); std::iota(x.begin(),x.end(),100); same(a,w,x); a.once(); }); }
OP(14,generate_move,OP_FUNC){ V v=input(a); V* p=&v; A* pa=&a; auto cnt=std::make_shared<std::atomic<int>>(0); a.run([p,pa,cnt]{ return ba::parallel_generate(std::move(*p),[pa,cnt]{ int i=(*cnt)++; pa->hit(i); return el(i+100,i); },pa->cut); },[&](V r){ auto w=sorted(vals(r)); std::vector<int> x(a.n); std::iota(x.begin(),x.end(),100); same(a,w,x); a.once(); }); }
}
