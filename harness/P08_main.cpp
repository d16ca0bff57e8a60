// P08: every queue type is linearizable; elements are never lost, duplicated or leaked.
#include "pools.hpp"
#include <boost/asynchronous/queue/queue_converter.hpp>
#include <set>
namespace {
struct E { token tok; int v; std::unique_ptr<int> heap; sim_cell* cell; E():v(-1),cell(nullptr){} E(int i,sim_cell* c):tok(i),v(i),heap(new int(i)),cell(c){}
  E(E const& o):tok(o.tok),v(o.v),heap(o.heap?new int(*o.heap):nullptr),cell(o.cell){} E(E&&)=default; E& operator=(E&&)=default;
  E& operator=(E const& o){ E t(o); *this=std::move(t); return *this; }
  void check(){ tok.check("popped"); if(!heap||*heap!=v||tok.id!=v) sim_fail("corrupt","popped element %d is not what was pushed",v); sim_cell_read(cell,"element payload"); } };
typedef ba::any_queue_concept<E> Q; typedef std::shared_ptr<Q> QP;
enum { FIFO=1,LIFO=2,SPSC=4,NOSTEAL=8 };
struct qk { const char* name; QP (*make)(); unsigned fl; };
const qk qs[]={
 {"lockfree16",[]{ return QP(std::make_shared<ba::lockfree_queue<E>>()); },FIFO},
 {"lockfree1",[]{ return QP(std::make_shared<ba::lockfree_queue<E,ba::lockfree_size>>(1)); },FIFO},
 {"lockfree-max",[]{ return QP(std::make_shared<ba::lockfree_queue<E,ba::lockfree_size_max_size>>(2)); },FIFO},
 {"stack",[]{ return QP(std::make_shared<ba::lockfree_stack<E>>()); },LIFO},
 {"stack1",[]{ return QP(std::make_shared<ba::lockfree_stack<E,ba::lockfree_size>>(1)); },LIFO},
 {"spsc",[]{ return QP(std::make_shared<ba::lockfree_spsc_queue<E>>()); },FIFO|SPSC|NOSTEAL},
 {"spsc2",[]{ return QP(std::make_shared<ba::lockfree_spsc_queue<E,ba::lockfree_size_max_size>>(2)); },FIFO|SPSC|NOSTEAL},
 {"guarded",[]{ return QP(std::make_shared<ba::guarded_deque<E>>()); },FIFO},
 {"list",[]{ return QP(std::make_shared<ba::threadsafe_list<E>>()); },FIFO},
 {"circular1",[]{ return QP(std::make_shared<ba::circular_queue<E>>(1)); },FIFO},
 {"circular3",[]{ return QP(std::make_shared<ba::circular_queue<E>>(3)); },FIFO},
 {"container",[]{ return QP(std::make_shared<ba::any_queue_container<E>>(ba::any_queue_container_config<ba::lockfree_queue<E>>(1))); },FIFO},
};
enum { PUSH,PUSHC,PUSHP,TRYPOP,POP,STEAL,CONV };
struct op { int kind,v; uint64_t call,ret; int res; };   // res: popped value, -1 empty, -2 threw
struct hist { op o[40]; int n=0; uint64_t clk=0; };
struct lin { op* o; int n; bool lifo; std::set<std::pair<uint64_t,std::vector<int>>> seen;
  bool go(uint64_t mask,std::vector<int>& st){ if(mask==(1ull<<n)-1) return true; if(!seen.insert({mask,st}).second) return false;
    uint64_t minret=~0ull; for(int i=0;i<n;i++) if(!(mask>>i&1)&&o[i].ret<minret) minret=o[i].ret;
    for(int i=0;i<n;i++){ if(mask>>i&1||o[i].call>minret) continue; op& x=o[i]; bool push=x.kind<=PUSHP;
      if(push){ st.push_back(x.v); if(go(mask|1ull<<i,st)) return true; st.pop_back(); }
      else if(x.res==-1){ if(st.empty()&&go(mask|1ull<<i,st)) return true; }
      else { if(st.empty()) continue; int v=lifo?st.back():st.front(); if(v!=x.res) continue; if(lifo) st.pop_back(); else st.erase(st.begin()); if(go(mask|1ull<<i,st)) return true; if(lifo) st.push_back(v); else st.insert(st.begin(),v); } }
    return false; } };
void run(bool faults){
  const qk& k=qs[sim_pick(sizeof qs/sizeof*qs)]; sim_probe(k.name,1); QP q=k.make(); std::shared_ptr<ba::queue_converter<E,E>> conv(new ba::queue_converter<E,E>(ba::any_queue_ptr<E>(q)));
  hist h; std::vector<sim_cell> cells(64); for(auto& c:cells) sim_cell_init(&c); int nt=2+sim_pick(3); if(k.fl&SPSC) nt=2; int total=0; int nextv=0; std::vector<std::vector<std::pair<int,int>>> plan(nt);
  for(int t=0;t<nt;t++){ int n=1+sim_pick(5); if(k.fl&SPSC) n=2+sim_pick(5); for(int i=0;i<n&&total<14;i++,total++){ int kd; if(k.fl&SPSC) kd=t==0?(int)sim_pick(3):TRYPOP+(int)sim_pick(2); else { static const int w[]={PUSH,PUSHC,PUSHP,PUSH,TRYPOP,TRYPOP,POP,STEAL,TRYPOP,CONV}; kd=w[sim_pick(10)]; } plan[t].push_back({kd,kd<=PUSHP?nextv++:0}); } }
  if(faults){ sim_fault_budget(SF_ALLOC,3); }
  int threw=0;
  auto exec=[&](int kd,int v){ int i; { sim::atomic_section s; i=h.n++; h.o[i]=op{kd,v,++h.clk,~0ull,-3}; } int res=-1;
    try{ switch(kd){
      case PUSH: case PUSHC: case PUSHP: { sim_cell_write(&cells[v],"element payload"); E e(v,&cells[v]); if(faults) sim_alloc_window(1); if(kd==PUSH) q->push(std::move(e)); else if(kd==PUSHC){ E c(e); q->push(std::move(c),0); } else q->push(std::move(e),1); break; }
      case TRYPOP: { E e; if(faults) sim_alloc_window(1); if(q->try_pop(e)){ if(faults) sim_alloc_window(0); e.check(); res=e.v; } break; }
      case STEAL: { E e; if(faults) sim_alloc_window(1); if(q->try_steal(e)){ if(faults) sim_alloc_window(0); e.check(); res=e.v; } break; }
      case CONV: { E e; if(q->try_steal(e)){ e.check(); res=e.v; } break; }
      default: { if(faults) sim_alloc_window(1); E e(q->pop()); if(faults) sim_alloc_window(0); e.check(); res=e.v; } } }
    catch(std::bad_alloc&){ res=-2; }
    if(faults) sim_alloc_window(0);
    { sim::atomic_section s; h.o[i].res=res; h.o[i].ret=++h.clk; if(res==-2) threw++; } };
  { std::vector<client> cs; std::vector<int> fin(nt,0); for(int t=0;t<nt;t++) cs.emplace_back([&,t]{ for(auto& p:plan[t]){ exec(p.first,p.second); if((p.second&3)==3) sim_point(); }
      // the bounded single-producer queue: somebody has to make room
      if(t==1&&(k.fl&SPSC)) for(;;){ { sim::atomic_section s; if(fin[0]) break; } if(h.n<36) exec(TRYPOP,0); else { E e; q->try_pop(e); sim_fail("stuck","push into a drained queue does not return"); } sim_sleep(3*sim::ms); }
      sim::atomic_section s; fin[t]=1; });
    // blocked poppers: only legitimate while the queue is empty
    auto alldone=[&]{ for(int f:fin) if(!f) return false; return true; };
    for(int round=0;round<40;round++){ bool done=wait_for(alldone,12,10*sim::ms); if(done) break; 
      int in=0,out=0,blocked=0; { sim::atomic_section s; for(int i=0;i<h.n;i++){ op& x=h.o[i]; if(x.ret==~0ull){ blocked++; if(x.kind!=POP) sim_fail("stuck","a non-blocking operation (kind %d) does not return",x.kind); } else if(x.res==-2) ; else if(x.kind<=PUSHP) in++; else if(x.res>=0) out++; } }
      if(alldone()) break; if(in>out) sim_fail("lost-wakeup","%s: pop() stays blocked although %d element(s) are in the queue",k.name,in-out); if(nextv>=60||h.n>=38) sim_fail("stuck","pop() stays blocked"); sim_probe("blocking pop released",1); int v; { sim::atomic_section s; v=nextv++; } exec(PUSH,v); }
    for(auto& c:cs) c.join(); }
  // what is left comes out in order
  bool drain=sim_pick(3)!=0; if(drain) for(;h.n<40;){ exec(TRYPOP,0); if(h.o[h.n-1].res==-1) break; }
  { sim::atomic_section s; int m=0; for(int i=0;i<h.n;i++){ if(h.o[i].res==-2) continue; h.o[m++]=h.o[i]; } h.n=m;
    std::set<int> got; for(int i=0;i<m;i++) if(h.o[i].kind>PUSHP&&h.o[i].res>=0){ if(!got.insert(h.o[i].res).second) sim_fail("duplicated","element %d taken twice",h.o[i].res); }
    if(drain&&(m==0||h.o[m-1].res==-1)) for(int i=0;i<m;i++) if(h.o[i].kind<=PUSHP&&!got.count(h.o[i].v)) sim_fail("lost","%s: element %d never came out",k.name,h.o[i].v);
    lin l; l.o=h.o; l.n=h.n; l.lifo=(k.fl&LIFO)!=0; std::vector<int> st; if(!l.go(0,st)){ char b[900]; int p=0; for(int i=0;i<h.n&&p<800;i++) p+=snprintf(b+p,sizeof b-p,"%s(%d)=%d[%d,%d] ",h.o[i].kind<=PUSHP?"push":"pop",h.o[i].v,h.o[i].res,(int)h.o[i].call,(int)h.o[i].ret); sim_fail("not-linearizable","%s: %s",k.name,b); } }
  sim_faults_off(); conv.reset(); q.reset(); expect_no_leak("elements");
}
}
SIM_SCENARIO(P08,linearizable,SIM_HB,10){ run(false); }
SIM_SCENARIO(P08,alloc_failure,SIM_HB,3){ run(true); }
