// P24: published events reach every live subscription exactly once, in its own thread.
#include "pools.hpp"
#include <set>
#include <map>
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/notification/notification_proxy.hpp>
namespace {
namespace bs = ba::subscription;
typedef bs::exact_topic<std::string> xt; typedef bs::channel_topic<> ct;
const uint64_t never=~0ull;
struct ev0 { int pub; token t{1}; }; struct ev1 { int pub; token t{2}; };
enum { NONE,NEST,UNSUB_SELF,UNSUB_OTHER,RESUB,SHOT,THROW,NACT };
// one subscription / one publication, with the interval each certainly did and certainly did not hold
struct sub { int sched,servant,ev,tt; std::string topic; int act; uint64_t begin=0,done=never,quiet=never,ubegin=never,uend=never; ba::subscription_token tok; std::map<int,uint64_t> got; std::map<uint64_t,int> last; };
struct pub { int sched,ev,tt; std::string topic; bool nested; uint64_t thread; uint64_t begin=0,end=never,quiet=never; };
struct sched { pool_t p; bool pool=false; boost::thread::id id; uint64_t reg[2]={never,never}, regbegin[2]={never,never}; bool alive=true; int npub=0; };
enum { MAXS=40, MAXP=60 };
struct world { std::vector<sched> sc; std::vector<std::unique_ptr<sub>> subs; std::vector<std::unique_ptr<pub>> pubs; std::map<int,uint64_t> dropped; int fuel=6; std::map<uint64_t,int> depth; bool throwing=false; std::size_t got=0; std::vector<std::shared_future<void>> posted; };
world* w; uint64_t now(){ return sim_seq(); }
const char* channels[]={"A","A/B","A/B/C","A/.","./B","B","A/B/D","./."}; const char* plain[]={"t1","t2"};
// reference matching, written from the documentation: same or descendant channel, '.' stands for one level
std::vector<std::string> split(std::string s){ std::vector<std::string> r; std::string c; for(char x:s) if(x=='/'){ r.push_back(c); c.clear(); } else c+=x; r.push_back(c); return r; }
bool linked(int a,int b,uint64_t t){ for(int k=0;k<2;k++) if(w->sc[a].reg[k]<t&&w->sc[b].reg[k]<t) return true; return false; }   // certainly on a common bus since t
bool maybe_linked(int a,int b){ for(int k=0;k<2;k++) if(w->sc[a].regbegin[k]!=never&&w->sc[b].regbegin[k]!=never) return true; return false; }
bool matches(sub& s,pub& p){ if(s.ev!=p.ev||s.tt!=p.tt) return false; if(s.tt==0) return true; if(s.tt==1) return s.topic==p.topic; auto a=split(s.topic),b=split(p.topic); if(b.size()<a.size()) return false; for(std::size_t i=0;i<a.size();i++) if(a[i]!="."&&a[i]!=b[i]) return false; return true; }
struct sv;
void do_publish(sv&,int ev,int tt,std::string topic); int do_subscribe(sv&,int ev,int tt,std::string topic,int act); void do_unsubscribe(sv&,int id);
// records a delivery; returns whether to go on
void delivered(int id,int p,token const& t){ sim::atomic_section s; t.check("deliver"); sub& x=*w->subs[id]; pub& q=*w->pubs[p]; uint64_t n=now(); sim_event("got",id,p);
  if(boost::this_thread::get_id()!=w->sc[x.sched].id) sim_fail("wrong-thread","subscription %d ran outside its servant's thread",id);
  if(!matches(x,q)) sim_fail("wrong-event","publication %d (%s) reached subscription %d (%s)",p,q.topic.c_str(),id,x.topic.c_str());
  if(x.got.count(p)) sim_fail("delivered-twice","publication %d reached subscription %d twice",p,id);
  if(x.uend!=never) sim_fail("delivered-after-end","publication %d reached subscription %d after it was unsubscribed or its servant destroyed",p,id);
  if(q.quiet<x.begin||(q.sched==x.sched&&q.begin<x.begin)) sim_fail("delivered-before-subscription","publication %d was delivered to the later subscription %d",p,id);
  if(q.sched!=x.sched&&!maybe_linked(q.sched,x.sched)) sim_fail("wrong-bus","publication %d reached subscription %d although their schedulers share no bus",p,id);
  w->got++; x.got[p]=n; if(q.sched!=x.sched||!q.nested){ int& l=x.last[q.thread]; if(l>p+1) sim_fail("order","publication %d delivered to subscription %d after %d of the same publisher",p,id,l-1); if(q.sched!=x.sched||l<p+1) l=p+1; }
  if(q.sched!=x.sched) sim_probe("delivered to another scheduler",1); else sim_probe("delivered locally",1); if(w->sc[q.sched].pool) sim_probe("published from a pool",1); }
struct sv : ba::trackable_servant<> { int id,sc; token self;
  sv(ba::any_weak_scheduler<> s,int i,int c):ba::trackable_servant<>(s),id(i),sc(c),self(i){}
  ~sv(){ sim::atomic_section s; uint64_t n=now(); for(auto& x:w->subs) if(x->servant==id){ if(x->ubegin==never) x->ubegin=n; if(x->uend==never) x->uend=n; } sim_event("gone",id,0); }
  void run(std::function<void(sv&)> f){ self.check("call"); f(*this); }
  bool handle(int i,int p,token const& t){ delivered(i,p,t); self.check("deliver to"); sub& x=*w->subs[i]; bool fuel; { sim::atomic_section s; fuel=w->fuel>0; }
    switch(x.act){
      case NEST: if(fuel){ w->fuel--; do_publish(*this,x.ev,x.tt,x.tt==2?"A/B/C":x.topic); } break;
      case UNSUB_SELF: do_unsubscribe(*this,i); break;
      case UNSUB_OTHER: { int o=-1; { sim::atomic_section s; for(auto& y:w->subs) if(y->servant==id&&y.get()!=&x&&y->done!=never&&y->ubegin==never) o=&y-&w->subs[0]; } if(o>=0) do_unsubscribe(*this,o); break; }
      case RESUB: if(fuel){ w->fuel--; do_subscribe(*this,x.ev,x.tt,x.topic,NONE); } break;
      case SHOT: { sim::atomic_section s; x.ubegin=x.uend=now(); sim_probe("single shot",1); return false; }
      case THROW: sim_probe("subscriber threw",1); throw sim_error(i); }
    return true; } };
template<class E> int subscribe_ev(sv& me,int tt,std::string topic,int act,int id){ (void)id;
  sv* m=&me; ba::subscription_token k;
  if(act==SHOT){ if(tt==0) k=me.subscribe([m,id](E const& e){ return m->handle(id,e.pub,e.t); }); else if(tt==1) k=me.subscribe([m,id](E const& e,xt const& t){ if(t.to_string()!=w->pubs[e.pub]->topic) sim_fail("wrong-topic","topic"); return m->handle(id,e.pub,e.t); },xt(topic)); else k=me.subscribe([m,id](E const& e,ct const& t){ if(t.to_string()!=w->pubs[e.pub]->topic) sim_fail("wrong-topic","topic"); return m->handle(id,e.pub,e.t); },ct(topic)); }
  else { if(tt==0) k=me.subscribe([m,id](E const& e){ m->handle(id,e.pub,e.t); }); else if(tt==1) k=me.subscribe([m,id](E const& e,xt const& t){ if(t.to_string()!=w->pubs[e.pub]->topic) sim_fail("wrong-topic","topic"); m->handle(id,e.pub,e.t); },xt(topic)); else k=me.subscribe([m,id](E const& e,ct const& t){ if(t.to_string()!=w->pubs[e.pub]->topic) sim_fail("wrong-topic","topic"); m->handle(id,e.pub,e.t); },ct(topic)); }
  sim::atomic_section s; sub& x=*w->subs[id]; x.tok=k; x.done=now(); if(k.token<0) sim_fail("subscription-refused","no token"); if(w->dropped.count(me.id)&&x.ubegin==never) x.ubegin=x.done; return id; }
int do_subscribe(sv& me,int ev,int tt,std::string topic,int act){ int id; { sim::atomic_section s; if(w->subs.size()>=MAXS) return -1; id=w->subs.size(); w->subs.emplace_back(new sub); sub& x=*w->subs[id]; x.sched=me.sc; x.servant=me.id; x.ev=ev; x.tt=tt; x.topic=topic; x.act=act; x.begin=now(); sim_event("subscribe",id,me.id); sim_event(("  "+topic).c_str(),ev*10+tt,act); }
  return ev?subscribe_ev<ev1>(me,tt,topic,act,id):subscribe_ev<ev0>(me,tt,topic,act,id); }
template<class E> void unsubscribe_ev(sv& me,sub& x){ if(x.tt==0) me.unsubscribe<E>(x.tok); else if(x.tt==1) me.unsubscribe<E>(x.tok,xt(x.topic)); else me.unsubscribe<E>(x.tok,ct(x.topic)); }
void do_unsubscribe(sv& me,int id){ sub& x=*w->subs[id]; { sim::atomic_section s; if(x.servant!=me.id||x.done==never||x.uend!=never) return; x.ubegin=std::min(x.ubegin,now()); sim_event("unsubscribe",id,0); } if(x.ev) unsubscribe_ev<ev1>(me,x); else unsubscribe_ev<ev0>(me,x); sim::atomic_section s; x.uend=std::min(x.uend,now()); }
int new_pub(int sc,int ev,int tt,std::string topic){ sim::atomic_section s; if(w->pubs.size()>=MAXP) return -1; int i=w->pubs.size(); w->pubs.emplace_back(new pub); pub& p=*w->pubs[i]; p.sched=sc; p.ev=ev; p.tt=tt; p.topic=tt?topic:""; p.thread=tid64(); p.nested=w->depth[p.thread]++>0; p.begin=now(); w->sc[sc].npub++; sim_event("publish",i,sc); return i; }
void end_pub(int i){ sim::atomic_section s; w->pubs[i]->end=now(); w->depth[w->pubs[i]->thread]--; }
template<class P> void publish_on(P pb,int i,int tt,std::string const& topic,int ev){ try { if(ev) pb(ev1{i},tt,topic); else pb(ev0{i},tt,topic); } catch(sim_error&){ if(!w->throwing) sim_fail("exception","publish threw"); sim_probe("publish threw",1); } end_pub(i); }
void do_publish(sv& me,int ev,int tt,std::string topic){ int i=new_pub(me.sc,ev,tt,topic); if(i<0) return; publish_on([&me](auto e,int tt,std::string const& t){ if(tt==0) me.publish(std::move(e)); else if(tt==1) me.publish(std::move(e),xt(t)); else me.publish(std::move(e),ct(t)); },i,tt,topic,ev); }
void pool_publish(int sc,int ev,int tt,std::string topic){ auto l=ba::get_thread_scheduler<job_t>().lock(); if(!l.is_valid()) return; int i=new_pub(sc,ev,tt,topic); if(i<0) return; publish_on([&l](auto e,int tt,std::string const& t){ if(tt==0) l.publish(std::move(e)); else if(tt==1) l.publish(std::move(e),xt(t)); else l.publish(std::move(e),ct(t)); },i,tt,topic,ev); }
class px : public ba::servant_proxy<px,sv> { public: template<class S> px(S s,int i,int c):ba::servant_proxy<px,sv>(s,i,c){} BOOST_ASYNC_FUTURE_MEMBER(run) };
// everything posted so far, and what that posted, has run
void settle(){ std::vector<std::shared_future<void>> f0; { sim::atomic_section s; f0.swap(w->posted); } for(auto& f:f0) f.wait();
  std::size_t before=0; for(int quiet=0;quiet<2;){ for(auto& s:w->sc) if(s.alive){ auto f=s.p.execute_in_all_threads(ba::any_callable([]{})); for(auto& x:f) x.wait(); if(!s.pool) ba::post_future(s.p,[]{}).wait(); }
    sim::atomic_section g; std::size_t n=w->subs.size()+w->pubs.size()+w->got; if(n==before) quiet++; else quiet=0; before=n; } }
void verify(){ sim::atomic_section s; uint64_t n=now();
  for(auto& pp:w->pubs) if(pp->quiet==never){ pub& p=*pp; int pi=&pp-&w->pubs[0]; if(p.end==never) sim_fail("publish-stuck","publication %d never ends",pi);
    for(auto& xx:w->subs){ sub& x=*xx; int xi=&xx-&w->subs[0]; if(!matches(x,p)) continue; bool local=x.sched==p.sched;
      bool must= local? x.done<p.begin&&x.ubegin>p.end : x.quiet<p.begin&&x.ubegin==never&&linked(x.sched,p.sched,p.begin)&&w->sc[x.sched].alive;
      if(local&&x.act==SHOT&&x.got.empty()&&x.done<p.begin&&x.ubegin==never) must=true;
      if(must&&!x.got.count(pi)) sim_fail("event-lost","publication %d (scheduler %d, '%s') never reached subscription %d (servant %d in scheduler %d, '%s')",pi,p.sched,p.topic.c_str(),xi,x.servant,x.sched,x.topic.c_str()); }
    p.quiet=n; }
  for(auto& x:w->subs) if(x->done!=never&&x->quiet==never) x->quiet=n; }
struct op { int kind,servant,ev,tt,act,a,b; bool wait; };
op draw(int nserv){ op o; o.kind=sim_pick(8); o.servant=sim_pick(nserv); o.ev=sim_pick(4)==3; o.tt=sim_pick(3); int a=sim_pick(4); o.act=a==3?1+sim_pick(5):w->throwing&&a==2?THROW:0; o.a=sim_pick(8); o.b=sim_pick(8); o.wait=sim_pick(2); return o; }
std::string topic_of(int tt,int a){ return tt==0?"":tt==1?plain[a%2]:channels[a]; }
std::string pub_topic(int tt,int a){ static const char* c[]={"A","A/B","A/B/C","A/D","C/B","B","A/B/D","A/B/C/D"}; return tt==0?"":tt==1?plain[a%2]:c[a]; }
void scenario(int nsched,bool withpool,bool concurrent,bool throwing){ world W; w=&W; W.throwing=throwing; W.subs.reserve(MAXS); W.pubs.reserve(MAXP); { 
    pool_t busthread=pool_pick(PK_SINGLE|PK_FIFO,PK_SPSC|PK_PRIO|PK_DYN)->make(1); pool_t busworkers=pool_pick(PK_SINGLE,PK_SPSC)->make(1); std::shared_ptr<bs::notification_proxy<>> bus[2]; 
    for(int i=0;i<nsched;i++){ pool_kind* k=pool_pick(PK_SINGLE|PK_FIFO,PK_SPSC|PK_PRIO|PK_DYN); sim_probe(k->name,1); sim_event(k->name,0,0); sched s; s.p=k->make(1); s.id=s.p.thread_ids()[0]; W.sc.push_back(std::move(s)); }
    if(withpool){ pool_kind* k=pool_pick(0,PK_SPSC|PK_PRIO|PK_DYN|PK_SINGLE); sim_probe(k->name,1); sim_event(k->name,0,0); sched s; s.p=k->make(1+sim_pick(2)); s.pool=true; W.sc.push_back(std::move(s)); }
    int buses=nsched+withpool>1?1+sim_pick(2):0; for(int b=0;b<buses;b++) bus[b]=std::make_shared<bs::notification_proxy<>>(busthread,busworkers); if(buses==2) sim_probe("two buses",1);
    std::vector<std::shared_ptr<px>> servants; std::vector<int> home; for(int i=0;i<nsched;i++){ int n=1+sim_pick(2); for(int j=0;j<n;j++) { home.push_back(i); servants.push_back(std::make_shared<px>(W.sc[i].p,(int)servants.size(),i)); } } int ns=servants.size();
    auto reg=[&](int i,int b){ if(!bus[b]||W.sc[i].reg[b]!=never||!W.sc[i].alive) return; { sim::atomic_section s; W.sc[i].regbegin[b]=now(); } auto f=bs::register_scheduler_to_notification(W.sc[i].p.get_weak_scheduler(),bus[b],true); f.get(); settle(); sim::atomic_section s; W.sc[i].reg[b]=now(); sim_event("registered",i,b); };
    for(int i=0;i<(int)W.sc.size();i++) for(int b=0;b<buses;b++) if(sim_pick(4)!=3) reg(i,b);
    auto exec=[&](op o,bool may_drop){ 
        if(o.kind>=3&&o.kind<5&&withpool&&o.b%2){ int pi=W.sc.size()-1; auto f=ba::post_future(W.sc[pi].p,[o,pi]{ pool_publish(pi,o.ev,o.tt,pub_topic(o.tt,o.a)); }).share(); if(o.wait) f.wait(); sim::atomic_section s; W.posted.push_back(f); return; }
        std::shared_ptr<px> s; { sim::atomic_section g; if(o.kind==7){ if(may_drop&&o.b<3&&servants[o.servant]){ s=std::move(servants[o.servant]); servants[o.servant].reset(); uint64_t n=now(); W.dropped[o.servant]=n; for(auto& x:W.subs) if(x->servant==o.servant&&x->ubegin==never) x->ubegin=n; sim_event("drop",o.servant,0); } } else s=servants[o.servant]; }
        if(o.kind==7){ if(s) sim_probe("servant dropped",1); s.reset(); return; } if(!s) return;
        std::function<void(sv&)> f;
        if(o.kind<3) f=[o](sv& v){ do_subscribe(v,o.ev,o.tt,topic_of(o.tt,o.a),o.act); };
        else if(o.kind<6) f=[o](sv& v){ do_publish(v,o.ev,o.tt,pub_topic(o.tt,o.a)); };
        else f=[o](sv& v){ std::vector<int> c; { sim::atomic_section g; for(std::size_t i=0;i<w->subs.size();i++) if(w->subs[i]->servant==v.id&&w->subs[i]->done!=never&&w->subs[i]->uend==never) c.push_back(i); } if(!c.empty()) do_unsubscribe(v,c[o.b%c.size()]); };
        auto fu=s->run(f); if(o.wait) fu.wait(); };
    int phases=1+sim_pick(4);
    for(int ph=0;ph<phases;ph++){
      if(concurrent&&sim_pick(2)){ int nc=2+sim_pick(2); std::vector<std::vector<op>> plan(nc); for(auto& q:plan){ int n=1+sim_pick(4); for(int i=0;i<n;i++) q.push_back(draw(ns)); }
        std::vector<client> cs; for(int c=0;c<nc;c++) cs.emplace_back([&,c]{ for(auto& o:plan[c]) exec(o,true); }); for(auto& c:cs) c.join(); sim_probe("concurrent phase",1); }
      else { int n=1+sim_pick(12); for(int i=0;i<n;i++){ exec(draw(ns),true); if(sim_pick(2)){ settle(); verify(); } } }
      settle(); verify();
      for(int i=0;i<(int)W.sc.size();i++) for(int b=0;b<buses;b++) if(W.sc[i].reg[b]==never&&sim_pick(2)){ reg(i,b); settle(); verify(); sim_probe("late registration",1); }
      // a scheduler goes away, the others go on
      if(nsched>1&&sim_pick(6)==5){ int i=sim_pick(nsched); int left=0; for(int j=0;j<nsched;j++) left+=W.sc[j].alive; if(W.sc[i].alive&&left>1){ { sim::atomic_section s; W.sc[i].alive=false; uint64_t n=now(); for(auto& x:W.subs) if(x->sched==i) x->ubegin=std::min(x->ubegin,n); }
          for(int j=0;j<ns;j++) if(home[j]==i) servants[j].reset();
          W.sc[i].p.reset(); sim_probe("scheduler destroyed",1); settle(); verify(); } } }
    settle(); verify();
    servants.clear(); settle(); for(auto& b:bus) b.reset(); busthread.reset(); busworkers.reset(); for(auto& s:W.sc) s.p.reset(); }
  sim_sleep(500*sim::ms); for(auto& x:W.subs) if(x->uend==never) sim_fail("servant-leak","a servant was never destroyed"); W.sc.clear(); W.subs.clear(); W.pubs.clear(); expect_no_leak("events and servants"); }
}
SIM_SCENARIO(P24,local,0,3){ scenario(1,false,false,false); }
SIM_SCENARIO(P24,bus,0,5){ scenario(2+sim_pick(2),false,false,false); }
SIM_SCENARIO_L(P24,concurrent,0,5,20000000){ scenario(1+sim_pick(3),sim_pick(2),true,false); }
SIM_SCENARIO_L(P24,throwing,0,2,20000000){ scenario(1+sim_pick(2),sim_pick(2),false,true); }
