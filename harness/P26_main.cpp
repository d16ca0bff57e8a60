// FLAGS: -DBOOST_ASYNCHRONOUS_USE_DEFAULT_ARCHIVE=1
// P26: jobs served over TCP complete at most once, with their own result, and all of them unless handed to a connection which failed.
#include "common.hpp"
#include <sstream>
#include <iomanip>
#include <set>
#include <boost/serialization/string.hpp>
#include <boost/asynchronous/queue/lockfree_queue.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/scheduler/single_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/tcp/tcp_server_scheduler.hpp>
#include <boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp>
#include <boost/asynchronous/scheduler/serializable_task.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/any_serializable.hpp>
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/continuation_task.hpp>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
extern "C" unsigned long long sim_net_resets();
namespace {
typedef ba::any_serializable sjob; typedef ba::any_shared_scheduler_proxy<sjob> spool; typedef ba::any_shared_scheduler_proxy<> pool;
typedef std::function<void(ba::tcp::client_request const&)> done_t;
enum { MAXJ=24, PORT=12345 };
enum how { BY_FUTURE, BY_CALLBACK };
struct jrec { int behaviour=0, n=0; int exec=0, running=0, done=0; bool value=false, broken=false; int held_dead=0, undecodable=0, raw=0; int parts=0; };
struct world { jrec j[MAXJ]; int nj=0; int unknown_lost=0; int raw_taken=0; bool stop=false; int delays=0; bool rogue=false; };
world* W;
std::string result_of(int id,int n){ std::string s="r"+std::to_string(id)+":"; s+=std::string(n,(char)('a'+id%26)); return s; }
void started(int id){ sim::atomic_section s; jrec& x=W->j[id]; sim_event("execute",id,0); if(++x.exec>1) sim_fail("executed-twice","job %d is executed for the %d. time",id,x.exec); }
void completed(int id,std::string const* v,std::string const* ex,bool broken){ sim::atomic_section s; jrec& x=W->j[id]; sim_event("complete",id,v?1:ex?2:3);
  if(++x.done>1) sim_fail("completed-twice","the outcome of job %d was delivered %d times",id,x.done);
  x.broken=broken; if(broken) return;
  if(!x.exec&&!x.raw&&!(x.behaviour==99&&ex)) sim_fail("completed-unexecuted","job %d completed but was never executed",id);
  if(v){ if(x.behaviour==1) sim_fail("wrong-outcome","job %d reports success although it threw",id); if(*v!=result_of(id,x.n)&&!x.undecodable) sim_fail("wrong-outcome","job %d got the result '%.40s'",id,v->c_str()); x.value=true; }
  if(ex){ if(x.undecodable) return; if(x.behaviour!=1&&x.behaviour!=99) sim_fail("wrong-outcome","job %d fails with '%.60s' although it succeeded",id,ex->c_str()); std::string e="e"+std::to_string(id); if(*ex!=e) sim_fail("wrong-outcome","job %d fails with '%.60s', not its own exception",id,ex->c_str()); } }
struct jerror : std::exception { std::string s; explicit jerror(int id):s("e"+std::to_string(id)){} const char* what()const noexcept override { return s.c_str(); } };
// the distributed task
struct jtask : ba::serializable_task { int id; int behaviour; int n; std::string ballast;
  jtask(int i=0,int b=0,int k=0):ba::serializable_task("jtask"),id(i),behaviour(b),n(k),ballast(k,'x'){}
  template<class A> void serialize(A& ar,const unsigned int){ if constexpr(A::is_saving::value) if(behaviour==99) { sim_probe("job which cannot be serialized",1); throw jerror(id); } ar & id; ar & behaviour; ar & n; ar & ballast; }
  std::string operator()()const{ started(id); if((int)ballast.size()!=n) sim_fail("corrupt-job","job %d arrived with %zu of %d bytes",id,ballast.size(),n); if(behaviour>=2&&behaviour<99) boost::this_thread::sleep_for(boost::chrono::milliseconds(behaviour)); if(behaviour==1) throw jerror(id); return result_of(id,n); } };
// a task which splits itself: its parts are stealable too
struct part_task : ba::continuation_task<long>, ba::serializable_task { int id; int depth; int fail;
  part_task(int i=0,int d=0,int f=0):ba::continuation_task<long>("part"),ba::serializable_task("part"),id(i),depth(d),fail(f){}
  template<class A> void save(A& ar,const unsigned int)const{ ar & id; ar & depth; ar & fail; }
  template<class A> void load(A& ar,const unsigned int){ ar & id; ar & depth; ar & fail; }
  BOOST_SERIALIZATION_SPLIT_MEMBER()
  void operator()()const{ ba::continuation_result<long> r=this->this_task_result(); { sim::atomic_section s; W->j[id].parts++; }
    if(depth==0){ if(fail==2) throw jerror(id); if(fail==3){ r.set_exception(std::make_exception_ptr(jerror(id))); return; } r.set_value(1); } else ba::create_callback_continuation_job<sjob>([r](std::tuple<ba::expected<long>,ba::expected<long>> x)mutable{ try{ r.set_value(std::get<0>(x).get()+std::get<1>(x).get()); }catch(...){ r.set_exception(std::current_exception()); } },part_task(id,depth-1,fail),part_task(id,depth-1,0)); } };
struct tree_task : ba::serializable_task { int id; int depth; int fail; tree_task(int i=0,int d=0,int f=0):ba::serializable_task("tree"),id(i),depth(d),fail(f){}
  template<class A> void serialize(A& ar,const unsigned int){ ar & id; ar & depth; ar & fail; }
  auto operator()()const -> decltype(ba::top_level_callback_continuation_job<long,sjob>(part_task(0,0))){ started(id); if(fail==1) throw jerror(id); return ba::top_level_callback_continuation_job<long,sjob>(part_task(id,depth,fail)); } };
void execute(std::string const& n,ba::tcp::server_reponse r,done_t d){
  if(n=="jtask"){ jtask t; ba::tcp::deserialize_and_call_task(t,r,d); }
  else if(n=="tree"){ tree_task t; ba::tcp::deserialize_and_call_top_level_callback_continuation_task(t,r,d); }
  else if(n=="part"){ part_task t; ba::tcp::deserialize_and_call_callback_continuation_task<part_task,sjob>(t,r,d); }
  else if(W->rogue&&n=="nosuchtask") throw std::runtime_error("unknown task");
  else sim_fail("wrong-task-name","a client received a task called '%.40s'",n.c_str()); }
struct S : ba::trackable_servant<ba::any_callable,sjob> { typedef int requires_weak_scheduler; boost::thread::id me; std::shared_ptr<token> tok;
  S(ba::any_weak_scheduler<> s,spool w,std::shared_ptr<token> k):ba::trackable_servant<ba::any_callable,sjob>(s,w),me(boost::this_thread::get_id()),tok(k){}
  void go(int id,int b,int n){ post_callback(jtask(id,b,n),[this,id](ba::expected<std::string> r){ if(boost::this_thread::get_id()!=me) sim_fail("wrong-thread","the callback of job %d runs in another thread",id); tok->check("callback of"); if(r.has_exception()){ try{ std::rethrow_exception(r.get_exception_ptr()); }catch(ba::tcp::transport_exception& e){ std::string w=e.what(); completed(id,nullptr,&w,false); }catch(jerror& e){ std::string w=e.what(); completed(id,nullptr,&w,false); } catch(std::exception& e){ std::string w=e.what(); completed(id,nullptr,&w,true); } } else { std::string v=r.get(); completed(id,&v,nullptr,false); } },std::string("go"),0,0); } };
struct P : ba::servant_proxy<P,S> { P(pool s,spool w,std::shared_ptr<token> k):ba::servant_proxy<P,S>(s,w,k){} BOOST_ASYNC_POST_MEMBER(go) };

// ---------------------------------------------------------------- servers and clients of the library
// the server polls its queue without a pause; this queue makes it pause, so that virtual time passes
struct polled_queue : ba::lockfree_queue<sjob> { bool try_pop(sjob& j){ if(ba::lockfree_queue<sjob>::try_pop(j)) return true; boost::this_thread::sleep_for(boost::chrono::milliseconds(2)); return false; } };
pool callable_pool(int n){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<>>>(n); }
spool tcp_pool(pool w){ return ba::make_shared_scheduler_proxy<ba::tcp_server_scheduler<polled_queue>>(w,"localhost",(unsigned)PORT); }
spool tcp_stealing(pool w,int port=PORT){ return ba::make_shared_scheduler_proxy<ba::tcp_server_scheduler<polled_queue,ba::any_callable,true>>(w,"localhost",(unsigned)port); }
struct real_client { virtual ~real_client(){} };
template<class Policy,class Job=ba::any_callable> struct rc : real_client { ba::tcp::simple_tcp_client_proxy_ext<Policy,sjob,Job> p; std::future<std::future<void>> f;
  template<class... A> rc(pool a,ba::any_shared_scheduler_proxy<Job> w,int port,A... x):p(a,w,"localhost",std::to_string(port),std::function<void(std::string const&,ba::tcp::server_reponse,done_t)>(&execute),x...),f(p.run()){} };
std::unique_ptr<real_client> make_client(){ pool a=ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>(1); int every=2+sim::pick(3)*4;
  if(sim::pick(3)==0){ sim_probe("queue-size client",1); pool w=ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<ba::any_callable,ba::lockfree_size>>>(1+sim::pick(2)); return std::unique_ptr<real_client>(new rc<ba::tcp::queue_size_check_policy<>>(a,w,PORT,(long)every,1u+sim::pick(2))); }
  sim_probe("timed client",1); return std::unique_ptr<real_client>(new rc<ba::tcp::client_time_check_policy<>>(a,callable_pool(1+sim::pick(2)),PORT,(long)every)); }
// ---------------------------------------------------------------- scripted clients speaking the protocol themselves
struct raw { int fd=-1;
  bool open(){ fd=::socket(AF_INET,SOCK_STREAM,0); sockaddr_in a{}; a.sin_family=AF_INET; a.sin_port=htons(PORT); a.sin_addr.s_addr=htonl(INADDR_LOOPBACK); if(::connect(fd,(sockaddr*)&a,sizeof a)<0){ shut(); return false; } return true; }
  void shut(){ if(fd>=0) ::close(fd); fd=-1; }
  ~raw(){ shut(); }
  bool put(std::string const& s,size_t upto,int chunk){ size_t o=0; while(o<upto){ size_t n=chunk?std::min<size_t>(chunk,upto-o):upto-o; ssize_t r=::send(fd,s.data()+o,n,0); if(r<=0) return false; o+=r; if(chunk) sim_sleep(sim::ms); } return true; }
  bool get(std::string& s,size_t n){ s.clear(); while(s.size()<n){ char b[512]; ssize_t r=::recv(fd,b,std::min<size_t>(sizeof b,n-s.size()),0); if(r<=0) return false; s.append(b,r); } return true; }
  static std::string frame(std::string const& body){ std::ostringstream h; h<<std::setw(10)<<std::hex<<body.size(); return h.str()+body; }
  static std::string msg(ba::tcp::client_request const& r){ std::ostringstream o; { sjob::oarchive a(o); a<<r; } return frame(o.str()); } };
ba::tcp::client_request result(long tid,int id,int b,int n){ ba::tcp::client_request q(BOOST_ASYNCHRONOUS_TCP_CLIENT_JOB_RESULT); q.m_task_id=tid; if(b==1){ q.m_load.m_has_exception=true; q.m_load.m_exception=ba::tcp::transport_exception("e"+std::to_string(id)); } else { std::ostringstream o; { sjob::oarchive a(o); std::string r=result_of(id,n); a<<r; } q.m_load.m_data=o.str(); } return q; }
struct script { int acts[6]; int n; };
script make_script(){ script s; s.n=1+sim::pick(5); for(int i=0;i<s.n;i++) s.acts[i]=sim::pick(12); return s; }
void raw_client(script sc){ raw c; std::vector<std::pair<long,jtask>> held; auto die=[&]{ sim::atomic_section s; for(auto& h:held) W->j[h.second.id].held_dead=1; held.clear(); };
  auto ensure=[&]{ for(int i=0;i<20&&c.fd<0;i++) if(!c.open()) sim_sleep(5*sim::ms); return c.fd>=0; };
  auto drop=[&]{ die(); c.shut(); };
  auto ask=[&](int chunk)->bool{ { sim::atomic_section s; W->unknown_lost++; } if(!c.put(raw::msg(ba::tcp::client_request(BOOST_ASYNCHRONOUS_TCP_CLIENT_GET_JOB)),raw::msg(ba::tcp::client_request(BOOST_ASYNCHRONOUS_TCP_CLIENT_GET_JOB)).size(),chunk)){ drop(); return false; }
    std::string h,b; if(!c.get(h,10)){ drop(); return false; } size_t len=0; std::istringstream is(h); if(!(is>>std::hex>>len)||len>200000) sim_fail("bad-frame","a client received the header '%s'",h.c_str()); if(!c.get(b,len)){ drop(); return false; }
    { sim::atomic_section s; W->unknown_lost--; }
    ba::tcp::server_reponse r(0,"",""); std::istringstream bs(b); { sjob::iarchive a(bs); a>>r; } if(r.m_task.empty()) return true; if(r.m_task_name!="jtask") sim_fail("wrong-task-name","a client received a task called '%.40s'",r.m_task_name.c_str()); jtask t; { std::istringstream ts(r.m_task); sjob::iarchive a(ts); a>>t; }
    { sim::atomic_section s; jrec& x=W->j[t.id]; if(++x.raw+x.exec>1) sim_fail("handed-twice","job %d was given to two clients",t.id); W->raw_taken++; if((int)t.ballast.size()!=t.n) sim_fail("corrupt-job","job %d arrived with %zu of %d bytes",t.id,t.ballast.size(),t.n); } held.emplace_back(r.m_task_id,t); return true; };
  auto send=[&](std::string const& m,int chunk){ if(!c.put(m,m.size(),chunk)){ drop(); return false; } return true; };
  for(int i=0;i<sc.n&&!W->stop;i++){ if(!ensure()) break; int a=sc.acts[i]; sim_event("raw act",a,held.size());
    switch(a){
    case 0: case 1: ask(0); break;
    case 2: ask(3); break;
    case 3: case 4: if(!held.empty()){ auto h=held.front(); { sim::atomic_section s; } if(send(raw::msg(result(h.first,h.second.id,h.second.behaviour,h.second.n)),a==4?7:0)&&c.fd>=0){ sim_probe("raw result",1); /* if the connection is lost now, the result may be lost too */ { sim::atomic_section s; W->j[h.second.id].held_dead=1; } held.erase(held.begin()); } } break;
    case 5: if(!held.empty()){ auto h=held.front(); std::string m=raw::msg(result(h.first,h.second.id,h.second.behaviour,h.second.n)); { sim::atomic_section s; W->j[h.second.id].held_dead=1; } held.erase(held.begin()); sim_probe("raw duplicate result",1); for(int k=0;k<2+(h.second.n&1);k++) if(!send(m,0)) break; } break;
    case 6: sim_probe("raw unknown result",1); send(raw::msg(result(100000+i,0,0,3)),0); break;
    case 7: { static const char* g[]={"zzzzzzzzzzgarbage which is no message","ffffffffffa length nobody can allocate","        -1a negative length","         0"}; sim_probe("raw garbage",1); int k=(i+sc.n)&3; if(k) sim_probe("raw impossible length",1); send(g[k],0); if(!k||(sc.acts[0]&1)) drop(); break; }
    case 8: sim_probe("raw garbage body",1); send(raw::frame("22 serialization::archive nonsense"),0); break;
    case 9: { sim_probe("raw cut message",1); std::string m=held.empty()?raw::msg(ba::tcp::client_request(BOOST_ASYNCHRONOUS_TCP_CLIENT_GET_JOB)):raw::msg(result(held[0].first,held[0].second.id,held[0].second.behaviour,held[0].second.n)); c.put(m,1+(i*7919+sc.n*31)%(m.size()-1),0); drop(); break; }
    case 10: sim_probe("raw disconnect",1); drop(); break;
    case 11: if(!held.empty()){ auto h=held.front(); { sim::atomic_section s; W->j[h.second.id].undecodable=1; W->j[h.second.id].held_dead=1; } auto q=result(h.first,h.second.id,0,h.second.n); q.m_load.m_data="junk"; sim_probe("raw undecodable result",1); held.erase(held.begin()); send(raw::msg(q),0); } else send(raw::frame(""),0); break;
    }
    sim_sleep((1+i)*3*sim::ms); }
  // honest ones return what they still hold
  if(c.fd>=0&&sc.acts[0]%2==0) for(auto& h:held){ { sim::atomic_section s; W->j[h.second.id].held_dead=1; } if(!send(raw::msg(result(h.first,h.second.id,h.second.behaviour,h.second.n)),0)) break; }
  // let the server read before closing
  if(c.fd>=0&&sc.acts[0]%2==0) sim_sleep(200*sim::ms);
  drop(); }
// ---------------------------------------------------------------- posting
struct poster { std::vector<std::pair<int,std::future<std::string>>> f; };
int new_job(){ sim::atomic_section s; if(W->nj>=MAXJ) return -1; int i=W->nj++; jrec& x=W->j[i]; return i; }
void describe(int i,bool big){ jrec& x=W->j[i]; int k=sim::pick(6); x.behaviour=k==1?1:k==2?2+sim::pick(20):0; x.n=big&&sim::pick(4)==0?300+sim::pick(3000):sim::pick(4); }
void spoil(int i){ if(sim::pick(8)==7) W->j[i].behaviour=99; }
void collect(poster& p){ for(auto& x:p.f){ if(x.second.wait_for(std::chrono::seconds(0))!=std::future_status::ready) continue; try{ std::string v=x.second.get(); completed(x.first,&v,nullptr,false); }catch(ba::tcp::transport_exception& e){ std::string w=e.what(); completed(x.first,nullptr,&w,false); }catch(jerror& e){ std::string w=e.what(); completed(x.first,nullptr,&w,false); }catch(std::exception& e){ std::string w=e.what(); completed(x.first,nullptr,&w,true); } x.first=-1; }
  for(size_t i=p.f.size();i-->0;) if(p.f[i].first<0) p.f.erase(p.f.begin()+i); }
void run(bool stealing,int nraw,bool resets){ W=new world;
  sim_fault_budget(SF_NET_DELAY,6); sim_fault_budget(SF_NET_SHORT,12); sim_fault_budget(SF_NET_STALL,1); sim_fault_budget(SF_ACCEPT_DELAY,2); if(resets) sim_fault_budget(SF_NET_RESET,2);
  int njobs=1+sim::pick(nraw?10:7), nreal=1+sim::pick(3), nlocal=stealing?1+sim::pick(2):0; bool big=sim::coin();
  auto tok=std::make_shared<token>(1);
  { pool workers=callable_pool(1+sim::pick(2)); spool srv=stealing?tcp_stealing(workers):tcp_pool(workers); spool local,target=srv,comp;
    if(stealing){ if(sim::coin()) local=ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<sjob>>>(nlocal); else local=ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<ba::lockfree_queue<sjob>>>(nlocal); comp=ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<sjob>>(local,srv); target=sim::coin()?comp:local; }
    { poster ps; std::unique_ptr<P> sp; pool st=ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::lockfree_queue<>>>(); sp.reset(new P(st,target,tok));
      std::vector<int> ids; for(int i=0;i<njobs;i++){ int id=new_job(); describe(id,big); spoil(id); ids.push_back(id); }
      std::vector<std::unique_ptr<real_client>> rcs; std::vector<client> raws; rcs.reserve(4); raws.reserve(4);
      bool late=sim::coin(); if(!late) for(int i=0;i<nreal;i++) rcs.push_back(make_client());
      for(int i=0;i<nraw;i++){ script sc=make_script(); raws.emplace_back([sc]{ raw_client(sc); }); }
      for(int id:ids){ int b=W->j[id].behaviour,n=W->j[id].n; if(sim::pick(3)==0) sp->go(id,b,n); else ps.f.emplace_back(id,ba::post_future(target,jtask(id,b,n),"job")); if(sim::pick(4)==0) sim_sleep(sim::pick(5)*sim::ms); if(sim::pick(4)==0) collect(ps); }
      if(late) for(int i=0;i<nreal;i++) rcs.push_back(make_client());
      if(nreal>1&&sim::pick(4)==0){ sim_sleep(sim::pick(20)*sim::ms); sim_probe("library client dropped",1); { sim::atomic_section s; W->delays=1; } rcs.pop_back(); }
      for(auto& r:raws) r.join();
      wait_for([&]{ bool all=true; for(int i=0;i<W->nj;i++) if(!W->j[i].done&&!W->j[i].held_dead){ bool rdy=false; for(auto& x:ps.f) if(x.first==i) rdy=x.second.wait_for(std::chrono::seconds(0))==std::future_status::ready; if(!rdy) all=false; } return all; },100,20*sim::ms);
      sim_sleep(100*sim::ms); collect(ps);
      { sim::atomic_section s; int missing=0,missing_exec=0,last=-1; for(int i=0;i<W->nj;i++){ jrec& x=W->j[i]; if(x.done){ if(x.broken&&!x.undecodable) sim_fail("broken","job %d ended with a broken promise although its server lives",i); sim_probe(x.exec?"executed by a library client":"answered by a scripted client",1); continue; } if(x.held_dead) continue; if(x.exec) missing_exec++; else missing++; last=i; }
        unsigned long long rs=sim_net_resets(); bool dropped=W->delays; sim_probe("resets",rs);
        if(missing+missing_exec>0&&!rs&&!dropped&&missing>W->unknown_lost) sim_fail("job-lost","%d job(s) (e.g. %d) never completed: %d executed, %d lost by scripted clients",missing+missing_exec,last,missing_exec,W->unknown_lost);
        if(missing_exec>0&&!rs&&!dropped) sim_fail("result-lost","%d job(s) (e.g. %d) were executed but never completed",missing_exec,last);
        if(missing>W->unknown_lost+(int)rs+(dropped?1:0)) sim_fail("job-lost","%d unexecuted job(s) (e.g. %d) never completed after %llu lost connections",missing,last,rs);
        W->stop=true; }
      bool clients_first=sim::coin(); if(clients_first) rcs.clear(); sp.reset(); st.reset(); target.reset(); comp.reset(); local.reset(); srv.reset(); if(!clients_first) sim_sleep(sim::pick(30)*sim::ms); rcs.clear(); workers.reset();
      // whatever is left must end with the pool
      if(!wait_for([&]{ for(auto& x:ps.f) if(x.second.wait_for(std::chrono::seconds(0))!=std::future_status::ready) return false; return true; },100)) sim_fail("future-stuck","a future is still pending after the pool was destroyed"); collect(ps); } }
  tok.reset(); if(!wait_for([]{ return lives().live==0; },50)) expect_no_leak("after shutdown"); }
// ---------------------------------------------------------------- networks of servers: a client lends the jobs of its pool to its own server
std::unique_ptr<real_client> tree_client(spool w,int port,int every){ pool a=ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>(1); return std::unique_ptr<real_client>(new rc<ba::tcp::client_time_check_policy<sjob>,sjob>(a,w,port,(long)every)); }
spool local_pool(int n,bool steals){ if(steals) return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<ba::lockfree_queue<sjob>>>(n); return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<sjob>>>(n); }
void hierarchy(){ W=new world; sim_fault_budget(SF_NET_DELAY,5); sim_fault_budget(SF_NET_SHORT,10); sim_fault_budget(SF_ACCEPT_DELAY,1);
  bool master_works=sim::coin(); int njobs=1+sim::pick(6); int nleaf=1+sim::pick(2), every=2+sim::pick(3)*3; bool direct=sim::coin();
  auto tok=std::make_shared<token>(1);
  { pool workers=callable_pool(1); spool srv,local,comp,target;
    if(master_works){ local=local_pool(1,sim::coin()); srv=tcp_stealing(workers); comp=ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<sjob>>(local,srv); target=local; } else target=srv=tcp_pool(workers);
    { pool st=ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::lockfree_queue<>>>(); std::unique_ptr<P> sp(new P(st,target,tok)); poster ps; std::vector<std::pair<int,std::future<long>>> trees;
      // the middle
      spool mpool=local_pool(1,false), msrv=tcp_stealing(workers,PORT+1); spool mcomp=ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<sjob>>(mpool,msrv);
      std::vector<std::unique_ptr<real_client>> rcs; std::vector<spool> lp; rcs.reserve(6); lp.reserve(6); rcs.push_back(tree_client(mpool,PORT,every));
      for(int i=0;i<nleaf;i++){ lp.push_back(local_pool(1,false)); rcs.push_back(tree_client(lp.back(),direct&&i==1?PORT:PORT+1,every)); }
      for(int k=0;k<njobs;k++){ int id=new_job(); jrec& x=W->j[id]; if(sim::pick(3)==0){ x.n=sim::pick(3); x.behaviour=sim::coin()?sim::pick(4):0; sim_probe(x.behaviour?"failing distributed tree":"distributed tree",1); trees.emplace_back(id,ba::post_future(target,tree_task(id,x.n,x.behaviour),"tree")); continue; }
        describe(id,false); if(x.behaviour!=1&&sim::coin()) x.behaviour=2+sim::pick(10); if(sim::pick(3)==0) sp->go(id,x.behaviour,x.n); else ps.f.emplace_back(id,ba::post_future(target,jtask(id,x.behaviour,x.n),"job")); }
      bool all=wait_for([&]{ for(auto& t:trees) if(t.second.wait_for(std::chrono::seconds(0))!=std::future_status::ready) return false; collect(ps); int waiting=0; for(int i=0;i<W->nj;i++) if(!W->j[i].done) waiting++; return waiting<=(int)trees.size(); },150,20*sim::ms);
      for(auto& t:trees){ if(t.second.wait_for(std::chrono::seconds(0))!=std::future_status::ready) continue; jrec& x=W->j[t.first]; try{ long v=t.second.get(); if(x.behaviour) sim_fail("wrong-outcome","tree %d returned %ld although it threw",t.first,v); if(v!=(1L<<x.n)) sim_fail("wrong-outcome","tree %d of depth %d returned %ld",t.first,x.n,v); if(x.parts!=(2<<x.n)-1) sim_fail("wrong-parts","tree %d of depth %d executed %d parts",t.first,x.n,x.parts); x.done++; }catch(std::exception& e){ if(!x.behaviour||"e"+std::to_string(t.first)!=e.what()) sim_fail("wrong-outcome","tree %d (behaviour %d) failed with %s",t.first,x.behaviour,e.what()); x.done++; } }
      if(!all) for(int i=0;i<W->nj;i++) if(!W->j[i].done) sim_fail("job-lost","job %d (executed %d times) never completed although no connection failed",i,W->j[i].exec);
      W->stop=true; sp.reset(); st.reset(); bool clients_first=sim::coin(); if(clients_first) rcs.clear(); target.reset(); comp.reset(); local.reset(); srv.reset(); mcomp.reset(); msrv.reset(); rcs.clear(); mpool.reset(); lp.clear(); workers.reset(); } }
  tok.reset(); if(!wait_for([]{ return lives().live==0; },50)) expect_no_leak("after shutdown"); }
// ---------------------------------------------------------------- a scripted server which breaks the protocol: the client survives, executes what it gets once and asks again
struct rogue_server { int lfd=-1; int acts[10]; int nacts=0, next=0; int asked=0, honest=0, honest_done=0; struct given { int id; int kind; bool answered; }; std::vector<given> g; bool dup=false;
  enum { VALID, NOJOB, BADHEADER, HUGE_, BADBODY, CUT, CLOSE, UNKNOWN, UNDECODABLE, PIECES, TWICE, EMPTY, STOLEN, BADSTOLEN, STALL, HALFHEADER, NACTS };
  rogue_server(){ g.reserve(MAXJ+8); nacts=1+sim::pick(9); for(int i=0;i<nacts;i++) acts[i]=sim::pick(NACTS); lfd=::socket(AF_INET,SOCK_STREAM,0); sockaddr_in a{}; a.sin_family=AF_INET; a.sin_port=htons(PORT); a.sin_addr.s_addr=htonl(INADDR_LOOPBACK); if(::bind(lfd,(sockaddr*)&a,sizeof a)<0||::listen(lfd,8)<0) sim_fail("harness","cannot listen"); }
  ~rogue_server(){ if(lfd>=0) ::close(lfd); }
  static std::string reply(ba::tcp::server_reponse const& r){ std::ostringstream o; { sjob::oarchive a(o); a<<r; } return raw::frame(o.str()); }
  static std::string archived(std::string const& t){ std::ostringstream o; { sjob::oarchive a(o); a<<t; } return o.str(); }
  std::string job(int kind,bool last){ int id=new_job(); if(id<0) return reply(ba::tcp::server_reponse(0,"","")); describe(id,false); jrec& x=W->j[id]; jtask t(id,x.behaviour,x.n); std::ostringstream o; { sjob::oarchive a(o); a<<t; } std::string name="jtask",body=o.str();
    if(kind==UNKNOWN) name="nosuchtask"; if(kind==UNDECODABLE) body="junk"; if(kind==STOLEN){ name="std::string/std::string/jtask"; body=archived(archived(body)); } if(kind==BADSTOLEN){ name="std::string/jtask"; body="junk"; }
    long tid; { sim::atomic_section s; if(last) honest++; g.push_back({id,last?-1:kind,false}); tid=1000+(long)g.size()-1; } return reply(ba::tcp::server_reponse(tid,body,name)); }
  void result(ba::tcp::client_request const& q){ sim::atomic_section s; long k=q.m_task_id-1000; if(k<0||k>=(long)g.size()) sim_fail("unknown-result","the client answers the unknown task %ld",q.m_task_id); given& x=g[k]; if(x.answered) sim_fail("completed-twice","the client answers job %d twice",x.id); x.answered=true;
    if(x.kind==UNKNOWN||x.kind==UNDECODABLE||x.kind==BADSTOLEN){ if(!q.m_load.m_has_exception) sim_fail("wrong-outcome","the client reports success for a job it cannot even decode"); sim_probe("job which cannot start: answered by an exception",1); W->j[x.id].done=1; return; }
    if(q.m_load.m_has_exception){ std::string e=q.m_load.m_exception.what(); completed(x.id,nullptr,&e,false); } else { std::string v; std::istringstream is(q.m_load.m_data); { sjob::iarchive a(is); a>>v; } completed(x.id,&v,nullptr,false); }
    if(x.kind==-1) honest_done++; }
  void serve(){ while(!W->stop){ raw c; c.fd=::accept(lfd,nullptr,nullptr); if(c.fd<0||W->stop) break; sim_probe("rogue connection",1); std::string h,b;
      while(c.get(h,10)){ size_t len=0; std::istringstream is(h); if(!(is>>std::hex>>len)||len>200000) sim_fail("bad-frame","the server received the header '%s'",h.c_str()); if(!c.get(b,len)) break;
        ba::tcp::client_request q(0); { std::istringstream bs(b); sjob::iarchive a(bs); a>>q; } if(q.m_cmd_id==BOOST_ASYNCHRONOUS_TCP_CLIENT_JOB_RESULT){ result(q); continue; } if(q.m_cmd_id!=BOOST_ASYNCHRONOUS_TCP_CLIENT_GET_JOB) sim_fail("bad-frame","the server received the command %d",(int)q.m_cmd_id);
        { sim::atomic_section s; asked++; } bool over=next>=nacts; int a=over?VALID:acts[next++]; sim_event("rogue act",a,over);
        std::string m; auto put=[&](std::string const& x,int chunk=0){ c.put(x,x.size(),chunk); };
        switch(a){
        case VALID: put(job(VALID,over)); break;
        case NOJOB: put(reply(ba::tcp::server_reponse(0,"",""))); break;
        case BADHEADER: sim_probe("rogue bad header",1); put("zzzzzzzzzzsomething"); break;
        case HUGE_: sim_probe("rogue impossible length",1); put(next&1?"ffffffffffabc":"        -1abc"); break;
        case BADBODY: sim_probe("rogue bad body",1); put(raw::frame("22 serialization::archive nonsense")); break;
        case CUT: m=reply(ba::tcp::server_reponse(7,"some content","jtask")); c.put(m,1+(next*7919)%(m.size()-1),0); c.shut(); break;
        case CLOSE: c.shut(); break;
        case UNKNOWN: case UNDECODABLE: case STOLEN: case BADSTOLEN: put(job(a,false)); break;
        case PIECES: put(job(a,false),5); break;
        case TWICE: m=job(VALID,false); put(m+job(VALID,false)); break;
        case EMPTY: put(raw::frame("")); break;
        case STALL: sim_sleep(300*sim::ms); put(job(VALID,false)); break;
        case HALFHEADER: put("   "); sim_sleep(20*sim::ms); c.shut(); break;
        }
        if(c.fd<0) break; } } }
};
void rogue(){ W=new world; W->rogue=true; sim_fault_budget(SF_NET_DELAY,6); sim_fault_budget(SF_NET_SHORT,10); sim_fault_budget(SF_ACCEPT_DELAY,1);
  { rogue_server rs; client sv([&]{ rs.serve(); }); spool lp; std::unique_ptr<real_client> rc; if(sim::pick(3)==0){ lp=local_pool(1+sim::pick(2),false); rc=tree_client(lp,PORT,2+sim::pick(3)*3); } else rc=make_client();
    if(!wait_for([&]{ return rs.honest_done>=2; },200,20*sim::ms)) sim_fail("client-stuck","the client asked %d times, %d of %d well-formed jobs of an honest server were answered",rs.asked,rs.honest_done,rs.honest);
    // as long as the connection lives, everything the client got is answered
    { sim::atomic_section s; bool lost=false; for(int i=0;i<rs.nacts;i++){ int a=rs.acts[i]; if(a==rogue_server::BADHEADER||a==rogue_server::HUGE_||a==rogue_server::BADBODY||a==rogue_server::CUT||a==rogue_server::CLOSE||a==rogue_server::HALFHEADER) lost=true; } if(!lost) for(size_t i=0;i+1<rs.g.size();i++) if(!rs.g[i].answered&&i+3<rs.g.size()) W->delays=(int)i+1; }
    if(W->delays&&!wait_for([&]{ return rs.g[W->delays-1].answered; },100,20*sim::ms)) sim_fail("result-lost","job %d (kind %d) was never answered although the connection lived",rs.g[W->delays-1].id,rs.g[W->delays-1].kind);
    { sim::atomic_section s; W->stop=true; } rc.reset(); lp.reset(); raw wake; wake.open(); sv.join(); } }
}
SIM_SCENARIO_L(P26,rogue_server,0,2,48000000ull){ rogue(); }
SIM_SCENARIO_L(P26,hierarchy,0,2,60000000ull){ hierarchy(); }
SIM_SCENARIO_L(P26,plain,0,3,48000000ull){ run(false,0,false); }
SIM_SCENARIO_L(P26,scripted,0,3,48000000ull){ run(false,1+sim::pick(2),false); }
SIM_SCENARIO_L(P26,stealing,0,2,48000000ull){ run(true,sim::pick(3)==0,false); }
SIM_SCENARIO_L(P26,resets,0,2,48000000ull){ run(sim::pick(3)==0,sim::pick(3)==0,true); }
