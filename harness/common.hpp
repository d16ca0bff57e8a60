// Shared helpers of all harnesses.
#pragma once
#include <sim.hpp>
#include <cstdio>
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <stdexcept>
#include <future>
#include <boost/thread/thread.hpp>
#include <boost/asynchronous/any_shared_scheduler_proxy.hpp>
#include <boost/asynchronous/scheduler_shared_proxy.hpp>
namespace ba = boost::asynchronous;

// exception thrown by generated tasks: carries an id so that each is attributable
struct sim_error : std::runtime_error { int id; explicit sim_error(int i): std::runtime_error("sim_error"), id(i) {} };

// run f in a simulated client thread
struct client {
  boost::thread t;
  template<class F> explicit client(F f): t(std::move(f)) {}
  client(client&&)=default;
  ~client(){ if(t.joinable()) t.join(); }
  void join(){ if(t.joinable()) t.join(); }
};

// counts live instances; checks construction/destruction discipline
struct life_table {
  enum { N=4096 };
  int live=0; unsigned long made=0, dead=0;
};
inline life_table& lives(){ static life_table t; return t; }
// move-only-or-copyable payload with an identity; detects use after destruction / double destruction
struct token {
  enum { LIVE=0x600DF00D, DEAD=0xDEADBEEF, MOVED=0x30FED };
  unsigned state; int id; unsigned hops;
  explicit token(int i=0): state(LIVE), id(i), hops(0) { sim::atomic_section s; ++lives().live; ++lives().made; }
  token(token const& o): state(LIVE), id(o.check("copy of").id), hops(o.hops) { sim::atomic_section s; ++lives().live; ++lives().made; }
  token(token&& o): state(LIVE), id(o.check("move of").id), hops(o.hops) { sim::atomic_section s; ++lives().live; ++lives().made; }
  token& operator=(token const& o){ check("assign to"); id=o.check("assign from").id; return *this; }
  token& operator=(token&& o){ check("assign to"); id=o.check("assign from").id; return *this; }
  ~token(){ sim::atomic_section s; if(state!=LIVE) sim_fail("double-destruction","object %d destroyed twice or never constructed (state %x)",id,state); state=DEAD; --lives().live; ++lives().dead; }
  token const& check(const char* what) const { if(state!=LIVE) sim_fail("dead-object","%s a destroyed object (id %d)",what,id); return *this; }
};
inline void expect_no_leak(const char* what,int expected=0){ if(lives().live!=expected) sim_fail("leak","%s: %d object(s) still alive (expected %d)",what,lives().live,expected); }

inline uint64_t tid64(){ return (uint64_t)pthread_self(); }
// current-thread membership
inline bool is_worker(std::vector<boost::thread::id> const& ids){ auto me=boost::this_thread::get_id(); for(auto const& i:ids) if(i==me) return true; return false; }

// bounded wait in virtual time for a harness predicate (everything else may run)
template<class P> inline bool wait_for(P p,int tries=200,uint64_t step=20*sim::ms){ for(int i=0;i<tries;i++){ { sim::atomic_section s; if(p()) return true; } sim_sleep(step); } sim::atomic_section s; return p(); }
