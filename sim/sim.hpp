// Public interface of the deterministic simulator, used by the harnesses.
// Everything here is a plain C-like surface: the engine (engine.cpp) is compiled without
// instrumentation and shares no template instantiation with the harness translation units.
#pragma once
#include <cstdint>
#include <cstddef>
#include <pthread.h>

extern "C" {
// ---- recorded choices -------------------------------------------------------------------
// workload choice in [0,n): 0 is the simplest value (minimisation drives choices towards 0)
uint32_t sim_pick(uint32_t n);
// fault decision: returns non-zero if fault `kind` fires for this key (default: does not fire)
int sim_fault(int kind, uint64_t key);
// ---- oracle -----------------------------------------------------------------------------
[[noreturn]] void sim_fail(const char* cls, const char* fmt, ...) __attribute__((format(printf,2,3)));
void sim_event(const char* what, uint64_t a, uint64_t b);   // goes into trace hash and event log
uint64_t sim_seq();                                         // strictly increasing event number
void sim_probe(const char* name, uint64_t n);               // reach counter
void sim_note_skip();                                       // this run was trivial (not counted non-trivial)
// ---- time and threads -------------------------------------------------------------------
uint64_t sim_now();                                         // virtual nanoseconds
void sim_point_cost(uint64_t ns);                           // virtual time one scheduling point takes (default 5 ns): a slow machine
void sim_sleep(uint64_t ns);                                // sleep in virtual time; never a clock-jump target
void sim_yield();
int sim_tid();
int sim_live_threads();                                     // threads not finished, caller included
int sim_created_threads();
void sim_nopreempt(int delta);                              // >0 disable preemption and checking, <0 restore
void sim_faults_off();                                      // no fault fires from here on
void sim_fault_budget(int kind, int max_per_run);           // enable a fault kind (scenario opts in)
void sim_point();                                           // explicit preemption point
size_t sim_live_bytes();                                    // currently allocated heap blocks
void sim_alloc_window(int on);                              // allocation failures may be injected while on
void sim_expect_blocked();
// run up to deadline; true when pred stays false means the bound was exceeded
// ---- happens-before checked cell --------------------------------------------------------
struct sim_cell { uint32_t wt, we; uint32_t rd[64]; };
void sim_cell_init(sim_cell*);
void sim_cell_read(sim_cell*, const char* name);
void sim_cell_write(sim_cell*, const char* name);
}

enum sim_fault_kind {
  SF_SPURIOUS = 0,      // spurious condition-variable wake-up
  SF_WEAKCAS,           // weak compare-exchange fails spuriously
  SF_CLOCKJUMP,         // clock jumps to the next deadline although threads are runnable (stalled threads)
  SF_WAKEORDER,         // notify_one wakes another waiter than the first
  SF_THREADCREATE,      // thread creation fails with EAGAIN
  SF_ALLOC,             // allocation fails
  SF_TASK_THROW,        // user task throws
  SF_TASK_DELAY,        // user task sleeps
  SF_INTERRUPT,         // interrupt() issued
  SF_DESTROY,           // owner destroyed early
  SF_CANCEL,            // timer cancelled
  SF_ELEM_THROW,        // user functor of an algorithm throws on this element
  SF_CTOR_THROW,        // servant constructor throws
  SF_SUBTASK_THROW,     // continuation subtask fails
  SF_NET_DELAY,         // network delivery delayed
  SF_NET_SHORT,         // short read / write
  SF_NET_RESET,         // connection reset
  SF_NET_STALL,         // peer stalls
  SF_ACCEPT_DELAY,
  SF_CLIENT_CRASH,      // a TCP client goes away
  SF_COUNT
};

// scenario registration -------------------------------------------------------------------
enum { SIM_HB = 1,        // track happens-before for sim_cell
       SIM_NO_REUSE = 2,  // never recycle heap blocks in this scenario
       SIM_ALLOW_LEFTOVER = 4, // threads may still exist at the end
       SIM_NO_CLOCKJUMP = 8,
       SIM_NO_SPURIOUS = 16 };
struct sim_scenario {
  const char* prop; const char* name; void (*fn)(); unsigned flags; int weight;
  sim_scenario* next; int index; unsigned long long limit;
  sim_scenario(const char* p, const char* n, void (*f)(), unsigned fl, int w, unsigned long long lim = 0);
};
#define SIM_SCENARIO(prop, name, flags, weight) \
  static void scn_##prop##_##name(); \
  static sim_scenario reg_##prop##_##name(#prop, #name, &scn_##prop##_##name, flags, weight); \
  static void scn_##prop##_##name()

#define SIM_SCENARIO_L(prop, name, flags, weight, limit) \
  static void scn_##prop##_##name(); \
  static sim_scenario reg_##prop##_##name(#prop, #name, &scn_##prop##_##name, flags, weight, limit); \
  static void scn_##prop##_##name()

namespace sim {
struct atomic_section { atomic_section(){ sim_nopreempt(1);} ~atomic_section(){ sim_nopreempt(-1);} };
inline uint32_t pick(uint32_t n){ return sim_pick(n); }
inline uint32_t range(uint32_t lo, uint32_t hi){ return lo + sim_pick(hi-lo+1); }
inline bool coin(){ return sim_pick(2)!=0; }
constexpr uint64_t us = 1000ull, ms = 1000000ull, sec = 1000000000ull;
}
#define SIM_CHECK(c, cls, ...) do { if(!(c)) sim_fail(cls, __VA_ARGS__); } while(0)
