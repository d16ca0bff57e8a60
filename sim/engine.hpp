// Internals shared by engine.cpp and simnet.cpp (not seen by harnesses).
#pragma once
#include <cstdint>
#include <cstddef>
#include "sim.hpp"
#define HID __attribute__((visibility("hidden")))
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
enum { MAXT = 64 };
enum TState : u8 { T_FREE, T_RUN, T_BLOCK, T_DONE };
struct Dtor { void (*fn)(void*); void* arg; Dtor* next; };
struct SchedEnt { u64 np; u16 next; };
struct Thr {
  u64 np, trig, np_in;          // local point count, next trigger, count at switch-in
  int nopre; int allocwin;
  TState st; bool yielded, detached, joined, nojump, timedout, is_idle_sleep;
  int id;
  void* rsp; void* fsbase; char* stack_top; char* stack_lo;
  const void* wobj; u64 deadline;   // deadline==0: none
  const char* why;
  void* (*start)(void*); void* arg; void* ret;
  u32 nblocks; u32 prio; u32 weight;
  u64 cnt_weak, cnt_spur, cnt_wake, cnt_misc;
  void* keys[64]; Dtor* dtors;
  u32* vc; u32* acqf; u32* relf; bool hasrel;
  u32 rp, rpn;                   // replay cursor range into sorted sched list
};
HID extern Thr thr[MAXT]; HID extern Thr* cur; HID extern bool active; HID extern int nthr;
HID extern bool g_hb;
HID void slow_point();
HID extern int wleft;
static inline void point(int w){
  Thr* c = cur; if(!active || c->nopre) return;
  c->np++; wleft -= w;
  if(__builtin_expect(wleft<=0 || c->np>=c->trig,0)) slow_point();
}
// blocks the current thread on obj until woken or deadline (0: none); returns true if timed out
HID bool block_on(const void* obj, u64 deadline, const char* why);
HID int wake_obj(const void* obj, int maxn);     // returns number woken
HID int count_waiters(const void* obj);
HID u64 now_ns();
HID void post_event(u64 at, void(*fn)(void*,u64), void* a, u64 b);
HID u32 sparse_choice(int kind, u64 key, u32 n); // 0 default; recorded when non-zero
HID void hb_acquire(const void* a); HID void hb_release(const void* a);
HID long raw_syscall(long n,long a=0,long b=0,long c=0,long d=0,long e=0,long f=0);
HID void sim_mix(u64 a,u64 b);
HID void vlog(const char* fmt,...);
HID extern bool g_verbose;
HID void* shm_alloc(size_t);
