// Deterministic single-kernel-thread simulator: scheduler, pthread/futex/clock/heap seams,
// thread-sanitizer ABI (preemption points), fork-per-run driver, replay.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "engine.hpp"
#include <pthread.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <linux/futex.h>
#include <dlfcn.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <math.h>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <sched.h>
#include <fcntl.h>
#include <ucontext.h>
#include <initializer_list>

// ------------------------------------------------------------------------------ raw syscalls
long raw_syscall(long n,long a,long b,long c,long d,long e,long f){
  long r; register long r10 asm("r10")=d; register long r8 asm("r8")=e; register long r9 asm("r9")=f;
  asm volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory");
  return r;
}
static inline u64 rdfs(){ u64 v; asm volatile("rdfsbase %0":"=r"(v)); return v; }

// ------------------------------------------------------------------------------ shared state
enum { MAXSCHED=400000, MAXBLOCK=400000, MAXFAULT=20000, MAXPICK=20000, MAXPROBE=96 };
struct SEnt{ u16 tid,next; u32 pad; u64 np; };
struct BEnt{ u16 tid,next; u32 nb; };
struct FEnt{ u32 kind; u32 val; u64 key; };
struct Probe{ char name[48]; u64 n; };
enum { CF_STRAT, CF_INTERVAL, CF_DEPTH, CF_PLAINW, CF_REUSE, CF_SLEEPQ, CF_EST, CF_RATE, CF_NJUMP, CF_N };
static const char* cfname[CF_N]={"strat","interval","depth","plainw","reuse","sleepq","est","rate","njump"};
struct Result {
  int status;            // 0 running/none, 1 ok, 2 violation, 3 tool error
  char cls[64]; char msg[1024];
  u64 hash, points, switches, vtime, preempts, events, allocs;
  u64 sched_hash;
  u32 threads; int skip;
  u64 faults[SF_COUNT];
  u32 nprobe; Probe probe[MAXPROBE];
  u32 ns, nb, nf, npk; bool overflow;
  u32 cfg[CF_N];
  SEnt s[MAXSCHED]; BEnt b[MAXBLOCK]; FEnt f[MAXFAULT]; u32 pk[MAXPICK], pkn[MAXPICK];
};
static Result* R;
struct Replay { bool on; u32 cfg[CF_N]; u32 ns,nb,nf,npk; SEnt* s; BEnt* b; FEnt* f; u32* pk; };
static Replay RP;

Thr thr[MAXT]; Thr* cur=&thr[0]; bool active=false; int nthr=1; int wleft=0x7fffffff; bool g_hb=false; bool g_verbose=false;
static u64 g_seed; static u64 g_hash, g_shash, g_seq, g_points, g_switches, g_jump_ns, g_preempts;
static u64 g_soft=400000, g_hard=4000000; static bool g_fair=false, g_faults_off=false;
static u32 cfg[CF_N]; static int g_budget[SF_COUNT]; static double g_rate[SF_COUNT];
static int g_jumps_left; static bool in_run=false; static const sim_scenario* g_scn;
static u64 base_real=1700000000ull*1000000000ull;


// ------------------------------------------------------------------------------ PRNG
static inline u64 mix64(u64 x){ x^=x>>30; x*=0xbf58476d1ce4e5b9ull; x^=x>>27; x*=0x94d049bb133111ebull; x^=x>>31; return x; }
struct Rng{ u64 s; u64 next(){ s+=0x9e3779b97f4a7c15ull; return mix64(s);} u32 below(u32 n){ return n<=1?0:(u32)((next()>>11)%n);} double u(){ return (next()>>11)*(1.0/9007199254740992.0);} };
static Rng rs, rw, rc, re;
void sim_mix(u64 a,u64 b){ g_hash=mix64(g_hash^(a*0x9e3779b97f4a7c15ull+b+0x7f4a7c15)); }

void vlog(const char* fmt,...){
  if(!g_verbose) return; char buf[512]; va_list ap; va_start(ap,fmt); int n=vsnprintf(buf,sizeof buf-1,fmt,ap); va_end(ap);
  if(n>(int)sizeof buf-2) n=sizeof buf-2; buf[n++]='\n'; raw_syscall(SYS_write,2,(long)buf,n);
}
static void finish_result(){
  R->points=g_points+(cur->np-cur->np_in); sim_mix(R->points,0xabc);
  R->hash=g_hash; R->sched_hash=g_shash; R->switches=g_switches; R->vtime=now_ns(); R->preempts=g_preempts; R->events=g_seq;
}
extern "C" void sim_fail(const char* cls,const char* fmt,...){
  if(!in_run){ char b[600]; va_list ap; va_start(ap,fmt); int n=vsnprintf(b,sizeof b,fmt,ap); va_end(ap); (void)n; fprintf(stderr,"sim_fail outside run: %s: %s\n",cls,b); _exit(3);}
  active=false;
  snprintf(R->cls,sizeof R->cls,"%s",cls);
  va_list ap; va_start(ap,fmt); vsnprintf(R->msg,sizeof R->msg,fmt,ap); va_end(ap);
  for(char*p=R->msg;*p;p++) if(*p=='\n') *p=' ';
  for(const char*p=cls;*p;p++) sim_mix(*p,7);
  finish_result(); R->status=2;
  vlog("FAIL %s: %s (thread %d, t=%llu ns)",cls,R->msg,cur->id,(unsigned long long)now_ns());
  if(g_verbose) for(int i=1;i<nthr;i++) vlog("  thread %d: st=%d why=%s np=%llu deadline=%llu",i,thr[i].st,thr[i].why?thr[i].why:"-",(unsigned long long)thr[i].np,(unsigned long long)thr[i].deadline);
  raw_syscall(SYS_exit_group,0); __builtin_unreachable();
}
static void tool_error(const char* m){ if(R){ snprintf(R->cls,sizeof R->cls,"tool-error"); snprintf(R->msg,sizeof R->msg,"%s",m); R->status=3;} raw_syscall(SYS_exit_group,0); }

// ------------------------------------------------------------------------------ heap
static char* const HEAP=(char*)0x100000000000ull; static const size_t HEAPSZ=1ull<<30;
static u8* const SHADOW=(u8*)0x110000000000ull; static char* const STACKS=(char*)0x120000000000ull;
enum { STACKSZ = 1<<20 };
static char* hp; static bool heap_ready=false; static size_t g_live;
struct Hdr{ u64 size; u32 magic; u32 cls; };
enum { M_LIVE=0x4c495645, M_DEAD=0x44454144 };
static const u8 SH_FULL=16, SH_FREED=0xfd;
struct FreeN{ FreeN* next; };
static FreeN* freel[129];
static void heap_init(){
  heap_ready=true;
  void* a=(void*)raw_syscall(SYS_mmap,(long)HEAP,HEAPSZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
  void* b=(void*)raw_syscall(SYS_mmap,(long)SHADOW,HEAPSZ>>4,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
  if(a!=(void*)HEAP||b!=(void*)SHADOW){ raw_syscall(SYS_write,2,(long)"heap map failed\n",16); raw_syscall(SYS_exit_group,3); }
  hp=HEAP+16;
}
static inline void poison_free(char* p,size_t n){ memset(SHADOW+((p-HEAP)>>4),SH_FREED,(n+15)>>4); }
static void* heap_alloc(size_t n,size_t align){
  if(!heap_ready) heap_init();
  if(n==0) n=1; size_t rn=(n+15)&~(size_t)15; u32 c=rn/16;
  char* p;
  if(in_run && cfg[CF_REUSE] && c<=128 && align<=16 && freel[c]){ p=(char*)freel[c]; freel[c]=freel[c]->next; }
  else {
    if(align<16) align=16;
    u64 a=((u64)hp+16+align-1)&~(u64)(align-1); p=(char*)a;
    if(n>(1ull<<32)) return nullptr; // as the system would
    if(p+rn+32>HEAP+HEAPSZ || rn>HEAPSZ){ if(in_run) sim_fail("out-of-memory","heap exhausted (request %zu)",n); return nullptr; }
    hp=p+rn;
  }
  Hdr* h=(Hdr*)(p-16); h->size=n; h->magic=M_LIVE; h->cls=c;
  u8* s=SHADOW+((p-HEAP)>>4); memset(s,SH_FULL,n>>4); if(n&15) s[n>>4]=n&15; s[-1]=0;
  g_live++; if(in_run) R->allocs++;
  return p;
}
static void heap_free(void* q){
  char* p=(char*)q; if(!p) return; if(p<HEAP||p>=HEAP+HEAPSZ) return;
  Hdr* h=(Hdr*)(p-16);
  if(h->magic==M_DEAD){ if(in_run) sim_fail("double-free","free() of an already freed block of %llu bytes",(unsigned long long)h->size); return; }
  if(h->magic!=M_LIVE){ if(in_run) sim_fail("bad-free","free() of a pointer not allocated"); return; }
  h->magic=M_DEAD; g_live--;
  if(in_run && cfg[CF_REUSE] && h->cls<=128 && p>=HEAP+(64<<20)){ FreeN* f=(FreeN*)p; f->next=freel[h->cls]; freel[h->cls]=f; }
  poison_free(p,h->size);
}
extern "C" {
static bool alloc_fault(size_t n){
  if(!active||!cur->allocwin||cur->nopre) return false;
  return sim_fault(SF_ALLOC,((u64)cur->id<<40)|cur->cnt_misc++)!=0;
}
void* malloc(size_t n){ if(alloc_fault(n)){ errno=ENOMEM; return nullptr;} return heap_alloc(n,16); }
void free(void* p){ heap_free(p); }
void* calloc(size_t a,size_t b){ size_t n=a*b; void* p=heap_alloc(n,16); if(p) memset(p,0,n); return p; }
void* realloc(void* p,size_t n){ if(!p) return heap_alloc(n,16); if((char*)p<HEAP||(char*)p>=HEAP+HEAPSZ) return nullptr; Hdr* h=(Hdr*)((char*)p-16); void* q=heap_alloc(n,16); if(!q) return q; memcpy(q,p,h->size<n?h->size:n); heap_free(p); return q; }
void* memalign(size_t a,size_t n){ if(alloc_fault(n)){ errno=ENOMEM; return nullptr; } return heap_alloc(n,a); }
void* aligned_alloc(size_t a,size_t n){ if(alloc_fault(n)){ errno=ENOMEM; return nullptr; } return heap_alloc(n,a); }
int posix_memalign(void** o,size_t a,size_t n){ if(alloc_fault(n)) return ENOMEM; *o=heap_alloc(n,a); return *o?0:ENOMEM; }
void* valloc(size_t n){ return heap_alloc(n,4096); }
void* pvalloc(size_t n){ return heap_alloc(n,4096); }
size_t malloc_usable_size(void* p){ return p?((Hdr*)((char*)p-16))->size:0; }
size_t sim_live_bytes(){ return g_live; }
void sim_alloc_window(int on){ cur->allocwin=on; }
}
static __attribute__((noinline)) void shadow_bad(const void* a,int sz,int wr,u8 v,void* pc){
  if(!in_run||!active) return;
  u64 g=((u64)a)&~15ull; 
  if(v==SH_FREED) sim_fail("use-after-free","%s of %d bytes at freed heap memory (pc %p)",wr?"write":"read",sz,pc);
  (void)g; sim_fail("heap-out-of-bounds","%s of %d bytes outside any live heap block (pc %p)",wr?"write":"read",sz,pc);
}
static inline __attribute__((always_inline)) void chk(const void* a,int sz,int wr){
  u64 o=(u64)a-(u64)HEAP; if(o>=HEAPSZ) return;
  u8 v=SHADOW[o>>4]; if(__builtin_expect(v==SH_FULL,1)){ if(((o&15)+sz)<=16) return; u8 v2=SHADOW[(o>>4)+1]; if(v2==SH_FULL) return; if(v2!=SH_FREED && (int)((o&15)+sz-16)<=v2) return; shadow_bad(a,sz,wr,v2,__builtin_return_address(0)); return; }
  if(v!=SH_FREED && (int)((o&15)+sz)<=v) return;
  if(active) shadow_bad(a,sz,wr,v,__builtin_return_address(0));
}

// ------------------------------------------------------------------------------ happens-before
struct SyncV{ const void* a; u32 vc[MAXT]; };
enum { SYNCN=1<<16 }; static SyncV* synct; static u32 nsync;
static SyncV* sync_get(const void* a){
  u32 i=mix64((u64)a)&(SYNCN-1);
  for(;;){ if(synct[i].a==a) return &synct[i]; if(!synct[i].a){ if(++nsync>SYNCN*3/4) tool_error("sync table full"); synct[i].a=a; return &synct[i]; } i=(i+1)&(SYNCN-1); }
}
static inline void vjoin(u32* d,const u32* s){ for(int i=0;i<nthr;i++) if(s[i]>d[i]) d[i]=s[i]; }
void hb_acquire(const void* a){ if(!g_hb) return; vjoin(cur->vc,sync_get(a)->vc); }
void hb_release(const void* a){ if(!g_hb) return; SyncV* s=sync_get(a); vjoin(s->vc,cur->vc); cur->vc[cur->id]++; }
static void hb_atomic_load(const void* a,int mo){ if(!g_hb) return; SyncV* s=sync_get(a); if(mo!=__ATOMIC_RELAXED) vjoin(cur->vc,s->vc); else vjoin(cur->acqf,s->vc); }
static void hb_atomic_store(const void* a,int mo){ if(!g_hb) return; SyncV* s=sync_get(a);
  if(mo==__ATOMIC_RELEASE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST){ memcpy(s->vc,cur->vc,nthr*4); cur->vc[cur->id]++; }
  else if(cur->hasrel) memcpy(s->vc,cur->relf,nthr*4); else memset(s->vc,0,nthr*4); }
static void hb_atomic_rmw(const void* a,int mo){ if(!g_hb) return; SyncV* s=sync_get(a);
  if(mo==__ATOMIC_ACQUIRE||mo==__ATOMIC_CONSUME||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST) vjoin(cur->vc,s->vc); else vjoin(cur->acqf,s->vc);
  if(mo==__ATOMIC_RELEASE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST){ vjoin(s->vc,cur->vc); cur->vc[cur->id]++; }
  else if(cur->hasrel) vjoin(s->vc,cur->relf); }
extern "C" {
void sim_cell_init(sim_cell* c){ memset(c,0,sizeof *c); c->wt=cur->id; c->we=g_hb?cur->vc[cur->id]:0; }
void sim_cell_read(sim_cell* c,const char* name){ if(!g_hb) return; if(c->we>cur->vc[c->wt]) sim_fail("data-race","%s: read in thread %d not ordered after the write in thread %u",name,cur->id,c->wt); c->rd[cur->id]=cur->vc[cur->id]; }
void sim_cell_write(sim_cell* c,const char* name){ if(!g_hb) return;
  if(c->we>cur->vc[c->wt]) sim_fail("data-race","%s: write in thread %d not ordered after the write in thread %u",name,cur->id,c->wt);
  for(int i=0;i<nthr;i++) if(c->rd[i]>cur->vc[i]) sim_fail("data-race","%s: write in thread %d not ordered after the read in thread %d",name,cur->id,i);
  c->wt=cur->id; c->we=cur->vc[cur->id]; memset(c->rd,0,sizeof c->rd); }
}

// ------------------------------------------------------------------------------ choices
static void probe_add(const char* name,u64 n){
  for(u32 i=0;i<R->nprobe;i++) if(!strcmp(R->probe[i].name,name)){ R->probe[i].n+=n; return; }
  if(R->nprobe<MAXPROBE){ Probe& p=R->probe[R->nprobe++]; snprintf(p.name,sizeof p.name,"%s",name); p.n=n; }
}
u32 sparse_choice(int kind,u64 key,u32 n){
  if(!in_run) return 0;
  if(RP.on){ for(u32 i=0;i<RP.nf;i++) if((int)RP.f[i].kind==kind && RP.f[i].key==key){ u32 v=RP.f[i].val; if(v>=n) v=n-1; if(v&&kind<SF_COUNT) R->faults[kind]++;
      if(v&&R->nf<MAXFAULT) R->f[R->nf++]={(u32)kind,v,key}; if(v) vlog("    fault kind=%d key=%llx val=%u",kind,(unsigned long long)key,v); if(v) sim_mix(kind,key*31+v); return v; } return 0; }
  if(g_faults_off) return 0;
  if(kind<SF_COUNT){ if(g_budget[kind]<=0) return 0; }
  u64 h=mix64(mix64(g_seed^0xfa017ull)+mix64(key*64+kind+1)); double u=(h>>11)*(1.0/9007199254740992.0);
  if(u>=g_rate[kind]) return 0;
  u32 v=n==2?1:1+(u32)(mix64(h)%(n-1));
  g_budget[kind]--; R->faults[kind]++;
  if(R->nf<MAXFAULT) R->f[R->nf++]={(u32)kind,v,key}; else R->overflow=true;
  sim_mix(kind,key*31+v);
  return v;
}
extern "C" {
uint32_t sim_pick(uint32_t n){
  if(n<=1) return 0; u32 i=R->npk; u32 v;
  if(RP.on) v=i<RP.npk?(RP.pk[i]<n?RP.pk[i]:RP.pk[i]%n):0; else v=rw.below(n);
  if(i<MAXPICK){ R->pk[i]=v; R->pkn[i]=n; R->npk++; } else R->overflow=true;
  return v;
}
int sim_fault(int kind,uint64_t key){ if(!active) return 0; return sparse_choice(kind,key,2)!=0; }
void sim_faults_off(){ g_faults_off=true; }
void sim_fault_budget(int k,int n){ g_budget[k]=n; }
uint64_t sim_seq(){ return ++g_seq; }
void sim_event(const char* w,uint64_t a,uint64_t b){ ++g_seq; u64 h=0; for(const char*p=w;*p;p++) h=h*131+*p; sim_mix(h,a*1000003+b); sim_mix(cur->id,g_seq); if(g_verbose) vlog("  [%llu t=%llu] thr%d %s %llu %llu",(unsigned long long)g_seq,(unsigned long long)now_ns(),cur->id,w,(unsigned long long)a,(unsigned long long)b); }
void sim_probe(const char* n,uint64_t c){ if(in_run) probe_add(n,c); }
void sim_note_skip(){ if(in_run) R->skip=1; }
int sim_tid(){ return cur->id; }
int sim_live_threads(){ int c=0; for(int i=1;i<nthr;i++) if(thr[i].st==T_RUN||thr[i].st==T_BLOCK) c++; return c; }
int sim_created_threads(){ return nthr-2; }
void sim_nopreempt(int d){ cur->nopre+=d; }
uint64_t sim_now(){ return now_ns(); }
void sim_point(){ point(16); }
}

// ------------------------------------------------------------------------------ time / events
struct Ev{ u64 at,seq; void(*fn)(void*,u64); void* a; u64 b; };
static Ev evq[4096]; static int nev; static u64 evseq;
static inline u64 gp(){ return g_points+(cur->np-cur->np_in); }
static u64 g_cost=5,g_cost_p0,g_cost_base;
u64 now_ns(){ return 1000000000ull+g_cost_base+(gp()-g_cost_p0)*g_cost+g_jump_ns; }
extern "C" void sim_point_cost(uint64_t ns){ u64 p=gp(); g_cost_base+=(p-g_cost_p0)*g_cost; g_cost_p0=p; g_cost=ns; }
void post_event(u64 at,void(*fn)(void*,u64),void* a,u64 b){
  if(nev>=4096) tool_error("event queue full"); Ev e{at,++evseq,fn,a,b}; int i=nev++;
  while(i>0){ int p=(i-1)/2; if(evq[p].at<e.at||(evq[p].at==e.at&&evq[p].seq<e.seq)) break; evq[i]=evq[p]; i=p; } evq[i]=e;
}
static Ev ev_pop(){ Ev r=evq[0]; Ev e=evq[--nev]; int i=0; for(;;){ int c=2*i+1; if(c>=nev) break; if(c+1<nev&&(evq[c+1].at<evq[c].at||(evq[c+1].at==evq[c].at&&evq[c+1].seq<evq[c].seq))) c++; if(e.at<evq[c].at||(e.at==evq[c].at&&e.seq<evq[c].seq)) break; evq[i]=evq[c]; i=c; } if(nev) evq[i]=e; return r; }
static u64 g_act,lr_act; static int lr_rounds;  // activity seen by the "everybody is only spinning" detector
static void make_run(Thr* t,bool timeout){ lr_rounds=0; t->st=T_RUN; t->timedout=timeout; t->wobj=nullptr; t->deadline=0; t->yielded=false; wleft = (cfg[CF_STRAT]==1 && !RP.on) ? 0 : wleft; }
// fire everything due; idle==true also releases idle sleepers that are due
static void fire_due(bool idle){
  u64 n=now_ns();
  while(nev && evq[0].at<=n){ Ev e=ev_pop(); e.fn(e.a,e.b); }
  for(int i=1;i<nthr;i++){ Thr* t=&thr[i]; if(t->st==T_BLOCK && t->deadline && t->deadline<=n && (!t->is_idle_sleep||idle)) make_run(t,true); }
}
static u64 next_deadline(bool idle){
  u64 d=~0ull; if(nev) d=evq[0].at;
  for(int i=1;i<nthr;i++){ Thr* t=&thr[i]; if(t->st==T_BLOCK&&t->deadline&&t->deadline<d&&(idle||!t->is_idle_sleep)) d=t->deadline; }
  return d;
}
static u64 min_idle_deadline(){ u64 d=~0ull; for(int i=1;i<nthr;i++){ Thr* t=&thr[i]; if(t->st==T_BLOCK&&t->is_idle_sleep&&t->deadline<d) d=t->deadline; } return d; }
static void advance_to(u64 d){ u64 n=now_ns(); if(d>n) g_jump_ns+=d-n; }

// ------------------------------------------------------------------------------ scheduling
extern "C" void sim_switch(void** save,void* rsp,void* fs);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  push %rbp; push %rbx; push %r12; push %r13; push %r14; push %r15
  mov %rsp,(%rdi)
  mov %rsi,%rsp
  wrfsbase %rdx
  pop %r15; pop %r14; pop %r13; pop %r12; pop %rbx; pop %rbp
  ret
.size sim_switch,.-sim_switch
.globl sim_tramp
.type sim_tramp,@function
sim_tramp:
  .cfi_startproc
  .cfi_undefined rip
  xor %ebp,%ebp
  call sim_thread_entry
  hlt
  .cfi_endproc
.size sim_tramp,.-sim_tramp
)");
extern "C" void sim_tramp();
enum { FAIRCAP=20000 };
static u64 pct_cp[16]; static int pct_n,pct_i; static u64 wtotal; static int wset; static u32 pct_low;
static void arm(){
  // sets wleft and trig for the thread that continues
  Thr* c=cur; c->trig=c->np_in+FAIRCAP; if(c->trig<=c->np) c->trig=c->np+FAIRCAP;
  if(RP.on){ wleft=0x7fffffff; while(c->rp<c->rpn && RP.s[c->rp].np<=c->np) c->rp++; if(c->rp<c->rpn && RP.s[c->rp].np<c->trig) c->trig=RP.s[c->rp].np; return; }
  int iv; int st=g_fair?0:cfg[CF_STRAT];
  if(st==1){ if(pct_i<pct_n){ u64 d=pct_cp[pct_i]>wtotal?pct_cp[pct_i]-wtotal:1; iv=d>0x3fffffff?0x3fffffff:(int)d; } else iv=0x3fffffff; }
  else if(st==3) iv=0x3fffffff;
  else { double m=g_fair?2000.0:(double)cfg[CF_INTERVAL]; double u=rs.u(); iv=(int)(-log(1.0-u)*m*16.0)+1; if(iv<1) iv=1; }
  wleft=wset=iv;
}
static void check_limits(){
  u64 p=gp();
  if(p>g_soft && !g_fair){ g_fair=true; g_faults_off=true; }
  if(p>g_hard){ char b[700]; int n=0; b[0]=0; for(int i=1;i<nthr&&n<500;i++) if(thr[i].st==T_RUN||thr[i].st==T_BLOCK) n+=snprintf(b+n,sizeof b-n," t%d:%s/%s",i,thr[i].st==T_RUN?"run":"blocked",thr[i].why?thr[i].why:"-"); sim_fail("no-progress","step limit: run did not finish within %llu points after faults stopped;%s",(unsigned long long)g_hard,b); }
}
static void do_switch(Thr* t){
  if(t==cur) { t->np_in=t->np_in; return; }
  Thr* o=cur; g_points+=o->np-o->np_in; wtotal+= (u64)(wset-wleft>0?wset-wleft:0); wset=wleft;
  g_switches++; g_shash=mix64(g_shash^((u64)t->id<<48)^(o->np&0xffffffffull)*0x9e3779b97f4a7c15ull ^ o->id);
  sim_mix(((u64)o->id<<8)|t->id,o->np);
  t->np_in=t->np; t->yielded=false; t->why=nullptr; cur=t; arm();
  if(g_verbose) vlog("-- switch thr%d -> thr%d (np %llu) t=%llu",o->id,t->id,(unsigned long long)o->np,(unsigned long long)now_ns());
  sim_switch(&o->rsp,t->rsp,t->fsbase);
}
static Thr* default_next(bool include_cur){
  // cyclic after current; not-yielded first
  for(int pass=0;pass<2;pass++) for(int k=1;k<=nthr;k++){ int i=(cur->id+k)%nthr; if(i==0) continue; Thr* t=&thr[i]; if(t->st!=T_RUN) continue; if(t==cur&&!include_cur) continue; if(pass==0&&t->yielded) continue; return t; }
  return nullptr;
}
static Thr* strat_next(bool include_cur){
  Thr* c[MAXT]; int n=0; 
  for(int pass=0;pass<2&&!n;pass++) for(int i=1;i<nthr;i++){ Thr* t=&thr[i]; if(t->st!=T_RUN) continue; if(t==cur&&!include_cur) continue; if(pass==0&&t->yielded) continue; c[n++]=t; }
  if(!n) return nullptr; if(n==1) return c[0];
  int st=g_fair?0:cfg[CF_STRAT];
  if(st==1){ Thr* b=c[0]; for(int i=1;i<n;i++) if(c[i]->prio>b->prio) b=c[i]; return b; }
  if(st==2){ u32 tot=0; for(int i=0;i<n;i++) tot+=c[i]->weight; u32 r=rs.below(tot); for(int i=0;i<n;i++){ if(r<c[i]->weight) return c[i]; r-=c[i]->weight; } }
  return c[rs.below(n)];
}
static int count_run(bool ny){ int c=0; for(int i=1;i<nthr;i++) if(thr[i].st==T_RUN&&(!ny||!thr[i].yielded)) c++; return c; }
static void rec_sched(u16 next){ if(R->ns<MAXSCHED) R->s[R->ns++]={(u16)cur->id,next,0,cur->np}; else R->overflow=true; }
enum : u64 { JUMPMAX=1000000000ull }; // a stall of the whole process never exceeds one second
static bool try_clock_jump(){
  u64 d=next_deadline(false); if(d==~0ull||d<=now_ns()||d-now_ns()>JUMPMAX) return false; if(d>=min_idle_deadline()) return false;
  advance_to(d); fire_due(false); sim_mix(0x1c10c,d); R->faults[SF_CLOCKJUMP]++; vlog("    clock jump to %llu",(unsigned long long)d); return true;
}
void slow_point(){
  check_limits(); fire_due(false);
  Thr* c=cur;
  if(RP.on){
    while(c->rp<c->rpn && RP.s[c->rp].np<=c->np){
      SEnt e=RP.s[c->rp++]; if(e.np<c->np) continue;
      if(e.next==0xffff){ rec_sched(0xffff); try_clock_jump(); continue; }
      Thr* t=e.next<nthr?&thr[e.next]:nullptr;
      if(t&&t->st==T_RUN&&t!=c){ rec_sched(e.next); g_preempts++; do_switch(t); return; }
    }
    if(c->np-c->np_in>=FAIRCAP){ Thr* t=default_next(false); if(t){ do_switch(t); return; } c->np_in=c->np_in; g_points+=c->np-c->np_in; c->np_in=c->np; }
    arm(); return;
  }
  if(c->np-c->np_in>=FAIRCAP){
    if(cfg[CF_STRAT]==1) c->prio=pct_low--;
    Thr* t=default_next(false); if(t){ do_switch(t); return; }
    g_points+=c->np-c->np_in; c->np_in=c->np; arm(); return;
  }
  if(wleft>0){ arm(); return; }
  // strategy decision
  if(!g_fair && g_jumps_left>0 && g_rate[SF_CLOCKJUMP]>0 && rs.u()<g_rate[SF_CLOCKJUMP] && !g_faults_off){ u64 d=next_deadline(false); if(d!=~0ull&&d>now_ns()&&d-now_ns()<=JUMPMAX&&d<min_idle_deadline()){ g_jumps_left--; rec_sched(0xffff); try_clock_jump(); } }
  if(!g_fair && cfg[CF_STRAT]==1){
    wtotal+=(u64)(wset-wleft); wset=wleft;
    while(pct_i<pct_n && pct_cp[pct_i]<=wtotal){ pct_i++; c->prio=pct_low--; }
    Thr* t=strat_next(true); if(t&&t!=c){ rec_sched(t->id); g_preempts++; do_switch(t); return; }
    arm(); return;
  }
  Thr* t=strat_next(false);
  if(t&&t!=c){ if(t->yielded && rs.below(4)){ arm(); return; } rec_sched(t->id); g_preempts++; do_switch(t); return; }
  arm();
}
static void deadlock(){
  char b[700]; int n=0; b[0]=0; for(int i=1;i<nthr&&n<560;i++) if(thr[i].st==T_BLOCK) n+=snprintf(b+n,sizeof b-n," t%d:%s",i,thr[i].why?thr[i].why:"-");
  sim_fail("deadlock","no thread can run and nothing is pending:%s",b);
}
// cur is not runnable (blocked or done) or has yielded: pick someone else
static void resched(bool yielding){
  check_limits();
  for(;;){
    fire_due(false);
    int r=count_run(false);
    if(r==0){ u64 d=next_deadline(true); if(d==~0ull) deadlock(); advance_to(d); fire_due(true); continue; }
    if(yielding && count_run(true)==0){ // everybody yielded: after some rounds without any change, let time pass
      bool quiet=g_act==lr_act; lr_act=g_act; lr_rounds+=quiet?4:1;
      if(lr_rounds<16){ for(int i=1;i<nthr;i++) if(thr[i].st==T_RUN) thr[i].yielded=false; g_jump_ns+=500; break; }
      lr_rounds=0;
      u64 d=next_deadline(true); if(d!=~0ull){ advance_to(d); fire_due(true);} else g_jump_ns+=1000; }
    break;
  }
  if(cur->st==T_RUN && !yielding) { return; }
  Thr* d=default_next(true); Thr* t=d; cur->nblocks++;
  if(RP.on){ // list sorted by (tid,nb)
    u32 lo=0,hi=RP.nb; u64 key=((u64)cur->id<<32)|cur->nblocks;
    while(lo<hi){ u32 m=(lo+hi)/2; u64 k=((u64)RP.b[m].tid<<32)|RP.b[m].nb; if(k<key) lo=m+1; else hi=m; }
    if(lo<RP.nb && RP.b[lo].tid==cur->id && RP.b[lo].nb==cur->nblocks){ u16 x=RP.b[lo].next; if(x<nthr&&thr[x].st==T_RUN) t=&thr[x]; }
  } else t=strat_next(true);
  if(t!=d){ if(R->nb<MAXBLOCK) R->b[R->nb++]={(u16)cur->id,(u16)t->id,cur->nblocks}; else R->overflow=true; }
  if(t==cur){ t->yielded=false; arm(); return; }
  do_switch(t);
}
bool block_on(const void* obj,u64 deadline,const char* why){
  if(!active) tool_error("blocking call outside a simulated run");
  Thr* c=cur; lr_rounds=0; c->st=T_BLOCK; c->wobj=obj; c->deadline=deadline; c->why=why; c->timedout=false; c->is_idle_sleep=false;
  resched(false); c->why=nullptr; 
  return c->timedout;
}
int wake_obj(const void* obj,int maxn){ int n=0; for(int i=1;i<nthr&&n<maxn;i++) if(thr[i].st==T_BLOCK&&thr[i].wobj==obj){ make_run(&thr[i],false); n++; } return n; }
int count_waiters(const void* obj){ int n=0; for(int i=1;i<nthr;i++) if(thr[i].st==T_BLOCK&&thr[i].wobj==obj) n++; return n; }
static void do_yield(){ if(!active) return; point(16); Thr* c=cur; c->yielded=true; c->why="yield"; if(cfg[CF_STRAT]==1&&!RP.on) c->prio=pct_low--; resched(true); c->yielded=false; }
extern "C" {
void sim_yield(){ do_yield(); }
void sim_sleep(uint64_t ns){ Thr* c=cur; c->st=T_BLOCK; c->wobj=nullptr; c->deadline=now_ns()+ns; c->why="idle-sleep"; c->is_idle_sleep=true; c->timedout=false; resched(false); c->is_idle_sleep=false; }
}
static void timed_sleep(u64 ns){ u64 q=(u64)cfg[CF_SLEEPQ]*1000; if(ns<q) ns=q; block_on(nullptr,now_ns()+ns,"sleep"); }

// ------------------------------------------------------------------------------ threads
static u64 park_fs[MAXT]; static char* park_sp[MAXT]; static volatile int park_ready; 
static void* park_main(void* a){ long i=(long)a; park_fs[i]=rdfs(); char x; park_sp[i]=&x; __atomic_store_n(&park_ready,1,__ATOMIC_SEQ_CST); for(;;) raw_syscall(SYS_pause); return nullptr; }
static void make_tcbs(){
  typedef int (*pc_t)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*); pc_t rc_=(pc_t)dlsym(RTLD_NEXT,"pthread_create");
  if(!rc_){ fprintf(stderr,"no pthread_create\n"); exit(3); }
  void* m=mmap(STACKS,(size_t)STACKSZ*MAXT,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
  if(m!=STACKS){ fprintf(stderr,"stack map failed\n"); exit(3); }
  sigset_t all,old; sigfillset(&all); sigprocmask(SIG_BLOCK,&all,&old);
  for(int i=1;i<MAXT;i++){
    char* lo=STACKS+(size_t)STACKSZ*i; mprotect(lo,4096,PROT_NONE);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,lo+4096,STACKSZ-4096);
    pthread_t t; park_ready=0; if(rc_(&t,&at,park_main,(void*)(long)i)){ fprintf(stderr,"cannot create tcb %d\n",i); exit(3); }
    pthread_attr_destroy(&at);
    while(!__atomic_load_n(&park_ready,__ATOMIC_SEQ_CST)) raw_syscall(SYS_sched_yield);
    thr[i].id=i; thr[i].fsbase=(void*)park_fs[i]; thr[i].stack_lo=lo+4096; thr[i].stack_top=(char*)(((u64)park_sp[i]-8192)&~63ull);
  }
  sigprocmask(SIG_SETMASK,&old,nullptr);
}
static struct KeyD{ bool used; void(*d)(void*); } keyd[64];
static void run_exit(Thr* c){
  while(c->dtors){ Dtor* d=c->dtors; c->dtors=d->next; d->fn(d->arg); heap_free(d); }
  for(int it=0;it<4;it++){ bool any=false; for(int k=0;k<64;k++) if(c->keys[k]){ void* v=c->keys[k]; c->keys[k]=nullptr; if(keyd[k].used&&keyd[k].d){ any=true; keyd[k].d(v);} } if(!any) break; while(c->dtors){ Dtor* d=c->dtors; c->dtors=d->next; d->fn(d->arg); heap_free(d);} }
}
extern "C" __attribute__((used,visibility("hidden"))) void sim_thread_entry(){
  Thr* c=cur;
  c->ret=c->start(c->arg);
  run_exit(c);
  hb_release(c->fsbase);
  c->st=T_DONE; wake_obj(c,MAXT); sim_mix(0xdead,c->id);
  resched(false); for(;;) __builtin_trap();
}
static Thr* new_thread(void*(*fn)(void*),void* arg){
  if(nthr>=MAXT) return nullptr;
  Thr* t=&thr[nthr++]; t->st=T_RUN; t->start=fn; t->arg=arg; t->np=t->np_in=0; t->trig=FAIRCAP; t->nopre=0; t->allocwin=0;
  u64* sp=(u64*)t->stack_top; *--sp=0; *--sp=0; *--sp=(u64)&sim_tramp; for(int i=0;i<6;i++) *--sp=0; t->rsp=sp;
  t->prio=0x40000000u+rs.below(0x40000000u); static const u32 ws[4]={1,4,16,64}; t->weight=ws[rs.below(4)];
  if(g_hb){ t->vc=(u32*)heap_alloc(MAXT*4,16); t->acqf=(u32*)heap_alloc(MAXT*4,16); t->relf=(u32*)heap_alloc(MAXT*4,16); memset(t->vc,0,MAXT*4); memset(t->acqf,0,MAXT*4); memset(t->relf,0,MAXT*4); if(cur->vc){ memcpy(t->vc,cur->vc,MAXT*4); cur->vc[cur->id]++; } t->vc[t->id]=1; }
  if(RP.on){ u32 lo=0; while(lo<RP.ns&&RP.s[lo].tid<t->id) lo++; u32 hi=lo; while(hi<RP.ns&&RP.s[hi].tid==t->id) hi++; t->rp=lo; t->rpn=hi; }
  return t;
}
static Thr* by_handle(pthread_t h){ for(int i=0;i<nthr;i++) if((u64)thr[i].fsbase==(u64)h) return &thr[i]; return nullptr; }
extern "C" {
int pthread_create(pthread_t* out,const pthread_attr_t* at,void*(*fn)(void*),void* arg){
  if(!in_run) tool_error("pthread_create outside run");
  point(16);
  if(sim_fault(SF_THREADCREATE,nthr)) return EAGAIN;
  Thr* t=new_thread(fn,arg); if(!t) { tool_error("too many threads"); return EAGAIN; }
  int ds=0; if(at) pthread_attr_getdetachstate(at,&ds); t->detached=ds==PTHREAD_CREATE_DETACHED;
  *out=(pthread_t)t->fsbase; sim_mix(0xc4ea7e,t->id); R->threads++;
  if(cfg[CF_STRAT]==1&&!RP.on) wleft=0;
  point(16); return 0;
}
int pthread_join(pthread_t h,void** ret){
  Thr* t=by_handle(h); if(!t||t->detached||t->joined) { if(in_run) sim_fail("bad-join","pthread_join of a thread that is detached, joined or unknown"); return ESRCH; }
  if(t==cur) return EDEADLK;
  point(16); while(t->st!=T_DONE) block_on(t,0,"join");
  t->joined=true; hb_acquire(t->fsbase); if(ret) *ret=t->ret; return 0;
}
int pthread_detach(pthread_t h){ Thr* t=by_handle(h); if(!t) return ESRCH; if(t->detached||t->joined){ if(in_run) sim_fail("bad-join","pthread_detach of a thread already detached or joined"); return EINVAL; } t->detached=true; point(16); return 0; }
int pthread_setname_np(pthread_t,const char*){ return 0; }
int pthread_setaffinity_np(pthread_t,size_t,const cpu_set_t*){ return 0; }
int sched_setaffinity(pid_t,size_t,const cpu_set_t*) noexcept { return 0; }
int sched_getcpu() noexcept { return 0; }
void pthread_exit(void*){ tool_error("pthread_exit unsupported"); __builtin_unreachable(); }

// mutexes: glibc layout: [0] lock(owner id+1) [4] count [16] kind
struct SMutex{ int owner; u32 count; u32 pad[2]; int kind; };
int pthread_mutex_init(pthread_mutex_t* m,const pthread_mutexattr_t* a){ memset(m,0,sizeof *m); if(a){ int k=0; pthread_mutexattr_gettype(a,&k); ((SMutex*)m)->kind=k; } return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m){ SMutex* s=(SMutex*)m; chk(m,4,1); if(s->owner&&active) { sim_fail("mutex-destroyed-locked","mutex destroyed while thread %d holds it",s->owner-1); } return 0; }
int pthread_mutex_lock(pthread_mutex_t* m){ SMutex* s=(SMutex*)m; point(16); chk(m,4,1); int me=cur->id+1;
  if(s->owner==me){ if((s->kind&3)==PTHREAD_MUTEX_RECURSIVE){ s->count++; return 0;} if((s->kind&3)==PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; if(active) sim_fail("deadlock","thread %d relocks a non-recursive mutex it holds",cur->id); }
  while(s->owner) block_on(m,0,"mutex");
  s->owner=me; s->count=1; hb_acquire(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m){ SMutex* s=(SMutex*)m; point(16); chk(m,4,1); int me=cur->id+1; if(s->owner==me&&(s->kind&3)==PTHREAD_MUTEX_RECURSIVE){ s->count++; return 0;} if(s->owner) return EBUSY; s->owner=me; s->count=1; hb_acquire(m); return 0; }
static u64 abs_to_deadline(clockid_t c,const struct timespec* ts){ u64 v=(u64)ts->tv_sec*1000000000ull+ts->tv_nsec; if(ts->tv_sec<0) return 1; if(c==CLOCK_REALTIME){ v=v>base_real?v-base_real:1; } if(v==0) v=1; return v; }
static int mutex_until(pthread_mutex_t* m,u64 dl){ SMutex* s=(SMutex*)m; point(16); chk(m,4,1); int me=cur->id+1; if(s->owner==me&&(s->kind&3)==PTHREAD_MUTEX_RECURSIVE){ s->count++; return 0;} while(s->owner){ if(block_on(m,dl,"mutex-timed")&&s->owner) return ETIMEDOUT; } s->owner=me; s->count=1; hb_acquire(m); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m,const struct timespec* ts){ return mutex_until(m,abs_to_deadline(CLOCK_REALTIME,ts)); }
int pthread_mutex_clocklock(pthread_mutex_t* m,clockid_t c,const struct timespec* ts){ return mutex_until(m,abs_to_deadline(c,ts)); }
static void mutex_release(SMutex* s,void* m){ hb_release(m); s->owner=0; s->count=0; wake_obj(m,MAXT); }
int pthread_mutex_unlock(pthread_mutex_t* m){ SMutex* s=(SMutex*)m; chk(m,4,1);
  if(s->owner!=cur->id+1){ if(active) sim_fail("mutex-misuse","thread %d unlocks a mutex held by %d",cur->id,s->owner-1); return EPERM; }
  if(--s->count) return 0; mutex_release(s,m); point(16); return 0; }
// condition variables: [0]: clock id, [8]: sequence
struct SCond{ int clock; int pad; };
int pthread_cond_init(pthread_cond_t* c,const pthread_condattr_t* a){ memset(c,0,sizeof *c); if(a){ clockid_t k=CLOCK_REALTIME; pthread_condattr_getclock(a,&k); ((SCond*)c)->clock=k; } return 0; }
int pthread_cond_destroy(pthread_cond_t* c){ chk(c,4,1); if(active&&count_waiters(c)) sim_fail("cond-destroyed-waited","condition variable destroyed while a thread waits on it"); return 0; }
static int cond_wait_until(pthread_cond_t* c,pthread_mutex_t* m,u64 dl,const char* why){
  SMutex* s=(SMutex*)m; chk(c,4,1); chk(m,4,1); point(16);
  if(s->owner!=cur->id+1&&active) sim_fail("mutex-misuse","condition wait without holding the mutex");
  u32 cnt=s->count; bool to=false; bool spur=active&&sim_fault(SF_SPURIOUS,((u64)cur->id<<40)|cur->cnt_spur++);
  mutex_release(s,m);
  if(spur){ point(16); do_yield(); } else to=block_on(c,dl,why);
  chk(m,4,1);
  while(s->owner) block_on(m,0,"mutex-after-wait");
  s->owner=cur->id+1; s->count=cnt; hb_acquire(m);
  return to?ETIMEDOUT:0;
}
int pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){ return cond_wait_until(c,m,0,"cond"); }
int pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const struct timespec* ts){ u64 d=abs_to_deadline(((SCond*)c)->clock,ts); u64 q=now_ns()+(u64)cfg[CF_SLEEPQ]*1000; if(d<q) d=q; return cond_wait_until(c,m,d,"cond-timed"); }
int pthread_cond_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t k,const struct timespec* ts){ u64 d=abs_to_deadline(k,ts); u64 q=now_ns()+(u64)cfg[CF_SLEEPQ]*1000; if(d<q) d=q; return cond_wait_until(c,m,d,"cond-timed"); }
int pthread_cond_signal(pthread_cond_t* c){ chk(c,4,1); point(16); int n=count_waiters(c); if(n==0) return 0; u32 k=0; if(n>1) k=sparse_choice(SF_WAKEORDER,((u64)cur->id<<40)|cur->cnt_wake++,n); 
  for(int i=1;i<nthr;i++) if(thr[i].st==T_BLOCK&&thr[i].wobj==c){ if(k--==0){ make_run(&thr[i],false); break; } } point(16); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c){ chk(c,4,1); point(16); wake_obj(c,MAXT); point(16); return 0; }
// rwlocks: [0] writer+1, [4] readers
struct SRw{ int w; int r; };
int pthread_rwlock_init(pthread_rwlock_t* l,const pthread_rwlockattr_t*){ memset(l,0,sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*){ return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l){ SRw* s=(SRw*)l; point(16); chk(l,4,1); while(s->w) block_on(l,0,"rdlock"); s->r++; hb_acquire(l); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l){ SRw* s=(SRw*)l; point(16); chk(l,4,1); while(s->w||s->r) block_on(l,0,"wrlock"); s->w=cur->id+1; hb_acquire(l); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l){ SRw* s=(SRw*)l; point(16); if(s->w) return EBUSY; s->r++; hb_acquire(l); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l){ SRw* s=(SRw*)l; point(16); if(s->w||s->r) return EBUSY; s->w=cur->id+1; hb_acquire(l); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l){ SRw* s=(SRw*)l; chk(l,4,1); hb_release(l); if(s->w) s->w=0; else s->r--; wake_obj(l,MAXT); point(16); return 0; }
// spin locks
int pthread_spin_init(pthread_spinlock_t* l,int) noexcept { *l=0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) noexcept { return 0; }
int pthread_spin_lock(pthread_spinlock_t* l) noexcept { point(16); while(*l) do_yield(); *l=1; hb_acquire((void*)l); return 0; }
int pthread_spin_trylock(pthread_spinlock_t* l) noexcept { point(16); if(*l) return EBUSY; *l=1; hb_acquire((void*)l); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* l) noexcept { hb_release((void*)l); *l=0; point(16); return 0; }
// once: 0 new, 1 running, 2 done
int pthread_once(pthread_once_t* o,void(*fn)()){
  point(16); int* s=(int*)o; if(*s==2){ hb_acquire(o); return 0; }
  while(*s==1) block_on(o,0,"once"); if(*s==2){ hb_acquire(o); return 0; }
  *s=1; 
  struct G{ int* s; bool ok; ~G(){ *s=ok?2:0; wake_obj(s,MAXT);} } g{s,false};
  fn(); g.ok=true; hb_release(o); return 0; }
int __cxa_guard_acquire(u64* g){ u8* b=(u8*)g; point(16); if(b[0]){ hb_acquire(g); return 0; } while(b[1]){ block_on(g,0,"guard"); if(b[0]){ hb_acquire(g); return 0; } } b[1]=1; return 1; }
void __cxa_guard_release(u64* g){ u8* b=(u8*)g; hb_release(g); b[0]=1; b[1]=0; wake_obj(g,MAXT); point(16); }
void __cxa_guard_abort(u64* g){ u8* b=(u8*)g; b[1]=0; wake_obj(g,MAXT); }
// keys
int pthread_key_create(pthread_key_t* k,void(*d)(void*)){ for(int i=0;i<64;i++) if(!keyd[i].used){ keyd[i]={true,d}; *k=i; for(int t=0;t<MAXT;t++) thr[t].keys[i]=nullptr; return 0; } return EAGAIN; }
int pthread_key_delete(pthread_key_t k) { if(k<64) keyd[k].used=false; return 0; }
void* pthread_getspecific(pthread_key_t k) { return k<64?cur->keys[k]:nullptr; }
int pthread_setspecific(pthread_key_t k,const void* v) { if(k>=64) return EINVAL; cur->keys[k]=(void*)v; return 0; }
static int add_dtor(void(*fn)(void*),void* arg){ Dtor* d=(Dtor*)heap_alloc(sizeof(Dtor),16); d->fn=fn; d->arg=arg; d->next=cur->dtors; cur->dtors=d; return 0; }
int __cxa_thread_atexit(void(*fn)(void*),void* arg,void*){ return add_dtor(fn,arg); }
int __cxa_thread_atexit_impl(void(*fn)(void*),void* arg,void*){ return add_dtor(fn,arg); }
// scheduling / time
int sched_yield() noexcept { do_yield(); return 0; }
int nanosleep(const struct timespec* r,struct timespec*){ if(!active) return 0; point(16); timed_sleep((u64)r->tv_sec*1000000000ull+r->tv_nsec); return 0; }
int clock_nanosleep(clockid_t c,int fl,const struct timespec* r,struct timespec*){ if(!active) return 0; point(16); if(fl&TIMER_ABSTIME){ u64 d=abs_to_deadline(c,r),n=now_ns(); timed_sleep(d>n?d-n:0);} else timed_sleep((u64)r->tv_sec*1000000000ull+r->tv_nsec); return 0; }
int usleep(useconds_t u){ if(!active) return 0; point(16); timed_sleep((u64)u*1000); return 0; }
unsigned sleep(unsigned s){ if(!active) return 0; timed_sleep((u64)s*1000000000ull); return 0; }
int clock_gettime(clockid_t c,struct timespec* ts) noexcept { if(!in_run) return (int)raw_syscall(SYS_clock_gettime,c,(long)ts); point(2); u64 n=now_ns(); if(c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE) n+=base_real; ts->tv_sec=n/1000000000ull; ts->tv_nsec=n%1000000000ull; return 0; }
int gettimeofday(struct timeval* tv,void*) noexcept { if(!in_run) return (int)raw_syscall(SYS_gettimeofday,(long)tv,0); u64 n=now_ns()+base_real; tv->tv_sec=n/1000000000ull; tv->tv_usec=n%1000000000ull/1000; return 0; }
time_t time(time_t* t) noexcept { u64 n=in_run?(now_ns()+base_real)/1000000000ull:0; if(!in_run){ timespec ts; raw_syscall(SYS_clock_gettime,0,(long)&ts); n=ts.tv_sec;} if(t) *t=n; return n; }
// futex through syscall()
long syscall(long n,...) noexcept {
  va_list ap; va_start(ap,n); long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long),e=va_arg(ap,long),f=va_arg(ap,long); va_end(ap);
  if(n==SYS_futex && in_run){
    int op=b&~(FUTEX_PRIVATE_FLAG|FUTEX_CLOCK_REALTIME); u32* addr=(u32*)a;
    if(op==FUTEX_WAIT||op==FUTEX_WAIT_BITSET){ point(16); chk(addr,4,0); if(*addr!=(u32)c){ errno=EAGAIN; return -1; }
      u64 dl=0; if(d){ const timespec* ts=(const timespec*)d; if(op==FUTEX_WAIT) dl=now_ns()+(u64)ts->tv_sec*1000000000ull+ts->tv_nsec; else dl=abs_to_deadline((b&FUTEX_CLOCK_REALTIME)?CLOCK_REALTIME:CLOCK_MONOTONIC,ts); u64 q=now_ns()+(u64)cfg[CF_SLEEPQ]*1000; if(dl<q) dl=q; }
      if(active&&sim_fault(SF_SPURIOUS,((u64)cur->id<<40)|cur->cnt_spur++)){ do_yield(); return 0; }
      if(block_on(addr,dl,"futex")){ errno=ETIMEDOUT; return -1; } return 0; }
    if(op==FUTEX_WAKE||op==FUTEX_WAKE_BITSET){ point(16); int w=wake_obj(addr,c>MAXT?MAXT:(int)c); point(16); return w; }
    tool_error("unsupported futex op");
  }
  if(n==SYS_gettid&&in_run) return 1000+cur->id;
  long r=raw_syscall(n,a,b,c,d,e,f); if(r<0&&r>-4096){ errno=-r; return -1; } return r;
}
void __assert_fail(const char* e,const char* f,unsigned l,const char* fn) noexcept { if(in_run) sim_fail("assertion","%s failed in %s",e,fn); fprintf(stderr,"assert %s %s:%u\n",e,f,l); _exit(3); }
void abort() noexcept { if(in_run) sim_fail("abort","abort() called"); _exit(134); }
int getentropy(void* b,size_t n){ u8* p=(u8*)b; for(size_t i=0;i<n;i++) p[i]=(u8)re.next(); return 0; }
ssize_t getrandom(void* b,size_t n,unsigned){ getentropy(b,n); return n; }
}

// ------------------------------------------------------------------------------ tsan ABI
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init(){}
void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define PW ((int)plainw)
static int plainw=1;
#define RW(n,sz) \
 void __tsan_read##n(void* a){ point(PW); chk(a,sz,0);} void __tsan_write##n(void* a){ point(PW); chk(a,sz,1);} \
 void __tsan_unaligned_read##n(void* a){ point(PW); chk(a,sz,0);} void __tsan_unaligned_write##n(void* a){ point(PW); chk(a,sz,1);} \
 void __tsan_volatile_read##n(void* a){ point(16); chk(a,sz,0);} void __tsan_volatile_write##n(void* a){ point(16); chk(a,sz,1);} \
 void __tsan_unaligned_volatile_read##n(void* a){ point(16); chk(a,sz,0);} void __tsan_unaligned_volatile_write##n(void* a){ point(16); chk(a,sz,1);}
RW(1,1) RW(2,2) RW(4,4) RW(8,8) RW(16,16)
void __tsan_read_range(void* a,long n){ point(PW); if(n>0){ chk(a,1,0); chk((char*)a+n-1,1,0);} }
void __tsan_write_range(void* a,long n){ point(PW); if(n>0){ chk(a,1,1); chk((char*)a+n-1,1,1);} }
void __tsan_vptr_update(void** a,void*){ point(PW); chk(a,8,1); }
void __tsan_vptr_read(void** a){ point(PW); chk(a,8,0); }
void __tsan_atomic_thread_fence(int mo){ point(16); if(!g_hb) return; if(mo==__ATOMIC_ACQUIRE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST||mo==__ATOMIC_CONSUME) vjoin(cur->vc,cur->acqf); if(mo==__ATOMIC_RELEASE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST){ memcpy(cur->relf,cur->vc,MAXT*4); cur->hasrel=true; cur->vc[cur->id]++; } }
void __tsan_atomic_signal_fence(int){}
static inline int weakfail(){ return active&&!cur->nopre&&sim_fault(SF_WEAKCAS,((u64)cur->id<<40)|cur->cnt_weak++); }
#define AT(bits,T) \
 T __tsan_atomic##bits##_load(const volatile T* a,int mo){ point(16); chk((void*)a,sizeof(T),0); T v=__atomic_load_n(a,__ATOMIC_SEQ_CST); hb_atomic_load((void*)a,mo); return v; } \
 void __tsan_atomic##bits##_store(volatile T* a,T v,int mo){ point(16); g_act++; chk((void*)a,sizeof(T),1); hb_atomic_store((void*)a,mo); __atomic_store_n(a,v,__ATOMIC_SEQ_CST); } \
 T __tsan_atomic##bits##_exchange(volatile T* a,T v,int mo){ point(16); g_act++; chk((void*)a,sizeof(T),1); T r=__atomic_exchange_n(a,v,__ATOMIC_SEQ_CST); hb_atomic_rmw((void*)a,mo); return r; } \
 T __tsan_atomic##bits##_fetch_add(volatile T* a,T v,int mo){ point(16); g_act++; chk((void*)a,sizeof(T),1); T r=*a; *a=r+v; hb_atomic_rmw((void*)a,mo); return r; } \
 T __tsan_atomic##bits##_fetch_sub(volatile T* a,T v,int mo){ point(16); g_act++; chk((void*)a,sizeof(T),1); T r=*a; *a=r-v; hb_atomic_rmw((void*)a,mo); return r; } \
 T __tsan_atomic##bits##_fetch_and(volatile T* a,T v,int mo){ point(16); g_act++; chk((void*)a,sizeof(T),1); T r=*a; *a=r&v; hb_atomic_rmw((void*)a,mo); return r; } \
 T __tsan_atomic##bits##_fetch_or(volatile T* a,T v,int mo){ point(16); g_act++; chk((void*)a,sizeof(T),1); T r=*a; *a=r|v; hb_atomic_rmw((void*)a,mo); return r; } \
 T __tsan_atomic##bits##_fetch_xor(volatile T* a,T v,int mo){ point(16); g_act++; chk((void*)a,sizeof(T),1); T r=*a; *a=r^v; hb_atomic_rmw((void*)a,mo); return r; } \
 T __tsan_atomic##bits##_fetch_nand(volatile T* a,T v,int mo){ point(16); chk((void*)a,sizeof(T),1); T r=*a; *a=~(r&v); hb_atomic_rmw((void*)a,mo); return r; } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a,T* c,T v,int mo,int fmo){ point(16); chk((void*)a,sizeof(T),1); T r=*a; if(r==*c){ g_act++; *a=v; hb_atomic_rmw((void*)a,mo); return 1;} *c=r; hb_atomic_load((void*)a,fmo); return 0; } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a,T* c,T v,int mo,int fmo){ point(16); chk((void*)a,sizeof(T),1); T r=*a; if(r==*c && !weakfail()){ g_act++; *a=v; hb_atomic_rmw((void*)a,mo); return 1;} *c=r; hb_atomic_load((void*)a,fmo); return 0; } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T* a,T c,T v,int mo,int fmo){ point(16); chk((void*)a,sizeof(T),1); T r=*a; if(r==c){ g_act++; *a=v; hb_atomic_rmw((void*)a,mo);} else hb_atomic_load((void*)a,fmo); return r; }
AT(8,u8) AT(16,u16) AT(32,u32) AT(64,u64)
typedef unsigned __int128 u128;
int __tsan_atomic128_compare_exchange_strong(volatile u128* a,u128* c,u128 v,int mo,int fmo){ point(16); u128 r=*a; if(r==*c){ g_act++; *a=v; hb_atomic_rmw((void*)a,mo); return 1;} *c=r; hb_atomic_load((void*)a,fmo); return 0; }
int __tsan_atomic128_compare_exchange_weak(volatile u128* a,u128* c,u128 v,int mo,int fmo){ return __tsan_atomic128_compare_exchange_strong(a,c,v,mo,fmo); }
u128 __tsan_atomic128_load(const volatile u128* a,int mo){ point(16); u128 r=*a; hb_atomic_load((void*)a,mo); return r; }
void __tsan_atomic128_store(volatile u128* a,u128 v,int mo){ point(16); hb_atomic_store((void*)a,mo); *a=v; }
}

// ------------------------------------------------------------------------------ one run
static void on_signal(int s,siginfo_t* si,void* uc){
  if(s==SIGALRM){ active=false; snprintf(R->cls,sizeof R->cls,"wall-timeout"); snprintf(R->msg,sizeof R->msg,"run used too much real time"); R->status=2; R->hash=0; raw_syscall(SYS_exit_group,0); }
  u64 a=(u64)si->si_addr; const char* x=""; if(a>=(u64)STACKS&&a<(u64)STACKS+(u64)STACKSZ*MAXT&&(a%STACKSZ)<4096) x=" (stack overflow)";
  ucontext_t* u=(ucontext_t*)uc; if(g_verbose) vlog("signal %d rip %llx addr %llx",s,(unsigned long long)u->uc_mcontext.gregs[REG_RIP],(unsigned long long)a);
  sim_fail("crash","signal %d%s, address %s",s,x,a<4096?"near null":(a>=(u64)HEAP&&a<(u64)HEAP+HEAPSZ)?"in heap":"elsewhere");
}
static void on_terminate(){
  const char* n="no active exception"; const char* w="";
  if(std::type_info* t=abi::__cxa_current_exception_type()){ n=t->name(); try{ throw; }catch(std::exception& e){ w=e.what(); }catch(...){} }
  sim_fail("terminate","std::terminate called (%s %s)",n,w);
}
static void* scn_start(void*);
static sim_scenario* scn_list; static int nscn;
sim_scenario::sim_scenario(const char* p,const char* n,void(*f)(),unsigned fl,int w,unsigned long long lim):prop(p),name(n),fn(f),flags(fl),weight(w),next(nullptr),index(nscn++),limit(lim){ sim_scenario** q=&scn_list; while(*q) q=&(*q)->next; *q=this; }

static void choose_cfg(){
  if(RP.on){ memcpy(cfg,RP.cfg,sizeof cfg); }
  else {
    static const u32 iv[]={1,2,4,8,20,60,200,800}; u32 r=rc.below(100);
    cfg[CF_STRAT]=r<42?0:r<80?1:r<96?2:3; cfg[CF_INTERVAL]=iv[rc.below(8)]; cfg[CF_DEPTH]=1+rc.below(6);
    static const u32 pw[]={0,0,1,2,4,16}; cfg[CF_PLAINW]=pw[rc.below(6)];
    cfg[CF_REUSE]=(g_scn->flags&SIM_NO_REUSE)?0:rc.below(2); static const u32 sq[]={1000,3000,10000,50}; cfg[CF_SLEEPQ]=sq[rc.below(4)];
    u32 e=300; int k=rc.below(9); while(k--) e*=2; cfg[CF_EST]=e; cfg[CF_RATE]=rc.below(4); cfg[CF_NJUMP]=(g_scn->flags&SIM_NO_CLOCKJUMP)?0:rc.below(3)==0?0:1+rc.below(12);
    if(g_scn->flags&SIM_HB) cfg[CF_REUSE]=0;
  }
  memcpy(R->cfg,cfg,sizeof cfg);
  g_act=lr_act=0; lr_rounds=0;
  plainw=cfg[CF_PLAINW]; g_jumps_left=cfg[CF_NJUMP];
  static const double rates[]={0.0,0.02,0.08,0.3};
  for(int k=0;k<SF_COUNT;k++){ u32 q=rc.below(4); g_rate[k]=cfg[CF_RATE]==0?0.0:rates[(cfg[CF_RATE]+q)%4]; g_budget[k]=0; }
  g_rate[SF_CLOCKJUMP]=cfg[CF_NJUMP]?0.05:0; g_budget[SF_SPURIOUS]=(g_scn->flags&SIM_NO_SPURIOUS)?0:4; g_budget[SF_WEAKCAS]=40; g_budget[SF_WAKEORDER]=1000; g_rate[SF_WAKEORDER]=0.5;
  if(cfg[CF_STRAT]==1&&!RP.on){ pct_n=cfg[CF_DEPTH]; for(int i=0;i<pct_n;i++) pct_cp[i]=(u64)(rs.u()*cfg[CF_EST])*16; for(int i=0;i<pct_n;i++) for(int j=i+1;j<pct_n;j++) if(pct_cp[j]<pct_cp[i]){ u64 t=pct_cp[i]; pct_cp[i]=pct_cp[j]; pct_cp[j]=t; } pct_low=0x3fffffff; }
}
static char altstk[65536] __attribute__((aligned(64)));
static int wall_limit=20;
static void child_run(const sim_scenario* sc,u64 seed){
  // runs in the freshly forked process; never returns
  g_scn=sc; g_seed=seed; rs.s=mix64(seed^0x5c4ed); rw.s=mix64(seed^0x30ad); rc.s=mix64(seed^0xcf6); re.s=mix64(seed^0xe47);
  stack_t ss{}; ss.ss_sp=altstk; ss.ss_size=sizeof altstk; sigaltstack(&ss,nullptr);
  struct sigaction sa{}; sa.sa_sigaction=on_signal; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGALRM,SIGTRAP}) sigaction(s,&sa,nullptr);
  signal(SIGPIPE,SIG_IGN); alarm(wall_limit);
  std::set_terminate(on_terminate);
  char* start=HEAP+(64<<20); if(hp>start) tool_error("warm heap too large"); hp=start; g_live=0;
  g_hb=(sc->flags&SIM_HB)!=0; if(sc->limit){ g_hard=sc->limit; g_soft=g_hard/10; }
  if(g_hb){ synct=(SyncV*)mmap((void*)0x130000000000ull,sizeof(SyncV)*SYNCN,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); }
  in_run=true; choose_cfg();
  nthr=1; cur=&thr[0];
  Thr* m=new_thread(scn_start,nullptr); m->detached=true;
  cur=m; arm(); active=true;
  // scenario end is detected in sim_thread_entry via done_hook
  sim_switch(&thr[0].rsp,m->rsp,m->fsbase);
  __builtin_trap();
}
static void* scn_start(void*){ 
  g_scn->fn();
  // end of scenario: give leftovers a chance, then check them
  for(int i=0;i<3&&sim_live_threads()>1;i++) sim_sleep(10000000000ull);
  if(!(g_scn->flags&SIM_ALLOW_LEFTOVER)&&sim_live_threads()>1){ char b[300]; int n=0; b[0]=0; for(int i=2;i<nthr&&n<250;i++) if(thr[i].st==T_RUN||thr[i].st==T_BLOCK) n+=snprintf(b+n,sizeof b-n," t%d:%s",i,thr[i].why?thr[i].why:"-"); sim_fail("thread-leak","%d thread(s) still alive after everything was destroyed:%s",sim_live_threads()-1,b); }
  active=false; finish_result(); R->status=1; raw_syscall(SYS_exit_group,0); return nullptr; }

// ------------------------------------------------------------------------------ driver
void* shm_alloc(size_t n){ void* p=mmap(nullptr,n,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED){ perror("mmap"); exit(3);} return p; }
static long raw_fork(){ return raw_syscall(SYS_clone,SIGCHLD,0,0,0,0); }
static void reset_result(Result* r){ r->status=0; r->cls[0]=r->msg[0]=0; r->hash=r->points=r->switches=r->vtime=r->preempts=r->events=r->allocs=r->sched_hash=0; r->threads=0; r->skip=0; memset(r->faults,0,sizeof r->faults); r->nprobe=0; r->ns=r->nb=r->nf=r->npk=0; r->overflow=false; }
static void run_child(Result* r,const sim_scenario* sc,u64 seed){
  reset_result(r); long pid=raw_fork();
  if(pid==0){ R=r; const_cast<sim_scenario*>(sc); child_run(sc,seed); }
  int st=0; raw_syscall(SYS_wait4,pid,(long)&st,0,0);
  if(r->status==0){ if(WIFSIGNALED(st)){ snprintf(r->cls,sizeof r->cls,"killed"); snprintf(r->msg,sizeof r->msg,"killed by signal %d",WTERMSIG(st)); } else { snprintf(r->cls,sizeof r->cls,"exit"); snprintf(r->msg,sizeof r->msg,"process exited with %d inside the run",WEXITSTATUS(st)); } r->status=WIFSIGNALED(st)?3:2; }
}
static int cmp_s(const void* a,const void* b){ const SEnt*x=(const SEnt*)a,*y=(const SEnt*)b; if(x->tid!=y->tid) return x->tid<y->tid?-1:1; return x->np<y->np?-1:x->np>y->np?1:0; }
static int cmp_b(const void* a,const void* b){ const BEnt*x=(const BEnt*)a,*y=(const BEnt*)b; if(x->tid!=y->tid) return x->tid<y->tid?-1:1; return x->nb<y->nb?-1:x->nb>y->nb; }
static void write_replay(const char* path,Result* r,const sim_scenario* sc,u64 vseed,u64 idx,u64 seed){
  FILE* f=fopen(path,"w"); if(!f){ perror(path); return; }
  fprintf(f,"simreplay 1\nprop %s\nscenario %s\nseed %llu index %llu derived %llu\n",sc->prop,sc->name,(unsigned long long)vseed,(unsigned long long)idx,(unsigned long long)seed);
  fprintf(f,"expect %s %016llx\nmsg %s\n",r->cls[0]?r->cls:"ok",(unsigned long long)r->hash,r->msg);
  fprintf(f,"cfg"); for(int i=0;i<CF_N;i++) fprintf(f," %s=%u",cfname[i],r->cfg[i]); fprintf(f,"\npicks %u",r->npk); for(u32 i=0;i<r->npk;i++) fprintf(f," %u",r->pk[i]);
  fprintf(f,"\npickn %u",r->npk); for(u32 i=0;i<r->npk;i++) fprintf(f," %u",r->pkn[i]); fprintf(f,"\n");
  for(u32 i=0;i<r->nf;i++) fprintf(f,"f %u %llu %u\n",r->f[i].kind,(unsigned long long)r->f[i].key,r->f[i].val);
  for(u32 i=0;i<r->ns;i++) fprintf(f,"s %u %llu %u\n",r->s[i].tid,(unsigned long long)r->s[i].np,r->s[i].next);
  for(u32 i=0;i<r->nb;i++) fprintf(f,"b %u %u %u\n",r->b[i].tid,r->b[i].nb,r->b[i].next);
  fprintf(f,"end\n"); fclose(f);
}
static const sim_scenario* find_scn(const char* prop,const char* name){ for(sim_scenario* s=scn_list;s;s=s->next) if((!prop||!strcmp(s->prop,prop))&&!strcmp(s->name,name)) return s; return nullptr; }
static const sim_scenario* load_replay(const char* path,u64* seed,char* ecls,u64* ehash){
  FILE* f=fopen(path,"r"); if(!f){ perror(path); exit(3); }
  static char line[400000]; char prop[64]="",name[128]=""; RP.on=true; RP.s=(SEnt*)malloc(sizeof(SEnt)*MAXSCHED); RP.b=(BEnt*)malloc(sizeof(BEnt)*MAXBLOCK); RP.f=(FEnt*)malloc(sizeof(FEnt)*MAXFAULT); RP.pk=(u32*)malloc(4*MAXPICK);
  *seed=0; ecls[0]=0; *ehash=0;
  while(fgets(line,sizeof line,f)){
    unsigned a,b,c; unsigned long long k;
    if(!strncmp(line,"prop ",5)) sscanf(line+5,"%63s",prop);
    else if(!strncmp(line,"scenario ",9)) sscanf(line+9,"%127s",name);
    else if(!strncmp(line,"seed ",5)){ unsigned long long x,y,z; sscanf(line,"seed %llu index %llu derived %llu",&x,&y,&z); *seed=z; }
    else if(!strncmp(line,"expect ",7)){ unsigned long long h=0; sscanf(line+7,"%63s %llx",ecls,&h); *ehash=h; }
    else if(!strncmp(line,"cfg",3)){ for(int i=0;i<CF_N;i++){ char key[40]; snprintf(key,sizeof key," %s=",cfname[i]); char* p=strstr(line,key); if(p) RP.cfg[i]=strtoul(p+strlen(key),nullptr,10); } }
    else if(!strncmp(line,"picks ",6)){ char* p=line+6; u32 n=strtoul(p,&p,10); for(u32 i=0;i<n&&i<MAXPICK;i++) RP.pk[RP.npk++]=strtoul(p,&p,10); }
    else if(line[0]=='f'&&sscanf(line,"f %u %llu %u",&a,&k,&c)==3){ if(RP.nf<MAXFAULT) RP.f[RP.nf++]={a,c,k}; }
    else if(line[0]=='s'&&sscanf(line,"s %u %llu %u",&a,&k,&c)==3){ if(RP.ns<MAXSCHED) RP.s[RP.ns++]={(u16)a,(u16)c,0,k}; }
    else if(line[0]=='b'&&sscanf(line,"b %u %u %u",&a,&b,&c)==3){ if(RP.nb<MAXBLOCK) RP.b[RP.nb++]={(u16)a,(u16)c,b}; }
  }
  fclose(f); qsort(RP.s,RP.ns,sizeof(SEnt),cmp_s); qsort(RP.b,RP.nb,sizeof(BEnt),cmp_b);
  const sim_scenario* s=find_scn(prop,name); if(!s){ fprintf(stderr,"unknown scenario %s %s\n",prop,name); exit(3); } return s;
}
struct Stats{ u64 runs,nontrivial,points,switches,preempts,vtime,events,allocs,faulty; u64 faults[SF_COUNT]; u64 scn[128]; u32 nprobe; Probe probe[512]; u64 strat[4]; u64 maxpts; u64 known; };
struct Viol{ int scn; char cls[64]; char msg[1024]; char path[256]; u64 idx; int known; int repro; };
struct Shared{ u64 next; int stop; u32 nv; Viol v[64]; u8 disabled[128]; u64 distinct; u64 dummy; Stats st[64]; char toolerr[512]; };
static Shared* SH; static u64* dset; enum { DN=1<<22 };
static bool dadd(u64 h){ if(!h) h=1; u32 i=h&(DN-1); for(int k=0;k<64;k++){ u64 o=__atomic_load_n(&dset[i],__ATOMIC_RELAXED); if(o==h) return false; if(o==0){ u64 z=0; if(__atomic_compare_exchange_n(&dset[i],&z,h,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST)){ __atomic_fetch_add(&SH->distinct,1,__ATOMIC_SEQ_CST); return true; } if(z==h) return false; } i=(i+1)&(DN-1);} return true; }
static u64 wall_ns(){ timespec ts; raw_syscall(SYS_clock_gettime,CLOCK_MONOTONIC,(long)&ts); return (u64)ts.tv_sec*1000000000ull+ts.tv_nsec; }
static const sim_scenario* pick_scn(const sim_scenario** l,int n,u64 tot,u64 idx){ u64 x=mix64(idx*2654435761u+99)%tot; for(int i=0;i<n;i++){ if(x<(u64)l[i]->weight) return l[i]; x-=l[i]->weight; } return l[0]; }
static const char* fault_names[SF_COUNT]={"spurious_wakeup","weak_cas_failure","clock_jump","notify_order","thread_create_failure","alloc_failure","task_throws","task_delayed","interrupt","owner_destroyed","timer_cancel","element_throws","ctor_throws","subtask_throws","net_delay","net_short_io","net_reset","net_stall","accept_delay","client_crash"};
struct KnownE{ char scn[64]; char cls[64]; }; static KnownE known[64]; static int nknown;
static bool is_known(const sim_scenario* s,const char* cls){ for(int i=0;i<nknown;i++) if(!strcmp(known[i].scn,s->name)&&!strcmp(known[i].cls,cls)) return true; return false; }

static void worker(int w,const sim_scenario** l,int n,u64 tot,u64 vseed,u64 tend,u64 maxruns,const char* outdir,Result* r,Result* r2,bool trace){
  Stats& S=SH->st[w];
  FILE* tf=nullptr; char tp[300]; if(trace){ snprintf(tp,sizeof tp,"%s/trace.%d",outdir,w); tf=fopen(tp,"w"); }
  for(;;){
    if(SH->stop||wall_ns()>tend) break; u64 idx=__atomic_fetch_add(&SH->next,1,__ATOMIC_SEQ_CST); if(maxruns&&idx>=maxruns) break;
    const sim_scenario* sc=pick_scn(l,n,tot,mix64(idx+vseed*7919)); if(SH->disabled[sc->index]) continue;
    u64 seed=mix64(mix64(vseed)+mix64(idx*0x100000001b3ull+sc->index));
    run_child(r,sc,seed);
    if(tf) fprintf(tf,"%llu %s %d %016llx %s\n",(unsigned long long)idx,sc->name,r->status,(unsigned long long)r->hash,r->cls);
    S.runs++; S.points+=r->points; S.switches+=r->switches; S.preempts+=r->preempts; S.vtime+=r->vtime>1000000000ull?r->vtime-1000000000ull:0; S.events+=r->events; S.allocs+=r->allocs; S.scn[sc->index]++; S.strat[r->cfg[CF_STRAT]&3]++; if(r->points>S.maxpts) S.maxpts=r->points;
    u64 ft=0; for(int k=0;k<SF_COUNT;k++){ S.faults[k]+=r->faults[k]; if(k!=SF_WAKEORDER) ft+=r->faults[k]; } if(ft) S.faulty++;
    for(u32 i=0;i<r->nprobe;i++){ u32 j=0; for(;j<S.nprobe;j++) if(!strcmp(S.probe[j].name,r->probe[i].name)) break; if(j==S.nprobe){ if(S.nprobe>=512) continue; S.probe[S.nprobe++]=r->probe[i]; } else S.probe[j].n+=r->probe[i].n; }
    if(!r->skip && r->threads>0 && r->switches>2){ if(dadd(mix64(r->sched_hash^r->hash))) S.nontrivial++; }
    if(idx<4){ char sp_[300]; snprintf(sp_,sizeof sp_,"%s/sample_%llu.replay",outdir,(unsigned long long)idx); write_replay(sp_,r,sc,vseed,idx,seed); }
    if(r->status==1) continue;
    if(r->status==3){ snprintf(SH->toolerr,sizeof SH->toolerr,"%s idx=%llu: %s %s",sc->name,(unsigned long long)idx,r->cls,r->msg); SH->stop=1; break; }
    bool kn=is_known(sc,r->cls); if(kn){ S.known++; }
    // same-PRNG-twice gate
    u32 slot; { bool have=false; u32 nv=__atomic_load_n(&SH->nv,__ATOMIC_SEQ_CST); for(u32 i=0;i<nv&&i<64;i++) if(SH->v[i].scn==sc->index&&!strcmp(SH->v[i].cls,r->cls)) have=true; if(have) continue; slot=__atomic_fetch_add(&SH->nv,1,__ATOMIC_SEQ_CST); if(slot>=64){ SH->stop=1; break; } }
    Viol& V=SH->v[slot]; V.scn=sc->index; snprintf(V.cls,sizeof V.cls,"%s",r->cls); snprintf(V.msg,sizeof V.msg,"%s",r->msg); V.idx=idx; V.known=kn;
    snprintf(V.path,sizeof V.path,"%s/raw_%s_%s_%llu.replay",outdir,sc->name,r->cls,(unsigned long long)idx);
    write_replay(V.path,r,sc,vseed,idx,seed);
    run_child(r2,sc,seed); V.repro=(r2->status==r->status&&r2->hash==r->hash&&!strcmp(r2->cls,r->cls));
    if(!kn){ SH->stop=1; }
  }
  if(tf) fclose(tf); raw_syscall(SYS_exit_group,0);
}
static void jstr(FILE* f,const char* s){ fputc('"',f); for(;*s;s++){ if(*s=='"'||*s=='\\') fputc('\\',f); if((u8)*s<32) fputc(' ',f); else fputc(*s,f);} fputc('"',f); }
int main(int argc,char** argv){
  int pers=personality(0xffffffff); if(pers!=-1&&!(pers&ADDR_NO_RANDOMIZE)&&!getenv("SIM_REEXEC")){ setenv("SIM_REEXEC","1",1); if(personality(pers|ADDR_NO_RANDOMIZE)!=-1) execv("/proc/self/exe",argv); }
  const char* mode=argc>1?argv[1]:"list"; const char* prop=nullptr,*out="/tmp",*only=nullptr; u64 vseed=1,maxruns=0; double secs=10; int workers=8; bool trace=false; const char* file=nullptr;
  for(int i=2;i<argc;i++){ auto A=[&](const char* k){ return !strcmp(argv[i],k)&&i+1<argc; };
    if(A("--prop")) prop=argv[++i]; else if(A("--seed")) vseed=strtoull(argv[++i],0,10); else if(A("--secs")) secs=atof(argv[++i]); else if(A("--runs")) maxruns=strtoull(argv[++i],0,10); else if(A("--workers")) workers=atoi(argv[++i]); else if(A("--out")) out=argv[++i]; else if(A("--scenario")) only=argv[++i]; else if(A("--wall")) wall_limit=atoi(argv[++i]);
    else if(A("--known")){ char* s=argv[++i]; char* c=strchr(s,':'); if(c&&nknown<64){ snprintf(known[nknown].scn,64,"%.*s",(int)(c-s),s); snprintf(known[nknown].cls,64,"%s",c+1); nknown++; } }
    else if(!strcmp(argv[i],"--verbose")) g_verbose=true; else if(!strcmp(argv[i],"--trace")) trace=true; else file=argv[i]; }
  if(!strcmp(mode,"list")){ for(sim_scenario* s=scn_list;s;s=s->next) printf("%s %s %d\n",s->prop,s->name,s->weight); return 0; }
  make_tcbs();
  for(sim_scenario* s=scn_list;s;s=s->next){ }
  if(!strcmp(mode,"replay")){
    // replay FILE...: one line per file: class hash message
    int n=0; for(int i=2;i<argc;i++) if(argv[i][0]!='-') n++;
    u64 seed; char ecls[64]; u64 eh; const sim_scenario* s=load_replay(file,&seed,ecls,&eh); Result* r=(Result*)shm_alloc(sizeof(Result));
    run_child(r,s,seed);
    printf("%s %016llx %s\n",r->status==1?"ok":r->cls,(unsigned long long)r->hash,r->msg);
    printf("expected %s %016llx match=%d status=%d\n",ecls,(unsigned long long)eh,(int)(eh==r->hash&&!strcmp(r->status==1?"ok":r->cls,ecls)),r->status);
    printf("stats points=%llu switches=%llu preempts=%llu vtime_ns=%llu threads=%u\n",(unsigned long long)r->points,(unsigned long long)r->switches,(unsigned long long)r->preempts,(unsigned long long)r->vtime,r->threads);
    char rp[600]; if(out&&strcmp(out,"/tmp")){ snprintf(rp,sizeof rp,"%s",out); write_replay(rp,r,s,0,0,seed); }
    return r->status==1?0:r->status==2?1:3;
  }
  if(!strcmp(mode,"one")){ // one --scenario X --seed derived
    const sim_scenario* s=find_scn(prop,only); if(!s) return 3; Result* r=(Result*)shm_alloc(sizeof(Result)); u64 seed=mix64(mix64(vseed)+mix64(maxruns*0x100000001b3ull+s->index)); run_child(r,s,seed);
    printf("%s %016llx %s points=%llu switches=%llu vtime=%llu\n",r->status==1?"ok":r->cls,(unsigned long long)r->hash,r->msg,(unsigned long long)r->points,(unsigned long long)r->switches,(unsigned long long)r->vtime); return 0; }
  // explore
  const sim_scenario* l[128]; int n=0; u64 tot=0; for(sim_scenario* s=scn_list;s;s=s->next) if((!prop||!strcmp(s->prop,prop))&&(!only||!strcmp(only,s->name))&&n<128){ l[n++]=s; tot+=s->weight; }
  if(!n){ fprintf(stderr,"no scenario\n"); return 3; }
  SH=(Shared*)shm_alloc(sizeof(Shared)); dset=(u64*)shm_alloc(sizeof(u64)*DN); if(workers>64) workers=64;
  u64 t0=wall_ns(),tend=t0+(u64)(secs*1e9);
  for(int w=0;w<workers;w++){ Result* r=(Result*)shm_alloc(sizeof(Result)); Result* r2=(Result*)shm_alloc(sizeof(Result)); long pid=raw_fork(); if(pid==0){ worker(w,l,n,tot,vseed,tend,maxruns,out,r,r2,trace); } }
  for(int w=0;w<workers;w++){ int st; raw_syscall(SYS_wait4,-1,(long)&st,0,0); if(WIFSIGNALED(st)) snprintf(SH->toolerr,sizeof SH->toolerr,"worker killed by signal %d",WTERMSIG(st)); }
  static Stats T; for(int w=0;w<workers;w++){ Stats& S=SH->st[w]; T.runs+=S.runs; T.nontrivial+=S.nontrivial; T.points+=S.points; T.switches+=S.switches; T.preempts+=S.preempts; T.vtime+=S.vtime; T.events+=S.events; T.allocs+=S.allocs; T.faulty+=S.faulty; T.known+=S.known; if(S.maxpts>T.maxpts) T.maxpts=S.maxpts; for(int k=0;k<SF_COUNT;k++) T.faults[k]+=S.faults[k]; for(int k=0;k<128;k++) T.scn[k]+=S.scn[k]; for(int k=0;k<4;k++) T.strat[k]+=S.strat[k];
    for(u32 i=0;i<S.nprobe;i++){ u32 j=0; for(;j<T.nprobe;j++) if(!strcmp(T.probe[j].name,S.probe[i].name)) break; if(j==T.nprobe){ if(T.nprobe<512) T.probe[T.nprobe++]=S.probe[i]; } else T.probe[j].n+=S.probe[i].n; } }
  FILE* f=stdout; double el=(wall_ns()-t0)/1e9;
  fprintf(f,"{\"runs\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"points\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"vtime_s\":%.3f,\"events\":%llu,\"allocs\":%llu,\"faulty_runs\":%llu,\"max_points\":%llu,\"known_hits\":%llu,\"elapsed_s\":%.3f,\"workers\":%d,",(unsigned long long)T.runs,(unsigned long long)T.nontrivial,(unsigned long long)SH->distinct,(unsigned long long)T.points,(unsigned long long)T.switches,(unsigned long long)T.preempts,T.vtime/1e9,(unsigned long long)T.events,(unsigned long long)T.allocs,(unsigned long long)T.faulty,(unsigned long long)T.maxpts,(unsigned long long)T.known,el,workers);
  fprintf(f,"\"strategies\":{\"random_walk\":%llu,\"pct\":%llu,\"weighted_walk\":%llu,\"block_points_only\":%llu},",(unsigned long long)T.strat[0],(unsigned long long)T.strat[1],(unsigned long long)T.strat[2],(unsigned long long)T.strat[3]);
  fprintf(f,"\"faults\":{"); for(int k=0,c=0;k<SF_COUNT;k++) if(T.faults[k]) fprintf(f,"%s\"%s\":%llu",c++?",":"",fault_names[k],(unsigned long long)T.faults[k]);
  fprintf(f,"},\"scenarios\":{"); { int c=0; for(int i=0;i<n;i++) fprintf(f,"%s\"%s\":%llu",c++?",":"",l[i]->name,(unsigned long long)T.scn[l[i]->index]); }
  fprintf(f,"},\"probes\":{"); for(u32 i=0;i<T.nprobe;i++){ fprintf(f,"%s",i?",":""); jstr(f,T.probe[i].name); fprintf(f,":%llu",(unsigned long long)T.probe[i].n); }
  fprintf(f,"},\"violations\":["); for(u32 i=0;i<SH->nv&&i<64;i++){ Viol& V=SH->v[i]; const sim_scenario* sc=nullptr; for(sim_scenario* s=scn_list;s;s=s->next) if(s->index==V.scn) sc=s; fprintf(f,"%s{\"scenario\":\"%s\",\"class\":",i?",":"",sc?sc->name:"?"); jstr(f,V.cls); fprintf(f,",\"msg\":"); jstr(f,V.msg); fprintf(f,",\"path\":"); jstr(f,V.path); fprintf(f,",\"index\":%llu,\"known\":%d,\"reproduced\":%d}",(unsigned long long)V.idx,V.known,V.repro); }
  fprintf(f,"],\"toolerr\":"); jstr(f,SH->toolerr); fprintf(f,"}\n"); fflush(f);
  raw_syscall(SYS_exit_group,SH->toolerr[0]?3:SH->nv?1:0);
}
