// Registry of every scheduler x queue combination, each instantiated in one of the pools_*.inc users.
#pragma once
#include "common.hpp"
#include <boost/asynchronous/queue/lockfree_queue.hpp>
#include <boost/asynchronous/queue/lockfree_spsc_queue.hpp>
#include <boost/asynchronous/queue/lockfree_stack.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/queue/circular_queue.hpp>
#include <boost/asynchronous/queue/any_queue_container.hpp>
#include <boost/asynchronous/scheduler/single_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/multiple_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/io_threadpool_scheduler.hpp>

typedef ba::any_callable job_t;
typedef ba::any_shared_scheduler_proxy<job_t> pool_t;
enum { PK_FIFO=1,      // one FIFO queue: jobs of one poster start in order
       PK_SINGLE=2,    // one worker thread only
       PK_SPSC=4,      // one producer only
       PK_PRIO=8,      // several prioritised queues
       PK_MULTIQ=16,
       PK_SIZES=32,
       PK_DYN=64 };     // threads come and go  // queue sizes are maintained
struct pool_kind { const char* name; pool_t (*make)(int threads); unsigned flags; pool_kind* next; static pool_kind*& head(){ static pool_kind* h=nullptr; return h; }
  pool_kind(const char* n,pool_t(*m)(int),unsigned f):name(n),make(m),flags(f),next(nullptr){ pool_kind** q=&head(); while(*q) q=&(*q)->next; *q=this; } };
inline int pool_kinds(unsigned need=0,unsigned forbid=0){ int n=0; for(pool_kind* k=pool_kind::head();k;k=k->next) if((k->flags&need)==need&&!(k->flags&forbid)) n++; return n; }
inline pool_kind* pool_pick(unsigned need=0,unsigned forbid=0){ int i=sim_pick(pool_kinds(need,forbid)); for(pool_kind* k=pool_kind::head();k;k=k->next) if((k->flags&need)==need&&!(k->flags&forbid)){ if(i--==0){ sim_event(k->name,0,0); return k; } } return nullptr; }
