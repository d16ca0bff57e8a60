#include "pools.hpp"
template<class Q> static pool_t mk(int n){ return ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<Q,ba::default_save_cpu_load<10,80000,5000>,true>>(n); }
template<class Q> static pool_t mk2(int n){ return ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<Q,ba::default_find_position<>,ba::default_save_cpu_load<10,80000,5000>,true>>(n); }
static pool_kind k1("stealing/lockfree",&mk<ba::lockfree_queue<job_t>>,PK_FIFO);
static pool_kind k2("stealing/guarded",&mk<ba::guarded_deque<job_t>>,PK_FIFO|PK_SIZES);
static pool_kind k3("stealing-mq/lockfree",&mk2<ba::lockfree_queue<job_t>>,PK_MULTIQ);
static pool_kind k4("stealing-mq/guarded",&mk2<ba::guarded_deque<job_t>>,PK_MULTIQ|PK_SIZES);
static pool_kind k5("stealing-mq/list-seq",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<ba::threadsafe_list<job_t>,ba::default_find_position<ba::sequential_push_policy>,ba::no_cpu_load_saving,true>>(n); },PK_MULTIQ);
