#include "pools.hpp"
template<class Q> static pool_t mk(int n){ return ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<Q>>(n); }
static pool_kind k1("multiqueue/lockfree",&mk<ba::lockfree_queue<job_t>>,PK_MULTIQ);
static pool_kind k2("multiqueue/guarded",&mk<ba::guarded_deque<job_t>>,PK_MULTIQ|PK_SIZES);
static pool_kind k3("multiqueue/list-seq",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<ba::threadsafe_list<job_t>,ba::default_find_position<ba::sequential_push_policy>>>(n); },PK_MULTIQ);
static pool_kind k4("multiple/lockfree",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::lockfree_queue<job_t>>>(n,3); },0);
static pool_kind k5("multiple/guarded",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::guarded_deque<job_t>>>(n,2); },0);
