#include "pools.hpp"
template<class Q> static pool_t mk(int n){ return ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<Q>>(n); }
static pool_kind k1("pool/lockfree",&mk<ba::lockfree_queue<job_t>>,PK_FIFO);
static pool_kind k2("pool/guarded",&mk<ba::guarded_deque<job_t>>,PK_FIFO|PK_SIZES);
static pool_kind k3("pool/list",&mk<ba::threadsafe_list<job_t>>,PK_FIFO);
static pool_kind k4("pool/lockfree-sized",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<job_t,ba::lockfree_size>>>(n); },PK_FIFO|PK_SIZES);
static pool_kind k5("pool/stack",&mk<ba::lockfree_stack<job_t>>,0);
static pool_kind k6("pool/container",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::any_queue_container<job_t>>>(n,ba::any_queue_container_config<ba::threadsafe_list<job_t>>(1),ba::any_queue_container_config<ba::lockfree_queue<job_t>>(2)); },PK_PRIO);
static pool_kind k7("pool/lockfree-spin",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<job_t>,ba::no_cpu_load_saving>>(n); },PK_FIFO);
