#include "pools.hpp"
template<class Q> static pool_t mk(int){ return ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<Q>>(); }
static pool_kind k1("single/lockfree",[](int){ return (pool_t)ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::lockfree_queue<job_t>>>(); },PK_FIFO|PK_SINGLE);
static pool_kind k2("single/guarded",&mk<ba::guarded_deque<job_t>>,PK_FIFO|PK_SINGLE|PK_SIZES);
static pool_kind k3("single/list",&mk<ba::threadsafe_list<job_t>>,PK_FIFO|PK_SINGLE);
static pool_kind k4("single/circular",[](int){ return (pool_t)ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::circular_queue<job_t>>>(2); },PK_FIFO|PK_SINGLE|PK_SIZES);
static pool_kind k5("single/stack",&mk<ba::lockfree_stack<job_t>>,PK_SINGLE);
static pool_kind k6("single/spsc",[](int){ return (pool_t)ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::lockfree_spsc_queue<job_t>>>(4); },PK_FIFO|PK_SINGLE|PK_SPSC);
static pool_kind k7("single/container",[](int){ return (pool_t)ba::make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::any_queue_container<job_t>>>(ba::any_queue_container_config<ba::lockfree_queue<job_t>>(2),ba::any_queue_container_config<ba::guarded_deque<job_t>>(1)); },PK_SINGLE|PK_PRIO);
