#include "pools.hpp"
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
static pool_kind k1("asio/1",[](int){ return (pool_t)ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>(1); },PK_FIFO|PK_SINGLE);
static pool_kind k2("asio/n",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>(n); },0);
static pool_kind k3("asio/random",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::asio_scheduler<ba::default_find_position<>,ba::no_cpu_load_saving>>(n); },0);
static pool_kind k4("io/lockfree",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<ba::lockfree_queue<job_t,ba::lockfree_size>>>(n,n+1); },PK_DYN);
static pool_kind k5("io/guarded",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::io_threadpool_scheduler<ba::guarded_deque<job_t>>>(n,n+2); },PK_DYN);
