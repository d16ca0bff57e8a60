#include "pools.hpp"
// policies which spare some threads from sleeping (also more of them than there are threads)
typedef ba::some_save_cpu_load<2,10,80000,5000> some; typedef ba::lockfree_queue<job_t> lf;
static pool_kind k1("pool/some-save",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<lf,some>>(n); },PK_FIFO);
static pool_kind k2("multiqueue/some-save",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<lf,ba::default_find_position<>,some>>(n); },PK_MULTIQ);
static pool_kind k3("stealing/some-save",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<lf,some,true>>(n); },PK_FIFO);
static pool_kind k4("stealing-mq/some-save",[](int n){ return (pool_t)ba::make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<lf,ba::default_find_position<>,some,true>>(n); },PK_MULTIQ);
