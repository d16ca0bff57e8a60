#include "pools.hpp"
pool_t make_multiple(int th,int ns){ return ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::lockfree_queue<job_t>>>(th,ns); }
pool_t make_multiple_prio(int th,int ns){ return ba::make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::any_queue_container<job_t>>>(th,ns,ba::any_queue_container_config<ba::lockfree_queue<job_t>>(2),ba::any_queue_container_config<ba::guarded_deque<job_t>>(1)); }
