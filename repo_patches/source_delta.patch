From 9db03465425029d18c22719a27cc28969baafdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 01/91] fix: stealing_multiqueue_threadpool_scheduler lost jobs
 at shutdown

execute_one_job() shadowed its popped flag, so it always reported that no job
had been executed: the shutdown loop stopped after a single job, and failed
jobs were never logged.
---
 .../scheduler/stealing_multiqueue_threadpool_scheduler.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
index 96077c8..99d1b51 100644
--- a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
@@ -233,7 +233,7 @@ public:
         try
         {
 
-            bool popped = queues[index]->try_pop(job);
+            popped = queues[index]->try_pop(job);
             if (!popped)
             {
                 // ok we have nothing to do, maybe we can steal some work?
-- 
2.43.0


From 752db9991438cc9427d2bceb4e38abdc11d9c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 02/91] fix: servant_proxy: posted members and destructor of a
 servant in a multiple_thread_scheduler used the wrong queue

---
 boost/asynchronous/servant_proxy.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index 939eae8..a21935c 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -64,7 +64,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     {                                                                                                                           \
         auto servant = this->m_servant;                                                                                         \
         std::size_t p = 100000 * this->m_offset_id;                                                                             \
-        this->post(typename boost::asynchronous::job_traits<callable_type>::wrapper_type(boost::asynchronous::any_callable      \
+        this->m_proxy.post(typename boost::asynchronous::job_traits<callable_type>::wrapper_type(boost::asynchronous::any_callable      \
         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...))),p);   \
     }
 #endif
@@ -75,7 +75,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     {                                                                                                                           \
         auto servant = this->m_servant;                                                                                         \
         std::size_t p = prio + 100000 * this->m_offset_id;                                                                      \
-        this->post(typename boost::asynchronous::job_traits<callable_type>::wrapper_type(boost::asynchronous::any_callable      \
+        this->m_proxy.post(typename boost::asynchronous::job_traits<callable_type>::wrapper_type(boost::asynchronous::any_callable      \
         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...))),p);   \
     }
 
@@ -92,7 +92,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(boost::asynchronous::any_callable                          \
                         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...)));  \
         a.set_name(taskname);                                                                                                               \
-        this->post(std::move(a),prio);                                                                                                      \
+        this->m_proxy.post(std::move(a),prio);                                                                                                 \
     }
 #endif
 
@@ -105,7 +105,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(boost::asynchronous::any_callable                          \
                         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...)));  \
         a.set_name(taskname);                                                                                                               \
-        this->post(std::move(a),p);                                                                                                         \
+        this->m_proxy.post(std::move(a),p);                                                                                                 \
     }
 
 #define BOOST_ASYNC_POST_MEMBER_LOG(...)                                                                        \
@@ -609,7 +609,7 @@ public:
             servant_deleter n(std::move(m_servant));
             typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(std::move(n));
             a.set_name(ServantProxy::get_dtor_name());
-            m_proxy.post(std::move(a),ServantProxy::get_dtor_prio());
+            m_proxy.post(std::move(a),ServantProxy::get_dtor_prio() + 100000 * m_offset_id);
             m_servant.reset();
         }
         m_proxy.reset();
-- 
2.43.0


From 21f5be46868da10fe3aad8aa92430349b3c8c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 03/91] fix: any_queue_container: containers built from one
 configuration shared their queues

---
 .../queue/any_queue_container.hpp             | 31 ++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/boost/asynchronous/queue/any_queue_container.hpp b/boost/asynchronous/queue/any_queue_container.hpp
index a8a3116..ee4f898 100644
--- a/boost/asynchronous/queue/any_queue_container.hpp
+++ b/boost/asynchronous/queue/any_queue_container.hpp
@@ -12,6 +12,7 @@
 
 #include <vector>
 #include <cstddef>
+#include <functional>
 #include <utility>
 #include <numeric>
 
@@ -30,21 +31,25 @@ struct any_queue_container_config
     typedef Queue queue_type;
     typedef std::vector<std::shared_ptr<Queue> > queue_sequence;
     template <typename... Args>
-    any_queue_container_config(std::size_t number,Args... args):m_number(number)
+    any_queue_container_config(std::size_t number,Args... args)
+        : m_number(number)
+        , m_create([args...](){return std::make_shared<Queue>(args...);})
     {
-        for (std::size_t i = 0; i< number; ++i)
-        {
-            m_queues.push_back(std::make_shared<Queue>(std::move(args)...));
-        }
     }
-    std::pair<typename queue_sequence::const_iterator,typename queue_sequence::const_iterator> queues()const
+    // every container gets its own queues, also when several are built from the same configuration
+    queue_sequence queues()const
     {
-        return std::make_pair(m_queues.begin(),m_queues.end());
+        queue_sequence res;
+        for (std::size_t i = 0; i< m_number; ++i)
+        {
+            res.push_back(m_create());
+        }
+        return res;
     }
 
 private:
     std::size_t m_number;
-    queue_sequence m_queues;
+    std::function<std::shared_ptr<Queue>()> m_create;
 };
 
 // this class manages a sequence of (possibly different) queues
@@ -183,9 +188,8 @@ public:
     template <typename T,typename Last>
     void ctor_helper(T& t, Last const& l)
     {
-        std::pair<typename Last::queue_sequence::const_iterator,
-                typename Last::queue_sequence::const_iterator> p = l.queues();
-        for (typename Last::queue_sequence::const_iterator it = p.first; it != p.second; ++it)
+        typename Last::queue_sequence queues = l.queues();
+        for (typename Last::queue_sequence::const_iterator it = queues.begin(); it != queues.end(); ++it)
         {
             boost::asynchronous::any_queue_ptr<JOB> q(*it);
             t.push_back(std::make_pair(q,true));// a queue is by default enabled
@@ -195,9 +199,8 @@ public:
     template <typename T,typename... Tail, typename Front>
     void ctor_helper(T& t,Front const& front,Tail const&... tail)
     {
-        std::pair<typename Front::queue_sequence::const_iterator,
-                  typename Front::queue_sequence::const_iterator> p = front.queues();
-        for (typename Front::queue_sequence::const_iterator it = p.first; it != p.second; ++it)
+        typename Front::queue_sequence queues = front.queues();
+        for (typename Front::queue_sequence::const_iterator it = queues.begin(); it != queues.end(); ++it)
         {
             boost::asynchronous::any_queue_ptr<JOB> q(*it);
             t.push_back(std::make_pair(q,true));// a queue is by default enabled
-- 
2.43.0


From 0270904771fbc29309407ee5a76a12f1a34c3c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 04/91] fix: multiple_thread_scheduler: interruptible_post used
 the priority as servant index

---
 boost/asynchronous/scheduler/multiple_thread_scheduler.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
index 7fe0273..fb0c2b3 100644
--- a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
@@ -296,12 +296,13 @@ public:
         boost::asynchronous::job_traits<typename queue_type::job_type>::set_posted_time(job);
         boost::asynchronous::interruptible_job<typename queue_type::job_type,this_type>
                 ijob(std::move(job),wpromise,state);
-        if (prio >= m_queues->size())
+        std::size_t servant_index = (prio / 100000);
+        if (servant_index >= m_queues->size())
         {
             // this queue is not existing
             assert(false);
         }
-        (*m_queues)[prio].m_queues->push(std::move(ijob),prio);
+        (*m_queues)[servant_index].m_queues->push(std::move(ijob),prio % 100000);
 
         std::future<boost::thread*> fu = wpromise->get_future();
         boost::asynchronous::interrupt_helper interruptible(std::move(fu),state);
-- 
2.43.0


From 9c06f697e89db04653575d05ff463630660ae799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 05/91] fix: post_future of a void continuation ignored a
 failure of that continuation

---
 boost/asynchronous/post.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/boost/asynchronous/post.hpp b/boost/asynchronous/post.hpp
index 806c6bf..cc8d0f5 100644
--- a/boost/asynchronous/post.hpp
+++ b/boost/asynchronous/post.hpp
@@ -410,6 +410,8 @@ namespace detail
                 {
                     try
                     {
+                        // a void continuation can also have failed
+                        std::get<0>(continuation_res).get();
                         m_promise.set_value();
                     }
                     catch(...)
-- 
2.43.0


From 16f3e5cadb455051d0e17d754652b362df483152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 06/91] fix: servant_proxy: assigning to a proxy destroyed its
 previous servant in the assigning thread

---
 boost/asynchronous/servant_proxy.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index a21935c..59cd576 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -621,9 +621,14 @@ public:
     servant_proxy(servant_proxy&&)                =default;
 
     /*!
-     * \brief Move assignment.
+     * \brief Move assignment. Our previous servant, if we were its last owner, is destroyed in its own thread.
      */
-    servant_proxy& operator=(servant_proxy&&)     =default;
+    servant_proxy& operator=(servant_proxy&& rhs)
+    {
+        servant_proxy tmp(std::move(rhs));
+        swap_servant(tmp);
+        return *this;
+    }
 
     /*!
      * \brief Copy constructor.
@@ -631,9 +636,14 @@ public:
     servant_proxy(servant_proxy const&)           =default;
 
     /*!
-     * \brief Copy assignment.
+     * \brief Copy assignment. Our previous servant, if we were its last owner, is destroyed in its own thread.
      */
-    servant_proxy& operator=(servant_proxy const&)=default;
+    servant_proxy& operator=(servant_proxy const& rhs)
+    {
+        servant_proxy tmp(rhs);
+        swap_servant(tmp);
+        return *this;
+    }
 
 #ifdef BOOST_ASYNCHRONOUS_REQUIRE_ALL_ARGUMENTS
     void post(callable_type job, std::size_t prio) const
@@ -689,6 +699,12 @@ public:
     std::size_t m_offset_id;
 
 private:
+    void swap_servant(servant_proxy& rhs)
+    {
+        std::swap(m_proxy,rhs.m_proxy);
+        std::swap(m_servant,rhs.m_servant);
+        std::swap(m_offset_id,rhs.m_offset_id);
+    }
     // safe creation of servant in our thread ctor is trivial or told us so
     template <typename S,typename... Args>
     typename std::enable_if<
-- 
2.43.0


From a681f403d86acca4300aecd20f7e1e99b546ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 07/91] fix: dynamic_servant_proxy_cast lost the servant index
 in a multiple_thread_scheduler

---
 boost/asynchronous/servant_proxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index 59cd576..240bc9e 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -482,7 +482,7 @@ protected:
     servant_proxy(AnotherProxy p, typename std::enable_if<boost::asynchronous::has_servant_type<AnotherProxy>::value>::type* = 0)BOOST_NOEXCEPT
         : m_proxy(p.m_proxy)
         , m_servant(std::dynamic_pointer_cast<typename AnotherProxy::servant_type>(p.m_servant))
-        , m_offset_id(0)
+        , m_offset_id(p.m_offset_id)
     {
     }
 public:
-- 
2.43.0


From 70e5011a190e26c9ab577db3a1c1434b33446274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 08/91] fix: servant_proxy: a servant created after the proxy's
 creation timeout could be destroyed in the creator's thread

---
 boost/asynchronous/servant_proxy.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index 240bc9e..4ba8809 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -540,6 +540,7 @@ public:
         }
         else
         {
+            release_late_servant(std::move(s));
             throw servant_proxy_timeout();
         }
     }
@@ -745,9 +746,20 @@ private:
         }
         else
         {
+            p.reset();
+            release_late_servant(std::move(fu));
             throw servant_proxy_timeout();
         }
     }
+    // a servant which is created too late for us has to be destroyed in its own thread, like any other
+    void release_late_servant(std::future<std::shared_ptr<servant_type> > fu)
+    {
+        typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(
+                    boost::asynchronous::any_callable(
+                    boost::asynchronous::move_bind([](std::future<std::shared_ptr<servant_type> >){},std::move(fu))));
+        a.set_name(ServantProxy::get_dtor_name());
+        post(std::move(a),ServantProxy::get_dtor_prio());
+    }
     struct init_helper : public boost::asynchronous::job_traits<callable_type>::diagnostic_type
     {
         init_helper(std::shared_ptr<std::promise<std::shared_ptr<servant_type> > > p)
-- 
2.43.0


From 3b0f1d0ff8a83b49f727a69ae70bb0f8232045e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 09/91] fix: multiple_thread_scheduler: enable_queue used the
 priority as servant index

---
 boost/asynchronous/scheduler/multiple_thread_scheduler.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
index fb0c2b3..a1e66c5 100644
--- a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
@@ -328,12 +328,14 @@ public:
     }
     void enable_queue(std::size_t queue_prio, bool enable) override
     {
-        if (queue_prio >= m_queues->size())
+        // same encoding as for posting: servant index * 100000 + priority
+        std::size_t servant_index = (queue_prio / 100000);
+        if (servant_index >= m_queues->size())
         {
             // this queue is not existing
             assert(false);
         }
-        (*m_queues)[queue_prio].m_queues->enable_queue(queue_prio,enable);
+        (*m_queues)[servant_index].m_queues->enable_queue(queue_prio % 100000,enable);
     }
 
     // try to execute a job, return true
-- 
2.43.0


From 4338fffd65b9b408e3f0bc2b509f5c81f953a3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 10/91] fix: lockfree_queue, lockfree_stack: elements left in a
 destroyed queue were leaked

---
 boost/asynchronous/queue/lockfree_queue.hpp | 9 +++++++++
 boost/asynchronous/queue/lockfree_stack.hpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/boost/asynchronous/queue/lockfree_queue.hpp b/boost/asynchronous/queue/lockfree_queue.hpp
index 18a9c94..294ab62 100644
--- a/boost/asynchronous/queue/lockfree_queue.hpp
+++ b/boost/asynchronous/queue/lockfree_queue.hpp
@@ -68,6 +68,15 @@ public:
 #else
     lockfree_queue(std::size_t size=16):m_queue(size){}
 #endif
+    // the queue owns the elements which nobody popped
+    ~lockfree_queue()
+    {
+        JOB* task;
+        while (m_queue.pop(task))
+        {
+            delete task;
+        }
+    }
 #ifndef BOOST_NO_RVALUE_REFERENCES
 
     void push(JOB && j, std::size_t)
diff --git a/boost/asynchronous/queue/lockfree_stack.hpp b/boost/asynchronous/queue/lockfree_stack.hpp
index 9d30229..1263191 100644
--- a/boost/asynchronous/queue/lockfree_stack.hpp
+++ b/boost/asynchronous/queue/lockfree_stack.hpp
@@ -57,6 +57,15 @@ public:
 #else
     lockfree_stack(std::size_t size=16):m_queue(size){}
 #endif
+    // the queue owns the elements which nobody popped
+    ~lockfree_stack()
+    {
+        JOB* task;
+        while (m_queue.pop(task))
+        {
+            delete task;
+        }
+    }
 #ifndef BOOST_NO_RVALUE_REFERENCES
     void push(JOB && j, std::size_t)
     {
-- 
2.43.0


From a572a89ce095d9fce0e9a05e1d13b24730142b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 11/91] fix: circular_queue: an element was lost when copying
 it out failed

---
 boost/asynchronous/queue/circular_queue.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/boost/asynchronous/queue/circular_queue.hpp b/boost/asynchronous/queue/circular_queue.hpp
index 676868e..c74bd85 100644
--- a/boost/asynchronous/queue/circular_queue.hpp
+++ b/boost/asynchronous/queue/circular_queue.hpp
@@ -119,8 +119,8 @@ public:
     {
         lock_type lock(m_mutex);
         m_not_empty.wait(lock, std::bind(&this_type::is_not_empty, this));
-        JOB res = m_jobs[--m_size];
-        m_jobs[m_size]=JOB();
+        JOB res(std::move(m_jobs[m_size-1]));
+        m_jobs[--m_size]=JOB();
         lock.unlock();
         return res;
     }
@@ -129,8 +129,8 @@ public:
         lock_type lock(m_mutex);
         if (is_not_empty())
         {
-            job = m_jobs[--m_size];
-            m_jobs[m_size]=JOB();
+            job = std::move(m_jobs[m_size-1]);
+            m_jobs[--m_size]=JOB();
             return true;
         }
         return false;
@@ -141,8 +141,8 @@ public:
         lock_type lock(m_mutex);
         if (is_not_empty())
         {
-            job = m_jobs[--m_size];
-            m_jobs[m_size]=JOB();
+            job = std::move(m_jobs[m_size-1]);
+            m_jobs[--m_size]=JOB();
             return true;
         }
         return false;
-- 
2.43.0


From 430218a150d335a3f583bef7c04c808b30dc8a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 12/91] fix: guarded_deque: a failing copy in pop swallowed the
 wake-up of another waiter

---
 boost/asynchronous/queue/guarded_deque.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/queue/guarded_deque.hpp b/boost/asynchronous/queue/guarded_deque.hpp
index f595aae..56821af 100755
--- a/boost/asynchronous/queue/guarded_deque.hpp
+++ b/boost/asynchronous/queue/guarded_deque.hpp
@@ -94,7 +94,7 @@ public:
     {
         lock_type lock(m_mutex);
         m_not_empty.wait(lock, std::bind(&this_type::is_not_empty, this));
-        JOB res = m_jobs.back();
+        JOB res(std::move(m_jobs.back()));
         m_jobs.pop_back();
         lock.unlock();
         return res;
@@ -104,7 +104,7 @@ public:
         lock_type lock(m_mutex);
         if (is_not_empty())
         {
-            job = m_jobs.back();
+            job = std::move(m_jobs.back());
             m_jobs.pop_back();
             return true;
         }
@@ -114,7 +114,7 @@ public:
             m_not_empty.wait_for(lock, std::chrono::milliseconds(WaitTime), std::bind(&this_type::is_not_empty, this));
             if (is_not_empty())
             {
-                job = m_jobs.back();
+                job = std::move(m_jobs.back());
                 m_jobs.pop_back();
                 return true;
             }
@@ -127,7 +127,7 @@ public:
         lock_type lock(m_mutex);
         if (is_not_empty())
         {
-            job = m_jobs.back();
+            job = std::move(m_jobs.back());
             m_jobs.pop_back();
             return true;
         }
-- 
2.43.0


From a1e5d5eb9dd202310d17641211cefc5d3554e558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 13/91] fix: threadsafe_list: a blocking pop could miss the
 notification of a push

---
 boost/asynchronous/queue/threadsafe_list.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/queue/threadsafe_list.hpp b/boost/asynchronous/queue/threadsafe_list.hpp
index 5442592..fb65d9d 100644
--- a/boost/asynchronous/queue/threadsafe_list.hpp
+++ b/boost/asynchronous/queue/threadsafe_list.hpp
@@ -79,7 +79,7 @@ public:
             m_tail->next = std::move(p);
             m_tail = new_tail;
         }
-        m_data_cond.notify_one();
+        notify_not_empty();
     }
     void push(JOB && j)
     {
@@ -91,7 +91,7 @@ public:
             m_tail->next = std::move(p);
             m_tail = new_tail;
         }
-        m_data_cond.notify_one();
+        notify_not_empty();
     }
     // todo remove when type_erasure supports rvalue ref
     void push(JOB const& j, std::size_t=0)
@@ -104,7 +104,7 @@ public:
             m_tail->next = std::move(p);
             m_tail = new_tail;
         }
-        m_data_cond.notify_one();
+        notify_not_empty();
     }
 
     JOB pop()
@@ -125,6 +125,12 @@ public:
     }
 
 private:
+    void notify_not_empty()
+    {
+        // a thread which found the list empty still holds m_head_mutex until it waits: it must not miss this notification
+        boost::lock_guard<boost::mutex> head_lock(m_head_mutex);
+        m_data_cond.notify_one();
+    }
     node* get_tail()
     {
         boost::lock_guard<boost::mutex> tail_lock(m_tail_mutex);
-- 
2.43.0


From 0958db5f5b520a5b654b697cce2ef84c476e6867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 14/91] fix: lockfree_queue, lockfree_stack: an element was
 leaked when the queue could not allocate a node

---
 boost/asynchronous/queue/lockfree_queue.hpp | 18 ++++++++++++------
 boost/asynchronous/queue/lockfree_stack.hpp | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/boost/asynchronous/queue/lockfree_queue.hpp b/boost/asynchronous/queue/lockfree_queue.hpp
index 294ab62..fa758f6 100644
--- a/boost/asynchronous/queue/lockfree_queue.hpp
+++ b/boost/asynchronous/queue/lockfree_queue.hpp
@@ -81,30 +81,36 @@ public:
 
     void push(JOB && j, std::size_t)
     {
-        JOB* task = new JOB(std::forward<JOB>(j));
-        while (!m_queue.push(task))
+        // owned by us until the queue, which can fail to allocate a node, took it
+        std::unique_ptr<JOB> task(new JOB(std::forward<JOB>(j)));
+        while (!m_queue.push(task.get()))
         {
             boost::this_thread::yield();
         }
+        task.release();
         Size::increase();
     }
     void push(JOB && j)
     {
-        JOB* task = new JOB(std::forward<JOB>(j));
-        while (!m_queue.push(task))
+        // owned by us until the queue, which can fail to allocate a node, took it
+        std::unique_ptr<JOB> task(new JOB(std::forward<JOB>(j)));
+        while (!m_queue.push(task.get()))
         {
             boost::this_thread::yield();
         }
+        task.release();
         Size::increase();
     }
 #endif
     void push(JOB const& j, std::size_t=0)
     {
-        JOB* task = new JOB(j);
-        while (!m_queue.push(task))
+        // owned by us until the queue, which can fail to allocate a node, took it
+        std::unique_ptr<JOB> task(new JOB(j));
+        while (!m_queue.push(task.get()))
         {
             boost::this_thread::yield();
         }
+        task.release();
         Size::increase();
     }
 
diff --git a/boost/asynchronous/queue/lockfree_stack.hpp b/boost/asynchronous/queue/lockfree_stack.hpp
index 1263191..87c3e90 100644
--- a/boost/asynchronous/queue/lockfree_stack.hpp
+++ b/boost/asynchronous/queue/lockfree_stack.hpp
@@ -69,30 +69,36 @@ public:
 #ifndef BOOST_NO_RVALUE_REFERENCES
     void push(JOB && j, std::size_t)
     {
-        JOB* task = new JOB(std::forward<JOB>(j));
-        while (!m_queue.push(task))
+        // owned by us until the queue, which can fail to allocate a node, took it
+        std::unique_ptr<JOB> task(new JOB(std::forward<JOB>(j)));
+        while (!m_queue.push(task.get()))
         {
             boost::this_thread::yield();
         }
+        task.release();
         Size::increase();
     }
     void push(JOB && j)
     {
-        JOB* task = new JOB(std::forward<JOB>(j));
-        while (!m_queue.push(task))
+        // owned by us until the queue, which can fail to allocate a node, took it
+        std::unique_ptr<JOB> task(new JOB(std::forward<JOB>(j)));
+        while (!m_queue.push(task.get()))
         {
             boost::this_thread::yield();
         }
+        task.release();
         Size::increase();
     }
 #endif
     void push(JOB const& j, std::size_t=0)
     {
-        JOB* task = new JOB(j);
-        while (!m_queue.push(task))
+        // owned by us until the queue, which can fail to allocate a node, took it
+        std::unique_ptr<JOB> task(new JOB(j));
+        while (!m_queue.push(task.get()))
         {
             boost::this_thread::yield();
         }
+        task.release();
         Size::increase();
     }
 
-- 
2.43.0


From cfb26470e24097d5ee1e9d90e4ff2e5e35e21203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 15/91] fix: queue_converter: get_queue_size returned the
 maximum size

---
 boost/asynchronous/queue/queue_converter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/queue/queue_converter.hpp b/boost/asynchronous/queue/queue_converter.hpp
index 42cd9bc..6147929 100644
--- a/boost/asynchronous/queue/queue_converter.hpp
+++ b/boost/asynchronous/queue/queue_converter.hpp
@@ -63,7 +63,7 @@ public:
     }
     virtual std::vector<std::size_t> get_queue_size()const
     {
-        return m_from_queue->get_max_queue_size();
+        return m_from_queue->get_queue_size();
     }
     virtual std::vector<std::size_t> get_max_queue_size()const
     {
-- 
2.43.0


From 3924bc5da8ad1795dc3ba8d425209634c7e5c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:01 +0000
Subject: [PATCH 16/91] fix: guarded_deque: the maximum size did not count the
 element just pushed

---
 boost/asynchronous/queue/guarded_deque.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/queue/guarded_deque.hpp b/boost/asynchronous/queue/guarded_deque.hpp
index 56821af..fa8ce15 100755
--- a/boost/asynchronous/queue/guarded_deque.hpp
+++ b/boost/asynchronous/queue/guarded_deque.hpp
@@ -66,16 +66,16 @@ public:
     void push(JOB && j, std::size_t)
     {
         lock_type lock(m_mutex);
-        m_max_size = std::max(m_max_size,m_jobs.size());
         m_jobs.emplace_front(std::forward<JOB>(j));
+        m_max_size = std::max(m_max_size,m_jobs.size());
         lock.unlock();
         m_not_empty.notify_one();
     }
     void push(JOB && j)
     {
         lock_type lock(m_mutex);
-        m_max_size = std::max(m_max_size,m_jobs.size());
         m_jobs.emplace_front(std::forward<JOB>(j));
+        m_max_size = std::max(m_max_size,m_jobs.size());
         lock.unlock();
         m_not_empty.notify_one();
     }
@@ -83,8 +83,8 @@ public:
     void push(JOB const& j, std::size_t=0)
     {
         lock_type lock(m_mutex);
-        m_max_size = std::max(m_max_size,m_jobs.size());
         m_jobs.push_front(j);
+        m_max_size = std::max(m_max_size,m_jobs.size());
         lock.unlock();
         m_not_empty.notify_one();
     }
-- 
2.43.0


From e47b7ab6fb0f571345c3ec0520b9fad501281977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 17/91] fix: lock-free queues: the size could underflow because
 a push was counted after it was visible

---
 boost/asynchronous/queue/lockfree_queue.hpp   | 47 +++++++++----------
 .../queue/lockfree_spsc_queue.hpp             | 37 +++++++++------
 boost/asynchronous/queue/lockfree_stack.hpp   | 47 +++++++++----------
 3 files changed, 68 insertions(+), 63 deletions(-)

diff --git a/boost/asynchronous/queue/lockfree_queue.hpp b/boost/asynchronous/queue/lockfree_queue.hpp
index fa758f6..9d127fb 100644
--- a/boost/asynchronous/queue/lockfree_queue.hpp
+++ b/boost/asynchronous/queue/lockfree_queue.hpp
@@ -81,37 +81,16 @@ public:
 
     void push(JOB && j, std::size_t)
     {
-        // owned by us until the queue, which can fail to allocate a node, took it
-        std::unique_ptr<JOB> task(new JOB(std::forward<JOB>(j)));
-        while (!m_queue.push(task.get()))
-        {
-            boost::this_thread::yield();
-        }
-        task.release();
-        Size::increase();
+        push_job(std::unique_ptr<JOB>(new JOB(std::forward<JOB>(j))));
     }
     void push(JOB && j)
     {
-        // owned by us until the queue, which can fail to allocate a node, took it
-        std::unique_ptr<JOB> task(new JOB(std::forward<JOB>(j)));
-        while (!m_queue.push(task.get()))
-        {
-            boost::this_thread::yield();
-        }
-        task.release();
-        Size::increase();
+        push_job(std::unique_ptr<JOB>(new JOB(std::forward<JOB>(j))));
     }
 #endif
     void push(JOB const& j, std::size_t=0)
     {
-        // owned by us until the queue, which can fail to allocate a node, took it
-        std::unique_ptr<JOB> task(new JOB(j));
-        while (!m_queue.push(task.get()))
-        {
-            boost::this_thread::yield();
-        }
-        task.release();
-        Size::increase();
+        push_job(std::unique_ptr<JOB>(new JOB(j)));
     }
 
     JOB pop()
@@ -167,6 +146,26 @@ public:
     }
 
 private:
+    // the job is owned by us until the queue, which can fail to allocate a node, took it
+    void push_job(std::unique_ptr<JOB> task)
+    {
+        // count first: as soon as the job is in the queue, a consumer can take it and decrease
+        Size::increase();
+        try
+        {
+            while (!m_queue.push(task.get()))
+            {
+                boost::this_thread::yield();
+            }
+        }
+        catch (...)
+        {
+            Size::decrease();
+            throw;
+        }
+        task.release();
+    }
+
     boost::lockfree::queue<JOB*> m_queue;
 };
 }} // boost::async::queue
diff --git a/boost/asynchronous/queue/lockfree_spsc_queue.hpp b/boost/asynchronous/queue/lockfree_spsc_queue.hpp
index 48c2371..552e523 100644
--- a/boost/asynchronous/queue/lockfree_spsc_queue.hpp
+++ b/boost/asynchronous/queue/lockfree_spsc_queue.hpp
@@ -58,28 +58,16 @@ public:
 #ifndef BOOST_NO_RVALUE_REFERENCES
     void push(JOB && j, std::size_t)
     {
-        while (!m_queue.push(std::forward<JOB>(j)))
-        {
-            boost::this_thread::yield();
-        }
-        Size::increase();
+        push_job(std::forward<JOB>(j));
     }
     void push(JOB && j)
     {
-        while (!m_queue.push(std::forward<JOB>(j)))
-        {
-            boost::this_thread::yield();
-        }
-        Size::increase();
+        push_job(std::forward<JOB>(j));
     }
 #endif
     void push(JOB const& j, std::size_t=0)
     {
-        while (!m_queue.push(j))
-        {
-            boost::this_thread::yield();
-        }
-        Size::increase();
+        push_job(j);
     }
 
     JOB pop()
@@ -112,6 +100,25 @@ public:
     }
 
 private:
+    template <class T>
+    void push_job(T&& j)
+    {
+        // count first: as soon as the job is in the queue, the consumer can take it and decrease
+        Size::increase();
+        try
+        {
+            while (!m_queue.push(std::forward<T>(j)))
+            {
+                boost::this_thread::yield();
+            }
+        }
+        catch (...)
+        {
+            Size::decrease();
+            throw;
+        }
+    }
+
     boost::lockfree::spsc_queue<JOB> m_queue;
 };
 
diff --git a/boost/asynchronous/queue/lockfree_stack.hpp b/boost/asynchronous/queue/lockfree_stack.hpp
index 87c3e90..7f61e41 100644
--- a/boost/asynchronous/queue/lockfree_stack.hpp
+++ b/boost/asynchronous/queue/lockfree_stack.hpp
@@ -69,37 +69,16 @@ public:
 #ifndef BOOST_NO_RVALUE_REFERENCES
     void push(JOB && j, std::size_t)
     {
-        // owned by us until the queue, which can fail to allocate a node, took it
-        std::unique_ptr<JOB> task(new JOB(std::forward<JOB>(j)));
-        while (!m_queue.push(task.get()))
-        {
-            boost::this_thread::yield();
-        }
-        task.release();
-        Size::increase();
+        push_job(std::unique_ptr<JOB>(new JOB(std::forward<JOB>(j))));
     }
     void push(JOB && j)
     {
-        // owned by us until the queue, which can fail to allocate a node, took it
-        std::unique_ptr<JOB> task(new JOB(std::forward<JOB>(j)));
-        while (!m_queue.push(task.get()))
-        {
-            boost::this_thread::yield();
-        }
-        task.release();
-        Size::increase();
+        push_job(std::unique_ptr<JOB>(new JOB(std::forward<JOB>(j))));
     }
 #endif
     void push(JOB const& j, std::size_t=0)
     {
-        // owned by us until the queue, which can fail to allocate a node, took it
-        std::unique_ptr<JOB> task(new JOB(j));
-        while (!m_queue.push(task.get()))
-        {
-            boost::this_thread::yield();
-        }
-        task.release();
-        Size::increase();
+        push_job(std::unique_ptr<JOB>(new JOB(j)));
     }
 
     JOB pop()
@@ -155,6 +134,26 @@ public:
     }
 
 private:
+    // the job is owned by us until the queue, which can fail to allocate a node, took it
+    void push_job(std::unique_ptr<JOB> task)
+    {
+        // count first: as soon as the job is in the queue, a consumer can take it and decrease
+        Size::increase();
+        try
+        {
+            while (!m_queue.push(task.get()))
+            {
+                boost::this_thread::yield();
+            }
+        }
+        catch (...)
+        {
+            Size::decrease();
+            throw;
+        }
+        task.release();
+    }
+
     boost::lockfree::stack<JOB*> m_queue;
 };
 
-- 
2.43.0


From efee25c0235a7e0de5b0f4d18f5cddfeb716609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 18/91] fix: an interruption which a job did not consume must
 not hit the next job of the worker

The interrupted job did not reset the interrupt state of the thread, and a pending interruption request stayed
with the thread after the job completed, so that it was delivered to whatever this worker executed next.
---
 .../scheduler/detail/interrupt_state.hpp       |  5 +++++
 .../scheduler/detail/interruptible_job.hpp     | 18 ++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/boost/asynchronous/scheduler/detail/interrupt_state.hpp b/boost/asynchronous/scheduler/detail/interrupt_state.hpp
index 9c1c326..c66ffb3 100644
--- a/boost/asynchronous/scheduler/detail/interrupt_state.hpp
+++ b/boost/asynchronous/scheduler/detail/interrupt_state.hpp
@@ -74,6 +74,11 @@ struct interrupt_state
         boost::mutex::scoped_lock lock(m_mutex);
         m_state = 1;
     }
+    void set_interrupted()
+    {
+        boost::mutex::scoped_lock lock(m_mutex);
+        m_state = 2;
+    }
     void run()
     {
         boost::mutex::scoped_lock lock(m_mutex);
diff --git a/boost/asynchronous/scheduler/detail/interruptible_job.hpp b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
index febb5e0..95f9daf 100644
--- a/boost/asynchronous/scheduler/detail/interruptible_job.hpp
+++ b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
@@ -95,6 +95,7 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         {
             // remove state from tss
             boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
+            consume_interruption();
             return;
         }
         try
@@ -103,6 +104,10 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         }
         catch(boost::thread_interrupted&)
         {
+            // we are done, an interruption coming now would hit another job
+            m_state->set_interrupted();
+            // remove state from tss, it does not concern the next jobs of this thread
+            boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
             throw;
         }
         // other exceptions
@@ -113,6 +118,7 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
             m_state->complete();
             // remove state from tss
             boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
+            consume_interruption();
             throw;
         }
         // ok we were not interrupted
@@ -120,6 +126,18 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         m_state->complete();
         // remove state from tss
         boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
+        consume_interruption();
+    }
+    // an interruption requested while the job was running but not yet delivered must not hit whatever this thread executes next.
+    static void consume_interruption()
+    {
+        try
+        {
+            boost::this_thread::interruption_point();
+        }
+        catch(boost::thread_interrupted&)
+        {
+        }
     }
     template<class Archive>
     void serialize(Archive & , const unsigned int /* version */){/* not implemented */}
-- 
2.43.0


From 3800c2773a005d47f304fb4acdc0d047cfc927fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 19/91] fix: interrupt subtasks registered after the
 interruption of their parent

interrupt() called while a continuation was posting its subtasks did not reach them.
---
 .../scheduler/detail/interrupt_state.hpp          | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/boost/asynchronous/scheduler/detail/interrupt_state.hpp b/boost/asynchronous/scheduler/detail/interrupt_state.hpp
index c66ffb3..0fc1780 100644
--- a/boost/asynchronous/scheduler/detail/interrupt_state.hpp
+++ b/boost/asynchronous/scheduler/detail/interrupt_state.hpp
@@ -92,11 +92,26 @@ struct interrupt_state
     {
         boost::mutex::scoped_lock lock(m_interruptibles_mutex);
         m_interruptibles.insert(m_interruptibles.end(),beg,end);
+        lock.unlock();
+        // if interrupted in the meantime, the subs have not been informed
+        if (is_interrupted())
+        {
+            for (Iterator it = beg; it != end;++it)
+            {
+                (*it).interrupt();
+            }
+        }
     }
     void add_sub(boost::asynchronous::any_interruptible const& i)
     {
         boost::mutex::scoped_lock lock(m_interruptibles_mutex);
         m_interruptibles.push_back(i);
+        lock.unlock();
+        // if interrupted in the meantime, the sub has not been informed
+        if (is_interrupted())
+        {
+            boost::asynchronous::any_interruptible(i).interrupt();
+        }
     }
 private:
     bool is_interrupted_int()const
-- 
2.43.0


From 4f21402e1130c73f3e3ffc6c5461545d1c407956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 20/91] fix: a posted continuation subtask which throws must
 inform its continuation

The exception was only stored in the unused future of post_future: the continuation never completed. Only the last
subtask, executed directly, reported its exception.
---
 .../asynchronous/detail/continuation_impl.hpp | 38 +++++++++++++++++++
 boost/asynchronous/post.hpp                   | 23 ++++++++++-
 2 files changed, 59 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/detail/continuation_impl.hpp b/boost/asynchronous/detail/continuation_impl.hpp
index bbba46c..e874bd4 100644
--- a/boost/asynchronous/detail/continuation_impl.hpp
+++ b/boost/asynchronous/detail/continuation_impl.hpp
@@ -247,6 +247,25 @@ public:
     {
         m_done_func=std::move(f);
     }
+    // called if the posted task throws, the continuation has to get this exception
+    void continuation_task_failed(std::exception_ptr p)
+    {
+        if (m_done_func)
+        {
+            (m_done_func)(boost::asynchronous::expected<Return>(p));
+        }
+        else if (m_promise)
+        {
+            try
+            {
+                m_promise->set_exception(p);
+            }
+            catch(std::future_error&)
+            {
+                // the task had already delivered its result
+            }
+        }
+    }
 private:
     std::shared_ptr<std::promise<Return> > m_promise;
     std::string m_name;
@@ -337,6 +356,25 @@ public:
     {
         m_done_func=std::move(f);
     }
+    // called if the posted task throws, the continuation has to get this exception
+    void continuation_task_failed(std::exception_ptr p)
+    {
+        if (m_done_func)
+        {
+            (m_done_func)(boost::asynchronous::expected<void>(p));
+        }
+        else if (m_promise)
+        {
+            try
+            {
+                m_promise->set_exception(p);
+            }
+            catch(std::future_error&)
+            {
+                // the task had already delivered its result
+            }
+        }
+    }
 
 private:
     std::shared_ptr<std::promise<void> > m_promise;
diff --git a/boost/asynchronous/post.hpp b/boost/asynchronous/post.hpp
index cc8d0f5..d7f7420 100644
--- a/boost/asynchronous/post.hpp
+++ b/boost/asynchronous/post.hpp
@@ -94,6 +94,17 @@ struct move_task_helper
 
 namespace detail
 {
+    // a continuation task which throws has to inform its continuation (other functors have nothing to do)
+    template <class F>
+    auto inform_continuation_task(F& f, std::exception_ptr p, int) -> decltype(f.continuation_task_failed(p))
+    {
+        f.continuation_task_failed(p);
+    }
+    template <class F>
+    void inform_continuation_task(F&, std::exception_ptr, long)
+    {
+    }
+
     template <class R,class F,class JOB, class OP,class Scheduler,class Enable=void>
     struct post_future_helper_base : public boost::asynchronous::job_traits<JOB>::diagnostic_type
     {
@@ -126,7 +137,11 @@ namespace detail
                 boost::asynchronous::task_aborted_exception ta;
                 m_promise.set_exception(std::make_exception_ptr(ta));this->set_failed();
             }
-            catch(...){m_promise.set_exception(std::current_exception());this->set_failed();}
+            catch(...)
+            {
+                m_promise.set_exception(std::current_exception());this->set_failed();
+                boost::asynchronous::detail::inform_continuation_task(m_func,std::current_exception(),0);
+            }
         }
         std::promise<R> m_promise;
         F m_func;
@@ -263,7 +278,11 @@ namespace detail
                 boost::asynchronous::task_aborted_exception ta;
                 m_promise.set_exception(std::make_exception_ptr(ta));this->set_failed();
             }
-            catch(...){m_promise.set_exception(std::current_exception());this->set_failed();}
+            catch(...)
+            {
+                m_promise.set_exception(std::current_exception());this->set_failed();
+                boost::asynchronous::detail::inform_continuation_task(m_func,std::current_exception(),0);
+            }
         }
         std::promise<R> m_promise;
         F m_func;
-- 
2.43.0


From b9526f9eb3544c1f601c216e3150f1b75755fefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 21/91] fix: a failing branch of if_/else_if/else_/if_then_else
 must fail the whole continuation

The exception thrown by get() left the callback of the branch, so the result was never set and the
continuation never completed.
---
 boost/asynchronous/algorithm/if_else.hpp      | 27 ++++++++++++++++---
 boost/asynchronous/algorithm/if_then_else.hpp | 18 +++++++++++--
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/boost/asynchronous/algorithm/if_else.hpp b/boost/asynchronous/algorithm/if_else.hpp
index 5f8c3ae..8655b3d 100644
--- a/boost/asynchronous/algorithm/if_else.hpp
+++ b/boost/asynchronous/algorithm/if_else.hpp
@@ -50,7 +50,14 @@ struct if_continuation_helper :
                         then_cont.on_done(
                             [task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& then_res)
                             {
-                                task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                try
+                                {
+                                    task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
@@ -113,7 +120,14 @@ struct else_continuation_helper :
                             [task_res](std::tuple<boost::asynchronous::expected<
                                                 typename std::tuple_element<1,typename Continuation::return_type>::type> >&& prev_res)
                             {
-                                task_res.set_value(std::move(std::get<0>(prev_res).get()));
+                                try
+                                {
+                                    task_res.set_value(std::move(std::get<0>(prev_res).get()));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
@@ -173,7 +187,14 @@ struct else_if_continuation_helper :
                             [task_res](std::tuple<boost::asynchronous::expected<
                                             typename std::tuple_element<1,typename Continuation::return_type>::type> >&& then_res)
                             {
-                                task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                try
+                                {
+                                    task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
diff --git a/boost/asynchronous/algorithm/if_then_else.hpp b/boost/asynchronous/algorithm/if_then_else.hpp
index 4ffdf7c..b19c902 100644
--- a/boost/asynchronous/algorithm/if_then_else.hpp
+++ b/boost/asynchronous/algorithm/if_then_else.hpp
@@ -53,7 +53,14 @@ struct if_then_else_continuation_helper :
                         then_cont.on_done(
                             [task_res](std::tuple<boost::asynchronous::expected<Return> >&& then_res)mutable
                             {
-                                task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                try
+                                {
+                                    task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
@@ -63,7 +70,14 @@ struct if_then_else_continuation_helper :
                         else_cont.on_done(
                             [task_res](std::tuple<boost::asynchronous::expected<Return> >&& then_res)mutable
                             {
-                                task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                try
+                                {
+                                    task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
-- 
2.43.0


From 66035483e3119d08951dadd92501224ca0cc3c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 22/91] fix: all_of must report only the first failure of its
 members

Two failing members set the result of the same task twice: the second set_exception raced with the
first, or called a not yet registered completion.
---
 boost/asynchronous/algorithm/all_of.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/algorithm/all_of.hpp b/boost/asynchronous/algorithm/all_of.hpp
index a495427..82e398b 100644
--- a/boost/asynchronous/algorithm/all_of.hpp
+++ b/boost/asynchronous/algorithm/all_of.hpp
@@ -36,10 +36,13 @@ struct all_of_task_counter
 {
     all_of_task_counter()
         : task_count(std::tuple_size<ResultTuple>::value)
+        , failed(false)
     {}
 
     ResultTuple         values;
     std::atomic<size_t> task_count;
+    // only the first failure is reported
+    std::atomic<bool>   failed;
 };
 
 template <typename ResultVector>
@@ -48,10 +51,13 @@ struct all_of_vector_task_counter
     all_of_vector_task_counter(size_t count)
         : values(count)
         , task_count(count)
+        , failed(false)
     {}
 
     ResultVector        values;
     std::atomic<size_t> task_count;
+    // only the first failure is reported
+    std::atomic<bool>   failed;
 };
 
 template <typename... Continuations>
@@ -120,7 +126,8 @@ struct all_of_helper : public boost::asynchronous::continuation_task<typename bo
                 }
                 catch (...)
                 {
-                    task_res.set_exception(std::current_exception());
+                    if (!task_counter->failed.exchange(true))
+                        task_res.set_exception(std::current_exception());
                 }
             }
         );
@@ -148,7 +155,8 @@ struct all_of_helper : public boost::asynchronous::continuation_task<typename bo
                 }
                 catch (...)
                 {
-                    task_res.set_exception(std::current_exception());
+                    if (!task_counter->failed.exchange(true))
+                        task_res.set_exception(std::current_exception());
                 }
             }
         );
@@ -200,7 +208,8 @@ struct all_of_vector_helper : public boost::asynchronous::continuation_task<type
                     }
                     catch (...)
                     {
-                        task_res.set_exception(std::current_exception());
+                        if (!task_counter->failed.exchange(true))
+                            task_res.set_exception(std::current_exception());
                     }
                 }
             );
@@ -228,7 +237,8 @@ struct all_of_vector_helper : public boost::asynchronous::continuation_task<type
                     }
                     catch (...)
                     {
-                        task_res.set_exception(std::current_exception());
+                        if (!task_counter->failed.exchange(true))
+                            task_res.set_exception(std::current_exception());
                     }
                 }
             );
-- 
2.43.0


From 574a8b16c1b46a2b74dde0998e32cfd2134134d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 23/91] fix: all_of of an empty vector must complete

---
 boost/asynchronous/algorithm/all_of.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/boost/asynchronous/algorithm/all_of.hpp b/boost/asynchronous/algorithm/all_of.hpp
index 82e398b..9d637ed 100644
--- a/boost/asynchronous/algorithm/all_of.hpp
+++ b/boost/asynchronous/algorithm/all_of.hpp
@@ -249,6 +249,12 @@ struct all_of_vector_helper : public boost::asynchronous::continuation_task<type
     void operator()()
     {
         boost::asynchronous::continuation_result<return_type> task_res = this->this_task_result();
+        if (continuations_.empty())
+        {
+            // no continuation will ever complete this one
+            task_res.set_value(return_type());
+            return;
+        }
         auto task_counter = std::make_shared<task_counter_type>(continuations_.size());
 
         dispatch_all<>(task_counter, task_res);
-- 
2.43.0


From 689627c635b8e88ccdd8b0d9687cadd4db61ca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 24/91] fix: parallel_transform of two ranges must advance the
 second range

The second half of the work took its second operand from the first range.
---
 boost/asynchronous/algorithm/parallel_transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/algorithm/parallel_transform.hpp b/boost/asynchronous/algorithm/parallel_transform.hpp
index 5e31a41..a6401c5 100644
--- a/boost/asynchronous/algorithm/parallel_transform.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform.hpp
@@ -392,7 +392,7 @@ struct parallel_transform2_range_helper : public boost::asynchronous::continuati
             std::size_t dist = std::distance(boost::begin(range1_), it1);
 
             // advance seconf up to first cutoff
-            auto it2 = boost::begin(range1_) + dist;
+            auto it2 = boost::begin(range2_) + dist;
 
             // if not at end, recurse, otherwise execute here
             if (it1 == boost::end(range1_))
-- 
2.43.0


From 0af174c734d279f5ce7efb772c35711eb5be491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 25/91] fix: parallel_search, parallel_find_end and
 parallel_search_n must find matches across a split

search and find_end looked for an empty pattern in the overlap of the two halves, search_n (and, with
the pattern, search and find_end) left the searched range if a half is shorter than the pattern, and
the functor was moved from before being given to the two halves.
---
 boost/asynchronous/algorithm/parallel_find_end.hpp | 12 ++++++++----
 boost/asynchronous/algorithm/parallel_search.hpp   | 12 ++++++++----
 boost/asynchronous/algorithm/parallel_search_n.hpp | 10 +++++++---
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_find_end.hpp b/boost/asynchronous/algorithm/parallel_find_end.hpp
index 76c577f..a277fca 100644
--- a/boost/asynchronous/algorithm/parallel_find_end.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_end.hpp
@@ -60,9 +60,9 @@ struct parallel_find_end_helper: public boost::asynchronous::continuation_task<I
             {
                 auto beg1 = beg1_;
                 auto end1 = end1_;
-                auto beg2 = end2_;
+                auto beg2 = beg2_;
                 auto end2 = end2_;
-                auto func = std::move(func_);
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
                             [task_res,it,beg1,end1,beg2,end2,func]
@@ -84,8 +84,12 @@ struct parallel_find_end_helper: public boost::asynchronous::continuation_task<I
                                         auto itend = it;
                                         auto dist2 = std::distance(beg2,end2);
 
-                                        std::advance(itbeg, std::distance(beg1,it) - dist2);
-                                        std::advance(itend, dist2);
+                                        // the overlap must not leave the searched range
+                                        auto dist1 = std::distance(beg1,it);
+                                        auto overlap = static_cast<decltype(dist1)>(dist2);
+                                        if (dist1 > overlap)
+                                            std::advance(itbeg, dist1 - overlap);
+                                        boost::asynchronous::detail::safe_advance(itend,overlap,end1);
                                         auto itoverlap = std::find_end(itbeg,itend,beg2,end2,func);
                                         if(itoverlap != itend)
                                         {
diff --git a/boost/asynchronous/algorithm/parallel_search.hpp b/boost/asynchronous/algorithm/parallel_search.hpp
index 5c5cc9f..3d5bedc 100644
--- a/boost/asynchronous/algorithm/parallel_search.hpp
+++ b/boost/asynchronous/algorithm/parallel_search.hpp
@@ -60,9 +60,9 @@ struct parallel_search_helper: public boost::asynchronous::continuation_task<Ite
             {
                 auto beg1 = beg1_;
                 auto end1 = end1_;
-                auto beg2 = end2_;
+                auto beg2 = beg2_;
                 auto end2 = end2_;
-                auto func = std::move(func_);
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
                             [task_res,it,beg1,end1,beg2,end2,func]
@@ -83,8 +83,12 @@ struct parallel_search_helper: public boost::asynchronous::continuation_task<Ite
                                         auto itbeg = beg1;
                                         auto itend = it;
                                         auto dist2 = std::distance(beg2,end2);
-                                        std::advance(itbeg, std::distance(beg1,it) - dist2);
-                                        std::advance(itend, dist2);
+                                        // the overlap must not leave the searched range
+                                        auto dist1 = std::distance(beg1,it);
+                                        auto overlap = static_cast<decltype(dist1)>(dist2);
+                                        if (dist1 > overlap)
+                                            std::advance(itbeg, dist1 - overlap);
+                                        boost::asynchronous::detail::safe_advance(itend,overlap,end1);
                                         auto itoverlap = std::search(itbeg,itend,beg2,end2,func);
                                         if(itoverlap != itend)
                                         {
diff --git a/boost/asynchronous/algorithm/parallel_search_n.hpp b/boost/asynchronous/algorithm/parallel_search_n.hpp
index 78f3f9b..d20ac2b 100644
--- a/boost/asynchronous/algorithm/parallel_search_n.hpp
+++ b/boost/asynchronous/algorithm/parallel_search_n.hpp
@@ -57,7 +57,7 @@ struct parallel_search_n_helper: public boost::asynchronous::continuation_task<I
                 auto end1 = end1_;
                 auto count = count_;
                 auto value = value_;
-                auto func = std::move(func_);
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
                             [task_res,it,beg1,end1,count,value,func]
@@ -77,8 +77,12 @@ struct parallel_search_n_helper: public boost::asynchronous::continuation_task<I
                                         // check in overlap region
                                         auto itbeg = beg1;
                                         auto itend = it;
-                                        std::advance(itbeg, std::distance(beg1,it) - count);
-                                        std::advance(itend, count);
+                                        // the overlap must not leave the searched range
+                                        auto dist1 = std::distance(beg1,it);
+                                        auto overlap = static_cast<decltype(dist1)>(count);
+                                        if (dist1 > overlap)
+                                            std::advance(itbeg, dist1 - overlap);
+                                        boost::asynchronous::detail::safe_advance(itend,overlap,end1);
                                         auto itoverlap = std::search_n(itbeg,itend,count,value,func);
                                         if(itoverlap != itend)
                                         {
-- 
2.43.0


From 942dc27b387a009d7c5cbc8f0c6fa5e9a54be112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 26/91] fix: parallel_lexicographical_compare must stop at the
 first difference and cut both ranges at the same place

---
 .../parallel_lexicographical_compare.hpp      | 113 ++++++++++--------
 1 file changed, 61 insertions(+), 52 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp b/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp
index 9d187db..7fc9e06 100644
--- a/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp
+++ b/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp
@@ -11,6 +11,8 @@
 #define BOOST_ASYNCHRONOUS_PARALLEL_LEXICOGRAPHICAL_COMPARE_HPP
 
 #include <algorithm>
+#include <cstddef>
+#include <iterator>
 #include <utility>
 #include <type_traits>
 #include <iterator>
@@ -33,18 +35,40 @@ namespace boost { namespace asynchronous
 namespace detail
 {
 // version for iterators
+// default comparison
+struct lexicographical_compare_less
+{
+    template <class T, class U>
+    bool operator()(T const& t, U const& u) const
+    {
+        return t < u;
+    }
+};
+// three-way comparison: the result of a part tells if the following parts have to be considered
+template <class Iterator1, class Iterator2, class Func>
+int lexicographical_compare_3way(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2, Func& func)
+{
+    for (; beg1 != end1 && beg2 != end2; ++beg1,++beg2)
+    {
+        if (func(*beg1,*beg2))
+            return -1;
+        if (func(*beg2,*beg1))
+            return 1;
+    }
+    return (beg1 != end1) ? 1 : ((beg2 != end2) ? -1 : 0);
+}
 template <class Iterator1, class Iterator2, class Func,class Job>
-struct parallel_lexicographical_compare_helper: public boost::asynchronous::continuation_task<bool>
+struct parallel_lexicographical_compare_helper: public boost::asynchronous::continuation_task<int>
 {
     parallel_lexicographical_compare_helper(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2, Func func,long cutoff,
                         const std::string& task_name, std::size_t prio)
-        : boost::asynchronous::continuation_task<bool>(task_name)
+        : boost::asynchronous::continuation_task<int>(task_name)
         , beg1_(beg1),end1_(end1), beg2_(beg2),end2_(end2)
         ,func_(std::move(func)),cutoff_(cutoff),prio_(prio)
     {}
     void operator()()
     {
-        boost::asynchronous::continuation_result<bool> task_res = this->this_task_result();
+        boost::asynchronous::continuation_result<int> task_res = this->this_task_result();
         try
         {
             // advance up to cutoff
@@ -53,22 +77,26 @@ struct parallel_lexicographical_compare_helper: public boost::asynchronous::cont
             // if not at end, recurse, otherwise execute here
             if ((it1 == end1_) || (it2 == end2_))
             {
-                task_res.set_value(std::lexicographical_compare(beg1_,end1_,beg2_,end2_,func_));
+                task_res.set_value(boost::asynchronous::detail::lexicographical_compare_3way(beg1_,end1_,beg2_,end2_,func_));
             }
             else
             {
+                // both ranges must be cut at the same place
+                auto dist = (std::min)(static_cast<std::ptrdiff_t>(std::distance(beg1_,it1)),static_cast<std::ptrdiff_t>(std::distance(beg2_,it2)));
+                it1 = beg1_;
+                std::advance(it1,dist);
+                it2 = beg2_;
+                std::advance(it2,dist);
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
-                            [task_res](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res) mutable
+                            [task_res](std::tuple<boost::asynchronous::expected<int>,boost::asynchronous::expected<int>> res) mutable
                             {
                                 try
                                 {
-                                    bool r1 = std::get<0>(res).get();
-                                    bool r2 = std::get<1>(res).get();
-                                    if (r1)
-                                        task_res.set_value(true);
-                                    else
-                                        task_res.set_value(r2);
+                                    int r1 = std::get<0>(res).get();
+                                    int r2 = std::get<1>(res).get();
+                                    // the second part only counts if the first one is equal
+                                    task_res.set_value((r1 != 0) ? r1 : r2);
                                 }
                                 catch(...)
                                 {
@@ -96,55 +124,35 @@ struct parallel_lexicographical_compare_helper: public boost::asynchronous::cont
     long cutoff_;
     std::size_t prio_;
 };
-template <class Iterator1, class Iterator2,class Job>
-struct parallel_lexicographical_compare_helper2: public boost::asynchronous::continuation_task<bool>
+template <class Iterator1, class Iterator2, class Func,class Job>
+struct parallel_lexicographical_compare_task: public boost::asynchronous::continuation_task<bool>
 {
-    parallel_lexicographical_compare_helper2(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2,long cutoff,
+    parallel_lexicographical_compare_task(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2, Func func,long cutoff,
                         const std::string& task_name, std::size_t prio)
         : boost::asynchronous::continuation_task<bool>(task_name)
         , beg1_(beg1),end1_(end1), beg2_(beg2),end2_(end2)
-        , cutoff_(cutoff),prio_(prio)
+        ,func_(std::move(func)),cutoff_(cutoff),prio_(prio)
     {}
     void operator()()
     {
         boost::asynchronous::continuation_result<bool> task_res = this->this_task_result();
         try
         {
-            // advance up to cutoff
-            Iterator1 it1 = boost::asynchronous::detail::find_cutoff(beg1_,cutoff_,end1_);
-            Iterator2 it2 = boost::asynchronous::detail::find_cutoff(beg2_,cutoff_,end2_);
-            // if not at end, recurse, otherwise execute here
-            if ((it1 == end1_) || (it2 == end2_))
-            {
-                task_res.set_value(std::lexicographical_compare(beg1_,end1_,beg2_,end2_));
-            }
-            else
-            {
-                boost::asynchronous::create_callback_continuation_job<Job>(
-                            // called when subtasks are done, set our result
-                            [task_res](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res) mutable
+            boost::asynchronous::create_callback_continuation_job<Job>(
+                        [task_res](std::tuple<boost::asynchronous::expected<int>> res) mutable
+                        {
+                            try
                             {
-                                try
-                                {
-                                    bool r1 = std::get<0>(res).get();
-                                    bool r2 = std::get<1>(res).get();
-                                    if (r1)
-                                        task_res.set_value(true);
-                                    else
-                                        task_res.set_value(r2);
-                                }
-                                catch(...)
-                                {
-                                    task_res.set_exception(std::current_exception());
-                                }
-                            },
-                            // recursive tasks
-                            parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Job>
-                                    (beg1_,it1,beg2_,it2,cutoff_,this->get_name(),prio_),
-                            parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Job>
-                                    (it1,end1_,it2,end2_,cutoff_,this->get_name(),prio_)
-                );
-            }
+                                task_res.set_value(std::get<0>(res).get() < 0);
+                            }
+                            catch(...)
+                            {
+                                task_res.set_exception(std::current_exception());
+                            }
+                        },
+                        parallel_lexicographical_compare_helper<Iterator1,Iterator2,Func,Job>
+                                (beg1_,end1_,beg2_,end2_,func_,cutoff_,this->get_name(),prio_)
+            );
         }
         catch(...)
         {
@@ -155,6 +163,7 @@ struct parallel_lexicographical_compare_helper2: public boost::asynchronous::con
     Iterator1 end1_;
     Iterator2 beg2_;
     Iterator2 end2_;
+    Func func_;
     long cutoff_;
     std::size_t prio_;
 };
@@ -172,7 +181,7 @@ parallel_lexicographical_compare(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,I
 #endif
 {
     return boost::asynchronous::top_level_callback_continuation_job<bool,Job>
-            (boost::asynchronous::detail::parallel_lexicographical_compare_helper<Iterator1,Iterator2,Func,Job>
+            (boost::asynchronous::detail::parallel_lexicographical_compare_task<Iterator1,Iterator2,Func,Job>
                 (beg1,end1,beg2,end2,func,cutoff,task_name,prio));
 }
 template <class Iterator1,class Iterator2,
@@ -186,8 +195,8 @@ parallel_lexicographical_compare(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,I
 #endif
 {
     return boost::asynchronous::top_level_callback_continuation_job<bool,Job>
-            (boost::asynchronous::detail::parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Job>
-                (beg1,end1,beg2,end2,cutoff,task_name,prio));
+            (boost::asynchronous::detail::parallel_lexicographical_compare_task<Iterator1,Iterator2,boost::asynchronous::detail::lexicographical_compare_less,Job>
+                (beg1,end1,beg2,end2,boost::asynchronous::detail::lexicographical_compare_less(),cutoff,task_name,prio));
 }
 }}
 
-- 
2.43.0


From 8a05c74500f34960be06a6281029e34232802c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 27/91] fix: parallel_is_partitioned dereferenced the end of an
 empty range

---
 boost/asynchronous/algorithm/parallel_is_partitioned.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/boost/asynchronous/algorithm/parallel_is_partitioned.hpp b/boost/asynchronous/algorithm/parallel_is_partitioned.hpp
index 2747feb..2d98606 100644
--- a/boost/asynchronous/algorithm/parallel_is_partitioned.hpp
+++ b/boost/asynchronous/algorithm/parallel_is_partitioned.hpp
@@ -138,6 +138,12 @@ struct parallel_is_partitioned_helper: public boost::asynchronous::continuation_
         boost::asynchronous::continuation_result<bool> task_res = this_task_result();
         try
         {
+            // an empty range is partitioned
+            if (beg_ == end_)
+            {
+                task_res.set_value(true);
+                return;
+            }
             boost::asynchronous::create_callback_continuation_job<Job>(
                         // called when subtasks are done, set our result
                         [task_res]
-- 
2.43.0


From d6b71484766d21f2eeb25ca42201bc4ada44ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 28/91] fix: parallel_merge must keep the order of equal
 elements

---
 .../asynchronous/algorithm/parallel_merge.hpp | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_merge.hpp b/boost/asynchronous/algorithm/parallel_merge.hpp
index 083ea32..4cb5eb6 100644
--- a/boost/asynchronous/algorithm/parallel_merge.hpp
+++ b/boost/asynchronous/algorithm/parallel_merge.hpp
@@ -54,7 +54,13 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
                         task_res.set_value();
                         return;
                     }
-                    helper(beg1_,end1_,beg2_,end2_,out_,std::move(task_res));
+                    // cut the first range in the middle, elements of the second range equal to the cut element must stay behind it
+                    Iterator1 it1 = beg1_ + length1/2;
+                    Iterator2 it2 = std::lower_bound(beg2_,end2_,*it1,func_);
+                    OutIterator it3 = out_ + ((it1 - beg1_) + (it2 - beg2_));
+                    // TODO move?
+                    *it3 = *it1;
+                    helper(it1,it1+1,it2,it2,it3,std::move(task_res));
                 }
                 else
                 {
@@ -63,7 +69,13 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
                         task_res.set_value();
                         return;
                     }
-                    helper(beg2_,end2_,beg1_,end1_,out_,std::move(task_res));
+                    // cut the second range in the middle, elements of the first range equal to the cut element must stay before it
+                    Iterator2 it2 = beg2_ + length2/2;
+                    Iterator1 it1 = std::upper_bound(beg1_,end1_,*it2,func_);
+                    OutIterator it3 = out_ + ((it1 - beg1_) + (it2 - beg2_));
+                    // TODO move?
+                    *it3 = *it2;
+                    helper(it1,it1,it2,it2+1,it3,std::move(task_res));
                 }
             }
         }
@@ -72,14 +84,10 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
             task_res.set_exception(std::current_exception());
         }
     }
-    template <class It1, class It2, class OutIt>
-    void helper(It1 beg1, It1 end1, It2 beg2, It2 end2, OutIt out,boost::asynchronous::continuation_result<void> task_res)const
+    // merges what is before and what is behind the cut element, already copied to out
+    void helper(Iterator1 left_end1, Iterator1 right_beg1, Iterator2 left_end2, Iterator2 right_beg2, OutIterator out,
+                boost::asynchronous::continuation_result<void> task_res)const
     {
-        auto it1 = (beg1+ (end1 - beg1)/2);
-        auto it2 = std::lower_bound(beg2,end2, *it1,func_);
-        auto it3 = out + ((it1 - beg1) + (it2 - beg2));
-        // TODO move?
-        *it3 = *it1;
         boost::asynchronous::create_callback_continuation_job<Job>(
                     // called when subtasks are done, set our result
                     [task_res](std::tuple<boost::asynchronous::expected<void>,boost::asynchronous::expected<void> > res) mutable
@@ -98,9 +106,9 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
                     },
                     // recursive tasks
                     parallel_merge_helper<Iterator1,Iterator2,OutIterator,Func,Job>
-                        (beg1,it1,beg2,it2,out,func_,cutoff_,this->get_name(),prio_),
+                        (beg1_,left_end1,beg2_,left_end2,out_,func_,cutoff_,this->get_name(),prio_),
                     parallel_merge_helper<Iterator1,Iterator2,OutIterator,Func,Job>
-                        (it1+1,end1,it2,end2,it3+1,func_,cutoff_,this->get_name(),prio_)
+                        (right_beg1,end1_,right_beg2,end2_,out+1,func_,cutoff_,this->get_name(),prio_)
         );
     }
 
-- 
2.43.0


From 5d21808ccb55d254a336abd87241b99a450f37d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 29/91] fix: parallel_partial_sort of an empty part
 dereferenced the end of an empty range or never ended

---
 boost/asynchronous/algorithm/parallel_partial_sort.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/boost/asynchronous/algorithm/parallel_partial_sort.hpp b/boost/asynchronous/algorithm/parallel_partial_sort.hpp
index 4649ac0..7d9049d 100644
--- a/boost/asynchronous/algorithm/parallel_partial_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_partial_sort.hpp
@@ -42,6 +42,12 @@ struct parallel_partial_sort_helper: public boost::asynchronous::continuation_ta
         boost::asynchronous::continuation_result<void> task_res = this_task_result();
         try
         {
+            // nothing to sort
+            if (beg_ == middle_)
+            {
+                task_res.set_value();
+                return;
+            }
             // if close enough, start sorting
             auto func(std::move(func_));
             auto cutoff = cutoff_;
-- 
2.43.0


From d3ab7f69f04103681a1dd3d16da56e3b953eb22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 30/91] fix: parallel_stable_sort must not reverse ranges which
 contain equal elements

---
 .../algorithm/parallel_is_sorted.hpp             | 12 ++++++++++++
 boost/asynchronous/algorithm/parallel_sort.hpp   | 16 ++++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_is_sorted.hpp b/boost/asynchronous/algorithm/parallel_is_sorted.hpp
index 92cb107..80c840f 100644
--- a/boost/asynchronous/algorithm/parallel_is_sorted.hpp
+++ b/boost/asynchronous/algorithm/parallel_is_sorted.hpp
@@ -117,6 +117,18 @@ namespace detail
         }
         Func func_;
     };
+    // used to find ranges which can be sorted by reversing them: without equal elements, whose order reversing would change
+    template <class Func>
+    struct strictly_reverse_sorted
+    {
+        strictly_reverse_sorted(Func f):func_(std::move(f)){}
+        template <class T>
+        bool operator ()(T const& lhs, T const& rhs)const
+        {
+            return !func_(lhs,rhs);
+        }
+        Func func_;
+    };
 }
 
 template <class Iterator, class Func, class Job=BOOST_ASYNCHRONOUS_DEFAULT_JOB>
diff --git a/boost/asynchronous/algorithm/parallel_sort.hpp b/boost/asynchronous/algorithm/parallel_sort.hpp
index 268a2f8..3c650fd 100644
--- a/boost/asynchronous/algorithm/parallel_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort.hpp
@@ -71,7 +71,7 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
             if ((it == end)&&(depth %2 == 0))
             {
                 // if already reverse sorted, only reverse
-                if (std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
+                if (std::is_sorted(beg,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func)))
                 {
                     std::reverse(beg,end);
                 }
@@ -189,7 +189,7 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
             if ((depth_ == 0) && (end_ == it))
             {
                 // if already reverse sorted, only reverse
-                if (std::is_sorted(beg_,it,boost::asynchronous::detail::reverse_sorted<Func>(func_)))
+                if (std::is_sorted(beg_,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func_)))
                 {
                     std::reverse(beg_,end_);
                 }
@@ -229,8 +229,8 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
                             task_res.set_value();
                             return;
                         }
-                        auto cont2 = boost::asynchronous::parallel_is_reverse_sorted<Iterator,Func,Job>
-                                (beg,end,func,cutoff,task_name+"_is_reverse_sorted",prio);
+                        auto cont2 = boost::asynchronous::parallel_is_sorted<Iterator,boost::asynchronous::detail::strictly_reverse_sorted<Func>,Job>
+                                (beg,end,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func),cutoff,task_name+"_is_reverse_sorted",prio);
 #if BOOST_GCC_VERSION < 40800
                         cont2.on_done([this,beg,end,depth,func,cutoff,task_name,prio,task_res]
 #else
@@ -558,7 +558,7 @@ struct parallel_sort_range_move_helper_serializable
             if (it == end)
             {
                 // if already reverse sorted, only reverse
-                if (std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
+                if (std::is_sorted(beg,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func)))
                 {
                     std::reverse(beg,end);
                 }
@@ -761,7 +761,7 @@ struct parallel_sort_range_move_helper2 : public boost::asynchronous::continuati
         if (it == end)
         {
             // if already reverse sorted, only reverse
-            if (std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
+            if (std::is_sorted(beg,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func)))
             {
                 std::reverse(beg,end);
             }
@@ -879,8 +879,8 @@ struct parallel_sort_range_move_helper2 : public boost::asynchronous::continuati
                             task_res.set_value(std::move(*range));
                             return;
                         }
-                        auto cont2 = boost::asynchronous::parallel_is_reverse_sorted<decltype(boost::begin(*range_)),Func,Job>
-                                (beg,end,func,cutoff,task_name+"_is_reverse_sorted",prio);
+                        auto cont2 = boost::asynchronous::parallel_is_sorted<decltype(boost::begin(*range_)),boost::asynchronous::detail::strictly_reverse_sorted<Func>,Job>
+                                (beg,end,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func),cutoff,task_name+"_is_reverse_sorted",prio);
 #if BOOST_GCC_VERSION < 40800
                         cont2.on_done([this,range,beg,end,depth,func,cutoff,task_name,prio,task_res]
 #else
-- 
2.43.0


From f50ba60bac58a6bff40f51082aef820bc551deef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 31/91] fix: parallel_nth_element searched the wrong part when
 the partition point was the nth element

---
 boost/asynchronous/algorithm/parallel_nth_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/algorithm/parallel_nth_element.hpp b/boost/asynchronous/algorithm/parallel_nth_element.hpp
index 4b4a1cc..fbff88f 100644
--- a/boost/asynchronous/algorithm/parallel_nth_element.hpp
+++ b/boost/asynchronous/algorithm/parallel_nth_element.hpp
@@ -106,7 +106,7 @@ struct parallel_nth_element_helper: public boost::asynchronous::continuation_tas
                             //std::cout << "done parallel_partition: " << res-beg << " , " << nth-beg << " , " << size_all_partitions << std::endl;
 
                             auto dist_beg_res = std::distance(beg,res);
-                            if (dist_beg_res >= std::distance(beg,nth))
+                            if (dist_beg_res > std::distance(beg,nth))
                             {
                                 // re-iterate on first part
                                 //std::cout << "1st part: " << res-beg << std::endl;
-- 
2.43.0


From d67f0b5d7e60a1746b55a3060592b1c1e560c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 32/91] fix: algorithms must propagate exceptions not derived
 from std::exception

---
 .../asynchronous/algorithm/parallel_adjacent_find.hpp  |  2 +-
 boost/asynchronous/algorithm/parallel_copy.hpp         |  2 +-
 .../asynchronous/algorithm/parallel_inner_product.hpp  |  4 ++--
 boost/asynchronous/algorithm/parallel_iota.hpp         |  4 ++--
 boost/asynchronous/algorithm/parallel_move.hpp         |  2 +-
 boost/asynchronous/algorithm/parallel_partition.hpp    |  2 +-
 boost/asynchronous/algorithm/parallel_transform.hpp    | 10 +++++-----
 7 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_adjacent_find.hpp b/boost/asynchronous/algorithm/parallel_adjacent_find.hpp
index 87c1f9d..51768a2 100644
--- a/boost/asynchronous/algorithm/parallel_adjacent_find.hpp
+++ b/boost/asynchronous/algorithm/parallel_adjacent_find.hpp
@@ -88,7 +88,7 @@ struct parallel_adjacent_find_helper : public boost::asynchronous::continuation_
                                 task_res.set_value(std::get<1>(res).get());
                             }
                         }
-                        catch (std::exception const & e)
+                        catch(...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
diff --git a/boost/asynchronous/algorithm/parallel_copy.hpp b/boost/asynchronous/algorithm/parallel_copy.hpp
index 5a268fa..98ce3d7 100644
--- a/boost/asynchronous/algorithm/parallel_copy.hpp
+++ b/boost/asynchronous/algorithm/parallel_copy.hpp
@@ -83,7 +83,7 @@ struct parallel_copy_helper : public boost::asynchronous::continuation_task<void
 
                             task_res.set_value();
                         }
-                        catch (std::exception const & e)
+                        catch(...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
diff --git a/boost/asynchronous/algorithm/parallel_inner_product.hpp b/boost/asynchronous/algorithm/parallel_inner_product.hpp
index 8d2cbb6..1376257 100644
--- a/boost/asynchronous/algorithm/parallel_inner_product.hpp
+++ b/boost/asynchronous/algorithm/parallel_inner_product.hpp
@@ -590,7 +590,7 @@ struct parallel_inner_product_continuation_helper: public boost::asynchronous::c
                                 {
                                     task_res.set_value(std::move(std::get<0>(res).get()));
                                 }
-                                catch (std::exception& e)
+                                catch(...)
                                 {
                                     task_res.set_exception(std::current_exception());
                                 }
@@ -664,7 +664,7 @@ struct parallel_inner_product_continuation_helper<Continuation1, Continuation2,
                                 {
                                     task_res.set_value(std::move(std::get<0>(res).get()));
                                 }
-                                catch (std::exception& e)
+                                catch(...)
                                 {
                                     task_res.set_exception(std::current_exception());
                                 }
diff --git a/boost/asynchronous/algorithm/parallel_iota.hpp b/boost/asynchronous/algorithm/parallel_iota.hpp
index 766486a..87a1c94 100644
--- a/boost/asynchronous/algorithm/parallel_iota.hpp
+++ b/boost/asynchronous/algorithm/parallel_iota.hpp
@@ -65,7 +65,7 @@ struct parallel_iota_inplace_helper : public boost::asynchronous::continuation_t
                                 std::get<1>(res).get();
                                 task_res.set_value();
                             }
-                            catch (std::exception& e)
+                            catch(...)
                             {
                                 task_res.set_exception(std::current_exception());
                             }
@@ -143,7 +143,7 @@ struct parallel_iota_generate_helper : public boost::asynchronous::continuation_
                                 std::get<1>(res).get();
                                 task_res.set_value(std::move(*range));
                             }
-                            catch (std::exception& e)
+                            catch(...)
                             {
                                 task_res.set_exception(std::current_exception());
                             }
diff --git a/boost/asynchronous/algorithm/parallel_move.hpp b/boost/asynchronous/algorithm/parallel_move.hpp
index 9d05d4e..aaf686f 100644
--- a/boost/asynchronous/algorithm/parallel_move.hpp
+++ b/boost/asynchronous/algorithm/parallel_move.hpp
@@ -82,7 +82,7 @@ struct parallel_move_helper : public boost::asynchronous::continuation_task<void
 
                             task_res.set_value();
                         }
-                        catch (std::exception const & e)
+                        catch(...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
diff --git a/boost/asynchronous/algorithm/parallel_partition.hpp b/boost/asynchronous/algorithm/parallel_partition.hpp
index aae94b8..407a8ce 100644
--- a/boost/asynchronous/algorithm/parallel_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_partition.hpp
@@ -160,7 +160,7 @@ struct partition_worker : public boost::asynchronous::continuation_task<std::pai
                         task_res.set_value(std::make_pair(std::move(l_rest), std::move(r_rest)));
                         return;
                     }
-                    catch (std::exception& )
+                    catch(...)
                     {
                         task_res.set_exception(std::current_exception());
                         return;
diff --git a/boost/asynchronous/algorithm/parallel_transform.hpp b/boost/asynchronous/algorithm/parallel_transform.hpp
index a6401c5..05d964e 100644
--- a/boost/asynchronous/algorithm/parallel_transform.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform.hpp
@@ -142,7 +142,7 @@ struct parallel_transform_helper : public boost::asynchronous::continuation_task
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch(...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -236,7 +236,7 @@ struct parallel_transform2_helper : public boost::asynchronous::continuation_tas
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch(...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -320,7 +320,7 @@ struct parallel_transform_range_helper : public boost::asynchronous::continuatio
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch(...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -411,7 +411,7 @@ struct parallel_transform2_range_helper : public boost::asynchronous::continuati
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch(...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -510,7 +510,7 @@ struct parallel_transform_any_iterators_helper : public boost::asynchronous::con
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch(...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
-- 
2.43.0


From 72ec2800f1135dee5690770764b6223ac97e9b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 33/91] fix: the continuation forms of the algorithms must
 propagate exceptions

---
 .../parallel_geometry_intersection_of_x.hpp   |  18 ++-
 .../geometry/parallel_geometry_union_of_x.hpp |  18 ++-
 .../algorithm/parallel_all_of.hpp             |   9 +-
 .../algorithm/parallel_any_of.hpp             |   9 +-
 .../asynchronous/algorithm/parallel_copy.hpp  |  18 ++-
 .../asynchronous/algorithm/parallel_count.hpp |  18 ++-
 .../algorithm/parallel_find_all.hpp           |  18 ++-
 .../algorithm/parallel_find_end.hpp           |   9 +-
 .../algorithm/parallel_find_first_of.hpp      |   9 +-
 boost/asynchronous/algorithm/parallel_for.hpp |  18 ++-
 .../asynchronous/algorithm/parallel_move.hpp  |  18 ++-
 .../algorithm/parallel_none_of.hpp            |   9 +-
 .../algorithm/parallel_partition.hpp          |   9 +-
 .../algorithm/parallel_reduce.hpp             |  18 ++-
 .../algorithm/parallel_replace_copy.hpp       |  18 ++-
 .../algorithm/parallel_reverse.hpp            |  18 ++-
 .../asynchronous/algorithm/parallel_scan.hpp  |   9 +-
 .../algorithm/parallel_search.hpp             |   9 +-
 .../asynchronous/algorithm/parallel_sort.hpp  | 108 ++++++++++++++++--
 .../algorithm/parallel_sort_inplace.hpp       |  54 ++++++++-
 .../algorithm/parallel_stable_partition.hpp   |   9 +-
 21 files changed, 376 insertions(+), 47 deletions(-)

diff --git a/boost/asynchronous/algorithm/geometry/parallel_geometry_intersection_of_x.hpp b/boost/asynchronous/algorithm/geometry/parallel_geometry_intersection_of_x.hpp
index f2597cb..982e97d 100644
--- a/boost/asynchronous/algorithm/geometry/parallel_geometry_intersection_of_x.hpp
+++ b/boost/asynchronous/algorithm/geometry/parallel_geometry_intersection_of_x.hpp
@@ -285,7 +285,14 @@ struct parallel_geometry_intersection_of_x_continuation_range_helper: public boo
                         (std::move(std::get<0>(continuation_res).get()),task_name,prio,cutoff,overlay_cutoff,partition_cutoff);
                 new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                 {
-                    task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                    try
+                    {
+                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                    }
+                    catch(...)
+                    {
+                        task_res.set_exception(std::current_exception());
+                    }
                 });
             }
             catch(...)
@@ -331,7 +338,14 @@ struct parallel_geometry_intersection_of_x_continuation_range_helper<Continuatio
                         (std::move(std::get<0>(continuation_res).get()),task_name,prio,cutoff,overlay_cutoff,partition_cutoff);
                 new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                 {
-                    task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                    try
+                    {
+                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                    }
+                    catch(...)
+                    {
+                        task_res.set_exception(std::current_exception());
+                    }
                 });
             }
             catch(...)
diff --git a/boost/asynchronous/algorithm/geometry/parallel_geometry_union_of_x.hpp b/boost/asynchronous/algorithm/geometry/parallel_geometry_union_of_x.hpp
index 23fe044..76bfa26 100644
--- a/boost/asynchronous/algorithm/geometry/parallel_geometry_union_of_x.hpp
+++ b/boost/asynchronous/algorithm/geometry/parallel_geometry_union_of_x.hpp
@@ -280,7 +280,14 @@ struct parallel_geometry_union_of_x_continuation_range_helper: public boost::asy
                         (std::move(std::get<0>(continuation_res).get()),task_name,prio,cutoff,overlay_cutoff,partition_cutoff);
                 new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                 {
-                    task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                    try
+                    {
+                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                    }
+                    catch(...)
+                    {
+                        task_res.set_exception(std::current_exception());
+                    }
                 });
             }
             catch(...)
@@ -326,7 +333,14 @@ struct parallel_geometry_union_of_x_continuation_range_helper<Continuation,Job,
                         (std::move(std::get<0>(continuation_res).get()),task_name,prio,cutoff,overlay_cutoff,partition_cutoff);
                 new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                 {
-                    task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                    try
+                    {
+                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                    }
+                    catch(...)
+                    {
+                        task_res.set_exception(std::current_exception());
+                    }
                 });
             }
             catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_all_of.hpp b/boost/asynchronous/algorithm/parallel_all_of.hpp
index 2ea9cd1..027c9fb 100644
--- a/boost/asynchronous/algorithm/parallel_all_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_all_of.hpp
@@ -103,7 +103,14 @@ struct parallel_all_of_continuation_range_helper: public boost::asynchronous::co
                     new_continuation.on_done([res,task_res]
                                              (std::tuple<boost::asynchronous::expected<bool> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_any_of.hpp b/boost/asynchronous/algorithm/parallel_any_of.hpp
index b35c3d3..edb6eb6 100644
--- a/boost/asynchronous/algorithm/parallel_any_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_any_of.hpp
@@ -103,7 +103,14 @@ struct parallel_any_of_continuation_range_helper: public boost::asynchronous::co
                                 (boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<bool> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_copy.hpp b/boost/asynchronous/algorithm/parallel_copy.hpp
index 98ce3d7..4121d58 100644
--- a/boost/asynchronous/algorithm/parallel_copy.hpp
+++ b/boost/asynchronous/algorithm/parallel_copy.hpp
@@ -244,7 +244,14 @@ struct parallel_copy_continuation_range_helper: public boost::asynchronous::cont
                     auto new_continuation = boost::asynchronous::parallel_copy<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -294,7 +301,14 @@ struct parallel_copy_continuation_range_helper<Continuation, ResultIterator, Job
                     auto new_continuation = boost::asynchronous::parallel_copy<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_count.hpp b/boost/asynchronous/algorithm/parallel_count.hpp
index c062bfc..2e23e49 100644
--- a/boost/asynchronous/algorithm/parallel_count.hpp
+++ b/boost/asynchronous/algorithm/parallel_count.hpp
@@ -434,7 +434,14 @@ struct parallel_count_continuation_range_helper: public boost::asynchronous::con
                     auto new_continuation = boost::asynchronous::parallel_count_if<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<std::future<long> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -483,7 +490,14 @@ struct parallel_count_continuation_range_helper<Continuation,Func,Job,
                     auto new_continuation = boost::asynchronous::parallel_count_if<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<long> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_all.hpp b/boost/asynchronous/algorithm/parallel_find_all.hpp
index 7e22533..adc9076 100644
--- a/boost/asynchronous/algorithm/parallel_find_all.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_all.hpp
@@ -418,7 +418,14 @@ struct parallel_find_all_continuation_range_helper: public boost::asynchronous::
                     auto new_continuation = boost::asynchronous::parallel_find_all<typename Continuation::return_type, Func, ReturnRange, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<ReturnRange> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -468,7 +475,14 @@ struct parallel_find_all_continuation_range_helper<Continuation,Func,ReturnRange
                     auto new_continuation = boost::asynchronous::parallel_find_all<typename Continuation::return_type, Func, ReturnRange, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<ReturnRange> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_end.hpp b/boost/asynchronous/algorithm/parallel_find_end.hpp
index a277fca..775e515 100644
--- a/boost/asynchronous/algorithm/parallel_find_end.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_end.hpp
@@ -207,7 +207,14 @@ struct parallel_find_end_range_helper: public boost::asynchronous::continuation_
                                 (beg1,end1,boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator1> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_first_of.hpp b/boost/asynchronous/algorithm/parallel_find_first_of.hpp
index cf09e34..5c15549 100644
--- a/boost/asynchronous/algorithm/parallel_find_first_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_first_of.hpp
@@ -172,7 +172,14 @@ struct parallel_find_first_of_range_helper: public boost::asynchronous::continua
                                 (beg1,end1,boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator1> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_for.hpp b/boost/asynchronous/algorithm/parallel_for.hpp
index a82ecc4..1d0da78 100644
--- a/boost/asynchronous/algorithm/parallel_for.hpp
+++ b/boost/asynchronous/algorithm/parallel_for.hpp
@@ -434,7 +434,14 @@ struct parallel_for_continuation_range_helper: public boost::asynchronous::conti
                     auto new_continuation = boost::asynchronous::parallel_for<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -486,7 +493,14 @@ struct parallel_for_continuation_range_helper<Continuation,Func,Job,
                     {
                         try
                         {
-                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                            try
+                            {
+                                task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                            }
+                            catch(...)
+                            {
+                                task_res.set_exception(std::current_exception());
+                            }
                         }
                         catch(...)
                         {
diff --git a/boost/asynchronous/algorithm/parallel_move.hpp b/boost/asynchronous/algorithm/parallel_move.hpp
index aaf686f..54922ba 100644
--- a/boost/asynchronous/algorithm/parallel_move.hpp
+++ b/boost/asynchronous/algorithm/parallel_move.hpp
@@ -243,7 +243,14 @@ struct parallel_move_continuation_range_helper: public boost::asynchronous::cont
                     auto new_continuation = boost::asynchronous::parallel_move<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -293,7 +300,14 @@ struct parallel_move_continuation_range_helper<Continuation, ResultIterator, Job
                     auto new_continuation = boost::asynchronous::parallel_move<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_none_of.hpp b/boost/asynchronous/algorithm/parallel_none_of.hpp
index 3b675ec..656e736 100644
--- a/boost/asynchronous/algorithm/parallel_none_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_none_of.hpp
@@ -103,7 +103,14 @@ struct parallel_none_of_continuation_range_helper: public boost::asynchronous::c
                                 (boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<bool> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_partition.hpp b/boost/asynchronous/algorithm/parallel_partition.hpp
index 407a8ce..3e408c0 100644
--- a/boost/asynchronous/algorithm/parallel_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_partition.hpp
@@ -515,7 +515,14 @@ struct parallel_partition_continuation_helper:
                     [task_res]
                     (std::tuple<boost::asynchronous::expected<return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_reduce.hpp b/boost/asynchronous/algorithm/parallel_reduce.hpp
index 6e9e808..2a3c321 100644
--- a/boost/asynchronous/algorithm/parallel_reduce.hpp
+++ b/boost/asynchronous/algorithm/parallel_reduce.hpp
@@ -487,7 +487,14 @@ struct parallel_reduce_continuation_range_helper: public boost::asynchronous::co
                     new_continuation.on_done([task_res]
                                              (std::tuple<boost::asynchronous::expected<ReturnType> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -540,7 +547,14 @@ struct parallel_reduce_continuation_range_helper<Continuation,Func,Func2,ReturnT
                           (std::move(std::get<0>(continuation_res).get()),func,func2,cutoff,task_name,prio);
                   new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<ReturnType> >&& new_continuation_res)
                   {
-                      task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                      try
+                      {
+                          task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                      }
+                      catch(...)
+                      {
+                          task_res.set_exception(std::current_exception());
+                      }
                   });
               }
               catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_replace_copy.hpp b/boost/asynchronous/algorithm/parallel_replace_copy.hpp
index 1773981..bbdaad3 100644
--- a/boost/asynchronous/algorithm/parallel_replace_copy.hpp
+++ b/boost/asynchronous/algorithm/parallel_replace_copy.hpp
@@ -76,7 +76,14 @@ struct parallel_replace_copy_if_continuation_helper: public boost::asynchronous:
                                 (boost::begin(*res),boost::end(*res),res_it,func,new_value,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator2> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -173,7 +180,14 @@ struct parallel_replace_copy_continuation_helper: public boost::asynchronous::co
                     new_continuation.on_done([res,task_res]
                                              (std::tuple<boost::asynchronous::expected<Iterator2> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_reverse.hpp b/boost/asynchronous/algorithm/parallel_reverse.hpp
index c51eb51..69d9264 100644
--- a/boost/asynchronous/algorithm/parallel_reverse.hpp
+++ b/boost/asynchronous/algorithm/parallel_reverse.hpp
@@ -157,7 +157,14 @@ struct parallel_reverse_continuation_range_helper: public boost::asynchronous::c
                        boost::asynchronous::parallel_reverse<typename Continuation::return_type, Job>(std::move(std::get<0>(continuation_res).get()),cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -206,7 +213,14 @@ struct parallel_reverse_continuation_range_helper<Continuation,Job,
                        boost::asynchronous::parallel_reverse<typename Continuation::return_type, Job>(std::move(std::get<0>(continuation_res).get()),cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_scan.hpp b/boost/asynchronous/algorithm/parallel_scan.hpp
index dcd036a..64d02da 100644
--- a/boost/asynchronous/algorithm/parallel_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_scan.hpp
@@ -522,7 +522,14 @@ struct parallel_scan_range_continuation_helper: public boost::asynchronous::cont
                     {
                         try
                         {
-                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                            try
+                            {
+                                task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                            }
+                            catch(...)
+                            {
+                                task_res.set_exception(std::current_exception());
+                            }
                         }
                         catch(...)
                         {
diff --git a/boost/asynchronous/algorithm/parallel_search.hpp b/boost/asynchronous/algorithm/parallel_search.hpp
index 3d5bedc..e3af080 100644
--- a/boost/asynchronous/algorithm/parallel_search.hpp
+++ b/boost/asynchronous/algorithm/parallel_search.hpp
@@ -206,7 +206,14 @@ struct parallel_search_range_helper: public boost::asynchronous::continuation_ta
                                 (beg1,end1,boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator1> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_sort.hpp b/boost/asynchronous/algorithm/parallel_sort.hpp
index 3c650fd..becae3e 100644
--- a/boost/asynchronous/algorithm/parallel_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort.hpp
@@ -1026,7 +1026,14 @@ struct parallel_sort_continuation_range_helper: public boost::asynchronous::cont
                     auto new_continuation = boost::asynchronous::parallel_sort<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1075,7 +1082,14 @@ struct parallel_sort_continuation_range_helper<Continuation,Func,Job,
                     auto new_continuation = boost::asynchronous::parallel_sort<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1122,7 +1136,14 @@ struct parallel_stable_sort_continuation_range_helper: public boost::asynchronou
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1172,7 +1193,14 @@ struct parallel_stable_sort_continuation_range_helper<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1219,7 +1247,14 @@ struct parallel_spreadsort_continuation_range_helper: public boost::asynchronous
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1269,7 +1304,14 @@ struct parallel_spreadsort_continuation_range_helper<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1359,7 +1401,14 @@ struct parallel_sort_continuation_range_helper2: public boost::asynchronous::con
                     auto new_continuation = boost::asynchronous::parallel_sort2<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1408,7 +1457,14 @@ struct parallel_sort_continuation_range_helper2<Continuation,Func,Job,
                     auto new_continuation = boost::asynchronous::parallel_sort2<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1455,7 +1511,14 @@ struct parallel_stable_sort_continuation_range_helper2: public boost::asynchrono
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1505,7 +1568,14 @@ struct parallel_stable_sort_continuation_range_helper2<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1552,7 +1622,14 @@ struct parallel_spreadsort_continuation_range_helper2: public boost::asynchronou
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1602,7 +1679,14 @@ struct parallel_spreadsort_continuation_range_helper2<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_sort_inplace.hpp b/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
index 98634b9..4294062 100644
--- a/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
@@ -266,7 +266,14 @@ struct parallel_sort_continuation_range_inplace_helper: public boost::asynchrono
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -316,7 +323,14 @@ struct parallel_sort_continuation_range_inplace_helper<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -363,7 +377,14 @@ struct parallel_stable_sort_continuation_range_inplace_helper: public boost::asy
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -413,7 +434,14 @@ struct parallel_stable_sort_continuation_range_inplace_helper<Continuation,Func,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -460,7 +488,14 @@ struct parallel_spreadsort_continuation_range_inplace_helper: public boost::asyn
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -510,7 +545,14 @@ struct parallel_spreadsort_continuation_range_inplace_helper<Continuation,Func,J
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_stable_partition.hpp b/boost/asynchronous/algorithm/parallel_stable_partition.hpp
index 3068a05..cfcce55 100644
--- a/boost/asynchronous/algorithm/parallel_stable_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_stable_partition.hpp
@@ -508,7 +508,14 @@ struct parallel_stable_partition_continuation_helper:
                     [task_res]
                     (std::tuple<boost::asynchronous::expected<return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
-- 
2.43.0


From 5676f5513b9d55b2057dd3b1e8b3feac1eac4be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 34/91] fix: parallel_partition must propagate an exception of
 its predicate

---
 .../algorithm/parallel_partition.hpp          | 96 ++++++++++---------
 1 file changed, 51 insertions(+), 45 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_partition.hpp b/boost/asynchronous/algorithm/parallel_partition.hpp
index 3e408c0..e457253 100644
--- a/boost/asynchronous/algorithm/parallel_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_partition.hpp
@@ -311,62 +311,68 @@ struct parallel_partition_helper : public boost::asynchronous::continuation_task
                (std::tuple<boost::asynchronous::expected<std::pair<std::list<std::pair<Iterator, Iterator>>, std::list<std::pair<Iterator, Iterator>>>> > res)
                 mutable
             {
+                try
+                {
+                    std::pair<std::list<std::pair<Iterator, Iterator>>, std::list<std::pair<Iterator, Iterator>>> R = std::move(std::get<0>(res).get());
+                    std::list<std::pair<Iterator, Iterator>> l_rest = std::move(R.first);
+                    std::list<std::pair<Iterator, Iterator>> r_rest = std::move(R.second);
 
-                std::pair<std::list<std::pair<Iterator, Iterator>>, std::list<std::pair<Iterator, Iterator>>> R = std::move(std::get<0>(res).get());
-                std::list<std::pair<Iterator, Iterator>> l_rest = std::move(R.first);
-                std::list<std::pair<Iterator, Iterator>> r_rest = std::move(R.second);
-
-                auto it_left_plus_rtrue = sd->m_left;
-                auto it_left_plus_lmove = sd->m_left;
-                std::advance(it_left_plus_rtrue,sd->m_rtrue.load());
-                std::advance(it_left_plus_lmove,sd->m_lmove.load());
+                    auto it_left_plus_rtrue = sd->m_left;
+                    auto it_left_plus_lmove = sd->m_left;
+                    std::advance(it_left_plus_rtrue,sd->m_rtrue.load());
+                    std::advance(it_left_plus_lmove,sd->m_lmove.load());
 
-                if (sd->m_lmove < sd->m_rtrue)
-                {
-                    for(auto& r : r_rest)
+                    if (sd->m_lmove < sd->m_rtrue)
                     {
-                        if(r.first < it_left_plus_rtrue) r.first = it_left_plus_rtrue;
-                        if(r.second < it_left_plus_rtrue) r.second = it_left_plus_rtrue;
+                        for(auto& r : r_rest)
+                        {
+                            if(r.first < it_left_plus_rtrue) r.first = it_left_plus_rtrue;
+                            if(r.second < it_left_plus_rtrue) r.second = it_left_plus_rtrue;
+                        }
+                        l_rest.push_back(std::make_pair(it_left_plus_lmove,it_left_plus_rtrue));
                     }
-                    l_rest.push_back(std::make_pair(it_left_plus_lmove,it_left_plus_rtrue));
-                }
-                if (sd->m_lmove > sd->m_rtrue)
-                {
-                    for(auto& l : l_rest)
+                    if (sd->m_lmove > sd->m_rtrue)
                     {
-                        if(l.first > it_left_plus_rtrue) l.first = it_left_plus_rtrue;
-                        if(l.second > it_left_plus_rtrue) l.second = it_left_plus_rtrue;
+                        for(auto& l : l_rest)
+                        {
+                            if(l.first > it_left_plus_rtrue) l.first = it_left_plus_rtrue;
+                            if(l.second > it_left_plus_rtrue) l.second = it_left_plus_rtrue;
+                        }
+                        r_rest.push_back(std::make_pair(it_left_plus_rtrue,it_left_plus_lmove));
                     }
-                    r_rest.push_back(std::make_pair(it_left_plus_rtrue,it_left_plus_lmove));
-                }
 
-                Iterator lbs = sd->m_left, rbs = sd->m_right, lbe = sd->m_left, rbe = sd->m_right;
-                while((!r_rest.empty() || rbs != rbe) && (!l_rest.empty() || lbs != lbe))
-                {
-                    if (rbs == rbe)
+                    Iterator lbs = sd->m_left, rbs = sd->m_right, lbe = sd->m_left, rbe = sd->m_right;
+                    while((!r_rest.empty() || rbs != rbe) && (!l_rest.empty() || lbs != lbe))
                     {
-                        rbs = r_rest.front().first;
-                        rbe = r_rest.front().second;
-                        r_rest.pop_front();
-                    }
-                    if (lbs == lbe)
-                    {
-                        lbs = l_rest.front().first;
-                        lbe = l_rest.front().second;
-                        l_rest.pop_front();
-                    }
+                        if (rbs == rbe)
+                        {
+                            rbs = r_rest.front().first;
+                            rbe = r_rest.front().second;
+                            r_rest.pop_front();
+                        }
+                        if (lbs == lbe)
+                        {
+                            lbs = l_rest.front().first;
+                            lbe = l_rest.front().second;
+                            l_rest.pop_front();
+                        }
 
-                    for(;;)
-                    {
-                        while (lbs < lbe && rel(*(lbs))) ++lbs;
-                        while (rbs < rbe && !rel(*(rbs))) ++rbs;
-                        if (lbs == lbe || rbs == rbe) break;
-                        std::swap(*lbs,*rbs);
+                        for(;;)
+                        {
+                            while (lbs < lbe && rel(*(lbs))) ++lbs;
+                            while (rbs < rbe && !rel(*(rbs))) ++rbs;
+                            if (lbs == lbe || rbs == rbe) break;
+                            std::swap(*lbs,*rbs);
+                        }
                     }
-                }
 
-                task_res.set_value(it_left_plus_rtrue);
-                return;
+                    task_res.set_value(it_left_plus_rtrue);
+                    return;
+                }
+                catch(...)
+                {
+                    task_res.set_exception(std::current_exception());
+                }
             });
         }
         catch(...)
-- 
2.43.0


From 4cda4f9ef1d0442b0b5f07bf7a52f041b38d676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 35/91] fix: interruptible job stolen by a scheduler of another
 type dereferenced a null worker pointer

---
 .../scheduler/detail/interruptible_job.hpp          | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/scheduler/detail/interruptible_job.hpp b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
index 95f9daf..56c8865 100644
--- a/boost/asynchronous/scheduler/detail/interruptible_job.hpp
+++ b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
@@ -27,7 +27,16 @@ namespace boost { namespace asynchronous
 
 struct thread_ptr_wrapper
 {
-    thread_ptr_wrapper(boost::thread* t):m_thread(t){}
+    thread_ptr_wrapper(boost::thread* t):m_thread(t){current_worker() = t;}
+    ~thread_ptr_wrapper(){current_worker() = nullptr;}
+    thread_ptr_wrapper(thread_ptr_wrapper const&) = delete;
+    thread_ptr_wrapper& operator=(thread_ptr_wrapper const&) = delete;
+    // the worker executing in the current thread, whatever its scheduler: a job can be stolen by a scheduler of another type
+    static boost::thread*& current_worker()
+    {
+        static thread_local boost::thread* worker = nullptr;
+        return worker;
+    }
     boost::thread* m_thread;
 };
 
@@ -88,7 +97,7 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
             boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
             return;
         }
-        m_worker->set_value(Scheduler::m_self_thread.get()->m_thread);
+        m_worker->set_value(boost::asynchronous::thread_ptr_wrapper::current_worker());
         m_state->run();
         // if interrupted in this very short time, we don't need to start
         if (m_state->is_interrupted())
-- 
2.43.0


From 4b4202a9191a37ee51113e00e7fa967211ce0f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 36/91] fix: composite_threadpool_scheduler confused the queues
 of its stealing subpools when a scheduler with another job type comes first

---
 .../composite_threadpool_scheduler.hpp        | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
index 048fe33..be20957 100644
--- a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
@@ -68,8 +68,10 @@ public:
         // we must get at least one scheduler
         BOOST_STATIC_ASSERT(sizeof...(args)>0);
         std::vector<std::vector<boost::asynchronous::any_queue_ptr<job_type> > > stealing_queues;
-        ctor_queue_helper(m_subpools,stealing_queues,args...);
-        ctor_pool_helper(stealing_queues,m_subpools);
+        // position of the queues of each subpool within stealing_queues (schedulers with a different job type only lend their queues)
+        std::vector<std::size_t> subpool_positions;
+        ctor_queue_helper(m_subpools,stealing_queues,subpool_positions,args...);
+        ctor_pool_helper(stealing_queues,subpool_positions,m_subpools);
     }
 
 #endif
@@ -265,13 +267,14 @@ private:
 
     template <class T,class S>
     typename std::enable_if< std::is_same<job_type, typename S::job_type>::value,void >::type
-    add_scheduler_helper(T& t,S& s)
+    add_scheduler_helper(T& t,std::vector<std::size_t>& positions,std::size_t position,S& s)
     {
         t.push_back(s);
+        positions.push_back(position);
     }
     template <class T,class S>
     typename std::enable_if< !std::is_same<job_type, typename S::job_type>::value,void >::type
-    add_scheduler_helper(T&,S&)
+    add_scheduler_helper(T&,std::vector<std::size_t>&,std::size_t,S&)
     {
     }
     template <class T,class S>
@@ -295,27 +298,27 @@ private:
     }
 
     template <typename T,typename Last>
-    void ctor_queue_helper(T& t, std::vector<std::vector<boost::asynchronous::any_queue_ptr<job_type> > >& queues, Last& l)
+    void ctor_queue_helper(T& t, std::vector<std::vector<boost::asynchronous::any_queue_ptr<job_type> > >& queues, std::vector<std::size_t>& positions, Last& l)
     {
-        add_scheduler_helper(t,l);
+        add_scheduler_helper(t,positions,queues.size(),l);
         add_queue_helper(queues,l);
     }
 
     template <typename T,typename... Tail, typename Front>
-    void ctor_queue_helper(T& t,std::vector<std::vector<boost::asynchronous::any_queue_ptr<job_type> > >& queues, Front& front,Tail&... tail)
+    void ctor_queue_helper(T& t,std::vector<std::vector<boost::asynchronous::any_queue_ptr<job_type> > >& queues, std::vector<std::size_t>& positions, Front& front,Tail&... tail)
     {
-        add_scheduler_helper(t,front);
+        add_scheduler_helper(t,positions,queues.size(),front);
         add_queue_helper(queues,front);
-        ctor_queue_helper(t,queues,tail...);
+        ctor_queue_helper(t,queues,positions,tail...);
     }
-    void ctor_pool_helper(std::vector<std::vector<boost::asynchronous::any_queue_ptr<job_type> > > const& queues,std::vector<subpool_type>& subs)
+    void ctor_pool_helper(std::vector<std::vector<boost::asynchronous::any_queue_ptr<job_type> > > const& queues,std::vector<std::size_t> const& positions,std::vector<subpool_type>& subs)
     {
         for (std::size_t i=0; i< subs.size(); ++i)
         {
             std::vector<boost::asynchronous::any_queue_ptr<job_type> > steal_from;
             for (std::size_t j=0; j< queues.size(); ++j)
             {
-                if (i!=j)
+                if (positions[i]!=j)
                 {
                     steal_from.insert(steal_from.end(),queues[j].begin(),queues[j].end());
                 }
-- 
2.43.0


From d87ecefaf50f8680879fda7ca3b2720a746b1a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 37/91] fix: asio_scheduler: interruptible_post set the
 poster's interrupt state

---
 boost/asynchronous/extensions/asio/asio_scheduler.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/boost/asynchronous/extensions/asio/asio_scheduler.hpp b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
index f005741..356f44c 100644
--- a/boost/asynchronous/extensions/asio/asio_scheduler.hpp
+++ b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
@@ -255,9 +255,6 @@ public:
     {
         std::shared_ptr<boost::asynchronous::detail::interrupt_state>
                 state = std::make_shared<boost::asynchronous::detail::interrupt_state>();
-        // write to tss in case the task requires it
-        boost::asynchronous::get_interrupt_state<>(state,true);
-
         std::shared_ptr<std::promise<boost::thread*> > wpromise = std::make_shared<std::promise<boost::thread*> >();
         boost::asynchronous::job_traits<job_type>::set_posted_time(job);
         boost::asynchronous::interruptible_job<job_type,this_type>
-- 
2.43.0


From f3c9eb3db8436453362cffdc3ff22fbabaed62ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 38/91] fix: io_threadpool_scheduler: jobs for all threads only
 to threads serving their private queue

---
 .../scheduler/io_threadpool_scheduler.hpp         | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index ac814ea..65dcc4e 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -284,8 +284,8 @@ public:
 
     void set_name(std::string const& name)
     {
-        boost::mutex::scoped_lock lock(m_data->m_current_number_of_workers_mutex);
-        for (size_t i = 0; i< m_data->m_thread_ids.size();++i)
+        // only the permanent threads serve their private queue
+        for (size_t i = 0; i< m_data->m_min_number_of_workers;++i)
         {
             boost::asynchronous::detail::set_name_task<typename Q::diagnostic_type> ntask(name);
 #ifndef BOOST_NO_RVALUE_REFERENCES
@@ -302,11 +302,8 @@ public:
     }
     void processor_bind(std::vector<std::tuple<unsigned int/*first core*/,unsigned int/*number of threads*/>> p)
     {
-        std::size_t idsize=0;
-        {
-            boost::mutex::scoped_lock lock(m_data->m_current_number_of_workers_mutex);
-            idsize = m_data->m_thread_ids.size();
-        }
+        // only the permanent threads serve their private queue
+        std::size_t idsize=m_data->m_min_number_of_workers;
         // our thread (queue) index. 0 means "don't care" and is therefore not desirable)
         size_t t = 0;
         for(auto const& v : p)
@@ -322,10 +319,10 @@ public:
     BOOST_ATTRIBUTE_NODISCARD std::vector<std::future<void>> execute_in_all_threads(boost::asynchronous::any_callable c)
     {
         std::vector<std::future<void>> res;
-        std::size_t idsize=0;
+        // only the permanent threads serve their private queue
+        std::size_t idsize=m_data->m_min_number_of_workers;
         {
             boost::mutex::scoped_lock lock(m_data->m_current_number_of_workers_mutex);
-            idsize = m_data->m_thread_ids.size();
             // remember waiting callable for newly created threads
             m_data->m_execute_in_all_threads.push_back(c);
         }
-- 
2.43.0


From ff00d9784efaf1f6ae8d26feadf325a5a4aeb7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 39/91] fix: io_threadpool_scheduler: temporary threads ended
 with continuations waiting

---
 .../scheduler/io_threadpool_scheduler.hpp          | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index 65dcc4e..7b9f564 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -179,7 +179,7 @@ public:
                         // make this thread an old thread
                         data->thread_finished(p);
                     };
-            std::function<bool()> c = [data]()mutable{return data->test_worker_loop();};
+            std::function<bool(bool)> c = [data](bool no_continuation)mutable{return data->test_worker_loop(no_continuation);};
             boost::thread* new_thread =
                      m_data->m_group->create_thread(std::bind(&io_threadpool_scheduler::run_once,this->m_queue,
                                                                 m_private_queues[m_data->m_current_number_of_workers-1],
@@ -486,7 +486,7 @@ public:
                          std::shared_future<boost::thread*> self,
                          std::weak_ptr<this_type> this_,
                          std::function<void(boost::thread*)> on_done,
-                         std::function<bool()> check_continue,
+                         std::function<bool(bool)> check_continue,
                          size_t index,
                          std::string name,
                          std::vector<boost::asynchronous::any_callable> execute_in_all_threads_tasks)
@@ -507,13 +507,14 @@ public:
         {
             c();
         }
+        CPULoad cpu_load;
         // we run once then end
         do
         {
             try
             {
                 run_loop(queue,std::shared_ptr<boost::asynchronous::lockfree_queue<boost::asynchronous::any_callable> >(),
-                         waiting,diagnostics,nullptr,index);
+                         waiting,diagnostics,&cpu_load,index);
             }
             catch(boost::asynchronous::detail::shutdown_exception&)
             {
@@ -534,7 +535,7 @@ public:
                 // TODO, user-defined error
             }
         }
-        while (check_continue());
+        while (check_continue(waiting.empty()));
         on_done(t);
     }
 
@@ -559,10 +560,11 @@ private:
         }
         // checks if worker thread should continue
         // if queue not empty, continue
-        bool test_worker_loop()
+        // continuations waiting in the thread are also work to be done
+        bool test_worker_loop(bool no_continuation)
         {
            boost::mutex::scoped_lock lock(m_current_number_of_workers_mutex);
-           bool res = (this->calculate_queue_size() != 0);//(m_current_number_of_workers > m_min_number_of_workers);
+           bool res = !no_continuation || (this->calculate_queue_size() != 0);//(m_current_number_of_workers > m_min_number_of_workers);
            /*if (res)
            {
                --m_current_number_of_workers;
-- 
2.43.0


From 857a973c6fd58907daf26e09071e9bb120cc398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 40/91] fix: io_threadpool_scheduler: a leaving thread was
 still counted

---
 .../scheduler/io_threadpool_scheduler.hpp        | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index 7b9f564..6e2b23b 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -516,12 +516,6 @@ public:
                 run_loop(queue,std::shared_ptr<boost::asynchronous::lockfree_queue<boost::asynchronous::any_callable> >(),
                          waiting,diagnostics,&cpu_load,index);
             }
-            catch(boost::asynchronous::detail::shutdown_exception&)
-            {
-                on_done(t);
-                // we are done
-                break;
-            }
             catch(boost::thread_interrupted&)
             {
                 // task interrupted, no problem, just continue
@@ -564,12 +558,13 @@ private:
         bool test_worker_loop(bool no_continuation)
         {
            boost::mutex::scoped_lock lock(m_current_number_of_workers_mutex);
-           bool res = !no_continuation || (this->calculate_queue_size() != 0);//(m_current_number_of_workers > m_min_number_of_workers);
-           /*if (res)
+           bool res = (!no_continuation || (this->calculate_queue_size() != 0)) && !m_joining;
+           if (!res)
            {
+               // this thread will not take any job, a post can create another one
                --m_current_number_of_workers;
-           }*/
-           return res && !m_joining;
+           }
+           return res;
         }
 
         void thread_finished(boost::thread* finished_thread)
@@ -577,7 +572,6 @@ private:
             // update number of workers
             {
                 boost::mutex::scoped_lock lock(m_current_number_of_workers_mutex);
-                --m_current_number_of_workers;
                 m_thread_ids.erase(finished_thread->get_id());
             }
             // update set of finished threads
-- 
2.43.0


From fcf3127387636e8fec69c941fc112a4cea757141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 41/91] fix: io_threadpool_scheduler: exception of an
 execute_in_all_threads task in a new thread terminated the process

---
 boost/asynchronous/scheduler/io_threadpool_scheduler.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index 6e2b23b..8ccf225 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -505,7 +505,14 @@ public:
         // execute tasks which were given to us and have to be executed in all threads
         for (auto& c : execute_in_all_threads_tasks)
         {
-            c();
+            try
+            {
+                c();
+            }
+            catch(...)
+            {
+                // nobody waits for it, and this thread has to execute its jobs
+            }
         }
         CPULoad cpu_load;
         // we run once then end
-- 
2.43.0


From 87617aa799ef124d0460c71a8ec2e8700354291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 42/91] fix: io_threadpool_scheduler constructed with min>max

---
 boost/asynchronous/scheduler/io_threadpool_scheduler.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index 8ccf225..fc400c9 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -60,8 +60,8 @@ public:
         : boost::asynchronous::detail::single_queue_scheduler_policy<Q>(std::make_shared<queue_type>(std::move(args)...))
         , m_data (std::make_shared<internal_data>(min_number_of_workers,max_number_of_workers, this->m_queue))
     {
-        m_private_queues.reserve(max_number_of_workers);
-        for (size_t i = 0; i< max_number_of_workers;++i)
+        m_private_queues.reserve(m_data->m_max_number_of_workers);
+        for (size_t i = 0; i< m_data->m_max_number_of_workers;++i)
         {
             m_private_queues.push_back(
                         std::make_shared<boost::asynchronous::lockfree_queue<boost::asynchronous::any_callable> >());
@@ -73,8 +73,8 @@ public:
         , m_data (std::make_shared<internal_data>(min_number_of_workers,max_number_of_workers, this->m_queue))
         , m_name(name)
     {
-        m_private_queues.reserve(max_number_of_workers);
-        for (size_t i = 0; i< max_number_of_workers;++i)
+        m_private_queues.reserve(m_data->m_max_number_of_workers);
+        for (size_t i = 0; i< m_data->m_max_number_of_workers;++i)
         {
             m_private_queues.push_back(
                         std::make_shared<boost::asynchronous::lockfree_queue<boost::asynchronous::any_callable> >());
-- 
2.43.0


From 5acd5c3a1c1887ef24f1986ef0dd411ac26a4ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 43/91] fix: io_threadpool_scheduler: failure to create a
 thread

---
 .../scheduler/io_threadpool_scheduler.hpp        | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index fc400c9..d5a534b 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -180,13 +180,27 @@ public:
                         data->thread_finished(p);
                     };
             std::function<bool(bool)> c = [data](bool no_continuation)mutable{return data->test_worker_loop(no_continuation);};
-            boost::thread* new_thread =
+            boost::thread* new_thread = nullptr;
+            try
+            {
+                new_thread =
                      m_data->m_group->create_thread(std::bind(&io_threadpool_scheduler::run_once,this->m_queue,
                                                                 m_private_queues[m_data->m_current_number_of_workers-1],
                                                                 m_diagnostics,fu,m_data->m_weak_self,d,c,
                                                                 m_data->m_current_number_of_workers-1,
                                                                 m_name,
                                                                 m_data->m_execute_in_all_threads));
+            }
+            catch(...)
+            {
+                // this thread does not exist, a later post will try again
+                if (--m_data->m_current_number_of_workers == 0)
+                {
+                    throw;
+                }
+                // the job is already in the queue, another thread will execute it
+                return;
+            }
             m_data->m_thread_ids.insert(new_thread->get_id());
             new_thread_promise.set_value(new_thread);
         }
-- 
2.43.0


From d2bbd44d704ea9fb3d9fca28260df56b22eec300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 44/91] fix: asio_scheduler: jobs for all threads executed
 twice in one worker and never in another

---
 .../extensions/asio/asio_scheduler.hpp        | 59 ++++++++++++-------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/boost/asynchronous/extensions/asio/asio_scheduler.hpp b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
index 356f44c..f06f59e 100644
--- a/boost/asynchronous/extensions/asio/asio_scheduler.hpp
+++ b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
@@ -29,6 +29,7 @@
 #include <boost/asynchronous/exceptions.hpp>
 #include <boost/asynchronous/job_traits.hpp>
 #include <boost/asynchronous/queue/find_queue_position.hpp>
+#include <boost/asynchronous/queue/lockfree_queue.hpp>
 #include <boost/asynchronous/scheduler/detail/interruptible_job.hpp>
 #include <boost/asynchronous/extensions/asio/tss_asio.hpp>
 #include <boost/asynchronous/any_scheduler.hpp>
@@ -60,6 +61,7 @@ class asio_scheduler :
 public:
     typedef boost::asynchronous::any_callable job_type;
     typedef asio_scheduler<FindPosition,CPULoad> this_type;
+    typedef boost::asynchronous::lockfree_queue<boost::asynchronous::any_callable> private_queue_type;
     
     asio_scheduler(size_t number_of_workers=1,bool immediate=true,std::string const& name="")
         : m_next_shutdown_bucket(0)
@@ -88,6 +90,7 @@ public:
     {
         m_works.reserve(number_of_workers);
         m_ioservices.reserve(number_of_workers);
+        m_private_queues.reserve(number_of_workers);
         m_group.reset(new boost::thread_group);
         std::vector<std::shared_future<void> > all_threads_started;
         all_threads_started.reserve(number_of_workers);
@@ -97,6 +100,7 @@ public:
             std::shared_ptr<boost::asio::io_context> ioservice = std::make_shared<boost::asio::io_context>();
             m_ioservices.push_back(ioservice);
             m_works.push_back(boost::asio::make_work_guard(*ioservice));
+            m_private_queues.push_back(std::make_shared<private_queue_type>());
         }
         for (size_t i=0; i<number_of_workers; ++i)
         {
@@ -108,7 +112,7 @@ public:
             std::shared_future<boost::thread*> fu = new_thread_promise.get_future();
             std::shared_ptr<std::promise<void> > p(new std::promise<void>);
             boost::thread* new_thread =
-                    m_group->create_thread(std::bind(&asio_scheduler::run,m_ioservices[i],fu,p,other_ioservices,others,weak_self));
+                    m_group->create_thread(std::bind(&asio_scheduler::run,m_ioservices[i],m_private_queues[i],fu,p,other_ioservices,others,weak_self));
             all_threads_started.push_back(p->get_future());
             new_thread_promise.set_value(new_thread);
 
@@ -140,15 +144,11 @@ public:
     }
     void set_name(std::string const& name)
     {
-        for (size_t i = 1; i<= m_ioservices.size();++i)
+        for (size_t i = 0; i< m_private_queues.size();++i)
         {
             boost::asynchronous::detail::set_name_task<typename boost::asynchronous::job_traits<job_type>::diagnostic_type> ntask(name);
-#ifndef BOOST_NO_RVALUE_REFERENCES
-            job_type job(ntask);
-            this->post(std::move(job),i);
-#else
-            this->post(job_type(ntask),i);
-#endif
+            boost::asynchronous::any_callable job(std::move(ntask));
+            m_private_queues[i]->push(std::move(job),std::numeric_limits<std::size_t>::max());
         }
     }
     std::string get_name()const override
@@ -161,32 +161,30 @@ public:
     }
     void processor_bind(std::vector<std::tuple<unsigned int/*first core*/,unsigned int/*number of threads*/>> p) override
     {
-        // our thread (queue) index. 0 means "don't care" and is therefore not desirable)
-        size_t t = 1;
+        // our thread (queue) index
+        size_t t = 0;
         for(auto const& v : p)
         {
-            for (unsigned int i = 0; i< std::get<1>(v) && (t < m_ioservices.size()) ;++i)
+            for (unsigned int i = 0; i< std::get<1>(v) && (t < m_private_queues.size()) ;++i)
             {
                 boost::asynchronous::detail::processor_bind_task task(std::get<0>(v)+i);
-                job_type job(std::move(task));
-                this->post(std::move(job),t++);
+                boost::asynchronous::any_callable job(std::move(task));
+                m_private_queues[t++]->push(std::move(job),std::numeric_limits<std::size_t>::max());
             }
         }
     }
     BOOST_ATTRIBUTE_NODISCARD std::vector<std::future<void>> execute_in_all_threads(boost::asynchronous::any_callable c) override
     {
-        // our thread (queue) index. 0 means "don't care" and is therefore not desirable)
-        size_t t = 1;
         std::vector<std::future<void>> res;
-        res.reserve(m_number_of_workers);
-        for (size_t i = 0; i< m_number_of_workers;++i)
+        res.reserve(m_private_queues.size());
+        for (size_t i = 0; i< m_private_queues.size();++i)
         {
             std::promise<void> p;
             auto fu = p.get_future();
             res.emplace_back(std::move(fu));
             boost::asynchronous::detail::execute_in_all_threads_task task(c,std::move(p));
-            job_type job(std::move(task));
-            this->post(std::move(job),t++);
+            boost::asynchronous::any_callable job(std::move(task));
+            m_private_queues[i]->push(std::move(job),std::numeric_limits<std::size_t>::max());
         }
         return res;
     }
@@ -378,7 +376,8 @@ public:
     static boost::thread_specific_ptr<thread_ptr_wrapper> m_self_thread;
     
 private:
-    static void run(std::shared_ptr<boost::asio::io_context> ioservice,std::shared_future<boost::thread*> self,
+    static void run(std::shared_ptr<boost::asio::io_context> ioservice,std::shared_ptr<private_queue_type> private_queue,
+                    std::shared_future<boost::thread*> self,
                     std::shared_ptr<std::promise<void> > started,
                     std::vector<std::shared_ptr<boost::asio::io_context > > other_ioservices,
                     std::vector<boost::asynchronous::any_queue_ptr<job_type> > other_queues,
@@ -402,6 +401,12 @@ private:
             bool popped = false;
             try
             {
+                // jobs for this thread and no other (name, binding, execute_in_all_threads)
+                boost::asynchronous::any_callable private_job;
+                while (private_queue->try_pop(private_job))
+                {
+                    private_job();
+                }
                 popped = (ioservice->poll_one() != 0);
                 if (popped)
                 {
@@ -464,7 +469,18 @@ private:
             }
             catch(boost::asynchronous::detail::shutdown_exception&)
             {
-                // we are done
+                // we are done, except for the jobs which only this thread can execute
+                boost::asynchronous::any_callable private_job;
+                while (private_queue->try_pop(private_job))
+                {
+                    try
+                    {
+                        private_job();
+                    }
+                    catch(...)
+                    {
+                    }
+                }
                 delete m_self_thread.release();
                 return;
             }
@@ -489,6 +505,7 @@ private:
     size_t m_number_of_workers;
     std::vector<boost::asio::executor_work_guard<boost::asio::io_context::executor_type>> m_works;
     std::vector<std::shared_ptr<boost::asio::io_context > > m_ioservices;
+    std::vector<std::shared_ptr<private_queue_type>> m_private_queues;
     std::shared_ptr<boost::thread_group> m_group;
     std::vector<boost::thread::id> m_thread_ids;
     std::weak_ptr<this_type> m_weak_self;
-- 
2.43.0


From 9c00ca7075ece6d6f9ae30aeeef64b017e7ed303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 45/91] fix: exception of an execute_in_all_threads task became
 broken_promise

---
 .../scheduler/detail/execute_in_all_threads.hpp        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp b/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp
index 083a7ca..81fe077 100644
--- a/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp
+++ b/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp
@@ -25,7 +25,15 @@ struct execute_in_all_threads_task
     {}
     void operator()()
     {
-        to_call_();
+        try
+        {
+            to_call_();
+        }
+        catch(...)
+        {
+            done_promise_->set_exception(std::current_exception());
+            return;
+        }
         done_promise_->set_value();
     }
     boost::asynchronous::any_callable to_call_;
-- 
2.43.0


From 9ba2dc15220b38b781444253cc83af04c13b5c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 46/91] fix: immediate schedulers started a second set of
 workers in a composite

---
 boost/asynchronous/extensions/asio/asio_scheduler.hpp        | 5 +++--
 .../scheduler/stealing_multiqueue_threadpool_scheduler.hpp   | 4 +++-
 .../asynchronous/scheduler/stealing_threadpool_scheduler.hpp | 4 +++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/extensions/asio/asio_scheduler.hpp b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
index f06f59e..5b0e067 100644
--- a/boost/asynchronous/extensions/asio/asio_scheduler.hpp
+++ b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
@@ -212,8 +212,9 @@ public:
     }
     void set_steal_from_queues(std::vector<boost::asynchronous::any_queue_ptr<job_type> > const& others)
     {
-        // this scheduler steals if offered
-        init(m_number_of_workers,others,m_weak_self);
+        // this scheduler steals if offered, unless it already started without
+        if (!m_immediate)
+            init(m_number_of_workers,others,m_weak_self);
     }
 
 #ifndef BOOST_NO_RVALUE_REFERENCES    
diff --git a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
index 99d1b51..c10c565 100644
--- a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
@@ -172,7 +172,9 @@ public:
     }
     void set_steal_from_queues(std::vector<boost::asynchronous::any_queue_ptr<job_type> > const& others)
     {
-        init(m_number_of_workers,others,m_weak_self);
+        // already started if immediate
+        if (!IsImmediate)
+            init(m_number_of_workers,others,m_weak_self);
     }
 
     void set_name(std::string const& name)
diff --git a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
index 8499c1c..67cbdc7 100644
--- a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
@@ -87,7 +87,9 @@ public:
     }
     void set_steal_from_queues(std::vector<boost::asynchronous::any_queue_ptr<job_type> > const& others)
     {
-        init(m_number_of_workers,others,m_weak_self);
+        // already started if immediate
+        if (!IsImmediate)
+            init(m_number_of_workers,others,m_weak_self);
     }
 
     void init(size_t number_of_workers,std::vector<boost::asynchronous::any_queue_ptr<job_type> > const& others,std::weak_ptr<this_type> weak_self)
-- 
2.43.0


From 34ce322d7fbe8287b5209c0c4d2de3a7ab2d8080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 47/91] fix: raw job which failed not marked as failed

---
 boost/asynchronous/job_traits.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/job_traits.hpp b/boost/asynchronous/job_traits.hpp
index 9da066f..04bc5f4 100644
--- a/boost/asynchronous/job_traits.hpp
+++ b/boost/asynchronous/job_traits.hpp
@@ -141,7 +141,8 @@ namespace detail
         }
         virtual bool get_failed()const
         {
-            bool failed = m_callable.get_failed();
+            // the job itself can have thrown, or tell that what it wraps failed
+            bool failed = Base::get_failed() || m_callable.get_failed();
             return failed;
         }
         Fct m_callable;
@@ -224,7 +225,7 @@ namespace detail
         }
         virtual bool get_failed()const
         {
-            return m_callable.get_failed();
+            return Base::get_failed() || m_callable.get_failed();
         }
         template <class Archive>
         void save(Archive & ar, const unsigned int version)const
-- 
2.43.0


From 949481b5634e1f53a06389a88f4c443f76ccb822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 48/91] fix: interruptible job lost failed and interrupted
 marks

---
 .../asynchronous/scheduler/detail/interruptible_job.hpp  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/scheduler/detail/interruptible_job.hpp b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
index 56c8865..b1ccfba 100644
--- a/boost/asynchronous/scheduler/detail/interruptible_job.hpp
+++ b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
@@ -130,8 +130,13 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
             consume_interruption();
             throw;
         }
-        // ok we were not interrupted
-        this->set_interrupted(false);
+        // a job which handles its exceptions itself tells whether it failed, an interruption being one reason
+        bool failed = boost::asynchronous::job_traits<Job>::get_failed(m_job);
+        if (failed)
+        {
+            this->set_failed();
+        }
+        this->set_interrupted(failed && m_state->is_interrupted());
         m_state->complete();
         // remove state from tss
         boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
-- 
2.43.0


From 8e015862dd52351e7cb8736d561704e74953d1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 49/91] fix: interrupted job had no diagnostics and stayed
 listed as current

---
 boost/asynchronous/scheduler/io_threadpool_scheduler.hpp   | 7 +++++++
 boost/asynchronous/scheduler/multiple_thread_scheduler.hpp | 4 ++++
 .../scheduler/multiqueue_threadpool_scheduler.hpp          | 7 +++++++
 boost/asynchronous/scheduler/single_thread_scheduler.hpp   | 7 +++++++
 .../scheduler/stealing_multiqueue_threadpool_scheduler.hpp | 7 +++++++
 .../scheduler/stealing_threadpool_scheduler.hpp            | 7 +++++++
 boost/asynchronous/scheduler/threadpool_scheduler.hpp      | 7 +++++++
 7 files changed, 46 insertions(+)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index d5a534b..f29e5f2 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -405,6 +405,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
index a1e66c5..14cc2da 100644
--- a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
@@ -414,6 +414,10 @@ public:
             if (popped)
             {
                 (*queues)[taken_index].m_taken = false;
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
             }
         }
         catch(std::exception&)
diff --git a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
index 272bae5..6afd5fa 100755
--- a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
@@ -282,6 +282,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/single_thread_scheduler.hpp b/boost/asynchronous/scheduler/single_thread_scheduler.hpp
index 1d4d88c..450b3ef 100644
--- a/boost/asynchronous/scheduler/single_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/single_thread_scheduler.hpp
@@ -228,6 +228,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(0,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
index c10c565..a5bf42f 100644
--- a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
@@ -303,6 +303,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
index 67cbdc7..e8a8ea5 100644
--- a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
@@ -280,6 +280,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/threadpool_scheduler.hpp b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
index fc713e8..4757a2a 100644
--- a/boost/asynchronous/scheduler/threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
@@ -254,6 +254,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
-- 
2.43.0


From 75c59c7a50bef65b89182185b2e662cb90dd8683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 50/91] fix: composite diagnostics dropped same-named entries
 of other subpools

---
 .../scheduler/composite_threadpool_scheduler.hpp   | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
index be20957..b8d7208 100644
--- a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
@@ -174,19 +174,13 @@ public:
     {
         if (pos==0)
         {
-            std::map<std::string,
-                     std::list<typename boost::asynchronous::job_traits<job_type>::diagnostic_item_type > > res;
-
-            std::vector<std::pair<std::string,typename boost::asynchronous::job_traits<Job>::diagnostic_item_type>> res2;
+            boost::asynchronous::scheduler_diagnostics res;
             for (typename std::vector<subpool_type>::const_iterator it = m_subpools.begin(); it != m_subpools.end();++it)
             {
-                auto one_diag = (*it).get_diagnostics().totals();
-                res.insert(one_diag.begin(),one_diag.end());
-
-                auto one_diag2 = (*it).get_diagnostics().current();
-                res2.insert(res2.end(),one_diag2.begin(),one_diag2.end());
+                // different subpools can have jobs of the same name
+                res.merge((*it).get_diagnostics());
             }
-            return boost::asynchronous::scheduler_diagnostics(res,res2);
+            return res;
         }
         else
         {
-- 
2.43.0


From 194603fdfbca7afbb91d243fb7b05ead67c55621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 51/91] fix: io_threadpool_scheduler: threads sharing a
 diagnostics index

---
 .../scheduler/io_threadpool_scheduler.hpp     | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index f29e5f2..9aacd35 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -179,21 +179,25 @@ public:
                         // make this thread an old thread
                         data->thread_finished(p);
                     };
-            std::function<bool(bool)> c = [data](bool no_continuation)mutable{return data->test_worker_loop(no_continuation);};
+            // no two living threads have the same index
+            std::size_t index = *m_data->m_free_indexes.begin();
+            m_data->m_free_indexes.erase(index);
+            std::function<bool(bool)> c = [data,index](bool no_continuation)mutable{return data->test_worker_loop(no_continuation,index);};
             boost::thread* new_thread = nullptr;
             try
             {
                 new_thread =
                      m_data->m_group->create_thread(std::bind(&io_threadpool_scheduler::run_once,this->m_queue,
-                                                                m_private_queues[m_data->m_current_number_of_workers-1],
+                                                                m_private_queues[index],
                                                                 m_diagnostics,fu,m_data->m_weak_self,d,c,
-                                                                m_data->m_current_number_of_workers-1,
+                                                                index,
                                                                 m_name,
                                                                 m_data->m_execute_in_all_threads));
             }
             catch(...)
             {
                 // this thread does not exist, a later post will try again
+                m_data->m_free_indexes.insert(index);
                 if (--m_data->m_current_number_of_workers == 0)
                 {
                     throw;
@@ -572,7 +576,12 @@ private:
         , m_weak_self()
         , m_group(std::make_shared<boost::thread_group>())
         , m_queue(queue)
-        {}
+        {
+            for (size_t i = m_min_number_of_workers; i< m_max_number_of_workers;++i)
+            {
+                m_free_indexes.insert(i);
+            }
+        }
 
         // check queue size. Used to find out when temporary threads have to shutdown
         std::size_t calculate_queue_size()const
@@ -583,7 +592,7 @@ private:
         // checks if worker thread should continue
         // if queue not empty, continue
         // continuations waiting in the thread are also work to be done
-        bool test_worker_loop(bool no_continuation)
+        bool test_worker_loop(bool no_continuation, std::size_t index)
         {
            boost::mutex::scoped_lock lock(m_current_number_of_workers_mutex);
            bool res = (!no_continuation || (this->calculate_queue_size() != 0)) && !m_joining;
@@ -591,6 +600,7 @@ private:
            {
                // this thread will not take any job, a post can create another one
                --m_current_number_of_workers;
+               m_free_indexes.insert(index);
            }
            return res;
         }
@@ -648,6 +658,8 @@ private:
         size_t m_min_number_of_workers;
         size_t m_max_number_of_workers;
         size_t m_current_number_of_workers;
+        // indexes not used by any thread (the basic threads have the first ones)
+        std::set<std::size_t> m_free_indexes;
         std::set<boost::thread*> m_done_threads;
         std::weak_ptr<this_type> m_weak_self;
         std::shared_ptr<boost::thread_group> m_group;
-- 
2.43.0


From 45676362f147d4474a6a02cced268c56f210dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:47 +0000
Subject: [PATCH 52/91] fix: a subscription made while handling an event
 received this event

---
 boost/asynchronous/notification/local_subscription.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/notification/local_subscription.hpp b/boost/asynchronous/notification/local_subscription.hpp
index 7c628d6..0595999 100644
--- a/boost/asynchronous/notification/local_subscription.hpp
+++ b/boost/asynchronous/notification/local_subscription.hpp
@@ -180,7 +180,9 @@ struct local_subscription
     {
         ++m_publish_counter;
         bool someone_handled = false;
-        for (auto it = m_internal_subscribers.begin(); it != m_internal_subscribers.end();++it)
+        // tokens are increasing: a subscription made by a subscriber handling this event does not get this event
+        const auto last_token = m_internal_subscribers.empty() ? std::int64_t(-1) : m_internal_subscribers.rbegin()->first;
+        for (auto it = m_internal_subscribers.begin(); it != m_internal_subscribers.end() && (*it).first <= last_token;++it)
         {
             if (std::get<subscriber_t>((*it).second) && !std::get<bool>((*it).second) && std::get<Topic>((*it).second).matches(other_topic))
             {
-- 
2.43.0


From 6db362379d38b47890f00e7a60be83f00664f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:47 +0000
Subject: [PATCH 53/91] fix: event delivered once per matching topic of a
 scheduler instead of once

---
 boost/asynchronous/notification/local_subscription.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/notification/local_subscription.hpp b/boost/asynchronous/notification/local_subscription.hpp
index 0595999..cba00d2 100644
--- a/boost/asynchronous/notification/local_subscription.hpp
+++ b/boost/asynchronous/notification/local_subscription.hpp
@@ -11,6 +11,7 @@
 #define BOOST_ASYNCHRONOUS_NOTIFICATION_LOCAL_SUBSCRIPTION_HPP
 
 #include <vector>
+#include <algorithm>
 #include <functional>
 #include <optional>
 #include <future>
@@ -163,10 +164,14 @@ struct local_subscription
         // inform first other schedulers
         // to avoid event order inversion in case processing an event would send another event
         // external schedulers execute publishing asynchronously and therefore are not counted as handling the event
+        // a scheduler with several matching topics is informed only once, it will distribute to all its subscribers
+        std::vector<boost::uuids::uuid> informed_schedulers;
         for (auto& sched_sub : m_scheduler_subscribers)
         {
-            if (std::get<Topic>(sched_sub).matches(other_topic))
+            if (std::get<Topic>(sched_sub).matches(other_topic)
+                && std::find(informed_schedulers.begin(), informed_schedulers.end(), std::get<boost::uuids::uuid>(sched_sub)) == informed_schedulers.end())
             {
+                informed_schedulers.push_back(std::get<boost::uuids::uuid>(sched_sub));
                 std::get<subscriber_t>(sched_sub)(e, other_topic);
             }
         }
-- 
2.43.0


From aa25c37e82fbf4d6cc55f3fa310ef8a700c2d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:47 +0000
Subject: [PATCH 54/91] fix: a throwing subscriber prevented other subscribers
 from getting the event

---
 .../notification/local_subscription.hpp        | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/notification/local_subscription.hpp b/boost/asynchronous/notification/local_subscription.hpp
index cba00d2..112a5bf 100644
--- a/boost/asynchronous/notification/local_subscription.hpp
+++ b/boost/asynchronous/notification/local_subscription.hpp
@@ -16,6 +16,7 @@
 #include <optional>
 #include <future>
 #include <cstdint>
+#include <exception>
 #include <iostream>
 
 #include <boost/uuid/uuid.hpp>
@@ -185,6 +186,7 @@ struct local_subscription
     {
         ++m_publish_counter;
         bool someone_handled = false;
+        std::exception_ptr error;
         // tokens are increasing: a subscription made by a subscriber handling this event does not get this event
         const auto last_token = m_internal_subscribers.empty() ? std::int64_t(-1) : m_internal_subscribers.rbegin()->first;
         for (auto it = m_internal_subscribers.begin(); it != m_internal_subscribers.end() && (*it).first <= last_token;++it)
@@ -192,13 +194,18 @@ struct local_subscription
             if (std::get<subscriber_t>((*it).second) && !std::get<bool>((*it).second) && std::get<Topic>((*it).second).matches(other_topic))
             {
                 std::optional<bool> handled;
-                if constexpr (std::is_same_v<Topic, boost::asynchronous::subscription::no_topic>)
+                try
                 {
                     handled = (std::get<subscriber_t>((*it).second))(e, other_topic);
                 }
-                else
+                catch(...)
                 {
-                    handled = (std::get<subscriber_t>((*it).second))(e, other_topic);
+                    // inform the other subscribers first. The subscriber stays subscribed
+                    if (!error)
+                    {
+                        error = std::current_exception();
+                    }
+                    handled = true;
                 }
                 if (handled.has_value() && handled.value())
                 {
@@ -216,7 +223,10 @@ struct local_subscription
             // now we can safely cleanup
             cleanup_subscriber();
         }
-
+        if (error)
+        {
+            std::rethrow_exception(error);
+        }
 
         return someone_handled;
     }
-- 
2.43.0


From 0ee7bea5a57ab2b236964e8ca6ca7f82a1997c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:47 +0000
Subject: [PATCH 55/91] fix: no more events from other schedulers after the
 last subscribing servant died

---
 boost/asynchronous/trackable_servant.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/trackable_servant.hpp b/boost/asynchronous/trackable_servant.hpp
index 60f80a5..550fcd7 100644
--- a/boost/asynchronous/trackable_servant.hpp
+++ b/boost/asynchronous/trackable_servant.hpp
@@ -602,7 +602,7 @@ public:
 
             // publishing to other schedulers will mean calling this function, 
             // which will post_future to our scheduler
-            auto wrapped = [tracking, uid, weak, task_name, prio]
+            auto wrapped = [uid, weak, task_name, prio]
             (Event const& ev, Topic const& published_topic)
                 {
                     auto sched = weak.lock();
@@ -610,14 +610,16 @@ public:
                     {
                         // not in our thread, post
                         boost::asynchronous::post_future(sched,
-                            boost::asynchronous::move_bind(boost::asynchronous::check_alive([weak](Event const& ev, Topic const& published_topic)
+                            // this is for all subscribers of our scheduler, not only for this servant.
+                            // every subscriber functor checks if its own servant is still alive
+                            boost::asynchronous::move_bind([weak](Event const& ev, Topic const& published_topic)
                                 {
                                     auto sched = weak.lock();
                                     if (sched.is_valid())
                                     {
                                         sched.publish_internal(ev, published_topic);
                                     }
-                                }, tracking), ev, published_topic),
+                                }, ev, published_topic),
                             task_name, prio);
                     }
                     else
-- 
2.43.0


From 67c1fa6fe4937fc6475ede68c46c4883ccda81ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:47 +0000
Subject: [PATCH 56/91] fix: subscription lost if made after the unsubscription
 of the same topic

---
 boost/asynchronous/notification/local_subscription.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/boost/asynchronous/notification/local_subscription.hpp b/boost/asynchronous/notification/local_subscription.hpp
index 112a5bf..cb731ab 100644
--- a/boost/asynchronous/notification/local_subscription.hpp
+++ b/boost/asynchronous/notification/local_subscription.hpp
@@ -74,6 +74,15 @@ struct local_subscription
     template <class Sub>
     void subscribe_scheduler(Sub&& sub, boost::uuids::uuid scheduler_id, Topic const& topic)
     {
+        // a removal of this entry still waiting for cleanup is no more wanted
+        m_deleted_scheduler_subscribers.erase(
+            std::remove_if(m_deleted_scheduler_subscribers.begin(), m_deleted_scheduler_subscribers.end(),
+                [&](const auto& d)
+                {
+                    return (scheduler_id == std::get<boost::uuids::uuid>(d))
+                        && std::get<std::optional<Topic>>(d) && (std::get<std::optional<Topic>>(d).value() == topic);
+                }),
+            m_deleted_scheduler_subscribers.end());
         // do not register double entries
         auto it = std::find_if(m_scheduler_subscribers.begin(), m_scheduler_subscribers.end(),
             [&](const auto& s)
-- 
2.43.0


From 67b1c2ab548b675686f9f6afe3c090da4339694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:47 +0000
Subject: [PATCH 57/91] fix: scheduler registered to several event buses
 informed only the last one

---
 .../notification/local_subscription.hpp            | 14 ++++++++++++++
 .../notification/notification_proxy.hpp            |  7 ++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/notification/local_subscription.hpp b/boost/asynchronous/notification/local_subscription.hpp
index cb731ab..b32765b 100644
--- a/boost/asynchronous/notification/local_subscription.hpp
+++ b/boost/asynchronous/notification/local_subscription.hpp
@@ -11,6 +11,7 @@
 #define BOOST_ASYNCHRONOUS_NOTIFICATION_LOCAL_SUBSCRIPTION_HPP
 
 #include <vector>
+#include <map>
 #include <algorithm>
 #include <functional>
 #include <optional>
@@ -262,6 +263,19 @@ inline std::vector<std::function<void(std::function<void()>)>>& get_other_schedu
     return others;
 }
 
+// a scheduler can be registered to several event buses, each knows other schedulers
+inline void set_other_schedulers_(void const* bus, std::vector<std::function<void(std::function<void()>)>> others)
+{
+    static thread_local std::map<void const*, std::vector<std::function<void(std::function<void()>)>>> buses;
+    buses[bus] = std::move(others);
+    auto& all = boost::asynchronous::subscription::get_other_schedulers_();
+    all.clear();
+    for (auto const& b : buses)
+    {
+        all.insert(all.end(), b.second.begin(), b.second.end());
+    }
+}
+
 template <class Sub, class Internal, class Topic>
 void subscribe(Sub&& sub, Internal&& internal, boost::uuids::uuid scheduler_id, std::uint64_t token, Topic const& topic)
 {
diff --git a/boost/asynchronous/notification/notification_proxy.hpp b/boost/asynchronous/notification/notification_proxy.hpp
index bf55d78..c44e8de 100644
--- a/boost/asynchronous/notification/notification_proxy.hpp
+++ b/boost/asynchronous/notification/notification_proxy.hpp
@@ -12,6 +12,7 @@
 
 #include <vector>
 #include <algorithm>
+#include <memory>
 
 #include <boost/asynchronous/scheduler_shared_proxy.hpp>
 #include <boost/asynchronous/servant_proxy.hpp>
@@ -130,15 +131,15 @@ namespace boost { namespace asynchronous { namespace subscription
             };
 
         std::function<void(std::vector< std::function<void(std::function<void()>)>>)> notify_me_for_new_schedulers =
-            [wsched](std::vector< std::function<void(std::function<void()>)>> others)
+            [wsched, bus = static_cast<void const*>(std::addressof(*notification_ptr))](std::vector< std::function<void(std::function<void()>)>> others)
             {
                 auto sched = wsched.lock();
                 if (sched.is_valid())
                 {
                     auto fus = sched.execute_in_all_threads(
-                        [others]()
+                        [others, bus]()
                         {
-                            boost::asynchronous::subscription::get_other_schedulers_() = others;
+                            boost::asynchronous::subscription::set_other_schedulers_(bus, others);
                             // if we have waiting subscribes, call them
                             for (auto const& w : boost::asynchronous::subscription::get_waiting_subscribes())
                             {
-- 
2.43.0


From 19b9306175b3eee3620b697284c5f97e1caf9b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:36 +0000
Subject: [PATCH 58/91] fix: future of an interrupted continuation never ready
 if interrupted while posting its subtasks

---
 boost/asynchronous/scheduler/detail/interrupt_state.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/detail/interrupt_state.hpp b/boost/asynchronous/scheduler/detail/interrupt_state.hpp
index 0fc1780..96aca3e 100644
--- a/boost/asynchronous/scheduler/detail/interrupt_state.hpp
+++ b/boost/asynchronous/scheduler/detail/interrupt_state.hpp
@@ -72,7 +72,11 @@ struct interrupt_state
     void complete()
     {
         boost::mutex::scoped_lock lock(m_mutex);
-        m_state = 1;
+        // an interruption requested while running concerns the subtasks and those waiting for them
+        if (!is_interrupted_int())
+        {
+            m_state = 1;
+        }
     }
     void set_interrupted()
     {
-- 
2.43.0


From 23bb3697477aff652ec70706f6685d029688ade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:21 +0000
Subject: [PATCH 59/91] fix: vector: rend, crend and const rbegin did not
 compile

---
 boost/asynchronous/container/vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 52f6a87..ebeb019 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -598,7 +598,7 @@ public:
     {
         if (!!m_data)
             return const_reverse_iterator(end());
-        return nullptr;
+        return const_reverse_iterator(nullptr);
     }
     const_reverse_iterator crbegin() const
     {
@@ -610,19 +610,19 @@ public:
     {
         if (!!m_data)
             return reverse_iterator(begin());
-        return nullptr;
+        return reverse_iterator(nullptr);
     }
     const_reverse_iterator rend() const
     {
         if (!!m_data)
             return const_reverse_iterator(begin());
-        return nullptr;
+        return const_reverse_iterator(nullptr);
     }
     const_reverse_iterator crend() const
     {
         if (!!m_data)
             return const_reverse_iterator(cbegin());
-        return nullptr;
+        return const_reverse_iterator(nullptr);
     }
 
     reference operator[] (size_type n)
-- 
2.43.0


From 5c91856659b96ffb49b5350a86b78714933aec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 60/91] fix: vector: memory freed with the allocator of a
 destroyed or moved vector

---
 boost/asynchronous/container/vector.hpp | 33 ++++++++++++++-----------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index ebeb019..9229412 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -107,8 +107,7 @@ public:
     , m_capacity(default_capacity)
     , m_allocator(alloc)
     {
-        std::shared_ptr<T> raw (m_allocator.allocate(default_capacity),
-                                  [this](T* p){this->m_allocator.deallocate(p,default_capacity);});
+        std::shared_ptr<T> raw (allocate_memory(default_capacity));
 
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(0,raw,m_cutoff,m_task_name,m_prio);
     }
@@ -124,7 +123,7 @@ public:
         , m_capacity(n)
         , m_allocator(alloc)
     {
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        std::shared_ptr<T> raw (allocate_memory(n));
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,m_cutoff,m_task_name,m_prio);
         boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,n,(char*)raw.get(),value);
     }
@@ -139,7 +138,7 @@ public:
         auto n = std::distance(first,last);
         m_size=n;
         m_capacity=n;
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        std::shared_ptr<T> raw (allocate_memory(n));
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,m_cutoff,m_task_name,m_prio);
         boost::asynchronous::detail::serial_placement_it<T,std::size_t,InputIt>((std::size_t)0,n,(char*)raw.get(),first);
     }
@@ -154,7 +153,7 @@ public:
         auto first = init.begin();
         m_size=n;
         m_capacity=n;
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        std::shared_ptr<T> raw (allocate_memory(n));
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,m_cutoff,m_task_name,m_prio);
         boost::asynchronous::detail::serial_placement_it<T,std::size_t,decltype(first)>((std::size_t)0,n,(char*)raw.get(),first);
     }
@@ -189,7 +188,7 @@ public:
         , m_capacity(n)
         , m_allocator(alloc)
     {
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        std::shared_ptr<T> raw (allocate_memory(n));
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
@@ -221,8 +220,7 @@ public:
         , m_capacity(default_capacity)
         , m_allocator(alloc)
     {
-        std::shared_ptr<T> raw (m_allocator.allocate(default_capacity),
-                                  [this](T* p){this->m_allocator.deallocate(p,default_capacity);});
+        std::shared_ptr<T> raw (allocate_memory(default_capacity));
 
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(0,raw,cutoff,task_name,prio);
     }
@@ -242,7 +240,7 @@ public:
         , m_capacity(n)
         , m_allocator(alloc)
     {
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        std::shared_ptr<T> raw (allocate_memory(n));
 
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,cutoff,task_name,prio);
         if (m_scheduler.is_valid())
@@ -278,7 +276,7 @@ public:
         auto n = std::distance(first,last);
         m_size=n;
         m_capacity=n;
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        std::shared_ptr<T> raw (allocate_memory(n));
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
@@ -321,7 +319,7 @@ public:
         auto n = other.size();
         m_size=n;
         m_capacity=n;
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        std::shared_ptr<T> raw (allocate_memory(n));
         auto cutoff = m_cutoff;
         auto task_name = m_task_name;
         auto prio = m_prio;
@@ -381,7 +379,7 @@ public:
         auto first = init.begin();
         m_size=n;
         m_capacity=n;
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        std::shared_ptr<T> raw (allocate_memory(n));
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
@@ -1915,9 +1913,16 @@ public:
 
 private:
 
+    // the memory can be moved to, or outlive, another vector => it has to keep its own copy of the allocator
+    std::shared_ptr<T> allocate_memory(size_type n)
+    {
+        Alloc alloc(m_allocator);
+        return std::shared_ptr<T>(alloc.allocate(n),[alloc,n](T* p)mutable{alloc.deallocate(p,n);});
+    }
+
     std::size_t reallocate_helper(size_type new_memory)
     {
-        std::shared_ptr<T> raw (m_allocator.allocate(new_memory),[this,new_memory](T* p){this->m_allocator.deallocate(p,new_memory);});
+        std::shared_ptr<T> raw (allocate_memory(new_memory));
 
         // create our current number of objects with placement new
         auto n = m_size;
@@ -2028,7 +2033,7 @@ private:
                 auto prio = m_prio;
                 auto beg = m_begin; auto end =m_end;
 
-                std::shared_ptr<T> raw (m_allocator.allocate(new_memory),[this,new_memory,alloc](T* p)mutable{alloc.deallocate(p,new_memory);});
+                std::shared_ptr<T> raw (m_allocator.allocate(new_memory),[new_memory,alloc](T* p)mutable{alloc.deallocate(p,new_memory);});
 
                 auto cont_p = boost::asynchronous::parallel_placement<T,Job>
                         (0,m_size,(char*)raw.get(),T(),m_cutoff,this->get_name()+"vector_reallocate_placement",m_prio);
-- 
2.43.0


From fe6c26225795baac252650458f5cc16d1ba6dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 61/91] fix: vector: capacity not updated by insert and emplace

---
 boost/asynchronous/container/vector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 9229412..92d67d2 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -1052,7 +1052,7 @@ public:
         if (size()+1 > capacity())
         {
             auto new_capacity = calc_new_capacity(size()+1);
-            reallocate_helper(new_capacity);
+            m_capacity = reallocate_helper(new_capacity);
         }
         iterator pos = begin() + distance_begin_pos;
         // we need move twice data after pos as parallel_move does not support overlapping ranges
@@ -1197,7 +1197,7 @@ public:
         if (size()+(last-first) > capacity())
         {
             auto new_capacity = calc_new_capacity(size()+(last-first));
-            reallocate_helper(new_capacity);
+            m_capacity = reallocate_helper(new_capacity);
         }
         iterator pos = begin() + distance_begin_pos;
         // we need move twice data after pos as parallel_move does not support overlapping ranges
@@ -1365,7 +1365,7 @@ public:
         if (size()+1 > capacity())
         {
             auto new_capacity = calc_new_capacity(size()+1);
-            reallocate_helper(new_capacity);
+            m_capacity = reallocate_helper(new_capacity);
         }
         iterator pos = begin() + distance_begin_pos;
         // we need move twice data after pos as parallel_move does not support overlapping ranges
@@ -1502,7 +1502,7 @@ public:
         if (size()+1 > capacity())
         {
             auto new_capacity = calc_new_capacity(size()+1);
-            reallocate_helper(new_capacity);
+            m_capacity = reallocate_helper(new_capacity);
         }
         iterator pos = begin() + distance_begin_pos;
         // we need move twice data after pos as parallel_move does not support overlapping ranges
@@ -1672,7 +1672,7 @@ public:
         if (size()+count > capacity())
         {
             auto new_capacity = calc_new_capacity(size()+count);
-            reallocate_helper(new_capacity);
+            m_capacity = reallocate_helper(new_capacity);
         }
         iterator pos = begin() + distance_begin_pos;
         // we need move twice data after pos as parallel_move does not support overlapping ranges
-- 
2.43.0


From a4d2c3abd1ca3cced17cdfab3e93805981916ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:40 +0000
Subject: [PATCH 62/91] fix: vector: pop_back destroyed the first element
 instead of the last

---
 boost/asynchronous/container/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 92d67d2..5633136 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -787,7 +787,7 @@ public:
     }
     void pop_back()
     {
-        ((T*)(begin()))->~T();
+        (end()-1)->~T();
         --m_size;
         --m_data->size_;
     }
-- 
2.43.0


From 35d281f5b2eae1d2dc2e8d261976c1c6a7b95cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:38 +0000
Subject: [PATCH 63/91] fix: vector: dangling reference when adding an element
 of the vector itself

---
 boost/asynchronous/container/vector.hpp | 35 +++++++++++++++++--------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 5633136..5aa4692 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -744,10 +744,12 @@ public:
         else
         {
             // reallocate memory
+            // value can be one of our elements, which will be moved
+            T new_value(value);
             auto new_memory = reallocate_helper(calc_new_capacity(size()));
             // add new element, update size and capacity
             m_capacity = new_memory;
-            push_back(value);
+            push_back(std::move(new_value));
         }
     }
     void push_back( T&& value )
@@ -761,10 +763,12 @@ public:
         else
         {
             // reallocate memory
+            // value can be one of our elements, which will be moved
+            T new_value(std::forward<T>(value));
             auto new_memory = reallocate_helper(calc_new_capacity(size()));
             // add new element, update size and capacity
             m_capacity = new_memory;
-            push_back(std::forward<T>(value));
+            push_back(std::move(new_value));
         }
     }
     template< class... Args >
@@ -772,17 +776,19 @@ public:
     {
         if (m_size + 1 <= m_capacity )
         {
-            new (end()) T(std::forward<Args...>(args...));
+            new (end()) T(std::forward<Args>(args)...);
             ++m_size;
             ++m_data->size_;
         }
         else
         {
             // reallocate memory
+            // the arguments can refer to our elements, which will be moved
+            T new_value(std::forward<Args>(args)...);
             auto new_memory = reallocate_helper(calc_new_capacity(size()));
             // add new element, update size and capacity
             m_capacity = new_memory;
-            push_back(std::forward<Args...>(args...));
+            push_back(std::move(new_value));
         }
     }
     void pop_back()
@@ -1047,6 +1053,8 @@ public:
     template< class... Args >
     iterator emplace( const_iterator orgpos,  Args&&... args)
     {
+        // the arguments can refer to our elements, which will be moved
+        T value(std::forward<Args>(args)...);
         auto distance_begin_pos = orgpos-cbegin();
         // check if we need to reallocate
         if (size()+1 > capacity())
@@ -1119,9 +1127,8 @@ public:
         auto where = ((iterator)m_data->data())+ size();
         boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)to_add,(char*)where,T());
 
-        // add input using placement new
-        ((T*) pos)->~T();
-        new ((T*) pos) T(std::forward<Args...>(args...));
+        // move input
+        *pos = std::move(value);
 
         // move back from temporary
         auto temp_end = temp_begin + n;
@@ -1358,8 +1365,10 @@ public:
 
         return begin() + distance_begin_pos;
     }
-    iterator insert( const_iterator orgpos, const T& value )
+    iterator insert( const_iterator orgpos, const T& org_value )
     {
+        // the value can be one of our elements, which will be moved
+        T value(org_value);
         auto distance_begin_pos = orgpos-cbegin();
         // check if we need to reallocate
         if (size()+1 > capacity())
@@ -1495,8 +1504,10 @@ public:
 
         return begin() + distance_begin_pos;
     }
-    iterator insert( const_iterator orgpos, T&& value )
+    iterator insert( const_iterator orgpos, T&& org_value )
     {
+        // the value can be one of our elements, which will be moved
+        T value(std::forward<T>(org_value));
         auto distance_begin_pos = orgpos-cbegin();
         // check if we need to reallocate
         if (size()+1 > capacity())
@@ -1587,7 +1598,7 @@ public:
         }
 
         // copy input
-        T a[1] = {std::forward<T>(value)};
+        T a[1] = {std::move(value)};
         if (m_scheduler.is_valid())
         {
             auto fu4 = boost::asynchronous::post_future(m_scheduler,
@@ -1665,8 +1676,10 @@ public:
         return begin() + distance_begin_pos;
     }
 
-    iterator insert( const_iterator orgpos, size_type count, const T& value )
+    iterator insert( const_iterator orgpos, size_type count, const T& org_value )
     {
+        // the value can be one of our elements, which will be moved
+        T value(org_value);
         auto distance_begin_pos = orgpos-cbegin();
         // check if we need to reallocate
         if (size()+count > capacity())
-- 
2.43.0


From 9d9934dff6a1d7f37a01a27279f31396ff412079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:38 +0000
Subject: [PATCH 64/91] fix: vector: cleared or moved from vector kept its
 capacity without memory, the next insertion crashed

---
 boost/asynchronous/container/vector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 5aa4692..17ead69 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -307,6 +307,8 @@ public:
     {
         other.m_data.reset();
         other.m_size = 0;
+        // no memory any more
+        other.m_capacity = 0;
     }
     vector( vector const& other )
         : m_scheduler(other.m_scheduler)
@@ -667,11 +669,11 @@ public:
     }
     pointer data()
     {
-        return (pointer) (m_data->data());
+        return (pointer) begin();
     }
     const_pointer data() const
     {
-        return (const_pointer) (m_data->data());
+        return (const_pointer) begin();
     }
 
     size_type capacity() const
@@ -724,6 +726,8 @@ public:
             }
             catch(std::exception&)
             {}
+            // our memory is gone with our elements
+            m_capacity=0;
         }
         else if(!!m_data)
         {
-- 
2.43.0


From ae85285a1b9e45d252b246295a3ba1f6e6214d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:38 +0000
Subject: [PATCH 65/91] fix: vector: erase returned end instead of the element
 following the erased ones

---
 boost/asynchronous/container/vector.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 17ead69..a71d4cb 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -893,10 +893,11 @@ public:
         auto task_name = m_task_name;
         auto prio = m_prio;
         auto cur_end = end();
+        auto distance_begin_first = first - cbegin();
         if (last == end())
         {
             // nothing to move, just resize
-            resize(first - cbegin());
+            resize(distance_begin_first);
             return end();
         }
         else if((last - first) >= cend() - last )
@@ -932,7 +933,7 @@ public:
             }
             // set to new size
             resize(size()-(last - first));
-            return end();
+            return begin() + distance_begin_first;
         }
         else
         {
@@ -1047,7 +1048,7 @@ public:
             }
             // remove our excess elements
             resize(size()-(last - first));
-            return end();
+            return begin() + distance_begin_first;
         }
     }
     iterator erase( const_iterator pos)
-- 
2.43.0


From 9aefe6e659309ecc23ef2e46c2290b4c9890253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:38 +0000
Subject: [PATCH 66/91] fix: async_resize never completed if the capacity of
 the vector was sufficient

---
 boost/asynchronous/container/algorithms.hpp | 30 +++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/boost/asynchronous/container/algorithms.hpp b/boost/asynchronous/container/algorithms.hpp
index 4e3f5bb..cc86a78 100644
--- a/boost/asynchronous/container/algorithms.hpp
+++ b/boost/asynchronous/container/algorithms.hpp
@@ -194,6 +194,36 @@ struct resize_task: public boost::asynchronous::continuation_task<Container>
                         }
                     });
                 }
+                else
+                {
+                    // enough memory, only add elements
+                    auto v = m_value;
+                    auto data = c->get_internal_data();
+                    auto cont = boost::asynchronous::parallel_placement<value_type,Job>
+                            (c->size(),v,(char*)data->data(),value_type(),c->get_cutoff(),c->get_name()+"_vector_resize_placement",c->get_prio());
+                    cont.on_done([task_res,c,data,v]
+                                 (std::tuple<boost::asynchronous::expected<boost::asynchronous::detail::parallel_placement_helper_result> >&& res)mutable
+                    {
+                        try
+                        {
+                            auto placement_result = std::get<0>(res).get();
+                            if (placement_result.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
+                            {
+                                task_res.set_exception(placement_result.second);
+                            }
+                            else
+                            {
+                                data->size_ = v;
+                                c->set_internal_data(data,c->capacity());
+                                task_res.set_value(std::move(*c));
+                            }
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
+                    });
+                }
             }
             else
             {
-- 
2.43.0


From 4d25aa4cadc223bab4bb83fcb895b72089988df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:38 +0000
Subject: [PATCH 67/91] fix: async_merge_containers wrote behind the end of the
 merged vector

---
 boost/asynchronous/container/algorithms.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/container/algorithms.hpp b/boost/asynchronous/container/algorithms.hpp
index cc86a78..1d9a89d 100644
--- a/boost/asynchronous/container/algorithms.hpp
+++ b/boost/asynchronous/container/algorithms.hpp
@@ -707,7 +707,7 @@ struct async_merge_task: public boost::asynchronous::continuation_task<Container
             auto name = this->get_name();
 
             auto cont = boost::asynchronous::async_resize(std::move(m_container1),s1+s2);
-            cont.on_done([task_res,name,c2]
+            cont.on_done([task_res,name,c2,s1]
                            (std::tuple<boost::asynchronous::expected<Container> >&& res)mutable
             {
                 try
@@ -715,7 +715,7 @@ struct async_merge_task: public boost::asynchronous::continuation_task<Container
                     std::shared_ptr<Container> c1 = std::make_shared<Container>(std::move(std::get<0>(res).get()));
                     using iterator = typename Container::iterator;
                     auto cont_move = boost::asynchronous::parallel_move_if_noexcept<iterator,iterator,Job>
-                                                (c2->begin(),c2->end(),c1->end(),c2->get_cutoff(),
+                                                (c2->begin(),c2->end(),c1->begin()+s1,c2->get_cutoff(),
                                                  name+"_parallel_move_if_noexcept",c2->get_prio());
                     cont_move.on_done([task_res,c1,c2]
                                    (std::tuple<boost::asynchronous::expected<void> >&& res_move)mutable
@@ -788,10 +788,11 @@ struct async_merge_container_of_containers_task: public boost::asynchronous::con
                 s += c.size();
             }
             auto name = this->get_name();
+            auto s0 = m_container[0].size();
             auto cont = boost::asynchronous::async_resize(std::move(m_container[0]),s);
             std::shared_ptr<Container> c = std::make_shared<Container>(std::move(m_container));
 
-            cont.on_done([task_res,name,c]
+            cont.on_done([task_res,name,c,s0]
                            (std::tuple<boost::asynchronous::expected<typename Container::value_type> >&& res)mutable
             {
                 try
@@ -800,11 +801,14 @@ struct async_merge_container_of_containers_task: public boost::asynchronous::con
                             std::make_shared<typename Container::value_type>(std::move(std::get<0>(res).get()));
                     using iterator = typename Container::value_type::iterator;
                     std::vector<boost::asynchronous::detail::callback_continuation<void>> subs;
+                    // every container goes behind the previous ones
+                    auto where = c1->begin()+s0;
                     for (auto it = c->begin()+1; it != c->end();++it)
                     {
                         subs.push_back(boost::asynchronous::parallel_move_if_noexcept<iterator,iterator,Job>
-                                       ((*it).begin(),(*it).end(),c1->end(),c1->get_cutoff(),
+                                       ((*it).begin(),(*it).end(),where,c1->get_cutoff(),
                                         name+"_parallel_move_if_noexcept",c1->get_prio()));
+                        where += (*it).size();
                     }
                     boost::asynchronous::create_callback_continuation(
                          [task_res,c,c1]
-- 
2.43.0


From 7dfc89eaa3593458cb96ccc4efb90b716d1b85fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:53 +0000
Subject: [PATCH 68/91] fix: parallel_placement: construction continued and
 wrong elements destroyed after an exception

---
 .../algorithm/parallel_placement.hpp          | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_placement.hpp b/boost/asynchronous/algorithm/parallel_placement.hpp
index 00bd484..4b01ccc 100644
--- a/boost/asynchronous/algorithm/parallel_placement.hpp
+++ b/boost/asynchronous/algorithm/parallel_placement.hpp
@@ -49,6 +49,7 @@ void serial_placement(Iterator beg, Iterator end,char* data)
             {
                 ((T*)(data)+(j+beg))->~T();
             }
+            throw;
         }
     }
 }
@@ -68,6 +69,7 @@ void serial_placement(Iterator beg, Iterator end,char* data,T init)
             {
                 ((T*)(data)+(j+beg))->~T();
             }
+            throw;
         }
     }
 }
@@ -87,6 +89,7 @@ void serial_placement_it(Iterator beg, Iterator end,char* data,Iterator2 it2)
             {
                 ((T*)(data)+(j+beg))->~T();
             }
+            throw;
         }
     }
 }
@@ -131,6 +134,7 @@ struct parallel_placement_helper: public boost::asynchronous::continuation_task<
                             ((T*)(data_.get())+(j+beg_))->~T();
                         }
                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled,std::current_exception()));
+                        return;
                     }
                 }
                 task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
@@ -157,13 +161,13 @@ struct parallel_placement_helper: public boost::asynchronous::continuation_task<
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
                                     }
                                     // if both have an error and error not handled (i.e propagated), keep any exception and proceed
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled &&
-                                             res2.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success &&
+                                             res2.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_handled,res1.second));
                                     }
                                     // if first part has an error and second no, call destructor on second
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         for (std::size_t j = 0; j < (end-it); ++j)
                                         {
@@ -255,6 +259,7 @@ struct parallel_placement_helper_raw: public boost::asynchronous::continuation_t
                             ((T*)(data_)+(j+beg_))->~T();
                         }
                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled,std::current_exception()));
+                        return;
                     }
                 }
                 task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
@@ -281,17 +286,17 @@ struct parallel_placement_helper_raw: public boost::asynchronous::continuation_t
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
                                     }
                                     // if both have an error and error not handled (i.e propagated), keep any exception and proceed
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled &&
-                                             res2.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success &&
+                                             res2.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_handled,res1.second));
                                     }
                                     // if first part has an error and second no, call destructor on second
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         for (std::size_t j = 0; j < (end-it); ++j)
                                         {
-                                            ((T*)(data)+(j+beg))->~T();
+                                            ((T*)(data)+(j+it))->~T();
                                         }
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_handled,res1.second));
                                     }
@@ -381,6 +386,7 @@ struct parallel_placement_iterators_helper: public boost::asynchronous::continua
                             ((T*)(data_.get())+(j+beg_))->~T();
                         }
                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled,std::current_exception()));
+                        return;
                     }
                 }
                 task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
@@ -409,17 +415,17 @@ struct parallel_placement_iterators_helper: public boost::asynchronous::continua
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
                                     }
                                     // if both have an error and error not handled (i.e propagated), keep any exception and proceed
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled &&
-                                             res2.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success &&
+                                             res2.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_handled,res1.second));
                                     }
                                     // if first part has an error and second no, call destructor on second
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         for (std::size_t j = 0; j < (end-it); ++j)
                                         {
-                                            ((T*)(data.get())+(j+beg))->~T();
+                                            ((T*)(data.get())+(j+it))->~T();
                                         }
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_handled,res1.second));
                                     }
-- 
2.43.0


From 816f4d51279bb4011630ac471607d2b5d4e1aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:33 +0000
Subject: [PATCH 69/91] fix: placement_deleter: elements leaked if not cleared

---
 boost/asynchronous/algorithm/parallel_placement.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/boost/asynchronous/algorithm/parallel_placement.hpp b/boost/asynchronous/algorithm/parallel_placement.hpp
index 4b01ccc..57b45ce 100644
--- a/boost/asynchronous/algorithm/parallel_placement.hpp
+++ b/boost/asynchronous/algorithm/parallel_placement.hpp
@@ -607,6 +607,14 @@ struct placement_deleter
     placement_deleter(placement_deleter &&)=delete;
     placement_deleter& operator=(placement_deleter const&)=delete;
     placement_deleter& operator=(placement_deleter &&)=delete;
+    ~placement_deleter()
+    {
+        // not cleared, for example because of an exception: destroy what we still own
+        if (data_)
+        {
+            boost::asynchronous::detail::serial_dtor<T,std::size_t>((std::size_t)0,size_,(char*)data_.get());
+        }
+    }
     void clear(std::function<void()> when_done)
     {
         Ptr d (std::move(data_));
-- 
2.43.0


From dd929225752cf064400cd897719079691e549b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:40 +0000
Subject: [PATCH 70/91] fix: vector: exception of an element during
 construction terminated or leaked

---
 boost/asynchronous/container/vector.hpp | 76 ++++++++++++++++++-------
 1 file changed, 54 insertions(+), 22 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index a71d4cb..3b063a3 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -98,7 +98,7 @@ public:
     enum { default_capacity = 10 };
 
     // standard ctors (no scheduler)
-    explicit vector(const Alloc& alloc)noexcept
+    explicit vector(const Alloc& alloc)
     : m_data()
     , m_cutoff(1000)
     , m_task_name("")
@@ -112,24 +112,28 @@ public:
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(0,raw,m_cutoff,m_task_name,m_prio);
     }
 
-    vector() noexcept(std::is_nothrow_default_constructible<Alloc>::value)
+    vector()
     : vector(Alloc())
     {
     }
 
 
-    vector( size_type n,const T& value = T(),const Alloc& alloc = Alloc() )noexcept
-        : m_size(n)
+    vector( size_type n,const T& value = T(),const Alloc& alloc = Alloc() )
+        : m_cutoff(1000)
+        , m_task_name("")
+        , m_prio(0)
+        , m_size(n)
         , m_capacity(n)
         , m_allocator(alloc)
     {
         std::shared_ptr<T> raw (allocate_memory(n));
-        m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,m_cutoff,m_task_name,m_prio);
+        m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(0,raw,m_cutoff,m_task_name,m_prio);
         boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,n,(char*)raw.get(),value);
+        m_data->size_=n;
     }
 
     template< class InputIt >
-    vector(InputIt first, InputIt last,const Alloc& alloc = Alloc())noexcept
+    vector(InputIt first, InputIt last,const Alloc& alloc = Alloc())
         : m_cutoff(1000)
         , m_task_name("")
         , m_prio(0)
@@ -139,11 +143,12 @@ public:
         m_size=n;
         m_capacity=n;
         std::shared_ptr<T> raw (allocate_memory(n));
-        m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,m_cutoff,m_task_name,m_prio);
+        m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(0,raw,m_cutoff,m_task_name,m_prio);
         boost::asynchronous::detail::serial_placement_it<T,std::size_t,InputIt>((std::size_t)0,n,(char*)raw.get(),first);
+        m_data->size_=n;
     }
 
-    vector( std::initializer_list<T> init,const Alloc& alloc= Alloc() )noexcept
+    vector( std::initializer_list<T> init,const Alloc& alloc= Alloc() )
      : m_cutoff(1000)
      , m_task_name("")
      , m_prio(0)
@@ -154,8 +159,9 @@ public:
         m_size=n;
         m_capacity=n;
         std::shared_ptr<T> raw (allocate_memory(n));
-        m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,m_cutoff,m_task_name,m_prio);
+        m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(0,raw,m_cutoff,m_task_name,m_prio);
         boost::asynchronous::detail::serial_placement_it<T,std::size_t,decltype(first)>((std::size_t)0,n,(char*)raw.get(),first);
+        m_data->size_=n;
     }
 
     // only for use from within a threadpool using make_asynchronous_range
@@ -189,7 +195,7 @@ public:
         , m_allocator(alloc)
     {
         std::shared_ptr<T> raw (allocate_memory(n));
-        m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,cutoff,task_name,prio);
+        m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(0,raw,cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
             auto fu = boost::asynchronous::post_future(scheduler,
@@ -199,18 +205,23 @@ public:
             },
             task_name+"vector_ctor",prio);
             // if exception, will be forwarded
-            fu.get();
+            auto placement_result = fu.get();
+            if (placement_result.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
+            {
+                std::rethrow_exception(placement_result.second);
+            }
         }
         else
         {
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,n,(char*)raw.get(),T());
         }
+        m_data->size_=n;
     }
     explicit vector(boost::asynchronous::any_shared_scheduler_proxy<Job> scheduler,long cutoff,
 #ifdef BOOST_ASYNCHRONOUS_REQUIRE_ALL_ARGUMENTS
-           const std::string& task_name, std::size_t prio,const Alloc& alloc = Alloc())noexcept
+           const std::string& task_name, std::size_t prio,const Alloc& alloc = Alloc())
 #else
-           const std::string& task_name="", std::size_t prio=0,const Alloc& alloc = Alloc())noexcept
+           const std::string& task_name="", std::size_t prio=0,const Alloc& alloc = Alloc())
 #endif
         : m_scheduler(scheduler)
         , m_cutoff(cutoff)
@@ -242,7 +253,7 @@ public:
     {
         std::shared_ptr<T> raw (allocate_memory(n));
 
-        m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,cutoff,task_name,prio);
+        m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(0,raw,cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
             auto fu = boost::asynchronous::post_future(scheduler,
@@ -252,12 +263,17 @@ public:
             },
             task_name+"vector_ctor",prio);
             // if exception, will be forwarded
-            fu.get();
+            auto placement_result = fu.get();
+            if (placement_result.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
+            {
+                std::rethrow_exception(placement_result.second);
+            }
         }
         else
         {
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,n,(char*)raw.get(),value);
         }
+        m_data->size_=n;
     }
     template< class InputIt >
     vector(boost::asynchronous::any_shared_scheduler_proxy<Job> scheduler,long cutoff,
@@ -277,7 +293,7 @@ public:
         m_size=n;
         m_capacity=n;
         std::shared_ptr<T> raw (allocate_memory(n));
-        m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,cutoff,task_name,prio);
+        m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(0,raw,cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
             auto fu = boost::asynchronous::post_future(scheduler,
@@ -288,12 +304,17 @@ public:
             },
             task_name+"vector_ctor",prio);
             // if exception, will be forwarded
-            fu.get();
+            auto placement_result = fu.get();
+            if (placement_result.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
+            {
+                std::rethrow_exception(placement_result.second);
+            }
         }
         else
         {
              boost::asynchronous::detail::serial_placement_it<T,std::size_t,InputIt>((std::size_t)0,n,(char*)raw.get(),first);
         }
+        m_data->size_=n;
     }
     vector( vector&& other )noexcept
         : m_scheduler(std::move(other.m_scheduler))
@@ -325,7 +346,7 @@ public:
         auto cutoff = m_cutoff;
         auto task_name = m_task_name;
         auto prio = m_prio;
-        m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,cutoff,task_name,prio);
+        m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(0,raw,cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
             auto fu = boost::asynchronous::post_future(m_scheduler,
@@ -336,12 +357,17 @@ public:
             },
             task_name+"vector_ctor",prio);
             // if exception, will be forwarded
-            fu.get();
+            auto placement_result = fu.get();
+            if (placement_result.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
+            {
+                std::rethrow_exception(placement_result.second);
+            }
         }
         else
         {
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,n,(char*)raw.get(),T());
         }
+        m_data->size_=n;
 
         // copy
         auto beg_it = begin();
@@ -371,18 +397,19 @@ public:
 #else
             const std::string& task_name="", std::size_t prio=0
 #endif
-           ,const Alloc& = Alloc() )
+           ,const Alloc& alloc = Alloc() )
      : m_scheduler(scheduler)
      , m_cutoff(cutoff)
      , m_task_name(task_name)
      , m_prio(prio)
+     , m_allocator(alloc)
     {
         auto n = std::distance(init.begin(),init.end());
         auto first = init.begin();
         m_size=n;
         m_capacity=n;
         std::shared_ptr<T> raw (allocate_memory(n));
-        m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,cutoff,task_name,prio);
+        m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(0,raw,cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
             auto fu = boost::asynchronous::post_future(scheduler,
@@ -393,12 +420,17 @@ public:
             },
             task_name+"vector_ctor",prio);
             // if exception, will be forwarded
-            fu.get();
+            auto placement_result = fu.get();
+            if (placement_result.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
+            {
+                std::rethrow_exception(placement_result.second);
+            }
         }
         else
         {
             boost::asynchronous::detail::serial_placement_it<T,std::size_t,decltype(first)>((std::size_t)0,n,(char*)raw.get(),first);
         }
+        m_data->size_=n;
     }
 
     ~vector()noexcept
-- 
2.43.0


From 114e1d706f4c062deb464d7e58c9e2111ddc2d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:17 +0000
Subject: [PATCH 71/91] fix: vector: elements leaked if one throws during
 insert, emplace or erase

---
 boost/asynchronous/container/vector.hpp | 60 ++++++++++++++-----------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 3b063a3..ab9db91 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -994,6 +994,9 @@ public:
                 boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)n,(char*)raw.get(),T());
             }
 
+            // owns the temporary elements, also in case of an exception
+            std::shared_ptr<boost::asynchronous::placement_deleter<T,Job>> temp_deleter =
+                    std::make_shared<boost::asynchronous::placement_deleter<T,Job>>(n,raw,cutoff,task_name,prio);
             // move to temporary buffer
             auto temp_begin = (iterator)raw.get();
             if (m_scheduler.is_valid())
@@ -1054,8 +1057,6 @@ public:
             {
                 boost::asynchronous::serial_move_if_noexcept(temp_begin,temp_end,(iterator)first);
             }
-            std::shared_ptr<boost::asynchronous::placement_deleter<T,Job>> temp_deleter =
-                    std::make_shared<boost::asynchronous::placement_deleter<T,Job>>(n,std::move(raw),cutoff,task_name,prio);
             if (m_scheduler.is_valid())
             {
                 // call dtors on temp
@@ -1127,6 +1128,9 @@ public:
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)n,(char*)raw.get(),T());
         }
 
+        // owns the temporary elements, also in case of an exception
+        std::shared_ptr<boost::asynchronous::placement_deleter<T,Job>> temp_deleter =
+                std::make_shared<boost::asynchronous::placement_deleter<T,Job>>(n,raw,cutoff,task_name,prio);
         // move to temporary buffer
         auto temp_begin = (iterator)raw.get();
         auto cur_begin = pos;
@@ -1163,6 +1167,9 @@ public:
         auto to_add = 1;
         auto where = ((iterator)m_data->data())+ size();
         boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)to_add,(char*)where,T());
+        // update size
+        ++m_size;
+        ++m_data->size_;
 
         // move input
         *pos = std::move(value);
@@ -1199,8 +1206,6 @@ public:
             boost::asynchronous::serial_move_if_noexcept(temp_begin,temp_end,(iterator)beg_move_back);
         }
         // call dtors on temp
-        std::shared_ptr<boost::asynchronous::placement_deleter<T,Job>> temp_deleter =
-                std::make_shared<boost::asynchronous::placement_deleter<T,Job>>(n,std::move(raw),cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
             auto fu6 =
@@ -1222,9 +1227,6 @@ public:
             boost::asynchronous::detail::serial_dtor<T,std::size_t>((std::size_t)0,temp_deleter->size_,(char*)temp_deleter->data());
             temp_deleter->size_=0;
         }
-        // update size
-        ++m_size;
-        ++m_data->size_;
 
         return begin() + distance_begin_pos;
     }
@@ -1271,6 +1273,9 @@ public:
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)n,(char*)raw.get(),T());
         }
 
+        // owns the temporary elements, also in case of an exception
+        std::shared_ptr<boost::asynchronous::placement_deleter<T,Job>> temp_deleter =
+                std::make_shared<boost::asynchronous::placement_deleter<T,Job>>(n,raw,cutoff,task_name,prio);
         // move to temporary buffer
         auto temp_begin = (iterator)raw.get();
         auto cur_begin = pos;
@@ -1325,6 +1330,9 @@ public:
         {
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)to_add,(char*)where,T());
         }
+        // update size
+        m_size += (last-first);
+        m_data->size_ += (last-first);
         // copy input
         if (m_scheduler.is_valid())
         {
@@ -1373,8 +1381,6 @@ public:
             boost::asynchronous::serial_move_if_noexcept(temp_begin,temp_end,(iterator)beg_move_back);
         }
         // call dtors on temp
-        std::shared_ptr<boost::asynchronous::placement_deleter<T,Job>> temp_deleter =
-                std::make_shared<boost::asynchronous::placement_deleter<T,Job>>(n,std::move(raw),cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
             auto fu6 =
@@ -1396,9 +1402,6 @@ public:
             boost::asynchronous::detail::serial_dtor<T,std::size_t>((std::size_t)0,temp_deleter->size_,(char*)temp_deleter->data());
             temp_deleter->size_=0;
         }
-        // update size
-        m_size += (last-first);
-        m_data->size_ += (last-first);
 
         return begin() + distance_begin_pos;
     }
@@ -1441,6 +1444,9 @@ public:
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)n,(char*)raw.get(),T());
         }
 
+        // owns the temporary elements, also in case of an exception
+        std::shared_ptr<boost::asynchronous::placement_deleter<T,Job>> temp_deleter =
+                std::make_shared<boost::asynchronous::placement_deleter<T,Job>>(n,raw,cutoff,task_name,prio);
         // move to temporary buffer
         auto temp_begin = (iterator)raw.get();
         auto cur_begin = pos;
@@ -1477,6 +1483,9 @@ public:
         auto to_add = 1;
         auto where = ((iterator)m_data->data())+ size();
         boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)to_add,(char*)where,T());
+        // update size
+        ++m_size;
+        ++m_data->size_;
 
         // copy input
         *pos = value;
@@ -1512,8 +1521,6 @@ public:
             boost::asynchronous::serial_move_if_noexcept(temp_begin,temp_end,(iterator)beg_move_back);
         }
         // call dtors on temp
-        std::shared_ptr<boost::asynchronous::placement_deleter<T,Job>> temp_deleter =
-                std::make_shared<boost::asynchronous::placement_deleter<T,Job>>(n,std::move(raw),cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
             auto fu6 =
@@ -1535,9 +1542,6 @@ public:
             boost::asynchronous::detail::serial_dtor<T,std::size_t>((std::size_t)0,temp_deleter->size_,(char*)temp_deleter->data());
             temp_deleter->size_=0;
         }
-        // update size
-        ++m_size;
-        ++m_data->size_;
 
         return begin() + distance_begin_pos;
     }
@@ -1579,6 +1583,9 @@ public:
         {
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)n,(char*)raw.get(),T());
         }
+        // owns the temporary elements, also in case of an exception
+        std::shared_ptr<boost::asynchronous::placement_deleter<T,Job>> temp_deleter =
+                std::make_shared<boost::asynchronous::placement_deleter<T,Job>>(n,raw,cutoff,task_name,prio);
         // move to temporary buffer
         auto temp_begin = (iterator)raw.get();
         auto cur_begin = pos;
@@ -1633,6 +1640,9 @@ public:
         {
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)to_add,(char*)where,T());
         }
+        // update size
+        ++m_size;
+        ++m_data->size_;
 
         // copy input
         T a[1] = {std::move(value)};
@@ -1683,8 +1693,6 @@ public:
             boost::asynchronous::serial_move_if_noexcept(temp_begin,temp_end,(iterator)beg_move_back);
         }
         // call dtors on temp
-        std::shared_ptr<boost::asynchronous::placement_deleter<T,Job>> temp_deleter =
-                std::make_shared<boost::asynchronous::placement_deleter<T,Job>>(n,std::move(raw),cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
             auto fu6 =
@@ -1706,9 +1714,6 @@ public:
             boost::asynchronous::detail::serial_dtor<T,std::size_t>((std::size_t)0,temp_deleter->size_,(char*)temp_deleter->data());
             temp_deleter->size_=0;
         }
-        // update size
-        ++m_size;
-        ++m_data->size_;
 
         return begin() + distance_begin_pos;
     }
@@ -1751,6 +1756,9 @@ public:
         {
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)n,(char*)raw.get(),T());
         }
+        // owns the temporary elements, also in case of an exception
+        std::shared_ptr<boost::asynchronous::placement_deleter<T,Job>> temp_deleter =
+                std::make_shared<boost::asynchronous::placement_deleter<T,Job>>(n,raw,cutoff,task_name,prio);
         // move to temporary buffer
         auto temp_begin = (iterator)raw.get();
         auto cur_begin = pos;
@@ -1805,6 +1813,9 @@ public:
         {
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)to_add,(char*)where,T());
         }
+        // update size
+        m_size += count;
+        m_data->size_ += count;
 
         // copy input
         std::vector<T> a(count,value);
@@ -1855,8 +1866,6 @@ public:
             boost::asynchronous::serial_move_if_noexcept(temp_begin,temp_end,(iterator)beg_move_back);
         }
         // call dtors on temp
-        std::shared_ptr<boost::asynchronous::placement_deleter<T,Job>> temp_deleter =
-                std::make_shared<boost::asynchronous::placement_deleter<T,Job>>(n,std::move(raw),cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
             auto fu6 =
@@ -1878,9 +1887,6 @@ public:
             boost::asynchronous::detail::serial_dtor<T,std::size_t>((std::size_t)0,temp_deleter->size_,(char*)temp_deleter->data());
             temp_deleter->size_=0;
         }
-        // update size
-        m_size += count;
-        m_data->size_ += count;
 
         return begin() + distance_begin_pos;
     }
-- 
2.43.0


From 7ed24d23bd27e391707b9e79bd4df532abb47cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:27 +0000
Subject: [PATCH 72/91] fix: vector: insertion of zero copies into a cleared
 vector crashed

---
 boost/asynchronous/container/vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index ab9db91..f2c19ee 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -1720,6 +1720,11 @@ public:
 
     iterator insert( const_iterator orgpos, size_type count, const T& org_value )
     {
+        if (count == 0)
+        {
+            // nothing to do
+            return (iterator)orgpos;
+        }
         // the value can be one of our elements, which will be moved
         T value(org_value);
         auto distance_begin_pos = orgpos-cbegin();
-- 
2.43.0


From 78dd1e660e401af0b3b10cb8671457ecc456b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:06 +0000
Subject: [PATCH 73/91] fix: simple_tcp_client did not compile (deadline_timer
 with a std::chrono duration)

---
 boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
index d00c5e2..7d6ee46 100644
--- a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
+++ b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
@@ -47,8 +47,8 @@ struct client_time_check_policy: boost::asynchronous::trackable_servant<boost::a
     void prepare_check_for_work(T cb,WS /*weak_scheduler*/)
     {
         // start timer to check for work again later
-        std::shared_ptr<boost::asio::deadline_timer> atimer
-                (std::make_shared<boost::asio::deadline_timer>(*boost::asynchronous::get_io_service<>(),
+        std::shared_ptr<boost::asio::steady_timer> atimer
+                (std::make_shared<boost::asio::steady_timer>(*boost::asynchronous::get_io_service<>(),
                                                                  std::chrono::milliseconds(m_time_in_ms_between_requests)));
 
         std::function<void(const boost::system::error_code&)> checked =
@@ -78,8 +78,8 @@ struct queue_size_check_policy: boost::asynchronous::trackable_servant<boost::as
     void prepare_check_for_work(T cb,WS weak_scheduler)
     {
         // start timer to check for work again later
-        std::shared_ptr<boost::asio::deadline_timer> atimer
-                (std::make_shared<boost::asio::deadline_timer>(*boost::asynchronous::get_io_service<>(),
+        std::shared_ptr<boost::asio::steady_timer> atimer
+                (std::make_shared<boost::asio::steady_timer>(*boost::asynchronous::get_io_service<>(),
                                                                  std::chrono::milliseconds(m_time_in_ms_between_requests)));
 
         std::function<void(const boost::system::error_code&)> checked =
-- 
2.43.0


From c195b1a148966a3d36042c42e35053b3efc18045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:06 +0000
Subject: [PATCH 74/91] fix: tcp client: a result which had to wait for the end
 of a job request was not sent before the next result

---
 boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
index 7d6ee46..ff76990 100644
--- a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
+++ b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
@@ -371,7 +371,8 @@ private:
         boost::asio::async_write(*m_socket, buffers,
                                  this->make_safe_callback(std::function<void(const boost::system::error_code&,std::size_t)>(
                                                         [this,cb,outbound_buffer,outbound_header](const boost::system::error_code& err,std::size_t)mutable
-                                                        {this->m_is_writing = false;this->handle_write_request(err,cb);}),"",0));
+                                                        {this->m_is_writing = false;this->handle_write_request(err,cb);
+                                                         if (!err) this->try_send_one_waiting_request();}),"",0));
     }
     void handle_write_request(const boost::system::error_code& err,std::function<void(std::shared_ptr<std::vector<char> >)> callback)
     {
-- 
2.43.0


From ba7efd0f4f1f5be9331a900120d62f9573a406fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:22 +0000
Subject: [PATCH 75/91] fix: tcp job server: a job which could not be sent was
 put back from the thread of the connection (data race, use after free)

---
 boost/asynchronous/scheduler/tcp/detail/job_server.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/tcp/detail/job_server.hpp b/boost/asynchronous/scheduler/tcp/detail/job_server.hpp
index 5405394..7ced6f6 100644
--- a/boost/asynchronous/scheduler/tcp/detail/job_server.hpp
+++ b/boost/asynchronous/scheduler/tcp/detail/job_server.hpp
@@ -135,7 +135,8 @@ private:
 
         // set started time to when job gets stolen
         boost::asynchronous::job_traits<SerializableType>::set_started_time(m_unprocessed_jobs.front().m_job);
-        connection->send(m_unprocessed_jobs.front().m_serialized,cb);
+        // the connection lives in another thread, its callback has to come back to ours
+        connection->send(m_unprocessed_jobs.front().m_serialized,this->make_safe_callback(cb,"",0));
         m_waiting_jobs.insert(m_unprocessed_jobs.front());
         m_unprocessed_jobs.pop_front();
     }
-- 
2.43.0


From b2c36eb4c569ae3de8cdb9faee06a62bf8ccccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:22 +0000
Subject: [PATCH 76/91] fix: tcp job server: a result received twice completed
 its job twice, completed jobs were never freed

---
 boost/asynchronous/scheduler/tcp/detail/job_server.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/scheduler/tcp/detail/job_server.hpp b/boost/asynchronous/scheduler/tcp/detail/job_server.hpp
index 7ced6f6..535c209 100644
--- a/boost/asynchronous/scheduler/tcp/detail/job_server.hpp
+++ b/boost/asynchronous/scheduler/tcp/detail/job_server.hpp
@@ -176,6 +176,9 @@ private:
             typename std::set<waiting_job,sort_tasks>::iterator it = m_waiting_jobs.find(searched_job);
             if (it != m_waiting_jobs.end())
             {
+                // a job gets only one result
+                waiting_job done_job(*it);
+                m_waiting_jobs.erase(it);
                 // return result. Serialize data and exception
                 std::ostringstream load_archive_stream;
                 typename SerializableType::oarchive load_archive(load_archive_stream);
@@ -185,10 +188,10 @@ private:
                 std::istringstream archive_stream(msg_load);
                 typename SerializableType::iarchive archive(archive_stream);
                 // set finish time to when result is sent, close diagnostics
-                boost::asynchronous::job_traits<SerializableType>::set_finished_time(const_cast<SerializableType&>((*it).m_job));
-                boost::asynchronous::job_traits<SerializableType>::add_diagnostic(const_cast<SerializableType&>((*it).m_job),(*it).m_diag.get());
+                boost::asynchronous::job_traits<SerializableType>::set_finished_time(done_job.m_job);
+                boost::asynchronous::job_traits<SerializableType>::add_diagnostic(done_job.m_job,done_job.m_diag.get());
 
-                const_cast<SerializableType&>((*it).m_job).serialize(archive,0);
+                done_job.m_job.serialize(archive,0);
             }
             // else ignore TODO log?
         }
-- 
2.43.0


From 8d4b956de2b3368eb6d9bf89fb9dba9f22975bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:48 +0000
Subject: [PATCH 77/91] fix: tcp client: the connection was kept when sending a
 result failed, the client never asked for work again

---
 boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
index ff76990..4b3f019 100644
--- a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
+++ b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
@@ -456,8 +456,13 @@ private:
         buffers.push_back(boost::asio::buffer(*outbound_buffer));
         boost::asio::async_write(*m_socket, buffers,
                                  this->make_safe_callback(std::function<void(const boost::system::error_code&,std::size_t)>(
-                                 [this,outbound_buffer,outbound_header](const boost::system::error_code&,std::size_t )
-                                 {this->m_is_writing=false; this->try_send_one_waiting_request();}),"",0));
+                                 [this,outbound_buffer,outbound_header](const boost::system::error_code& err,std::size_t )
+                                 {
+                                     this->m_is_writing=false;
+                                     // the connection is lost, we'll connect again with the next request for work
+                                     if (err) this->stop();
+                                     this->try_send_one_waiting_request();
+                                 }),"",0));
     }
     void try_send_one_waiting_request()
     {
-- 
2.43.0


From e43392d91d48e1cd95da1e3c46d75798b79d850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:27 +0000
Subject: [PATCH 78/91] fix: tcp client: a connect, read or write in progress
 used the socket after the destruction of the client

---
 .../scheduler/tcp/simple_tcp_client.hpp       | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
index 4b3f019..5782cfc 100644
--- a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
+++ b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
@@ -152,6 +152,22 @@ private:
          m_socket->close();
          m_connection_state = connection_state::none;
     }
+    // an operation in progress uses the socket and its buffers until it calls its handler, even if this servant is gone
+    template <class Handler,class... Buffers>
+    struct socket_keeper
+    {
+        template <class... Args>
+        auto operator()(Args const&... args)->decltype(std::declval<Handler&>()(args...)){return m_handler(args...);}
+
+        std::shared_ptr<boost::asio::ip::tcp::socket> m_socket;
+        Handler m_handler;
+        std::tuple<Buffers...> m_buffers;
+    };
+    template <class Handler,class... Buffers>
+    socket_keeper<Handler,Buffers...> keep_socket(Handler handler,Buffers... buffers)
+    {
+        return socket_keeper<Handler,Buffers...>{m_socket,std::move(handler),std::tuple<Buffers...>(std::move(buffers)...)};
+    }
 
     struct stealable_job
     {
@@ -310,8 +326,8 @@ private:
             // successfully establish a connection.
             boost::asio::async_connect(
                         *m_socket, endpoint_iterator,
-                        this->make_safe_callback(std::function<void(const boost::system::error_code&,boost::asio::ip::tcp::resolver::iterator)>(
-                                               [this,cb](const boost::system::error_code& err,boost::asio::ip::tcp::resolver::iterator){this->handle_connect(err,std::move(cb));}),"",0));
+                        keep_socket(this->make_safe_callback(std::function<void(const boost::system::error_code&,boost::asio::ip::tcp::resolver::iterator)>(
+                                               [this,cb](const boost::system::error_code& err,boost::asio::ip::tcp::resolver::iterator){this->handle_connect(err,std::move(cb));}),"",0)));
         }
         // else bad luck, will try later
         else
@@ -369,10 +385,10 @@ private:
         buffers.push_back(boost::asio::buffer(*outbound_header));
         buffers.push_back(boost::asio::buffer(*outbound_buffer));
         boost::asio::async_write(*m_socket, buffers,
-                                 this->make_safe_callback(std::function<void(const boost::system::error_code&,std::size_t)>(
+                                 keep_socket(this->make_safe_callback(std::function<void(const boost::system::error_code&,std::size_t)>(
                                                         [this,cb,outbound_buffer,outbound_header](const boost::system::error_code& err,std::size_t)mutable
                                                         {this->m_is_writing = false;this->handle_write_request(err,cb);
-                                                         if (!err) this->try_send_one_waiting_request();}),"",0));
+                                                         if (!err) this->try_send_one_waiting_request();}),"",0),outbound_header,outbound_buffer));
     }
     void handle_write_request(const boost::system::error_code& err,std::function<void(std::shared_ptr<std::vector<char> >)> callback)
     {
@@ -386,7 +402,7 @@ private:
         std::shared_ptr<std::vector<char> > inbound_header = std::make_shared<std::vector<char> >();
         inbound_header->resize(m_header_length);
         boost::asio::async_read(*m_socket,boost::asio::buffer(*inbound_header),
-            this->make_safe_callback(std::function<void(const boost::system::error_code&,size_t)>(
+            keep_socket(this->make_safe_callback(std::function<void(const boost::system::error_code&,size_t)>(
             [this, callback,inbound_header](boost::system::error_code ec, size_t /*bytes_transferred*/)mutable
             {
                 if (!ec)
@@ -405,7 +421,7 @@ private:
                     std::shared_ptr<std::vector<char> > inbound_buffer = std::make_shared<std::vector<char> >();
                     inbound_buffer->resize(inbound_data_size);
                     boost::asio::async_read(*(this->m_socket),boost::asio::buffer(*inbound_buffer),
-                                            this->make_safe_callback(std::function<void(const boost::system::error_code&,size_t)>(
+                                            keep_socket(this->make_safe_callback(std::function<void(const boost::system::error_code&,size_t)>(
                                             [this, callback,inbound_buffer](boost::system::error_code ec, size_t /*bytes_transferred*/) mutable
                                             {
                                                 if (ec)
@@ -419,14 +435,14 @@ private:
                                                     m_connection_state = connection_state::connected;
                                                     callback(inbound_buffer);
                                                 }
-                                            }),"",0));
+                                            }),"",0),inbound_buffer));
                 }
                 else
                 {
                     this->stop();
                     callback(std::make_shared<std::vector<char> >());
                 }
-            }),"",0));
+            }),"",0),inbound_header));
     }
     void send_task_result(std::shared_ptr<boost::asynchronous::tcp::client_request> request)
     {
@@ -455,14 +471,14 @@ private:
         buffers.push_back(boost::asio::buffer(*outbound_header));
         buffers.push_back(boost::asio::buffer(*outbound_buffer));
         boost::asio::async_write(*m_socket, buffers,
-                                 this->make_safe_callback(std::function<void(const boost::system::error_code&,std::size_t)>(
+                                 keep_socket(this->make_safe_callback(std::function<void(const boost::system::error_code&,std::size_t)>(
                                  [this,outbound_buffer,outbound_header](const boost::system::error_code& err,std::size_t )
                                  {
                                      this->m_is_writing=false;
                                      // the connection is lost, we'll connect again with the next request for work
                                      if (err) this->stop();
                                      this->try_send_one_waiting_request();
-                                 }),"",0));
+                                 }),"",0),outbound_header,outbound_buffer));
     }
     void try_send_one_waiting_request()
     {
-- 
2.43.0


From a77ec05ee6d4a6e5c61b97a75547ae0728f522e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:27 +0000
Subject: [PATCH 79/91] fix: tcp server: an accept in progress used the socket
 after the destruction of the server

---
 .../scheduler/tcp/detail/asio_comm_server.hpp   | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/boost/asynchronous/scheduler/tcp/detail/asio_comm_server.hpp b/boost/asynchronous/scheduler/tcp/detail/asio_comm_server.hpp
index e939ccc..8a5ffff 100644
--- a/boost/asynchronous/scheduler/tcp/detail/asio_comm_server.hpp
+++ b/boost/asynchronous/scheduler/tcp/detail/asio_comm_server.hpp
@@ -31,7 +31,6 @@ struct asio_comm_server : boost::asynchronous::trackable_servant<>
     : boost::asynchronous::trackable_servant<>(scheduler)
         , m_connection_handler(std::move(connectionHandler))
         , m_acceptor(*boost::asynchronous::get_io_service<>())
-        , m_socket(*boost::asynchronous::get_io_service<>())
     {
         // Open the acceptor with the option to reuse the address (i.e. SO_REUSEADDR)
         boost::asio::ip::tcp::resolver resolver(*boost::asynchronous::get_io_service<>());
@@ -40,9 +39,6 @@ struct asio_comm_server : boost::asynchronous::trackable_servant<>
         m_acceptor.set_option(boost::asio::ip::tcp::acceptor::reuse_address(true));
         m_acceptor.bind(endpoint);
         m_acceptor.listen();
-        boost::asio::ip::tcp::no_delay option(true);
-        boost::system::error_code ec;
-        m_socket.set_option(option,ec);
         do_accept();
     }
 
@@ -50,9 +46,10 @@ private:
     /// Perform an asynchronous accept operation
     void do_accept()
     {
-        m_acceptor.async_accept(m_socket,
-                                make_safe_callback(std::function<void(boost::system::error_code)>(
-                                [this](boost::system::error_code ec)
+        // the operation in progress uses the socket until it calls its handler, even if this servant is gone
+        auto asocket = std::make_shared<boost::asio::ip::tcp::socket>(*boost::asynchronous::get_io_service<>());
+        auto accepted = make_safe_callback(std::function<void(boost::system::error_code)>(
+                                [this,asocket](boost::system::error_code ec)
                                 {
                                     // Check whether the server was stopped by a signal before this completion handler had
                                     // a chance to run.
@@ -63,17 +60,17 @@ private:
 
                                     if (!ec)
                                     {
-                                        m_connection_handler(std::make_shared<boost::asio::ip::tcp::socket>(std::move(m_socket)));
+                                        m_connection_handler(asocket);
                                     }
 
                                     do_accept();
-                                 }),"",0));
+                                 }),"",0);
+        m_acceptor.async_accept(*asocket,[asocket,accepted](boost::system::error_code ec)mutable {accepted(ec);});
     }
 
 private:
     std::function<void(std::shared_ptr<boost::asio::ip::tcp::socket>)> m_connection_handler;
     boost::asio::ip::tcp::acceptor m_acceptor;
-    boost::asio::ip::tcp::socket m_socket;
 };
 
 class asio_comm_server_proxy : public boost::asynchronous::servant_proxy<asio_comm_server_proxy, boost::asynchronous::tcp::asio_comm_server>
-- 
2.43.0


From dd955a7b7e420fc3cac7658bd2fddc0ce5a1b753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:02 +0000
Subject: [PATCH 80/91] fix: tcp client: a job stolen from the pool of a client
 before being executed was lost

---
 .../scheduler/tcp/simple_tcp_client.hpp       | 37 +++++++++++++------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
index 5782cfc..07c91a9 100644
--- a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
+++ b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
@@ -177,19 +177,13 @@ private:
                       boost::asynchronous::any_weak_scheduler<> this_scheduler,
                       std::function<void(std::shared_ptr<boost::asynchronous::tcp::client_request>)> done_fct)
             : m_done(done_fct)
-            , m_archive_data(std::move(archive_data))
             , m_response(0,"","")
             , m_executor(executor)
             , m_scheduler(this_scheduler)
         {
-        }
-
-        void operator()()
-        {
-            // got work, deserialize message
+            // got work, deserialize message. This has to be done now as our task can be stolen before being executed
             auto start = std::chrono::high_resolution_clock::now();
-            std::string archive_data(&(*m_archive_data)[0], m_archive_data->size());
-            std::istringstream archive_stream(std::move(archive_data));
+            std::istringstream archive_stream(std::string(&(*archive_data)[0], archive_data->size()));
             typename SerializableType::iarchive archive(archive_stream);
             archive >> m_response;
             auto tmsg = (std::chrono::nanoseconds(std::chrono::high_resolution_clock::now() - start).count() / 1000000);
@@ -197,6 +191,15 @@ private:
             {
                 std::cout << "msg deserialize took in ms: "<< tmsg << std::endl;
             }
+        }
+        // false if the server had no job for us
+        bool has_task() const
+        {
+            return !m_response.m_task.empty();
+        }
+
+        void operator()()
+        {
             // if no task, give up
             if (!m_response.m_task.empty())
             {
@@ -262,7 +265,6 @@ private:
         BOOST_SERIALIZATION_SPLIT_MEMBER()
 
         std::function<void(std::shared_ptr<boost::asynchronous::tcp::client_request>)> m_done;
-        std::shared_ptr<std::vector<char>> m_archive_data;
         boost::asynchronous::tcp::server_reponse m_response;
         std::function<void(std::string const&,boost::asynchronous::tcp::server_reponse,
                            std::function<void(boost::asynchronous::tcp::client_request const&)>)> m_executor;
@@ -282,9 +284,20 @@ private:
                         this->make_safe_callback(std::function<void(std::shared_ptr<boost::asynchronous::tcp::client_request>)>(
                                                      [this](std::shared_ptr<boost::asynchronous::tcp::client_request> req)
                                                      {this->send_task_result(req);}),"",0);
-                this->get_worker().post(
-                            stealable_job(std::move(archive_data),m_executor,this->get_scheduler(),sending_fct)
-                );
+                try
+                {
+                    stealable_job job(std::move(archive_data),m_executor,this->get_scheduler(),sending_fct);
+                    // nothing to execute (or steal) if the server had no job
+                    if (job.has_task())
+                    {
+                        this->get_worker().post(std::move(job));
+                    }
+                }
+                catch (std::exception&)
+                {
+                    // message doesn't seem to be valid, we'll try again later
+                    stop();
+                }
             }
             // delegate next work checking to policy
             m_check_policy.template prepare_check_for_work([this](){this->check_for_work();},this->get_worker().get_weak_scheduler());
-- 
2.43.0


From c3a8c4c502dfc795d695d60d362539aee8d59154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:02 +0000
Subject: [PATCH 81/91] fix: tcp client: no answer was sent for a task which
 could not be started, its job never completed

---
 .../scheduler/tcp/simple_tcp_client.hpp       | 34 +++++++++++++++----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
index 07c91a9..0e0d14a 100644
--- a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
+++ b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
@@ -224,13 +224,33 @@ private:
                     --cpt_stolen;
                 }
                 auto done_fct = m_done;
-                m_executor(m_response.m_task_name,m_response,
-                    [done_fct](boost::asynchronous::tcp::client_request const& req)
-                    {
-                        std::shared_ptr<boost::asynchronous::tcp::client_request> request (std::make_shared<boost::asynchronous::tcp::client_request>(std::move(req)));
-                        done_fct(request);
-                    }
-                );
+                // if the task cannot even be started (for example, unknown task), the server gets the exception
+                auto failed = [this,done_fct](std::string const& what)
+                {
+                    std::shared_ptr<boost::asynchronous::tcp::client_request> request (std::make_shared<boost::asynchronous::tcp::client_request>(BOOST_ASYNCHRONOUS_TCP_CLIENT_JOB_RESULT));
+                    request->m_task_id = m_response.m_task_id;
+                    request->m_load.m_has_exception=true;
+                    request->m_load.m_exception=boost::asynchronous::tcp::transport_exception(what);
+                    done_fct(request);
+                };
+                try
+                {
+                    m_executor(m_response.m_task_name,m_response,
+                        [done_fct](boost::asynchronous::tcp::client_request const& req)
+                        {
+                            std::shared_ptr<boost::asynchronous::tcp::client_request> request (std::make_shared<boost::asynchronous::tcp::client_request>(std::move(req)));
+                            done_fct(request);
+                        }
+                    );
+                }
+                catch (std::exception& e)
+                {
+                    failed(e.what());
+                }
+                catch (...)
+                {
+                    failed("...");
+                }
             }
         }
         std::string get_task_name()const
-- 
2.43.0


From f4a22f2adc9a73e2cbe7ab0d12fe9d8e52be917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:34 +0000
Subject: [PATCH 82/91] fix: post_future of a serializable task returning a
 continuation: its exception was replaced by task_aborted_exception

---
 boost/asynchronous/post.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/post.hpp b/boost/asynchronous/post.hpp
index d7f7420..97ce648 100644
--- a/boost/asynchronous/post.hpp
+++ b/boost/asynchronous/post.hpp
@@ -509,7 +509,7 @@ namespace detail
             template <class Res>
             void operator()(std::tuple<Res>&& continuation_res)
             {
-                if(!std::get<0>(continuation_res).has_value())
+                if(!boost::asynchronous::is_ready(std::get<0>(continuation_res)))
                 {
                     boost::asynchronous::task_aborted_exception ta;
                     m_promise.set_exception(std::make_exception_ptr(ta));
-- 
2.43.0


From cbd7efc4a6d31519d6766f8264d27534043e6ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:32 +0000
Subject: [PATCH 83/91] fix: tcp job server: a connection accepted while the
 server was being destroyed was closed after the destruction of its io_context

---
 .../extensions/asio/asio_scheduler.hpp        |  1 +
 .../asynchronous/extensions/asio/tss_asio.hpp | 14 ++++++++++++
 .../scheduler/tcp/detail/job_server.hpp       | 22 ++++++++++++++++---
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/extensions/asio/asio_scheduler.hpp b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
index 5b0e067..833ea2a 100644
--- a/boost/asynchronous/extensions/asio/asio_scheduler.hpp
+++ b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
@@ -388,6 +388,7 @@ private:
         m_self_thread.reset(new thread_ptr_wrapper(t));
         started->set_value();
         get_io_service<>(ioservice.get());
+        get_shared_io_service<>(ioservice);
         // thread scheduler => tss
         boost::asynchronous::any_weak_scheduler<job_type> self_as_weak = boost::asynchronous::detail::lockable_weak_scheduler<this_type>(this_);
         boost::asynchronous::get_thread_scheduler<job_type>(self_as_weak,true);
diff --git a/boost/asynchronous/extensions/asio/tss_asio.hpp b/boost/asynchronous/extensions/asio/tss_asio.hpp
index fa47106..009b325 100644
--- a/boost/asynchronous/extensions/asio/tss_asio.hpp
+++ b/boost/asynchronous/extensions/asio/tss_asio.hpp
@@ -1,6 +1,8 @@
 #ifndef BOOST_ASYNCHRON_EXTENSIONS_ASIO_DETAIL_TSS_HPP
 #define BOOST_ASYNCHRON_EXTENSIONS_ASIO_DETAIL_TSS_HPP
 
+#include <memory>
+
 #include <boost/thread/tss.hpp>
 #include <boost/asio.hpp>
 
@@ -24,6 +26,18 @@ boost::asio::io_context* get_io_service(boost::asio::io_context* ioservice= 0 )
     return s_io_service.get()->m_io_service;
 }
 
+// the io_context of the current thread, for objects which need it and could be destroyed after the end of this thread
+template <class T=void>
+std::shared_ptr<boost::asio::io_context> get_shared_io_service(std::weak_ptr<boost::asio::io_context> ioservice = std::weak_ptr<boost::asio::io_context>())
+{
+    static boost::thread_specific_ptr<std::weak_ptr<boost::asio::io_context>> s_io_service;
+    if (!ioservice.expired())
+    {
+        s_io_service.reset(new std::weak_ptr<boost::asio::io_context>(std::move(ioservice)));
+    }
+    return s_io_service.get() ? s_io_service.get()->lock() : std::shared_ptr<boost::asio::io_context>();
+}
+
 }}
 
 #endif // BOOST_ASYNCHRON_EXTENSIONS_ASIO_DETAIL_TSS_HPP
diff --git a/boost/asynchronous/scheduler/tcp/detail/job_server.hpp b/boost/asynchronous/scheduler/tcp/detail/job_server.hpp
index 535c209..bf28b39 100644
--- a/boost/asynchronous/scheduler/tcp/detail/job_server.hpp
+++ b/boost/asynchronous/scheduler/tcp/detail/job_server.hpp
@@ -104,6 +104,13 @@ struct job_server : boost::asynchronous::trackable_servant<boost::asynchronous::
 
 private:
 
+    // a new connection on its way to us. If we die before it arrives, the socket still needs its io_context to be closed
+    struct accepted_socket
+    {
+        std::shared_ptr<boost::asio::io_context> m_io_service;
+        std::shared_ptr<boost::asio::ip::tcp::socket> m_socket;
+    };
+
     void handle_connect(std::shared_ptr<boost::asio::ip::tcp::socket> s)
     {
         auto c = std::make_shared<server_connection_type >(m_asioWorkers,s);
@@ -120,10 +127,19 @@ private:
     void setup_connection()
     {
         // created posted function when a client connects
+        std::function<void(std::shared_ptr<accepted_socket>)> connected =
+                this->make_safe_callback(std::function<void(std::shared_ptr<accepted_socket>)>(
+                                         [this](std::shared_ptr<accepted_socket> accepted)
+                                         {this->handle_connect(std::move(accepted->m_socket));}),"",0);
+        // called from the thread of the io_context
         std::function<void(std::shared_ptr<boost::asio::ip::tcp::socket>)> f =
-                this->make_safe_callback(std::function<void(std::shared_ptr<boost::asio::ip::tcp::socket>)>(
-                                         [this](std::shared_ptr<boost::asio::ip::tcp::socket> socket)
-                                         {this->handle_connect(socket);}),"",0);
+                [connected](std::shared_ptr<boost::asio::ip::tcp::socket> socket)
+                {
+                    auto accepted = std::make_shared<accepted_socket>();
+                    accepted->m_io_service = boost::asynchronous::get_shared_io_service<>();
+                    accepted->m_socket = std::move(socket);
+                    connected(std::move(accepted));
+                };
         m_asio_comm.push_back(boost::asynchronous::tcp::asio_comm_server_proxy(m_asioWorkers, m_address, m_port, f));
     }
 
-- 
2.43.0


From 0603035a6654d5b2a7f12f459814b65dec66fe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:18 +0000
Subject: [PATCH 84/91] fix: moved ranges must outlive the subtasks sorting or
 reversing them if interrupted or shut down

---
 .../algorithm/detail/parallel_sort_helper.hpp | 12 ++++----
 .../algorithm/parallel_reverse.hpp            |  9 ++++--
 .../asynchronous/algorithm/parallel_sort.hpp  | 29 +++++++++++++-----
 .../algorithm/parallel_sort_inplace.hpp       | 30 +++++++++++++------
 4 files changed, 56 insertions(+), 24 deletions(-)

diff --git a/boost/asynchronous/algorithm/detail/parallel_sort_helper.hpp b/boost/asynchronous/algorithm/detail/parallel_sort_helper.hpp
index 25044c3..077dd45 100644
--- a/boost/asynchronous/algorithm/detail/parallel_sort_helper.hpp
+++ b/boost/asynchronous/algorithm/detail/parallel_sort_helper.hpp
@@ -83,19 +83,21 @@ struct std_stable_sort
 // version for moved ranges => will return the range as continuation
 namespace detail
 {
-template <class Continuation, class Range1>
+// the algorithm is started here, not before, so that its subtasks never outlive the range
+template <class Start, class Range1>
 struct parallel_sort_range_move_helper : public boost::asynchronous::continuation_task<Range1>
 {
-    parallel_sort_range_move_helper(Continuation const& c,std::shared_ptr<Range1> range_in,
+    parallel_sort_range_move_helper(Start start,std::shared_ptr<Range1> range_in,
                                     const std::string& task_name)
         :boost::asynchronous::continuation_task<Range1>(task_name)
-        ,cont_(c),range_in_(std::move(range_in))
+        ,start_(std::move(start)),range_in_(std::move(range_in))
     {}
     void operator()()
     {
         boost::asynchronous::continuation_result<Range1> task_res = this->this_task_result();
         auto range_in = range_in_;
-        cont_.on_done([task_res,range_in](std::tuple<boost::asynchronous::expected<void> >&& continuation_res)
+        auto cont = start_();
+        cont.on_done([task_res,range_in](std::tuple<boost::asynchronous::expected<void> >&& continuation_res)
         {
             try
             {
@@ -110,7 +112,7 @@ struct parallel_sort_range_move_helper : public boost::asynchronous::continuatio
         }
         );
     }
-    Continuation cont_;
+    Start start_;
     std::shared_ptr<Range1> range_in_;
 };
 }
diff --git a/boost/asynchronous/algorithm/parallel_reverse.hpp b/boost/asynchronous/algorithm/parallel_reverse.hpp
index 69d9264..253445a 100644
--- a/boost/asynchronous/algorithm/parallel_reverse.hpp
+++ b/boost/asynchronous/algorithm/parallel_reverse.hpp
@@ -123,9 +123,14 @@ parallel_reverse(Range&& range,long cutoff,
     auto r = std::make_shared<Range>(std::forward<Range>(range));
     auto beg = boost::begin(*r);
     auto end = boost::end(*r);
+    auto start = [beg,end,cutoff,task_name,prio]()mutable
+    {
+        return boost::asynchronous::parallel_reverse<decltype(beg),Job>
+                (beg,end,cutoff,task_name,prio);
+    };
     return boost::asynchronous::top_level_callback_continuation_job<Range,Job>
-            (boost::asynchronous::detail::parallel_sort_range_move_helper<boost::asynchronous::detail::callback_continuation<void,Job>,Range>
-             (boost::asynchronous::parallel_reverse<decltype(beg),Job>(beg,end,cutoff,task_name,prio),std::move(r),task_name));
+            (boost::asynchronous::detail::parallel_sort_range_move_helper<decltype(start),Range>
+             (std::move(start),std::move(r),task_name));
 }
 
 // version for ranges given as continuation => will return the range as continuation
diff --git a/boost/asynchronous/algorithm/parallel_sort.hpp b/boost/asynchronous/algorithm/parallel_sort.hpp
index becae3e..41a5e1d 100644
--- a/boost/asynchronous/algorithm/parallel_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort.hpp
@@ -480,10 +480,14 @@ parallel_sort(Range&& range,Func func,long cutoff,
     auto r = std::make_shared<Range>(std::forward<Range>(range));
     auto beg = boost::begin(*r);
     auto end = boost::end(*r);
+    auto start = [beg,end,func,cutoff,task_name,prio]()mutable
+    {
+        return boost::asynchronous::parallel_sort<decltype(beg),Func,Job>
+                (beg,end,std::move(func),cutoff,task_name,prio);
+    };
     return boost::asynchronous::top_level_callback_continuation_job<Range,Job>
-            (boost::asynchronous::detail::parallel_sort_range_move_helper<boost::asynchronous::detail::callback_continuation<void,Job>,Range>
-             (boost::asynchronous::parallel_sort<decltype(boost::begin(*r)),Func,Job>
-                                (beg,end,std::move(func),cutoff,task_name,prio),r,task_name));
+            (boost::asynchronous::detail::parallel_sort_range_move_helper<decltype(start),Range>
+             (std::move(start),r,task_name));
 }
 
 template <class Range, class Func, class Job=BOOST_ASYNCHRONOUS_DEFAULT_JOB>
@@ -500,10 +504,14 @@ parallel_stable_sort(Range&& range,Func func,long cutoff,
     auto r = std::make_shared<Range>(std::forward<Range>(range));
     auto beg = boost::begin(*r);
     auto end = boost::end(*r);
+    auto start = [beg,end,func,cutoff,task_name,prio]()mutable
+    {
+        return boost::asynchronous::parallel_stable_sort<decltype(beg),Func,Job>
+                (beg,end,std::move(func),cutoff,task_name,prio);
+    };
     return boost::asynchronous::top_level_callback_continuation_job<Range,Job>
-            (boost::asynchronous::detail::parallel_sort_range_move_helper<boost::asynchronous::detail::callback_continuation<void,Job>,Range>
-             (boost::asynchronous::parallel_stable_sort<decltype(boost::begin(*r)),Func,Job>
-              (beg,end,std::move(func),cutoff,task_name,prio),r,task_name));
+            (boost::asynchronous::detail::parallel_sort_range_move_helper<decltype(start),Range>
+             (std::move(start),r,task_name));
 }
 #ifdef BOOST_ASYNCHRONOUS_USE_BOOST_SPREADSORT
 template <class Range, class Func, class Job=BOOST_ASYNCHRONOUS_DEFAULT_JOB>
@@ -520,9 +528,14 @@ parallel_spreadsort(Range&& range,Func func,long cutoff,
     auto r = std::make_shared<Range>(std::forward<Range>(range));
     auto beg = boost::begin(*r);
     auto end = boost::end(*r);
+    auto start = [beg,end,func,cutoff,task_name,prio]()mutable
+    {
+        return boost::asynchronous::parallel_spreadsort<decltype(beg),Func,Job>
+                (beg,end,std::move(func),cutoff,task_name,prio);
+    };
     return boost::asynchronous::top_level_callback_continuation_job<Range,Job>
-            (boost::asynchronous::detail::parallel_sort_range_move_helper<boost::asynchronous::detail::callback_continuation<void,Job>,Range>
-             (boost::asynchronous::parallel_spreadsort<decltype(boost::begin(*r)),Func,Job>(beg,end,std::move(func),cutoff,task_name,prio),r,task_name));
+            (boost::asynchronous::detail::parallel_sort_range_move_helper<decltype(start),Range>
+             (std::move(start),r,task_name));
 }
 #endif
 
diff --git a/boost/asynchronous/algorithm/parallel_sort_inplace.hpp b/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
index 4294062..2003444 100644
--- a/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
@@ -196,10 +196,14 @@ parallel_sort_move_inplace(Range&& range,Func func,long cutoff,
     auto r = std::make_shared<Range>(std::forward<Range>(range));
     auto beg = boost::begin(*r);
     auto end = boost::end(*r);
+    auto start = [beg,end,func,cutoff,task_name,prio]()mutable
+    {
+        return boost::asynchronous::parallel_sort_inplace<decltype(beg),Func,Job>
+                (beg,end,std::move(func),cutoff,task_name,prio);
+    };
     return boost::asynchronous::top_level_callback_continuation_job<Range,Job>
-            (boost::asynchronous::detail::parallel_sort_range_move_helper<boost::asynchronous::detail::callback_continuation<void,Job>,Range>
-             (boost::asynchronous::parallel_sort_inplace<decltype(boost::begin(*r)),Func,Job>
-              (beg,end,std::move(func),cutoff,task_name,prio),r,task_name));
+            (boost::asynchronous::detail::parallel_sort_range_move_helper<decltype(start),Range>
+             (std::move(start),r,task_name));
 }
 template <class Range, class Func, class Job=BOOST_ASYNCHRONOUS_DEFAULT_JOB>
 typename std::enable_if<!boost::asynchronous::detail::is_serializable<Func>::value,boost::asynchronous::detail::callback_continuation<Range,Job> >::type
@@ -213,10 +217,14 @@ parallel_stable_sort_move_inplace(Range&& range,Func func,long cutoff,
     auto r = std::make_shared<Range>(std::forward<Range>(range));
     auto beg = boost::begin(*r);
     auto end = boost::end(*r);
+    auto start = [beg,end,func,cutoff,task_name,prio]()mutable
+    {
+        return boost::asynchronous::parallel_stable_sort_inplace<decltype(beg),Func,Job>
+                (beg,end,std::move(func),cutoff,task_name,prio);
+    };
     return boost::asynchronous::top_level_callback_continuation_job<Range,Job>
-            (boost::asynchronous::detail::parallel_sort_range_move_helper<boost::asynchronous::detail::callback_continuation<void,Job>,Range>
-             (boost::asynchronous::parallel_stable_sort_inplace<decltype(boost::begin(*r)),Func,Job>
-              (beg,end,std::move(func),cutoff,task_name,prio),r,task_name));
+            (boost::asynchronous::detail::parallel_sort_range_move_helper<decltype(start),Range>
+             (std::move(start),r,task_name));
 }
 #ifdef BOOST_ASYNCHRONOUS_USE_BOOST_SPREADSORT
 template <class Range, class Func, class Job=BOOST_ASYNCHRONOUS_DEFAULT_JOB>
@@ -231,10 +239,14 @@ parallel_spreadsort_move_inplace(Range&& range,Func func,long cutoff,
     auto r = std::make_shared<Range>(std::forward<Range>(range));
     auto beg = boost::begin(*r);
     auto end = boost::end(*r);
+    auto start = [beg,end,func,cutoff,task_name,prio]()mutable
+    {
+        return boost::asynchronous::parallel_spreadsort_inplace<decltype(beg),Func,Job>
+                (beg,end,std::move(func),cutoff,task_name,prio);
+    };
     return boost::asynchronous::top_level_callback_continuation_job<Range,Job>
-            (boost::asynchronous::detail::parallel_sort_range_move_helper<boost::asynchronous::detail::callback_continuation<void,Job>,Range>
-             (boost::asynchronous::parallel_spreadsort_inplace<decltype(boost::begin(*r)),Func,Job>
-              (beg,end,std::move(func),cutoff,task_name,prio),r,task_name));
+            (boost::asynchronous::detail::parallel_sort_range_move_helper<decltype(start),Range>
+             (std::move(start),r,task_name));
 }
 #endif
 
-- 
2.43.0


From 45613efecafe7c4910fc99bffa3cdf2fdc69dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:39 +0000
Subject: [PATCH 85/91] fix: grouped algorithms: a moved range and the result
 must outlive the subtasks working on them if interrupted or shut down

---
 boost/asynchronous/algorithm/detail/helpers.hpp  | 16 ++++++++++++++++
 .../asynchronous/algorithm/parallel_group_by.hpp |  9 +++++----
 .../algorithm/parallel_grouped_for.hpp           |  6 +++---
 .../algorithm/parallel_grouped_transform.hpp     |  8 +++++---
 4 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/boost/asynchronous/algorithm/detail/helpers.hpp b/boost/asynchronous/algorithm/detail/helpers.hpp
index d66a80c..8fe719a 100644
--- a/boost/asynchronous/algorithm/detail/helpers.hpp
+++ b/boost/asynchronous/algorithm/detail/helpers.hpp
@@ -10,6 +10,7 @@
 #ifndef BOOST_ASYNCHRONOUS_ALGORITHMS_DETAIL_HELPERS_HPP
 #define BOOST_ASYNCHRONOUS_ALGORITHMS_DETAIL_HELPERS_HPP
 
+#include <memory>
 #include <type_traits>
 #include <utility>
 #include <boost/range/begin.hpp>
@@ -37,6 +38,21 @@ struct void_wrapper {};
 template <class T> struct wrap { using type = T; };
 template <> struct wrap<void> { using type = void_wrapper; };
 
+// Comparison which keeps a range alive as long as a task using the comparison is alive, even if the algorithm as a
+// whole has already been abandoned
+template <class Compare>
+struct owning_comparison
+{
+    template <class T, class U>
+    bool operator()(T&& t, U&& u)
+    {
+        return comparison_(std::forward<T>(t), std::forward<U>(u));
+    }
+
+    std::shared_ptr<void> range_;
+    Compare               comparison_;
+};
+
 }
 }}
 #endif // BOOST_ASYNCHRONOUS_ALGORITHMS_DETAIL_HELPERS_HPP
diff --git a/boost/asynchronous/algorithm/parallel_group_by.hpp b/boost/asynchronous/algorithm/parallel_group_by.hpp
index 2d0749c..6cafb03 100644
--- a/boost/asynchronous/algorithm/parallel_group_by.hpp
+++ b/boost/asynchronous/algorithm/parallel_group_by.hpp
@@ -90,11 +90,12 @@ parallel_group_by(
     using std::begin;
     auto output = std::make_shared<OutputRange>(std::distance(first, last));
     return boost::asynchronous::then(
-        boost::asynchronous::parallel_grouped_transform(
+        boost::asynchronous::parallel_grouped_transform<Iterator, decltype(begin(*output)), boost::asynchronous::detail::owning_comparison<Compare>,
+                                                        detail::group_by_helper_1<Iterator, decltype(begin(*output)), Compare>, Job>(
             first,
             last,
             begin(*output),
-            comparison,
+            boost::asynchronous::detail::owning_comparison<Compare> { output, comparison },
             detail::group_by_helper_1<Iterator, decltype(begin(*output)), Compare> { comparison },
             cutoff,
             task_name + ": parallel_grouped_transform",
@@ -179,10 +180,10 @@ parallel_group_by(
     using std::begin;
     using std::end;
     return boost::asynchronous::then(
-        boost::asynchronous::parallel_group_by<OutputRange, decltype(begin(range)), Compare, Job>(
+        boost::asynchronous::parallel_group_by<OutputRange, decltype(begin(*stored_range)), boost::asynchronous::detail::owning_comparison<Compare>, Job>(
             begin(*stored_range),
             end(*stored_range),
-            std::move(comparison),
+            boost::asynchronous::detail::owning_comparison<Compare> { stored_range, std::move(comparison) },
             cutoff,
             task_name,
             prio
diff --git a/boost/asynchronous/algorithm/parallel_grouped_for.hpp b/boost/asynchronous/algorithm/parallel_grouped_for.hpp
index a79d149..c603c38 100644
--- a/boost/asynchronous/algorithm/parallel_grouped_for.hpp
+++ b/boost/asynchronous/algorithm/parallel_grouped_for.hpp
@@ -218,10 +218,10 @@ parallel_grouped_for(
     using std::begin;
     using std::end;
     return boost::asynchronous::then(
-        boost::asynchronous::parallel_grouped_for<decltype(begin(*stored_range)), Compare, Functor, Job>(
+        boost::asynchronous::parallel_grouped_for<decltype(begin(*stored_range)), boost::asynchronous::detail::owning_comparison<Compare>, Functor, Job>(
             begin(*stored_range),
             end(*stored_range),
-            std::move(comparison),
+            boost::asynchronous::detail::owning_comparison<Compare> { stored_range, std::move(comparison) },
             std::move(functor),
             cutoff,
             task_name,
@@ -230,7 +230,7 @@ parallel_grouped_for(
         [stored_range](boost::asynchronous::expected<void> result)
         {
             result.get();
-            return *stored_range;
+            return std::move(*stored_range);
         },
         task_name + ": parallel_grouped_for<Range>::then"
     );
diff --git a/boost/asynchronous/algorithm/parallel_grouped_transform.hpp b/boost/asynchronous/algorithm/parallel_grouped_transform.hpp
index 5c16ce8..1131e9f 100644
--- a/boost/asynchronous/algorithm/parallel_grouped_transform.hpp
+++ b/boost/asynchronous/algorithm/parallel_grouped_transform.hpp
@@ -240,15 +240,17 @@ parallel_grouped_transform(
 {
     auto stored_range = std::make_shared<Range>(std::move(range));
     auto stored_output = std::make_shared<OutputRange>(boost::asynchronous::container_size(*stored_range));
+    using owning_output = boost::asynchronous::detail::owning_comparison<Compare>;
+    using owning_compare = boost::asynchronous::detail::owning_comparison<owning_output>;
 
     using std::begin;
     using std::end;
     return boost::asynchronous::then(
-        boost::asynchronous::parallel_grouped_transform<decltype(begin(*stored_range)), decltype(begin(*stored_output)), Compare, Functor, Job>(
+        boost::asynchronous::parallel_grouped_transform<decltype(begin(*stored_range)), decltype(begin(*stored_output)), owning_compare, Functor, Job>(
             begin(*stored_range),
             end(*stored_range),
             begin(*stored_output),
-            std::move(comparison),
+            owning_compare { stored_range, owning_output { stored_output, std::move(comparison) } },
             std::move(functor),
             cutoff,
             task_name,
@@ -257,7 +259,7 @@ parallel_grouped_transform(
         [stored_range, stored_output](boost::asynchronous::expected<decltype(begin(*stored_output))> result)
         {
             result.get();
-            return *stored_output;
+            return std::move(*stored_output);
         },
         task_name + ": parallel_grouped_transform<Range>::then"
     );
-- 
2.43.0


From 812b862c5f81eb70136f6f2b1801fdabb1dc22ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:18 +0000
Subject: [PATCH 86/91] fix: expected: copying a failed expected of a type
 without default constructor dereferenced null

---
 boost/asynchronous/expected.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/expected.hpp b/boost/asynchronous/expected.hpp
index 1838834..df3bcde 100644
--- a/boost/asynchronous/expected.hpp
+++ b/boost/asynchronous/expected.hpp
@@ -64,7 +64,7 @@ public:
      * \brief copy constructor noexcept
      */
     expected(expected const& rhs) noexcept
-        : m_value(std::make_shared<value_type>(*rhs.m_value))
+        : m_value(rhs.m_value ? std::make_shared<value_type>(*rhs.m_value) : std::shared_ptr<value_type>())
         , m_exception(rhs.m_exception)
     {
     }
@@ -84,7 +84,9 @@ public:
      */
     expected& operator=(expected const& rhs) noexcept
     {
-        if(!!m_value)
+        if(!rhs.m_value)
+            m_value.reset();
+        else if(!!m_value)
             *m_value=*rhs.m_value;
         else
             m_value = std::make_shared<value_type>(*rhs.m_value);
-- 
2.43.0


From 9e1a29c62b682011e2e2f042f26efe1c1505e9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:55 +0000
Subject: [PATCH 87/91] fix: some_save_cpu_load with more non-saving threads
 than threads divided by zero

---
 .../asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp | 3 ++-
 .../scheduler/stealing_multiqueue_threadpool_scheduler.hpp     | 3 ++-
 boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp | 3 ++-
 boost/asynchronous/scheduler/threadpool_scheduler.hpp          | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
index 6afd5fa..aac925a 100755
--- a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
@@ -100,7 +100,8 @@ public:
         std::size_t load_thread_interval = 0;
         if (no_load_save_threads > 0)
         {
-            load_thread_interval = m_number_of_workers / no_load_save_threads;
+            // at least 1 if all threads are concerned
+            load_thread_interval = (m_number_of_workers > no_load_save_threads) ? m_number_of_workers / no_load_save_threads : 1;
         }
         for (size_t i = 0; i< m_number_of_workers;++i)
         {
diff --git a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
index a5bf42f..9c1a096 100644
--- a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
@@ -105,7 +105,8 @@ public:
         std::size_t load_thread_interval = 0;
         if (no_load_save_threads > 0)
         {
-            load_thread_interval = m_number_of_workers / no_load_save_threads;
+            // at least 1 if all threads are concerned
+            load_thread_interval = (m_number_of_workers > no_load_save_threads) ? m_number_of_workers / no_load_save_threads : 1;
         }
         for (size_t i = 0; i< number_of_workers;++i)
         {
diff --git a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
index e8a8ea5..808fec7 100644
--- a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
@@ -103,7 +103,8 @@ public:
         std::size_t load_thread_interval = 0;
         if (no_load_save_threads > 0)
         {
-            load_thread_interval = m_number_of_workers / no_load_save_threads;
+            // at least 1 if all threads are concerned
+            load_thread_interval = (m_number_of_workers > no_load_save_threads) ? m_number_of_workers / no_load_save_threads : 1;
         }
         for (size_t i = 0; i< number_of_workers;++i)
         {
diff --git a/boost/asynchronous/scheduler/threadpool_scheduler.hpp b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
index 4757a2a..8d44d90 100644
--- a/boost/asynchronous/scheduler/threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
@@ -90,7 +90,8 @@ public:
         std::size_t load_thread_interval = 0;
         if (no_load_save_threads > 0)
         {
-            load_thread_interval = m_number_of_workers / no_load_save_threads;
+            // at least 1 if all threads are concerned
+            load_thread_interval = (m_number_of_workers > no_load_save_threads) ? m_number_of_workers / no_load_save_threads : 1;
         }
         for (size_t i = 0; i< m_number_of_workers;++i)
         {
-- 
2.43.0


From a1e0c17aafa075809f5cf51677f957167f77d0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:56 +0000
Subject: [PATCH 88/91] fix: tcp server: a connection announcing a message of
 impossible size was neither read nor closed any more

---
 .../scheduler/tcp/detail/server_connection.hpp       | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/tcp/detail/server_connection.hpp b/boost/asynchronous/scheduler/tcp/detail/server_connection.hpp
index 68d31f9..17e3431 100644
--- a/boost/asynchronous/scheduler/tcp/detail/server_connection.hpp
+++ b/boost/asynchronous/scheduler/tcp/detail/server_connection.hpp
@@ -55,10 +55,20 @@ public:
                         // Header doesn't seem to be valid. Close connection.
                         // wrong header
                         callback(boost::asynchronous::tcp::client_request(BOOST_ASYNCHRONOUS_TCP_CLIENT_COM_ERROR));
+                        return;
                     }
                     // read message
                     std::shared_ptr<std::vector<char> > inbound_buffer = std::make_shared<std::vector<char> >();
-                    inbound_buffer->resize(inbound_data_size);
+                    try
+                    {
+                        inbound_buffer->resize(inbound_data_size);
+                    }
+                    catch (std::exception&)
+                    {
+                        // a message of this size cannot be received. Close connection.
+                        callback(boost::asynchronous::tcp::client_request(BOOST_ASYNCHRONOUS_TCP_CLIENT_COM_ERROR));
+                        return;
+                    }
                     auto asocket= m_socket;
                     boost::asio::async_read(*m_socket,boost::asio::buffer(*inbound_buffer),
                                             this->make_safe_callback(std::function<void(boost::system::error_code ec, size_t )>(
-- 
2.43.0


From 19da91dbbcef30e2877290ae601178666f4aad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:38 +0000
Subject: [PATCH 89/91] fix: tcp client: after an answer announcing a message
 of impossible size no work was ever requested again

---
 .../asynchronous/scheduler/tcp/simple_tcp_client.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
index 0e0d14a..b58d4b4 100644
--- a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
+++ b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
@@ -452,7 +452,17 @@ private:
                     }
                     // read message
                     std::shared_ptr<std::vector<char> > inbound_buffer = std::make_shared<std::vector<char> >();
-                    inbound_buffer->resize(inbound_data_size);
+                    try
+                    {
+                        inbound_buffer->resize(inbound_data_size);
+                    }
+                    catch (std::exception&)
+                    {
+                        // no message can have this size, the header isn't valid either
+                        this->stop();
+                        callback(std::make_shared<std::vector<char> >());
+                        return;
+                    }
                     boost::asio::async_read(*(this->m_socket),boost::asio::buffer(*inbound_buffer),
                                             keep_socket(this->make_safe_callback(std::function<void(const boost::system::error_code&,size_t)>(
                                             [this, callback,inbound_buffer](boost::system::error_code ec, size_t /*bytes_transferred*/) mutable
-- 
2.43.0


From 99ea8b780de0e4cabc5811f6f1ec88f03884873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:34 +0000
Subject: [PATCH 90/91] fix: tcp client: a stolen job which cannot be decoded
 was never answered

---
 .../scheduler/tcp/simple_tcp_client.hpp       | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
index b58d4b4..2f5aaa1 100644
--- a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
+++ b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
@@ -213,16 +213,6 @@ private:
                     found = m_response.m_task_name.find_first_of("/");
                 }
 
-                while(cpt_stolen > 0)
-                {
-                    std::istringstream task_stream(m_response.m_task);
-                    typename SerializableType::iarchive task_archive(task_stream);
-                    std::string as_string;
-                    task_archive >> as_string;
-                    // replace
-                    m_response.m_task = std::move(as_string);
-                    --cpt_stolen;
-                }
                 auto done_fct = m_done;
                 // if the task cannot even be started (for example, unknown task), the server gets the exception
                 auto failed = [this,done_fct](std::string const& what)
@@ -235,6 +225,16 @@ private:
                 };
                 try
                 {
+                    while(cpt_stolen > 0)
+                    {
+                        std::istringstream task_stream(m_response.m_task);
+                        typename SerializableType::iarchive task_archive(task_stream);
+                        std::string as_string;
+                        task_archive >> as_string;
+                        // replace
+                        m_response.m_task = std::move(as_string);
+                        --cpt_stolen;
+                    }
                     m_executor(m_response.m_task_name,m_response,
                         [done_fct](boost::asynchronous::tcp::client_request const& req)
                         {
-- 
2.43.0


From d4e265578a479a306392bcdbd877cb0f7f13ee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:52 +0000
Subject: [PATCH 91/91] fix: tcp server: a job whose serialization fails never
 completed, or ended with a broken promise

---
 .../scheduler/tcp/detail/job_server.hpp       | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/boost/asynchronous/scheduler/tcp/detail/job_server.hpp b/boost/asynchronous/scheduler/tcp/detail/job_server.hpp
index bf28b39..d70c3a2 100644
--- a/boost/asynchronous/scheduler/tcp/detail/job_server.hpp
+++ b/boost/asynchronous/scheduler/tcp/detail/job_server.hpp
@@ -68,6 +68,12 @@ struct job_server : boost::asynchronous::trackable_servant<boost::asynchronous::
                     },
                     [moved_job,diag,this](boost::asynchronous::expected<std::string> fu)mutable
                     {
+                        if (fu.has_exception())
+                        {
+                            // no client can get this job, this is its result
+                            this->serialization_failed(*moved_job,fu.get_exception_ptr(),diag);
+                            return;
+                        }
                         waiting_job new_job(std::move(*moved_job),
                                             boost::asynchronous::tcp::server_reponse(++this->m_next_task_id,fu.get(),
                                                                                      moved_job->get_task_name()),
@@ -221,6 +227,33 @@ private:
             // unknown command, ignore
         }
     }
+    // gives a job which could not be serialized the exception as result
+    void serialization_failed(SerializableType& job,std::exception_ptr error,diag_type const& diag)
+    {
+        boost::asynchronous::tcp::client_request::message_payload load;
+        load.m_has_exception = true;
+        try
+        {
+            std::rethrow_exception(error);
+        }
+        catch (std::exception& e)
+        {
+            load.m_exception = boost::asynchronous::tcp::transport_exception(e.what());
+        }
+        catch (...)
+        {
+            load.m_exception = boost::asynchronous::tcp::transport_exception("...");
+        }
+        std::ostringstream load_archive_stream;
+        typename SerializableType::oarchive load_archive(load_archive_stream);
+        load_archive << load;
+        std::istringstream archive_stream(load_archive_stream.str());
+        typename SerializableType::iarchive archive(archive_stream);
+        boost::asynchronous::job_traits<SerializableType>::set_failed(job);
+        boost::asynchronous::job_traits<SerializableType>::set_finished_time(job);
+        boost::asynchronous::job_traits<SerializableType>::add_diagnostic(job,diag.get());
+        job.serialize(archive,0);
+    }
     void handle_error_send(boost::asynchronous::tcp::server_reponse msg)
     {
         // if this was not a real job, ignore
-- 
2.43.0

