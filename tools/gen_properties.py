#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in one readable place; the .jsonl is what counts).
import json, os
B="boost/asynchronous/"
def mech(*a): return [{"name":n,"where":B+w} for n,w in a]
P=[]
def prop(id,title,statement,over,qtext,why,files,mechanism):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=[B+f for f in files],mechanism=mech(*mechanism))))

prop("P01","Every job posted to a pool runs exactly once, shutdown included",
 "Every job accepted by a scheduler (single thread, threadpool, multi-queue pool, stealing pool, stealing multi-queue pool, multiple-thread scheduler), over any of the supported queue types, is executed exactly once, whichever threads post it, including jobs posted by jobs. Dropping the last owner of the scheduler does not lose jobs already accepted: they all run before the workers end. A job that throws does not prevent any other job from running.",
 ["schedules","programs","configurations","fault_sequences"],
 "for every scheduler type x queue type x thread count, every interleaving of posters, workers and destruction, and every set of throwing jobs",
 "the tests post a handful of jobs on one OS-chosen schedule and usually wait for the results before shutting down; the queue/worker hand-over and the shutdown drain are only exposed by particular interleavings",
 ["scheduler/single_thread_scheduler.hpp","scheduler/threadpool_scheduler.hpp","scheduler/multiqueue_threadpool_scheduler.hpp","scheduler/stealing_threadpool_scheduler.hpp","scheduler/stealing_multiqueue_threadpool_scheduler.hpp","scheduler/multiple_thread_scheduler.hpp","scheduler/detail/single_queue_scheduler_policy.hpp","scheduler/detail/multi_queue_scheduler_policy.hpp"],
 [("worker loop run()/execute_one_job() pops, executes, drains at shutdown","scheduler/*_scheduler.hpp"),("post() pushes into the selected queue","scheduler/detail/*_queue_scheduler_policy.hpp")])
prop("P02","Servant calls are serialized and run in posting order",
 "Calls posted to a servant living in a single-thread scheduler, or to one servant of a multiple-thread scheduler, never run concurrently with each other, and everything one call wrote is visible to the next one, whichever worker runs it. Calls posted by one thread at one priority run in the order in which that thread posted them.",
 ["schedules","programs","configurations"],
 "for every interleaving of several posting threads, workers and servants sharing a scheduler, for every FIFO queue type",
 "a lost mutual exclusion or a missing release/acquire pair needs two workers to meet in a window of a few instructions; a test that runs once on x86 does not see it",
 ["scheduler/single_thread_scheduler.hpp","scheduler/multiple_thread_scheduler.hpp","servant_proxy.hpp","queue/lockfree_queue.hpp","queue/guarded_deque.hpp"],
 [("per-queue m_taken flag guarding a servant's queue","scheduler/multiple_thread_scheduler.hpp"),("servant_proxy::post","servant_proxy.hpp")])
prop("P03","Each future gets exactly the outcome of its own job",
 "The future returned by post_future, post_future of a servant, or a future-returning servant proxy member becomes ready exactly when the posted job has finished, with that job's return value (moved or copied unchanged) or the very exception it threw, also when the job returns a continuation (of a value or of void). It is never left pending while the scheduler is alive, never gets another job's outcome, and a throwing job leaves the worker able to run later jobs.",
 ["schedules","programs","fault_sequences"],
 "for every mix of value/void/move-only/throwing/continuation-returning jobs, every scheduler, every interleaving of get() with completion and of scheduler destruction with pending jobs",
 "tests check one future at a time with a fixed outcome; wrong pairing, dropped exceptions and broken promises depend on which path (direct, continuation, exception) meets which schedule",
 ["post.hpp","servant_proxy.hpp","detail/continuation_impl.hpp"],
 [("post_future and promise_move_helper variants","post.hpp"),("BOOST_ASYNC_FUTURE_MEMBER","servant_proxy.hpp")])
prop("P04","Callbacks return once, in the servant's thread, and only while it lives",
 "When a servant posts work with a callback (post_callback, interruptible_post_callback, make_safe_callback, call_callback), the callback runs exactly once, in the servant's own thread, after the work finished and with its result or exception - provided the servant is still alive then. Once the servant has been destroyed, none of its callbacks or safe callbacks runs, and work of its that had not started is skipped. The calling thread of a safe callback never executes the callback body itself unless it already is the servant's thread.",
 ["schedules","programs","crash_points","fault_sequences"],
 "for every interleaving of worker tasks, callbacks and destruction of the servant at an arbitrary point, values and exceptions alike",
 "tests destroy servants at fixed, quiet moments; the guarantee is about destruction racing with tasks that are finishing",
 ["trackable_servant.hpp","checks.hpp","post.hpp"],
 [("post_callback task -> callback hand-back","post.hpp"),("weak tracking token m_tracking and call_if_alive wrappers","checks.hpp"),("make_safe_callback","trackable_servant.hpp")])
prop("P05","Servants are built, called and destroyed once, in their own thread",
 "A servant owned by proxies is constructed before any call to it - in its scheduler's thread, except for the constructor forms documented to construct in the creator - destroyed exactly once in that same thread after the last proxy copy died and after every call posted before that has run, and no call runs on it afterwards. Copies of the proxy may be used and dropped from any thread, also from the servant's own while its scheduler has another owner. An exception thrown by the servant constructor is reported to the creator of the proxy and leaves the scheduler usable.",
 ["schedules","programs","crash_points","fault_sequences"],
 "for every interleaving of proxy copies being used and destroyed in several threads, servants destroyed from inside their own calls, and failing constructors",
 "the tests create one proxy, call it and drop it in one thread; use-after-free and wrong-thread destruction need a race between the last owners",
 ["servant_proxy.hpp","trackable_servant.hpp","scheduler_shared_proxy.hpp"],
 [("proxy constructor waits for servant init; destructor posts the servant's deletion","servant_proxy.hpp")])
prop("P06","Schedulers terminate cleanly and weak references never revive them",
 "Dropping the last owner of any scheduler, from any thread that is not one of its own workers, ends and joins all its worker threads within bounded time once the jobs it had accepted are done, and leaks neither threads nor jobs. A weak scheduler reference yields either a fully working scheduler, kept alive for as long as it is held, or nothing; after the scheduler is gone it yields nothing and posting through expired references does nothing harmful.",
 ["schedules","crash_points","configurations"],
 "for every scheduler type, every interleaving of the last owner's release with posts, weak locks and running jobs, every thread that may hold the last owner",
 "shutdown deadlocks and leaks are schedule dependent: each test sees one shutdown order",
 ["scheduler_shared_proxy.hpp","any_shared_scheduler_proxy.hpp","any_scheduler.hpp","scheduler/detail/scheduler_helpers.hpp","scheduler/single_thread_scheduler.hpp","scheduler/threadpool_scheduler.hpp"],
 [("destructor of the shared proxy joins workers, or hands the join over when run in a worker","scheduler_shared_proxy.hpp"),("lockable/weak schedulers","any_shared_scheduler_proxy.hpp")])
prop("P07","Queue priorities and routing are respected",
 "With a prioritised queue container, a worker that picks its next job never takes one of a lower priority while one of a higher priority, posted before the pick began, is waiting; within one priority the order of the underlying queue is kept. Jobs posted with a priority (or queue number) go to that queue, out-of-range or zero priorities still run exactly once. A disabled queue's jobs are held back until it is enabled again and then all run.",
 ["schedules","programs","configurations"],
 "for every assignment of priorities (0 and out-of-range included) to jobs posted by several threads while workers run, queues being disabled and enabled concurrently",
 "existing tests use one fixed list of priorities and one worker",
 ["queue/any_queue_container.hpp","scheduler/detail/multi_queue_scheduler_policy.hpp","scheduler/multiqueue_threadpool_scheduler.hpp","scheduler/multiple_thread_scheduler.hpp"],
 [("any_queue_container push/pop position","queue/any_queue_container.hpp"),("enable_queue","queue/any_queue_container.hpp")])
prop("P08","Every queue type behaves atomically under concurrent use",
 "Each queue (lock-free queue, single-producer queue within its contract, lock-free stack, guarded deque, thread-safe list, circular queue) is linearizable under any concurrent mix of push, pop, try_pop and, where supported, stealing: every element pushed is taken exactly once, unchanged, and in the order the queue kind defines. A pop on an empty queue reports emptiness (or waits, for the blocking pop) and an element is never reported missing while it was present during the whole call.",
 ["schedules","histories","configurations"],
 "for every concurrent history of a few threads on each queue type and capacity, lock-free node reuse included",
 "tests exercise queues only through schedulers, with no concurrent history checked against a model",
 ["queue/lockfree_queue.hpp","queue/lockfree_spsc_queue.hpp","queue/lockfree_stack.hpp","queue/guarded_deque.hpp","queue/threadsafe_list.hpp","queue/circular_queue.hpp","queue/any_queue.hpp"],
 [("push/pop/try_pop/try_steal implementations","queue/*.hpp")])
prop("P09","Reported queue sizes and maximum sizes are accurate",
 "For every queue type that keeps sizes, and for every scheduler over it, the queue size reported while nothing moves equals the number of jobs waiting, and at any time it lies between zero and the number of jobs that could be waiting. The reported maximum size is never below a size that provably was reached nor above the most that could have been waiting at any time since the last reset, and a reset makes it start again.",
 ["schedules","histories","configurations"],
 "for every interleaving of pushes, pops, steals, size queries and resets from several threads",
 "the tests never look at sizes under concurrency; an under-flowing or drifting counter needs a pop overlapping a push",
 ["queue/lockfree_queue.hpp","queue/guarded_deque.hpp","queue/any_queue_container.hpp","scheduler/detail/single_queue_scheduler_policy.hpp","scheduler/detail/multi_queue_scheduler_policy.hpp"],
 [("size policies increase/decrease","queue/lockfree_queue.hpp"),("get_queue_size/get_max_queue_size/reset_max_queue_size","scheduler/detail/*_queue_scheduler_policy.hpp")])
prop("P10","Interrupting a job affects that job only",
 "interrupt() on an interruptible post stops that job if it has not finished: if it has not started it never runs, if it is running it gets an interruption at its next interruption point, and if it already finished nothing happens. No other job ever observes that interruption, its future or callback is completed as interrupted (or with the result it had already produced), and the worker thread goes on serving jobs. A callback runs at most once; interrupting a job that waits for a continuation interrupts the tasks of that continuation only.",
 ["schedules","programs","fault_sequences"],
 "for interrupts issued at every point relative to the job being queued, started, running, finishing, and to other jobs of the same worker",
 "tests interrupt at a moment chosen with sleeps or barriers; the interesting moments are between completion of the job and the state change, and the next job on that worker",
 ["scheduler/detail/interruptible_job.hpp","scheduler/detail/interrupt_state.hpp","post.hpp"],
 [("interrupt_state::interrupt/complete","scheduler/detail/interrupt_state.hpp"),("interruptible_job::operator()","scheduler/detail/interruptible_job.hpp")])
prop("P11","Callback continuations complete exactly once with every subtask's result",
 "A continuation over subtasks (create_callback_continuation, with fixed or run-time many subtasks, nested to any depth) calls its completion exactly once, after every subtask finished, with each subtask's own value or exception in its own position, and the top-level task's result is delivered exactly once to the waiting future or callback. This holds whichever worker finishes last, when subtasks complete immediately, and when any of them fails.",
 ["schedules","programs","fault_sequences"],
 "for every tree of subtasks, every interleaving of their completion and every subset that fails",
 "the last-finisher race and completion during construction are decided by timing; tests have fixed trees and mostly succeed",
 ["continuation_task.hpp","detail/continuation_impl.hpp","callable_any.hpp"],
 [("callback_continuation_impl ready counter and task done callbacks","detail/continuation_impl.hpp")])
prop("P12","Future-based continuations and timeouts complete exactly once",
 "A continuation created over futures (create_continuation and its timed variants) completes exactly once with each future's own value or exception in its position. A timed continuation completes as soon as all subtasks are ready or, at the latest, at the first check after its timeout, in which case the finished subtasks keep their results and the others are reported as not ready; without a timeout it always waits for all.",
 ["schedules","programs","fault_sequences"],
 "for every order and delay of subtask completion relative to the timeout, with failing subtasks and slow threads",
 "real-time sleeps in the tests only sample widely separated orders",
 ["continuation_task.hpp","detail/continuation_impl.hpp"],
 [("continuation polling and timeout state","detail/continuation_impl.hpp")])
prop("P13","Continuation combinators forward the right values and every exception",
 "then, if_then_else, if_/else_if/else_, all_of, any_of and invoke complete exactly once: then feeds the first result to its functor; the conditional forms run exactly the selected branch; all_of delivers all values in position; any_of delivers the value of one of its members that finished and fails only if all of them fail; invoke applies the functor to the values. If a contained continuation, condition, branch or functor fails, the outer continuation completes exactly once with that exception (one of them if several fail), and never hangs, crashes or reports success.",
 ["schedules","programs","fault_sequences"],
 "for every placement of failures in the combined pieces and every order in which they complete on several workers",
 "the tests combine succeeding pieces, or one failing piece, on one schedule",
 ["algorithm/then.hpp","algorithm/if_then_else.hpp","algorithm/if_else.hpp","algorithm/all_of.hpp","algorithm/any_of.hpp","algorithm/invoke.hpp","algorithm/parallel_invoke.hpp"],
 [("on_done chaining of inner continuations","algorithm/*.hpp")])
prop("P14","Element-wise parallel algorithms equal their sequential versions",
 "parallel_for, for_each, transform, generate, fill, iota, copy, copy_if, move, replace, replace_copy, remove_copy, reverse, swap_ranges, placement and the scans and partial sums produce exactly the result of the sequential algorithm for any range length, cutoff and number of workers. The functor is applied exactly once to every element (never outside the range, never concurrently to the same element), and the continuation completes only after all elements are done, its effects being visible to the receiver.",
 ["schedules","inputs","configurations"],
 "for every range length (0 and 1 included), cutoff (1 to larger than the range), worker count, iterator or container or continuation input, and every interleaving of the split tasks",
 "tests use a few large fixed ranges and cutoffs; split boundaries and early completion are input and schedule dependent",
 ["algorithm/parallel_for.hpp","algorithm/parallel_for_each.hpp","algorithm/parallel_transform.hpp","algorithm/parallel_generate.hpp","algorithm/parallel_copy.hpp","algorithm/parallel_copy_if.hpp","algorithm/parallel_move.hpp","algorithm/parallel_replace.hpp","algorithm/parallel_reverse.hpp","algorithm/parallel_swap_ranges.hpp","algorithm/parallel_scan.hpp","algorithm/parallel_partial_sum.hpp","algorithm/detail/safe_advance.hpp"],
 [("recursive split at cutoff and join via callback continuation","algorithm/parallel_*.hpp")])
prop("P15","Parallel reductions, counts, queries and searches equal the sequential ones",
 "parallel_reduce, count, inner_product, extremum, all_of/any_of/none_of, equal, mismatch, lexicographical_compare, adjacent_find, is_sorted, is_partitioned, find_all, find_first_of, find_end, search and search_n return what the sequential algorithm returns for the same input, for any range length, cutoff and worker count. In particular matches or boundaries straddling two sub-ranges are found, first/last matches are the first/last ones, and non-commutative (but associative) reductions combine in range order.",
 ["schedules","inputs","configurations"],
 "for every input shape (empty, one element, match at every split boundary), cutoff, worker count and task interleaving",
 "tests use one or two fixed inputs, where matches rarely sit on a split boundary",
 ["algorithm/parallel_reduce.hpp","algorithm/parallel_count.hpp","algorithm/parallel_inner_product.hpp","algorithm/parallel_extremum.hpp","algorithm/parallel_all_of.hpp","algorithm/parallel_equal.hpp","algorithm/parallel_mismatch.hpp","algorithm/parallel_lexicographical_compare.hpp","algorithm/parallel_adjacent_find.hpp","algorithm/parallel_is_sorted.hpp","algorithm/parallel_is_partitioned.hpp","algorithm/parallel_find_all.hpp","algorithm/parallel_find_first_of.hpp","algorithm/parallel_find_end.hpp","algorithm/parallel_search.hpp","algorithm/parallel_search_n.hpp"],
 [("combination of sub-range results in on_done","algorithm/parallel_*.hpp")])
prop("P16","Parallel sorting, partitioning and merging give a correct arrangement",
 "parallel_sort, stable_sort and their in-place and moved forms, quicksort, partial_sort, nth_element, merge, partition, stable_partition, partition_copy and unique leave in place (or return) exactly a permutation - or the defined subset - of the input elements, arranged as the sequential algorithm guarantees, stable where the name says so. No element is lost, duplicated or left in a temporary buffer, for any input, cutoff and worker count.",
 ["schedules","inputs","configurations"],
 "for every input shape (sorted, reversed, many duplicates, tiny), cutoff, worker count and task interleaving",
 "tests use large pseudo-random arrays on one schedule; duplicates, stability and split boundaries are barely covered",
 ["algorithm/parallel_sort.hpp","algorithm/parallel_sort_inplace.hpp","algorithm/parallel_quicksort.hpp","algorithm/parallel_partial_sort.hpp","algorithm/parallel_nth_element.hpp","algorithm/parallel_merge.hpp","algorithm/parallel_partition.hpp","algorithm/parallel_stable_partition.hpp","algorithm/parallel_partition_copy.hpp","algorithm/parallel_unique.hpp"],
 [("recursive sort/merge with buffer flips","algorithm/parallel_sort.hpp"),("parallel partition and swap phases","algorithm/parallel_partition.hpp")])
prop("P17","A functor that throws inside a parallel algorithm fails that algorithm only",
 "When user code called by a parallel algorithm throws on some elements, the algorithm's continuation completes exactly once, after no task of it touches the range any more, and reports one of the exceptions that were thrown; if nothing throws it never reports an exception. The failure neither hangs the caller nor terminates the process, and the pool and other algorithms running on it are unaffected.",
 ["schedules","inputs","fault_sequences"],
 "for every algorithm, every subset of element indexes that throw, every cutoff and interleaving",
 "the tests have at most one throwing case per algorithm, single position, single schedule",
 ["algorithm/parallel_for.hpp","algorithm/parallel_reduce.hpp","algorithm/parallel_sort.hpp","algorithm/parallel_transform.hpp","continuation_task.hpp","detail/continuation_impl.hpp"],
 [("exceptions stored in expected and merged by on_done","algorithm/parallel_*.hpp")])
prop("P18","Timers fire or are cancelled exactly once, on time, in the servant's thread",
 "Every asynchronous wait on a timer invokes its callback exactly once - with no error not before the timer's delay has elapsed, or with an abort error if the timer was cancelled, re-armed or destroyed first - in the thread of the servant that asked for it, and never after that servant was destroyed. Once its delay has elapsed and the threads run, the callback comes within bounded time, while the timer's scheduler lives.",
 ["schedules","crash_points","fault_sequences"],
 "for every interleaving of expiry, cancellation, timer destruction and servant destruction, with late clocks and slow threads",
 "real clocks and sleeps: expiry and cancel never actually race in the tests",
 ["extensions/asio/asio_deadline_timer.hpp","extensions/asio/asio_scheduler.hpp","trackable_servant.hpp"],
 [("async_wait / safe callback of the timer proxy","extensions/asio/asio_deadline_timer.hpp")])
prop("P19","The asio scheduler runs every posted handler exactly once",
 "Jobs posted to an asio scheduler - with an explicit or implicit io_service selection, interruptible or not, from any thread or from its own handlers - run exactly once, in one of its worker threads, and in posting order per poster when the selected service has one thread. Destroying the scheduler runs what was accepted before and then ends its threads; throwing handlers do not stop it.",
 ["schedules","programs","fault_sequences"],
 "for every interleaving of posts, handlers, throwing handlers and destruction, for one or more services",
 "tests post a few handlers on one schedule",
 ["extensions/asio/asio_scheduler.hpp"],
 [("io_service selection, run loop and destruction","extensions/asio/asio_scheduler.hpp")])
prop("P20","Composite schedulers route correctly and idle pools steal pending work",
 "A job posted to a composite scheduler with sub-pool number n runs exactly once, in sub-pool n or, when stealing is possible, in a member that steals from it; number 0 or out of range means any member. With stealing pools a job never waits forever while some member pool that may steal has an idle worker, even if its own pool's workers are all blocked or it has none. Destroying the composite loses no job.",
 ["schedules","programs","configurations"],
 "for every set of member pools, blocked workers, posts and shutdown interleavings",
 "tests use one configuration with all workers free",
 ["scheduler/composite_threadpool_scheduler.hpp","scheduler/stealing_threadpool_scheduler.hpp","scheduler/stealing_multiqueue_threadpool_scheduler.hpp"],
 [("find_position / queue sharing for stealing","scheduler/composite_threadpool_scheduler.hpp")])
prop("P21","execute_in_all_threads runs the functor exactly once in every worker",
 "execute_in_all_threads on a scheduler runs a copy of the functor exactly once in each of its (permanent) worker threads, whatever other jobs are running or queued, and returns one future per thread, each of which becomes ready when that thread has run it - with the exception if it threw. A thread an I/O pool adds later runs it before its first job.",
 ["schedules","configurations","fault_sequences"],
 "for every scheduler type and thread count, with normal work, throwing functors and shutdown interleaved",
 "the single test runs it on idle pools",
 ["scheduler/threadpool_scheduler.hpp","scheduler/single_thread_scheduler.hpp","scheduler/multiqueue_threadpool_scheduler.hpp","scheduler/stealing_threadpool_scheduler.hpp","scheduler/composite_threadpool_scheduler.hpp","extensions/asio/asio_scheduler.hpp"],
 [("private queue per worker","scheduler/threadpool_scheduler.hpp")])
prop("P22","Diagnostics account for every named job exactly once with consistent times",
 "With loggable jobs, every named job that ran has exactly one diagnostic entry under its own name, with post time <= start time <= finish time and with the failed or interrupted mark it deserves; no other job is listed. Clearing the diagnostics removes the finished entries only, and reading them concurrently is safe and never invents, loses or merges entries. The subtasks of an algorithm given a task name are listed under that name (possibly extended; the workers of parallel_partition under their own). (A job skipped or interrupted before it ran may be listed once, marked interrupted if it was interrupted.)",
 ["schedules","programs","fault_sequences"],
 "for every interleaving of jobs (also failing and interrupted ones), queries and clears",
 "tests query diagnostics after everything is idle",
 ["diagnostics/default_loggable_job.hpp","diagnostics/diagnostics_table.hpp","job_traits.hpp","scheduler_diagnostics.hpp","diagnostics/diagnostic_item.hpp"],
 [("job_traits::add_diagnostic / set_posted/started/finished times","job_traits.hpp"),("diagnostics_table map guarded by a mutex","diagnostics/diagnostics_table.hpp")])
prop("P23","The I/O pool grows and shrinks within its bounds and loses no job",
 "An I/O thread pool runs every posted job exactly once, never runs more jobs at once than its maximum number of threads, grows up to that maximum when its threads are busy and more than one job is waiting at a post, and gives surplus threads back once idle while keeping its minimum. Destroying it runs the accepted jobs and joins every thread it ever started; a failing thread creation loses no job that another thread can run.",
 ["schedules","programs","fault_sequences"],
 "for every interleaving of posts, blocking jobs, thread growth and expiry, and destruction",
 "one test with sleeps; growth, expiry and shutdown races are never sampled",
 ["scheduler/io_threadpool_scheduler.hpp"],
 [("thread creation on post, idle expiry and joining","scheduler/io_threadpool_scheduler.hpp")])
prop("P24","Published events reach every live subscriber exactly once, in its own thread",
 "An event published on a topic reaches every subscription to that event and topic that was in force when it was published exactly once, in the thread where the subscriber subscribed, in the publisher's order per publisher, and no other subscription. After unsubscribing, or once the subscribing servant is destroyed, no further event is delivered to it, while other subscribers - also those sharing its thread - keep receiving theirs.",
 ["schedules","histories","crash_points"],
 "for every interleaving of publish, subscribe, unsubscribe and servant destruction in several schedulers",
 "tests publish a fixed handful of events with fixed subscribers",
 ["notification/local_subscription.hpp","notification/notification_proxy.hpp","notification/topics.hpp","trackable_servant.hpp"],
 [("thread-local subscription tables and forwarding to other schedulers","notification/local_subscription.hpp")])
prop("P25","The asynchronous vector behaves like a vector, also when elements throw",
 "Any sequence of operations on asynchronous::vector (construct, assign, copy, move, push, emplace, insert, erase, resize, reserve, shrink, swap, clear, merge, comparison, access) leaves it with the same contents, size and observable results as a standard vector, for any cutoff and worker count. Every element is constructed and destroyed exactly once, with no leak or access after destruction, also when constructing or assigning an element in the vector's storage throws, in which case the exception reaches the caller; a push_back, emplace_back, reserve, resize or shrink_to_fit which fails leaves the contents unchanged.",
 ["schedules","histories","fault_sequences"],
 "for every operation history, cutoff, worker count, interleaving of the parallel parts, and placement of throwing element operations",
 "tests run each operation once on large ints-like elements with no failure",
 ["container/vector.hpp","container/algorithms.hpp","algorithm/parallel_placement.hpp"],
 [("parallel placement construction/destruction","algorithm/parallel_placement.hpp")])
prop("P26","TCP jobs complete at most once and are lost only with their connection",
 "A job posted to a TCP-serving pool is executed by at most one client or local worker, and its poster is told at most one outcome: the value or exception of that job, or a broken promise when the pool dies first. This holds for any fragmentation and delay of messages, any number of clients, jobs stolen from a pool on behalf of another server's clients, and tasks which split themselves into stealable parts. Malformed messages, duplicate, late or unknown results and disconnections never crash the server or a client and never affect another job. A client whose server breaks the protocol (garbage, impossible lengths, cut, doubled, undecodable or unknown jobs, disconnections) answers every job it got once, with an exception if the job cannot be decoded, and keeps asking for work. As long as connections hold and some client keeps asking for work, every job completes, also if its task cannot be started or throws; after a lost connection a client connects again, and only jobs which had been handed over on the lost connection may stay pending. Servers and clients can be destroyed at any time.",
 ["schedules","fault_sequences","crash_points"],
 "for every fragmentation, delay, connection reset, client loss, reconnection and shutdown sequence",
 "the tests run no job server at all; a real network hardly ever fragments, delays or resets at the interesting point",
 ["scheduler/tcp/tcp_server_scheduler.hpp","scheduler/tcp/simple_tcp_client.hpp","scheduler/tcp/detail/job_server.hpp","scheduler/tcp/detail/server_connection.hpp","scheduler/tcp/detail/client_request.hpp"],
 [("job_server request/response bookkeeping","scheduler/tcp/detail/job_server.hpp")])
prop("P27","What travels with a task is moved, destroyed once, promptly, at home",
 "Whatever a posted task carries (captured objects, callback, result, arguments of a servant's member) is moved and never copied by post_future, post_callback and their interruptible and continuation forms, is still there when the task or callback runs, and is destroyed exactly once: soon after the outcome is known while the pool goes on, and at the latest when the pool is gone, also if the task throws, is interrupted, skipped or drained at shutdown. Work posted by a servant is destroyed, with its callback, in the thread of the servant's scheduler as long as that scheduler lives, also if the servant is gone. The subtasks, functors and moved ranges of the parallel algorithms do not outlive the algorithm, nor does a range die before the subtasks working on it.",
 ["schedules","crash_points","fault_sequences"],
 "for every interleaving of completion, exception, interruption, destruction of the servant and shutdown of the pools",
 "tests do not track the lifetime of captured state, and the wrong-thread, double or missing destruction needs a race",
 ["post.hpp","checks.hpp","callable_any.hpp","trackable_servant.hpp","servant_proxy.hpp","detail/continuation_impl.hpp","scheduler/detail/interruptible_job.hpp","algorithm/detail/parallel_sort_helper.hpp"],
 [("callback functor moved back to the servant thread","post.hpp"),("range owned by the algorithm","algorithm/parallel_for.hpp")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
