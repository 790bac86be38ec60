#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=m, where=files[0]) for m in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state])))

prop("C01", "Coroutine mutex: mutual exclusion, visibility, no lost wakeup",
 "At most one coroutine owns a mutex at any time, and everything written by an owner before it unlocks is visible to the next owner, whether the lock was obtained by lock(), scoped_lock() or try_lock(). "
 "An unlock with coroutines waiting hands the ownership to exactly one of them, so no waiter stays suspended while the mutex is free; try_lock() never blocks and fails only while the mutex is owned. "
 "Unlocking a mutex nobody owns is reported by an exception and leaves it usable; a scoped lock releases the mutex it holds exactly once, also when it was moved, assigned to or unlocked early.",
 ["schedules","programs"], "every interleaving of lock / scoped_lock / try_lock / unlock by any number of coroutines on any threads, every program of such calls",
 "Tests count to a total on a pool a few times on one strongly ordered CPU; the window between reading the state and enqueueing, spurious CAS failures and weakened memory orders are not reachable on demand.",
 ["include/coro/mutex.hpp","src/mutex.cpp","include/coro/detail/awaiter_list.hpp"],
 ["single atomic word holding unlocked / locked / waiter stack, CAS loops in await_suspend and unlock","ownership transfer by popping one waiter and resuming it","acquire-release on every state change"],
 [("m_state","unlocked marker, locked without waiters, or head of the waiter stack","include/coro/mutex.hpp")])

prop("C02", "Event: every waiter released exactly once, in the requested order",
 "A coroutine awaiting an event resumes exactly once, only after the event has been set, and sees everything the setter wrote before setting it; when the event is already set it does not suspend. "
 "Setting releases every coroutine that was waiting at that moment - directly or through the given executor - in last-in-first-out order by default and in first-in-first-out order when asked for; none is left behind and none is resumed twice, also when set() calls race or when the executor has been shut down and takes nobody (the setter resumes them itself then). "
 "reset() only returns a set event to not-set, and never drops or releases waiters.",
 ["schedules","programs"], "every interleaving of await / set / reset / is_set, both orders, with and without an executor",
 "Tests exercise a fixed handful of sequential set/await orders; the race of an arriving waiter with set() and reset() needs specific schedules.",
 ["include/coro/event.hpp","src/event.cpp","include/coro/detail/awaiter_list.hpp"],
 ["atomic exchange to the set marker takes the whole waiter list","waiter re-checks the state in its enqueue CAS loop"],
 [("m_state","not set / waiter list / set","include/coro/event.hpp")])

prop("C03", "Latch: waiters released exactly when the count is exhausted",
 "Coroutines awaiting a latch stay suspended until the count-downs performed add up to at least the initial count, and then each of them resumes exactly once and sees everything done before those count-downs. "
 "No schedule of concurrent count-downs releases a waiter early or leaves one suspended after the count is exhausted, with or without an executor for the resumption, also one that has been shut down. "
 "A latch created with a count of zero or less is ready at once, and remaining() and is_ready() never contradict the count-downs that have completed.",
 ["schedules","programs","inputs"], "every interleaving of count_down(n) and awaits, every initial count and n, including overshoot",
 "Tests count down one by one in a fixed order.",
 ["include/coro/latch.hpp","include/coro/event.hpp"],
 ["atomic fetch_sub decides which caller crosses zero","event released by that caller"],
 [("m_count","count-downs still missing","include/coro/latch.hpp")])

prop("C04", "Semaphore: permits are conserved and never stranded",
 "The number of permits held never exceeds what the starting value and the releases allow: each successful acquire() or try_acquire() consumes exactly one permit, each release() provides exactly one - to a waiting coroutine if there is one - and is ignored when the value already is the maximum. "
 "No coroutine stays suspended in acquire() while a permit is available or after shutdown; a waiter is resumed exactly once. "
 "After shutdown every waiting and later acquire() reports shutdown, and an acquire() that reports success does hold a permit and sees what the releaser did before.",
 ["schedules","programs","histories"], "every interleaving of acquire / try_acquire / release / shutdown, every starting value and maximum",
 "Tests run fixed producer/consumer counts on a pool; the acquire-versus-release and release-versus-shutdown windows are schedule dependent.",
 ["include/coro/semaphore.hpp","src/semaphore.cpp"],
 ["internal mutex serialises acquire and release","hand-off of the permit to a popped waiter","shutdown pops all waiters"],
 [("m_counter","permits available","include/coro/semaphore.hpp"),("m_acquire_waiters","suspended acquirers","include/coro/semaphore.hpp")])

prop("C05", "Shared mutex: readers-writer exclusion without writer starvation",
 "An exclusive holder of a shared mutex excludes every other holder, any number of shared holders may coexist, and whatever an exclusive holder wrote is visible to every later holder (as are a shared holder's reads to the next writer). "
 "Waiters are served in arrival order: while a writer waits, a later reader does not acquire before it; a release that empties the mutex wakes the writer at the head, or the whole run of readers at the head. "
 "No waiter stays suspended when it could hold the lock, also when the executor given to the mutex no longer accepts work, and try_lock()/try_lock_shared() never grant an incompatible hold and, with no other call in progress, fail only because of one; a scoped task runs with the lock held, which is released also when it throws.",
 ["schedules","programs"], "every interleaving of lock / lock_shared / try_* / unlock / unlock_shared and the scoped forms, every mix of readers and writers",
 "Tests use a few fixed reader/writer scripts and never vary the schedule of unlock against arrival.",
 ["include/coro/shared_mutex.hpp"],
 ["internal mutex around the state","head/tail waiter list plus a count of waiting writers that holds back later readers","readers resumed through the executor"],
 [("m_state","unlocked / shared / exclusive","include/coro/shared_mutex.hpp"),("m_exclusive_waiters","waiting writers","include/coro/shared_mutex.hpp"),("m_shared_users","current shared holders","include/coro/shared_mutex.hpp")])

prop("C06", "Queue: FIFO delivery, nothing lost, duplicated or stranded",
 "Every element whose push was reported as produced is delivered to at most one pop() or try_pop(), elements leave in the order in which they were accepted, and none is invented, duplicated, or lost while consumers keep popping before a shutdown. "
 "A pop() never stays suspended while an element is available or once the queue is stopped; try_pop() never suspends and its failure reason is truthful. "
 "After shutdown pushes are refused and waiting and later pops report stopped; a draining shutdown refuses pushes, lets consumers take every accepted element first and then stops.",
 ["schedules","programs","histories"], "every interleaving of push / emplace / pop / try_pop / empty / size / shutdown / shutdown_drain by any number of producers and consumers",
 "Tests push and pop fixed counts; hand-off races, shutdown races and draining against a concurrent shutdown depend on the schedule.",
 ["include/coro/queue.hpp"],
 ["internal mutex around the element queue and the waiter list","direct hand-off of an element to a popped waiter","running/draining/stopped state"],
 [("m_elements","accepted, not yet taken elements","include/coro/queue.hpp"),("m_waiters","suspended consumers","include/coro/queue.hpp"),("m_running_state","running / draining / stopped","include/coro/queue.hpp")])

prop("C07", "Ring buffer: bounded FIFO, nothing lost, duplicated or stranded",
 "A ring buffer never holds more than its capacity; every element reported as produced is consumed at most once and in the order in which it entered the buffer, and is not lost while consumers keep consuming before a shutdown. "
 "A produce that reports notified or stopped did not store its element; a producer never stays suspended while there is room, nor a consumer while there are elements, and a notification or shutdown wakes every waiter of the kind it names, each exactly once, with the truthful result. "
 "A draining shutdown refuses new elements, lets every stored element be consumed and then stops; after a stop waiting and later calls report stopped.",
 ["schedules","programs","histories"], "every interleaving of produce / consume / notify_producers / notify_consumers / shutdown / shutdown_drain, every capacity, in particular with the buffer full or empty and waiters on both sides",
 "Tests run fixed element counts; waiter hand-off, notification of waiters and shutdown with parked producers need specific histories.",
 ["include/coro/ring_buffer.hpp"],
 ["internal mutex around front/back/used","parked operations resumed by the opposite side","running/draining/stopped state"],
 [("m_used","stored elements","include/coro/ring_buffer.hpp"),("m_produce_waiters","parked producers","include/coro/ring_buffer.hpp"),("m_consume_waiters","parked consumers","include/coro/ring_buffer.hpp")])

prop("C08", "Condition variable: no lost notification, lock held on return",
 "A wait releases its lock for the duration of the wait and returns only with the lock owned again by the waiting coroutine; a predicate wait returns normally only with a true predicate, and a stop-token wait returns with a false predicate only after a stop was requested. "
 "A notify that follows a waiter's release of the lock is never lost: notify_one() wakes at most one plain waiter and at least one if any was waiting, notify_all() wakes every plain waiter and every waiter whose predicate has become true, and nobody is resumed twice; a notification through an executor that has been shut down is made on the notifying thread. "
 "A timed wait returns exactly once, reports timeout only once its time has passed, and a waiter that already timed out does not consume a notify_one() meant for others.",
 ["schedules","programs"], "every interleaving of wait / predicate wait / stop-token wait / timed wait, notify_one, notify_all (direct and through an executor) and predicate changes under the lock",
 "Tests notify a small number of waiters in a fixed order; a notify arriving while another notifier evaluates a predicate, or racing with a timeout, is not exercised.",
 ["include/coro/condition_variable.hpp","src/condition_variable.cpp"],
 ["waiter is enqueued before the lock is released","notifier re-acquires the lock on behalf of the waiter and re-enqueues it if not ready","per timed wait controller decides between notify and timeout exactly once"],
 [("m_awaiters","suspended waiters","include/coro/condition_variable.hpp")])

prop("C09", "Thread pool: each accepted task runs exactly once; shutdown is clean",
 "Every coroutine handed to a thread pool and accepted is resumed exactly once, on one of its worker threads, by at most one thread at a time, and sees what the submitting thread did before; tasks start in the order in which they were accepted, and none waits while a worker is idle. "
 "A submission reported as refused is never executed, null handles are never executed or counted, and the reported size returns to zero once everything accepted has finished. "
 "shutdown() returns only after every accepted task has run and the workers have stopped, refuses later submissions, may be called from several threads and more than once, and never deadlocks.",
 ["schedules","programs","histories"], "every interleaving of schedule / yield / resume / range resume / spawn_detached / shutdown from inside and outside the pool, any number of workers",
 "Tests run tasks to completion before shutting down; a submission racing with shutdown or with a worker going to sleep is a matter of schedule.",
 ["include/coro/thread_pool.hpp","src/thread_pool.cpp","src/detail/task_self_deleting.cpp"],
 ["mutex protected FIFO and condition variable","shutdown flag published under the mutex, workers drain before they exit"],
 [("m_queue","accepted, not started","include/coro/thread_pool.hpp"),("m_size","accepted, not finished","include/coro/thread_pool.hpp"),("m_shutdown_requested","shutdown flag","include/coro/thread_pool.hpp")])

prop("C10", "Task group and joinable spawn: join returns after every task",
 "Awaiting a task group - or a joinable spawn - resumes only once every task started on it before has finished, and does resume, exactly once, when they have; the awaiter then sees everything those tasks did. "
 "Each started task runs exactly once on the executor, a task the executor refuses is reported as not started and not waited for, and size() is the number of tasks started and not finished. "
 "A group may be reused after it became empty, an empty group does not suspend its awaiter, and its destruction waits for running tasks; tasks given to its constructor are started like others, and a group cannot be made without an executor.",
 ["schedules","programs","histories"], "every interleaving of start, completion on worker threads, awaiting, reuse, destruction and executor shutdown",
 "Tests start a batch and await it once; completion of the last task racing with a new start or with destruction is not controlled.",
 ["include/coro/task_group.hpp","src/thread_pool.cpp","src/scheduler.cpp","include/coro/detail/task_self_deleting.hpp"],
 ["atomic count of live tasks","event set by the task that brings the count to zero and reset by start"],
 [("m_size","tasks started and not finished","include/coro/task_group.hpp"),("m_on_empty_event","set iff no task is running","include/coro/task_group.hpp")])

prop("C11", "Scheduler: every scheduled or spawned coroutine runs exactly once",
 "Every coroutine that schedules or yields on a scheduler, or is handed to it by resume() or a spawn, runs exactly once per submission, never on two threads at a time, and sees what happened before the submission; inline execution keeps submission order and runs on the event loop thread, pool execution on a pool thread. "
 "No wake-up is lost: the event loop never sleeps over a pending submission, in dedicated and in manual mode. "
 "shutdown() lets everything accepted finish, refuses later submissions (reported as refused and never run), is idempotent and always returns when called from outside the scheduler; the size returns to zero when all is done.",
 ["schedules","programs","histories","configurations"], "every interleaving of schedule / yield / resume / spawn_detached / spawn_joinable / process_events / shutdown, inline and pool execution, dedicated and manual event loop",
 "Tests submit a fixed number of tasks and wait; the wake-up pipe handshake and submissions racing with shutdown are schedule dependent.",
 ["include/coro/scheduler.hpp","src/scheduler.cpp"],
 ["lock-free submission list plus a triggered flag and a pipe to wake the event loop","live-task count gating loop exit"],
 [("m_scheduled_ops","submissions not yet taken by the loop","include/coro/scheduler.hpp"),("m_schedule_pipe_triggered","wake-up already requested","include/coro/scheduler.hpp"),("m_size","live tasks","include/coro/scheduler.hpp")])

prop("C12", "Timers: never early, never lost, earliest deadline first",
 "A coroutine that asks to be resumed after a delay or at a point in time resumes exactly once, never before the requested time, and always as soon as the event loop runs after it; a delay of zero or less, or a time in the past, acts as a plain yield. "
 "Timers expire in deadline order (observable where one thread resumes them) irrespective of the order in which they were requested, equal deadlines do not displace each other, and adding or removing a timer never delays or loses another one. "
 "Running timers keep the scheduler alive through shutdown until they have fired.",
 ["schedules","inputs","histories"], "every set of deadlines (down to the nanosecond, ties, past, far future), every interleaving of requests with the event loop and with other timers' expiry",
 "Tests sleep for a few fixed round durations of real time and check a lower bound of milliseconds.",
 ["include/coro/scheduler.hpp","src/scheduler.cpp","src/detail/io_notifier_epoll.cpp","src/detail/timer_handle.cpp"],
 ["ordered multimap of deadlines under a mutex, one kernel timer armed for the first one","expired entries collected under the mutex and the timer re-armed"],
 [("m_timed_events","pending deadlines","include/coro/scheduler.hpp")])

prop("C13", "Poll: exactly one truthful outcome per poll",
 "A poll on a file descriptor completes exactly once: readable or writable is reported only if the descriptor was ready for that operation, timeout only once the timeout has elapsed, closed or error only on such a condition - and, to those who read, not before what has been written - or for a descriptor that cannot be watched at all, cancelled only after its stop source was signalled. "
 "A poll whose descriptor is ready, whose timeout has passed or whose stop source was signalled never stays suspended; when several causes coincide exactly one is reported and the others leave no trace. "
 "After completion the descriptor and the stop token can be polled again - by one poll at a time - with the same guarantees, and polls of different descriptors never affect each other.",
 ["schedules","inputs","histories"], "every order and coincidence of readiness, hang-up, timeout and cancellation against the steps of the event loop, sequences of polls on the same descriptor",
 "Tests wait for one cause at a time with wide margins of real time; coincidences within one event-loop turn cannot be arranged.",
 ["include/coro/scheduler.hpp","src/scheduler.cpp","src/detail/io_notifier_epoll.cpp","include/coro/detail/poll_info.hpp","include/coro/poll.hpp"],
 ["one-shot registrations of the descriptor and of the cancel trigger, removed by the winner","processed flag per poll, timer entry removed by an event and registration removed by a timeout"],
 [("poll_info","one pending poll: descriptor, operation, timer position, outcome","include/coro/detail/poll_info.hpp")])

prop("C14", "sync_wait: blocks until done, returns the outcome, wherever it completes",
 "sync_wait() returns only after the awaited operation completed, on whichever thread that happens, always returns once it has, and everything done by the operation is visible to the caller. "
 "It yields exactly the value, reference or exception the operation produced - including move-only and non-movable values and the very object for references. "
 "Independent sync_wait() calls on different threads, also nested ones, do not disturb each other.",
 ["schedules","programs","inputs"], "every interleaving of the waiting thread going to sleep with the completing thread, every kind of result",
 "The wake-up race is exercised only by luck (the repository documents a past deadlock found in production).",
 ["include/coro/sync_wait.hpp","src/sync_wait.cpp"],
 ["flag set and notified under a mutex; the waiter sleeps on a condition variable with the flag as predicate"],
 [("m_set","the operation completed","include/coro/sync_wait.hpp")])

prop("C15", "when_all: completes once, after all, with each result in place",
 "Awaiting when_all() starts every given operation exactly once and resumes the awaiter exactly once, after the last of them completed on whatever thread, with everything they did visible. "
 "The results come back in argument order, each one being that operation's own value or exception, and an exception in one neither cancels nor hides the others. "
 "This holds for any number of operations, none included, and if they all complete synchronously.",
 ["schedules","programs","inputs"], "every interleaving of completions with each other and with the awaiter's suspension, every mix of results, the tuple and the range form",
 "Tests complete tasks in a handful of orders; the race between the last completion and the awaiter suspending is schedule dependent.",
 ["include/coro/when_all.hpp"],
 ["latch initialised to count + 1, the last decrement resumes or declines to suspend"],
 [("m_count","operations outstanding plus the awaiter","include/coro/when_all.hpp")])

prop("C16", "when_any: the first completion is returned, once",
 "Awaiting when_any() starts every given operation and resumes the awaiter exactly once with the result of the operation that completed first - one that really completed, at its own position in the tuple form; later completions change nothing and touch no state of the awaiter, even after it is gone. "
 "The remaining operations keep running to their end unless they observe the stop source, on which a stop is requested once the first has completed. "
 "This holds when several operations complete simultaneously or synchronously, for any number of them but none.",
 ["schedules","programs"], "every interleaving of completions, including simultaneous ones and the awaiter's frame being destroyed before late completions",
 "Tests use sleeps that make one task finish far ahead of the others.",
 ["include/coro/when_any.hpp"],
 ["atomic first-completed flag won once","event resumes the awaiter","detached controller keeps the losers alive"],
 [("first_completed","a winner was determined","include/coro/when_any.hpp")])

prop("C17", "Task: lazy, runs once, delivers its own result or exception",
 "A task does not run before it is first resumed or awaited, runs its body at most once, and resumes the coroutine that awaits it exactly once, after it completed, with its value, reference or exception. "
 "Moving a task transfers the coroutine, destroying or overwriting one releases its frame and locals exactly once, and is_ready() is true exactly when the task has completed or is empty. "
 "A value asked for before completion is reported as an error and never made up, and chains of awaits of any depth unwind to the right awaiter.",
 ["programs","inputs","histories"], "every program of creation, move, resume, await, result access and destruction over nested tasks of any result kind",
 "Tests exercise single fixed call sequences per result type.",
 ["include/coro/task.hpp","include/coro/invoke.hpp"],
 ["initial suspend, continuation stored on await, symmetric transfer at final suspend","variant of unset / value / exception"],
 [("m_coroutine","owned frame","include/coro/task.hpp"),("m_storage","outcome","include/coro/task.hpp")])

prop("C18", "Generator: lazy sequence delivered exactly as yielded",
 "Iterating a generator produces exactly the values its body yields, in order, each one once, computing nothing ahead of the consumer: the body advances only when the iterator is created or incremented. "
 "The iterator compares equal to the end exactly when the body has finished, an exception thrown by the body surfaces at the begin or increment that ran into it, and yielded references denote the yielded object itself. "
 "Moving or destroying a generator at any point transfers or releases its frame exactly once.",
 ["programs","inputs"], "every program of begin, increment, dereference, comparison, move and early destruction against every body (empty, finite, infinite, throwing at any point)",
 "Tests iterate two fixed generators to the end.",
 ["include/coro/generator.hpp"],
 ["suspend at start and at each yield, address of the yielded value kept in the promise"],
 [("m_value","currently yielded object","include/coro/generator.hpp")])

prop("C19", "TCP: the byte stream arrives intact, results tell the truth",
 "The bytes a TCP peer reads are exactly a prefix of the bytes written to it, in order; the spans returned by partial and full reads and writes account for exactly the bytes transferred, whatever pieces the kernel accepts or delivers. "
 "A full read or write returns ok only when the whole buffer was transferred and otherwise a status naming the real cause - closed, timeout (only after the time has elapsed), reset - together with exactly what was or was not transferred. "
 "connect() and accept() report success only for an established connection, accept hands out each connection once, and a server shutdown releases a pending accept (one reader and one writer at a time on a connection).",
 ["schedules","inputs","fault_sequences"], "every split of the stream by the kernel (short reads and writes, would-block), every order of readiness, timeouts and peer close, every buffer size",
 "Tests send small messages that the kernel transfers in one piece on loopback.",
 ["include/coro/net/tcp/client.hpp","src/net/tcp/client.cpp","include/coro/net/tcp/server.hpp","src/net/tcp/server.cpp","src/net/io_status.cpp","src/net/socket.cpp"],
 ["optimistic call, then poll on would-block, readiness remembered","loop over the remaining span with the remaining timeout"],
 [("m_is_read_ready / m_is_write_ready","socket believed ready","include/coro/net/tcp/client.hpp")])

prop("C20", "UDP: whole datagrams, right sender, truthful status",
 "Each datagram read from a UDP peer is one datagram that was sent to it, read at most once, with its own content (cut only to the size of the buffer) and the sender's address; a write reported ok sent exactly that datagram to exactly that address. "
 "A read on a peer that is not bound is refused, an empty buffer transfers nothing, and a failed call reports the real cause: timeout only after the time has elapsed, would-block never ends a call while there is time left to wait for readiness. "
 "A pending read completes once a datagram arrives (one reader and one writer at a time on a peer).",
 ["schedules","inputs","fault_sequences"], "every order of sends, reads, timeouts and would-block results, every payload and buffer size",
 "Tests exchange a couple of messages in lock step.",
 ["include/coro/net/udp/peer.hpp","src/net/udp/peer.cpp","src/net/io_status.cpp"],
 ["optimistic call, then poll on would-block, readiness remembered"],
 [("m_bound","peer may receive","include/coro/net/udp/peer.hpp")])

prop("C21", "Timed scheduling of a task: outcome or timeout, never both or neither",
 "Scheduling a task with a timeout completes exactly once: with the task's own result if the task finished first, or with a timeout, reported never before the time has elapsed. "
 "It always completes when the time has passed even if the task never finishes, a task that is timed out keeps running unharmed unless it observes the stop source given (on which a stop is then requested), and its late completion has no further effect. "
 "A zero or negative timeout means no time limit.",
 ["schedules","inputs"], "every order and coincidence of task completion and timer expiry, every timeout value, with and without stop source",
 "Tests use sleeps far away from the timeout on either side.",
 ["include/coro/scheduler.hpp","include/coro/when_any.hpp"],
 ["race of the task with a timer task by when_any"],
 [("result","which of the two finished first","include/coro/scheduler.hpp")])

prop("C22", "Default executors are created once and shared by every caller",
 "However many threads ask for the default executor or the default io executor, and however their first calls interleave, exactly one instance of each is created with the options set before, and every caller gets that same, fully constructed instance. "
 "No caller gets a null or half-built executor, and no caller waits for ever. "
 "Work submitted through any of the returned references runs on that instance.",
 ["schedules"], "every interleaving of first and later calls by any number of threads",
 "The instances are process-wide singletons, so a test run can see one interleaving of their creation at most.",
 ["src/default_executor.cpp","include/coro/default_executor.hpp"],
 ["atomic flag won by the creator, pointer published after construction, others wait for it"],
 [("s_default_executor_ptr","published instance","src/default_executor.cpp")])

prop("C23", "Descriptor handles: each descriptor is closed once, by its owner only",
 "Copying, moving, assigning, closing and destroying sockets, clients, servers, peers and stop sources keeps every live handle on a valid descriptor of the same underlying object and releases each descriptor exactly once when its owner is gone, closed or overwritten. "
 "No operation ever closes or uses a descriptor that the library does not own, in particular none that belongs to the rest of the process, nor leaks one - a scheduler or a constructor that throws included. "
 "A moved-from or closed handle is inert: using or destroying it touches no descriptor.",
 ["programs","histories"], "every program of construction, copy, move, assignment (to itself included), close and destruction over handles",
 "Tests never look at the process's descriptor table after copies and moves.",
 ["include/coro/net/socket.hpp","src/net/socket.cpp","src/detail/pipe.cpp","include/coro/detail/pipe.hpp","include/coro/poll.hpp","include/coro/net/tcp/server.hpp","src/net/tcp/client.cpp","src/net/udp/peer.cpp"],
 ["descriptor held by value with -1 as none; dup on copy, exchange on move, close in the destructor"],
 [("m_fd / m_fds","owned descriptors","src/net/socket.cpp, src/detail/pipe.cpp")])

prop("C24", "TLS: truthful handshake, intact bytes, waiting only for what is wanted",
 "connect() and accept() over TLS report connected exactly when this side's handshake completed, on both sides, and otherwise a status that names what happened: handshake failed, timeout only after its time, closed, error. "
 "Bytes sent by successful writes arrive unchanged, in order, without loss or duplication, whatever records, key updates, renegotiations and buffer sizes carry them; partial writes return exactly the unsent rest; end of stream is reported as closed only after the peer said so or went away and every earlier byte was delivered, and failures of one connection never show up as failures of another. "
 "While an operation is pending it waits for exactly the direction the TLS engine asked for - never for the socket when the engine already holds data - so it completes once that is possible; shutting down or destroying a healthy connection sends close_notify once before the descriptor goes. (One operation at a time per connection.)",
 ["schedules","inputs","fault_sequences"], "every interleaving of operations on several connections with every pattern of records, renegotiation, partial delivery, would-block, failures, timeouts and buffer sizes",
 "Tests run one echo over loopback, where every call finds the socket ready and no record needs more than one attempt.",
 ["include/coro/net/tls/client.hpp","src/net/tls/client.cpp","src/net/tls/server.cpp","include/coro/net/tls/server.hpp","src/net/tls/context.cpp","src/net/tls/connection_status.cpp","src/net/tls/recv_status.cpp","src/net/tls/send_status.cpp"],
 ["SSL call, WANT_READ/WANT_WRITE, poll for that, retry with the rest of the time","error queue is per thread and cleared before every SSL call","shutdown once, then free"],
 [("m_tls_info","the TLS engine and its role","include/coro/net/tls/client.hpp"),("m_connect_status","outcome of the handshake","include/coro/net/tls/client.hpp")])

prop("C25", "DNS: every lookup ends once, with the addresses that were found",
 "A lookup of the resolver ends exactly once: with exactly the addresses c-ares found, IPv4 and IPv6, in its order and unaltered, or with an error, which is reported when c-ares failed it or when a socket c-ares waits for cannot be watched, and without such a reason only if the resolver is destroyed. "
 "As long as c-ares waits for a socket that socket is watched for what c-ares wants, c-ares hears at once when it is ready or broken, and after the resolver's poll timeout that time has passed, so no lookup waits for ever for something that has happened. "
 "Destroying a resolver ends its pending lookups with an error and neither a late event nor another resolver's descriptors ever reach a destroyed one; nothing is leaked, a resolver whose channel cannot be made included.",
 ["schedules","inputs","fault_sequences"], "every order of lookups, answers, socket errors, reused descriptors, timeouts and destruction, over several resolvers",
 "Tests look up one name per resolver with a real name server, or none at all without a network.",
 ["include/coro/net/dns/resolver.hpp","src/net/dns/resolver.cpp","src/net/ip_address.cpp","include/coro/net/ip_address.hpp"],
 ["poll task per socket of c-ares, told by the socket state callback","the answer callback sets the lookup's event"],
 [("m_active_sockets","sockets c-ares waits for","include/coro/net/dns/resolver.hpp"),("m_pending_dns_requests","answers outstanding","include/coro/net/dns/resolver.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
prop("C26", "Addresses and status values: exact conversions for every input",
 "For every text, ip_address::from_string() succeeds exactly when the given view - all of it and nothing beyond it - is a textual address of the requested family (dotted decimal; colon hexadecimal with at most one ::, optionally ending in dotted decimal), and then holds that address; otherwise it throws. "
 "to_string() of every address is its canonical text, which parses back to the same address; construction from bytes pads short input with zeros and refuses too long input; comparisons are the total order of family and then bytes. "
 "A socket_address returns exactly the family, address and port it was made of, in the form the system calls expect, whether it was made from a text, an address or by the kernel, and two are equal exactly when these three are. "
 "Every native error and poll outcome maps to the one io_status kind that describes it, keeps the native code, and its predicates and message agree with that kind; each enumeration value has its own name.",
 ["inputs"], "every text, every byte string, every pair of addresses and ports, every error code",
 "Tests convert a handful of well-formed addresses; malformed, compressed, embedded and unterminated texts are unbounded.",
 ["include/coro/net/ip_address.hpp","include/coro/net/socket_address.hpp","src/net/io_status.cpp","src/net/ip_address.cpp","include/coro/net/io_status.hpp","src/net/connect.cpp","src/poll.cpp"],
 ["inet_pton / inet_ntop around a fixed array","sockaddr_storage filled per family","switch over native codes and poll status"])

prop("C27", "coro::invoke: the functor lives as long as its task and its outcome is delivered exactly once",
 "coro::invoke(functor, args...) calls its copy of the functor exactly once, at once, with the given arguments (references refer to the caller's objects for the duration of that call), and returns a lazy task: nothing of the coroutine body the functor returned runs before that task is awaited or resumed. "
 "The functor with all it captured stays alive until that task is destroyed, wherever the task has been moved meanwhile and however often the body suspends. "
 "Awaiting the task completes exactly when the body has completed - never when it merely suspends - and yields its value (also move-only and reference results) or rethrows its exception; an exception thrown by the call of the functor itself is rethrown to whoever awaits the task. Destroying the task at any suspension point releases body and functor exactly once.",
 ["histories", "inputs"], "every result type, number of suspensions, outcome, and every order of resuming, awaiting, moving and destroying the task",
 "Tests only invoke coroutines that never suspend.",
 ["include/coro/invoke.hpp","include/coro/task.hpp"],
 ["invoker coroutine whose frame holds the functor"],
 [("functor parameter of the invoker's frame","keeps captures alive","include/coro/invoke.hpp")])

with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
