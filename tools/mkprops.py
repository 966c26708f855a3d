#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the list is kept here only so that it is easy to edit).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["src/c/"+f if not f.startswith("include") else f for f in files],
        mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    P.append(d)
S="schedules";F="fault_sequences";H="histories";C="configurations";I="inputs";X="crash_points"

# ---------------- thread pool
p("P01","Every accepted thread pool job runs exactly once",
 "Every job accepted by a thread pool is run exactly once, with the argument it was submitted with, by some pool thread, provided the pool is eventually running; a job refused by the non-blocking submit is never run. When a pool is destroyed while jobs are still queued each of those jobs is run at most once, and none runs after destruction has returned.",
 [S,H,F],"every number of threads, queue bound and submitting thread count; every interleaving of submitters, workers, start, stop and destroy; jobs that themselves submit jobs; thread-creation failures and slow workers",
 "The unit tests submit jobs from one thread to a pool under whatever schedule the OS happens to give; lost or repeated jobs need a particular interleaving of two submitters, a worker and a stop or start.",
 ["threadpool.c"],[("job queue and free-job cache handled only under the component lock","threadpool.c:iot_threadpool_add_work_locked, iot_threadpool_thread")],
 [("jobs","number of queued jobs","threadpool.c:iot_threadpool_t"),("front/rear","job queue","threadpool.c:iot_threadpool_t")],["job function invocations"])
p("P02","Pool concurrency and queue bounds hold; submit blocks only when full",
 "At no time do more jobs run concurrently than the pool has threads, and never are more jobs queued than the configured maximum. The non-blocking submit is refused only when the queue is full at some instant during the call, and the blocking submit waits only while the queue is full and returns once a running pool has drained space.",
 [S,H,C],"every thread count and queue bound, any number of concurrent blocking and non-blocking submitters, start and stop at any time",
 "Tests use one submitter and sleeps; over-admission and a submitter that is never woken both need several submitters racing with workers at the bound.",
 ["threadpool.c"],[("full test and queue-space condition broadcast","threadpool.c:iot_threadpool_add_work, iot_threadpool_thread")])
p("P03","Pool runs queued jobs by priority, first-in first-out within a priority",
 "Among the jobs queued when a worker picks one, the pool always picks a job of the highest priority, jobs without priority after all jobs with one, and jobs of equal priority in the order in which they were accepted. A job with a priority runs at that thread priority whenever the system permits the change.",
 [S,H,F],"every multiset and order of priorities, submissions racing with picks, priority changes refused by the operating system",
 "The tests order one fixed set of jobs submitted to a stopped pool; they never race submission with picking, and never refuse the priority change.",
 ["threadpool.c","thread.c"],[("priority insertion","threadpool.c:iot_threadpool_add_work_locked"),("worker priority switch","threadpool.c:iot_threadpool_thread")])
p("P04","Waiting on a pool returns exactly when it has drained, for every waiter",
 "A thread waiting for the pool returns only at a moment when no job is queued and none is running, so all jobs accepted before the wait began have completed. Once the pool has drained and nothing more is submitted, every waiting thread returns, however many are waiting.",
 [S,H],"any number of concurrent waiters and submitters, jobs that submit jobs, spurious wakeups, start and stop during the wait",
 "Tests wait from one thread only, and a missed wakeup shows up only as a hang in a rare interleaving.",
 ["threadpool.c"],[("drained condition","threadpool.c:iot_threadpool_wait, iot_threadpool_thread")],[("work_cond","signalled when queue empty or workers idle","threadpool.c:iot_threadpool_t")])
p("P05","Stopping a pool holds jobs back, starting it resumes all of them",
 "A pool that has not been started or has been stopped begins no further jobs, apart from at most one per worker already picked when the stop took effect, yet keeps accepting work up to its bound. Starting it again runs everything still queued; no stop/start sequence from any threads loses, repeats or reorders jobs or leaves a worker asleep with work queued.",
 [S,H],"every sequence and interleaving of stop, start and submit from several threads",
 "Tests stop and start once, sequentially, with idle workers.",
 ["threadpool.c","component.c"],[("state wait per loop iteration, broadcast on stop and start","threadpool.c:iot_threadpool_thread, iot_threadpool_stop, iot_threadpool_start")])
p("P06","Releasing a pool waits for its workers and frees everything exactly once",
 "Releasing the last reference to a pool, from any thread including one of the pool's own jobs, waits for running jobs, ends every worker thread, and frees all memory exactly once without any thread touching freed memory; earlier releases leave the pool fully usable. The logger reference the pool holds is dropped exactly once.",
 [S,H,F],"every order of reference releases among threads, release from within a job, slow workers, failed thread creations, queued jobs present",
 "Tests release from one thread after a sleep; use after free depends on how slow a worker is compared with a fixed delay.",
 ["threadpool.c"],[("created-thread counter handshake and self-delete hand-over","threadpool.c:iot_threadpool_free")])
p("P07","No queued job waits while a worker is idle",
 "While a pool is started, an accepted job stays queued only as long as every worker thread of the pool is executing another job: whenever the rest of the system can make no progress, either no job is queued or all workers run jobs. So jobs submitted together run in parallel up to the number of threads, a long job never delays others that an idle worker could take, and jobs that wait for each other complete if the pool has enough threads.",
 [S,H],"all sequences and interleavings of submissions, waits, stops and starts from several threads and from jobs, jobs of any length, priorities, stalled workers, spurious wakeups",
 "A lost wakeup only delays a job until some worker is free again; tests with short jobs end with the same results.",
 ["threadpool.c"],[("one wakeup per accepted job","threadpool.c:iot_threadpool_add_work_locked"),("worker loop takes a job before it sleeps","threadpool.c:iot_threadpool_thread")])
# ---------------- scheduler
p("S01","A schedule never runs early and keeps its period",
 "A schedule's function is never started before its requested delay has elapsed on the library's clock, and consecutive triggerings of one schedule while it stays queued, counting skipped and dropped ones, are at least one period apart; a reset postpones the next triggering to at least delay plus period after the reset.",
 [S,F,C],"all periods, delays, numbers of schedules, resets at any time, forward and backward clock steps, slow scheduler thread, spurious and early wakeups",
 "Tests count runs over a real second; they neither bound individual start times nor step the clock or wake the scheduler spuriously.",
 ["scheduler.c","time.c"],[("due test against the clock under the lock","scheduler.c:iot_scheduler_thread"),("next start computation","scheduler.c:iot_scheduler_thread, iot_schedule_reset")])
p("S02","A due schedule is triggered promptly: no wakeup is lost",
 "While the scheduler is running and its thread is allowed to make progress, every schedule in the queue is triggered within a small bounded delay of becoming due (its start time being reached on the library's clock), regardless of when it was added or reset, of what else is queued, of stops and restarts, and of clock steps. In particular adding or resetting a schedule never leaves it waiting for another schedule's time or for a default timeout.",
 [S,H,F],"every interleaving of add, remove, reset, delete, start and stop calls from several threads with the scheduler thread's compute-then-sleep window; all clock steps",
 "The window between computing the next wake time and going to sleep is a few instructions wide; tests never hit it, and a miss shows only as a delay of up to 24 hours.",
 ["scheduler.c"],[("next wake time and condition signal when a schedule becomes first","scheduler.c:iot_scheduler_thread, iot_schedule_add, iot_schedule_reset")],[("schd_time","absolute time of next wakeup","scheduler.c:iot_scheduler_t")])
p("S03","Repeat counts are exact",
 "A schedule created with a repeat count of N and left queued on a running scheduler is triggered exactly N times, each triggering being exactly one run, one dropped run or one skipped run, and then becomes idle; a repeat count of zero keeps being triggered until removed. A schedule that has become idle can be queued again.",
 [S,F,C],"all repeat counts, pools that are full or stopped, runs longer than the period, thread creation failures",
 "Tests check totals for a few fixed counts under one timing; they do not combine drops, skips and thread-creation failures.",
 ["scheduler.c"],[("repeat decrement and move to idle","scheduler.c:iot_scheduler_thread")])
p("S04","A schedule does not overlap itself unless concurrent; sync runs serialise",
 "Two runs of one schedule never overlap in time unless the schedule was made concurrent; a concurrent schedule is triggered on time even while earlier runs are still active. Runs of synchronous schedules happen on the scheduler's own thread, one at a time.",
 [S,C],"all run lengths relative to the period, pooled, threaded and synchronous schedules mixed",
 "Overlap needs a run that finishes within a few instructions of the next trigger.",
 ["scheduler.c"],[("reference count test before dispatch","scheduler.c:iot_scheduler_thread"),("synchronous execution on the scheduler thread","scheduler.c:schedule_fn")])
p("S05","Removed or deleted schedules stop; their argument is freed exactly once",
 "After a remove or delete call returns, a schedule is not triggered again, apart from at most one run already in flight, and removing or adding returns whether it changed the schedule's queued status. A deleted schedule's argument is released by its free function exactly once, after the last run that uses it has ended and never before, and the schedule's memory and pool reference are released with it.",
 [S,H,F],"remove and delete at every point relative to trigger, run callback, dispatch, run and completion; thread creation failures; full pools",
 "Tests delete schedules while nothing is running; the interesting windows are inside the trigger path where the lock is dropped for a callback.",
 ["scheduler.c"],[("queued flag re-checked after callbacks; reference per run","scheduler.c:iot_scheduler_thread, iot_schedule_delete, iot_schedule_free")])
p("S06","Run and abort callbacks and the dropped counter account for every trigger",
 "The run callback is called exactly once, before the run, for each triggering that is not skipped because the previous run is still active, and the abort callback exactly once for each of those that could not be handed to its pool; the dropped counter equals the number of runs the pool refused. So for a schedule run from a pool, run callbacks always equal completed plus pending runs plus aborted ones.",
 [S,F,C],"pools of any bound, stopped or busy pools, callbacks set at any time, callbacks that themselves remove, add or delete schedules",
 "Tests check the counts for one slow job; callbacks run with the lock released so the counts depend on what other threads do meanwhile.",
 ["scheduler.c"],[("callback invocation and dropped counter","scheduler.c:iot_scheduler_thread")])
p("S07","Stopping, restarting and freeing a scheduler is always safe",
 "A stopped scheduler triggers nothing until restarted, when all queued schedules resume; releasing the last reference, however slow the scheduler's own thread is, ends that thread, releases every remaining schedule exactly once and lets no thread touch freed memory. Releases of earlier references have no effect.",
 [S,H,F],"free at any point relative to the scheduler thread, arbitrarily slow or stalled threads, schedules still running in a pool or thread",
 "The code relies on fixed 500 microsecond pauses; on a loaded machine the thread can be slower, which no test arranges.",
 ["scheduler.c"],[("stop, pause, delete, pause, free","scheduler.c:iot_scheduler_free")])
# ---------------- queue
p("Q01","The shared queue is a linearizable bounded first-in first-out queue",
 "Every concurrent history of enqueue, try-enqueue, dequeue, try-dequeue, size, and limit operations is equivalent to some sequential order, consistent with real-time order, of a bounded first-in first-out queue; elements come out in the order they went in, each exactly once, and never more elements are admitted than the limit in force.",
 [S,H,C],"all producer and consumer counts, limits and limit changes, and interleavings",
 "Tests use one producer and one consumer; linearizability is a statement over all histories.",
 ["queue.c"],[("single mutex around list and limit","queue.c")])
p("Q02","Blocked queue operations always resume when they can proceed",
 "A blocked dequeue returns once elements are available for it and a blocked enqueue returns once there is room for it, including room created by raising or removing the limit; with faults and further operations stopped, no thread stays blocked on an operation that could complete.",
 [S,H,C],"any number of blocked producers and consumers, limits changed while blocked, spurious wakeups, stealing by non-blocking operations",
 "A missed wakeup is a hang seen only in rare interleavings with several waiters.",
 ["queue.c"],[("added and removed conditions","queue.c:iot_queue_enqueue, iot_queue_dequeue, iot_queue_setmaxsize")])
p("Q03","Stopping a queue releases every waiter and conserves elements",
 "After a queue is stopped every blocked enqueue and dequeue returns, a dequeue returns remaining elements in order and then nothing, and no later call blocks. Every element handed in is either handed out exactly once, still owned by the caller whose enqueue was abandoned, or released exactly once when the queue is freed.",
 [S,H],"stop at every point relative to any number of blocked producers and consumers",
 "Tests stop with a single waiter.",
 ["queue.c"],[("running flag and broadcast on stop","queue.c:iot_queue_stop")])
# ---------------- component
p("C01","Component state changes are atomic and deletion is final",
 "Concurrent state changes of a component behave as if done one at a time: a change reports true exactly when it altered the state, a running component cannot be marked deleted, and once deleted the state never changes again.",
 [S,H],"all sequences and interleavings of state changes from any number of threads",
 "Tests change state from one thread.",
 ["component.c"],[("state switch under component mutex","component.c:iot_component_set_state")])
p("C02","Waiting for a component state never misses it",
 "A thread waiting for a set of component states returns a state in that set, which held at that moment while the component was locked for it, and it returns whenever the component enters and stays in one of those states, however many threads are waiting and for whatever sets.",
 [S,H],"any number of waiters and sets, any order of state changes, spurious wakeups",
 "Tests have one waiter.",
 ["component.c"],[("broadcast on every valid change","component.c:iot_component_set_state, iot_component_wait_and_lock")])
p("C03","Exactly one release of a component is the last one",
 "However many threads take and release references to a component, in whatever order, exactly one release reports that it was the last, and it does so only when every other reference has been released.",
 [S,H],"any number of holders taking and releasing references concurrently",
 "Tests take and release references from one thread.",
 ["component.c"],[("atomic reference count","component.c:iot_component_add_ref, iot_component_dec_ref")])
# ---------------- container
p("K01","Container start, stop and free drive components in the documented order",
 "Starting a container calls every component's starting callback before any is started, starts each once in load order so dependencies come first, then calls every running callback once, with the timeout flag set exactly if not all components reported running within the allowed time; components created later by other threads do not disturb it, and while it waits for components to become running it does not hold up lookups, which those may need; stopping does stopping callbacks then stops in reverse order, and freeing stops what is not stopped and frees each component exactly once.",
 [S,C,F],"all dependency graphs, components that become running late, never, or exactly at a retry boundary, stalled threads",
 "Tests use components that start at once or never; the order and timeout flag depend on timing.",
 ["container.c"],[("component list order, retry loop","container.c:iot_container_start, iot_container_running, iot_container_stop")])
p("K02","Configured components are created once, after the components they refer to",
 "Loading a container creates each configured component exactly once, with its own configuration after environment substitution, creating components it refers to first; a cyclic reference, an unknown type or a missing or damaged configuration affects only the components concerned, and never hangs, crashes or creates duplicates. Libraries that provide component types are loaded when needed, also for a component added by hand, stay loaded while the types are in use, and are released when they do not provide the type.",
 [C,F],"all dependency graphs including cycles, unknown factories, unreadable, short or damaged configuration, libraries that fail to load, unset environment variables",
 "Tests load a few fixed configurations from files that are always readable.",
 ["container.c","config.c"],[("recursive load with in-progress list","container.c:iot_container_load_locked")])
p("K03","Concurrent container lookups, reads, listings and deletions are consistent",
 "Finding, reading, listing and deleting components from several threads behave atomically: a component present throughout is always found, a deleted one is never seen again and is stopped and freed exactly once, listings contain each present component exactly once, and concurrent first lookups of one configured component all obtain the same single instance.",
 [S,H],"all interleavings of find (including lazily creating finds), read, list, add and delete",
 "Tests use one thread.",
 ["container.c"],[("container read-write lock","container.c:iot_container_find_component, iot_container_delete_component, iot_container_list_components")])
p("K04","Reconfiguration is persisted exactly when accepted",
 "A reconfiguration accepted by a component is merged, as one change for every reader, into its visible configuration and the complete merged configuration is saved when the container configuration provides for it, so that a restart from storage yields the same configuration; a rejected one changes neither, and a crash or storage fault during saving leaves the old or the new saved configuration, never a mixture.",
 [X,F,H],"all sequences of reconfigurations, crash and storage fault points",
 "Tests reconfigure once and read back in memory; they never restart or fail the store.",
 ["component.c","store.c","file.c"],[("merge then save","component.c:iot_component_reconfig")])
p("K05","Containers and the component types they share do not disturb one another",
 "Containers may be loaded, extended, started and freed by different threads at once, although they share the configuration source, the environment, the registry of component types and loaded libraries: each ends up with exactly its own components, each once, of its own type and with its own configuration after substitution. Registering a type is idempotent and lasting: a registered type is found by every later lookup, the first of a name stays, an unknown one is reported as such, and no lookup hangs, however many threads register and look up types meanwhile.",
 [S,C,H],"all interleavings of loading, adding, looking up, starting and freeing in two or three containers with registrations of the same and of different types, shared and own libraries, unset environment variables",
 "Tests use one container and register types from one thread; whatever the containers share behind their own locks is only disturbed by another thread.",
 ["container.c","config.c"],[("registry of component types under its own lock","container.c:iot_component_factory_add, iot_component_factory_find"),("substitution without shared buffers","config.c:iot_config_substitute_env")])
# ---------------- logger
p("L01","Log records reach exactly the loggers whose level admits them",
 "A message logged to a logger is delivered once to that logger and to each logger chained behind it whose own level admits it, and to no other, with the full message, the level and one timestamp taken during the call; stopping a logger silences it and starting it again restores the level it had, for any sequence of starts, stops and of level changes made while it is started. The same holds for loggers made from a configuration, which decides their level, whether they start, and the logger chained behind them.",
 [H,C,S],"all levels, chains, start, stop, set-level and reconfigure sequences, concurrent log calls",
 "Tests log a few messages and check them by eye; sequences such as repeated stops are not tried.",
 ["logger.c"],[("level test and chain walk","logger.c:iot_log__va_log"),("saved level","logger.c:iot_logger_start, iot_logger_stop"),("configured loggers","logger.c:iot_logger_config")])
p("L02","Log records are never interleaved, torn or run together",
 "Each record written to a file or console or sent to a network logger is one complete line with its own header and message even when many threads log at once; an over-long message is cut to the fixed record size without disturbing the record structure or reading or writing outside the record buffer, and records a file already holds when it is opened for logging stay in it.",
 [S,I,F],"all numbers of logging threads and message lengths around the record limit, slow or failing sinks",
 "Tests log short messages from one thread.",
 ["logger.c"],[("shared format buffer used under the component lock","logger.c:iot_logger_log_to_fd, iot_log_udp, iot_logger_format_log"),("files opened for appending","logger.c:iot_logger_alloc_file")],[("buff","shared format buffer","logger.c:iot_logger_impl_t")])
p("L03","Loggers and their contexts live exactly as long as they are referenced",
 "A logger, its context and the loggers chained behind it stay usable while any reference exists, whichever threads release them and in which order, and each is released exactly once with the last reference, closing files and sockets once; all threads obtaining the default logger get the same ready-to-use one.",
 [S,H],"all reference graphs, release orders and re-chaining, first use of the default logger from several threads",
 "Tests free loggers in one order from one thread.",
 ["logger.c","component.c"],[("component reference count","logger.c:iot_logger_free"),("lazy default","logger.c:iot_logger_default")])
p("L04","Failing log sinks never harm the caller",
 "When a log file cannot be opened or written, or a socket cannot be created or refuses data, logging calls return normally, other loggers in the chain still get every record, and logging resumes when the sink recovers: records logged once the sink works again arrive complete. While a sink fails it may lose, or cut short, only what was on its way to it, and nothing is delivered that was never logged.",
 [F,C],"open, write, socket and send failures at any point, sink addresses of any form in configuration",
 "Tests never make a sink fail.",
 ["logger.c"],[("sink checks","logger.c:iot_log_file, iot_log_udp, iot_logger_config")])
# ---------------- time
p("M01","Nanosecond timestamps are unique and strictly increasing",
 "Timestamps returned by the nanosecond clock function are strictly increasing in real-time order and never equal in any two calls from any threads, even if the system clock stands still or is stepped back, and follow the system clock when it is ahead of every timestamp issued.",
 [S,F],"any number of concurrent callers, any clock steps",
 "Tests cannot step the clock and rarely collide.",
 ["time.c"],[("compare-and-swap on last time","time.c:iot_time_nsecs")])
p("M02","Waiting functions never return early",
 "The wait functions return only after at least the requested time has elapsed, however often the sleep is interrupted by signals, and return promptly afterwards; clock steps do not change the duration.",
 [F,I],"all intervals, any pattern of interruptions and clock steps",
 "Tests never interrupt a sleep.",
 ["time.c"],[("resume with remaining time","time.c:iot_wait")])
p("U01","Generated identifiers are unique, well formed and wait for entropy",
 "Every generated identifier is a version 4, variant 1 UUID, no two calls from any threads of a process return the same one, and generation never proceeds from anything but a complete random seed, however often the system's random source is interrupted, returns short or fails at first.",
 [S,F],"any number of concurrent first and later callers, interrupted, short and failing random reads",
 "Tests generate two identifiers; random source failures and concurrent initialisation are not exercised.",
 ["uuid.c"],[("mutex around seed and generator","uuid.c:iot_uuid_generate, uuid_init")])
# ---------------- files
p("F01","A file write replaces the file atomically, even across a crash",
 "Writing a file either leaves the complete old contents or the complete new contents (or no file if there was none), never a mixture or a prefix, at every instant as seen by concurrent readers and after a process crash or power loss at any point, for one writer per file; once a write has reported success and storage was healthy the contents are the new ones.",
 [X,F,S,I],"all contents and sizes, crash at every system call, any reordering of unsynchronised writes at power loss, concurrent readers",
 "Tests never crash; they write and read back.",
 ["file.c"],[("write to temporary name then rename","file.c:iot_file_write_binary")])
p("F02","File and store writes and deletes report their outcome truthfully",
 "A write or delete reports success if and only if its effect took place: on any I/O error, full disk, failed close or failed rename it reports failure, leaves the old contents in place and leaves no temporary file behind.",
 [F,I],"failure of each system call involved, short writes, full disk discovered at any point including on close",
 "Tests never inject an error.",
 ["file.c","store.c"],[("return code handling","file.c:iot_file_write_binary, iot_file_delete")])
p("F03","A file read returns the complete contents or nothing",
 "Reading a file returns its complete contents, terminated, with the right length, or nothing with length zero; short or interrupted reads, I/O errors, unseekable files, directories and files that are truncated or extended while read never yield partial or uninitialised data presented as contents, a crash or a leak.",
 [F,I,S],"all sizes, read and seek failures at any point, concurrent truncation and growth",
 "Tests read intact files only.",
 ["file.c","store.c"],[("size, allocate, read","file.c:iot_file_read_binary")])
p("F04","The configuration store lists, saves, loads and deletes consistently",
 "The list of stored configurations names exactly the configurations that can be loaded, each saved one once by its own name whatever else is in the directory; save, load and delete round-trip any name and text, and an unreadable directory yields an absent list rather than a failure. Nothing leaks on any path.",
 [F,H,I],"any directory contents, names and save/delete histories, directory errors, invalid patterns",
 "Tests list one tidy directory.",
 ["store.c","file.c"],[("list filter and extension strip","store.c:iot_store_config_list, file.c:iot_file_list")])
# ---------------- threads
p("H01","Thread creation degrades safely",
 "When the operating system refuses the requested priority or attributes, a thread is still created with defaults and runs its function exactly once; when it refuses altogether failure is reported and nothing runs. Threads created are always detached from the creator's point of view, so no thread resources accumulate. A thread for which nothing is refused runs with exactly the priority and on the processor asked for, whoever creates it, and changing a priority reports truthfully whether it took effect. Every caller asking whether a priority is valid gets the same, right answer.",
 [F,C],"every combination of priority, affinity and refusal of each system call",
 "Tests run as one user with sufficient rights; refusals and leaked threads are not observed.",
 ["thread.c"],[("create with attributes then fall back","thread.c:iot_thread_create")])
# ---------------- data
p("D01","Shared data values are freed exactly once, by the last release",
 "A data value, however deeply nested, composed or shared between threads and containers, stays intact while any reference exists and is released exactly once, together with everything it owns, when the last reference is released, whichever threads release in whichever order; user free functions are called exactly once.",
 [S,H],"all value graphs and all interleavings of add-reference, release, compose and remove across threads",
 "Tests share values within one thread; double or missing frees need two racing releases.",
 ["data.c"],[("atomic reference count","data.c:iot_data_add_ref, iot_data_free")])
p("D02","Concurrent readers of a shared data value agree with a sequential reader",
 "Any number of threads reading a shared value that nobody modifies, by lookup, iteration, comparison, hashing, conversion to text or copying, each obtain exactly what a single thread would.",
 [S,H],"all value shapes and reader interleavings, including the first hashing of a value after it was built",
 "Tests read from one thread; hidden caching inside logically constant values is invisible to them.",
 ["data.c"],[("lazily computed hash","data.c:iot_data_hash, iot_data_rehash"),("stateless iterators","data.c")])
p("D03","Data memory management is thread safe under every allocation policy",
 "Threads that independently create, copy, modify and release their own values never affect each other: no memory block is handed to two live values, every block is returned exactly once, and per-thread allocation policy changes affect only that thread, in both the pooled and the plain allocation builds.",
 [S,C],"all interleavings of allocation and release of values of all kinds in several threads, both builds, heap policy switched at any time",
 "The default test build disables the pooled allocator's interesting paths, and races on a free list need instruction-level interleaving.",
 ["data.c"],[("block free list under mutex, thread-local policy","data.c:iot_data_block_alloc, iot_data_block_free")])
# ---------------- data races
RW="A data race produces its damage only on particular hardware, compilers and timings; a unit test that runs the racing calls sees nothing wrong."
p("R01","Pools, schedulers, queues and components are free of data races",
 "When several threads use the same thread pool, scheduler, schedule, queue, component or thread helper through the interface at the same time, any two accesses by the library to the same memory of which at least one is a write are ordered by the library's own synchronisation (locks, condition waits, thread creation and join, once-initialisation, atomic operations), or both are atomic; releasing memory counts as a write. A word declared volatile counts as an atomic one.",
 [S,H,F],"every interleaving of every interface function of these components, workers and callbacks, with failing thread creation and priority changes",RW,
 ["threadpool.c","scheduler.c","queue.c","component.c","thread.c"],[("component mutex, queue mutex, atomic reference count","component.c:iot_component_lock, queue.c:iot_queue_enqueue, threadpool.c:iot_threadpool_thread, scheduler.c:iot_scheduler_thread")])
p("R02","Loggers, containers, configuration, time and identifiers are free of data races",
 "When several threads log, change log levels, start, stop, configure, look up, list, read, reconfigure and delete components, load and save configuration, take time stamps or generate identifiers at the same time, any two accesses by the library to the same memory of which at least one is a write are ordered by the library's own synchronisation, or both are atomic; releasing memory counts as a write. A word declared volatile, such as a logger's level, counts as an atomic one.",
 [S,H,F],"every interleaving of every interface function of these components and of the callbacks they make, with failing sinks and stores",RW,
 ["logger.c","container.c","config.c","store.c","time.c","uuid.c","file.c"],[("logger lock, container read-write lock, atomic last time stamp, generator mutex","logger.c:iot_log_file, container.c:iot_container_find, time.c:iot_time_nsecs, uuid.c:iot_uuid_generate")])
p("R03","Sharing and releasing data values is free of data races",
 "When several threads read one shared data value by any reading function, take and release references to it, or build, change and release values of their own, any two accesses by the library to the same memory of which at least one is a write are ordered by the library's own synchronisation, or both are atomic; releasing memory counts as a write, so everything any thread did with a value happens before it is released.",
 [S,H],"all value shapes, all interleavings of reading, reference counting and memory management, both memory management builds",RW,
 ["data.c","data-impl.h"],[("atomic reference count and cached hash, block list mutex, thread-local policy","data.c:iot_data_free, iot_data_hash, iot_data_block_alloc")])
# ---------------- not applicable (pure functions)
W="Tests check examples; the statement is over all inputs."
p("X01","JSON text round-trips data values","Converting any representable data value to JSON and back gives an equal value, and malformed JSON of any kind is rejected without reading out of bounds.",[I],"all values and all texts",W,["data-json.c","json.c"],[("parser and printer","data-json.c, json.c")])
p("X02","CBOR, YAML and XML conversions preserve values","Encoding any representable value as CBOR and decoding gives an equal value, and YAML and XML input is converted faithfully or rejected.",[I],"all values and all inputs",W,["data-cbor.c","data-yaml.c","data-xml.c"],[("encoders and decoders","data-cbor.c, data-yaml.c, data-xml.c")])
p("X03","Base64 encoding and decoding are inverse","Decoding the encoding of any byte string gives the byte string, and invalid text is rejected without overrunning the output.",[I],"all byte strings",W,["base64.c"],[("codec","base64.c")])
p("X04","Numeric casts never lose information silently","Casting a value to another numeric type succeeds exactly when the value is representable there, and then preserves it.",[I],"all values of all types",W,["data.c"],[("range checks","data.c:iot_data_cast")])
p("X05","Maps, lists and vectors behave as their sequential models","Any single-threaded sequence of map, list and vector operations gives the results of a sorted map, a sequence and a fixed array.",[H,I],"all operation sequences",W,["data.c"],[("balanced tree and list code","data.c")])
p("X06","Equality, ordering and hashing are mutually consistent","Comparison is a total order, equality is its zero and equal values have equal hashes.",[I],"all pairs and triples of values",W,["data.c","hash.c"],[("compare, equal and hash","data.c, hash.c")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
