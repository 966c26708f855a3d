// Thread pool: P01 .. P06
#include "common.h"

namespace
{
enum { OP_ADD, OP_TRY, OP_WAIT, OP_STOP, OP_START, OP_SLEEP, OP_REF };
enum { K_THREADS = 1, K_MAX, K_STARTED, K_LOG, K_END, K_PRIO, K_FAULTS, K_ACTORS, K_NEST, K_DELREF, K_LONG, K_WATCH, K_CFG };
enum { END_NORMAL, END_SELF, END_FREE_QUEUED, END_RACE };

struct Job
{
  int id, prio; bool accepted = false, refused = false, blocking = false;
  uint64_t call = 0, ret = 0;          // submission
  uint64_t start = 0, end = 0;         // execution (history sequence numbers)
  int worker = -1; int runs = 0;
  uint64_t lb = 0;                     // earliest moment at which it can have been picked
  uint64_t dur = 0; int nest = 0; int kind = 0;
};
struct W { uint64_t call, ret; };
struct Win { uint64_t call, ret; bool start; };

struct TP
{
  iot_threadpool_t * pool = nullptr;
  iot_logger_t * log = nullptr;
  std::deque<Job> jobs;
  std::vector<W> waits;
  std::vector<Win> wins;
  std::map<int, int> refused;          // priority changes refused, per worker
  std::map<int, uint64_t> last_end;    // per worker
  int running = 0, threads = 0, started = 0;
  uint32_t maxj = 0;
  bool freed = false, free_called = false, race_end = false;
  int submits_open = 0, accepted = 0;
  uint64_t first_start = 0;
  int default_prio = -1;
  int blocked_submits = 0, waits_open = 0; bool watch_end = false;
};
TP * T;

int upper_queued (int self_pending) { return T->accepted + T->submits_open - self_pending - T->started; }

// lower bound on the number of queued jobs right now
int lower_queued () { return T->accepted - T->started - (T->threads - T->running); }

void submit (int prio, uint64_t dur, bool tryit, int nest, bool self_free);

void * job_fn (void * arg)
{
  Job * j = (Job *) arg;
  bool known = false;
  for (auto & k : T->jobs) if (&k == j) known = true;
  SIM_CHECK (known, "bad-argument", "a job was run with an argument it was not submitted with");
  SIM_CHECK (!j->refused, "refused-job-ran", "job %d was refused but runs", j->id);
  SIM_CHECK (!T->freed, "job-after-free", "job %d starts after the pool was freed", j->id);
  j->runs++;
  SIM_CHECK (j->runs == 1, "job-ran-twice", "job %d runs a second time", j->id);
  j->start = sim_event ();
  j->worker = sim_self ();
  SIM_CHECK (sim_is_lib_thread (j->worker), "wrong-thread", "job %d runs on a thread that is not a pool thread", j->id);
  T->running++; T->started++;
  SIM_CHECK (T->running <= T->threads, "too-many-running", "%d jobs run concurrently on a pool of %d threads", T->running, T->threads);
  uint64_t le = T->last_end.count (j->worker) ? T->last_end[j->worker] : 0;
  j->lb = std::max (j->call, std::max (le, T->first_start));
  int refused = sim_thread_prio_refused (j->worker);
  bool tried = refused != T->refused[j->worker];
  T->refused[j->worker] = refused;
  if (tried) sim_probe ("priority_refused");
  if (!tried && j->prio != IOT_THREAD_NO_PRIORITY && iot_thread_priority_valid (j->prio))
    SIM_CHECK (sim_thread_prio (j->worker) == j->prio, "wrong-priority", "job %d of priority %d runs at thread priority %d", j->id, j->prio, sim_thread_prio (j->worker));
  sim_state (hmix (hmix ((uint64_t) T->running, (uint64_t) (T->accepted - T->started)), 11));
  if (T->accepted - T->started > 3) sim_probe ("deep_queue");
  if (j->dur) sim_sleep (j->dur); else sim_yield ();
  if (j->nest == 1) { submit (j->prio, 0, true, 0, false); sim_probe ("nested_try"); }
  else if (j->nest == 2 && T->maxj == 0) { submit (j->prio, 0, false, 0, false); sim_probe ("nested_add"); }
  if (j->kind == 1) // the pool is released by one of its own jobs
  {
    sim_probe ("self_release");
    T->free_called = true;
    if (j->nest == 3) { iot_threadpool_stop (T->pool); sim_probe ("self_release_stopped"); }
    iot_threadpool_free (T->pool);
  }
  SIM_CHECK (!T->freed, "free-did-not-wait", "the pool was freed while job %d was running", j->id);
  T->running--;
  j->end = sim_event ();
  T->last_end[j->worker] = j->end;
  return nullptr;
}

void submit (int prio, uint64_t dur, bool tryit, int nest, bool self_free)
{
  T->jobs.emplace_back ();
  Job * j = &T->jobs.back ();
  j->id = (int) T->jobs.size () - 1; j->prio = prio; j->dur = dur; j->nest = nest; j->kind = self_free ? 1 : 0;
  j->blocking = !tryit;
  T->submits_open++;
  int ub = upper_queued (1);
  uint64_t t0 = sim_now (), s0 = sim_stall_total ();
  uint64_t ev0 = sim_event_peek ();
  j->call = sim_event ();
  if (tryit)
  {
    bool ok = iot_threadpool_try_work (T->pool, job_fn, j, prio);
    j->ret = sim_event ();
    if (ok) { T->accepted++; }
    else
    {
      j->refused = true;
      SIM_CHECK (j->runs == 0, "refused-job-ran", "job %d was refused but has run", j->id);
      // the number of queued jobs only grows by submissions: bound over the whole call
      int most = ub;
      for (auto & k : T->jobs) if (&k != j && k.call > ev0 && k.call < j->ret && !k.refused) most++;
      SIM_CHECK (T->maxj && most >= (int) T->maxj, "wrongly-refused", "job %d was refused although at most %d of %u jobs were queued", j->id, most, T->maxj);
      sim_probe ("refused");
    }
  }
  else
  {
    T->blocked_submits++;
    iot_threadpool_add_work (T->pool, job_fn, j, prio);
    T->blocked_submits--;
    j->ret = sim_event ();
    T->accepted++;
    uint64_t took = sim_now () - t0, stalled = sim_stall_total () - s0;
    if (took > 300 * MS + stalled && T->jobs.size () < 64)
    {
      int most = ub;
      for (auto & k : T->jobs) if (&k != j && k.call > ev0 && k.call < j->ret && !k.refused) most++;
      SIM_CHECK (T->maxj && most >= (int) T->maxj, "blocked-without-cause", "a blocking submit took %.3f s although at most %d of %u jobs were queued", (double) took / 1e9, most, T->maxj);
      sim_probe ("submit_blocked");
    }
  }
  if (!j->refused) j->accepted = true;
  T->submits_open--;
  if (T->maxj) SIM_CHECK (lower_queued () <= (int) T->maxj, "queue-overfull", "%d or more jobs are queued, maximum %u", lower_queued (), T->maxj);
  if (T->maxj && lower_queued () == (int) T->maxj) sim_probe ("queue_full");
}

void do_stop () { T->wins.push_back ({ sim_event (), 0, false }); size_t i = T->wins.size () - 1; iot_threadpool_stop (T->pool); T->wins[i].ret = sim_event (); }
void do_start ()
{
  T->wins.push_back ({ sim_event (), 0, true }); size_t i = T->wins.size () - 1;
  if (!T->first_start) T->first_start = T->wins[i].call;
  iot_threadpool_start (T->pool); T->wins[i].ret = sim_event ();
}
void do_wait ()
{
  T->waits.push_back ({ sim_event (), 0 }); size_t i = T->waits.size () - 1;
  T->waits_open++;
  iot_threadpool_wait (T->pool);
  T->waits_open--;
  T->waits[i].ret = sim_event ();
}

// The pool judged at instants at which nothing happened for a while: every thread of the system was
// blocked and none was stalled, so whatever can proceed has proceeded.
void watch (uint64_t interval)
{
  while (!T->watch_end)
  {
    uint64_t t0 = sim_now (), e0 = sim_event_peek ();
    sim_sleep (interval);
    if (T->watch_end || T->free_called) break;
    if (sim_event_peek () != e0 || sim_idle_between (t0, sim_now ()) == 0) continue;
    int queued = T->accepted - T->started;
    if (T->blocked_submits) SIM_CHECK (T->maxj && queued >= (int) T->maxj, "blocked-without-cause", "a blocking submit sleeps although only %d of %u jobs are queued", queued, T->maxj);
    if (T->waits_open) SIM_CHECK (queued > 0 || T->running > 0, "wait-not-returned", "a wait sleeps although nothing is queued or running");
    if (queued > 0 && T->running < T->threads)
    {
      uint64_t stop = 0, start = 0; bool open = false;
      for (auto & w : T->wins) { if (!w.ret) open = true; else if (w.start) start = std::max (start, w.call); else stop = std::max (stop, w.ret); }
      SIM_CHECK (open || start <= stop, "worker-idle", "%d jobs are queued and only %d of %d workers run one, although the pool is started", queued, T->running, T->threads);
      sim_probe ("queued_while_stopped");
    }
    if (queued > 0 && T->running == T->threads) sim_probe ("all_workers_busy");
  }
}

void actor (const std::vector<Op> & ops)
{
  for (auto & o : ops)
  {
    switch (o.code)
    {
      case OP_ADD: submit ((int) o.a, (uint64_t) o.b, false, (int) o.c, false); break;
      case OP_TRY: submit ((int) o.a, (uint64_t) o.b, true, (int) o.c, false); break;
      case OP_WAIT: do_wait (); break;
      case OP_STOP: do_stop (); break;
      case OP_START: do_start (); break;
      case OP_SLEEP: sim_sleep ((uint64_t) o.b); break;
      case OP_REF: iot_threadpool_add_ref (T->pool); sim_yield (); iot_threadpool_free (T->pool); break;
    }
  }
}

bool prefer (const Job & a, const Job & b)  // a must leave the queue before b when both are there
{
  if (a.prio == b.prio) return a.ret < b.call;
  if (a.prio == IOT_THREAD_NO_PRIORITY) return false;
  return b.prio == IOT_THREAD_NO_PRIORITY || a.prio > b.prio;
}

void history_checks (bool all_ran)
{
  for (auto & j : T->jobs)
  {
    if (!j.accepted) continue;
    if (all_ran) SIM_CHECK (j.runs == 1 && j.end, "job-lost", "job %d was accepted but %s", j.id, j.runs ? "did not finish" : "never ran");
  }
  // order
  for (auto & b : T->jobs)
  {
    if (!b.start) continue;
    for (auto & a : T->jobs)
    {
      if (&a == &b || !a.accepted || !a.ret) continue;
      if (a.start && a.lb <= b.start) continue;                 // may have been picked first
      if (a.ret < b.lb && prefer (a, b))
        sim_fail ("wrong-order", "job %d (priority %d, accepted at %llu) was still queued when job %d (priority %d, accepted at %llu) was picked between %llu and %llu; it was picked after %llu",
          a.id, a.prio, (unsigned long long) a.ret, b.id, b.prio, (unsigned long long) b.ret, (unsigned long long) b.lb, (unsigned long long) b.start, (unsigned long long) a.lb);
    }
  }
  // waits: some instant of the call had nothing queued or running
  for (auto & w : T->waits)
  {
    if (!w.ret) continue;
    uint64_t t = w.call;
    bool moved = true;
    while (moved && t < w.ret)
    {
      moved = false;
      for (auto & j : T->jobs)
      {
        if (!j.accepted || !j.ret) continue;
        uint64_t e = j.end ? j.end : UINT64_MAX;
        if (j.ret <= t && e > t) { t = e; moved = true; if (t >= w.ret) break; }
      }
    }
    SIM_CHECK (t < w.ret, "wait-returned-early", "a wait called at %llu returned at %llu although a job was queued or running all that time", (unsigned long long) w.call, (unsigned long long) w.ret);
  }
  // stopped windows
  if (!T->first_start) T->first_start = UINT64_MAX;
  for (auto & j : T->jobs) if (j.start) SIM_CHECK (j.start > T->first_start, "ran-before-start", "job %d ran before the pool was first started", j.id);
  for (auto & s : T->wins)
  {
    if (s.start || !s.ret) continue;
    uint64_t end = UINT64_MAX;
    bool overlap = false;
    for (auto & x : T->wins)
    {
      if (!x.start) continue;
      if (x.call < s.ret && (x.ret == 0 || x.ret > s.call)) overlap = true;   // concurrent start: undetermined
      if (x.call > s.ret) end = std::min (end, x.call);
    }
    if (overlap) continue;
    std::map<int, int> n;
    for (auto & j : T->jobs)
    {
      if (!(j.start > s.ret && j.start < end)) continue;
      bool busy = false;
      for (auto & k : T->jobs) if (k.worker == j.worker && k.start && k.start < s.ret && (!k.end || k.end > s.ret)) busy = true;
      SIM_CHECK (!busy, "ran-while-stopped", "job %d was begun by a worker that was busy with another job when the stop (returned at %llu) took effect", j.id, (unsigned long long) s.ret);
      SIM_CHECK (j.call < s.ret, "ran-while-stopped", "job %d, submitted after the stop had returned, ran before the pool was started again", j.id);
      SIM_CHECK (++n[j.worker] <= 1, "ran-while-stopped", "a worker began two jobs after the stop had returned");
      sim_probe ("picked_before_stop");
    }
  }
}

void run (const Plan & p)
{
  TP t; T = &t;
  int64_t f = p.k (K_FAULTS);
  if (f & 1) { sim_conf.fault_p[FK_SETPRIO_EPERM] = 0.3;  }
  if (f & 2) { sim_conf.fault_p[FK_THREAD_EPERM] = 0.3;  }
  if (f & 4) sim_conf.fault_p[FK_THREAD_EAGAIN] = 0.3;
  if (f & 8) { sim_set_euid (1000);  }
  if (f & 16) sim_conf.fault_p[FK_AFFINITY_FAIL] = 0.5;
  sim_heap_mark ();
  t.log = make_logger (p.k (K_LOG));
  t.maxj = (uint32_t) p.k (K_MAX);
  t.default_prio = (int) p.k (K_PRIO);
  int end = (int) p.k (K_END);
  t.pool = make_pool ((int) p.k (K_CFG), (int) p.k (K_THREADS), t.maxj, t.default_prio, (f & 16) ? 1 : IOT_THREAD_NO_AFFINITY, t.log);
  t.threads = sim_live_threads ();
  if (!(f & 4)) SIM_CHECK (t.threads == p.k (K_THREADS), "threads-missing", "pool of %d threads has %d", (int) p.k (K_THREADS), t.threads);
  sim_conf.fault_p[FK_THREAD_EAGAIN] = 0;
  int na = (int) p.k (K_ACTORS);
  bool refs = p.k (K_DELREF) != 0;
  if (p.k (K_STARTED)) do_start ();
  auto ops = by_actor (p, na);
  std::vector<int> ids;
  bool runnable = t.threads > 0;
  if (!runnable)
  {
    sim_probe ("no_threads");
    t.threads = 0;
    iot_threadpool_free (t.pool);
    iot_logger_free (t.log);
    check_no_leaks ("pool without threads");
    return;
  }
  for (int i = 0; i < na; i++)
  {
    if (refs) iot_threadpool_add_ref (t.pool);
    std::vector<Op> o = ops[(size_t) i];
    ids.push_back (sim_spawn ("actor", [o, refs] { actor (o); if (refs && !T->race_end) iot_threadpool_free (T->pool); }));
  }
  int watcher = -1;
  if (p.k (K_WATCH)) { uint64_t iv = (uint64_t) p.k (K_WATCH); watcher = sim_spawn ("watch", [iv] { watch (iv); }); }
  // keep the pool eventually running so that every actor can finish
  auto all_done = [&] { for (int i : ids) if (!sim_done (i)) return false; return true; };
  while (!sim_wait_until (all_done, 2 * SEC)) do_start ();
  sim_join_all (ids);
  if (end == END_FREE_QUEUED)
  {
    // release with work still queued: each at most once, none afterwards
    if (p.k (K_NEST) & 1) do_stop ();
    for (int i = 0; i < 4; i++) submit (-1, (p.k (K_NEST) & 2) ? 3 * MS + (uint64_t) p.k (K_LONG) : 0, true, 0, false);
    if (p.k (K_NEST) & 4) sim_sleep (1 * MS);
    t.free_called = true;
    iot_threadpool_free (t.pool);
    t.freed = true;
    SIM_CHECK (t.running == 0, "free-did-not-wait", "the pool was freed while %d jobs were running", t.running);
    history_checks (false);
    sim_probe ("freed_with_queue");
  }
  else
  {
    do_start ();
    // several threads wait at the same time
    std::vector<int> ws;
    int nw = (int) (p.k (K_NEST) >> 4) & 3;
    for (int i = 0; i < nw; i++) ws.push_back (sim_spawn ("waiter", [] { do_wait (); }));
    if (nw) submit (-1, 1 * MS, true, 0, false);
    do_wait ();
    sim_join_all (ws);
    if (nw) do_wait ();
    if (nw > 1) sim_probe ("several_waiters");
    history_checks (true);
    if (end == END_SELF)
    {
      submit (-1, 0, false, (p.k (K_NEST) & 8) ? 3 : 0, true);
      sim_wait_until ([] { return sim_live_threads () == 0; }, 60 * SEC);
      t.freed = true;
      SIM_CHECK (sim_live_threads () == 0, "threads-left", "%d pool threads still alive after the pool released itself", sim_live_threads ());
    }
    else
    {
      t.free_called = true;
      iot_threadpool_free (t.pool);
      t.freed = true;
    }
  }
  t.watch_end = true;
  if (watcher >= 0) sim_join (watcher);
  sim_wait_until ([] { return sim_live_threads () == 0; }, 5 * SEC);
  SIM_CHECK (sim_live_threads () == 0, "threads-left", "%d pool threads still alive after the pool was freed", sim_live_threads ());
  iot_logger_free (t.log);
  check_no_leaks ("thread pool");
}

struct Mix { int add, tryw, wait, stop, start, sleep, ref; };
uint64_t pick_dur (Rng & r)
{
  switch (r.below (6)) { case 0: case 1: case 2: return 0; case 3: return r.logrange (1, 100000); case 4: return r.logrange (1000, 5 * MS); default: return r.logrange (1 * MS, 900 * MS); }
}
void gen_mix (Rng & r, Plan & p, Mix m, int nops, int maxactors)
{
  int na = 1 + (int) r.below ((uint64_t) maxactors);
  int prios = (int) r.below (4);
  p.knobs.resize (1);
  p.knobs.push_back (1 + (int64_t) r.below (r.chance (0.3) ? 1 : 4));      // threads
  p.knobs.push_back (r.chance (0.4) ? 0 : 1 + (int64_t) r.below (5));      // max jobs
  p.knobs.push_back (r.chance (0.6));                                        // started at once
  p.knobs.push_back (r.chance (0.2) ? 5 : r.chance (0.2) ? 3 : 0);           // logger level
  p.knobs.push_back (END_NORMAL);
  p.knobs.push_back (r.chance (0.3) ? (int64_t) r.below (20) : -1);          // default priority
  p.knobs.push_back (r.chance (0.75) ? 0 : (int64_t) r.below (32) & ~4);     // faults
  p.knobs.push_back (na);
  p.knobs.push_back ((int64_t) r.below (64));
  p.knobs.push_back (r.chance (0.4));
  bool lng = r.chance (0.15);                                               // jobs that outlast any bounded wait
  p.knobs.push_back (lng ? (int64_t) r.logrange (100 * MS, 100 * SEC) : 0);
  p.knobs.push_back (r.chance (0.5) ? (int64_t) r.logrange (10 * US, 50 * MS) : 0); // watch interval
  p.knobs.push_back (r.chance (0.25) ? 1 + (int64_t) r.below (48) : 0);      // made from a configuration
  int tot = m.add + m.tryw + m.wait + m.stop + m.start + m.sleep + m.ref;
  for (int i = 0; i < nops; i++)
  {
    Op o; o.actor = (int) r.below ((uint64_t) na); o.a = -1; o.b = 0; o.c = 0;
    int x = (int) r.below ((uint64_t) tot);
    if ((x -= m.add) < 0) o.code = OP_ADD; else if ((x -= m.tryw) < 0) o.code = OP_TRY; else if ((x -= m.wait) < 0) o.code = OP_WAIT;
    else if ((x -= m.stop) < 0) o.code = OP_STOP; else if ((x -= m.start) < 0) o.code = OP_START; else if ((x -= m.sleep) < 0) o.code = OP_SLEEP; else o.code = OP_REF;
    if (o.code == OP_ADD || o.code == OP_TRY)
    {
      o.a = prios == 0 ? -1 : prios == 1 ? (int64_t) r.range (1, 3) : prios == 2 ? (r.chance (0.3) ? -1 : (int64_t) r.range (1, 6)) : (int64_t) r.range (-1, 1);
      o.b = (int64_t) pick_dur (r);
      if (lng && r.chance (0.15)) o.b = (int64_t) r.logrange (1 * SEC, 60 * SEC);
      o.c = r.chance (0.12) ? 1 + (int64_t) r.below (2) : 0;
    }
    if (o.code == OP_SLEEP) o.b = (int64_t) r.logrange (100, 400 * MS);
    p.ops.push_back (o);
  }
}
void gen_p01 (Rng & r, Plan & p) { gen_mix (r, p, { 10, 6, 1, 1, 1, 2, 1 }, (int) r.logrange (3, 40), 5); if (r.chance (0.2)) p.knobs[K_END] = END_FREE_QUEUED; }
void gen_p02 (Rng & r, Plan & p) { gen_mix (r, p, { 10, 10, 0, 1, 1, 2, 0 }, (int) r.logrange (4, 40), 5); p.knobs[K_MAX] = 1 + (int64_t) r.below (4); }
void gen_p03 (Rng & r, Plan & p)
{
  gen_mix (r, p, { 12, 3, 0, 1, 2, 1, 0 }, (int) r.logrange (6, 40), 3);
  if (r.chance (0.6)) p.knobs[K_THREADS] = 1;
  if (r.chance (0.6)) { p.knobs[K_MAX] = 0; p.knobs[K_STARTED] = 0; }
}
void gen_p04 (Rng & r, Plan & p) { gen_mix (r, p, { 8, 4, 8, 1, 2, 2, 0 }, (int) r.logrange (4, 40), 6); }
void gen_p05 (Rng & r, Plan & p) { gen_mix (r, p, { 8, 5, 1, 6, 5, 4, 0 }, (int) r.logrange (4, 50), 4); }
void gen_p07 (Rng & r, Plan & p)
{
  gen_mix (r, p, { 10, 6, 1, 1, 1, 3, 0 }, (int) r.logrange (3, 40), 4);
  p.knobs[K_THREADS] = 2 + (int64_t) r.below (4);
  p.knobs[K_STARTED] = r.chance (0.8);
  p.knobs[K_WATCH] = (int64_t) r.logrange (5 * US, 5 * MS);
}
void gen_p06 (Rng & r, Plan & p)
{
  gen_mix (r, p, { 8, 4, 1, 1, 1, 2, 4 }, (int) r.logrange (1, 16), 4);
  p.knobs[K_END] = (int64_t) r.below (3);
  if (r.chance (0.5)) p.knobs[K_DELREF] = 1;
  if (r.chance (0.2)) p.knobs[K_FAULTS] |= 4;
}

// ---- P06: the reference holders race for the last release; the pool is used until each lets go
struct Race { iot_threadpool_t * pool; int running = 0, done = 0, live_refs = 0; bool freed = false; };
Race * R;
void * race_job (void *) { R->running++; SIM_CHECK (!R->freed, "job-after-free", "a job runs after the pool was freed"); sim_yield (); if (sim_choose (200, 3, 0) == 1) sim_sleep (5 * MS); SIM_CHECK (!R->freed, "free-did-not-wait", "the pool was freed under a running job"); R->running--; R->done++; return nullptr; }
void * race_self (void * a) { race_job (a); R->live_refs--; iot_threadpool_free (R->pool); return nullptr; }
void run_race (const Plan & p)
{
  Race r; R = &r;
  sim_heap_mark ();
  iot_logger_t * log = make_logger (p.k (K_LOG));
  r.pool = iot_threadpool_alloc ((uint16_t) p.k (K_THREADS), 0, -1, -1, log);
  iot_threadpool_start (r.pool);
  int na = (int) p.k (K_ACTORS);
  std::vector<int> ids;
  r.live_refs = 1;
  auto ops = by_actor (p, na);
  for (int i = 0; i < na; i++)
  {
    iot_threadpool_add_ref (r.pool); r.live_refs++;
    std::vector<Op> o = ops[(size_t) i];
    ids.push_back (sim_spawn ("holder", [o]
    {
      bool gave = false;
      for (auto & x : o)
      {
        if (x.code == OP_ADD) iot_threadpool_add_work (R->pool, race_job, nullptr, (int) x.a);
        else if (x.code == OP_TRY && !gave) { gave = true; iot_threadpool_add_work (R->pool, race_self, nullptr, -1); break; } // hands its reference to a job
        else if (x.code == OP_WAIT) iot_threadpool_wait (R->pool);
        else if (x.code == OP_SLEEP) sim_sleep ((uint64_t) x.b);
      }
      if (!gave) { R->live_refs--; iot_threadpool_free (R->pool); }
    }));
  }
  // every holder may still hand work in: earlier releases leave the pool fully usable
  for (auto & x : ops.empty () ? std::vector<Op> () : ops[0]) if (x.code == OP_ADD) iot_threadpool_add_work (r.pool, race_job, nullptr, -1);
  r.live_refs--;
  iot_threadpool_free (r.pool);
  sim_join_all (ids);
  bool ok = sim_wait_until ([] { return sim_live_threads () == 0; }, 120 * SEC);
  r.freed = true;
  SIM_CHECK (ok, "threads-left", "%d pool threads still alive after the last release", sim_live_threads ());
  SIM_CHECK (r.running == 0, "free-did-not-wait", "jobs were still running at the end");
  iot_logger_free (log);
  check_no_leaks ("thread pool release race");
}
void gen_race (Rng & r, Plan & p)
{
  gen_mix (r, p, { 6, 2, 0, 0, 0, 2, 0 }, (int) r.logrange (1, 14), 4);
}
}

SCENARIO (tp_exactly_once, "P01", gen_p01, run, nullptr, 1, "dr");
SCENARIO (tp_bounds, "P02", gen_p02, run, nullptr, 1, "dr");
SCENARIO (tp_order, "P03", gen_p03, run, nullptr, 1, "dr");
SCENARIO (tp_wait, "P04", gen_p04, run, nullptr, 1, "dr");
SCENARIO (tp_stop_start, "P05", gen_p05, run, nullptr, 1, "dr");
SCENARIO (tp_free, "P06", gen_p06, run, nullptr, 1, "dr");
SCENARIO (tp_work_conserving, "P07", gen_p07, run, nullptr, 1, "dr");
SCENARIO (tp_free_race, "P06", gen_race, run_race, nullptr, 1, "dr");
