// Scheduler: S01 .. S07
#include "common.h"
#include "iot/scheduler.h"

namespace
{
enum { OP_ADD, OP_REMOVE, OP_RESET, OP_DELETE, OP_CONC, OP_SYNC, OP_STOP, OP_START, OP_SLEEP, OP_STEP, OP_REF, OP_PSTOP, OP_PSTART, OP_WSTATE, OP_RECB, OP_DEF = 20, OP_DEF2, OP_DEF3 };
enum { F_CONC = 1, F_SYNC = 2, F_RUNCB = 4, F_ABORT = 8, F_SHARED = 16, F_POOL = 32, F_AUTO = 64, F_NOFREE = 128 };
enum { SELF_NONE, SELF_REMOVE, SELF_RESET, SELF_DELETE, SELF_RC_RESET, SELF_RC_REMOVE, SELF_RC_DELETE, SELF_AB_REMOVE, SELF_AB_RESET, SELF_AB_DELETE, SELF_COUNT };
enum { K_SCALE = 1, K_PTHREADS, K_PMAX, K_LOG, K_END, K_FAULTS, K_ACTORS, K_PRIO, K_STARTED, K_BACK, K_CFG };
enum { E_DELETE_ALL, E_FREE_ALL, E_POOL_FIRST, E_NO_WAIT, E_COUNT };
static const uint64_t NEVER = UINT64_MAX;
static const uint64_t SLOP = 10 * US;

struct Sch
{
  int id = 0, owner = 0; bool defined = false;
  int64_t flags = 0, self = 0; uint64_t repeat = 0, period = 0, delay = 0, dur = 0, cbdur = 0;
  iot_schedule_t * s = nullptr;
  bool loose = false;              // operated on by several threads, or by its own callbacks
  bool conc = false, sync = false, toggled = false;
  bool overlap_ok = false;         // runs may overlap (concurrent, or handed out while it was)
  // counts
  int trigs = 0, fns = 0, ended = 0, aborts = 0, active = 0, frees = 0;
  bool deleting = false, deleted = false;
  // queued status as the owner knows it
  bool queued = false, q_known = true;
  bool skip_possible = false, n_unknown = false; uint64_t n = 0;   // repeats: n == 0 for ever
  int trig_base = 0;
  // lower bound
  uint64_t E = 0, prevE = 0, graceE = NEVER, pendE = NEVER, m_grace = 0;
  uint64_t base0 = 0; bool simple = true;                           // k-th run bound for schedules without run callback
  bool updated = false;                                             // E may be relied on after a trigger
  // upper bound
  bool armed = false; uint64_t dub = 0, dstamp = 0, since = 0;
  // last trigger and last run
  uint64_t t_last = 0, m_last = 0, m_end = 0; bool has_last = false;
  // removal
  bool unc = false, removed = false; uint64_t m_removed = 0; int after = 0, fns_after = 0; bool in_call = false, adding = false, nu_sticky = false;
  int adds_true = 0, removes_true = 0, removes_begun = 0, adds_begun = 0, adds_open = 0; bool cb_removed = false;
};

struct ST
{
  iot_scheduler_t * sd = nullptr; iot_threadpool_t * pool = nullptr; iot_logger_t * log = nullptr;
  std::deque<Sch> v;
  uint64_t scale = MS;
  bool running = false, ctrl_busy = false; uint64_t running_since = 0, m_stopped = 0; int after_stop = 0; bool stop_known = false, freed = false, freeing = false;
  int thread = -1; int sync_active = 0;
  std::vector<std::pair<uint64_t, uint64_t>> busy; uint64_t busy_open = 0; int busy_depth = 0;
  std::vector<std::pair<uint64_t, int64_t>> offs;  // wall clock offset history
  std::vector<std::pair<uint64_t, uint64_t>> libs; uint64_t lib = 0, last_back = 0, lib_m0 = 0;  // library clock readings
  bool agents = false;      // thread creation may fail
  std::vector<int> waiters; bool ctrl_shared = false; bool pool_stops = false;
};
ST * T;
#define DBG(...) do { if (getenv ("SIM_DBG")) { fprintf (stderr, "%12llu f%d ", (unsigned long long) sim_now (), sim_self ()); fprintf (stderr, __VA_ARGS__); fputc ('\n', stderr); } } while (0)

uint64_t busy_between (uint64_t a, uint64_t b)   // idle time spent while the scheduler thread sleeps in a callback
{
  uint64_t n = 0;
  for (auto & x : T->busy) { uint64_t lo = std::max (a, x.first), hi = std::min (b, x.second); if (lo < hi) n += sim_idle_between (lo, hi); }
  if (T->busy_depth) { uint64_t lo = std::max (a, T->busy_open); if (lo < b) n += sim_idle_between (lo, b); }
  return n;
}
uint64_t free_idle (uint64_t a, uint64_t b) { return b <= a ? 0 : sim_idle_between (a, b) - busy_between (a, b); }
uint64_t nonidle (uint64_t a, uint64_t b) { return b <= a ? 0 : (b - a) - sim_idle_between (a, b) + busy_between (a, b); }
void busy_enter () { if (T->busy_depth++ == 0) T->busy_open = sim_now (); }
void busy_leave () { if (--T->busy_depth == 0) T->busy.push_back ({ T->busy_open, sim_now () }); }

// first moment from which the wall clock has reached d, ignoring moments undone by a backward step before the threads came to rest
uint64_t real_to_mono (uint64_t d, uint64_t from = 0, uint64_t slack = 0)
{
  for (size_t i = 0; i < T->offs.size (); i++)
  {
    uint64_t a = T->offs[i].first, b = i + 1 < T->offs.size () ? T->offs[i + 1].first : NEVER;
    int64_t m = (int64_t) d - T->offs[i].second;
    uint64_t t = std::max (from, m < (int64_t) a ? a : (uint64_t) m);
    if (t >= b) continue;
    bool undone = false;
    for (size_t j = i + 1; j < T->offs.size () && !undone && free_idle (t, T->offs[j].first) <= slack; j++)
      undone = (int64_t) T->offs[j].first + T->offs[j].second < (int64_t) (d + slack);
    if (undone) continue;
    return t;
  }
  return NEVER;
}
uint64_t real_to_mono_first (uint64_t d, uint64_t from)   // first moment at which the wall clock shows at least d
{
  for (size_t i = 0; i < T->offs.size (); i++)
  {
    uint64_t a = T->offs[i].first, b = i + 1 < T->offs.size () ? T->offs[i + 1].first : NEVER;
    int64_t m = (int64_t) d - T->offs[i].second;
    uint64_t t = std::max (from, m < (int64_t) a ? a : (uint64_t) m);
    if (t < b) return t;
  }
  return NEVER;
}
uint64_t lib_now () { T->lib_m0 = sim_now (); uint64_t m0 = T->lib_m0, t = iot_time_nsecs (); T->lib_m0 = m0; T->lib = std::max (T->lib, t); T->libs.push_back ({ sim_now (), T->lib }); return t; }

uint64_t due_mono (const Sch & c)
{
  uint64_t from = std::max (std::max (c.dstamp, c.since), T->running_since);
  uint64_t dub = c.dub;
  // a triggering may have taken its next start time from the clock after a forward step
  for (size_t i = 1; i < T->offs.size (); i++)
    if (T->offs[i].second > T->offs[i - 1].second && ((T->offs[i].first >= c.dstamp && free_idle (c.dstamp, T->offs[i].first) == 0) || (T->offs[i].first >= c.m_end && free_idle (c.m_end, T->offs[i].first) == 0))) dub += (uint64_t) (T->offs[i].second - T->offs[i - 1].second);
  uint64_t u = real_to_mono (dub, from, nonidle (c.dstamp, sim_now ()) + SLOP);
  // known to be due on the library's clock although the wall clock was stepped back
  uint64_t sure = dub + nonidle (c.dstamp, sim_now ()) + SLOP;
  if (T->lib > sure && T->last_back <= std::max (c.since, T->running_since))
  {
    size_t lo = 0, hi = T->libs.size ();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (T->libs[m].second <= sure) lo = m + 1; else hi = m; }
    if (lo < T->libs.size ()) u = std::min (u, std::max (std::max (c.since, T->running_since), T->libs[lo].first));
  }
  return u;
}

void skip_update (Sch & c);
void s02_check (Sch & c, const char * where)
{
  if (!c.armed || !T->running || T->freeing) return;
  skip_update (c);
  if (!c.armed) return;
  uint64_t u = due_mono (c), now = sim_now ();
  if (u == NEVER || u >= now) return;
  uint64_t late = free_idle (u, now), slack = nonidle (std::min (c.dstamp, u), now) + SLOP;
  if (late > slack) DBG ("%s", sim_describe ().c_str ());
  SIM_CHECK (late <= slack, "lost-wakeup", "schedule %d (period %llu ns) was due but not triggered for %llu ns during which every thread was waiting (%s)", c.id, (unsigned long long) c.period, (unsigned long long) late, where);
}
void s02_all (const char * where) { for (auto & c : T->v) s02_check (c, where); }

void arm (Sch & c, uint64_t dub, uint64_t stamp)   // stamp: moment of the clock reading the bound derives from
{
  c.dub = dub; c.dstamp = stamp;
  c.armed = !c.loose && !c.deleted && c.q_known && c.queued && !c.in_call && ((c.flags & F_RUNCB) || (c.sync && !c.toggled)) && !c.n_unknown && !T->agents;
  if (c.n && c.trigs - c.trig_base >= (int) c.n) c.armed = false;
  if (!c.conc && (!c.sync || c.toggled) && c.trigs - c.aborts - c.ended > 0) c.armed = false;   // may be skipped: waits for the end of the run
}

void skip_update (Sch & c)     // could a triggering have been skipped since the last one seen?
{
  if (c.conc || c.sync || !c.has_last) return;
  if (T->agents) { c.skip_possible = true; return; }
  uint64_t due = real_to_mono_first (c.t_last + c.period, c.m_last), now = sim_now ();
  bool pending = c.trigs - c.aborts - c.ended > 0;
  if (due <= now && (pending || sim_idle_between (c.m_end, due) == 0)) c.skip_possible = true;
  if (c.skip_possible && c.n) { c.n_unknown = true; c.armed = false; }
}

// A triggering observed: run callback, or the start of a sync run without one
void trigger (Sch & c)
{
  uint64_t m0 = sim_now (), t = lib_now (), m = sim_now ();
  SIM_CHECK (!T->freed, "used-after-free", "schedule %d is triggered after the scheduler was freed", c.id);
  SIM_CHECK (!c.frees, "used-after-free", "schedule %d is triggered after its argument was released", c.id);
  if (T->thread < 0) T->thread = sim_self ();
  SIM_CHECK (sim_self () == T->thread, "wrong-thread", "schedule %d is triggered by another thread than the scheduler's", c.id);
  DBG ("trigger %d t=%llu E=%llu grace=%lld n=%llu trigs=%d", c.id, (unsigned long long) t, (unsigned long long) c.E, (long long) c.graceE, (unsigned long long) c.n, c.trigs);
  s02_check (c, "at the triggering");
  if (T->stop_known)
  {
    SIM_CHECK (free_idle (T->m_stopped, m) == 0, "ran-while-stopped", "schedule %d is triggered although the scheduler was stopped and every thread was waiting since", c.id);
    SIM_CHECK (!c.sync || c.toggled || (c.flags & F_RUNCB), "ran-while-stopped", "synchronous schedule %d is run after the scheduler was stopped", c.id);   // decided and run in one step
    SIM_CHECK (++T->after_stop <= 1, "ran-while-stopped", "a second triggering (of schedule %d) follows the stop", c.id);
    sim_probe ("trigger_after_stop");
  }
  if (c.removed && !c.in_call)
  {
    SIM_CHECK (free_idle (c.m_removed, m) == 0, "ran-after-remove", "schedule %d is triggered although it was removed and every thread was waiting since", c.id);
    SIM_CHECK (++c.after <= 1, "ran-after-remove", "a second triggering of schedule %d follows its removal", c.id);
    sim_probe ("trigger_after_remove");
  }
  SIM_CHECK (!c.cb_removed, "ran-after-remove", "schedule %d is triggered although its own callback removed it and nothing added it since", c.id);
  skip_update (c);
  if (!c.queued && (!c.adding || (c.removed && free_idle (c.m_removed, m) == 0))) c.n_unknown = c.nu_sticky = true;   // removed meanwhile: does not use up a repetition
  c.trigs++;
  if (c.n && !c.n_unknown) SIM_CHECK (c.trigs - c.trig_base <= (int) c.n, "too-many-repeats", "schedule %d is triggered %d times, repeat count is %llu", c.id, c.trigs - c.trig_base, (unsigned long long) c.n);
  if (!c.loose && (c.updated || c.trigs == 1 || true))
  {
    if (c.graceE != NEVER && free_idle (c.m_grace, m) > 0) c.graceE = NEVER;
    bool ok = t > c.E, grace = false;
    if (!ok && c.in_call && c.pendE != NEVER && t > c.pendE) ok = true;
    // a triggering that was under way when a reset took effect: the reset start time stands afterwards
    if (c.graceE != NEVER && t > c.graceE) { ok = grace = true; c.graceE = NEVER; sim_probe ("reset_in_flight"); }
    SIM_CHECK (ok, "too-early", "schedule %d is triggered %llu ns too early (period %llu ns)", c.id, (unsigned long long) (c.E - t), (unsigned long long) c.period);
    if (!grace && (c.queued || c.in_call) && !c.unc)
    {
      c.prevE = c.E; c.E = t + c.period;
    }
    uint64_t d = t + c.period;
    if (grace) d = std::max (d, c.dub);
    if (grace && !c.conc && !c.sync && c.n) c.n_unknown = true;   // the reset start may be due during this run: skipped
    c.has_last = true; c.t_last = t; c.m_last = m;
    if (c.conc || c.sync) arm (c, d, m0); else { c.armed = false; c.dub = d; c.dstamp = m0; }
  }
  else { c.has_last = true; c.t_last = t; c.m_last = m; }
  sim_state (hmix (hmix ((uint64_t) c.id * 64 + (uint64_t) c.active, (uint64_t) (c.trigs - c.aborts - c.ended)), 77));
}

bool do_op (Sch & c, int code, int64_t b);

// removal on the scheduler's own thread: no triggering can be under way
void remove_in_callback (Sch & c)
{
  int before = c.adds_begun;
  bool open = c.adds_open != 0;
  do_op (c, OP_REMOVE, 0);
  if (c.adds_begun == before && !open && c.adds_open == 0) c.cb_removed = true;
}

// waits until every thread is blocked, the scheduler's one not in a callback
void settle ()
{
  uint64_t m = sim_now ();
  for (int i = 0; i < 100000 && free_idle (m, sim_now ()) == 0; i++) sim_sleep (100 * US + T->scale / 4);
}

void * run_cb (void * a)
{
  Sch & c = *(Sch *) a;
  trigger (c);
  SIM_CHECK (c.trigs >= c.fns + c.aborts, "callback-missing", "schedule %d: %d runs and %d aborts but %d run callbacks", c.id, c.fns, c.aborts, c.trigs);
  busy_enter ();
  if (c.cbdur) sim_sleep (c.cbdur); else sim_yield ();
  if (c.self == SELF_RC_RESET) { sim_probe ("reset_in_run_cb"); iot_schedule_reset (T->sd, c.s, c.delay); }
  else if (c.self == SELF_RC_REMOVE && c.trigs % 3 == 0) { sim_probe ("remove_in_run_cb"); remove_in_callback (c); }
  else if (c.self == SELF_RC_DELETE && c.trigs == 2) { sim_probe ("delete_in_run_cb"); do_op (c, OP_DELETE, 0); }
  busy_leave ();
  return nullptr;
}

void * abort_cb (void * a)
{
  Sch & c = *(Sch *) a;
  SIM_CHECK (!c.frees, "used-after-free", "abort callback of schedule %d after its argument was released", c.id);
  c.aborts++;
  sim_probe ("aborted");
  SIM_CHECK (sim_self () == T->thread || T->thread < 0, "wrong-thread", "abort callback on another thread");
  if (c.flags & F_RUNCB) SIM_CHECK (c.trigs >= c.fns + c.aborts, "callback-missing", "schedule %d is aborted (%d runs, %d aborts) but had %d run callbacks", c.id, c.fns, c.aborts, c.trigs);
  if (!c.conc && !c.sync && !c.loose) { c.m_end = sim_now (); arm (c, std::max (c.dub, c.t_last + c.period), c.dstamp); c.m_end = sim_now (); }
  busy_enter ();
  if (c.cbdur) sim_sleep (c.cbdur); else sim_yield ();
  if (c.self == SELF_AB_RESET) { sim_probe ("reset_in_abort_cb"); iot_schedule_reset (T->sd, c.s, c.delay); }
  else if (c.self == SELF_AB_REMOVE) { sim_probe ("remove_in_abort_cb"); remove_in_callback (c); }
  else if (c.self == SELF_AB_DELETE && c.aborts == 2) { sim_probe ("delete_in_abort_cb"); do_op (c, OP_DELETE, 0); }
  busy_leave ();
  return nullptr;
}

void * fn (void * a)
{
  Sch & c = *(Sch *) a;
  SIM_CHECK (!c.frees, "used-after-free", "schedule %d runs after its argument was released", c.id);
  SIM_CHECK (c.aborts == 0 || !(c.flags & F_RUNCB) || c.trigs >= c.fns + 1 + c.aborts, "callback-missing", "schedule %d runs %d times and aborts %d times with %d run callbacks", c.id, c.fns + 1, c.aborts, c.trigs);
  if (c.flags & F_RUNCB) SIM_CHECK (c.trigs >= c.fns + 1, "callback-missing", "schedule %d runs before its run callback", c.id);
  bool on_sched = sim_self () == T->thread;
  if (c.sync && !c.toggled)
  {
    if (T->thread < 0) { T->thread = sim_self (); on_sched = true; }
    SIM_CHECK (on_sched, "wrong-thread", "synchronous schedule %d runs on another thread than the scheduler's", c.id);
  }
  if (!c.sync && !c.toggled) SIM_CHECK (!on_sched, "wrong-thread", "schedule %d runs on the scheduler's thread", c.id);
  SIM_CHECK (sim_is_lib_thread (sim_self ()), "wrong-thread", "schedule %d runs on a caller's thread", c.id);
  if (!(c.flags & F_RUNCB) && c.sync && on_sched) trigger (c);
  c.fns++;
  DBG ("fn %d", c.id);
  if (c.removed && !c.in_call && !c.overlap_ok && !c.toggled && !(c.flags & F_RUNCB) && !c.conc && !c.sync)
    SIM_CHECK (++c.fns_after <= 1, "ran-after-remove", "a second run of schedule %d begins after its removal", c.id);
  if (!c.loose && c.simple && !(c.flags & F_RUNCB))
  {
    int k = c.fns;
    uint64_t lo = c.base0 + (uint64_t) (k - 1) * c.period, t = lib_now ();
    SIM_CHECK (t > lo, "too-early", "run %d of schedule %d begins %llu ns too early", k, c.id, (unsigned long long) (lo - t));
    if (c.n) SIM_CHECK (c.fns <= (int) c.n, "too-many-repeats", "schedule %d runs %d times, repeat count is %llu", c.id, c.fns, (unsigned long long) c.n);
  }
  if (c.active) { SIM_CHECK (c.overlap_ok, "overlap", "schedule %d runs while its previous run is still active", c.id); sim_probe ("overlap"); }
  c.active++;
  if (on_sched) { busy_enter (); SIM_CHECK (++T->sync_active == 1, "sync-overlap", "two synchronous runs at the same time"); }
  if (c.dur) sim_sleep (c.dur); else sim_yield ();
  if (!on_sched)
  {
    if (c.self == SELF_REMOVE && c.fns % 3 == 0) { sim_probe ("remove_in_run"); do_op (c, OP_REMOVE, 0); }
    else if (c.self == SELF_RESET) { iot_schedule_reset (T->sd, c.s, c.delay); sim_probe ("reset_in_run"); }
    else if (c.self == SELF_DELETE && c.fns == 2) { sim_probe ("delete_in_run"); do_op (c, OP_DELETE, 0); }
  }
  SIM_CHECK (!c.frees, "used-after-free", "the argument of schedule %d was released during a run", c.id);
  if (on_sched) { T->sync_active--; busy_leave (); }
  DBG ("fn end %d", c.id);
  c.active--; c.ended++;
  if (!c.conc && (c.flags & F_RUNCB) && c.trigs - c.aborts - c.ended <= 0 && c.active == 0) c.overlap_ok = false;
  c.m_end = sim_now ();
  if (!c.loose) skip_update (c);
  if (!c.loose && !c.conc)
  {
    if (c.sync && on_sched) { uint64_t t = lib_now (); if (c.armed || c.queued) arm (c, std::max (c.dub, t + c.period), c.dstamp); }
    else if ((c.flags & F_RUNCB) && c.trigs - c.aborts - c.ended == 0) { uint64_t t = lib_now (); arm (c, std::max (c.dub, t + c.period), c.dstamp); }
  }
  return nullptr;
}

void free_cb (void * a)
{
  Sch & c = *(Sch *) a;
  c.frees++;
  SIM_CHECK (c.frees == 1, "freed-twice", "the argument of schedule %d is released twice", c.id);
  SIM_CHECK (c.active == 0, "freed-in-use", "the argument of schedule %d is released during a run", c.id);
  SIM_CHECK (c.deleting || T->freeing, "freed-undeleted", "the argument of schedule %d is released although it was not deleted", c.id);
  sim_yield ();
}

// ---------------------------------------------------------------- operations
void create (Sch & c)
{
  c.conc = c.flags & F_CONC; c.sync = !c.conc && (c.flags & F_SYNC);
  c.overlap_ok = c.conc; c.n = c.repeat;
  uint64_t t0 = lib_now ();
  c.E = c.prevE = c.base0 = t0 + c.delay;
  DBG ("create %d flags=%lld self=%lld period=%llu delay=%llu dur=%llu cbdur=%llu n=%llu t0=%llu", c.id, (long long) c.flags, (long long) c.self, (unsigned long long) c.period, (unsigned long long) c.delay, (unsigned long long) c.dur, (unsigned long long) c.cbdur, (unsigned long long) c.n, (unsigned long long) t0);
  c.s = iot_schedule_create (T->sd, fn, (c.flags & F_NOFREE) ? nullptr : free_cb, &c, c.period, c.delay, c.repeat, (c.flags & F_POOL) ? T->pool : nullptr, -1);
  c.dub = lib_now () + c.delay; c.dstamp = sim_now ();
  if (c.flags & F_RUNCB) iot_schedule_add_run_callback (T->sd, c.s, run_cb);
  if (c.flags & F_ABORT) iot_schedule_add_abort_callback (T->sd, c.s, abort_cb);
  if (c.flags & F_CONC)
  {
    iot_schedule_set_concurrent (c.s, true);
    SIM_CHECK (!iot_schedule_set_sync (c.s, true), "bad-exclusion", "a concurrent schedule was made synchronous");
  }
  if (c.sync) SIM_CHECK (iot_schedule_set_sync (c.s, true), "bad-exclusion", "schedule could not be made synchronous");
  if (c.flags & F_AUTO) do_op (c, OP_ADD, 0);
}

// is the repeat count certainly used up / certainly not
bool certainly_idle (const Sch & c) { return c.n && !c.n_unknown && (c.flags & F_RUNCB) && c.trigs - c.trig_base >= (int) c.n && free_idle (c.m_last, sim_now ()) > 0; }
bool certainly_left (const Sch & c)
{
  if (!c.n) return true;
  if (c.n_unknown || !((c.flags & F_RUNCB) || c.sync)) return false;
  return c.trigs - c.trig_base < (int) c.n && !c.skip_possible && (c.conc || c.sync);
}

bool do_op (Sch & c, int code, int64_t b)
{
  if (!c.s || c.deleting) return false;
  bool exact = !c.loose;
  DBG ("op %d on %d b=%lld queued=%d", code, c.id, (long long) b, c.queued);
  s02_check (c, "before the call");
  if (exact) skip_update (c);
  bool r = false;
  switch (code)
  {
    case OP_ADD:
    {
      bool idle = certainly_idle (c), left_before = certainly_left (c), was_q = c.queued;
      bool qknown = exact && c.q_known;
      c.adds_begun++; c.adds_open++; c.cb_removed = false;
      if (was_q || c.adds_begun > 1) c.simple = false;
      bool was_armed = c.armed;
      c.armed = false; c.in_call = true;
      if (!(was_q && !c.n)) { c.E = std::min (c.E, c.prevE); c.unc = true; }
      bool nu = c.n_unknown; uint64_t m0 = sim_now ();
      if (c.loose && c.adds_begun > 1) nu = true;
      if (nu || (was_q && c.n)) c.n_unknown = true;
      c.adding = true;
      r = iot_schedule_add (T->sd, c.s);
      c.adding = false; c.adds_open--;
      c.in_call = c.unc = false; c.n_unknown = nu || c.nu_sticky; c.nu_sticky = false;
      if (r)
      {
        c.E = std::min (c.E, c.prevE);
        c.adds_true++;
        if (c.loose && !c.n) SIM_CHECK (c.adds_true <= c.removes_begun + 1, "bad-result", "schedule %d: %d additions report success after %d removals", c.id, c.adds_true, c.removes_begun);
        c.removed = false; c.after = c.fns_after = 0;
      }
      if (exact)
      {
        if (qknown)
        {
          if (!was_q) SIM_CHECK (r, "bad-result", "adding the idle schedule %d reports no change", c.id);
          else if (idle) SIM_CHECK (r, "bad-result", "schedule %d used up its repeat count but cannot be queued again", c.id);
          else if (left_before && certainly_left (c)) SIM_CHECK (!r, "bad-result", "adding the queued schedule %d reports a change", c.id);
        }
        if (r && was_q) { sim_probe ("requeued_after_repeats"); c.n = 0; c.n_unknown = false; c.skip_possible = false; }
        if (r && !c.conc && !c.sync && c.has_last && !(c.trigs - c.aborts - c.ended == 0 && free_idle (c.m_end, m0) > 0)) { c.skip_possible = true; c.n_unknown = c.n_unknown || c.n; }
        if (r) { c.queued = true; c.since = sim_now (); arm (c, c.dub, c.dstamp); if (!c.conc && !c.sync && c.trigs - c.aborts - c.ended > 0) c.armed = false; c.simple = c.simple && c.adds_true == 1; }
        else if (was_armed) arm (c, c.dub, c.dstamp);
      }
      break;
    }
    case OP_REMOVE:
    {
      bool idle = certainly_idle (c), was_q = c.queued;
      c.removes_begun++;
      c.armed = false; c.in_call = true; c.simple = false;
      uint64_t m0 = sim_now ();
      r = iot_schedule_remove (T->sd, c.s);
      c.in_call = false;
      c.simple = false;
      if (r) { c.removes_true++; if (!(c.has_last && free_idle (c.m_last, m0) > 0)) c.n_unknown = true; }
      if (exact || c.self)
      {
        if (exact && c.q_known)
        {
          if (!was_q || idle) SIM_CHECK (!r, "bad-result", "removing schedule %d, which is not queued, reports a change", c.id);
          else if (certainly_left (c)) SIM_CHECK (r, "bad-result", "removing the queued schedule %d reports no change", c.id);
        }
        if (!c.loose) { c.queued = false; c.removed = true; c.m_removed = sim_now (); c.after = c.fns_after = 0; c.E = std::min (c.E, c.prevE); if (was_q && !r && c.n) { c.n = 0; c.n_unknown = true; } }
      }
      break;
    }
    case OP_RESET:
    {
      uint64_t t = lib_now ();
      uint64_t ne = t + (uint64_t) b + c.period;
      bool wasq = c.queued;
      c.pendE = ne; c.in_call = true; c.armed = false; c.simple = false;
      iot_schedule_reset (T->sd, c.s, (uint64_t) b);
      uint64_t r2 = lib_now ();
      c.in_call = false; c.pendE = NEVER;
      if (c.E < r2) { c.graceE = std::min (c.graceE, c.E); c.m_grace = sim_now (); }
      c.E = ne; c.prevE = ne;
      // a triggering under way when the reset took effect may still overwrite nothing: the reset stands
      if (exact) { uint64_t d = r2 + (uint64_t) b + c.period; arm (c, d, T->lib_m0); c.since = sim_now (); if (!wasq || (!c.conc && !c.sync && c.trigs - c.aborts - c.ended > 0)) c.armed = false; }
      break;
    }
    case OP_RECB: // the same callbacks once more, which changes nothing
      // b: around the time of its next run
      if (b && c.has_last)
      {
        uint64_t due = real_to_mono_first (c.t_last + c.period, c.m_last), now = sim_now ();
        if (due > now && due - now < 30 * SEC) sim_sleep (due - now);
      }
      for (int i = b ? 8 : 1; i > 0 && !c.deleting; i--)
      {
        if (c.flags & F_RUNCB) iot_schedule_add_run_callback (T->sd, c.s, run_cb);
        if (c.flags & F_ABORT) iot_schedule_add_abort_callback (T->sd, c.s, abort_cb);
      }
      if (c.flags & (F_RUNCB | F_ABORT)) sim_probe ("callbacks_again");
      break;
    case OP_DELETE:
      c.deleting = true; c.armed = false; c.in_call = true;
      iot_schedule_delete (T->sd, c.s);
      c.in_call = false; c.deleted = true; c.queued = false;
      if (!c.loose || !c.self) { c.removed = true; c.m_removed = sim_now (); c.after = c.fns_after = 0; }
      break;
    case OP_CONC:
      c.toggled = true; c.simple = false; c.armed = false; c.n_unknown = true;
      if (b && !c.sync) { c.overlap_ok = true; c.conc = true; }   // refused for a synchronous schedule; runs handed out before it was one may still overlap
      iot_schedule_set_concurrent (c.s, b != 0);
      if (!b) { c.conc = false; if (c.trigs - c.aborts - c.ended <= 0 && (c.flags & F_RUNCB) && c.active == 0) c.overlap_ok = false; }
      break;
    case OP_SYNC:
    {
      c.toggled = true; c.simple = false; c.armed = false; c.n_unknown = true;
      bool ok = iot_schedule_set_sync (c.s, b != 0);
      if (!c.loose) SIM_CHECK (ok == !(b && c.conc), "bad-exclusion", "setting schedule %d synchronous: %d", c.id, ok);
      if (ok) c.sync = b != 0;
      break;
    }
  }
  DBG ("op %d on %d done r=%d dub=%llu armed=%d", code, c.id, r, (unsigned long long) c.dub, c.armed);
  return r;
}

void do_stop ()
{
  s02_all ("before a stop");
  DBG ("stop");
  T->running = false; T->ctrl_busy = true;
  iot_scheduler_stop (T->sd);
  T->ctrl_busy = false;
  if (!T->ctrl_shared) { T->stop_known = true; T->m_stopped = sim_now (); T->after_stop = 0; }
}
void do_start ()
{
  bool was = T->running;
  DBG ("start");
  T->stop_known = false;
  if (was) { iot_scheduler_start (T->sd); return; }
  iot_scheduler_start (T->sd);
  T->running_since = sim_now ();
  T->running = !T->ctrl_shared;
}

void actor (int me, const std::vector<Op> & ops, bool ref)
{
  for (auto & o : ops)
  {
    if (o.code >= OP_DEF) continue;
    if (o.code <= OP_SYNC || o.code == OP_RECB)
    {
      Sch * c = nullptr;
      if (o.a < 0 || (size_t) o.a >= T->v.size ()) continue;
      c = &T->v[(size_t) o.a];
      if (!c->defined || !c->s) continue;
      if (!(c->flags & F_SHARED) && c->owner != me) continue;
      if (c->self == SELF_DELETE || c->self == SELF_RC_DELETE || c->self == SELF_AB_DELETE) continue;
      if ((c->loose) && (o.code == OP_DELETE || o.code == OP_SYNC || o.code == OP_CONC || o.code == OP_RECB)) continue;
      do_op (*c, o.code, o.b);
      continue;
    }
    switch (o.code)
    {
      case OP_STOP: if (me == 0 || T->ctrl_shared) do_stop (); break;
      case OP_START: if (me == 0 || T->ctrl_shared) do_start (); break;
      case OP_SLEEP: sim_sleep ((uint64_t) o.b); break;
      case OP_STEP:
      {
        sim_clock_step (o.b);
        DBG ("step %lld", (long long) o.b);
        if (o.b < 0) T->last_back = sim_now ();
        T->offs.push_back ({ sim_now (), T->offs.back ().second + o.b });
        sim_yield ();
        break;
      }
      case OP_REF: iot_scheduler_add_ref (T->sd); sim_yield (); iot_scheduler_free (T->sd); sim_probe ("early_release"); break;
      case OP_PSTOP: if (T->pool) { T->pool_stops = true; iot_threadpool_stop (T->pool); } break;
      case OP_PSTART: if (T->pool) iot_threadpool_start (T->pool); break;
      case OP_WSTATE:
        if (T->waiters.size () < 3)
        {
          iot_scheduler_add_ref (T->sd);
          T->waiters.push_back (sim_spawn ("state_waiter", []
          {
            iot_component_wait ((iot_component_t *) T->sd, (uint32_t) IOT_COMPONENT_STOPPED | (uint32_t) IOT_COMPONENT_STARTING);
            iot_scheduler_free (T->sd);
          }));
          sim_probe ("state_waiter");
        }
        break;
    }
  }
  if (ref) iot_scheduler_free (T->sd);
}

void run (const Plan & p)
{
  ST t; T = &t;
  int64_t f = p.k (K_FAULTS);
  t.scale = (uint64_t) p.k (K_SCALE);
  t.agents = (f & 2) != 0;
  t.ctrl_shared = (f & 16) != 0;
  if (f & 1) { sim_conf.fault_p[FK_SETPRIO_EPERM] = 0.3; sim_conf.fault_p[FK_THREAD_EPERM] = 0.3; }
  if (f & 4) sim_conf.fault_p[FK_SPURIOUS] = 0.05;
  sim_conf.max_time_ns = NEVER / 4;
  sim_conf.fault_p[FK_EINTR_SLEEP] = 0.05;
  t.offs.push_back ({ 0, (int64_t) sim_realtime () - (int64_t) sim_now () });
  for (auto & o : p.ops)
  {
    if (o.code < OP_DEF || o.a < 0 || o.a >= 16) continue;
    while (t.v.size () <= (size_t) o.a) { t.v.emplace_back (); t.v.back ().id = (int) t.v.size () - 1; t.v.back ().period = t.scale; }
    Sch & c = t.v[(size_t) o.a];
    if (o.code == OP_DEF) { c.defined = true; c.owner = o.actor; c.flags = o.b & 0xffff; c.self = o.b >> 16; c.repeat = (uint64_t) o.c; }
    else if (o.code == OP_DEF2) { c.period = std::max<uint64_t> ((uint64_t) o.b, 50); c.delay = (uint64_t) o.c; }
    else { c.dur = (uint64_t) o.b; c.cbdur = (uint64_t) o.c; }
    // a run must not use a scheduler that may have been freed
    if (p.k (K_END) == E_NO_WAIT && c.self < SELF_RC_RESET) c.self = SELF_NONE;
    c.loose = (c.flags & F_SHARED) || c.self;
  }
  // synchronous runs hold the scheduler's lock: leave time for the others
  bool syncs = false;
  for (auto & o : p.ops) if (o.code == OP_SYNC) syncs = true;
  for (auto & c : t.v) if ((c.flags & F_SYNC) || syncs) { c.dur = std::min (c.dur, c.period / 16); c.cbdur = std::min (c.cbdur, c.period / 16); }
  sim_heap_mark ();
  t.log = make_logger (p.k (K_LOG));
  int lib0 = 0;
  if (p.k (K_PTHREADS) > 0)
  {
    t.pool = make_pool ((int) p.k (K_CFG), (int) p.k (K_PTHREADS), (uint32_t) p.k (K_PMAX), -1, -1, t.log);
    iot_threadpool_start (t.pool);
    lib0 = sim_live_threads ();
  }
  t.sd = make_scheduler ((int) p.k (K_CFG), (int) p.k (K_PRIO), -1, t.log);
  SIM_CHECK (sim_live_threads () == lib0 + 1, "thread-missing", "the scheduler has no thread");
  t.thread = sim_thread_count () - 1;
  if (t.agents) sim_conf.fault_p[FK_THREAD_EAGAIN] = 0.2;
  if (p.k (K_STARTED)) do_start ();
  if (p.k (K_BACK) > 0) // from here on the library's clock stands still, but for one ns per reading
  {
    lib_now ();
    sim_clock_step (-p.k (K_BACK));
    T->last_back = sim_now ();
    T->offs.push_back ({ sim_now (), T->offs.back ().second - p.k (K_BACK) });
    sim_probe ("clock_back_at_creation");
  }
  for (auto & c : t.v) if (c.defined) create (c);
  int na = (int) p.k (K_ACTORS);
  auto ops = by_actor (p, na);
  std::vector<int> ids;
  for (int i = 0; i < na; i++)
  {
    std::vector<Op> o = ops[(size_t) i];
    bool ref = (f & 8) && (i & 1);
    if (ref) iot_scheduler_add_ref (t.sd);
    ids.push_back (sim_spawn ("actor", [i, o, ref] { actor (i, o, ref); }));
  }
  sim_join_all (ids);
  if (t.pool && t.pool_stops) iot_threadpool_start (t.pool);
  int end = (int) p.k (K_END);
  if (end != E_NO_WAIT)
  {
    t.ctrl_shared = false;
    if (!t.running) do_start ();
    s02_all ("at the end of the operations");
    // every queued schedule must keep being triggered
    uint64_t m_end = sim_now ();
    for (int round = 0; round < 30; round++)
    {
      if (sim_now () > m_end + 200 * t.scale + 100 * MS) break;
      uint64_t now = sim_now (), next = 0;
      bool finite = false;
      for (auto & c : t.v)
      {
        if (!c.armed) continue;
        uint64_t u = due_mono (c);
        if (c.n && c.trigs - c.trig_base < (int) c.n) finite = true;
        if (u != NEVER) next = std::max (next, u);
      }
      if (next < now) next = now;
      sim_sleep (next - now + 50 * US + t.scale / 4);
      s02_all ("after the operations");
      if (!finite && round >= 2) break;
    }
    for (auto & c : t.v)
    {
      if (!c.s || c.loose || c.deleted || c.toggled || t.agents || !c.n || !c.queued || !c.q_known) continue;
      skip_update (c);
      if (c.n_unknown || c.trigs - c.trig_base >= (int) c.n || !((c.flags & F_RUNCB) || c.sync)) continue;
      if (c.period > 100 * t.scale || c.delay > 200 * t.scale || c.n > 40) continue;
      sim_wait_until ([&c] { return c.trigs - c.trig_base >= (int) c.n || c.skip_possible || !c.n_unknown; }, (c.n + 2) * (c.period + c.dur + c.cbdur) + c.delay);
    }
    for (auto & c : t.v)
    {
      if (!c.s || c.loose || c.deleted || !c.queued || !c.q_known) continue;
      if (certainly_idle (c)) { SIM_CHECK (!iot_schedule_remove (t.sd, c.s), "not-idle", "schedule %d is still queued after its %llu repeats", c.id, (unsigned long long) c.n); sim_probe ("repeats_used_up"); }
    }
    s02_all ("at the end");
  }
  else sim_probe ("end_at_once");
  sim_conf.fault_p[FK_THREAD_EAGAIN] = 0;
  do_stop ();
  if (!t.waiters.empty ()) sim_join_all (t.waiters);
  if (end == E_DELETE_ALL)
  {
    for (auto & c : t.v) if (c.s && !c.deleting) do_op (c, OP_DELETE, 0);
  }
  if (end == E_NO_WAIT) { t.stop_known = false; iot_scheduler_start (t.sd); }
  if (end == E_POOL_FIRST && t.pool) { settle (); iot_threadpool_wait (t.pool); iot_threadpool_free (t.pool); t.pool = nullptr; }
  if (end != E_NO_WAIT)
  {
    settle ();
    // pool and threads drain; then the account must balance
    if (t.pool) iot_threadpool_wait (t.pool);
    auto quiet = [] { for (int i = T->thread + 1; i < sim_thread_count (); i++) if (sim_is_lib_thread (i) && sim_thread_alive (i)) return false; for (auto & c : T->v) if (c.active) return false; return true; };
    SIM_CHECK (sim_wait_until (quiet, 100 * SEC + 100 * t.scale), "run-not-finished", "runs do not finish");
    if (t.pool) iot_threadpool_wait (t.pool);
    t.stop_known = false;
    for (auto & c : t.v)
    {
      if (!c.s) continue;
      if ((c.flags & F_RUNCB) && (!t.agents || (c.flags & F_POOL)))
        SIM_CHECK (!(c.flags & F_ABORT) || c.trigs == c.fns + c.aborts, "account", "schedule %d: %d run callbacks, %d runs, %d aborts", c.id, c.trigs, c.fns, c.aborts);
      if (!c.deleting)
      {
        uint64_t d = iot_schedule_dropped (c.s);
        if (c.flags & F_ABORT) SIM_CHECK (d == (uint64_t) c.aborts, "account", "schedule %d: %llu dropped, %d aborts", c.id, (unsigned long long) d, c.aborts);
        if ((c.flags & F_RUNCB) && (!t.agents || (c.flags & F_POOL)))
          SIM_CHECK ((uint64_t) c.trigs == (uint64_t) c.fns + d, "account", "schedule %d: %d run callbacks, %d runs, %llu dropped", c.id, c.trigs, c.fns, (unsigned long long) d);
        if (!(c.flags & F_POOL)) SIM_CHECK (d == 0, "account", "schedule %d has no pool but %llu dropped runs", c.id, (unsigned long long) d);
        if (d) sim_probe ("dropped");
        if (c.loose && !c.n && !c.self)
        {
          bool q = iot_schedule_remove (t.sd, c.s);
          SIM_CHECK (c.adds_true - c.removes_true == (q ? 1 : 0), "bad-result", "schedule %d: %d additions and %d removals report success but it is %s", c.id, c.adds_true, c.removes_true, q ? "queued" : "idle");
        }
      }
      else if (!(c.flags & F_NOFREE)) SIM_CHECK (c.frees == 1, "not-freed", "the argument of the deleted schedule %d was released %d times", c.id, c.frees);
    }
  }
  t.freeing = true;
  iot_scheduler_free (t.sd);
  t.freed = true;
  if (t.pool) { iot_threadpool_wait (t.pool); iot_threadpool_free (t.pool); }
  SIM_CHECK (sim_wait_until ([] { return sim_live_threads () == 0; }, 200 * SEC + 100 * t.scale), "threads-left", "%d threads still alive after the scheduler was freed: %s", sim_live_threads (), sim_describe ().c_str ());
  for (auto & c : t.v) if (c.s && !(c.flags & F_NOFREE)) SIM_CHECK (c.frees == 1, "not-freed", "the argument of schedule %d was released %d times", c.id, c.frees);
  iot_logger_free (t.log);
  check_no_leaks ("scheduler");
}

// ---------------------------------------------------------------- generation
struct Mix { int add, remove, reset, del, conc, sync, stop, start, sleep, step, ref, pstop, pstart, wstate; };

void gen_mix (Rng & r, Plan & p, Mix m, int nops)
{
  uint64_t scale = r.logrange (std::max<uint64_t> (20 * US, 3000 * (uint64_t) p.knobs[0]), r.chance (0.1) ? 3600 * SEC : 100 * MS);
  int na = 1 + (int) r.below (3), ns = 1 + (int) r.below (r.chance (0.3) ? 6 : 3);
  p.knobs.resize (1);
  p.knobs.push_back ((int64_t) scale);
  p.knobs.push_back (r.chance (0.75) ? 1 + (int64_t) r.below (3) : 0);
  p.knobs.push_back (r.chance (0.5) ? 0 : 1 + (int64_t) r.below (3));
  p.knobs.push_back (r.chance (0.15) ? 5 : r.chance (0.15) ? 2 : 0);
  p.knobs.push_back ((int64_t) r.below (3));
  p.knobs.push_back ((r.chance (0.2) ? 1 : 0) | (r.chance (0.3) ? 4 : 0) | (r.chance (0.2) ? 8 : 0));
  p.knobs.push_back (na);
  p.knobs.push_back (r.chance (0.2) ? (int64_t) r.below (30) : -1);
  p.knobs.push_back (r.chance (0.7));
  auto mul = [&] (double lo, double hi) { return (int64_t) ((double) scale * (lo + (hi - lo) * r.unit ())); };
  for (int i = 0; i < ns; i++)
  {
    int64_t fl = 0;
    int own = (int) r.below ((uint64_t) na);
    if (r.chance (0.3)) fl |= F_CONC;
    if (r.chance (0.25)) fl |= F_SYNC;
    if (r.chance (0.75)) fl |= F_RUNCB;
    if (r.chance (0.7)) fl |= F_ABORT;
    if (p.knobs[K_PTHREADS] && r.chance (0.6)) fl |= F_POOL;
    if (r.chance (0.6)) fl |= F_AUTO;
    if (r.chance (0.1)) fl |= F_NOFREE;
    if (r.chance (0.15)) fl |= F_SHARED;
    int64_t self = r.chance (0.1) ? (int64_t) r.below (SELF_COUNT) : 0;
    p.ops.push_back ({ own, OP_DEF, i, fl | (self << 16), r.chance (0.5) ? 0 : 1 + (int64_t) r.below (5) });
    p.ops.push_back ({ own, OP_DEF2, i, mul (1, r.chance (0.3) ? 20 : 3), r.chance (0.4) ? 0 : mul (0, r.chance (0.2) ? 30 : 3) });
    p.ops.push_back ({ own, OP_DEF3, i, r.chance (0.5) ? 0 : mul (0, r.chance (0.3) ? 4 : 1), r.chance (0.8) ? 0 : mul (0, 0.7) });
  }
  // schedules whose times fall on the same instant of the library's clock
  bool twins = r.chance (0.25);
  p.knobs.push_back (twins && r.chance (0.8) ? mul (0.1, 2) : 0);
  p.knobs.push_back (r.chance (0.15) ? 1 + (int64_t) r.below (16) : 0);
  if (twins)
  {
    int64_t d = mul (0, 2), pe = mul (1, 3), step = std::max<int64_t> (p.knobs[0], 1), w1 = 3 + (int64_t) r.below (20), w2 = r.chance (0.5) ? 1 : step * (1 + (int64_t) r.below (100));
    for (auto & o : p.ops) if (o.code == OP_DEF2) { o.b = pe + (int64_t) r.below (8) * w2; o.c = d + (int64_t) r.below ((uint64_t) w1); }
    for (auto & o : p.ops) if (o.code == OP_DEF && r.chance (0.8)) o.b |= F_AUTO;
  }
  int w[] = { m.add, m.remove, m.reset, m.del, m.conc, m.sync, m.stop, m.start, m.sleep, m.step, m.ref, m.pstop, m.pstart, m.wstate };
  int tot = 0; for (int x : w) tot += x;
  for (int i = 0; i < nops; i++)
  {
    int x = (int) r.below ((uint64_t) tot), code = 0;
    while ((x -= w[code]) >= 0) code++;
    Op o { (int) r.below ((uint64_t) na), code, 0, 0, 0 };
    if (code <= OP_SYNC)
    {
      o.a = (int64_t) r.below ((uint64_t) ns);
      int64_t fl = p.ops[(size_t) o.a * 3].b;
      if (!(fl & F_SHARED)) o.actor = p.ops[(size_t) o.a * 3].actor;
      if (code == OP_RESET) o.b = r.chance (0.4) ? 0 : mul (0, r.chance (0.3) ? 10 : 2);
      if (code == OP_CONC || code == OP_SYNC) o.b = (int64_t) r.below (2);
    }
    else if (code == OP_STOP || code == OP_START) o.actor = 0;
    else if (code == OP_SLEEP) o.b = r.chance (0.3) ? (int64_t) r.logrange (1, 100000) : mul (0, r.chance (0.2) ? 8 : 2);
    else if (code == OP_STEP) { o.b = mul (0, r.chance (0.2) ? 20 : 2); if (r.chance (0.5)) o.b = -o.b; }
    p.ops.push_back (o);
  }
  if (r.chance (0.25)) for (int i = 0, n = 1 + (int) r.below (4); i < n; i++)
  {
    int64_t a = (int64_t) r.below ((uint64_t) ns);
    size_t at = (size_t) ns * 3 + (size_t) r.below (p.ops.size () - (size_t) ns * 3 + 1);
    p.ops.insert (p.ops.begin () + (long) at, Op { p.ops[(size_t) a * 3].actor, OP_RECB, a, (int64_t) r.below (2), 0 });
  }
}
//                                          add rem res del con syn stp sta slp step ref pst psr wst
void gen_s01 (Rng & r, Plan & p) { gen_mix (r, p, { 4, 2, 8, 0, 0, 0, 1, 2, 8, 2, 0, 0, 0, 0 }, (int) r.logrange (2, 25)); }
void gen_s02 (Rng & r, Plan & p) { gen_mix (r, p, { 6, 4, 5, 0, 0, 0, 2, 3, 8, 2, 0, 0, 0, 2 }, (int) r.logrange (2, 25)); }
void gen_s03 (Rng & r, Plan & p)
{
  gen_mix (r, p, { 5, 1, 1, 0, 0, 0, 1, 2, 6, 1, 0, 0, 0, 0 }, (int) r.logrange (1, 14));
  for (auto & o : p.ops) if (o.code == OP_DEF && r.chance (0.7)) { if (!o.c) o.c = 1 + (int64_t) r.below (6); o.b |= F_RUNCB; }
}
void gen_s04 (Rng & r, Plan & p)
{
  gen_mix (r, p, { 3, 1, 2, 0, 3, 2, 1, 2, 7, 0, 0, 0, 0, 0 }, (int) r.logrange (1, 18));
  int64_t scale = p.knobs[K_SCALE];
  for (auto & o : p.ops) if (o.code == OP_DEF3 && r.chance (0.7)) o.b = (int64_t) ((double) scale * r.unit () * 6);
  p.knobs[K_PTHREADS] = std::max<int64_t> (p.knobs[K_PTHREADS], 1 + (int64_t) r.below (3));
}
void gen_s05 (Rng & r, Plan & p) { gen_mix (r, p, { 6, 7, 2, 4, 0, 0, 1, 2, 7, 0, 0, 0, 0, 0 }, (int) r.logrange (2, 30)); if (r.chance (0.15)) p.knobs[K_FAULTS] |= 2; for (auto & o : p.ops) if (o.code == OP_DEF && r.chance (0.3)) { if (r.chance (0.5)) o.b |= F_SHARED; else o.b |= (int64_t) r.below (SELF_COUNT) << 16; } }
void gen_s06 (Rng & r, Plan & p)
{
  gen_mix (r, p, { 4, 2, 2, 1, 0, 0, 1, 2, 7, 0, 0, 4, 3, 0 }, (int) r.logrange (2, 22));
  p.knobs[K_PTHREADS] = 1 + (int64_t) r.below (2); p.knobs[K_PMAX] = 1 + (int64_t) r.below (2);
  int64_t scale = p.knobs[K_SCALE];
  for (auto & o : p.ops)
  {
    if (o.code == OP_DEF) { o.b |= F_RUNCB | F_ABORT; if (r.chance (0.8)) o.b |= F_POOL; if (r.chance (0.5)) o.b = (o.b | F_CONC) & ~F_SYNC; }
    if (o.code == OP_DEF3 && r.chance (0.6)) o.b = (int64_t) ((double) scale * r.unit () * 5);
  }
  if (r.chance (0.15)) p.knobs[K_FAULTS] |= 2;
}
void gen_s07 (Rng & r, Plan & p)
{
  gen_mix (r, p, { 4, 2, 2, 1, 0, 0, 6, 6, 6, 1, 4, 0, 0, 1 }, (int) r.logrange (1, 22));
  p.knobs[K_END] = (int64_t) r.below (E_COUNT);
  if (r.chance (0.3)) p.knobs[K_END] = E_NO_WAIT;
  if (r.chance (0.3)) for (auto & q : p.ops) if (q.code == OP_DEF && r.chance (0.7)) q.b = (q.b | F_SYNC) & ~(int64_t) (F_RUNCB | F_CONC);
  if (r.chance (0.2)) { p.knobs[K_FAULTS] |= 16; for (auto & o : p.ops) if (o.code == OP_STOP || o.code == OP_START) o.actor = (int) r.below ((uint64_t) p.knobs[K_ACTORS]); }
}
}

SCENARIO (sched_early, "S01", gen_s01, run, nullptr, 1, "dr");
SCENARIO (sched_wakeup, "S02", gen_s02, run, nullptr, 1, "dr");
SCENARIO (sched_repeat, "S03", gen_s03, run, nullptr, 1, "dr");
SCENARIO (sched_overlap, "S04", gen_s04, run, nullptr, 1, "dr");
SCENARIO (sched_remove, "S05", gen_s05, run, nullptr, 1, "dr");
SCENARIO (sched_account, "S06", gen_s06, run, nullptr, 1, "dr");
SCENARIO (sched_free, "S07", gen_s07, run, nullptr, 1, "dr");
