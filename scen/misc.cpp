// Clock, waiting, identifiers, thread creation: M01, M02, U01, H01
#include "common.h"
#include "iot/uuid.h"

namespace
{
extern "C" pthread_t sim_pthread_self (void);
enum { OP_NS, OP_MS, OP_US, OP_S, OP_STEP, OP_SLEEP, OP_WAITS, OP_WAITM, OP_WAITU, OP_UUID, OP_CREATE, OP_VALID, OP_PRIO, OP_POOL, OP_SCHED };
enum { K_ACTORS = 1, K_A, K_B, K_C };

// ---- M01: timestamps
struct Stamp { uint64_t call, ret, value, lo, hi; };
struct M { std::vector<Stamp> st; std::vector<std::pair<uint64_t, uint64_t>> steps; int pending = 0; };
M * T;

void step_clock (int64_t ns)
{
  uint64_t a = sim_realtime ();
  if (ns < 0 && (uint64_t) -ns > a / 2) ns = -(int64_t) (a / 2);
  sim_clock_step (ns);
  uint64_t b = sim_realtime ();
  uint64_t e = sim_event ();
  T->steps.push_back ({ e, a });
  T->steps.push_back ({ e, b });
}
void read_clock (const Op & o)
{
  uint64_t call = sim_event ();
  uint64_t r0 = sim_realtime ();
  uint64_t v = o.code == OP_NS ? iot_time_nsecs () : o.code == OP_MS ? iot_time_msecs () : o.code == OP_US ? iot_time_usecs () : iot_time_secs ();
  uint64_t r1 = sim_realtime ();
  uint64_t ret = sim_event ();
  uint64_t lo = std::min (r0, r1), hi = std::max (r0, r1);
  for (auto & s : T->steps) if (s.first > call && s.first < ret) { lo = std::min (lo, s.second); hi = std::max (hi, s.second); }
  if (o.code == OP_NS) { T->st.push_back ({ call, ret, v, lo, hi }); return; }
  uint64_t unit = o.code == OP_MS ? MS : o.code == OP_US ? US : SEC;
  SIM_CHECK (v >= lo / unit && v <= hi / unit, "clock-value", "a clock read gave %llu although the system clock was between %llu and %llu ns (unit %llu ns)",
    (unsigned long long) v, (unsigned long long) lo, (unsigned long long) hi, (unsigned long long) unit);
}
void run_m01 (const Plan & p)
{
  M t; T = &t;
  sim_conf.fault_p[FK_CAS_FAIL] = (double) p.k (K_A) / 100;
  int na = (int) p.k (K_ACTORS);
  auto ops = by_actor (p, na);
  std::vector<int> ids;
  for (int i = 0; i < na; i++)
  {
    std::vector<Op> o = ops[(size_t) i];
    ids.push_back (sim_spawn ("actor", [o] { for (auto & x : o) { if (x.code == OP_STEP) step_clock (x.a); else if (x.code == OP_SLEEP) sim_sleep ((uint64_t) x.b); else for (int n = 0; n < x.c; n++) read_clock (x); } }));
  }
  sim_join_all (ids);
  std::map<uint64_t, size_t> seen;
  for (size_t i = 0; i < t.st.size (); i++)
  {
    auto r = seen.insert ({ t.st[i].value, i });
    SIM_CHECK (r.second, "duplicate", "the timestamp %llu was given out twice", (unsigned long long) t.st[i].value);
  }
  // real-time order: st is in order of return
  std::vector<uint64_t> rets, maxv; uint64_t m = 0;
  for (auto & s : t.st) { m = std::max (m, s.value); rets.push_back (s.ret); maxv.push_back (m); }
  for (auto & s : t.st)
  {
    size_t n = (size_t) (std::lower_bound (rets.begin (), rets.end (), s.call) - rets.begin ());
    if (n) SIM_CHECK (maxv[n - 1] < s.value, "not-increasing", "timestamp %llu was given out after %llu had been returned", (unsigned long long) s.value, (unsigned long long) maxv[n - 1]);
    SIM_CHECK (s.value >= s.lo, "behind-clock", "timestamp %llu is behind the system clock, which was %llu or later during the call", (unsigned long long) s.value, (unsigned long long) s.lo);
    if (s.value > s.hi)
    {
      sim_probe ("ahead_of_clock");
      auto it = seen.find (s.value - 1);
      SIM_CHECK (it != seen.end () && t.st[it->second].call < s.ret, "ahead-of-clock", "timestamp %llu is ahead of the system clock (at most %llu) without an earlier timestamp just before it", (unsigned long long) s.value, (unsigned long long) s.hi);
    }
    else sim_probe ("follows_clock");
  }
  sim_state (hmix (t.st.size (), t.steps.size ()));
}
void gen_m01 (Rng & r, Plan & p)
{
  int na = 1 + (int) r.below (6);
  p.knobs.resize (1);
  if (r.chance (0.3)) p.knobs[0] = (int64_t) r.below (2); // the clock stands still
  p.knobs.push_back (na);
  p.knobs.push_back (r.chance (0.5) ? (int64_t) r.below (60) : 0);
  int n = (int) r.logrange (2, 30);
  for (int i = 0; i < n; i++)
  {
    Op o { (int) r.below ((uint64_t) na), (int) r.pick<int> ({ OP_NS, OP_NS, OP_NS, OP_NS, OP_MS, OP_US, OP_S, OP_STEP, OP_SLEEP }), 0, 0, 1 + (int64_t) r.below (6) };
    if (o.code == OP_STEP) { int64_t x = (int64_t) r.logrange (1, 3600 * SEC); o.a = r.chance (0.6) ? -x : x; }
    if (o.code == OP_SLEEP) o.b = (int64_t) r.logrange (100, 5 * SEC);
    p.ops.push_back (o);
  }
}

// ---- M02: waiting
void run_m02 (const Plan & p)
{
  M t; T = &t;
  sim_conf.fault_p[FK_EINTR_SLEEP] = (double) p.k (K_A) / 100;
  int na = (int) p.k (K_ACTORS);
  auto ops = by_actor (p, na);
  std::vector<int> ids;
  for (int i = 0; i < na; i++)
  {
    std::vector<Op> o = ops[(size_t) i];
    ids.push_back (sim_spawn ("actor", [o]
    {
      for (auto & x : o)
      {
        if (x.code == OP_STEP) { step_clock (x.a); continue; }
        if (x.code == OP_SLEEP) { sim_sleep ((uint64_t) x.b); continue; }
        uint64_t unit = x.code == OP_WAITS ? SEC : x.code == OP_WAITM ? MS : US;
        uint64_t want = (uint64_t) x.a * unit;
        uint64_t t0 = sim_now ();
        if (x.code == OP_WAITS) iot_wait_secs ((uint64_t) x.a); else if (x.code == OP_WAITM) iot_wait_msecs ((uint64_t) x.a); else iot_wait_usecs ((uint64_t) x.a);
        uint64_t t1 = sim_now ();
        SIM_CHECK (t1 - t0 >= want, "too-short", "a wait of %llu ns returned after %llu ns", (unsigned long long) want, (unsigned long long) (t1 - t0));
        uint64_t idle = sim_idle_between (t0, t1);
        SIM_CHECK (idle <= want + want / 1000000 + 1000, "too-long", "a wait of %llu ns let %llu ns go by with nothing else to do", (unsigned long long) want, (unsigned long long) idle);
        if (t1 - t0 > want) sim_probe ("woke_later");
      }
    }));
  }
  sim_join_all (ids);
  sim_state (hmix ((uint64_t) na, p.ops.size ()));
}
void gen_m02 (Rng & r, Plan & p)
{
  int na = 1 + (int) r.below (4);
  p.knobs.resize (1);
  p.knobs.push_back (na);
  p.knobs.push_back (r.chance (0.8) ? (int64_t) r.below (80) : 0);
  int n = (int) r.logrange (1, 16);
  for (int i = 0; i < n; i++)
  {
    Op o { (int) r.below ((uint64_t) na), (int) r.pick<int> ({ OP_WAITS, OP_WAITM, OP_WAITU, OP_WAITM, OP_WAITU, OP_STEP }), 0, 0, 0 };
    if (o.code == OP_WAITS) o.a = r.chance (0.3) ? (int64_t) r.below (3) : (int64_t) r.logrange (1, 100000);
    else if (o.code == OP_WAITM) o.a = r.chance (0.3) ? (int64_t) (r.below (5) * 1000 + r.below (3)) : (int64_t) r.logrange (1, 10000000);
    else if (o.code == OP_WAITU) o.a = r.chance (0.3) ? (int64_t) (r.below (5) * 1000000 + r.below (3)) : (int64_t) r.logrange (1, 1000000000);
    else { int64_t x = (int64_t) r.logrange (1, 3600 * SEC); o.a = r.chance (0.5) ? -x : x; }
    p.ops.push_back (o);
  }
}

// ---- U01: identifiers
struct U { uint64_t given = 0, longest = 0; int calls = 0; Rng rng { 1 }; std::set<std::string> ids; int generated = 0; };
U * V;
void random_bytes (void * b, size_t n)
{
  V->given += n; V->longest = std::max (V->longest, (uint64_t) n); V->calls++;
  for (size_t i = 0; i < n; i++) ((uint8_t *) b)[i] = (uint8_t) V->rng.next ();
}
void one_uuid ()
{
  uint8_t * u = (uint8_t *) sim_malloc (sizeof (iot_uuid_t));
  iot_uuid_generate (u);
  SIM_CHECK (V->longest >= 16 || V->given >= 16, "seed-incomplete", "an identifier was generated although the random source has supplied %llu bytes only", (unsigned long long) V->given);
  SIM_CHECK ((u[6] & 0xf0) == 0x40, "bad-version", "identifier of version %d", u[6] >> 4);
  SIM_CHECK ((u[8] & 0xc0) == 0x80, "bad-variant", "identifier of variant bits %d", u[8] >> 6);
  std::string s ((const char *) u, 16);
  char * txt = (char *) sim_malloc (UUID_STR_LEN);
  iot_uuid_unparse (u, txt);
  char want[40]; char * w = want;
  for (int i = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) *w++ = '-'; w += sprintf (w, "%02x", u[i]); }
  SIM_CHECK (strcmp (txt, want) == 0, "bad-text", "identifier %s written as %s", want, txt);
  sim_free (txt);
  sim_free (u);
  SIM_CHECK (V->ids.insert (s).second, "duplicate", "the identifier %s was generated twice", want);
  V->generated++;
}
void run_u01 (const Plan & p)
{
  U u; V = &u; M t; T = &t;
  u.rng = Rng ((uint64_t) p.k (K_C));
  sim_conf.fault_p[FK_RANDOM_FAIL] = (double) p.k (K_A) / 100;
  sim_conf.fault_p[FK_RANDOM_SHORT] = (double) p.k (K_B) / 100;
  sim_conf.fault_p[FK_EINTR_SLEEP] = p.k (K_A) ? 0.3 : 0;
  sim_set_random (random_bytes);
  int na = (int) p.k (K_ACTORS);
  auto ops = by_actor (p, na);
  std::vector<int> ids;
  for (int i = 0; i < na; i++)
  {
    std::vector<Op> o = ops[(size_t) i];
    ids.push_back (sim_spawn ("actor", [o] { for (auto & x : o) { if (x.code == OP_SLEEP) sim_sleep ((uint64_t) x.b); else if (x.code == OP_STEP) step_clock (x.a); else for (int n = 0; n < x.c; n++) one_uuid (); } }));
  }
  auto all_done = [&] { for (int i : ids) if (!sim_done (i)) return false; return true; };
  if (!sim_wait_until (all_done, 20 * SEC))
  {
    // the random source works from now on
    sim_quiesce_faults ();
    uint64_t naps = 0;
    for (auto & o : p.ops) if (o.code == OP_SLEEP) naps += (uint64_t) o.b;
    SIM_CHECK (sim_wait_until (all_done, naps + 60 * SEC), "stuck", "identifiers are not generated although the random source works again");
  }
  sim_join_all (ids);
  if (u.calls > 1) sim_probe ("several_reads_of_random_source");
  sim_state (hmix ((uint64_t) u.calls, u.ids.size ()));
}
void gen_u01 (Rng & r, Plan & p)
{
  int na = 1 + (int) r.below (6);
  p.knobs.resize (1);
  p.knobs.push_back (na);
  p.knobs.push_back (r.chance (0.6) ? (int64_t) r.below (80) : 0);
  p.knobs.push_back (r.chance (0.6) ? (int64_t) r.below (80) : 0);
  p.knobs.push_back ((int64_t) r.below (1u << 30));
  int n = (int) r.logrange (1, 30);
  for (int i = 0; i < n; i++)
  {
    Op o { (int) r.below ((uint64_t) na), r.chance (0.85) ? OP_UUID : OP_SLEEP, 0, 0, 1 + (int64_t) r.below (5) };
    if (o.code == OP_SLEEP) o.b = (int64_t) r.logrange (100, r.chance (0.1) ? 60 * SEC : 5 * MS);
    p.ops.push_back (o);
  }
}

// ---- H01: threads
struct Th { int runs = 0; bool answered = false, created = false, sleeps = false; uint64_t cookie; int prio, cpu; };
struct HH { std::deque<Th> ts; bool root = true, refusals = false; };
HH * W;
void * body (void * a)
{
  Th * t = (Th *) a;
  bool known = false;
  for (auto & x : W->ts) if (&x == t) known = true;
  SIM_CHECK (known, "bad-argument", "a thread was started with an argument it was not given");
  t->runs++;
  if (!W->refusals)
  {
    int want = W->root && t->prio >= 1 && t->prio <= 99 ? t->prio : 0, has = iot_thread_current_get_priority ();
    SIM_CHECK (has == want, "priority-lost", "a thread asked for with priority %d runs with %d although nothing was refused", t->prio, has);
    uint64_t cpus = t->cpu >= 0 && t->cpu < 4 ? 1ull << t->cpu : ~0ull;
    SIM_CHECK (sim_thread_cpus () == cpus, "affinity-lost", "a thread asked for on processor %d may run on processors %llx although nothing was refused", t->cpu, (unsigned long long) sim_thread_cpus ());
    if (want) sim_probe ("priority_kept");
  }
  SIM_CHECK (t->runs == 1, "ran-twice", "a thread function was run twice");
  SIM_CHECK (!(t->answered && !t->created), "ran-after-failure", "a thread function runs although creation was reported to have failed");
  sim_yield ();
  return nullptr;
}
// the threads of pools and schedulers
void by_owner (const Op & x, iot_logger_t * log, bool eagain)
{
  int cfg = x.c & 1 ? 1 + (int) (x.c >> 1 & 3) + (int) (x.c >> 3 & 1) * 8 : 0, n = x.code == OP_POOL ? 1 + (int) (x.c >> 4 & 3) : 1;
  std::vector<Th *> mine;
  for (int i = 0; i < n; i++)
  {
    W->ts.emplace_back ();
    Th * t = &W->ts.back ();
    t->prio = (int) x.a; t->cpu = (int) x.b;
    mine.push_back (t);
  }
  auto ran = [&] { for (auto t : mine) if (!t->runs) return false; return true; };
  if (x.code == OP_POOL)
  {
    iot_threadpool_t * pool = make_pool (cfg, n, 0, (int) x.a, (int) x.b, log);
    iot_threadpool_start (pool);
    for (auto t : mine) iot_threadpool_add_work (pool, body, t, IOT_THREAD_NO_PRIORITY);
    bool ok = sim_wait_until (ran, 2 * SEC);
    SIM_CHECK (ok || eagain, "not-run", "a pool of %d threads does not run its jobs", n);
    iot_threadpool_free (pool);
  }
  else
  {
    // run by the scheduler's own thread, in a thread of its own, or by a pool
    int how = (int) (x.c >> 6 & 3);
    if (how == 3 || (how == 2 && eagain)) how = 0; // a job waiting in a pool that got no thread keeps its schedule, and that the pool
    iot_scheduler_t * sd = make_scheduler (cfg, how ? 3 : (int) x.a, (int) x.b, log);
    iot_threadpool_t * pool = how == 2 ? make_pool (cfg, 1, 0, -1, -1, log) : nullptr;
    if (pool) iot_threadpool_start (pool);
    if (how) mine[0]->cpu = -1;
    iot_schedule_t * s = iot_schedule_create (sd, body, nullptr, mine[0], 1 * SEC, 0, 1, pool, how ? (int) x.a : -1);
    if (!how) iot_schedule_set_sync (s, true);
    iot_schedule_add (sd, s);
    iot_scheduler_start (sd);
    bool ok = sim_wait_until (ran, 2 * SEC);
    SIM_CHECK (ok || eagain, "not-run", "a scheduler does not run its schedule");
    if (how) sim_probe (how == 1 ? "schedule_thread" : "schedule_in_pool");
    if (pool) iot_threadpool_free (pool);
    iot_scheduler_free (sd);
  }
  sim_probe (x.code == OP_POOL ? "pool_threads" : "scheduler_thread");
}
void run_h01 (const Plan & p)
{
  HH h; W = &h;
  sim_heap_mark ();
  sim_conf.fault_p[FK_THREAD_EPERM] = (double) p.k (K_A) / 100;
  sim_conf.fault_p[FK_THREAD_EAGAIN] = (double) p.k (K_B) / 100;
  sim_conf.fault_p[FK_AFFINITY_FAIL] = (double) p.k (K_B) / 100;
  sim_conf.fault_p[FK_SETPRIO_EPERM] = (double) p.k (K_A) / 100;
  if (p.k (K_C) & 1) sim_set_euid (1000);
  iot_logger_t * log = make_logger ((p.k (K_C) & 2) ? 5 : 0);
  bool eagain = p.k (K_B) != 0;
  h.root = !(p.k (K_C) & 1); h.refusals = p.k (K_A) || p.k (K_B);
  int na = (int) p.k (K_ACTORS);
  auto ops = by_actor (p, na);
  std::vector<int> ids;
  for (int i = 0; i < na; i++)
  {
    std::vector<Op> o = ops[(size_t) i];
    ids.push_back (sim_spawn ("actor", [o, log, eagain]
    {
      for (auto & x : o)
      {
        if (x.code == OP_SLEEP) { sim_sleep ((uint64_t) x.b); continue; }
        if (x.code == OP_VALID)
        {
          bool v = iot_thread_priority_valid ((int) x.a);
          SIM_CHECK (v == (x.a >= 1 && x.a <= 99), "priority-valid", "priority %d is reported %s", (int) x.a, v ? "valid" : "not valid");
          continue;
        }
        if (x.code == OP_PRIO)
        {
          int before = iot_thread_current_get_priority (), refused = sim_thread_prio_refused (sim_self ());
          bool valid = x.a >= 1 && x.a <= 99, ok = x.c & 1 ? iot_thread_current_set_priority ((int) x.a) : iot_thread_set_priority (sim_pthread_self (), (int) x.a);
          int after = iot_thread_current_get_priority ();
          SIM_CHECK (ok == (valid && sim_thread_prio_refused (sim_self ()) == refused), "priority-report", "setting priority %d reports %d", (int) x.a, ok);
          SIM_CHECK (after == (ok ? (int) x.a : before), "priority-report", "after setting priority %d with result %d it is %d, before %d", (int) x.a, ok, after, before);
          continue;
        }
        if (x.code == OP_POOL || x.code == OP_SCHED) { by_owner (x, log, eagain); continue; }
        W->ts.emplace_back ();
        Th * t = &W->ts.back ();
        t->prio = (int) x.a; t->cpu = (int) x.b;
        pthread_t * tid = x.c & 1 ? nullptr : (pthread_t *) sim_malloc (sizeof (pthread_t));
        bool ok = iot_thread_create (tid, body, t, (int) x.a, (int) x.b, log);
        t->answered = true; t->created = ok;
        if (!ok)
        {
          sim_probe ("creation_failed");
          SIM_CHECK (t->runs == 0, "ran-after-failure", "a thread function ran although creation was reported to have failed");
          SIM_CHECK (eagain, "not-created", "a thread of priority %d was not created although the system would have created it with default attributes", (int) x.a);
        }
        if (tid) sim_free (tid);
      }
    }));
  }
  sim_join_all (ids);
  sim_wait_until ([] { return sim_live_threads () == 0; }, 10 * SEC);
  SIM_CHECK (sim_live_threads () == 0, "thread-stuck", "created threads do not finish");
  for (auto & t : h.ts) if (t.created) SIM_CHECK (t.runs == 1, "not-run", "a thread was reported created but its function did not run");
  int u = sim_unjoined ();
  SIM_CHECK (u == 0, "not-detached", "%d finished threads were created joinable: their resources are never released", u);
  iot_logger_free (log);
  check_no_leaks ("thread creation");
  sim_state (hmix (h.ts.size (), (uint64_t) p.k (K_C)));
}
void gen_h01 (Rng & r, Plan & p)
{
  int na = 1 + (int) r.below (4);
  p.knobs.resize (1);
  p.knobs.push_back (na);
  p.knobs.push_back (r.chance (0.6) ? (int64_t) r.below (80) : 0);
  p.knobs.push_back (r.chance (0.4) ? (int64_t) r.below (60) : 0);
  p.knobs.push_back ((int64_t) r.below (4));
  int n = (int) r.logrange (1, 20);
  for (int i = 0; i < n; i++)
  {
    Op o { (int) r.below ((uint64_t) na), (int) r.pick<int> ({ OP_CREATE, OP_CREATE, OP_CREATE, OP_CREATE, OP_VALID, OP_SLEEP, OP_PRIO, OP_PRIO, OP_POOL, OP_SCHED }), 0, 0, (int64_t) r.below (2) };
    if (o.code >= OP_POOL) o.c = (int64_t) r.below (256);
    o.a = r.chance (0.3) ? -1 : r.chance (0.2) ? (int64_t) r.pick<int> ({ 0, 1, 99, 100, -2, -3 }) : r.range (1, 40);
    o.b = o.code == OP_SLEEP ? (int64_t) r.logrange (100, r.chance (0.1) ? 60 * SEC : 5 * MS) : r.chance (0.5) ? -1 : r.chance (0.2) ? (int64_t) r.pick<int> ({ 4, 5, -2 }) : (int64_t) r.below (4);
    p.ops.push_back (o);
  }
}
}

SCENARIO (time_stamps, "M01", gen_m01, run_m01, nullptr, 1, "dr");
SCENARIO (time_waits, "M02", gen_m02, run_m02, nullptr, 1, "dr");
SCENARIO (uuid, "U01", gen_u01, run_u01, nullptr, 1, "dr");
SCENARIO (threads, "H01", gen_h01, run_h01, nullptr, 1, "dr");
