// Simulator core: fibers, scheduling, choices, virtual clock, checked heap, memory-access hooks.
#include "sim_int.h"
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <link.h>
#include <math.h>
#include <algorithm>
#include <map>
extern char end;

const char * const fault_names[FK_COUNT] =
{
  "preempt", "thread_stall", "time_jump", "spurious_wakeup", "weak_cas_failure", "clock_step_forward", "clock_step_back",
  "sleep_eintr", "thread_create_eperm", "thread_create_eagain", "set_priority_eperm", "affinity_refused",
  "random_short", "random_fail",
  "open_fail", "write_enospc", "write_eio", "write_short", "read_eio", "read_short", "seek_fail", "close_fail",
  "rename_fail", "remove_fail", "fsync_fail", "opendir_fail", "readdir_fail", "process_crash", "power_loss", "torn_or_lost_pages",
  "socket_fail", "send_fail", "send_short", "stored_data_damaged", "stored_data_missing", "dlopen_fail", "env_unset", "slow_job", "io_delay",
  "external_fs_change", "callback_refuses", "component_create_fails", "dataloss"
};

uint64_t Rng::logrange (uint64_t lo, uint64_t hi)
{
  double l = log ((double) lo), h = log ((double) hi + 0.5);
  double v = exp (l + (h - l) * unit ());
  uint64_t r = (uint64_t) v;
  return r < lo ? lo : r > hi ? hi : r;
}

SimConf sim_conf;
SimConf::SimConf ()
{
  memset (fault_p, 0, sizeof (fault_p));
  step_cost = 20;
  max_stall_ns = 50000000ull;
  max_total_stall_ns = 400000000ull;
  max_steps = 30000000ull;
  max_time_ns = 400ull * 3600ull * 1000000000ull;
}

// ------------------------------------------------------------------ global run state
static Fiber boot_fiber;
Fiber * cur = &boot_fiber;
RunResult * g_res = nullptr;
bool g_active = false;
bool g_faults_off = false;
static std::vector<Fiber *> fibers;
static std::vector<Fiber *> live;             // not finished, in id order
static RunParams params;
static Rng srng (1);
static uint64_t base_time;
static uint64_t slice_start;                  // cur->steps at slice start
static uint64_t total_steps;
static uint64_t quantum_stop;                 // step of the current fiber at which its time slice ends
static int64_t clock_offset;                  // wall clock = monotonic + offset
static uint64_t stall_total;
static uint64_t event_seq;
struct IdleIv { uint64_t a, b, cum; };
static std::vector<IdleIv> idle_iv;           // intervals without any runnable or stalled thread, cum = idle time before a
static std::vector<std::vector<ChoiceRec>> replay_by_fiber;
static double swarm[FK_COUNT];
static char * tls_image; static size_t tls_image_size, tls_block_size; static char * tls_block;

#define QUANTUM 40000

// strategy of this run (record mode)
static struct
{
  int kind;            // 0 random walk, 1 PCT, 2 few preemptions
  double gap;          // mean steps between memory-level preemptions
  double p_sync;
  double p_stall, p_jump, p_spur, p_next_random;
  int64_t pct_low;
  uint64_t pct_left;
} strat;

std::vector<Fiber *> & sim_fibers () { return fibers; }
Rng & sim_sched_rng () { return srng; }
bool sim_in_record () { return !params.replay; }
int sim_phase () { return params.phase; }
static void hb_scenario ();
uint64_t sim_event () { hb_scenario (); return ++event_seq; }
uint64_t sim_event_peek () { return event_seq; }
uint64_t sim_stall_total () { return stall_total; }
int sim_self () { return cur->id; }

static inline uint64_t mix (uint64_t h, uint64_t v)
{
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}

uint64_t sim_now () { return base_time + (cur->steps - slice_start) * sim_conf.step_cost; }
int64_t sim_clock_offset () { return clock_offset; }
uint64_t sim_realtime () { return (uint64_t) ((int64_t) sim_now () + clock_offset); }
static void flush_time ()
{
  uint64_t d = cur->steps - slice_start;
  base_time += d * sim_conf.step_cost;
  total_steps += d;
  slice_start = cur->steps;
}

void sim_trace (int kind, uint64_t obj)
{
  if (!g_res) return;
  g_res->hash = mix (g_res->hash, ((uint64_t) cur->id << 56) ^ ((uint64_t) kind << 48) ^ cur->steps ^ (obj << 1) ^ (sim_now () << 3));
  g_res->ihash = mix (g_res->ihash, ((uint64_t) cur->id << 8) ^ (uint64_t) kind ^ (obj << 16));
}

void sim_state (uint64_t h)
{
  if (!g_res) return;
  h = mix (h, 0x5bd1e995);
  h &= 262143;
  g_res->state_bits[h >> 6] |= 1ull << (h & 63);
}

void sim_probe (const char * name)
{
  if (!g_res) return;
  for (uint32_t i = 0; i < g_res->nprobes; i++) if (strcmp (g_res->probes[i], name) == 0) { g_res->probe_n[i]++; return; }
  if (g_res->nprobes == MAX_PROBES) return;
  snprintf (g_res->probes[g_res->nprobes], 40, "%s", name);
  g_res->probe_n[g_res->nprobes++] = 1;
}

void sim_fault_count (FaultKind k) { if (g_res) g_res->faults[k]++; }

// ------------------------------------------------------------------ failure and end of run
bool g_race;
void sim_finish_ok ();
static void finish_common ()
{
  flush_time ();
  g_res->steps = total_steps;
  g_res->simtime += base_time;
  g_res->stall_total = stall_total;
}

void sim_finish_ok ()
{
  finish_common ();
  g_res->status = RS_OK;
  fflush (nullptr);
  _exit (0);
}

void sim_fail (const char * cls, const char * fmt, ...)
{
  va_list ap;
  va_start (ap, fmt);
  if (g_race && g_res && strncmp (cls, "data-race", 9) && strcmp (cls, "harness") && strcmp (cls, "sim-limit")) sim_finish_ok (); // other properties judge this
  if (g_res && g_res->status != RS_FAIL)
  {
    snprintf (g_res->cls, sizeof (g_res->cls), "%s", cls);
    vsnprintf (g_res->msg, sizeof (g_res->msg), fmt, ap);
    memset (g_res->pcs, 0, sizeof (g_res->pcs));
    for (int i = 0; i < 8 && i < cur->depth && cur->depth - 1 - i < 64; i++) g_res->pcs[i] = cur->callstk[cur->depth - 1 - i];
    g_active = false;
    finish_common ();
    g_res->status = RS_FAIL;
    if (params.verbose) fprintf (stderr, "[t=%llu fiber %d %s] FAIL %s: %s\n", (unsigned long long) sim_now (), cur->id, cur->name.c_str (), g_res->cls, g_res->msg);
  }
  else if (!g_res)
  {
    vfprintf (stderr, fmt, ap); fputc ('\n', stderr);
  }
  va_end (ap);
  _exit (0);
}

void sim_exit_crash (bool power)
{
  finish_common ();
  g_res->faults[power ? FK_POWERLOSS : FK_CRASH]++;
  if (power) fs_apply_power_loss ();
  g_res->status = RS_CRASHED;
  _exit (0);
}

std::string sim_describe ()
{
  std::string s;
  for (Fiber * f : live)
  {
    char b[200];
    snprintf (b, sizeof (b), "%s%d:%s(%s%s%s)", s.empty () ? "" : " ", f->id, f->name.c_str (),
      f->st == Fiber::BLOCK ? "blocked:" : f->st == Fiber::RUN ? "ready" : "done", f->st == Fiber::BLOCK ? f->wait_what : "", f->stall_until > sim_now () ? ",stalled" : "");
    s += b;
  }
  return s;
}

// ------------------------------------------------------------------ choices
static inline void set_stop ();

static void record (int kind, uint64_t v)
{
  if (g_res->nchoices < MAX_CHOICES)
  {
    ChoiceRec & r = g_res->choices[g_res->nchoices++];
    r.step = (uint32_t) cur->steps; r.fiber = (uint16_t) cur->id; r.kind = (uint8_t) kind; r.phase = (uint8_t) params.phase; r.value = v;
  }
  else g_res->overflow = 1;
}

static bool lookup (int kind, uint64_t & v)
{
  while (cur->rb < cur->re && cur->rb->step < cur->steps) cur->rb++;
  if (cur->rb < cur->re && cur->rb->step == cur->steps && cur->rb->kind == kind) { v = cur->rb->value; cur->rb++; return true; }
  return false;
}

uint64_t sim_choose_raw (int kind, uint64_t dflt, uint64_t (*gen) (void *), void * arg)
{
  if (!g_active) return dflt;
  cur->steps++;
  uint64_t v = dflt;
  if (params.replay) { lookup (kind, v); }
  else { v = gen (arg); if (v != dflt) record (kind, v); }
  set_stop ();
  if (v != dflt) g_res->hash = mix (g_res->hash, ((uint64_t) kind << 32) ^ v);
  return v;
}

struct SiteArg { uint64_t n; };
uint64_t sim_choose (int site, uint64_t n, uint64_t dflt)
{
  (void) site;
  SiteArg a { n };
  uint64_t v = sim_choose_raw (CK_SITE, dflt, [] (void * p) -> uint64_t { return srng.below (((SiteArg *) p)->n); }, &a);
  return v < n ? v : dflt;
}

bool sim_fault (FaultKind k)
{
  if (!g_active || g_faults_off) return false;
  double p = sim_conf.fault_p[k];
  if (p <= 0) return false;
  struct A { FaultKind k; } a { k };
  uint64_t v = sim_choose_raw (CK_FAULT + k, 0, [] (void * q) -> uint64_t { FaultKind kk = ((A *) q)->k; return srng.chance (sim_conf.fault_p[kk] * swarm[kk]) ? 1 : 0; }, &a);
  if (v) g_res->faults[k]++;
  return v != 0;
}

// ------------------------------------------------------------------ context switch
extern "C" void sim_switch (void ** from, void * to);
asm (
  ".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
  "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
  "  movq %rsp, (%rdi)\n  movq %rsi, %rsp\n"
  "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
  ".size sim_switch,.-sim_switch\n");

static void fiber_main ()
{
  Fiber * f = cur;
  if (f->fn) f->fn (); else f->ret = f->start (f->arg);
  sim_thread_exit ();
}

#define STACK_BASE 0x200000000000ull
#define STACK_SIZE (192 * 1024)
#define MAX_STACKS 1024
static std::vector<int> free_stacks;
static int stacks_made;

static char * get_stack ()
{
  int i;
  if (!free_stacks.empty ()) { i = free_stacks.back (); free_stacks.pop_back (); }
  else
  {
    i = stacks_made++;
    if (i >= MAX_STACKS) sim_fail ("sim-limit", "too many simultaneous threads");
    char * base = (char *) STACK_BASE + (size_t) i * (STACK_SIZE + 4096);
    if (mmap (base + 4096, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED) abort ();
  }
  return (char *) STACK_BASE + (size_t) i * (STACK_SIZE + 4096) + 4096;
}

static int tls_cb (struct dl_phdr_info * info, size_t, void *)
{
  if (info->dlpi_name && info->dlpi_name[0]) return 0; // main executable only
  for (int i = 0; i < info->dlpi_phnum; i++)
  {
    const ElfW (Phdr) & ph = info->dlpi_phdr[i];
    if (ph.p_type == PT_TLS)
    {
      tls_block = (char *) info->dlpi_tls_data;
      tls_block_size = ph.p_memsz;
      tls_image = (char *) calloc (1, ph.p_memsz);
      memcpy (tls_image, (void *) (info->dlpi_addr + ph.p_vaddr), ph.p_filesz);
      tls_image_size = ph.p_memsz;
    }
  }
  return 1;
}

Fiber * sim_new_fiber (const char * name)
{
  if (fibers.size () >= 4000) sim_fail ("sim-limit", "too many threads in one run");
  Fiber * f = new Fiber;
  f->id = (int) fibers.size ();
  f->name = name;
  snprintf (f->tname, sizeof (f->tname), "%s", "sim");
  f->stack = get_stack ();
  uintptr_t top = (uintptr_t) f->stack + STACK_SIZE - 64;
  top &= ~15ull;
  uint64_t * sp = (uint64_t *) top;
  *--sp = 0;                      // alignment and fake return address
  *--sp = (uint64_t) fiber_main;
  for (int i = 0; i < 6; i++) *--sp = 0;
  f->sp = sp;
  if (tls_image_size) f->tls.assign (tls_image, tls_image + tls_image_size);
  if (params.replay && f->id < (int) replay_by_fiber.size ())
  {
    auto & v = replay_by_fiber[f->id];
    f->rb = v.data (); f->re = v.data () + v.size ();
  }
  if (!params.replay) f->pct = (int64_t) srng.below (1000000) + 1000000;
  fibers.push_back (f);
  live.push_back (f);
  return f;
}

Fiber * sim_fiber (int id) { return id >= 0 && id < (int) fibers.size () ? fibers[id] : nullptr; }

static uint64_t gap_stop;   // record mode: next memory-level preemption of the current fiber

static inline void set_stop ()
{
  uint64_t lim = quantum_stop;
  if (params.replay)
  {
    while (cur->rb < cur->re && cur->rb->step <= cur->steps) cur->rb++;
    if (cur->rb < cur->re && cur->rb->step < lim) lim = cur->rb->step;
  }
  else if (gap_stop < lim) lim = gap_stop;
  cur->stop = lim;
}

static void arm_gap ()
{
  // distance to the next memory-level preemption of the current fiber
  double u = srng.unit ();
  double d = -log (1.0 - u) * strat.gap;
  gap_stop = cur->steps + (d > 1e9 ? 1000000000ull : (uint64_t) d + 1);
}

static void switch_to (Fiber * f)
{
  if (f == cur) return;
  Fiber * old = cur;
  flush_time ();
  g_res->switches++;
  old->err = errno;
  if (tls_image_size && old != &boot_fiber) memcpy (old->tls.data (), tls_block, tls_image_size);
  cur = f;
  slice_start = f->steps;
  if (tls_image_size && f != &boot_fiber) memcpy (tls_block, f->tls.data (), tls_image_size);
  if (f != &boot_fiber) { quantum_stop = cur->steps + QUANTUM; if (!params.replay) arm_gap (); set_stop (); }
  g_res->ihash = mix (g_res->ihash, 0xabcd0000ull + (uint64_t) f->id);
  g_res->hash = mix (g_res->hash, ((uint64_t) f->id << 40) ^ f->steps ^ base_time);
  sim_switch (&old->sp, f->sp);
  errno = cur->err;
}

static uint64_t idle_until (uint64_t t)
{
  size_t lo = 0, hi = idle_iv.size ();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (idle_iv[m].a < t) lo = m + 1; else hi = m; }
  if (!lo) return 0;
  const IdleIv & v = idle_iv[lo - 1];
  return v.cum + (std::min (t, v.b) - v.a);
}
uint64_t sim_idle_between (uint64_t a, uint64_t b) { return b <= a ? 0 : idle_until (b) - idle_until (a); }

static inline uint64_t dl_mono (const Fiber * f)
{
  if (!f->dl_real) return f->deadline;
  int64_t m = (int64_t) f->deadline - clock_offset;
  return m < 0 ? 0 : (uint64_t) m;
}

// next moment at which a blocked fiber wakes up without being woken
static inline uint64_t wake_at (const Fiber * f)
{
  uint64_t t = f->has_dl ? dl_mono (f) : UINT64_MAX;
  return f->spur_at && f->spur_at < t ? f->spur_at : t;
}

void sim_make_ready (Fiber * f) { f->st = Fiber::RUN; f->has_dl = false; f->spur_at = 0; f->cond = nullptr; f->wait_obj = nullptr; }

static void fire ()
{
  uint64_t now = sim_now ();
  for (Fiber * f : live)
  {
    if (f->st != Fiber::BLOCK) continue;
    if (f->cond && (*f->cond) ()) { f->signaled = true; sim_make_ready (f); continue; }
    if (wake_at (f) <= now) { f->timed_out = f->has_dl && dl_mono (f) <= now; sim_make_ready (f); }
  }
}

static bool schedulable (const Fiber * f, uint64_t now) { return f->st == Fiber::RUN && f->stall_until <= now; }

static Fiber * next_cyclic (uint64_t now)
{
  Fiber * first = nullptr;
  for (Fiber * f : live)
  {
    if (f == cur || !schedulable (f, now)) continue;
    if (!first) first = f;
    if (f->id > cur->id) return f;
  }
  return first;
}

static Fiber * pick_by_strategy (uint64_t now, bool exclude_cur)
{
  static Fiber * cand[4096]; int n = 0;
  for (Fiber * f : live) if (schedulable (f, now) && !(exclude_cur && f == cur)) cand[n++] = f;
  if (!n) return nullptr;
  if (strat.kind == 1)
  {
    Fiber * b = cand[0];
    for (int i = 1; i < n; i++) if (cand[i]->pct > b->pct) b = cand[i];
    return b;
  }
  return cand[srng.below ((uint64_t) n)];
}

static void deadlock ()
{
  sim_fail ("deadlock", "no thread can make progress: %s", sim_describe ().c_str ());
}

// Leave the current fiber (blocked, finished, stalled, or yielding).
static void reschedule ()
{
  while (true)
  {
    flush_time ();
    if (total_steps > sim_conf.max_steps) sim_fail ("livelock", "no termination within %llu steps: %s", (unsigned long long) sim_conf.max_steps, sim_describe ().c_str ());
    if (base_time > sim_conf.max_time_ns) sim_fail ("no-progress", "not finished after %.1f simulated seconds: %s", (double) base_time / 1e9, sim_describe ().c_str ());
    fire ();
    uint64_t now = sim_now ();
    bool any = false;
    for (Fiber * f : live) if (schedulable (f, now)) { any = true; break; }
    if (any)
    {
      Fiber * d = next_cyclic (now);
      if (!d) { if (schedulable (cur, now)) return; continue; }
      uint64_t v = sim_choose_raw (CK_NEXT, 0, [] (void * p) -> uint64_t
      {
        Fiber * dd = (Fiber *) p;
        if (strat.kind == 2 && !srng.chance (strat.p_next_random)) return 0;
        Fiber * f = pick_by_strategy (sim_now (), cur->st != Fiber::RUN);
        return !f || f == dd ? 0 : (uint64_t) f->id + 1;
      }, d);
      if (v)
      {
        Fiber * f = sim_fiber ((int) v - 1);
        if (f && schedulable (f, sim_now ())) d = f;
      }
      if (d == cur) return;
      switch_to (d);
      return;
    }
    uint64_t best = UINT64_MAX;
    for (Fiber * f : live)
    {
      uint64_t t = UINT64_MAX;
      if (f->st == Fiber::RUN) t = f->stall_until;
      else if (f->st == Fiber::BLOCK) t = wake_at (f);
      if (t < best) best = t;
    }
    if (best == UINT64_MAX) { deadlock (); }
    bool stalled = false;
    for (Fiber * f : live) if (f->st == Fiber::RUN) stalled = true;
    uint64_t from = base_time;
    if (best > base_time) base_time = best; else base_time++;
    if (!stalled)
    {
      if (!idle_iv.empty () && idle_iv.back ().b == from) idle_iv.back ().b = base_time;
      else idle_iv.push_back (IdleIv { from, base_time, idle_iv.empty () ? 0 : idle_iv.back ().cum + (idle_iv.back ().b - idle_iv.back ().a) });
    }
  }
}

static void do_preempt_to (uint64_t v)
{
  // v: fiber id + 1
  Fiber * f = sim_fiber ((int) v - 1);
  flush_time ();
  fire ();
  if (f && f != cur && schedulable (f, sim_now ())) { g_res->faults[FK_PREEMPT]++; switch_to (f); }
}

// Called when cur->steps reaches cur->stop
void sim_slow_step ()
{
  if (!g_active) { cur->stop = UINT64_MAX; return; }
  flush_time ();
  if (total_steps > sim_conf.max_steps) sim_fail ("livelock", "no termination within %llu steps: %s", (unsigned long long) sim_conf.max_steps, sim_describe ().c_str ());
  if (cur->steps >= quantum_stop)
  {
    // end of the time slice: same rule in both modes
    fire ();
    if (!params.replay && strat.kind == 1) cur->pct = --strat.pct_low;
    quantum_stop = cur->steps + QUANTUM;
    set_stop ();
    Fiber * f = next_cyclic (sim_now ());
    if (f) switch_to (f);
    return;
  }
  uint64_t v = 0;
  if (params.replay)
  {
    bool hit = lookup (CK_STEP, v);
    set_stop ();
    if (hit && v) { g_res->hash = mix (g_res->hash, ((uint64_t) CK_STEP << 32) ^ v); do_preempt_to (v); }
    return;
  }
  arm_gap ();
  set_stop ();
  fire ();
  if (strat.kind == 1) { if (strat.pct_left) { strat.pct_left--; cur->pct = --strat.pct_low; } }
  Fiber * f = pick_by_strategy (sim_now (), strat.kind != 1);
  if (!f) return;
  v = (uint64_t) f->id + 1;
  record (CK_STEP, v);
  g_res->hash = mix (g_res->hash, ((uint64_t) CK_STEP << 32) ^ v);
  if (f == cur) return;
  g_res->faults[FK_PREEMPT]++;
  switch_to (f);
}

static uint64_t gen_sync (void *)
{
  if (!g_faults_off)
  {
    if (strat.p_stall > 0 && srng.chance (strat.p_stall) && stall_total < sim_conf.max_total_stall_ns)
      return (1ull << 60) | srng.logrange (1000, std::max<uint64_t> (2000, sim_conf.max_stall_ns));
    if (strat.p_jump > 0 && srng.chance (strat.p_jump) && stall_total < sim_conf.max_total_stall_ns)
    {
      uint64_t now = sim_now (), best = UINT64_MAX;
      for (Fiber * f : live) if (f->st == Fiber::BLOCK && wake_at (f) > now && wake_at (f) != UINT64_MAX) best = std::min (best, wake_at (f) - now);
      if (best != UINT64_MAX) best += srng.chance (0.5) ? 0 : srng.logrange (1, 1000000);
      if (best <= sim_conf.max_stall_ns) return (2ull << 60) | best;
    }
  }
  if (strat.kind == 1)
  {
    Fiber * f = pick_by_strategy (sim_now (), false);
    return (f && f != cur) ? (uint64_t) f->id + 1 : 0;
  }
  if (srng.chance (strat.p_sync))
  {
    Fiber * f = pick_by_strategy (sim_now (), true);
    return f ? (uint64_t) f->id + 1 : 0;
  }
  return 0;
}

void sim_sync_point (int kind, const void * obj)
{
  if (!g_active) return;
  g_res->syncs++;
  // objects inside harness structures live in the ordinary heap, whose layout depends on earlier runs of the worker
  bool harness_heap = (char *) obj >= &end && (char *) obj < (char *) sbrk (0);
  sim_trace (kind, harness_heap ? 0x48 : (uint64_t) (uintptr_t) obj);
  fire ();
  uint64_t v = sim_choose_raw (CK_SYNC, 0, gen_sync, nullptr);
  if (!v) return;
  uint64_t type = v >> 60, amt = v & ((1ull << 60) - 1);
  if (type == 1)
  {
    flush_time ();
    cur->stall_until = sim_now () + amt;
    stall_total += amt;
    g_res->faults[FK_STALL]++;
    reschedule ();
  }
  else if (type == 2)
  {
    flush_time ();
    base_time += amt;
    stall_total += amt;
    g_res->faults[FK_TIMEJUMP]++;
    fire ();
  }
  else do_preempt_to (v);
}

void sim_block (const void * obj, const char * what, bool has_dl, bool dl_real, uint64_t deadline, uint64_t spur_at)
{
  if (!g_active) { fprintf (stderr, "sim: blocking outside a run (%s)\n", what); abort (); }
  cur->st = Fiber::BLOCK;
  cur->wait_obj = obj;
  cur->wait_what = what;
  cur->has_dl = has_dl; cur->dl_real = dl_real; cur->deadline = deadline; cur->spur_at = spur_at;
  cur->timed_out = false; cur->signaled = false;
  reschedule ();
}

void sim_wake_all (const void * obj)
{
  if (!g_active) return;
  for (Fiber * f : live) if (f->st == Fiber::BLOCK && f->wait_obj == obj) { f->signaled = true; sim_make_ready (f); }
}

Fiber * sim_pick_waiter (const void * obj)
{
  static Fiber * w[4096]; uint64_t n = 0;
  for (Fiber * f : live) if (f->st == Fiber::BLOCK && f->wait_obj == obj) w[n++] = f;
  if (!n) return nullptr;
  if (n == 1) return w[0];
  SiteArg a { n };
  uint64_t v = sim_choose_raw (CK_WAKE, 0, [] (void * p) -> uint64_t { return srng.chance (0.5) ? 0 : srng.below (((SiteArg *) p)->n); }, &a);
  return w[v < n ? v : 0];
}

// A spurious wakeup for a condition wait: returns a delay (ns)+1 or 0
uint64_t sim_spurious ()
{
  if (g_faults_off || !g_active) return 0;
  uint64_t v = sim_choose_raw (CK_SPUR, 0, [] (void *) -> uint64_t { return strat.p_spur > 0 && srng.chance (strat.p_spur) ? 1 + srng.logrange (1, 2000000) : 0; }, nullptr);
  if (v) g_res->faults[FK_SPURIOUS]++;
  return v;
}

void sim_yield () { sim_sync_point (90, nullptr); }

void sim_sleep (uint64_t ns)
{
  sim_sync_point (91, nullptr);
  sim_block (nullptr, "sleep", true, false, sim_now () + ns);
}

bool sim_wait_until (const std::function<bool ()> & c, uint64_t timeout_ns)
{
  sim_sync_point (92, nullptr);
  hb_scenario ();
  if (c ()) return true;
  cur->cond = &c;
  sim_block (nullptr, "condition of the scenario", timeout_ns != UINT64_MAX, false, timeout_ns == UINT64_MAX ? 0 : sim_now () + timeout_ns);
  hb_scenario ();
  return cur->signaled || c ();
}

void sim_clock_step (int64_t ns)
{
  flush_time ();
  int64_t n = clock_offset + ns;
  if ((int64_t) base_time + n < 1000000000ll) return;
  clock_offset = n;
  sim_fault_count (ns > 0 ? FK_CLOCK_STEP_FWD : FK_CLOCK_STEP_BACK);
  sim_trace (93, (uint64_t) ns);
}

void sim_quiesce_faults ()
{
  g_faults_off = true;
  for (Fiber * f : live) f->stall_until = 0;
}

int sim_spawn (const char * name, std::function<void ()> fn)
{
  sim_sync_point (94, nullptr);
  Fiber * f = sim_new_fiber (name);
  f->fn = std::move (fn);
  hb_fork (f);
  sim_sync_point (95, nullptr);
  return f->id;
}

void sim_thread_exit ()
{
  Fiber * f = cur;
  sim_trace (96, 0);
  f->st = Fiber::DONE;
  sim_wake_all (f);
  if (f->id == 0)
  {
    // scenario finished
    switch_to (&boot_fiber);
    __builtin_unreachable ();
  }
  for (size_t i = 0; i < live.size (); i++) if (live[i] == f) { live.erase (live.begin () + (long) i); break; }
  int si = (int) (((uintptr_t) f->stack - 4096 - STACK_BASE) / (STACK_SIZE + 4096));
  free_stacks.push_back (si); // still on it, but nothing runs on it until another fiber is created after the switch
  reschedule ();
  __builtin_unreachable ();
}

void sim_join (int id)
{
  Fiber * f = sim_fiber (id);
  sim_sync_point (97, nullptr);
  while (f->st != Fiber::DONE) sim_block (f, "join of a scenario thread");
  hb_join (f);
}
void sim_join_all (const std::vector<int> & ids) { for (int i : ids) sim_join (i); }
bool sim_done (int id) { return sim_fiber (id)->st == Fiber::DONE; }
bool sim_is_lib_thread (int id) { Fiber * f = sim_fiber (id); return f && f->lib; }
int sim_thread_count () { return (int) fibers.size (); }
bool sim_thread_alive (int id) { Fiber * f = sim_fiber (id); return f && f->st != Fiber::DONE; }
int sim_live_threads () { int n = 0; for (Fiber * f : live) if (f->lib && f->st != Fiber::DONE) n++; return n; }
int sim_unjoined () { int n = 0; for (Fiber * f : fibers) if (f->lib && !f->detached && !f->joined) n++; return n; }
int sim_thread_prio_refused (int id) { return sim_fiber (id)->prio_refused; }
int sim_thread_prio (int id) { return sim_fiber (id)->prio; }
uint64_t sim_thread_cpus () { return cur->cpus; }
int sim_thread_policy (int id) { return sim_fiber (id)->policy; }

static void race_access (uintptr_t a, size_t n, int kind, uint32_t pc);
// ------------------------------------------------------------------ heap with shadow
#define ARENA_BASE 0x100000000000ull
#define ARENA_SIZE (1ull << 30)
#define SHADOW_BASE 0x110000000000ull
static uint8_t * const shadow = (uint8_t *) SHADOW_BASE;
static uint64_t arena_next;
struct Block { uint64_t off; uint64_t size; bool freed; uintptr_t pcs[3]; };
static std::vector<Block> * blocks;
static std::unordered_map<uint64_t, uint32_t> * block_at;
static uint64_t live_blocks;
static uint32_t heap_mark;
// shadow: 0 = never allocated or redzone, 1..8 = that many leading bytes valid, 0xFD = freed

__attribute__ ((constructor (101))) static void arena_init ()
{
  if (mmap ((void *) ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED) abort ();
  if (mmap ((void *) SHADOW_BASE, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED) abort ();
  blocks = new std::vector<Block>;
  block_at = new std::unordered_map<uint64_t, uint32_t>;
  arena_next = 64;
}

bool sim_is_arena (const void * p) { return (uintptr_t) p - ARENA_BASE < ARENA_SIZE; }

static const char * find_block (uintptr_t a, char * b, size_t n)
{
  // nearest block at or below a
  uint64_t off = a - ARENA_BASE;
  const Block * best = nullptr;
  for (const Block & k : *blocks) if (k.off <= off && (!best || k.off > best->off)) best = &k;
  if (!best) snprintf (b, n, "no block");
  else snprintf (b, n, "offset %llu of a %s block of %llu bytes", (unsigned long long) (off - best->off), best->freed ? "freed" : "live", (unsigned long long) best->size);
  return b;
}

static void bad_access (uintptr_t a, size_t n, bool write, const char * what)
{
  uint8_t s = shadow[(a - ARENA_BASE) >> 3];
  char b[200];
  if (!g_active) return;
  // a never-reused heap: freed stays freed
  sim_fail (s == 0xFD ? "use-after-free" : "heap-overflow", "%s of %zu bytes in %s memory by %s (%s)", write ? "write" : "read", n,
    s == 0xFD ? "freed" : "unallocated", what, find_block (a, b, sizeof (b)));
}

static inline void check (uintptr_t a, size_t n, bool write)
{
  uint64_t off = a - ARENA_BASE;
  if (__builtin_expect (off < ARENA_SIZE, 1))
  {
    uint8_t s = shadow[off >> 3];
    uint64_t end = (off & 7) + n;
    if (__builtin_expect (s == 8 && end <= 8, 1)) return;
    if (s >= 1 && s <= 8 && end <= s) return;
    if (s == 8 && end > 8)
    {
      uint64_t last = off + n - 1;
      for (uint64_t g = (off >> 3) + 1; g <= (last >> 3); g++)
      {
        uint8_t t = shadow[g];
        uint64_t need = g == (last >> 3) ? (last & 7) + 1 : 8;
        if (t < 1 || t > 8 || t < need) { bad_access (ARENA_BASE + (g << 3), n, write, "the library"); return; }
      }
      return;
    }
    bad_access (a, n, write, "the library");
  }
  else if (__builtin_expect (a < 65536, 0)) sim_fail ("null-dereference", "%s of %zu bytes at address %zu", write ? "write" : "read", n, (size_t) a);
}

void sim_check_range (const void * p, size_t n, bool write, const char * what)
{
  if (!n || !g_active) return;
  uintptr_t a = (uintptr_t) p;
  if (a < 65536) sim_fail ("null-dereference", "%s passed address %zu", what, (size_t) a);
  uint64_t off = a - ARENA_BASE;
  if (off >= ARENA_SIZE) return;
  uint64_t last = off + n - 1;
  for (uint64_t g = off >> 3; g <= (last >> 3); g++)
  {
    uint8_t t = shadow[g];
    uint64_t need = g == (last >> 3) ? (last & 7) + 1 : 8;
    if (t < 1 || t > 8 || t < need) bad_access (ARENA_BASE + (g << 3), n, write, what);
  }
}
// the same for an access made on behalf of the library
void sim_check_access (const void * p, size_t n, bool write, const char * what)
{
  sim_check_range (p, n, write, what);
  if (__builtin_expect (g_race, 0) && n) race_access ((uintptr_t) p, n, write ? 1 : 0, 0);
}

bool sim_addr_live (const void * p)
{
  uint64_t off = (uintptr_t) p - ARENA_BASE;
  if (off >= ARENA_SIZE) return true;
  uint8_t s = shadow[off >> 3];
  return s >= 1 && s <= 8;
}

static void * heap_alloc (size_t n, int fill)
{
  if (n > PTRDIFF_MAX) { errno = ENOMEM; return nullptr; } // no system can satisfy this
  uint64_t need = ((n + 15) & ~15ull) + 32;
  if (n > (256u << 20) || arena_next + need > ARENA_SIZE)
  {
    if (g_active) sim_fail ("huge-allocation", "allocation of %zu bytes", n);
    abort ();
  }
  uint64_t off = arena_next;
  arena_next += need;
  char * p = (char *) ARENA_BASE + off;
  uint64_t g = off >> 3, full = n >> 3;
  memset (shadow + g, 8, full);
  if (n & 7) shadow[g + full] = (uint8_t) (n & 7);
  if (n == 0) shadow[g] = 0;
  if (fill >= 0 && n) { if (fill) memset (p, fill, n); } // fresh arena pages are zero and never reused
  (*block_at)[off] = (uint32_t) blocks->size ();
  Block b { off, n, false, { 0, 0, 0 } };
  for (int i = 0; i < 3 && i < cur->depth && cur->depth - 1 - i < 64; i++) b.pcs[i] = cur->callstk[cur->depth - 1 - i];
  blocks->push_back (b);
  live_blocks++;
  return p;
}

size_t sim_block_size (const void * p) // size of the live block that starts at p, 0 if none does
{
  auto it = block_at->find ((uintptr_t) p - ARENA_BASE);
  return it == block_at->end () || (*blocks)[it->second].freed ? 0 : (*blocks)[it->second].size;
}
uint64_t sim_live_blocks () { return live_blocks; }
void sim_heap_mark () { heap_mark = (uint32_t) blocks->size (); }
std::string sim_leaks (size_t max, size_t ignore)
{
  std::string s; size_t n = 0, tot = 0;
  for (size_t i = heap_mark; i < blocks->size (); i++)
  {
    const Block & b = (*blocks)[i];
    if (b.freed || (ignore && b.size == ignore)) continue;
    tot++;
    if (n++ < max)
    {
      char t[160];
      snprintf (t, sizeof (t), "%s%llu bytes @%lx<%lx<%lx", s.empty () ? "" : "; ", (unsigned long long) b.size, (long) b.pcs[0], (long) b.pcs[1], (long) b.pcs[2]);
      s += t;
    }
  }
  if (tot) { char t[40]; snprintf (t, sizeof (t), " (%zu blocks)", tot); s += t; }
  return s;
}

extern "C" {
void * sim_malloc (size_t n) { sim_step (); return heap_alloc (n, 0xBE); }
void * sim_calloc (size_t a, size_t b) { sim_step (); return heap_alloc (a * b, 0); }
void sim_free (void * p)
{
  sim_step ();
  if (!p) return;
  if (!sim_is_arena (p)) { free (p); return; } // allocated by libc or libyaml
  uint64_t off = (uintptr_t) p - ARENA_BASE;
  auto it = block_at->find (off);
  char b[200];
  if (it == block_at->end ()) { if (g_active) sim_fail ("invalid-free", "free of an address that was not allocated (%s)", find_block ((uintptr_t) p, b, sizeof (b))); abort (); }
  Block & k = (*blocks)[it->second];
  if (k.freed) { if (g_active) sim_fail ("double-free", "second free of a block of %llu bytes", (unsigned long long) k.size); abort (); }
  if (g_race && k.size) race_access ((uintptr_t) p, k.size < 4096 ? k.size : 4096, 5, (uint32_t) (uintptr_t) __builtin_return_address (0));
  k.freed = true;
  live_blocks--;
  uint64_t g = off >> 3, cnt = (k.size + 7) >> 3;
  memset (shadow + g, 0xFD, cnt ? cnt : 1);
  memset (p, 0xDD, k.size);
}
void * sim_realloc (void * p, size_t n)
{
  if (!p) return sim_malloc (n);
  if (!sim_is_arena (p)) return realloc (p, n);
  uint64_t off = (uintptr_t) p - ARENA_BASE;
  auto it = block_at->find (off);
  if (it == block_at->end () || (*blocks)[it->second].freed) sim_fail ("invalid-free", "realloc of a block that is not live");
  uint64_t old = (*blocks)[it->second].size;
  sim_step ();
  void * q = heap_alloc (n, 0xBE);
  if (!q) return nullptr;
  memcpy (q, p, old < n ? old : n);
  sim_free (p);
  return q;
}
void * sim_reallocarray (void * p, size_t a, size_t b) { return sim_realloc (p, a * b); }
void * sim_aligned_alloc (size_t al, size_t n) { if (al > 16) { void * p = aligned_alloc (al, n); return p; } return sim_malloc (n); }
int sim_posix_memalign (void ** r, size_t al, size_t n) { *r = sim_aligned_alloc (al, n); return 0; }
int sim_vasprintf (char ** r, const char * f, va_list ap)
{
  va_list c; va_copy (c, ap);
  int n = vsnprintf (nullptr, 0, f, c);
  va_end (c);
  *r = (char *) sim_malloc ((size_t) n + 1);
  return vsnprintf (*r, (size_t) n + 1, f, ap);
}
int sim_asprintf (char ** r, const char * f, ...) { va_list ap; va_start (ap, f); int n = sim_vasprintf (r, f, ap); va_end (ap); return n; }
char * sim_strdup (const char * s)
{
  size_t n = strlen (s) + 1;
  sim_check_range (s, n, false, "strdup");
  char * p = (char *) sim_malloc (n);
  memcpy (p, s, n);
  return p;
}
char * sim_strndup (const char * s, size_t n)
{
  size_t l = strnlen (s, n);
  sim_check_range (s, l, false, "strndup");
  char * p = (char *) sim_malloc (l + 1);
  memcpy (p, s, l); p[l] = 0;
  return p;
}
}

#define RET ((uintptr_t) __builtin_return_address (0))
// ------------------------------------------------------------------ happens-before tracking
// In race mode every instrumented access of the library to the heap or to its static data is checked against the earlier
// accesses to the same bytes by a vector-clock happens-before relation over the library's own synchronisation. Scenario
// code and the boundary between it and the library count as one lock, so only calls that overlap can race.
extern "C" { extern char __start_libtext[] __attribute__ ((weak)); extern char __stop_libtext[] __attribute__ ((weak)); extern char __data_start; }
#define CELL_BASE 0x400000000000ull
#define GCELL_BASE 0x420000000000ull
struct Acc { uint16_t tid1; uint8_t mask; uint8_t kind; uint32_t clk; uint32_t pc; }; // kind: 1 write, 2 atomic, 4 free
struct Cell { Acc w[2]; Acc r[3]; uint32_t rr; };
static_assert (sizeof (Cell) == 64, "");
static std::unordered_map<uintptr_t, std::vector<uint32_t>> * hb_obj;
static std::vector<uint32_t> hb_harness;
static uintptr_t g_lo, g_len;

static void hb_start ()
{
  g_lo = (uintptr_t) &__data_start & ~63ull;
  g_len = (uintptr_t) &end - g_lo;
  if (mmap ((void *) CELL_BASE, ARENA_SIZE * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED) abort ();
  if (mmap ((void *) GCELL_BASE, (g_len * 8 + 8192) & ~4095ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED) abort ();
  hb_obj = new std::unordered_map<uintptr_t, std::vector<uint32_t>>;
  g_race = true;
}
static inline void vc_join (std::vector<uint32_t> & a, const std::vector<uint32_t> & b)
{
  if (a.size () < b.size ()) a.resize (b.size ());
  for (size_t i = 0; i < b.size (); i++) if (a[i] < b[i]) a[i] = b[i];
}
static inline void vc_own (Fiber * f) { if (f->vc.size () <= (size_t) f->id) f->vc.resize ((size_t) f->id + 1); if (!f->vc[(size_t) f->id]) f->vc[(size_t) f->id] = 1; }
static void vc_acquire (const std::vector<uint32_t> & c) { vc_own (cur); vc_join (cur->vc, c); }
static void vc_release (std::vector<uint32_t> & c) { vc_own (cur); vc_join (c, cur->vc); cur->vc[(size_t) cur->id]++; }
void hb_acquire (const void * o)
{
  if (!g_race) return;
  auto it = hb_obj->find ((uintptr_t) o);
  if (it != hb_obj->end ()) vc_acquire (it->second);
}
void hb_release (const void * o) { if (g_race) vc_release ((*hb_obj)[(uintptr_t) o]); }
void hb_fork (Fiber * f)
{
  if (!g_race) return;
  vc_own (cur); f->vc = cur->vc; vc_own (f); cur->vc[(size_t) cur->id]++;
}
void hb_join (Fiber * f) { if (g_race) { vc_own (f); vc_acquire (f->vc); } }
static void hb_scenario () { if (g_race) { vc_acquire (hb_harness); vc_release (hb_harness); } }

// name of the function around an address, from the symbol table of the running program
static std::string function_at (uintptr_t a)
{
  std::string best = "?";
  FILE * f = fopen ("/proc/self/exe", "rb");
  if (!f) return best;
  ElfW (Ehdr) eh;
  if (fread (&eh, sizeof (eh), 1, f) == 1)
  {
    std::vector<ElfW (Shdr)> sh (eh.e_shnum);
    fseek (f, (long) eh.e_shoff, SEEK_SET);
    if (fread (sh.data (), sizeof (sh[0]), sh.size (), f) == sh.size ())
      for (auto & h : sh)
      {
        if (h.sh_type != SHT_SYMTAB) continue;
        std::vector<ElfW (Sym)> sy (h.sh_size / sizeof (ElfW (Sym)));
        fseek (f, (long) h.sh_offset, SEEK_SET);
        if (fread (sy.data (), sizeof (sy[0]), sy.size (), f) != sy.size ()) continue;
        for (auto & y : sy) if ((y.st_info & 15) == STT_FUNC && a >= y.st_value && a < y.st_value + y.st_size)
        {
          char b[80] = "";
          fseek (f, (long) (sh[h.sh_link].sh_offset + y.st_name), SEEK_SET);
          size_t n = fread (b, 1, sizeof (b) - 1, f);
          b[n < 40 ? n : 40] = 0;
          best = b;
        }
      }
  }
  fclose (f);
  return best;
}

static void race_found (uintptr_t a, const Acc & old, int kind, size_t n, uint32_t pc)
{
  const char * names[8] = { "read", "write", "atomic read", "atomic write", "free", "free", "free", "free" };
  char b[200], d[80] = "";
  uint32_t bp = 0;
  if (a - ARENA_BASE < ARENA_SIZE)
  {
    find_block (a, b, sizeof (b));
    uint64_t off = a - ARENA_BASE; const Block * best = nullptr;
    for (const Block & k : *blocks) if (k.off <= off && (!best || k.off > best->off)) best = &k;
    if (best) bp = (uint32_t) best->pcs[0];
    snprintf (d, sizeof (d), " allocated @%x", bp);
  }
  else snprintf (b, sizeof (b), "static data at %lx", (long) a);
  Fiber * o = sim_fiber (old.tid1 - 1);
  std::string f1 = function_at (pc), f2 = function_at (old.pc);
  std::string cls = "data-race:" + std::min (f1, f2) + "/" + std::max (f1, f2);
  sim_fail (cls.c_str (), "%s of %zu bytes by thread %d:%s @%x is not ordered with the %s by thread %d:%s @%x (%s%s)", names[kind & 7], n, cur->id, cur->name.c_str (), pc,
    names[old.kind & 7], old.tid1 - 1, o ? o->name.c_str () : "?", old.pc, b, d);
}

static void race_cell (Cell * c, uintptr_t a, uint8_t m, int kind, size_t n, uint32_t pc)
{
  uint32_t t1 = (uint32_t) cur->id + 1;
  const std::vector<uint32_t> & vc = cur->vc;
  auto before = [&] (const Acc & s) { return s.tid1 == t1 || (s.tid1 - 1u < vc.size () && s.clk <= vc[s.tid1 - 1u]); };
  for (Acc & s : c->w) if (s.tid1 && (s.mask & m) && !((s.kind & 2) && (kind & 2)) && !before (s)) race_found (a, s, kind, n, pc);
  if (kind & 1) for (Acc & s : c->r) if (s.tid1 && (s.mask & m) && !((s.kind & 2) && (kind & 2)) && !before (s)) race_found (a, s, kind, n, pc);
  Acc na { (uint16_t) t1, m, (uint8_t) kind, vc[t1 - 1], pc };
  Acc * v = kind & 1 ? c->w : c->r; int nv = kind & 1 ? 2 : 3, use = -1;
  for (int i = 0; i < nv && use < 0; i++) if (!v[i].tid1 || ((v[i].mask & ~m) == 0 && before (v[i]) && (!(kind & 2) || (v[i].kind & 2)))) use = i;
  if (use < 0) use = (int) (c->rr++ % (uint32_t) nv);
  v[use] = na;
}

static void race_access (uintptr_t a, size_t n, int kind, uint32_t pc)
{
  uintptr_t base; Cell * cells;
  if (a - ARENA_BASE < ARENA_SIZE) { base = ARENA_BASE; cells = (Cell *) CELL_BASE; }
  else if (a - g_lo < g_len) { base = g_lo; cells = (Cell *) GCELL_BASE; }
  else return;
  if (!g_active) return;
  vc_own (cur);
  if (!pc && cur->depth > 0 && cur->depth <= 64) pc = (uint32_t) cur->callstk[cur->depth - 1];
  uintptr_t off = a - base, last = off + n - 1;
  for (uintptr_t g = off >> 3; g <= last >> 3; g++)
  {
    unsigned lo = g == off >> 3 ? off & 7 : 0, hi = g == last >> 3 ? last & 7 : 7;
    race_cell (cells + g, base + (g << 3) + lo, (uint8_t) ((0xffu << lo) & (0xffu >> (7 - hi))), kind, n, pc);
  }
}
#define HB(a, n, k) do { if (__builtin_expect (g_race, 0)) race_access ((uintptr_t) (a), n, k, (uint32_t) RET); } while (0)
static inline bool outside_lib (void * pc) { return (uintptr_t) pc - (uintptr_t) __start_libtext >= (uintptr_t) (__stop_libtext - __start_libtext); }
static void hb_enter (void * pc) { if (outside_lib (pc) && !(cur->lib && cur->depth == 0)) vc_acquire (hb_harness); }
static void hb_leave () { int d = cur->depth; if (d < 64 && outside_lib ((void *) cur->callstk[d]) && !(cur->lib && d == 0)) vc_release (hb_harness); }

// ------------------------------------------------------------------ compiler-inserted hooks
extern "C" {
void __tsan_init (void) {}
void __tsan_func_entry (void * pc) { if (__builtin_expect (g_race, 0)) hb_enter (pc); int d = cur->depth++; if (d < 64) cur->callstk[d] = (uintptr_t) pc; }
void __tsan_func_exit (void) { cur->depth--; if (__builtin_expect (g_race, 0)) hb_leave (); }
#define RW(n) \
  void __tsan_read##n (void * a) { sim_step (); check ((uintptr_t) a, n, false); HB (a, n, 0); } \
  void __tsan_write##n (void * a) { sim_step (); check ((uintptr_t) a, n, true); HB (a, n, 1); } \
  void __tsan_unaligned_read##n (void * a) { sim_step (); check ((uintptr_t) a, n, false); HB (a, n, 0); } \
  void __tsan_unaligned_write##n (void * a) { sim_step (); check ((uintptr_t) a, n, true); HB (a, n, 1); } \
  void __tsan_volatile_read##n (void * a) { sim_step (); check ((uintptr_t) a, n, false); HB (a, n, 2); } \
  void __tsan_volatile_write##n (void * a) { sim_step (); check ((uintptr_t) a, n, true); HB (a, n, 3); }
RW (1) RW (2) RW (4) RW (8) RW (16)
void __tsan_read_range (void * a, size_t n) { sim_step (); sim_check_range (a, n, false, "the library"); HB (a, n, 0); }
void __tsan_write_range (void * a, size_t n) { sim_step (); sim_check_range (a, n, true, "the library"); HB (a, n, 1); }
void __tsan_vptr_update (void **, void *) {}
void __tsan_vptr_read (void **) {}

static uint64_t gen_cas (void *) { return srng.chance (sim_conf.fault_p[FK_CAS_FAIL]) ? 1 : 0; }
static bool cas_fails ()
{
  if (!g_active || g_faults_off || sim_conf.fault_p[FK_CAS_FAIL] <= 0) return false;
  bool f = sim_choose_raw (CK_FAULT + FK_CAS_FAIL, 0, gen_cas, nullptr) != 0;
  if (f) g_res->faults[FK_CAS_FAIL]++;
  return f;
}
static void hb_atomic (uintptr_t a, size_t n, int mo, int kind, uint32_t pc)
{
  race_access (a, n, kind, pc);
  bool acq = mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  if (acq) hb_acquire ((void *) a);
  if (rel && (kind & 1)) hb_release ((void *) a);
}
#define HBA(a, b, mo, k) do { if (__builtin_expect (g_race, 0)) hb_atomic ((uintptr_t) (a), b / 8, mo, k, (uint32_t) RET); } while (0)
#define ATOM(b, T) \
  T __tsan_atomic##b##_load (const volatile T * a, int mo) { sim_sync_point (70, (void *) a); check ((uintptr_t) a, sizeof (T), false); HBA (a, b, mo, 2); return *a; } \
  void __tsan_atomic##b##_store (volatile T * a, T v, int mo) { sim_sync_point (71, (void *) a); check ((uintptr_t) a, sizeof (T), true); HBA (a, b, mo, 3); *a = v; } \
  T __tsan_atomic##b##_exchange (volatile T * a, T v, int mo) { sim_sync_point (72, (void *) a); check ((uintptr_t) a, sizeof (T), true); HBA (a, b, mo, 3); T o = *a; *a = v; return o; } \
  T __tsan_atomic##b##_fetch_add (volatile T * a, T v, int mo) { sim_sync_point (73, (void *) a); check ((uintptr_t) a, sizeof (T), true); HBA (a, b, mo, 3); T o = *a; *a = (T) (o + v); return o; } \
  T __tsan_atomic##b##_fetch_sub (volatile T * a, T v, int mo) { sim_sync_point (74, (void *) a); check ((uintptr_t) a, sizeof (T), true); HBA (a, b, mo, 3); T o = *a; *a = (T) (o - v); return o; } \
  T __tsan_atomic##b##_fetch_and (volatile T * a, T v, int mo) { sim_sync_point (75, (void *) a); check ((uintptr_t) a, sizeof (T), true); HBA (a, b, mo, 3); T o = *a; *a = (T) (o & v); return o; } \
  T __tsan_atomic##b##_fetch_or (volatile T * a, T v, int mo) { sim_sync_point (76, (void *) a); check ((uintptr_t) a, sizeof (T), true); HBA (a, b, mo, 3); T o = *a; *a = (T) (o | v); return o; } \
  T __tsan_atomic##b##_fetch_xor (volatile T * a, T v, int mo) { sim_sync_point (77, (void *) a); check ((uintptr_t) a, sizeof (T), true); HBA (a, b, mo, 3); T o = *a; *a = (T) (o ^ v); return o; } \
  T __tsan_atomic##b##_fetch_nand (volatile T * a, T v, int mo) { sim_sync_point (78, (void *) a); check ((uintptr_t) a, sizeof (T), true); HBA (a, b, mo, 3); T o = *a; *a = (T) ~(o & v); return o; } \
  int __tsan_atomic##b##_compare_exchange_strong (volatile T * a, T * c, T v, int mo, int) { sim_sync_point (79, (void *) a); check ((uintptr_t) a, sizeof (T), true); HBA (a, b, mo, 3); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak (volatile T * a, T * c, T v, int mo, int) { sim_sync_point (80, (void *) a); check ((uintptr_t) a, sizeof (T), true); HBA (a, b, mo, 3); if (*a == *c && !cas_fails ()) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##b##_compare_exchange_val (volatile T * a, T c, T v, int mo, int) { sim_sync_point (81, (void *) a); check ((uintptr_t) a, sizeof (T), true); HBA (a, b, mo, 3); T o = *a; if (o == c) *a = v; return o; }
ATOM (8, uint8_t) ATOM (16, uint16_t) ATOM (32, uint32_t) ATOM (64, uint64_t)
void __tsan_atomic_thread_fence (int) { sim_step (); static char fence; hb_acquire (&fence); hb_release (&fence); }
void __tsan_atomic_signal_fence (int) {}

void sim_assert_fail (const char * expr, const char * file, unsigned line, const char * fn)
{
  const char * b = strrchr (file, '/');
  sim_fail ("assertion", "assertion `%s' failed in %s (%s:%u)", expr, fn, b ? b + 1 : file, line);
}
void sim_stack_chk_fail (void) { sim_fail ("stack-overflow", "a stack buffer was overrun"); }
void sim_abort (void) { sim_fail ("abort", "the library called abort"); }
void sim_exit (int c) { sim_fail ("abort", "the library called exit (%d)", c); }
}

static void on_signal (int sig, siginfo_t * si, void *)
{
  uintptr_t a = (uintptr_t) si->si_addr;
  if (g_res && g_active)
  {
    int s = sig;
    sim_fail (sig == SIGALRM ? "hang" : "signal", "signal %d%s", s, sig == SIGSEGV ? (a < 65536 ? " (null dereference)" : a - STACK_BASE < 0x1000000000ull ? " (stack exhausted)" : " (bad address)") : "");
  }
  if (g_res) { snprintf (g_res->cls, sizeof (g_res->cls), "harness"); snprintf (g_res->msg, sizeof (g_res->msg), "signal %d outside a run, address %lx", sig, (long) a); g_res->status = RS_FAIL; }
  _exit (3);
}

// ------------------------------------------------------------------ running a scenario
void sim_run_scenario (const Scenario & sc, const Plan & plan, const RunParams & rp, RunResult * res)
{
  static char altstack[65536];
  stack_t ss; memset (&ss, 0, sizeof (ss));
  ss.ss_sp = altstack; ss.ss_size = sizeof (altstack);
  sigaltstack (&ss, nullptr);
  struct sigaction sa; memset (&sa, 0, sizeof (sa));
  sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM }) sigaction (s, &sa, nullptr);
  alarm (40);
  params = rp;
  g_res = res;
  dl_iterate_phdr (tls_cb, nullptr);
  srng = Rng (rp.seed * 0x9E3779B97F4A7C15ull + 77 + (uint64_t) rp.phase * 1313);
  for (int i = 0; i < 5; i++) srng.next ();
  clock_offset = 1700000000ll * 1000000000ll;
  base_time = 1000;
  if (!rp.replay)
  {
    double x = srng.unit ();
    strat.kind = x < 0.5 ? 0 : x < 0.8 ? 1 : 2;
    strat.gap = (double) srng.logrange (25, 20000);
    strat.p_sync = srng.pick<double> ({ 0.03, 0.1, 0.3, 0.6 });
    if (strat.kind == 0 && srng.chance (0.25)) strat.gap = 1e12;     // switch at synchronisation only
    if (strat.kind == 2) { strat.gap = (double) srng.logrange (500, 100000); strat.p_sync = srng.pick<double> ({ 0.0, 0.002, 0.01, 0.03 }); }
    strat.p_next_random = srng.pick<double> ({ 0.1, 0.5 });
    strat.pct_low = 0;
    strat.pct_left = srng.range (1, 6);
    if (strat.kind == 1) strat.gap = (double) srng.logrange (50, 30000);
    strat.p_stall = srng.pick<double> ({ 0, 0, 0.001, 0.005, 0.02 });
    strat.p_jump = srng.pick<double> ({ 0, 0, 0.005, 0.05 });
    strat.p_spur = srng.pick<double> ({ 0, 0, 0.02, 0.2 });
    for (int i = 0; i < FK_COUNT; i++) swarm[i] = srng.pick<double> ({ 0, 0.3, 1, 1, 3 });
  }
  else
  {
    strat.gap = 1e12;
    for (const ChoiceRec & c : *rp.choices)
    {
      if (c.phase != rp.phase) continue;
      if (c.fiber >= replay_by_fiber.size ()) replay_by_fiber.resize (c.fiber + 1u);
      replay_by_fiber[c.fiber].push_back (c);
    }
    for (auto & v : replay_by_fiber) std::stable_sort (v.begin (), v.end (), [] (const ChoiceRec & a, const ChoiceRec & b) { return a.step < b.step; });
  }
  sim_conf = SimConf ();
  if (plan.k (0) > 0) sim_conf.step_cost = (uint64_t) plan.k (0);
  if (rp.race) hb_start ();
  Fiber * m = sim_new_fiber ("main");
  const Plan * pl = &plan;
  auto fn = rp.phase == 0 ? sc.run : sc.recover;
  m->fn = [fn, pl] { fn (*pl); };
  g_active = true;
  switch_to (m);
  g_active = false;
  sim_finish_ok ();
}
