// Stand-ins for pthreads, clocks, sleeping, string/memory functions, random numbers, environment, dynamic loading.
#include "sim_int.h"
#include <errno.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <dlfcn.h>
#include <map>
#include <wchar.h>

uint64_t sim_spurious ();
static int s_euid = 0;
void sim_set_euid (int u) { s_euid = u; }

#define MMAGIC 0x4d555458u
#define CMAGIC 0x434f4e44u
#define RMAGIC 0x52574c4bu
#define DEAD 0xDEADDEADu
struct SMutex { uint32_t magic; int32_t owner; uint32_t count; uint32_t type; };           // owner: fiber id + 1
struct SCond { uint32_t magic; uint32_t waiters; uint32_t clock; uint32_t dummy; };
struct SRw { uint32_t magic; int32_t writer; int32_t readers; uint32_t dummy; uint8_t who[40]; };
static_assert (sizeof (SMutex) <= sizeof (pthread_mutex_t), "");
static_assert (sizeof (SCond) <= sizeof (pthread_cond_t), "");
static_assert (sizeof (SRw) <= sizeof (pthread_rwlock_t), "");

static SMutex * mtx (const void * m, const char * what)
{
  sim_check_range (m, sizeof (SMutex), true, what);
  SMutex * s = (SMutex *) m;
  if (g_active && s->magic != MMAGIC && s->magic != 0) sim_fail ("bad-mutex", "%s on a mutex that is %s", what, s->magic == DEAD ? "destroyed" : "not initialised");
  return s;
}
static SCond * cnd (const void * m, const char * what)
{
  sim_check_range (m, sizeof (SCond), true, what);
  SCond * s = (SCond *) m;
  if (g_active && s->magic != CMAGIC && s->magic != 0) sim_fail ("bad-cond", "%s on a condition variable that is %s", what, s->magic == DEAD ? "destroyed" : "not initialised");
  return s;
}
static SRw * rw (const void * m, const char * what)
{
  sim_check_range (m, sizeof (SRw), true, what);
  SRw * s = (SRw *) m;
  if (g_active && s->magic != RMAGIC && s->magic != 0) sim_fail ("bad-rwlock", "%s on a lock that is %s", what, s->magic == DEAD ? "destroyed" : "not initialised");
  return s;
}

static bool lock_mutex (SMutex * s, bool has_dl, bool real, uint64_t dl)
{
  while (s->owner)
  {
    sim_block (s, "mutex", has_dl, real, dl);
    if (cur->timed_out) return false;
    if (g_active && s->magic == DEAD) sim_fail ("bad-mutex", "a mutex was destroyed while a thread waited for it");
  }
  s->owner = cur->id + 1;
  s->count = 1;
  hb_acquire (s);
  return true;
}

static uint64_t ts_ns (const struct timespec * t) { return (uint64_t) t->tv_sec * 1000000000ull + (uint64_t) t->tv_nsec; }
static void ns_ts (uint64_t n, struct timespec * t) { t->tv_sec = (time_t) (n / 1000000000ull); t->tv_nsec = (long) (n % 1000000000ull); }

extern "C" {
// ---------------------------------------------------------------- mutexes
int sim_pthread_mutex_init (pthread_mutex_t * m, const pthread_mutexattr_t * a)
{
  sim_step ();
  sim_check_access (m, sizeof (pthread_mutex_t), true, "pthread_mutex_init");
  memset (m, 0, sizeof (*m));
  SMutex * s = (SMutex *) m;
  s->magic = MMAGIC;
  int t = PTHREAD_MUTEX_NORMAL;
  if (a) pthread_mutexattr_gettype (a, &t);
  s->type = (uint32_t) t;
  return 0;
}
int sim_pthread_mutex_destroy (pthread_mutex_t * m)
{
  SMutex * s = mtx (m, "pthread_mutex_destroy");
  sim_sync_point (1, m);
  s = mtx (m, "pthread_mutex_destroy");
  if (s->owner && g_active) sim_fail ("bad-mutex", "a locked mutex was destroyed");
  s->magic = DEAD;
  return 0;
}
int sim_pthread_mutex_lock (pthread_mutex_t * m)
{
  SMutex * s = mtx (m, "pthread_mutex_lock");
  if (!g_active) { s->owner = 0x7fff; s->count++; return 0; }
  sim_sync_point (2, m);
  s = mtx (m, "pthread_mutex_lock");
  if (s->owner == cur->id + 1)
  {
    if (s->type == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
    if (s->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    sim_fail ("deadlock", "a thread locked a mutex it already holds");
  }
  lock_mutex (s, false, false, 0);
  return 0;
}
int sim_pthread_mutex_trylock (pthread_mutex_t * m)
{
  mtx (m, "pthread_mutex_trylock");
  sim_sync_point (3, m);
  SMutex * s = mtx (m, "pthread_mutex_trylock");
  if (s->owner == cur->id + 1 && s->type == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
  if (s->owner) return EBUSY;
  s->owner = cur->id + 1; s->count = 1;
  hb_acquire (s);
  return 0;
}
int sim_pthread_mutex_timedlock (pthread_mutex_t * m, const struct timespec * t)
{
  mtx (m, "pthread_mutex_timedlock");
  sim_sync_point (2, m);
  SMutex * s = mtx (m, "pthread_mutex_timedlock");
  return lock_mutex (s, true, true, ts_ns (t)) ? 0 : ETIMEDOUT;
}
int sim_pthread_mutex_unlock (pthread_mutex_t * m)
{
  SMutex * s = mtx (m, "pthread_mutex_unlock");
  if (!g_active) { if (s->count && --s->count == 0) s->owner = 0; return 0; }
  if (s->owner != cur->id + 1)
  {
    if (s->type == PTHREAD_MUTEX_ERRORCHECK) return EPERM;
    sim_fail ("bad-mutex", "a thread unlocked a mutex it does not hold");
  }
  if (--s->count) return 0;
  hb_release (s);
  s->owner = 0;
  sim_wake_all (s);
  sim_sync_point (4, m);
  return 0;
}
// ---------------------------------------------------------------- conditions
int sim_pthread_cond_init (pthread_cond_t * c, const pthread_condattr_t * a)
{
  sim_step ();
  sim_check_access (c, sizeof (*c), true, "pthread_cond_init");
  memset (c, 0, sizeof (*c));
  SCond * s = (SCond *) c;
  s->magic = CMAGIC;
  clockid_t k = CLOCK_REALTIME;
  if (a) pthread_condattr_getclock (a, &k);
  s->clock = (uint32_t) k;
  return 0;
}
int sim_pthread_cond_destroy (pthread_cond_t * c)
{
  SCond * s = cnd (c, "pthread_cond_destroy");
  sim_sync_point (5, c);
  s = cnd (c, "pthread_cond_destroy");
  while (s->waiters && g_active) { sim_block ((char *) s + 1, "destroying a condition variable with waiters"); }
  s->magic = DEAD;
  return 0;
}
static int cond_wait_common (pthread_cond_t * c, pthread_mutex_t * m, bool timed, bool real, uint64_t dl)
{
  cnd (c, "pthread_cond_wait"); mtx (m, "pthread_cond_wait");
  sim_sync_point (6, c);
  SCond * s = cnd (c, "pthread_cond_wait");
  SMutex * x = mtx (m, "pthread_cond_wait");
  if (x->owner != cur->id + 1) sim_fail ("bad-mutex", "condition wait without holding the mutex");
  uint64_t spur = sim_spurious ();
  hb_release (x);
  x->owner = 0; x->count = 0;
  sim_wake_all (x);
  s->waiters++;
  bool timeout = false;
  sim_block (s, "condition variable", timed, real, dl, spur ? sim_now () + spur : 0);
  timeout = cur->timed_out;
  if (s->magic != CMAGIC && s->magic != 0) sim_fail ("bad-cond", "a condition variable was destroyed while a thread waited on it");
  if (--s->waiters == 0) sim_wake_all ((char *) s + 1);
  mtx (m, "pthread_cond_wait");
  lock_mutex (x, false, false, 0);
  return timeout ? ETIMEDOUT : 0;
}
int sim_pthread_cond_wait (pthread_cond_t * c, pthread_mutex_t * m) { return cond_wait_common (c, m, false, false, 0); }
int sim_pthread_cond_timedwait (pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t)
{
  sim_check_access (t, sizeof (*t), false, "pthread_cond_timedwait");
  if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
  return cond_wait_common (c, m, true, ((SCond *) c)->clock == CLOCK_REALTIME, ts_ns (t));
}
int sim_pthread_cond_clockwait (pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t)
{
  if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
  return cond_wait_common (c, m, true, k == CLOCK_REALTIME, ts_ns (t));
}
int sim_pthread_cond_signal (pthread_cond_t * c)
{
  cnd (c, "pthread_cond_signal");
  sim_sync_point (7, c);
  cnd (c, "pthread_cond_signal");
  Fiber * f = sim_pick_waiter (c);
  if (f) { f->signaled = true; sim_make_ready (f); }
  return 0;
}
int sim_pthread_cond_broadcast (pthread_cond_t * c)
{
  cnd (c, "pthread_cond_broadcast");
  sim_sync_point (8, c);
  cnd (c, "pthread_cond_broadcast");
  sim_wake_all (c);
  return 0;
}
// ---------------------------------------------------------------- read-write locks (readers preferred, as in glibc)
int sim_pthread_rwlock_init (pthread_rwlock_t * l, const pthread_rwlockattr_t *)
{
  sim_step ();
  sim_check_access (l, sizeof (*l), true, "pthread_rwlock_init");
  memset (l, 0, sizeof (*l)); ((SRw *) l)->magic = RMAGIC;
  return 0;
}
int sim_pthread_rwlock_destroy (pthread_rwlock_t * l)
{
  rw (l, "pthread_rwlock_destroy");
  sim_sync_point (10, l);
  SRw * s = rw (l, "pthread_rwlock_destroy");
  if ((s->readers || s->writer) && g_active) sim_fail ("bad-rwlock", "a held read-write lock was destroyed");
  s->magic = DEAD;
  return 0;
}
int sim_pthread_rwlock_rdlock (pthread_rwlock_t * l)
{
  rw (l, "pthread_rwlock_rdlock");
  sim_sync_point (11, l);
  SRw * s = rw (l, "pthread_rwlock_rdlock");
  if (!g_active) { s->readers++; return 0; }
  if (s->writer == cur->id + 1) return EDEADLK;
  while (s->writer) sim_block (s, "read lock");
  s->readers++;
  hb_acquire (s);
  if (cur->id < 40) s->who[cur->id]++;
  return 0;
}
int sim_pthread_rwlock_tryrdlock (pthread_rwlock_t * l)
{
  sim_sync_point (11, l);
  SRw * s = rw (l, "pthread_rwlock_rdlock");
  if (s->writer) return EBUSY;
  s->readers++;
  hb_acquire (s);
  if (cur->id < 40) s->who[cur->id]++;
  return 0;
}
int sim_pthread_rwlock_wrlock (pthread_rwlock_t * l)
{
  rw (l, "pthread_rwlock_wrlock");
  sim_sync_point (12, l);
  SRw * s = rw (l, "pthread_rwlock_wrlock");
  if (!g_active) { s->writer = 0x7fff; return 0; }
  if (s->writer == cur->id + 1) return EDEADLK;
  while (s->writer || s->readers) sim_block (s, "write lock");
  hb_acquire (s); hb_acquire ((char *) s + 1);
  s->writer = cur->id + 1;
  return 0;
}
int sim_pthread_rwlock_trywrlock (pthread_rwlock_t * l)
{
  sim_sync_point (12, l);
  SRw * s = rw (l, "pthread_rwlock_wrlock");
  if (s->writer || s->readers) return EBUSY;
  hb_acquire (s); hb_acquire ((char *) s + 1);
  s->writer = cur->id + 1;
  return 0;
}
int sim_pthread_rwlock_unlock (pthread_rwlock_t * l)
{
  SRw * s = rw (l, "pthread_rwlock_unlock");
  if (!g_active) { if (s->writer) s->writer = 0; else if (s->readers) s->readers--; return 0; }
  hb_release (s->writer == cur->id + 1 ? (void *) s : (char *) s + 1);
  if (s->writer == cur->id + 1) s->writer = 0;
  else if (s->readers && (cur->id >= 40 || s->who[cur->id])) { s->readers--; if (cur->id < 40) s->who[cur->id]--; }
  else sim_fail ("bad-rwlock", "a thread released a read-write lock it does not hold");
  if (!s->readers) sim_wake_all (s);
  sim_sync_point (13, l);
  return 0;
}
int sim_pthread_once (pthread_once_t * o, void (*fn) (void))
{
  sim_sync_point (14, o);
  while (*o == 1) sim_block (o, "once");
  if (*o == 2) { hb_acquire (o); return 0; }
  *o = 1;
  fn ();
  hb_release (o);
  *o = 2;
  sim_wake_all (o);
  return 0;
}
int sim_pthread_spin_init (pthread_spinlock_t * l, int) { *l = 0; return 0; }
int sim_pthread_spin_destroy (pthread_spinlock_t *) { return 0; }
int sim_pthread_spin_lock (pthread_spinlock_t * l) { sim_sync_point (15, (void *) l); while (*l) sim_block ((void *) l, "spin lock"); *l = 1; hb_acquire ((void *) l); return 0; }
int sim_pthread_spin_unlock (pthread_spinlock_t * l) { hb_release ((void *) l); *l = 0; sim_wake_all ((void *) l); sim_sync_point (16, (void *) l); return 0; }
// ---------------------------------------------------------------- threads
pthread_t sim_pthread_self (void) { return (pthread_t) (0x7000000ull + (uint64_t) cur->id * 0x100); }
int sim_pthread_equal (pthread_t a, pthread_t b) { return a == b; }
static Fiber * by_tid (pthread_t t)
{
  uint64_t v = (uint64_t) t - 0x7000000ull;
  return (v & 0xff) ? nullptr : sim_fiber ((int) (v >> 8));
}
int sim_pthread_create (pthread_t * tid, const pthread_attr_t * a, void * (*fn) (void *), void * arg)
{
  sim_sync_point (20, nullptr);
  int pol = SCHED_OTHER, ds = PTHREAD_CREATE_JOINABLE;
  struct sched_param sp; sp.sched_priority = 0;
  int inh = PTHREAD_INHERIT_SCHED;
  if (a)
  {
    pthread_attr_getdetachstate (a, &ds);
    pthread_attr_getschedpolicy (a, &pol);
    pthread_attr_getschedparam (a, &sp);
    pthread_attr_getinheritsched (a, &inh);
    if (inh == PTHREAD_INHERIT_SCHED) { pol = cur->policy; sp.sched_priority = cur->prio; }
  }
  else { pol = cur->policy; sp.sched_priority = cur->prio; }
  if (sim_fault (FK_THREAD_EAGAIN)) return EAGAIN;
  if (a && pol != SCHED_OTHER && inh == PTHREAD_EXPLICIT_SCHED && (s_euid != 0 || sim_fault (FK_THREAD_EPERM))) return EPERM;
  char nm[32];
  snprintf (nm, sizeof (nm), "T%d", (int) sim_fibers ().size ());
  Fiber * f = sim_new_fiber (nm);
  f->lib = true;
  f->start = fn; f->arg = arg;
  hb_fork (f);
  f->detached = ds == PTHREAD_CREATE_DETACHED;
  f->policy = pol; f->prio = pol == SCHED_OTHER ? 0 : sp.sched_priority;
  cpu_set_t cs;
  f->cpus = cur->cpus;
  if (a && pthread_attr_getaffinity_np (a, sizeof (cs), &cs) == 0) { f->cpus = 0; for (int i = 0; i < 64; i++) if (CPU_ISSET (i, &cs)) f->cpus |= 1ull << i; }
  memcpy (f->tname, cur->tname, 16);
  sim_check_access (tid, sizeof (*tid), true, "pthread_create");
  *tid = (pthread_t) (0x7000000ull + (uint64_t) f->id * 0x100);
  sim_sync_point (21, nullptr);
  return 0;
}
int sim_pthread_join (pthread_t t, void ** ret)
{
  sim_sync_point (22, nullptr);
  Fiber * f = by_tid (t);
  if (!f || f->detached || f->joined) return EINVAL;
  while (f->st != Fiber::DONE) sim_block (f, "pthread_join");
  f->joined = true;
  hb_join (f);
  if (ret) *ret = f->ret;
  return 0;
}
int sim_pthread_detach (pthread_t t)
{
  sim_sync_point (23, nullptr);
  Fiber * f = by_tid (t);
  if (!f) return ESRCH;
  if (f->detached) return EINVAL;
  f->detached = true;
  return 0;
}
void sim_pthread_exit (void * r) { cur->ret = r; sim_thread_exit (); __builtin_unreachable (); }
int sim_pthread_getschedparam (pthread_t t, int * pol, struct sched_param * p)
{
  sim_step ();
  Fiber * f = by_tid (t);
  if (!f) return ESRCH;
  *pol = f->policy; p->sched_priority = f->prio;
  return 0;
}
int sim_pthread_setschedparam (pthread_t t, int pol, const struct sched_param * p)
{
  sim_sync_point (24, nullptr);
  Fiber * f = by_tid (t);
  if (!f) return ESRCH;
  if (s_euid != 0 || sim_fault (FK_SETPRIO_EPERM)) { f->prio_refused++; return EPERM; }
  if (pol == SCHED_FIFO && (p->sched_priority < 1 || p->sched_priority > 99)) return EINVAL;
  f->policy = pol; f->prio = p->sched_priority;
  return 0;
}
int sim_pthread_setschedprio (pthread_t t, int prio) { struct sched_param p; p.sched_priority = prio; return sim_pthread_setschedparam (t, SCHED_FIFO, &p); }
int sim_pthread_attr_setaffinity_np (pthread_attr_t * a, size_t n, const cpu_set_t * c) { return sim_fault (FK_AFFINITY_FAIL) ? EINVAL : pthread_attr_setaffinity_np (a, n, c); }
int sim_pthread_setaffinity_np (pthread_t t, size_t n, const cpu_set_t * c)
{
  sim_sync_point (24, nullptr);
  Fiber * f = by_tid (t);
  if (!f) return ESRCH;
  if (sim_fault (FK_AFFINITY_FAIL)) return EINVAL;
  f->cpus = 0;
  for (int i = 0; i < 64 && (size_t) i < n * 8; i++) if (CPU_ISSET (i, c)) f->cpus |= 1ull << i;
  return 0;
}
int sim_pthread_setname_np (pthread_t t, const char * n) { Fiber * f = by_tid (t); if (f) snprintf (f->tname, 16, "%s", n); return 0; }
int sim_pthread_getname_np (pthread_t t, char * b, size_t n) { Fiber * f = by_tid (t); if (f) snprintf (b, n, "%s", f->tname); return 0; }
int sim_sched_yield (void) { sim_sync_point (25, nullptr); return 0; }
long sim_sysconf (int n) { sim_step (); return n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF ? 4 : sysconf (n); }
uid_t sim_geteuid (void) { return (uid_t) s_euid; }
int sim_prctl (int op, ...)
{
  va_list ap; va_start (ap, op);
  char * p = va_arg (ap, char *);
  va_end (ap);
  sim_step ();
  if (op == PR_SET_NAME) { sim_check_access (p, 1, false, "prctl"); snprintf (cur->tname, 16, "%s", p); }
  else if (op == PR_GET_NAME) { sim_check_access (p, 16, true, "prctl"); memcpy (p, cur->tname, 16); }
  return 0;
}
// ---------------------------------------------------------------- time
int sim_clock_gettime (clockid_t k, struct timespec * t)
{
  sim_sync_point (30, nullptr);
  sim_check_access (t, sizeof (*t), true, "clock_gettime");
  bool real = k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE || k == CLOCK_TAI;
  ns_ts (real ? sim_realtime () : sim_now (), t);
  return 0;
}
int sim_clock_getres (clockid_t, struct timespec * t) { if (t) { t->tv_sec = 0; t->tv_nsec = 1; } return 0; }
time_t sim_time (time_t * t) { sim_step (); time_t r = (time_t) (sim_realtime () / 1000000000ull); if (t) *t = r; return r; }
int sim_gettimeofday (struct timeval * t, void *) { sim_step (); uint64_t n = sim_realtime (); t->tv_sec = (time_t) (n / 1000000000ull); t->tv_usec = (suseconds_t) (n % 1000000000ull / 1000); return 0; }
static int sleep_common (uint64_t ns, struct timespec * rem)
{
  sim_sync_point (31, nullptr);
  uint64_t start = sim_now ();
  uint64_t due = start + ns;
  if (due < start) due = UINT64_MAX / 2;
  if (ns > 0 && sim_fault (FK_EINTR_SLEEP))
  {
    uint64_t part = ns * sim_choose (31, 101, 0) / 100;
    if (part > ns - 1) part = ns - 1;
    sim_block (nullptr, "sleep", true, false, start + part);
    uint64_t now = sim_now ();
    if (now < due)
    {
      if (rem) { sim_check_access (rem, sizeof (*rem), true, "nanosleep"); ns_ts (due - now, rem); }
      errno = EINTR;
      return -1;
    }
    return 0;
  }
  sim_block (nullptr, "sleep", true, false, due);
  return 0;
}
int sim_nanosleep (const struct timespec * t, struct timespec * rem)
{
  sim_check_access (t, sizeof (*t), false, "nanosleep");
  if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000 || t->tv_sec < 0) { errno = EINVAL; return -1; }
  uint64_t s = (uint64_t) t->tv_sec;
  return sleep_common (s > 4000000000ull ? 4000000000ull * 1000000000ull : ts_ns (t), rem);
}
int sim_clock_nanosleep (clockid_t k, int flags, const struct timespec * t, struct timespec * rem)
{
  if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000 || t->tv_sec < 0) return EINVAL;
  if (flags & TIMER_ABSTIME)
  {
    sim_sync_point (31, nullptr);
    if (sim_fault (FK_EINTR_SLEEP)) return EINTR;
    sim_block (nullptr, "sleep", true, k == CLOCK_REALTIME, ts_ns (t));
    return 0;
  }
  return sleep_common (ts_ns (t), rem) ? EINTR : 0;
}
int sim_usleep (useconds_t u) { return sleep_common ((uint64_t) u * 1000, nullptr); }
unsigned sim_sleep_s (unsigned s) { struct timespec r; return sleep_common ((uint64_t) s * 1000000000ull, &r) ? (unsigned) r.tv_sec + 1 : 0; }
// ---------------------------------------------------------------- memory and strings
void * sim_memcpy (void * d, const void * s, size_t n)
{
  sim_step ();
  sim_check_access (s, n, false, "memcpy"); sim_check_access (d, n, true, "memcpy");
  // copying is not atomic: another thread may run in the middle of a long copy
  if (n > 16) { memcpy (d, s, n / 2); sim_step (); memcpy ((char *) d + n / 2, (const char *) s + n / 2, n - n / 2); }
  else memcpy (d, s, n);
  return d;
}
void * sim_memmove (void * d, const void * s, size_t n) { sim_step (); sim_check_access (s, n, false, "memmove"); sim_check_access (d, n, true, "memmove"); return memmove (d, s, n); }
void * sim_memset (void * d, int c, size_t n) { sim_step (); sim_check_access (d, n, true, "memset"); if (n > 16) { memset (d, c, n / 2); sim_step (); memset ((char *) d + n / 2, c, n - n / 2); } else memset (d, c, n); return d; }
int sim_memcmp (const void * a, const void * b, size_t n) { sim_step (); sim_check_access (a, n, false, "memcmp"); sim_check_access (b, n, false, "memcmp"); return memcmp (a, b, n); }
static size_t chk_str (const char * s, const char * what)
{
  if ((uintptr_t) s < 65536 && g_active) sim_fail ("null-dereference", "%s passed address %zu", what, (size_t) (uintptr_t) s);
  size_t n = strlen (s);
  sim_check_access (s, n + 1, false, what);
  return n;
}
size_t sim_strlen (const char * s) { sim_step (); return chk_str (s, "strlen"); }
size_t sim_strnlen (const char * s, size_t n) { sim_step (); size_t l = strnlen (s, n); sim_check_access (s, l, false, "strnlen"); return l; }
int sim_strcmp (const char * a, const char * b) { sim_step (); chk_str (a, "strcmp"); chk_str (b, "strcmp"); return strcmp (a, b); }
int sim_strncmp (const char * a, const char * b, size_t n) { sim_step (); return strncmp (a, b, n); }
int sim_strcasecmp (const char * a, const char * b) { sim_step (); chk_str (a, "strcasecmp"); chk_str (b, "strcasecmp"); return strcasecmp (a, b); }
int sim_strncasecmp (const char * a, const char * b, size_t n) { sim_step (); return strncasecmp (a, b, n); }
char * sim_strcpy (char * d, const char * s) { sim_step (); size_t n = chk_str (s, "strcpy"); sim_check_access (d, n + 1, true, "strcpy"); return strcpy (d, s); }
char * sim_stpcpy (char * d, const char * s) { sim_step (); size_t n = chk_str (s, "stpcpy"); sim_check_access (d, n + 1, true, "stpcpy"); return stpcpy (d, s); }
char * sim_strcat (char * d, const char * s) { sim_step (); size_t n = chk_str (s, "strcat"), l = chk_str (d, "strcat"); sim_check_access (d + l, n + 1, true, "strcat"); return strcat (d, s); }
char * sim_strncpy (char * d, const char * s, size_t n) { sim_step (); sim_check_access (s, strnlen (s, n), false, "strncpy"); sim_check_access (d, n, true, "strncpy"); return strncpy (d, s, n); }
char * sim_strncat (char * d, const char * s, size_t n) { sim_step (); size_t l = chk_str (d, "strncat"); sim_check_access (d + l, strnlen (s, n) + 1, true, "strncat"); return strncat (d, s, n); }
char * sim_strchr (const char * s, int c) { sim_step (); chk_str (s, "strchr"); return (char *) strchr (s, c); }
char * sim_strrchr (const char * s, int c) { sim_step (); chk_str (s, "strrchr"); return (char *) strrchr (s, c); }
// formatting into a buffer is not atomic either
int sim_vsnprintf (char * d, size_t n, const char * f, va_list ap)
{
  sim_step ();
  if (!n) return vsnprintf (d, 0, f, ap);
  va_list c; va_copy (c, ap);
  int len = vsnprintf (nullptr, 0, f, c);
  va_end (c);
  if (len < 0) return len;
  char * t = (char *) malloc ((size_t) len + 1);
  vsnprintf (t, (size_t) len + 1, f, ap);
  size_t k = (size_t) len < n ? (size_t) len : n - 1;
  sim_check_access (d, k + 1, true, "snprintf");
  memcpy (d, t, k / 2);
  sim_step ();
  memcpy (d + k / 2, t + k / 2, k - k / 2);
  d[k] = 0;
  free (t);
  return len;
}
int sim_snprintf (char * d, size_t n, const char * f, ...) { va_list ap; va_start (ap, f); int r = sim_vsnprintf (d, n, f, ap); va_end (ap); return r; }
int sim_vsprintf (char * d, const char * f, va_list ap) { return sim_vsnprintf (d, 1u << 30, f, ap); }
int sim_sprintf (char * d, const char * f, ...) { va_list ap; va_start (ap, f); int r = sim_vsnprintf (d, 1u << 30, f, ap); va_end (ap); return r; }
char * sim_strstr (const char * s, const char * t) { sim_step (); chk_str (s, "strstr"); chk_str (t, "strstr"); return (char *) strstr (s, t); }
}
// ---------------------------------------------------------------- random source
static RandomFn s_random;
static uint64_t s_rand_state = 0x1234567;
void sim_set_random (RandomFn f) { s_random = f; }
static void rand_fill (void * b, size_t n)
{
  if (s_random) { s_random (b, n); return; }
  Rng r (s_rand_state++);
  uint8_t * p = (uint8_t *) b;
  for (size_t i = 0; i < n; i++) p[i] = (uint8_t) r.next ();
}
extern "C" {
ssize_t sim_getrandom (void * b, size_t n, unsigned)
{
  sim_sync_point (40, nullptr);
  sim_check_access (b, n, true, "getrandom");
  if (sim_fault (FK_RANDOM_FAIL)) { errno = sim_choose (41, 2, 0) ? EAGAIN : EINTR; return -1; }
  if (n > 1 && sim_fault (FK_RANDOM_SHORT))
  {
    size_t k = (size_t) sim_choose (42, n, 0); // 0 .. n-1 bytes
    uint8_t t[512];
    if (k > sizeof (t)) k = sizeof (t);
    rand_fill (t, k);
    memcpy (b, t, k);
    return (ssize_t) k;
  }
  rand_fill (b, n);
  return (ssize_t) n;
}
int sim_getentropy (void * b, size_t n)
{
  sim_sync_point (40, nullptr);
  if (sim_fault (FK_RANDOM_FAIL)) { errno = EIO; return -1; }
  rand_fill (b, n);
  return 0;
}
static unsigned s_rand = 1;
int sim_rand (void) { s_rand = s_rand * 1103515245u + 12345u; return (int) (s_rand >> 1); }
void sim_srand (unsigned s) { s_rand = s; }
}
// ---------------------------------------------------------------- environment, libraries
static std::map<std::string, char *> s_env;
struct Lib { std::map<std::string, void *> sym; int opens = 0; };
static std::map<std::string, Lib> s_libs;
static std::string s_dlerr;
void sim_setenv (const char * k, const char * v)
{
  auto it = s_env.find (k);
  if (v) s_env[k] = strdup (v);
  else if (it != s_env.end ()) s_env.erase (it);
}
void sim_add_library (const char * lib, const char * sym, void * fn) { s_libs[lib].sym[sym] = fn; }
int sim_lib_opens (const char * lib) { auto it = s_libs.find (lib); return it == s_libs.end () ? 0 : it->second.opens; }
int sim_open_libs () { int n = 0; for (auto & l : s_libs) n += l.second.opens; return n; }
extern "C" {
char * sim_getenv (const char * k)
{
  sim_sync_point (46, nullptr);
  if (sim_fault (FK_ENV_UNSET)) return nullptr;
  auto it = s_env.find (k);
  return it == s_env.end () ? nullptr : it->second;
}
char * sim_secure_getenv (const char * k) { return sim_getenv (k); }
void * sim_dlopen (const char * n, int)
{
  sim_sync_point (45, nullptr);
  if (!n) s_libs[""]; // the program itself
  auto it = s_libs.find (n ? n : "");
  if (it == s_libs.end () || sim_fault (FK_DLOPEN_FAIL)) { s_dlerr = "cannot open shared object file"; return nullptr; }
  it->second.opens++;
  return &it->second;
}
void * sim_dlsym (void * h, const char * s)
{
  sim_step ();
  Lib * l = (Lib *) h;
  if (!s) sim_fail ("null-symbol", "a library was asked for a symbol without a name");
  auto it = l->sym.find (s);
  if (it == l->sym.end ()) { s_dlerr = "undefined symbol"; return nullptr; }
  return it->second;
}
int sim_dlclose (void * h) { sim_step (); ((Lib *) h)->opens--; return 0; }
char * sim_dlerror (void) { return (char *) s_dlerr.c_str (); }
static void (*s_atexit[16]) (void); static int s_natexit;
int sim_atexit (void (*f) (void)) { if (s_natexit < 16) s_atexit[s_natexit++] = f; return 0; }
}
void sim_run_atexit () { while (s_natexit) s_atexit[--s_natexit] (); }
