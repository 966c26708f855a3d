// Deterministic simulator: public interface used by the scenarios.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <time.h>
#include <string>
#include <vector>
#include <functional>

// ------------------------------------------------------------------ random numbers
struct Rng
{
  uint64_t s;
  explicit Rng (uint64_t seed = 1) : s (seed) {}
  uint64_t next ()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below (uint64_t n) { return n ? next () % n : 0; }
  int64_t range (int64_t lo, int64_t hi) { return lo + (int64_t) below ((uint64_t) (hi - lo + 1)); }
  bool chance (double p) { return (double) (next () >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit () { return (double) (next () >> 11) * (1.0 / 9007199254740992.0); }
  uint64_t logrange (uint64_t lo, uint64_t hi); // log-uniform
  template <class T> T pick (std::initializer_list<T> l) { return *(l.begin () + below (l.size ())); }
};

// ------------------------------------------------------------------ plans
struct Op { int actor; int code; int64_t a, b, c; };
struct Plan
{
  std::vector<Op> ops;
  std::vector<int64_t> knobs;    // scenario configuration
  int64_t k (size_t i) const { return i < knobs.size () ? knobs[i] : 0; }
};

// ------------------------------------------------------------------ fault kinds
enum FaultKind
{
  FK_PREEMPT, FK_STALL, FK_TIMEJUMP, FK_SPURIOUS, FK_CAS_FAIL, FK_CLOCK_STEP_FWD, FK_CLOCK_STEP_BACK,
  FK_EINTR_SLEEP, FK_THREAD_EPERM, FK_THREAD_EAGAIN, FK_SETPRIO_EPERM, FK_AFFINITY_FAIL,
  FK_RANDOM_SHORT, FK_RANDOM_FAIL,
  FK_OPEN_FAIL, FK_WRITE_ENOSPC, FK_WRITE_EIO, FK_WRITE_SHORT, FK_READ_EIO, FK_READ_SHORT, FK_SEEK_FAIL, FK_CLOSE_FAIL,
  FK_RENAME_FAIL, FK_REMOVE_FAIL, FK_FSYNC_FAIL, FK_OPENDIR_FAIL, FK_READDIR_FAIL, FK_CRASH, FK_POWERLOSS, FK_TORN,
  FK_SOCKET_FAIL, FK_SEND_FAIL, FK_SEND_SHORT, FK_STORE_DAMAGE, FK_STORE_LOST, FK_DLOPEN_FAIL, FK_ENV_UNSET, FK_SLOW_JOB, FK_IO_DELAY,
  FK_EXTERNAL_FS, FK_CALLBACK_FAIL, FK_CREATE_FAIL, FK_DATALOSS,
  FK_COUNT
};
extern const char * const fault_names[FK_COUNT];

// per-run fault probabilities (0 disables): a scenario sets the ones that are legal for it
struct SimConf
{
  double fault_p[FK_COUNT];
  uint64_t step_cost;           // virtual ns per instrumented step
  uint64_t max_stall_ns;        // longest single stall or time jump
  uint64_t max_total_stall_ns;  // stall budget of a run
  uint64_t max_steps;           // livelock bound
  uint64_t max_time_ns;         // virtual time bound
  SimConf ();
};
extern SimConf sim_conf;        // scenario may alter before/while running (must be a function of the plan)

// ------------------------------------------------------------------ simulation API
int sim_spawn (const char * name, std::function<void ()> fn); // new simulated thread; returns its id
void sim_join (int id);
void sim_join_all (const std::vector<int> & ids);
bool sim_done (int id);
int sim_self ();
void sim_yield ();                            // scheduling point
void sim_sleep (uint64_t ns);                 // sleeps on the virtual clock
uint64_t sim_now ();                          // monotonic virtual ns
uint64_t sim_realtime ();                     // virtual wall clock ns
void sim_clock_step (int64_t ns);             // step the wall clock
uint64_t sim_event ();                        // next history sequence number
uint64_t sim_event_peek ();
uint64_t sim_idle_between (uint64_t a, uint64_t b); // time in [a,b] during which every thread was blocked and none was stalled
uint64_t sim_stall_total ();                  // stall and jump time injected so far
bool sim_wait_until (const std::function<bool ()> & cond, uint64_t timeout_ns); // block until cond (harness state), false on timeout
bool sim_fault (FaultKind k);                 // decide whether a fault happens here
uint64_t sim_choose (int site, uint64_t n, uint64_t dflt); // decision 0..n-1 recorded in the trace
void sim_fault_count (FaultKind k);           // count a fault injected by the scenario itself
void sim_probe (const char * name);           // coverage probe: counted over all runs
void sim_state (uint64_t h);                  // abstract state reached (hash)
[[noreturn]] void sim_fail (const char * cls, const char * fmt, ...) __attribute__ ((format (printf, 2, 3)));
#define SIM_CHECK(c, cls, ...) do { if (!(c)) sim_fail (cls, __VA_ARGS__); } while (0)
void sim_quiesce_faults ();                   // no more faults, stalls or preemption bias from here on
int sim_thread_count ();                       // threads created so far in this run; ids are below it
bool sim_thread_alive (int id);
int sim_live_threads ();                      // threads of the library (not spawned by the scenario) still alive
int sim_unjoined ();                          // library threads that finished joinable and were never joined
std::string sim_describe ();                  // what every thread is doing
bool sim_is_lib_thread (int id);
int sim_thread_prio (int id);
int sim_thread_prio_refused (int id);          // how often a change of its priority was refused
int sim_thread_policy (int id);
uint64_t sim_thread_cpus ();                     // processors the calling thread may run on
void sim_sync_point (int kind, const void * obj); // used by stand-ins that should count as synchronisation

// heap
extern "C" {
void * sim_malloc (size_t n);
void * sim_calloc (size_t a, size_t b);
void * sim_realloc (void * p, size_t n);
void sim_free (void * p);
char * sim_strdup (const char * s);
char * sim_strndup (const char * s, size_t n);
}
uint64_t sim_live_blocks ();                  // live heap blocks
void sim_heap_mark ();                        // leak baseline
std::string sim_leaks (size_t max = 4, size_t ignore = 0); // ignore: block size not reported (memory pools); description of blocks allocated since mark and still live ("" when none)
size_t sim_block_size (const void * p);        // size of the live heap block starting at p, else 0
bool sim_addr_live (const void * p);          // is p inside a live heap block

// file system (in memory, survives a simulated crash)
void fs_reset ();
void fs_put (const char * path, const std::string & data);     // durable
bool fs_get (const char * path, std::string & out);            // current (page cache) contents
bool fs_truncate (const char * path, uint32_t size);           // in place, as another process would
bool fs_append (const char * path, const std::string & data);
bool fs_exists (const char * path);
void fs_mkdir (const char * path);
void fs_mkspecial (const char * path, int dtype);
void fs_remove (const char * path);
std::vector<std::string> fs_list (const char * dir);
void fs_setcap (uint64_t bytes);                               // disk capacity (0 = unlimited)
uint64_t fs_used ();
int fs_open_handles ();                                        // open FILEs, directories and descriptors
std::string sim_stdout ();                                     // captured console text
std::string sim_stderr ();
struct Datagram { int sock; std::string data; uint32_t addr; uint16_t port; };
std::vector<Datagram> & sim_datagrams ();
int sim_open_sockets ();
uint64_t sim_bad_closes ();
void sim_console_slow (bool on);

// environment and dynamic libraries
void sim_setenv (const char * k, const char * v); // v NULL: unset
void sim_add_library (const char * lib, const char * sym, void * fn);
int sim_open_libs ();
int sim_lib_opens (const char * lib);
void sim_set_euid (int uid);

// phases: 0 = first process, 1 = process restarted after a crash
int sim_phase ();
void * sim_shared_area (size_t n);            // scenario memory that survives a crash (max 1 MB)
void sim_crash (bool power);                  // crash now
void sim_enable_crash (bool on);

// random source
typedef void (*RandomFn) (void * buf, size_t n);
void sim_set_random (RandomFn fn);

// ------------------------------------------------------------------ scenarios
struct Scenario
{
  const char * name;
  const char * property;
  void (*gen) (Rng & r, Plan & p);
  void (*run) (const Plan & p);
  void (*recover) (const Plan & p);            // run in a fresh process after a crash; may be null
  int weight;                                  // share of the runs
  const char * variants;                       // "d", "r" or "dr"
};
void sim_register (const Scenario & s);
struct ScenReg { ScenReg (const Scenario & s) { sim_register (s); } };
#define SCENARIO(name, prop, gen, run, recover, weight, variants) \
  static ScenReg reg_##name (Scenario { #name, prop, gen, run, recover, weight, variants })
