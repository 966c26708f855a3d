// Simulator internals shared between its own translation units.
#pragma once
#include "sim.h"
#include <pthread.h>
#include <string.h>
#include <unordered_map>

enum { CK_STEP = 1, CK_SYNC, CK_NEXT, CK_WAKE, CK_SPUR, CK_SITE, CK_FAULT = 16 };

struct ChoiceRec { uint32_t step; uint16_t fiber; uint8_t kind; uint8_t phase; uint64_t value; };

enum RunStatus { RS_NONE = 0, RS_OK = 1, RS_FAIL = 2, RS_CRASHED = 3 };
#define MAX_CHOICES 400000
#define MAX_PROBES 160
struct RunResult
{
  int status;
  char cls[112];
  char msg[3000];
  uint64_t pcs[8];
  uint64_t hash;         // full trace hash
  uint64_t ihash;        // interleaving hash (order of synchronisation events and switches)
  uint64_t steps;
  uint64_t simtime;
  uint64_t stall_total;
  uint64_t switches, syncs;
  uint64_t faults[FK_COUNT];
  uint32_t nprobes;
  char probes[MAX_PROBES][40];
  uint64_t probe_n[MAX_PROBES];
  uint64_t state_bits[4096];     // 256k-bit filter of abstract states
  uint32_t nchoices;
  uint32_t overflow;
  ChoiceRec choices[MAX_CHOICES];
};

struct RunParams
{
  uint64_t seed;
  bool replay;                          // use the given choices, defaults elsewhere
  const std::vector<ChoiceRec> * choices;
  int phase;
  bool verbose;
  bool race = false;                    // judge only data races
};

struct Fiber
{
  int id = 0;
  void * sp = nullptr;
  char * stack = nullptr;
  enum St { RUN, BLOCK, DONE } st = RUN;
  uint64_t steps = 0, stop = UINT64_MAX;
  const void * wait_obj = nullptr;
  const char * wait_what = "";
  bool has_dl = false, dl_real = false, timed_out = false, signaled = false;
  uint64_t deadline = 0;
  uint64_t stall_until = 0, spur_at = 0;
  bool lib = false;
  std::string name;
  char tname[16];
  int prio_refused = 0; int prio = 0, policy = 0; uint64_t cpus = ~0ull;
  bool detached = false, joined = false;
  void * ret = nullptr;
  std::function<void ()> fn;
  void * (*start) (void *) = nullptr;
  void * arg = nullptr;
  const std::function<bool ()> * cond = nullptr;
  int64_t pct = 0;
  int err = 0;
  std::vector<char> tls;
  // replay
  const ChoiceRec * rb = nullptr, * re = nullptr;
  uintptr_t callstk[64];
  int depth = 0;
  std::vector<uint32_t> vc;             // happens-before clock (race mode)
};

// happens-before tracking of the library's synchronisation, active in race mode only
extern bool g_race;
void hb_acquire (const void * obj);
void hb_release (const void * obj);
void hb_fork (Fiber * child);
void hb_join (Fiber * child);

extern Fiber * cur;
extern RunResult * g_res;
extern bool g_active;           // a simulated run is in progress

void sim_slow_step ();
static inline void sim_step () { if (__builtin_expect (++cur->steps >= cur->stop, 0)) sim_slow_step (); }
void sim_block (const void * obj, const char * what, bool has_dl = false, bool dl_real = false, uint64_t deadline = 0, uint64_t spur_at = 0);
void sim_wake_all (const void * obj);
Fiber * sim_pick_waiter (const void * obj);
Fiber * sim_fiber (int id);
Fiber * sim_new_fiber (const char * name);
void sim_make_ready (Fiber * f);
uint64_t sim_choose_raw (int kind, uint64_t dflt, uint64_t (*gen) (void *), void * arg);
void sim_trace (int kind, uint64_t obj);
void sim_check_range (const void * p, size_t n, bool write, const char * what);
void sim_check_access (const void * p, size_t n, bool write, const char * what);
bool sim_is_arena (const void * p);
int64_t sim_clock_offset ();
void sim_finish_ok ();
[[noreturn]] void sim_exit_crash (bool power);
void fs_apply_power_loss ();
bool sim_in_record ();
Rng & sim_sched_rng ();
int sim_unjoined_count ();
extern bool g_faults_off;
std::vector<Fiber *> & sim_fibers ();
void sim_thread_exit ();
