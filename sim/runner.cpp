// Runs many seeds, minimises failures, replays.
#include "sim_int.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <signal.h>
#include <algorithm>
#include <chrono>
#include <map>
#include <set>
#include <unordered_set>
#include <fstream>
#include <sstream>

void sim_run_scenario (const Scenario & sc, const Plan & plan, const RunParams & rp, RunResult * res);
void fs_init_region ();
void fs_restart ();
void sim_io_setup ();

static std::vector<Scenario> & reg () { static std::vector<Scenario> r; return r; }
void sim_register (const Scenario & s) { reg ().push_back (s); }

static double wall () { return std::chrono::duration<double> (std::chrono::steady_clock::now ().time_since_epoch ()).count (); }
static uint64_t mixs (uint64_t a, uint64_t b) { Rng r (a * 0x9E3779B97F4A7C15ull ^ b * 0xC2B2AE3D27D4EB4Full); r.next (); return r.next () >> 1; }

static char VARIANT = 'd';
static std::string RACE; // property that judges only data races, over the scenarios of the properties it names
static const struct { const char * prop, * families; } race_props[] = { { "R01", "PSQC" }, { "R02", "LKMUHF" }, { "R03", "D" } };
static const char * race_families (const std::string & p) { for (auto & r : race_props) if (p == r.prop) return r.families; return nullptr; }

static void make_plan (const Scenario & sc, uint64_t seed, Plan & p)
{
  Rng r (seed ^ 0xA5A5A5A5ull);
  for (int i = 0; i < 3; i++) r.next ();
  p.ops.clear (); p.knobs.clear ();
  p.knobs.push_back ((int64_t) r.logrange (5, 1500));
  sc.gen (r, p);
}

static void clear_result (RunResult * r)
{
  memset (r, 0, offsetof (RunResult, choices));
}

static void child_exec (const Scenario & sc, const Plan & p, const RunParams & rp, RunResult * res)
{
  pid_t pid = fork ();
  if (pid < 0) { perror ("fork"); exit (2); }
  if (pid == 0)
  {
    sim_run_scenario (sc, p, rp, res);
    _exit (0);
  }
  int st;
  while (waitpid (pid, &st, 0) < 0 && errno == EINTR) {}
  if (res->status == RS_NONE)
  {
    res->status = RS_FAIL;
    if (WIFSIGNALED (st)) snprintf (res->cls, sizeof (res->cls), "harness"), snprintf (res->msg, sizeof (res->msg), "run ended by signal %d", WTERMSIG (st));
    else snprintf (res->cls, sizeof (res->cls), "harness"), snprintf (res->msg, sizeof (res->msg), "run ended with exit code %d", WEXITSTATUS (st));
  }
}

// One complete run (both phases when the scenario crashes)
static void execute (const Scenario & sc, const Plan & p, uint64_t seed, const std::vector<ChoiceRec> * replay, RunResult * res, bool verbose = false)
{
  clear_result (res);
  fs_reset ();
  RunParams rp { seed, replay != nullptr, replay, 0, verbose, !RACE.empty () };
  child_exec (sc, p, rp, res);
  if (res->status == RS_CRASHED)
  {
    if (!sc.recover) { res->status = RS_OK; return; }
    res->status = RS_NONE;
    fs_restart ();
    rp.phase = 1;
    uint64_t s = res->steps, st = res->stall_total;
    child_exec (sc, p, rp, res);
    res->steps += s; res->stall_total += st;
    if (res->status == RS_CRASHED) res->status = RS_OK;
  }
}

// ---------------------------------------------------------------- replay files
static const char * kind_name (int k)
{
  switch (k) { case CK_STEP: return "preempt"; case CK_SYNC: return "sync"; case CK_NEXT: return "next"; case CK_WAKE: return "wake"; case CK_SPUR: return "spurious"; case CK_SITE: return "value"; }
  return k >= CK_FAULT && k < CK_FAULT + FK_COUNT ? fault_names[k - CK_FAULT] : "?";
}
static bool write_replay (const char * path, const Scenario & sc, const Plan & p, uint64_t seed, const std::vector<ChoiceRec> * ch, const RunResult * r)
{
  FILE * f = fopen (path, "w");
  if (!f) return false;
  fprintf (f, "simreplay 1\nscenario %s\nproperty %s\nvariant %c\nseed %llu\nclass %s\nhash %llu\n", sc.name, RACE.empty () ? sc.property : RACE.c_str (), VARIANT, (unsigned long long) seed, r->cls, (unsigned long long) r->hash);
  std::string m = r->msg;
  for (char & c : m) if (c == '\n') c = ' ';
  fprintf (f, "message %s\n", m.c_str ());
  fprintf (f, "pcs"); for (int i = 0; i < 8; i++) fprintf (f, " 0x%llx", (unsigned long long) r->pcs[i]); fprintf (f, "\n");
  for (size_t i = 0; i < p.knobs.size (); i++) fprintf (f, "knob %zu %lld\n", i, (long long) p.knobs[i]);
  for (auto & o : p.ops) fprintf (f, "op %d %d %lld %lld %lld\n", o.actor, o.code, (long long) o.a, (long long) o.b, (long long) o.c);
  if (!ch) fprintf (f, "drawn 1\n");   // more choices than a trace holds: they are drawn from the seed again
  else for (auto & c : *ch) fprintf (f, "choice %d %d %u %d %llu %s\n", c.phase, c.fiber, c.step, c.kind, (unsigned long long) c.value, kind_name (c.kind));
  fclose (f);
  return true;
}

static RunResult * new_result ()
{
  void * m = mmap (nullptr, sizeof (RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { perror ("mmap"); exit (2); }
  return (RunResult *) m;
}

// ---------------------------------------------------------------- minimisation
struct Minimiser
{
  const Scenario & sc; uint64_t seed; std::string cls; RunResult * res; double deadline; int runs = 0; bool drawn = false;
  bool fails (const Plan & p, const std::vector<ChoiceRec> & c)
  {
    runs++;
    execute (sc, p, seed, drawn ? nullptr : &c, res);
    return res->status == RS_FAIL && cls == res->cls;
  }
  bool time_up () const { return wall () > deadline; }
  template <class T, class F> void ddmin (std::vector<T> & v, F test)
  {
    if (v.empty ()) return;
    { std::vector<T> e; if (test (e)) { v.clear (); return; } }
    size_t n = 2;
    while (v.size () >= 1 && !time_up ())
    {
      size_t chunk = std::max<size_t> (1, (v.size () + n - 1) / n);
      bool reduced = false;
      for (size_t i = 0; i < v.size () && !time_up (); i += chunk)
      {
        std::vector<T> w (v.begin (), v.begin () + (long) i);
        w.insert (w.end (), v.begin () + (long) std::min (v.size (), i + chunk), v.end ());
        if (w.size () != v.size () && test (w)) { v = w; n = std::max<size_t> (2, n - 1); reduced = true; break; }
      }
      if (!reduced)
      {
        if (chunk == 1) break;
        n = std::min (v.size (), n * 2);
      }
    }
  }
  void run (Plan & p, std::vector<ChoiceRec> & c)
  {
    if (!drawn) ddmin (c, [&] (const std::vector<ChoiceRec> & w) { return fails (p, w); });
    ddmin (p.ops, [&] (const std::vector<Op> & w) { Plan q = p; q.ops = w; return fails (q, c); });
    if (!drawn) ddmin (c, [&] (const std::vector<ChoiceRec> & w) { return fails (p, w); });
  }
};

// ---------------------------------------------------------------- workers
struct Known { std::string scenario, cls, sub; };
static std::vector<Known> known;
static bool is_known (const Scenario & sc, const RunResult * r)
{
  for (auto & k : known) if ((k.scenario == "*" || k.scenario == sc.name) && k.cls == r->cls && strstr (r->msg, k.sub.c_str ())) return true;
  return false;
}

#define MAX_HASHES (1u << 20)
struct WorkerOut
{
  uint64_t runs, steps, simtime, stall, switches, syncs, det_checks, replay_checks, crashes, overflow, known_hits;
  uint64_t faults[FK_COUNT];
  uint64_t faulty_runs;
  uint64_t sc_runs[256];
  uint32_t nprobes; char probes[MAX_PROBES * 2][40]; uint64_t probe_n[MAX_PROBES * 2]; uint64_t probe_runs[MAX_PROBES * 2];
  uint64_t state_bits[4096];
  uint32_t nh; uint64_t hashes[MAX_HASHES];
  int failed; char fail_file[600]; char fail_cls[112]; char fail_msg[1000]; char fail_prop[16];
  int error; char error_msg[600];
};
struct Shared { volatile int stop; volatile uint64_t next; };

struct Opts { std::string prop; std::vector<std::string> scenarios; uint64_t runs = 1000; double secs = 60; uint64_t seed = 1; int workers = 8; std::string out, rdir = "/tmp"; bool keep = false; double min_secs = 15; int samples = 0; };

static std::vector<const Scenario *> select (const Opts & o)
{
  std::vector<const Scenario *> v;
  for (auto & s : reg ())
  {
    if (!RACE.empty () && o.prop == RACE ? !strchr (race_families (RACE), s.property[0]) : !o.prop.empty () && o.prop != s.property) continue;
    if (!o.scenarios.empty () && std::find (o.scenarios.begin (), o.scenarios.end (), s.name) == o.scenarios.end ()) continue;
    if (!strchr (s.variants, VARIANT)) continue;
    v.push_back (&s);
  }
  return v;
}

static void add_probe (WorkerOut * w, const char * n, uint64_t c)
{
  for (uint32_t i = 0; i < w->nprobes; i++) if (strcmp (w->probes[i], n) == 0) { w->probe_n[i] += c; w->probe_runs[i]++; return; }
  if (w->nprobes == MAX_PROBES * 2) return;
  snprintf (w->probes[w->nprobes], 40, "%s", n); w->probe_n[w->nprobes] = c; w->probe_runs[w->nprobes++] = 1;
}

static void worker (const Opts & o, int id, Shared * sh, WorkerOut * w, double t_end)
{
  fs_init_region ();
  sim_io_setup ();
  RunResult * res = new_result ();
  auto scs = select (o);
  std::vector<int> order;
  for (size_t i = 0; i < scs.size (); i++) for (int k = 0; k < scs[i]->weight; k++) order.push_back ((int) i);
  while (!sh->stop)
  {
    uint64_t i = __atomic_fetch_add (&sh->next, 1, __ATOMIC_RELAXED);
    if (i >= o.runs || wall () > t_end) break;
    uint64_t seed = mixs (o.seed, i);
    int si = order[i % order.size ()];
    const Scenario & sc = *scs[si];
    Plan p;
    make_plan (sc, seed, p);
    execute (sc, p, seed, nullptr, res);
    w->runs++;
    w->sc_runs[si]++;
    w->steps += res->steps; w->simtime += res->simtime; w->stall += res->stall_total; w->switches += res->switches; w->syncs += res->syncs;
    bool f = false;
    for (int k = 0; k < FK_COUNT; k++) { w->faults[k] += res->faults[k]; if (k != FK_PREEMPT && res->faults[k]) f = true; }
    if (f) w->faulty_runs++;
    if (res->overflow) w->overflow++;
    for (uint32_t k = 0; k < res->nprobes; k++) add_probe (w, res->probes[k], res->probe_n[k]);
    for (int k = 0; k < 4096; k++) w->state_bits[k] |= res->state_bits[k];
    if (w->nh < MAX_HASHES && (f || res->switches >= 4)) w->hashes[w->nh++] = res->ihash ^ ((uint64_t) si << 50);
    if (res->status == RS_FAIL)
    {
      if (is_known (sc, res)) { w->known_hits++; continue; }
      std::vector<ChoiceRec> ch (res->choices, res->choices + res->nchoices);
      std::string cls = res->cls, msg = res->msg;
      uint64_t h = res->hash;
      if (cls == "harness" || cls == "sim-limit")
      {
        w->error = 1; snprintf (w->error_msg, sizeof (w->error_msg), "%s: %s (scenario %s seed %llu)", cls.c_str (), msg.c_str (), sc.name, (unsigned long long) seed);
        sh->stop = 1; break;
      }
      // must repeat exactly, both from the seed and from the recorded trace
      execute (sc, p, seed, nullptr, res);
      if (res->status != RS_FAIL || cls != res->cls || h != res->hash)
      {
        w->error = 1; snprintf (w->error_msg, sizeof (w->error_msg), "not deterministic: scenario %s seed %llu: first %s, then %s", sc.name, (unsigned long long) seed, cls.c_str (), res->status == RS_FAIL ? res->cls : "ok");
        sh->stop = 1; break;
      }
      Plan full = p; std::vector<ChoiceRec> fch = ch;
      Minimiser m { sc, seed, cls, res, wall () + o.min_secs };
      m.drawn = res->overflow;
      if (!m.drawn) execute (sc, p, seed, &ch, res);
      if (res->status != RS_FAIL || cls != res->cls)
      {
        w->error = 1; snprintf (w->error_msg, sizeof (w->error_msg), "trace does not replay: scenario %s seed %llu: %s, then %s", sc.name, (unsigned long long) seed, cls.c_str (), res->status == RS_FAIL ? res->cls : "ok");
        sh->stop = 1; break;
      }
      m.run (p, ch);
      const std::vector<ChoiceRec> * tr = m.drawn ? nullptr : &ch;
      execute (sc, p, seed, tr, res);
      if (res->status != RS_FAIL || cls != res->cls) { p = full; ch = fch; execute (sc, p, seed, tr, res); }
      snprintf (w->fail_file, sizeof (w->fail_file), "%s/%s-%s-%c-%llu.replay", o.rdir.c_str (), RACE.empty () ? sc.property : RACE.c_str (), sc.name, VARIANT, (unsigned long long) seed);
      write_replay (w->fail_file, sc, p, seed, tr, res);
      snprintf (w->fail_cls, sizeof (w->fail_cls), "%s", res->cls);
      snprintf (w->fail_msg, sizeof (w->fail_msg), "%.990s", res->msg);
      snprintf (w->fail_prop, sizeof (w->fail_prop), "%s", RACE.empty () ? sc.property : RACE.c_str ());
      w->failed = 1;
      if (!o.keep) { sh->stop = 1; break; }
    }
    else if (w->runs % 97 == 5)
    {
      // determinism self-test: same seed, and same recorded trace, must give the same event trace
      uint64_t h = res->hash;
      std::vector<ChoiceRec> ch (res->choices, res->choices + res->nchoices);
      bool ovf = res->overflow;
      execute (sc, p, seed, nullptr, res);
      w->det_checks++;
      bool bad = res->hash != h;
      if (!bad && !ovf) { execute (sc, p, seed, &ch, res); w->replay_checks++; bad = res->hash != h; }
      if (bad)
      {
        w->error = 1; snprintf (w->error_msg, sizeof (w->error_msg), "not deterministic: scenario %s seed %llu (%s)", sc.name, (unsigned long long) seed, w->det_checks == w->replay_checks ? "replay" : "rerun");
        sh->stop = 1; break;
      }
    }
  }
}

static std::string jesc (const std::string & s)
{
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char) c < 32) { char b[8]; snprintf (b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r;
}

static int cmd_run (const Opts & o)
{
  auto scs = select (o);
  if (scs.empty ()) { printf ("{\"runs\":0,\"none\":true}\n"); return 0; }
  Shared * sh = (Shared *) mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<WorkerOut *> out;
  double t0 = wall ();
  std::vector<pid_t> pids;
  for (int i = 0; i < o.workers; i++)
  {
    WorkerOut * w = (WorkerOut *) mmap (nullptr, sizeof (WorkerOut), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    out.push_back (w);
    pid_t p = fork ();
    if (p == 0) { worker (o, i, sh, w, t0 + o.secs); _exit (0); }
    pids.push_back (p);
  }
  int bad = 0;
  for (pid_t p : pids) { int st; waitpid (p, &st, 0); if (!WIFEXITED (st) || WEXITSTATUS (st)) bad++; }
  double dt = wall () - t0;
  WorkerOut * T = (WorkerOut *) calloc (1, sizeof (WorkerOut));
  std::unordered_set<uint64_t> hs;
  std::map<std::string, std::pair<uint64_t, uint64_t>> probes;
  const WorkerOut * fail = nullptr, * err = nullptr;
  for (auto w : out)
  {
    T->runs += w->runs; T->steps += w->steps; T->simtime += w->simtime; T->stall += w->stall; T->switches += w->switches; T->syncs += w->syncs;
    T->det_checks += w->det_checks; T->replay_checks += w->replay_checks; T->faulty_runs += w->faulty_runs; T->overflow += w->overflow; T->known_hits += w->known_hits;
    for (int k = 0; k < FK_COUNT; k++) T->faults[k] += w->faults[k];
    for (int k = 0; k < 256; k++) T->sc_runs[k] += w->sc_runs[k];
    for (int k = 0; k < 4096; k++) T->state_bits[k] |= w->state_bits[k];
    for (uint32_t k = 0; k < w->nprobes; k++) { auto & q = probes[w->probes[k]]; q.first += w->probe_n[k]; q.second += w->probe_runs[k]; }
    for (uint32_t k = 0; k < w->nh; k++) hs.insert (w->hashes[k]);
    if (w->failed && !fail) fail = w;
    if (w->error && !err) err = w;
  }
  uint64_t states = 0;
  for (int k = 0; k < 4096; k++) states += (uint64_t) __builtin_popcountll (T->state_bits[k]);
  std::ostringstream j;
  j << "{\"runs\":" << T->runs << ",\"wall\":" << dt << ",\"steps\":" << T->steps << ",\"simtime_s\":" << (double) T->simtime / 1e9 << ",\"stall_s\":" << (double) T->stall / 1e9
    << ",\"switches\":" << T->switches << ",\"sync_points\":" << T->syncs << ",\"distinct_interleavings\":" << hs.size () << ",\"distinct_states\":" << states
    << ",\"determinism_checks\":" << T->det_checks << ",\"replay_checks\":" << T->replay_checks << ",\"faulty_runs\":" << T->faulty_runs << ",\"trace_overflow\":" << T->overflow << ",\"known_hits\":" << T->known_hits
    << ",\"worker_failures\":" << bad << ",\"faults\":{";
  bool first = true;
  for (int k = 0; k < FK_COUNT; k++) if (T->faults[k]) { j << (first ? "" : ",") << "\"" << fault_names[k] << "\":" << T->faults[k]; first = false; }
  j << "},\"scenarios\":{"; first = true;
  for (size_t k = 0; k < scs.size (); k++) { j << (first ? "" : ",") << "\"" << scs[k]->name << "\":" << T->sc_runs[k]; first = false; }
  j << "},\"probes\":{"; first = true;
  for (auto & p : probes) { j << (first ? "" : ",") << "\"" << jesc (p.first) << "\":[" << p.second.first << "," << p.second.second << "]"; first = false; }
  j << "}";
  if (!fail && !err && o.samples)
  {
    // a few of the runs just made, written out
    fs_init_region (); sim_io_setup ();
    RunResult * r = new_result ();
    std::vector<int> worder;
    for (size_t i = 0; i < scs.size (); i++) for (int k = 0; k < scs[i]->weight; k++) worder.push_back ((int) i);
    j << ",\"samples\":[";
    for (uint64_t i = 0; i < std::min<uint64_t> ((uint64_t) o.samples, T->runs); i++)
    {
      const Scenario & sc = *scs[(size_t) worder[i % worder.size ()]];
      uint64_t seed = mixs (o.seed, i);
      Plan p; make_plan (sc, seed, p);
      execute (sc, p, seed, nullptr, r);
      j << (i ? "," : "") << "{\"scenario\":\"" << sc.name << "\",\"seed\":" << seed << ",\"result\":\"" << (r->status == RS_OK ? "ok" : r->cls) << "\",\"knobs\":[";
      for (size_t k = 0; k < p.knobs.size (); k++) j << (k ? "," : "") << p.knobs[k];
      j << "],\"operations\":" << p.ops.size () << ",\"first_operations\":[";
      for (size_t k = 0; k < std::min<size_t> (8, p.ops.size ()); k++) j << (k ? "," : "") << "[" << p.ops[k].actor << "," << p.ops[k].code << "," << p.ops[k].a << "," << p.ops[k].b << "," << p.ops[k].c << "]";
      j << "],\"steps\":" << r->steps << ",\"context_switches\":" << r->switches << ",\"recorded_choices\":" << r->nchoices << ",\"simulated_s\":" << (double) r->simtime / 1e9 << ",\"trace_hash\":" << (r->hash >> 1) << "}";
    }
    j << "]";
  }
  if (fail) j << ",\"fail\":{\"file\":\"" << jesc (fail->fail_file) << "\",\"class\":\"" << jesc (fail->fail_cls) << "\",\"property\":\"" << fail->fail_prop << "\",\"message\":\"" << jesc (fail->fail_msg) << "\"}";
  if (err) j << ",\"error\":\"" << jesc (err->error_msg) << "\"";
  j << "}\n";
  std::string s = j.str ();
  if (!o.out.empty ()) { std::ofstream f (o.out); f << s; } else fputs (s.c_str (), stdout);
  return bad || err ? 2 : fail ? 1 : 0;
}

static int cmd_replay (const char * path, bool verbose)
{
  std::ifstream f (path);
  std::string line, scn, cls; uint64_t hash = 0, seed = 0; Plan p; std::vector<ChoiceRec> ch; bool drawn = false;
  while (std::getline (f, line))
  {
    std::istringstream is (line); std::string k; is >> k;
    if (k == "scenario") is >> scn; else if (k == "property") { std::string v; is >> v; if (race_families (v)) RACE = v; } else if (k == "class") is >> cls; else if (k == "hash") is >> hash; else if (k == "seed") is >> seed; else if (k == "drawn") drawn = true;
    else if (k == "knob") { size_t i; long long v; is >> i >> v; if (p.knobs.size () <= i) p.knobs.resize (i + 1); p.knobs[i] = v; }
    else if (k == "op") { Op o; long long a, b, c; is >> o.actor >> o.code >> a >> b >> c; o.a = a; o.b = b; o.c = c; p.ops.push_back (o); }
    else if (k == "choice") { ChoiceRec c; int ph, fi, ki; unsigned long long v; is >> ph >> fi >> c.step >> ki >> v; c.phase = (uint8_t) ph; c.fiber = (uint16_t) fi; c.kind = (uint8_t) ki; c.value = v; ch.push_back (c); }
  }
  for (auto & s : reg ()) if (scn == s.name)
  {
    fs_init_region (); sim_io_setup ();
    RunResult * r = new_result ();
    execute (s, p, seed, drawn ? nullptr : &ch, r, verbose);
    if (r->status == RS_FAIL && cls == r->cls)
    {
      printf ("REPRODUCED property=%s class=%s hash=%llu %s\n%s\n", RACE.empty () ? s.property : RACE.c_str (), r->cls, (unsigned long long) r->hash, r->hash == hash ? "identical" : "DIFFERENT-TRACE", r->msg);
      return r->hash == hash ? 1 : 3;
    }
    printf ("NOT REPRODUCED: %s %s\n", r->status == RS_FAIL ? r->cls : "ok", r->msg);
    return r->status == RS_FAIL ? 3 : 0;
  }
  printf ("no scenario %s\n", scn.c_str ());
  return 2;
}

static int cmd_one (const Opts & o, uint64_t seed)
{
  auto v = select (o);
  fs_init_region (); sim_io_setup ();
  RunResult * r = new_result ();
  for (auto s : v)
  {
    Plan p; make_plan (*s, seed, p);
    execute (*s, p, seed, nullptr, r, true);
    printf ("%s: %s %s %s steps=%llu simtime=%.6f choices=%u hash=%llx\n", s->name, r->status == RS_OK ? "ok" : "FAIL", r->cls, r->msg, (unsigned long long) r->steps, (double) r->simtime / 1e9, r->nchoices, (unsigned long long) r->hash);
    for (int i = 0; i < 8; i++) if (r->pcs[i]) printf (" 0x%llx", (unsigned long long) r->pcs[i]);
    printf ("\n");
  }
  return 0;
}

// runs many seeds without stopping and lists the kinds of failure
static int cmd_scan (const Opts & o)
{
  fs_init_region (); sim_io_setup ();
  auto v = select (o);
  struct Slot { char cls[112]; char msg[300]; uint64_t seed; int sc; int n; };
  const int NS = 64;
  Slot * tab = (Slot *) mmap (nullptr, sizeof (Slot) * NS * (size_t) o.workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int w = 0; w < o.workers; w++)
  {
    if (fork () == 0)
    {
      fs_init_region ();
      RunResult * r = new_result ();
      Slot * t = tab + w * NS;
      double end = wall () + o.secs;
      for (uint64_t i = (uint64_t) w; i < o.runs && wall () < end; i += (uint64_t) o.workers)
        for (size_t k = 0; k < v.size (); k++)
        {
          uint64_t seed = mixs (o.seed, i + 1);
          Plan p; make_plan (*v[k], seed, p);
          execute (*v[k], p, seed, nullptr, r);
          if (r->status != RS_FAIL || is_known (*v[k], r)) continue;
          for (int j = 0; j < NS; j++)
          {
            if (!t[j].n) { snprintf (t[j].cls, 112, "%s", r->cls); snprintf (t[j].msg, 300, "%s", r->msg); t[j].seed = seed; t[j].sc = (int) k; }
            if (strcmp (t[j].cls, r->cls) == 0) { t[j].n++; break; }
          }
        }
      _exit (0);
    }
  }
  while (wait (nullptr) > 0) {}
  std::map<std::string, std::pair<int, std::string>> m;
  for (int i = 0; i < NS * o.workers; i++)
    if (tab[i].n)
    {
      auto & e = m[std::string (tab[i].cls)];
      e.first += tab[i].n;
      if (e.second.size () < 350) e.second += "\n    " + std::string (v[(size_t) tab[i].sc]->name) + " --seed " + std::to_string (tab[i].seed) + " " + tab[i].msg;
    }
  for (auto & e : m) printf ("%6d %s%s\n", e.second.first, e.first.c_str (), e.second.second.c_str ());
  printf ("scan done\n");
  return 0;
}

int main (int argc, char ** argv)
{
  if (!getenv ("SIM_NOASLR"))
  {
    setenv ("SIM_NOASLR", "1", 1);
    int p = personality (0xffffffff);
    if (p >= 0 && personality ((unsigned long) p | ADDR_NO_RANDOMIZE) >= 0) { execv ("/proc/self/exe", argv); }
  }
  const char * vv = getenv ("SIM_VARIANT");
  if (vv) VARIANT = vv[0];
  Opts o; std::string cmd = argc > 1 ? argv[1] : "";
  std::string file; uint64_t seed1 = 0; bool verbose = false;
  for (int i = 2; i < argc; i++)
  {
    std::string a = argv[i]; const char * n = i + 1 < argc ? argv[i + 1] : "";
    if (a == "--prop") { o.prop = n; i++; } else if (a == "--scenario") { o.scenarios.push_back (n); i++; }
    else if (a == "--runs") { o.runs = strtoull (n, 0, 0); i++; } else if (a == "--secs") { o.secs = atof (n); i++; }
    else if (a == "--seed") { o.seed = seed1 = strtoull (n, 0, 0); i++; } else if (a == "--workers") { o.workers = atoi (n); i++; }
    else if (a == "--out") { o.out = n; i++; } else if (a == "--rdir") { o.rdir = n; i++; } else if (a == "--keep") o.keep = true;
    else if (a == "--samples") { o.samples = atoi (n); i++; } else if (a == "--min-secs") { o.min_secs = atof (n); i++; }
    else if (a == "--known") { std::ifstream f (n); std::string l; while (std::getline (f, l)) { size_t x = l.find ('|'), y = l.find ('|', x + 1); if (x != std::string::npos && y != std::string::npos) known.push_back ({ l.substr (0, x), l.substr (x + 1, y - x - 1), l.substr (y + 1) }); } i++; }
    else if (a == "-v") verbose = true; else file = a;
  }
  if (race_families (o.prop)) RACE = o.prop;
  if (cmd == "run") return cmd_run (o);
  if (cmd == "scan") return cmd_scan (o);
  if (cmd == "replay") return cmd_replay (file.c_str (), verbose);
  if (cmd == "one") return cmd_one (o, seed1);
  if (cmd == "list") { for (auto & s : reg ()) printf ("%s %s %s\n", s.property, s.name, s.variants); for (auto & r : race_props) for (auto & s : reg ()) if (strchr (r.families, s.property[0])) printf ("%s %s %s\n", r.prop, s.name, s.variants); return 0; }
  fprintf (stderr, "usage: simrun run|replay|one|list ...\n");
  return 2;
}
