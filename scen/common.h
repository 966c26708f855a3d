// Helpers shared by the scenarios.
#pragma once
#include "sim.h"
#include "iot/iot.h"
#include <string.h>
#include <algorithm>
#include <map>
#include <set>
#include <deque>

static const uint64_t US = 1000ull, MS = 1000000ull, SEC = 1000000000ull;

// groups the operations of a plan by actor
static inline std::vector<std::vector<Op>> by_actor (const Plan & p, int n)
{
  std::vector<std::vector<Op>> v ((size_t) n);
  for (auto & o : p.ops) if (o.actor >= 0 && o.actor < n) v[(size_t) o.actor].push_back (o);
  return v;
}

static inline int highest_actor (const Plan & p)
{
  int n = 0;
  for (auto & o : p.ops) n = std::max (n, o.actor + 1);
  return n;
}

// A library logger with a harness implementation: yields at each record, so that logging is a scheduling point
static inline void quiet_impl (iot_logger_t *, iot_loglevel_t, uint64_t, const char * msg, const void *)
{
  (void) strlen (msg);
  sim_yield ();
}
static inline iot_logger_t * make_logger (int64_t level)
{
  if (level <= 0) return nullptr;
  return iot_logger_alloc_custom ("log", (iot_loglevel_t) (level > 5 ? 5 : level), true, nullptr, quiet_impl, nullptr, nullptr);
}

// A thread pool or scheduler made the way a container makes one: from its configuration
static inline iot_component_t * by_config (const iot_component_factory_t * f, const std::vector<std::pair<const char *, int64_t>> & v)
{
  iot_container_t * cont = iot_container_alloc (("cfg" + std::to_string (sim_self ())).c_str ());
  iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING);
  for (auto & x : v) iot_data_string_map_add (m, x.first, iot_data_alloc_i64 (x.second));
  iot_component_t * c = f->config_fn (cont, m);
  iot_data_free (m);
  iot_container_free (cont);
  return c;
}
static inline iot_threadpool_t * make_pool (int cfg, int threads, uint32_t max, int prio, int cpu, iot_logger_t * log)
{
  if (!cfg || log) return iot_threadpool_alloc ((uint16_t) threads, max, prio, cpu, log);
  sim_probe ("pool_by_config");
  std::vector<std::pair<const char *, int64_t>> v;
  if (threads != 2 || cfg & 2) v.push_back ({ "Threads", threads });   // the documented defaults may be left out
  if (max || cfg & 2) v.push_back ({ "MaxJobs", max });
  if (prio != -1 || cfg & 2) v.push_back ({ "Priority", prio });
  if (cpu != -1 || cfg & 2) v.push_back ({ "Affinity", cpu });
  if (cfg & 4) v.push_back ({ "ShutdownDelay", (cfg >> 3) * 100 });
  return (iot_threadpool_t *) by_config (iot_threadpool_factory (), v);
}
static inline iot_scheduler_t * make_scheduler (int cfg, int prio, int cpu, iot_logger_t * log)
{
  if (!cfg || log) return iot_scheduler_alloc (prio, cpu, log);
  sim_probe ("scheduler_by_config");
  std::vector<std::pair<const char *, int64_t>> v;
  if (prio != -1 || cfg & 2) v.push_back ({ "Priority", prio });
  if (cpu != -1 || cfg & 2) v.push_back ({ "Affinity", cpu });
  return (iot_scheduler_t *) by_config (iot_scheduler_factory (), v);
}

static inline void check_no_leaks (const char * what)
{
  std::string s = sim_leaks (4, 4096); // 4096: the library's memory pool grows by blocks of this size and keeps them
  SIM_CHECK (s.empty (), "leak", "%s: memory never released: %s", what, s.c_str ());
}

static inline uint64_t hmix (uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }

// Linearizability (Wing and Gong, with memoisation): H has call and ret; M has bool apply (const H &) and uint64_t hash () const.
// The history must be in call order. 1: a sequential order exists; 0: none; -1: gave up.
template <class M, class H> struct Linearizer
{
  const std::vector<H> & h; std::set<uint64_t> seen; uint64_t left = 400000;
  explicit Linearizer (const std::vector<H> & x) : h (x) {}
  int go (std::vector<bool> & done, size_t ndone, size_t lo, const M & m)
  {
    if (ndone == h.size ()) return 1;
    if (!left--) return -1;
    while (lo < h.size () && done[lo]) lo++;
    uint64_t k = hmix (m.hash (), lo);
    for (size_t i = lo; i < h.size (); i++) if (done[i]) k = hmix (k, i);
    if (!seen.insert (k).second) return 0;
    uint64_t minret = UINT64_MAX;
    for (size_t i = lo; i < h.size (); i++) if (!done[i]) { if (h[i].call > minret) break; minret = std::min (minret, h[i].ret); }
    for (size_t i = lo; i < h.size () && h[i].call < minret; i++)
    {
      if (done[i]) continue;
      M n = m;
      if (!n.apply (h[i])) continue;
      done[i] = true;
      int r = go (done, ndone + 1, lo, n);
      done[i] = false;
      if (r) return r;
    }
    return 0;
  }
  int check (const M & m) { std::vector<bool> done (h.size (), false); return go (done, 0, 0, m); }
};
