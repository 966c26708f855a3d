// Component life cycle state: C01 .. C03
#include "common.h"

namespace
{
enum { OP_STOPPED, OP_RUNNING, OP_STARTING, OP_DELETED, OP_READ, OP_WAIT, OP_WAITLOCK, OP_REFS, OP_INFO, OP_SLEEP };
enum { K_ACTORS = 1, K_EARLY_DELETE };

struct H { int code; uint32_t arg; int64_t res; uint64_t call, ret; int actor; };
struct C
{
  iot_component_t comp;
  std::vector<H> hist;
  std::vector<int> where;
  std::vector<bool> sleeping; uint64_t naps = 0;
  int releases = 0, lasts = 0;
};
C * T;

size_t begin (int actor, int code, uint32_t arg)
{
  T->hist.push_back ({ code, arg, 0, sim_event (), UINT64_MAX, actor });
  T->where[(size_t) actor] = (int) T->hist.size () - 1;
  return T->hist.size () - 1;
}
void finish (size_t i, int64_t res) { H & h = T->hist[i]; h.res = res; h.ret = sim_event (); T->where[(size_t) h.actor] = -1; }

// the caller holds the component's lock: nothing may change
void hold (uint32_t state, int64_t ns)
{
  if (ns) T->naps++;
  if (ns) sim_sleep ((uint64_t) ns); else sim_yield ();
  SIM_CHECK (T->comp.state == state, "changed-under-lock", "the state changed from %u to %u while the component was locked", state, (unsigned) T->comp.state);
  iot_component_state_t s = iot_component_unlock (&T->comp);
  SIM_CHECK (s == state, "changed-under-lock", "unlock reports state %u, the state while locked was %u", (unsigned) s, state);
}

void step (int a, const Op & o)
{
  iot_component_t * c = &T->comp;
  size_t i;
  switch (o.code)
  {
    case OP_STOPPED: { i = begin (a, o.code, IOT_COMPONENT_STOPPED); bool r = iot_component_set_stopped (c); finish (i, r); break; }
    case OP_RUNNING: { i = begin (a, o.code, IOT_COMPONENT_RUNNING); bool r = iot_component_set_running (c); finish (i, r); break; }
    case OP_STARTING: { i = begin (a, o.code, IOT_COMPONENT_STARTING); bool r = iot_component_set_starting (c); finish (i, r); break; }
    case OP_DELETED: { i = begin (a, o.code, IOT_COMPONENT_DELETED); bool r = iot_component_set_deleted (c); finish (i, r); break; }
    case OP_READ: { i = begin (a, o.code, 0); uint32_t s = iot_component_lock (c); hold (s, o.b); finish (i, s); break; }
    case OP_WAIT:
    {
      i = begin (a, o.code, (uint32_t) o.a);
      uint32_t s = iot_component_wait (c, (uint32_t) o.a);
      finish (i, s);
      SIM_CHECK (s & (uint32_t) o.a, "wrong-state", "a wait for states %x returned %x", (unsigned) o.a, s);
      break;
    }
    case OP_WAITLOCK:
    {
      i = begin (a, o.code, (uint32_t) o.a);
      uint32_t s = iot_component_wait_and_lock (c, (uint32_t) o.a);
      SIM_CHECK (s & (uint32_t) o.a, "wrong-state", "a wait for states %x returned %x", (unsigned) o.a, s);
      hold (s, o.b);
      finish (i, s);
      break;
    }
    case OP_INFO:
    {
      i = begin (a, OP_READ, 0);
      iot_data_t * d = iot_component_read (c);
      const char * s = iot_data_string_map_get_string (d, "state");
      int64_t v = -1;
      for (uint32_t x : { 0u, 1u, 2u, 4u, 8u }) if (s && strcmp (s, iot_component_state_name ((iot_component_state_t) x)) == 0) v = x;
      SIM_CHECK (v >= 0, "bad-state-name", "reading the component gives state %s", s ? s : "(none)");
      iot_data_free (d);
      finish (i, v);
      break;
    }
    case OP_SLEEP: T->naps++; T->sleeping[(size_t) a] = true; sim_sleep ((uint64_t) o.b); T->sleeping[(size_t) a] = false; break;
  }
}

struct Model
{
  uint32_t s;
  uint64_t hash () const { return s; }
  bool apply (const H & h)
  {
    switch (h.code)
    {
      case OP_STOPPED: case OP_RUNNING: case OP_STARTING:
      {
        bool ch = s != IOT_COMPONENT_DELETED && s != h.arg;
        if (ch != (bool) h.res) return false;
        if (ch) s = h.arg;
        return true;
      }
      case OP_DELETED:
      {
        bool ch = s != IOT_COMPONENT_RUNNING && s != IOT_COMPONENT_DELETED;
        if (ch != (bool) h.res) return false;
        if (ch) s = IOT_COMPONENT_DELETED;
        return true;
      }
      case OP_READ: return h.res == (int64_t) s;
      default: return (s & h.arg) && h.res == (int64_t) s;
    }
  }
};

void check_progress (const char * when)
{
  // until the actors have had time to get as far as they can, none of them taking a nap meanwhile
  for (uint64_t tries = 0; tries < 5000; tries++)
  {
    auto steady = [] { for (bool x : T->sleeping) if (x) return false; return true; };
    bool ok = steady ();
    uint64_t t0 = sim_now (), naps = T->naps;
    sim_sleep (ok ? 100 * MS : std::min<uint64_t> (50 + 50 * tries, 5000) * MS);
    for (int n = 0; ok && n < 200 && sim_idle_between (t0, sim_now ()) < 60 * MS; n++) sim_sleep (50 * MS);
    if (ok && steady () && T->naps == naps) break;
  }
  uint32_t s = iot_component_lock (&T->comp);
  iot_component_unlock (&T->comp);
  int waiting = 0;
  for (size_t a = 0; a < T->where.size (); a++)
  {
    int w = T->where[a];
    if (w < 0) continue;
    const H & h = T->hist[(size_t) w];
    if (h.code != OP_WAIT && h.code != OP_WAITLOCK) sim_fail ("stuck", "%s: an operation (%d) does not return", when, h.code);
    SIM_CHECK (!(s & h.arg), "wait-missed", "%s: a wait for states %x is still blocked although the component is in state %x", when, h.arg, s);
    waiting++;
  }
  if (waiting > 1) sim_probe ("several_waiting");
  if (waiting) sim_probe ("judged_with_waiting");
  sim_state (hmix (s, (uint64_t) waiting));
}

void no_op (iot_component_t *) {}

void run (const Plan & p)
{
  C t; T = &t;
  memset (&t.comp, 0, sizeof (t.comp));
  sim_heap_mark ();
  static const iot_component_factory_t factory = { "Type", IOT_CATEGORY_USER, nullptr, nullptr, nullptr, nullptr };
  iot_component_init (&t.comp, &factory, no_op, no_op);
  t.comp.name = sim_strdup ("comp");
  t.comp.config = iot_data_alloc_map (IOT_DATA_STRING);
  int na = (int) p.k (K_ACTORS);
  t.where.assign ((size_t) na + 1, -1);
  t.sleeping.assign ((size_t) na + 1, false);
  auto ops = by_actor (p, na + 1);
  std::vector<int> ids;
  for (int i = 0; i < na; i++)
  {
    std::vector<Op> o = ops[(size_t) i];
    ids.push_back (sim_spawn ("actor", [o, i] { for (auto & x : o) step (i, x); }));
  }
  auto all_done = [&] { for (int i : ids) if (!sim_done (i)) return false; return true; };
  check_progress ("after the operations");
  for (auto & x : ops[(size_t) na]) { if (all_done ()) break; step (na, x); check_progress ("after a further change"); sim_probe ("round"); }
  // every state in turn until all waits have been satisfied
  for (int n = 0; n < 300 && !all_done (); n++)
  {
    int c = p.k (K_EARLY_DELETE) ? OP_DELETED : (int) (n % 3);
    if (p.k (K_EARLY_DELETE) && (n & 1) == 0) c = OP_STOPPED;
    step (na, Op { na, c, 0, 0, 0 });
    check_progress ("while finishing");
  }
  SIM_CHECK (all_done (), "wait-missed", "waits do not return although every state has been entered");
  sim_join_all (ids);
  step (na, Op { na, OP_STOPPED, 0, 0, 0 });
  step (na, Op { na, OP_DELETED, 0, 0, 0 });
  for (int c : { OP_STOPPED, OP_RUNNING, OP_STARTING, OP_DELETED, OP_READ }) step (na, Op { na, c, 0, 0, 0 });
  if (t.hist.size () <= 200)
  {
    Linearizer<Model, H> l (t.hist);
    int r = l.check (Model { IOT_COMPONENT_INITIAL });
    if (r < 0) sim_probe ("linearization_search_too_long"); else sim_probe ("linearized");
    if (!r)
    {
      std::string s;
      for (auto & x : t.hist) { char b[96]; snprintf (b, sizeof (b), "[%llu,%llu a%d op%d %u -> %lld] ", (unsigned long long) x.call, (unsigned long long) x.ret, x.actor, x.code, x.arg, (long long) x.res); s += b; if (s.size () > 1500) break; }
      sim_fail ("not-linearizable", "no sequential order of state changes explains: %s", s.c_str ());
    }
  }
  iot_component_fini (&t.comp);
  check_no_leaks ("component");
}

void gen (Rng & r, Plan & p, bool waits)
{
  int na = 2 + (int) r.below (5);
  bool early = r.chance (0.4);
  p.knobs.resize (1);
  p.knobs.push_back (na);
  p.knobs.push_back (early);
  int n = (int) r.logrange (3, 40);
  for (int i = 0; i < n; i++)
  {
    Op o { (int) r.below ((uint64_t) na), 0, 0, 0, 0 };
    if (waits && r.chance (0.45)) o.code = r.chance (0.5) ? OP_WAIT : OP_WAITLOCK;
    else o.code = (int) r.pick<int> ({ OP_STOPPED, OP_RUNNING, OP_STARTING, OP_STOPPED, OP_RUNNING, OP_DELETED, OP_READ, OP_INFO, OP_SLEEP });
    if (!early && o.code == OP_DELETED) o.code = OP_STOPPED;
    if (o.code == OP_WAIT || o.code == OP_WAITLOCK)
    {
      o.a = r.pick<int64_t> ({ 1, 2, 8, 3, 9, 10, 11, 2, 1 });
      if (early) o.a |= 4;
    }
    o.b = o.code == OP_SLEEP ? (int64_t) r.logrange (100, r.chance (0.1) ? 60 * SEC : 10 * MS) : r.chance (0.2) ? (int64_t) r.logrange (100, 10 * MS) : 0;
    p.ops.push_back (o);
  }
  int rounds = (int) r.below (6);
  for (int i = 0; i < rounds; i++) p.ops.push_back ({ na, (int) r.below (3), 0, 0, 0 });
}
void gen_c01 (Rng & r, Plan & p) { gen (r, p, r.chance (0.3)); }
void gen_c02 (Rng & r, Plan & p) { gen (r, p, true); }

// ---- C03: references
void run_refs (const Plan & p)
{
  C t; T = &t;
  memset (&t.comp, 0, sizeof (t.comp));
  static const iot_component_factory_t factory = { "Type", IOT_CATEGORY_USER, nullptr, nullptr, nullptr, nullptr };
  iot_component_init (&t.comp, &factory, no_op, no_op);
  int na = (int) p.k (K_ACTORS);
  auto ops = by_actor (p, na);
  std::vector<int> ids;
  for (int i = 0; i < na; i++)
  {
    iot_component_add_ref (&t.comp);
    std::vector<Op> o = ops[(size_t) i];
    ids.push_back (sim_spawn ("holder", [o]
    {
      auto drop = [] { T->releases++; bool last = iot_component_dec_ref (&T->comp); if (last) T->lasts++; };
      for (auto & x : o)
      {
        if (x.code == OP_SLEEP) { sim_sleep ((uint64_t) x.b); continue; }
        iot_component_add_ref (&T->comp);
        if (x.b) sim_sleep ((uint64_t) x.b);
        drop ();
        SIM_CHECK (T->lasts == 0, "last-too-early", "a release was reported as the last one although references are still held");
      }
      drop ();
    }));
  }
  t.releases++;
  if (iot_component_dec_ref (&t.comp)) t.lasts++;
  sim_join_all (ids);
  SIM_CHECK (t.lasts == 1, "last-count", "%d of %d releases were reported as the last one", t.lasts, t.releases);
  sim_state (hmix ((uint64_t) na, p.ops.size ()));
  t.comp.name = nullptr; t.comp.config = nullptr;
  iot_component_fini (&t.comp);
}
void gen_c03 (Rng & r, Plan & p) { gen (r, p, false); }
}

SCENARIO (comp_state, "C01", gen_c01, run, nullptr, 1, "dr");
SCENARIO (comp_wait, "C02", gen_c02, run, nullptr, 1, "dr");
SCENARIO (comp_refs, "C03", gen_c03, run_refs, nullptr, 1, "dr");
