// Containers: K01 .. K04
#include "common.h"
#include <array>
#include "iot/container.h"
#include "iot/config.h"
#include "iot/store.h"
#include "iot/threadpool.h"
#include "iot/scheduler.h"

int sim_open_regex ();
namespace
{
// In-memory configuration: name -> text, "" stands for a configuration that cannot be loaded
std::map<std::string, std::string> * g_conf;
bool g_load_faults;
char * mem_load (const char * name, const char *)
{
  std::string n = name;
  sim_yield ();
  if (g_load_faults && sim_fault (FK_STORE_LOST)) return nullptr;
  auto it = g_conf->find (n);
  if (it == g_conf->end ()) return nullptr;
  if (it->second == "\x01") return nullptr;
  std::string s = it->second;
  if (g_load_faults && !s.empty () && sim_fault (FK_STORE_DAMAGE)) s.resize (s.size () / 2);
  return sim_strdup (s.c_str ());
}
const iot_container_config_t mem_config = { mem_load, nullptr, nullptr };
// Names of components: plain, one the beginning of another, one the end of another, different in case only, long
int g_names;
std::string comp_name (int64_t i)
{
  switch (g_names)
  {
    case 1: return "svc" + std::string ((size_t) i, 'x');
    case 2: return std::string ((size_t) i, 'x') + "svc";
    case 3: { std::string s = "abcdefgh"; for (int b = 0; b < 8; b++) if (i >> b & 1) s[(size_t) b] = (char) (s[(size_t) b] - 32); return s; }
    case 4: return std::string (61, 'n') + std::to_string (i);
    default: return "c" + std::to_string (i);
  }
}
int comp_id (const std::string & n) { for (int i = 0; i < 128; i++) if (comp_name (i) == n) return i; return -1; }
void gen_names (Rng & r, Plan & p) { p.knobs.push_back (r.chance (0.5) ? 0 : 1 + (int64_t) r.below (4)); } // the last knob
void use_names (const Plan & p) { g_names = p.knobs.empty () ? 0 : (int) p.knobs.back (); }
int64_t geti (const iot_data_t * map, const char * k, int64_t d) { return iot_data_string_map_get_i64 (map, k, d); }

// ================================================================== K01: order of start, running, stop and free
namespace k01
{
enum { COMP, START, STOP, DELETE, SLEEP };
enum { E_STARTING, E_START, E_RUNNING, E_STOPPING, E_STOP, E_FREE };
const char * const ename[] = { "starting callback", "start", "running callback", "stopping callback", "stop", "free" };
enum { F_STARTING = 1, F_RUNNING = 2, F_STOPPING = 4, F_STOPS = 8, F_LOOKS = 1 << 16 };
struct I { iot_component_t own; iot_component_t * c; int id; std::string name; int64_t delay, slow; int flags; bool live = true; int gen = 0; size_t idx = 0; uint64_t running_at = UINT64_MAX;
  iot_component_start_fn_t rstart = nullptr; iot_component_stop_fn_t rstop = nullptr; iot_component_free_fn_t rfree = nullptr; };
struct E { int kind; I * i; uint64_t t, ret; bool flag, allrun; };
struct S { std::deque<I> insts; std::vector<I *> order; std::vector<E> ev; std::map<int64_t, Op> def; std::vector<int> late; size_t base = 0; iot_container_t * cont = nullptr; };
S * T;
I * of (iot_component_t * c) { for (auto & i : T->insts) if (i.c == c && i.live) return &i; sim_fail ("unknown-component", "a callback was made for a component that does not exist (any more)"); }
// of the components that were there when the operation began
bool all_running () { for (auto i : T->order) if (i->live && i->idx < T->base && i->c->state != IOT_COMPONENT_RUNNING) return false; return true; }
size_t rec (int kind, I * i, bool flag = false) { T->ev.push_back ({ kind, i, sim_now (), 0, flag, all_running () }); return T->ev.size () - 1; }
void cb_starting (iot_component_t * c) { rec (E_STARTING, of (c)); sim_yield (); }
void cb_running (iot_component_t * c, bool timeout) { rec (E_RUNNING, of (c), timeout); sim_yield (); }
void cb_stopping (iot_component_t * c) { rec (E_STOPPING, of (c)); sim_yield (); }
void do_start (iot_component_t * c)
{
  I * i = of (c); size_t e = rec (E_START, i);
  if (i->slow > 0) sim_sleep ((uint64_t) i->slow);
  int gen = ++i->gen;
  if (i->rstart) { i->rstart (c); i->running_at = sim_now (); }
  else if (i->delay == 0) { iot_component_set_running (c); i->running_at = sim_now (); }
  else if (i->delay > 0)
  {
    i->running_at = UINT64_MAX;
    iot_component_set_starting (c);
    T->late.push_back (sim_spawn ("late", [i, gen, c]
    {
      uint64_t end = sim_now () + (uint64_t) i->delay;
      while (i->gen == gen && i->live && sim_now () < end) sim_sleep (std::min<uint64_t> (end - sim_now (), 900 * MS));
      if (i->gen != gen || !i->live) return;
      if (i->flags & F_LOOKS) // a component may look itself up before it is running: nothing the container waits for may hold that up
      {
        uint64_t t0 = sim_now (), s0 = sim_stall_total ();
        iot_component_t * f = iot_container_find_component (T->cont, i->name.c_str ());
        uint64_t t = sim_now () - t0, s = sim_stall_total () - s0;
        SIM_CHECK (!f || f == c, "wrong-component", "looking up %s gave something else", i->name.c_str ());
        SIM_CHECK (t < 1000 * MS + s, "lookup-held-up", "looking up %s while the container was being started took %" PRIu64 " ms (of which %" PRIu64 " stalled)", i->name.c_str (), t / 1000000, s / 1000000);
        if (i->gen != gen || !i->live) return;
      }
      iot_component_set_running (c);
      i->running_at = sim_now ();
    }));
  }
  T->ev[e].ret = sim_now ();
}
void join_late () { sim_join_all (T->late); T->late.clear (); }
void do_stop (iot_component_t * c)
{
  I * i = of (c); rec (E_STOP, i);
  i->gen++;
  join_late (); // a component that is being stopped no longer becomes running
  if (i->rstop) i->rstop (c); else if (i->flags & F_STOPS) iot_component_set_stopped (c);
  i->running_at = UINT64_MAX;
}
void do_free (iot_component_t * c)
{
  I * i = of (c); rec (E_FREE, i);
  i->live = false;
  if (i->rfree) i->rfree (c); else iot_component_fini (c);
}
void set_callbacks (I * i)
{
  if (i->flags & F_STARTING) iot_component_set_starting_callback (i->c, cb_starting);
  if (i->flags & F_RUNNING) iot_component_set_running_callback (i->c, cb_running);
  if (i->flags & F_STOPPING) iot_component_set_stopping_callback (i->c, cb_stopping);
}
extern const iot_component_factory_t * const fac[4];
iot_component_t * make (iot_container_t * cont, const iot_data_t * map, int type)
{
  int64_t id = geti (map, "id", -1), ref = geti (map, "ref", -1);
  if (ref >= 0) iot_container_find_component (cont, comp_name (ref).c_str ());
  iot_component_t * r = nullptr;
  if (type) r = (type == 1 ? iot_logger_factory () : type == 2 ? iot_threadpool_factory () : iot_scheduler_factory ())->config_fn (cont, map);
  const Op & o = T->def.at (id);
  T->insts.emplace_back (); I * i = &T->insts.back ();
  i->id = (int) id; i->name = comp_name (id); i->idx = T->order.size (); i->delay = o.b; i->flags = (int) (o.c & (15 | F_LOOKS)); i->slow = (o.c >> 4) & 1 ? (int64_t) (30 * MS) : 0;
  if (r)
  {
    i->c = r; i->rstart = r->start_fn; i->rstop = r->stop_fn;
    i->rfree = (type == 1 ? iot_logger_factory () : type == 2 ? iot_threadpool_factory () : iot_scheduler_factory ())->free_fn;
    r->start_fn = do_start; r->stop_fn = do_stop;
  }
  else { memset (&i->own, 0, sizeof (i->own)); i->c = &i->own; iot_component_init (i->c, fac[type], do_start, do_stop); }
  set_callbacks (i);
  T->order.push_back (i);
  return i->c;
}
template <int N> iot_component_t * conf (iot_container_t * c, const iot_data_t * m) { return make (c, m, N); }
iot_component_factory_t f0 = { "H0", IOT_CATEGORY_USER, conf<0>, do_free, nullptr, nullptr }, f1 = { "H1", IOT_CATEGORY_USER, conf<1>, do_free, nullptr, nullptr },
  f2 = { "H2", IOT_CATEGORY_USER, conf<2>, do_free, nullptr, nullptr }, f3 = { "H3", IOT_CATEGORY_USER, conf<3>, do_free, nullptr, nullptr };
const iot_component_factory_t * const fac[4] = { &f0, &f1, &f2, &f3 };

// knobs: 1 loaded with init, 2 background lookups
// COMP a: id, b: delay until running (0 at once, -1 never), c: flags | slow << 4 | type << 5 | (ref + 1) << 8
void gen (Rng & r, Plan & p)
{
  p.knobs.resize (1);
  p.knobs.push_back (r.chance (0.5)); p.knobs.push_back (r.chance (0.4)); gen_names (r, p);
  int n = 1 + (int) r.below (6);
  int style = (int) r.below (4); // 0 at once, 1 late, 2 boundary, 3 mixed with never
  for (int i = 0; i < n; i++)
  {
    int type = r.chance (0.25) ? 1 + (int) r.below (3) : 0;
    int64_t d = 0;
    int s = style == 3 ? (int) r.below (5) : style;
    if (s == 1) d = (int64_t) r.logrange (100 * US, 6 * SEC);
    else if (s == 2) d = (int64_t) (r.chance (0.7) ? 24 : r.below (27)) * (int64_t) (200 * MS) + r.range (-2000000, 2000000);
    else if (s == 4) d = -1;
    if (d < -1) d = 0;
    int ref = r.chance (0.5) ? (int) r.below (8) : -1;
    if (ref >= n || ref == i) ref = -1;
    if (ref > i && !p.k (1)) ref = -1; // added one by one: only what exists can be found
    if (p.k (1) && ref >= 0 && ref < i) ref = -1; // no cycles
    p.ops.push_back ({ 0, COMP, i, d, (int64_t) r.below (16) | (r.chance (0.8) ? 8 : 0) | (r.chance (0.15) ? 16 : 0) | type << 5 | (ref + 1) << 8 | (r.chance (0.3) ? F_LOOKS : 0) });
  }
  if (r.chance (0.3)) for (int i = n + 1 + (int) r.below (4); i > n; i--) // created by another thread later
    p.ops.push_back ({ 1, COMP, i, r.chance (0.6) ? 0 : (int64_t) r.logrange (100 * US, 6 * SEC), (int64_t) r.below (16) | 8 | (r.chance (0.15) ? 16 : 0) });
  int m = 1 + (int) r.below (4);
  for (int i = 0; i < m; i++)
  {
    int k = (int) r.below (10);
    if (k < 5) p.ops.push_back ({ 0, START, 0, 0, 0 });
    else if (k < 8) p.ops.push_back ({ 0, STOP, 0, 0, 0 });
    else if (k < 9) p.ops.push_back ({ 0, DELETE, (int64_t) r.below ((uint64_t) n + 1), 0, 0 });
    else p.ops.push_back ({ 0, SLEEP, 0, (int64_t) r.logrange (MS, 2 * SEC), 0 });
  }
}
std::vector<I *> live () { std::vector<I *> v; for (auto i : T->order) if (i->live) v.push_back (i); return v; }
std::vector<size_t> kind (int k) { std::vector<size_t> v; for (size_t i = 0; i < T->ev.size (); i++) if (T->ev[i].kind == k) v.push_back (i); return v; }
void only (const char * what, unsigned mask) { for (auto & e : T->ev) SIM_CHECK (mask >> e.kind & 1, "unexpected-callback", "%s made a %s for %s", what, ename[e.kind], e.i->name.c_str ()); }
void once (const char * what, int k, const std::vector<I *> & want, bool ordered)
{
  std::vector<size_t> v;
  for (auto x : kind (k)) if (T->ev[x].i->idx < T->base) v.push_back (x);
  for (auto w : want)
  {
    size_t n = 0; for (auto x : v) if (T->ev[x].i == w) n++;
    SIM_CHECK (n == 1, "not-once", "%s made %zu %ss for %s", what, n, ename[k], w->name.c_str ());
  }
  SIM_CHECK (v.size () == want.size (), "not-once", "%s made %zu %ss for %zu components", what, v.size (), ename[k], want.size ());
  if (ordered) for (size_t x = 0; x < v.size (); x++)
    SIM_CHECK (T->ev[v[x]].i == want[x], "wrong-order", "%s: %s number %zu was for %s, expected %s", what, ename[k], x + 1, T->ev[v[x]].i->name.c_str (), want[x]->name.c_str ());
}
// components created by another thread during the operation: it takes them all the way or not at all
size_t count (I * i, int k) { size_t n = 0; for (auto & e : T->ev) if (e.kind == k && e.i == i) n++; return n; }
void newcomers (const char * what, int k, int before_k, int before_f, int after_k, int after_f)
{
  for (auto i : T->order)
  {
    if (i->idx < T->base) continue;
    size_t n = count (i, k);
    SIM_CHECK (n <= 1, "not-once", "%s made %zu %ss for %s, created meanwhile", what, n, ename[k], i->name.c_str ());
    sim_probe (n ? "newcomer included" : "newcomer left out");
    if (before_f && (i->flags & before_f)) SIM_CHECK (count (i, before_k) == n, "not-once", "%s made %zu %ss but %zu %ss for %s, created meanwhile", what, n, ename[k], count (i, before_k), ename[before_k], i->name.c_str ());
    if (after_f && (i->flags & after_f)) SIM_CHECK (count (i, after_k) == n, "not-once", "%s made %zu %ss but %zu %ss for %s, created meanwhile", what, n, ename[k], count (i, after_k), ename[after_k], i->name.c_str ());
  }
  auto v = kind (k);
  for (size_t x = 1; x < v.size (); x++)
  {
    bool up = T->ev[v[x - 1]].i->idx < T->ev[v[x]].i->idx;
    SIM_CHECK (up == (k == E_START), "wrong-order", "%s: %s of %s after that of %s", what, ename[k], T->ev[v[x]].i->name.c_str (), T->ev[v[x - 1]].i->name.c_str ());
  }
}
void before (const char * what, int a, int b)
{
  auto x = kind (a), y = kind (b);
  if (x.empty () || y.empty ()) return;
  SIM_CHECK (x.back () < y.front (), "wrong-order", "%s made a %s (%s) after a %s (%s)", what, ename[a], T->ev[x.back ()].i->name.c_str (), ename[b], T->ev[y.front ()].i->name.c_str ());
}
std::vector<I *> with (const std::vector<I *> & v, int f) { std::vector<I *> r; for (auto i : v) if (i->flags & f) r.push_back (i); return r; }
void run (const Plan & p)
{
  T = new S; g_conf = new std::map<std::string, std::string>; g_load_faults = false;
  sim_conf.max_time_ns = 300 * SEC;
  use_names (p);
  sim_heap_mark ();
  for (auto f : fac) iot_component_factory_add (f);
  std::vector<int64_t> ids;
  std::string top = "{";
  for (auto & o : p.ops) if (o.code == COMP && !T->def.count (o.a))
  {
    T->def[o.a] = o;
    if (o.actor) continue;
    ids.push_back (o.a);
    int64_t ref = (o.c >> 8 & 255) - 1, type = (o.c >> 5) & 3;
    std::string n = comp_name (o.a), t = "{\"id\":" + std::to_string (o.a) + ",\"Name\":\"log\",\"Level\":\"Error\",\"Threads\":2";
    if (ref >= 0) t += ",\"ref\":" + std::to_string (ref);
    (*g_conf)[n] = t + "}";
    top += (top.size () > 1 ? "," : "") + ("\"" + n + "\":\"H" + std::to_string (type) + "\"");
  }
  (*g_conf)["main"] = top + "}";
  iot_container_t * cont = T->cont = iot_container_alloc ("main");
  if (p.k (1)) { iot_container_config (&mem_config); SIM_CHECK (iot_container_init (cont), "init-failed", "initialising the container failed"); }
  else for (auto id : ids) iot_container_add_component (cont, ("H" + std::to_string ((T->def[id].c >> 5) & 3)).c_str (), comp_name (id).c_str (), (*g_conf)[comp_name (id)].c_str ());
  SIM_CHECK (T->order.size () == ids.size (), "not-created", "%zu of %zu components were created", T->order.size (), ids.size ());
  only ("loading", 0);
  bool done = false; int bg = -1;
  if (p.k (2)) bg = sim_spawn ("reader", [&]
  {
    for (int n = 0; !done && n < 300; n++)
    {
      if (n & 1) iot_data_free (iot_container_list_components (cont, nullptr));
      else iot_data_free (iot_container_component_read (cont, comp_name (n % 5).c_str ()));
      sim_sleep (37 * MS);
    }
  });
  int adder = -1;
  if (!p.ops.empty ()) adder = sim_spawn ("adder", [&]
  {
    Rng r (p.ops.size () + ids.size () * 7 + p.ops[0].b);
    for (auto & d : T->def)
    {
      if (!d.second.actor) continue;
      sim_sleep (r.chance (0.5) ? r.logrange (1 * US, 50 * MS) : r.logrange (10 * MS, 6 * SEC));
      iot_container_add_component (cont, "H0", comp_name (d.first).c_str (), ("{\"id\":" + std::to_string (d.first) + "}").c_str ());
    }
  });
  for (auto & o : p.ops)
  {
    T->ev.clear ();
    T->base = T->order.size ();
    auto L = live ();
    switch (o.code)
    {
      case START:
      {
        for (auto i : L) i->gen++;
        join_late ();
        for (auto i : L) if (!i->rstart && i->delay != 0 && i->c->state != IOT_COMPONENT_RUNNING) i->running_at = UINT64_MAX;
        uint64_t t0 = sim_now (), s0 = sim_stall_total ();
        iot_container_start (cont);
        uint64_t t1 = sim_now ();
        only ("starting", 1u << E_STARTING | 1u << E_START | 1u << E_RUNNING);
        once ("starting", E_STARTING, with (L, F_STARTING), false); once ("starting", E_START, L, true); once ("starting", E_RUNNING, with (L, F_RUNNING), false);
        before ("starting", E_STARTING, E_START); before ("starting", E_START, E_RUNNING);
        newcomers ("starting", E_START, E_STARTING, F_STARTING, E_RUNNING, F_RUNNING);
        uint64_t last = t0;
        for (auto e : kind (E_START)) last = std::max (last, T->ev[e].ret);
        auto rv = kind (E_RUNNING);
        if (!rv.empty ())
        {
          const E & first = T->ev[rv[0]];
          for (auto x : rv) SIM_CHECK (T->ev[x].flag == first.flag, "timeout-flag", "the running callbacks of one start were told different things about the timeout");
          uint64_t allat = 0;
          for (auto i : T->order) if (i->live && (i->idx < T->base || count (i, E_START))) allat = std::max (allat, i->running_at);
          if (allat < last + 4800 * MS) { SIM_CHECK (!first.flag, "timeout-flag", "running callbacks report a timeout although every component was running %" PRId64 " us after the last start", (int64_t) (allat - last) / 1000); if (allat > last) sim_probe ("late but in time"); }
          if (!first.allrun) { SIM_CHECK (first.flag, "timeout-flag", "running callbacks report no timeout although a component was not running"); sim_probe ("timeout"); }
          if (first.flag) SIM_CHECK (first.t >= last + 4800 * MS, "timeout-flag", "running callbacks report a timeout %" PRIu64 " us after the last start", (first.t - last) / 1000);
        }
        uint64_t stall = sim_stall_total () - s0;
        SIM_CHECK (t1 - last < 5300 * MS + stall, "slow-start", "the container took %" PRIu64 " ms (of which %" PRIu64 " stalled) to finish after its components were started", (t1 - last) / 1000000, stall / 1000000);
        break;
      }
      case STOP:
      {
        iot_container_stop (cont);
        only ("stopping", 1u << E_STOPPING | 1u << E_STOP);
        once ("stopping", E_STOPPING, with (L, F_STOPPING), false);
        std::reverse (L.begin (), L.end ());
        once ("stopping", E_STOP, L, true);
        before ("stopping", E_STOPPING, E_STOP);
        newcomers ("stopping", E_STOP, E_STOPPING, F_STOPPING, 0, 0);
        break;
      }
      case DELETE:
      {
        std::string n = comp_name (o.a);
        std::vector<I *> d, ns;
        for (auto i : L) if (i->name == n) { d.push_back (i); i->gen++; join_late (); if (i->c->state != IOT_COMPONENT_STOPPED) ns.push_back (i); }
        iot_container_delete_component (cont, n.c_str ());
        only ("deleting", 1u << E_STOP | 1u << E_FREE);
        once ("deleting", E_STOP, ns, false); once ("deleting", E_FREE, d, false); before ("deleting", E_STOP, E_FREE);
        break;
      }
      case SLEEP: sim_sleep ((uint64_t) o.b); break;
      default: break;
    }
  }
  done = true;
  if (bg >= 0) sim_join (bg);
  if (adder >= 0) sim_join (adder);
  for (auto i : T->order) i->gen++;
  join_late ();
  T->ev.clear ();
  T->base = T->order.size ();
  auto L = live (); std::vector<I *> ns;
  for (auto i : L) if (i->c->state != IOT_COMPONENT_STOPPED) ns.push_back (i);
  iot_container_free (cont);
  only ("freeing", 1u << E_STOP | 1u << E_FREE);
  once ("freeing", E_STOP, ns, false); once ("freeing", E_FREE, L, false);
  for (auto i : ns)
  {
    size_t s = 0, f = 0;
    for (size_t x = 0; x < T->ev.size (); x++) if (T->ev[x].i == i) (T->ev[x].kind == E_STOP ? s : f) = x;
    SIM_CHECK (s < f, "wrong-order", "%s was stopped after it was freed", i->name.c_str ());
  }
  sim_state (hmix (L.size (), ns.size ()));
  check_no_leaks ("freeing the container");
}
SCENARIO (container_order, "K01", gen, run, nullptr, 10, "dr");
}

// ================================================================== K02: loading configurations
namespace k02
{
enum { COMP, REF, FIND, INIT };
enum { T_STATIC, T_DYN, T_DYN_NOLIB, T_DYN_NOSYM, T_DYN_OTHER, T_UNKNOWN, T_NUMBER, T_NULL, T_MAP, T_ENV, T_ENV_UNSET, NTYPE };
enum { D_OK, D_ENV, D_MISSING, D_EMPTY, D_TRUNC, D_ARRAY, D_SCALAR, D_ENV_UNSET, D_ENV_EMPTY, D_ENV_LONG, D_GARBAGE, D_REFUSED, NDAMAGE };
const int MAXN = 9;
struct I { iot_component_t comp; int id; std::map<int, iot_component_t *> refs; uint64_t at = 0; bool freed = false; };
struct C { bool there = false; int type = 0, damage = 0; std::vector<std::pair<int, bool>> refs; int calls = 0; std::string val, text, json; std::vector<I *> insts; };
struct S { C c[MAXN]; std::deque<I> insts; bool random; };
S * T;
void loaded (int id, const char * what)
{
  auto open = [] (int i) { return sim_lib_opens (("lib" + std::to_string (i) + ".so").c_str ()) > 0; };
  if (T->c[id].type == T_DYN) SIM_CHECK (open (id) || (id && T->c[id - 1].type == T_DYN_OTHER && open (id - 1)), "library-closed", "component c%d was %s after the library it comes from had been closed", id, what);
}
std::string cname (int i) { return comp_name (i); }
void start (iot_component_t * c) { iot_component_set_running (c); }
void stop (iot_component_t * c) { iot_component_set_stopped (c); }
void free_fn (iot_component_t * c)
{
  for (auto & i : T->insts) if (&i.comp == c) { SIM_CHECK (!i.freed, "double-free", "component c%d was freed twice", i.id); i.freed = true; loaded (i.id, "freed"); iot_component_fini (c); return; }
  sim_fail ("unknown-component", "a component that was never created was freed");
}
extern iot_component_factory_t k02_static;
iot_component_t * config (iot_container_t * cont, const iot_data_t * map)
{
  int id = (int) geti (map, "id", -1);
  SIM_CHECK (id >= 0 && id < MAXN && T->c[id].there, "wrong-config", "a component was created with a configuration that is not one of those stored");
  C & c = T->c[id];
  c.calls++;
  loaded (id, "created");
  SIM_CHECK (c.damage == D_OK || c.damage == D_ENV || c.damage == D_REFUSED, "invalid-config-used", "component c%d was created from an invalid configuration", id);
  iot_data_t * want = iot_data_from_json (c.text.c_str ());
  bool same = iot_data_equal (want, map);
  iot_data_free (want);
  SIM_CHECK (same, "wrong-config", "component c%d was created with a configuration other than its own after substitution", id);
  if (c.damage == D_REFUSED) { sim_yield (); return nullptr; }
  std::map<int, iot_component_t *> refs;
  bool ok = true;
  for (auto & rf : c.refs)
  {
    std::string n = cname (rf.first);
    iot_component_t * f = rf.first & 1 ? iot_container_find_component (cont, n.c_str ()) : iot_config_component (map, ("r" + std::to_string (rf.first)).c_str (), cont, nullptr);
    refs[rf.first] = f;
    if (!f && rf.second) ok = false;
  }
  if (!ok) return nullptr;
  T->insts.emplace_back (); I & i = T->insts.back ();
  memset (&i.comp, 0, sizeof (i.comp)); i.id = id; i.refs = refs;
  iot_component_init (&i.comp, &k02_static, start, stop);
  i.at = sim_event ();
  c.insts.push_back (&i);
  return &i.comp;
}
iot_component_factory_t k02_static = { "HS", IOT_CATEGORY_USER, config, free_fn, nullptr, nullptr };
iot_component_factory_t k02_dyn[MAXN] = {
#define DF(n) { "HD" #n, IOT_CATEGORY_USER, config, free_fn, nullptr, nullptr }
  DF (0), DF (1), DF (2), DF (3), DF (4), DF (5), DF (6), DF (7), DF (8) };
template <int N> const iot_component_factory_t * dynfac () { return &k02_dyn[N]; }
// knobs: 1 random load failures, 2 container configuration damage (0 none), 3 start and stop, 4 one added by hand (1 good, 2 no such factory, 3 no such library)
// COMP a: id, b: type, c: damage; REF a: id, b: id, c: strict; FIND a: id; INIT
void gen (Rng & r, Plan & p)
{
  p.knobs.resize (1);
  p.knobs.push_back (r.chance (0.2)); p.knobs.push_back (r.chance (0.08) ? 1 + (int64_t) r.below (4) : 0); p.knobs.push_back (r.chance (0.2)); p.knobs.push_back (r.chance (0.6) ? 0 : r.chance (0.6) ? 1 : 2 + (int64_t) r.below (2)); gen_names (r, p);
  int n = 1 + (int) r.below (MAXN - 1);
  bool bad = r.chance (0.6);
  for (int i = 0; i < n; i++)
  {
    int t = r.chance (0.25) ? (int) T_DYN : (int) T_STATIC, d = r.chance (0.3) ? D_ENV : D_OK;
    if (bad && r.chance (0.3)) t = (int) r.below (NTYPE);
    if (bad && r.chance (0.3)) d = (int) r.below (NDAMAGE);
    p.ops.push_back ({ 0, COMP, i, t, d });
  }
  int style = (int) r.below (3), m = (int) r.below ((uint64_t) n * 2 + 1); // 0 acyclic, 1 mostly acyclic, 2 anything
  for (int i = 0; i < m; i++)
  {
    int a = (int) r.below ((uint64_t) n), b = (int) r.below ((uint64_t) n + 1);
    if (style == 0 || (style == 1 && r.chance (0.8))) { if (a == b) continue; if ((a > b) != (p.k (1) > 0)) std::swap (a, b); if (a >= n) continue; }
    p.ops.push_back ({ 0, REF, a, b, r.chance (0.5) });
  }
  int f = r.chance (0.5) ? 0 : (int) r.below (4);
  for (int i = 0; i < f; i++) p.ops.push_back ({ 0, FIND, (int64_t) r.below ((uint64_t) n + 1), 0, 0 });
  if (f == 0 || r.chance (0.8)) p.ops.push_back ({ 0, INIT, 0, 0, 0 });
  if (r.chance (0.3)) for (int i = 0; i < 3; i++) p.ops.push_back ({ 0, FIND, (int64_t) r.below ((uint64_t) n + 1), 0, 0 });
  if (r.chance (0.2)) p.ops.push_back ({ 0, INIT, 0, 0, 0 });
}
bool config_ok (const C & c) { return c.there && (c.damage == D_OK || c.damage == D_ENV); }
bool type_ok (const C & c, bool dyn) { return c.there && (c.type == T_STATIC || c.type == T_ENV || (dyn && c.type == T_DYN)); }
void run (const Plan & p)
{
  use_names (p);
  T = new S; g_conf = new std::map<std::string, std::string>; T->random = p.k (1) > 0;
  g_load_faults = T->random;
  if (T->random) { sim_conf.fault_p[FK_STORE_LOST] = 0.1; sim_conf.fault_p[FK_STORE_DAMAGE] = 0.1; }
  sim_setenv ("V_SET", "from the environment"); sim_setenv ("V_TYPE", "HS"); sim_setenv ("V_EMPTY", "");
  sim_setenv (std::string (63, 'M').c_str (), "from the longest name");
  for (size_t i = 0; i < MAXN; i++) sim_setenv (std::string (64 + i, 'L').c_str (), "a name that is too long"); // would resolve if names were not limited
  sim_setenv (std::string (63, 'L').c_str (), "a name cut short");
  sim_heap_mark ();
  iot_component_factory_add (&k02_static);
  for (auto & o : p.ops) if (o.code == COMP && o.a < MAXN) { C & c = T->c[o.a]; c.there = true; c.type = (int) (o.b % NTYPE); c.damage = (int) (o.c % NDAMAGE); }
  for (auto & o : p.ops) if (o.code == REF && o.a < MAXN && o.b < MAXN && T->c[o.a].there)
  {
    bool dup = false; for (auto & x : T->c[o.a].refs) if (x.first == (int) o.b) dup = true;
    if (!dup) T->c[o.a].refs.push_back ({ (int) o.b, o.c != 0 });
  }
  const iot_component_factory_t * (* dynfn[]) () = { dynfac<0>, dynfac<1>, dynfac<2>, dynfac<3>, dynfac<4>, dynfac<5>, dynfac<6>, dynfac<7>, dynfac<8> };
  std::string top = "{";
  for (int i = 0; i < MAXN; i++) if (T->c[i].there)
  {
    C & c = T->c[i];
    std::string n = cname (i), type, extra, pre = "{\"id\":" + std::to_string (i);
    switch (c.type)
    {
      case T_STATIC: type = "\"HS\""; break;
      case T_UNKNOWN: type = i % 3 == 0 ? "\"Nothing\"" : i % 3 == 1 ? "\"H\"" : "\"hs\""; break;
      case T_NUMBER: type = std::to_string (i); break;
      case T_NULL: type = "null"; break;
      case T_MAP: type = "{\"a\":1}"; break;
      case T_ENV: type = "\"${V_TYPE}\""; break;
      case T_ENV_UNSET: type = i % 2 ? "\"HSX\"" : "\"HX\""; break;
      default: type = "\"HD" + std::to_string (i) + "\""; break;
    }
    if (c.type == T_DYN || c.type == T_DYN_NOSYM || c.type == T_DYN_OTHER)
    {
      sim_add_library (("lib" + std::to_string (i) + ".so").c_str (), "factory", (void *) dynfn[c.type == T_DYN_OTHER ? (i + 1) % MAXN : i]);
      extra = ",\"Library\":\"lib" + std::to_string (i) + ".so\"" + (c.type == T_DYN_NOSYM && i % 2 ? "" : std::string (",\"Factory\":\"") + (c.type == T_DYN_NOSYM ? "nosuch" : "factory") + "\"");
    }
    if (c.type == T_DYN_NOLIB)
    {
      // naming a library that is not there, or no library at all although the program itself has such a symbol
      extra = i % 2 ? ",\"Factory\":\"factory\"" : ",\"Library\":\"nolib.so\",\"Factory\":\"factory\"";
      if (i % 2) sim_add_library ("", "factory", (void *) dynfn[i]);
      sim_fault_count (FK_DLOPEN_FAIL);
    }
    // a library that provides another component's type makes that type known: keep those apart
    for (auto & rf : c.refs) extra += ",\"r" + std::to_string (rf.first) + "\":\"" + cname (rf.first) + "\"";
    std::string raw = pre + extra + ",\"val\":\"x", sub = raw;
    switch (c.damage)
    {
      case D_ENV:
        raw += "${V_SET}|${V_EMPTY}$ {x} $}"; sub += "from the environment|$ {x} $}";
        if (i & 1) { raw += "${" + std::string (63, 'M') + "}"; sub += "from the longest name"; }
        break;
      case D_ENV_UNSET: raw += "${V_UNSET}"; sim_fault_count (FK_ENV_UNSET); break;
      case D_ENV_EMPTY: raw += "${}"; break;
      case D_ENV_LONG: raw += "${" + std::string (64 + (size_t) i, 'L') + "}"; break;
      default: break;
    }
    raw += "\"}"; sub += "\"}";
    switch (c.damage)
    {
      case D_MISSING: raw = "\x01"; break;
      case D_EMPTY: raw = ""; break;
      case D_TRUNC: raw.resize (raw.size () - 1 - (size_t) i % 9); break;
      case D_ARRAY: raw = "[\"id\"," + std::to_string (i) + "]"; break;
      case D_SCALAR: raw = std::to_string (i); break;
      case D_GARBAGE: raw = std::string ("\x7f{{]") + (char) ('a' + i); break;
      default: break;
    }
    if (c.damage >= D_MISSING && c.damage != D_REFUSED) sim_fault_count (c.damage == D_MISSING ? FK_STORE_LOST : FK_STORE_DAMAGE);
    if (c.damage == D_REFUSED) sim_fault_count (FK_CREATE_FAIL);
    c.text = sub;
    if (raw != "\x01") (*g_conf)[n] = raw;
    top += (top.size () > 1 ? "," : "") + ("\"" + n + "\":" + type);
  }
  top += "}";
  bool topok = true;
  switch (p.k (2))
  {
    case 1: topok = false; top = "\x01"; break;
    case 2: topok = false; top.resize (top.size () - 1); break;
    case 3: topok = false; top = "[" + std::to_string (MAXN) + "]"; break;
    case 4: topok = false; top = ""; break;
    default: break;
  }
  if (!topok) sim_fault_count (FK_STORE_DAMAGE);
  (*g_conf)["main"] = top;
  iot_container_config (&mem_config);
  iot_container_t * cont = iot_container_alloc ("main");
  bool inited = false;
  for (auto & o : p.ops)
  {
    if (o.code == INIT)
    {
      bool r = iot_container_init (cont);
      inited = inited || (r && topok);
      if (!T->random) SIM_CHECK (r == topok, "init-result", "initialising the container returned %d, its configuration is %s", r, topok ? "good" : "bad");
    }
    else if (o.code == FIND)
    {
      std::string n = cname ((int) o.a);
      iot_component_t * c = iot_container_find_component (cont, n.c_str ());
      I * i = nullptr; for (auto & x : T->insts) if (&x.comp == c) i = &x;
      if (c) SIM_CHECK (i && i->id == (int) o.a && !i->freed, "wrong-component", "looking up %s gave something else", n.c_str ());
      else SIM_CHECK (T->c[o.a].insts.empty (), "not-found", "looking up %s gave nothing although it exists", n.c_str ());
    }
  }
  if (T->random) { sim_quiesce_faults (); g_load_faults = false; if (topok) { iot_container_init (cont); inited = true; } }
  // the outcome for components that neither are on nor lead to a cycle of references
  bool other = false; for (auto & c : T->c) if (c.there && c.type == T_DYN_OTHER) other = true;
  if (topok)
  {
    bool dyn = inited;
    int st[MAXN]; // 0 unknown, 1 in progress, 2 created, 3 not created, 4 reaches a cycle
    memset (st, 0, sizeof st);
    std::function<int (int)> go = [&] (int i) -> int
    {
      if (i >= MAXN || !T->c[i].there) return 3;
      if (st[i] == 1) return 4;
      if (st[i]) return st[i];
      C & c = T->c[i];
      if (!type_ok (c, dyn) || !config_ok (c)) return st[i] = 3;
      st[i] = 1;
      int res = 2;
      for (auto & rf : c.refs) { int x = go (rf.first); if (x == 4) res = 4; else if (x == 3 && rf.second && res != 4) res = 3; }
      return st[i] = res;
    };
    std::set<int> cyc; // any walk that meets an open node makes everything open on it suspect: repeat from each node
    for (int i = 0; i < MAXN; i++) { memset (st, 0, sizeof st); if (T->c[i].there && go (i) == 4) cyc.insert (i); }
    memset (st, 0, sizeof st);
    std::vector<bool> tried ((size_t) MAXN, inited);
    if (!inited) for (auto & o : p.ops) if (o.code == FIND && o.a < MAXN) tried[(size_t) o.a] = true;
    for (int i = 0; i < MAXN; i++) if (T->c[i].there)
    {
      C & c = T->c[i];
      SIM_CHECK (c.insts.size () <= 1, "duplicate", "component c%d was created %zu times", i, c.insts.size ());
      if (cyc.count (i)) { sim_probe ("cycle"); continue; }
      if (other && c.type >= T_DYN && c.type <= T_DYN_OTHER) continue; // its type may have come from another library
      bool dep = false; if (other) for (auto & rf : c.refs) (void) rf, dep = true;
      if (dep) continue;
      memset (st, 0, sizeof st);
      bool want = go (i) == 2;
      if (!want) SIM_CHECK (c.insts.empty (), "created-invalid", "component c%d was created although it is not valid (type %d, damage %d)", i, c.type, c.damage);
      else if (tried[(size_t) i])
      {
        SIM_CHECK (c.insts.size () == 1, "not-created", "component c%d was not created", i);
        I * me = c.insts[0];
        for (auto & rf : me->refs)
        {
          memset (st, 0, sizeof st);
          if (T->random || go (rf.first) != 2) continue;
          // looked up while a failure was pending or before its library was loaded, a lenient reference may be absent
          bool early = false; for (auto & x : T->c) if (x.there && x.type == T_DYN) for (auto & o : p.ops) if (o.code == FIND) early = true;
          if (early && !rf.second) continue;
          auto & t = T->c[rf.first];
          if (!t.insts.empty () && T->c[rf.first].type == T_DYN && early) continue;
          SIM_CHECK (t.insts.size () == 1 && rf.second == &t.insts[0]->comp, "reference", "component c%d got %s for its reference to c%d", i, rf.second ? "something else" : "nothing", rf.first);
          SIM_CHECK (t.insts[0]->at < me->at, "wrong-order", "component c%d was created after c%d, which refers to it", rf.first, i);
        }
      }
    }
  }
  else for (int i = 0; i < MAXN; i++) SIM_CHECK (T->c[i].insts.empty (), "created-invalid", "component c%d was created although the container has no valid configuration", i);
  // created by hand, with a type that only its own library provides
  int hand = (int) p.k (4);
  if (hand && !T->c[MAXN - 1].there)
  {
    C & c = T->c[MAXN - 1];
    c.there = true; c.type = T_DYN;
    c.text = "{\"id\":" + std::to_string (MAXN - 1) + ",\"Library\":\"" + (hand == 3 ? "nolib.so" : "lib" + std::to_string (MAXN - 1) + ".so") + "\",\"Factory\":\"" + (hand == 2 ? "nosuch" : "factory") + "\"}";
    sim_add_library (("lib" + std::to_string (MAXN - 1) + ".so").c_str (), "factory", (void *) dynfn[MAXN - 1]);
    bool known = iot_component_factory_find (k02_dyn[MAXN - 1].type) != nullptr;
    size_t before = T->insts.size ();
    iot_container_add_component (cont, k02_dyn[MAXN - 1].type, cname (MAXN - 1).c_str (), c.text.c_str ());
    bool want = hand == 1 || known;
    if (known) c.type = T_STATIC;
    SIM_CHECK (c.insts.size () == (want ? 1u : 0u) && T->insts.size () == before + c.insts.size (), "not-created", "adding a component by hand (%d) created %zu", hand, c.insts.size ());
    if (!want) c.type = T_DYN_NOSYM;
    sim_probe (want ? "added by hand" : "refused by hand");
  }
  for (int i = 0; i < MAXN; i++) if (T->c[i].there && T->c[i].type == T_DYN_NOSYM)
    SIM_CHECK (sim_lib_opens (("lib" + std::to_string (i) + ".so").c_str ()) == 0, "library-leak", "the library of component c%d, which provides no such factory, stays open", i);
  // each existing component is listed and read with its own configuration, once
  iot_data_t * list = iot_container_list_components (cont, nullptr);
  std::map<std::string, int> seen;
  iot_data_list_iter_t it; iot_data_list_iter (list, &it);
  while (iot_data_list_iter_next (&it))
  {
    const iot_data_t * m = iot_data_list_iter_value (&it);
    const char * n = iot_data_string_map_get_string (m, "name");
    SIM_CHECK (n && comp_id (n) >= 0 && comp_id (n) < MAXN, "bad-listing", "a listed component has name %s", n ? n : "(none)");
    seen[n]++;
    const C & c = T->c[comp_id (n)];
    iot_data_t * want = iot_data_from_json (c.text.c_str ());
    SIM_CHECK (iot_data_equal (want, iot_data_string_map_get (m, "config")), "wrong-config", "component %s is listed with a configuration other than its own", n);
    iot_data_free (want);
  }
  iot_data_free (list);
  size_t total = 0;
  for (int i = 0; i < MAXN; i++) { total += T->c[i].insts.size (); SIM_CHECK (seen[cname (i)] == (int) T->c[i].insts.size (), "bad-listing", "component c%d exists %zu times and is listed %d times", i, T->c[i].insts.size (), seen[cname (i)]); }
  if (p.k (3))
  {
    iot_container_start (cont);
    iot_container_stop (cont);
  }
  iot_container_free (cont);
  for (auto & i : T->insts) SIM_CHECK (i.freed, "not-freed", "component c%d was never freed", i.id);
  sim_state (hmix (total, hmix ((uint64_t) topok, p.ops.size ())));
  check_no_leaks ("freeing the container");
}
SCENARIO (container_load, "K02", gen, run, nullptr, 10, "dr");
}

// ================================================================== K03: concurrent use
namespace k03
{
std::string nm (int64_t id) { return comp_name (id >= 100 ? id - 90 : id == 99 ? 9 : id); } // 100 and above: added, 99: unknown
enum { FIND, READ, LIST, ADD, DELETE, START, STOP, SLEEP, REF, PRE };
const int MAXN = 6;
struct I { iot_component_t comp; int inst; std::string name; int freed = 0, stops = 0; };
struct H { int code; std::string name; int res; std::vector<std::pair<std::string, int>> created; std::vector<int> freed; std::set<std::string> list; uint64_t call, ret; };
struct S { std::deque<I> insts; std::vector<H> hist; std::map<int, size_t> cur; std::vector<int> refs[MAXN]; bool over = false; int64_t slow = 0; };
S * T;
std::string text (const std::string & n)
{
  std::string t = "{\"id\":\"" + n + "\",\"val\":\"" + n + n + "\"";
  return t + "}";
}
I * of (iot_component_t * c) { for (auto & i : T->insts) if (&i.comp == c) return &i; sim_fail ("unknown-component", "a component that was never created"); }
void linger () { if (T->slow) sim_sleep ((uint64_t) T->slow); else sim_yield (); }
void start (iot_component_t * c)
{
  I * i = of (c);
  SIM_CHECK (!i->freed, "started-after-free", "component %s was started after it had been freed", i->name.c_str ());
  linger ();
  SIM_CHECK (!i->freed, "freed-while-starting", "component %s was freed while it was being started", i->name.c_str ());
  iot_component_set_running (c);
}
void stop (iot_component_t * c)
{
  I * i = of (c);
  SIM_CHECK (!i->freed, "stopped-after-free", "component %s was stopped after it had been freed", i->name.c_str ());
  i->stops++;
  linger ();
  SIM_CHECK (!i->freed, "freed-while-stopping", "component %s was freed while it was being stopped", i->name.c_str ());
  iot_component_set_stopped (c);
}
void free_fn (iot_component_t * c)
{
  I * i = of (c);
  SIM_CHECK (!i->freed, "double-free", "component %s was freed twice", i->name.c_str ());
  SIM_CHECK (c->state == IOT_COMPONENT_STOPPED, "not-stopped", "component %s was freed without having been stopped", i->name.c_str ());
  i->freed++;
  auto it = T->cur.find (sim_self ());
  if (it != T->cur.end ()) T->hist[it->second].freed.push_back (i->inst);
  else SIM_CHECK (T->over, "freed-by-other", "component %s was freed by a thread that deleted nothing", i->name.c_str ());
  sim_yield ();
  iot_component_fini (c);
}
extern iot_component_factory_t fac[2];
template <int N> iot_component_t * config (iot_container_t * cont, const iot_data_t * map)
{
  std::string n = iot_data_string_map_get_string (map, "id");
  sim_yield ();
  if (comp_id (n) < MAXN) for (int r : T->refs[comp_id (n)])
  {
    iot_component_t * f = iot_container_find_component (cont, nm (r).c_str ());
    SIM_CHECK (f, "not-found", "component %s did not find c%d, which it refers to", n.c_str (), r);
  }
  sim_yield ();
  T->insts.emplace_back (); I & i = T->insts.back ();
  memset (&i.comp, 0, sizeof (i.comp)); i.inst = (int) T->insts.size (); i.name = n;
  iot_component_init (&i.comp, &fac[N], start, stop);
  auto it = T->cur.find (sim_self ());
  if (it != T->cur.end ()) T->hist[it->second].created.push_back ({ n, i.inst });
  return &i.comp;
}
iot_component_factory_t fac[2] = { { "HA", IOT_CATEGORY_USER, config<0>, free_fn, nullptr, nullptr }, { "HB", IOT_CATEGORY_CORE, config<1>, free_fn, nullptr, nullptr } };
// knobs: 1 actors, 2 components, 3 time components take to start and stop
// REF a: id, b: higher id; PRE a: id (created first)
void gen (Rng & r, Plan & p)
{
  int na = 2 + (int) r.below (3), n = 1 + (int) r.below (MAXN - 1);
  p.knobs.resize (1);
  p.knobs.push_back (na); p.knobs.push_back (n); p.knobs.push_back (r.chance (0.6) ? 0 : (int64_t) r.logrange (US, 20 * MS)); gen_names (r, p);
  int m = (int) r.below ((uint64_t) n + 1);
  for (int i = 0; i < m; i++) { int64_t a = (int64_t) r.below ((uint64_t) n), b = (int64_t) r.below ((uint64_t) n); if (a != b) p.ops.push_back ({ 0, REF, std::min (a, b), std::max (a, b), 0 }); }
  for (int i = 0; i < n; i++) if (r.chance (0.25)) p.ops.push_back ({ 0, PRE, i, 0, 0 });
  int k = 3 + (int) r.below (12), fresh = 0;
  bool startstop = r.chance (0.35);
  for (int i = 0; i < k; i++)
  {
    int a = (int) r.below ((uint64_t) na), c = (int) r.below (20);
    int64_t id = (int64_t) r.below ((uint64_t) n);
    if (fresh && r.chance (0.2)) id = 100 + (int64_t) r.below ((uint64_t) fresh);
    if (c < 8) p.ops.push_back ({ a, FIND, r.chance (0.05) ? 99 : id, 0, 0 });
    else if (c < 10) p.ops.push_back ({ a, READ, id, (int64_t) r.logrange (US, 3 * MS), 0 });
    else if (c < 12) p.ops.push_back ({ a, LIST, (int64_t) r.below (3), (int64_t) r.logrange (US, 3 * MS), 0 });
    else if (c < 14) p.ops.push_back ({ a, ADD, 100 + fresh++, 0, 0 });
    else if (c < (startstop ? 16 : 18)) p.ops.push_back ({ a, DELETE, id, 0, 0 });
    else if (startstop) p.ops.push_back ({ a, r.chance (0.5) ? START : STOP, 0, 0, 0 });
    else p.ops.push_back ({ a, SLEEP, 0, (int64_t) r.logrange (US, 3 * MS), 0 });
  }
}
const char * ty (const std::string & n) { return comp_id (n) & 1 ? "HB" : "HA"; }
struct M
{
  std::map<std::string, int> m; int n;
  uint64_t hash () const { uint64_t h = 7; for (auto & x : m) { for (char c : x.first) h = hmix (h, (uint64_t) c); h = hmix (h, (uint64_t) x.second); } return h; }
  bool apply (const H & h)
  {
    for (auto & c : h.created) { if (m.count (c.first)) return false; m[c.first] = c.second; }
    auto it = m.find (h.name);
    int now = it == m.end () ? 0 : it->second;
    switch (h.code)
    {
      case FIND:
        if (comp_id (h.name) < n && !now) return false; // a configured component is created
        return h.res == now && h.freed.empty ();
      case READ: return (h.res != 0) == (now != 0) && h.freed.empty ();
      case LIST:
      {
        std::set<std::string> s;
        for (auto & x : m) if (h.res == 0 || (h.res == 1) == (strcmp (ty (x.first), "HA") == 0)) s.insert (x.first);
        return s == h.list;
      }
      case ADD: return h.created.size () == 1 && h.created[0].first == h.name;
      case DELETE:
        if (h.freed.size () != (now ? 1u : 0u) || (now && h.freed[0] != now)) return false;
        m.erase (h.name);
        return true;
      default: return h.created.empty () && h.freed.empty ();
    }
  }
};
void check_read (const iot_data_t * d, const std::string & n)
{
  const char * s = iot_data_string_map_get_string (d, "name"), * t = iot_data_string_map_get_string (d, "type");
  SIM_CHECK (s && n == s, "bad-read", "reading %s gives name %s", n.c_str (), s ? s : "(none)");
  SIM_CHECK (t && strcmp (t, ty (n)) == 0, "bad-read", "reading %s gives type %s", n.c_str (), t ? t : "(none)");
  iot_data_t * want = iot_data_from_json (text (n).c_str ());
  SIM_CHECK (iot_data_equal (want, iot_data_string_map_get (d, "config")), "bad-read", "reading %s gives a configuration other than its own", n.c_str ());
  iot_data_free (want);
}
void run (const Plan & p)
{
  use_names (p);
  T = new S; g_conf = new std::map<std::string, std::string>; g_load_faults = false;
  int na = (int) std::max<int64_t> (1, p.k (1)), n = (int) std::max<int64_t> (1, std::min<int64_t> (MAXN, p.k (2)));
  T->slow = p.k (3);
  sim_heap_mark ();
  for (auto & f : fac) iot_component_factory_add (&f);
  std::string top = "{";
  for (int i = 0; i < n; i++) { std::string x = nm (i); (*g_conf)[x] = text (x); top += (i ? "," : "") + ("\"" + x + "\":\"") + ty (x) + "\""; }
  (*g_conf)["main"] = top + "}";
  for (auto & o : p.ops) if (o.code == REF && o.b < n && o.a < o.b) T->refs[o.a].push_back ((int) o.b);
  iot_container_config (&mem_config);
  iot_container_t * cont = iot_container_alloc ("main");
  M model; model.n = n;
  for (auto & o : p.ops) if (o.code == PRE && o.a < n) iot_container_find_component (cont, nm (o.a).c_str ());
  for (auto & i : T->insts) model.m[i.name] = i.inst;
  std::vector<int> ids;
  for (int a = 0; a < na; a++) ids.push_back (sim_spawn ("user", [&, a]
  {
    for (auto & o : p.ops)
    {
      if (o.actor != a || o.code >= REF) continue;
      if (o.code == SLEEP) { sim_sleep ((uint64_t) o.b); continue; }
      std::string name = nm (o.a);
      T->hist.push_back ({ o.code, o.code == LIST ? "" : name, 0, {}, {}, {}, sim_event (), UINT64_MAX });
      size_t h = T->hist.size () - 1;
      T->cur[sim_self ()] = h;
      int res = 0; std::set<std::string> set; iot_data_t * keep = nullptr;
      switch (o.code)
      {
        case FIND:
        {
          iot_component_t * c = iot_container_find_component (cont, name.c_str ());
          if (c) { I * i = of (c); res = i->inst; SIM_CHECK (i->name == name, "wrong-component", "looking up %s gave %s", name.c_str (), i->name.c_str ()); }
          break;
        }
        case READ: keep = iot_container_component_read (cont, name.c_str ()); res = keep != nullptr; break;
        case LIST:
        {
          res = (int) o.a;
          keep = iot_container_list_components (cont, o.a == 0 ? nullptr : o.a == 1 ? IOT_CATEGORY_USER : IOT_CATEGORY_CORE);
          break;
        }
        case ADD: iot_container_add_component (cont, ty (name), name.c_str (), text (name).c_str ()); break;
        case DELETE: iot_container_delete_component (cont, name.c_str ()); break;
        case START: iot_container_start (cont); break;
        case STOP: iot_container_stop (cont); break;
      }
      T->cur.erase (sim_self ());
      uint64_t ret = sim_event ();
      if (keep)
      {
        T->hist[h].ret = ret;
        sim_sleep ((uint64_t) o.b); // what was read stays valid whatever happens to the component
        if (o.code == READ) check_read (keep, name);
        else
        {
          iot_data_list_iter_t it; iot_data_list_iter (keep, &it);
          while (iot_data_list_iter_next (&it))
          {
            const iot_data_t * v = iot_data_list_iter_value (&it);
            const char * s = iot_data_string_map_get_string (v, "name");
            SIM_CHECK (s, "bad-listing", "a listed component has no name");
            std::string sn = s;
            check_read (v, sn);
            SIM_CHECK (set.insert (sn).second, "bad-listing", "component %s is listed twice", sn.c_str ());
          }
        }
        iot_data_free (keep);
      }
      H & x = T->hist[h]; x.res = res; x.list = set; x.ret = ret;
    }
  }));
  sim_join_all (ids);
  Linearizer<M, H> lin (T->hist);
  int r = lin.check (model);
  if (r < 0) sim_probe ("linearizability undecided");
  if (r == 0)
  {
    std::string s;
    for (auto & h : T->hist)
    {
      char b[200]; snprintf (b, sizeof b, "[%" PRIu64 "-%" PRIu64 "] %s %s=%d", h.call, h.ret, h.code == FIND ? "find" : h.code == READ ? "read" : h.code == LIST ? "list" : h.code == ADD ? "add" : h.code == DELETE ? "delete" : "other", h.name.c_str (), h.res);
      s += b;
      for (auto & c : h.created) s += " +" + c.first + "#" + std::to_string (c.second);
      for (auto f : h.freed) s += " -#" + std::to_string (f);
      for (auto & l : h.list) s += " " + l;
      s += "; ";
    }
    sim_fail ("not-linearizable", "no sequential order of the operations explains their results: %s", s.c_str ());
  }
  T->over = true;
  iot_container_free (cont);
  for (auto & i : T->insts) SIM_CHECK (i.freed == 1, "not-freed", "component %s (instance %d) was freed %d times", i.name.c_str (), i.inst, i.freed);
  sim_state (hmix (T->insts.size (), T->hist.size ()));
  check_no_leaks ("freeing the container");
}
SCENARIO (container_concurrent, "K03", gen, run, nullptr, 10, "dr");
}

// ================================================================== K04: reconfiguration
namespace k04
{
enum { RECONF, READ, SLEEP };
const int MAXC = 3, MAXV = 40, NKEY = 5;
struct Sh { int nc; struct { int nver; int op[MAXV]; int saved; int inflight; bool uncertain; } c[MAXC]; };
Sh * sh;
struct I { iot_component_t comp; int id; bool freed = false; };
struct V { uint64_t call, ret; };
struct S { std::deque<I> insts; std::vector<V> ver[MAXC]; bool accept[MAXC]; int saves[MAXC]; std::string expect[MAXC]; bool store; };
S * T;
const Plan * P;
std::string cname (int i) { return comp_name (i); }
std::string val (int64_t seed)
{
  uint64_t x = (uint64_t) seed * 0x9E3779B97F4A7C15ull; size_t l = (x >> 60) == 0 ? 2500 : (x >> 60) < 4 ? 300 : 6;
  if ((x >> 40 & 7) == 0) return std::to_string ((int64_t) (x >> 20 & 0xffff)); // a number
  if ((x >> 40 & 7) == 1) return (x & 1) ? "{\"a\":[1,2,{\"b\":\"c\"}],\"n\":" + std::to_string (x >> 50) + "}" : "[\"x\",true," + std::to_string (x >> 50) + "]";
  std::string s = "\"";
  for (size_t i = 0; i < l; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; s += (char) ('a' + (x >> 40) % 26); }
  return s + "\"";
}
std::string delta (const Op & o) // the change that operation asks for
{
  std::string s = "{"; int n = 1 + (int) (o.b % 3);
  std::set<int> done;
  for (int i = 0; i < n; i++) { int k = (int) ((o.b / 3 + i * 2) % NKEY); if (!done.insert (k).second) continue; s += (s.size () > 1 ? "," : "") + ("\"k" + std::to_string (k) + "\":") + val (o.b * 7 + i); }
  return s + "}";
}
std::string state (int c, int ver) // configuration of a component after its first ver accepted changes
{
  std::map<int, std::string> m; m[0] = "\"start" + std::to_string (c) + "\""; m[1] = "1";
  for (int v = 0; v < ver; v++)
  {
    const Op & o = P->ops[(size_t) sh->c[c].op[v]];
    int n = 1 + (int) (o.b % 3); std::set<int> done;
    for (int i = 0; i < n; i++) { int k = (int) ((o.b / 3 + i * 2) % NKEY); if (done.insert (k).second) m[k] = val (o.b * 7 + i); }
  }
  std::string s = "{\"id\":" + std::to_string (c);
  for (auto & x : m) s += ",\"k" + std::to_string (x.first) + "\":" + x.second;
  return s + "}";
}
bool equals (const iot_data_t * d, const std::string & js)
{
  iot_data_t * w = iot_data_from_json (js.c_str ());
  bool r = iot_data_equal (d, w);
  iot_data_free (w);
  return r;
}
void start (iot_component_t * c) { iot_component_set_running (c); }
void stop (iot_component_t * c) { iot_component_set_stopped (c); }
void free_fn (iot_component_t * c) { iot_component_fini (c); }
bool reconf (iot_component_t * c, iot_container_t *, const iot_data_t * map)
{
  I * i = (I *) c;
  SIM_CHECK (map, "bad-map", "a component was reconfigured with nothing");
  sim_yield ();
  return T->accept[i->id];
}
extern iot_component_factory_t fac;
iot_component_t * config (iot_container_t *, const iot_data_t * map)
{
  T->insts.emplace_back (); I & i = T->insts.back ();
  memset (&i.comp, 0, sizeof (i.comp)); i.id = (int) geti (map, "id", -1);
  SIM_CHECK (i.id >= 0 && i.id < MAXC, "wrong-config", "a component was created with a configuration that is not its own");
  iot_component_init (&i.comp, &fac, start, stop);
  return &i.comp;
}
iot_component_factory_t fac = { "HC", IOT_CATEGORY_USER, config, free_fn, reconf, nullptr };
bool save (const char * name, const char * uri, const char * text)
{
  int c = name ? comp_id (name) : -1;
  SIM_CHECK (c >= 0 && c < MAXC && uri && strcmp (uri, "conf") == 0, "wrong-save", "a configuration was saved under the name %s and location %s", name ? name : "(null)", uri ? uri : "(null)");
  SIM_CHECK (T->saves[c] == 0 && T->accept[c] && sh->c[c].inflight, "wrong-save", "the configuration of %s was saved although %s", name, T->accept[c] ? "it had been saved already" : "the change had been rejected");
  T->saves[c]++;
  iot_data_t * d = iot_data_from_json (text);
  bool same = d && equals (d, T->expect[c]);
  iot_data_free (d);
  SIM_CHECK (same, "wrong-save", "%s was saved as %.60s..., expected %.60s...", name, text, T->expect[c].c_str ());
  bool r = iot_store_config_save (name, uri, text);
  if (r) sh->c[c].saved = sh->c[c].inflight;
  return r;
}
const iot_container_config_t file_config = { iot_store_config_load, "conf", save };
const iot_container_config_t nosave_config = { iot_store_config_load, "conf", nullptr };
// knobs: 1 components, 2 readers, 3 mode (0 file store, 1 no configuration at all, 2 no save function), 4 crash, 5 I/O errors
void gen (Rng & r, Plan & p)
{
  int nc = 1 + (int) r.below (MAXC), nr = (int) r.below (3), mode = r.chance (0.8) ? 0 : 1 + (int) r.below (2);
  p.knobs.resize (1);
  p.knobs.push_back (nc); p.knobs.push_back (nr); p.knobs.push_back (mode); p.knobs.push_back (mode ? 0 : (int64_t) r.pick ({ 0, 0, 1, 2, 3 })); p.knobs.push_back (mode == 0 && r.chance (0.35)); gen_names (r, p);
  int n = 2 + (int) r.below (12);
  for (int i = 0; i < n; i++)
  {
    int c = (int) r.below ((uint64_t) nc);
    if (nr && r.chance (0.4)) p.ops.push_back ({ nc + (int) r.below ((uint64_t) nr), READ, c, (int64_t) r.logrange (US, 2 * MS), 0 });
    else if (r.chance (0.15)) p.ops.push_back ({ c, SLEEP, 0, (int64_t) r.logrange (US, 2 * MS), 0 });
    else p.ops.push_back ({ c, RECONF, c, (int64_t) r.below (100000), r.chance (0.75) });
  }
}
void check_saved (const char * when, bool power)
{
  for (auto & i : T->insts)
  {
    auto & x = sh->c[i.id];
    iot_data_t * d = iot_component_read (&i.comp);
    const iot_data_t * c = iot_data_string_map_get (d, "config");
    int got = -1;
    for (int v = 0; v <= x.nver; v++) if (equals (c, state (i.id, v))) { got = v; if (v == x.saved || v == x.inflight) break; }
    SIM_CHECK (got >= 0, "mixed-config", "%s component %d has a configuration it never had", when, i.id);
    if (!power) SIM_CHECK (got == x.saved || (x.inflight && got == x.inflight) || equals (c, state (i.id, x.saved)), "lost-config", "%s component %d has version %d of its configuration, version %d was saved last", when, i.id, got, x.saved);
    iot_data_free (d);
  }
}
void restart (const char * when, bool power)
{
  T->insts.clear ();
  iot_container_config (&file_config);
  iot_container_t * cont = iot_container_alloc ("main");
  SIM_CHECK (iot_container_init (cont), "init-failed", "%s the container cannot be initialised", when);
  SIM_CHECK ((int) T->insts.size () == sh->nc, "not-created", "%s %zu of %d components can be created from storage", when, T->insts.size (), sh->nc);
  check_saved (when, power);
  iot_container_free (cont);
}
void run (const Plan & p)
{
  P = &p; use_names (p); T = new S; memset (T->saves, 0, sizeof T->saves); memset (T->accept, 0, sizeof T->accept);
  sh = (Sh *) sim_shared_area (sizeof (Sh)); memset (sh, 0, sizeof (*sh));
  int nc = (int) std::min<int64_t> (MAXC, std::max<int64_t> (1, p.k (1))), na = nc + (int) p.k (2), mode = (int) p.k (3);
  sh->nc = nc; T->store = mode == 0;
  fs_mkdir ("conf");
  std::string top = "{";
  for (int c = 0; c < nc; c++)
  {
    if (mode == 0 || mode == 2) fs_put (("conf/" + cname (c) + ".json").c_str (), state (c, 0));
    top += (c ? "," : "") + ("\"" + cname (c) + "\":\"HC\"");
    T->ver[c].push_back ({ 0, 0 });
  }
  if (mode == 0 || mode == 2) fs_put ("conf/main.json", top + "}");
  sim_heap_mark ();
  iot_component_factory_add (&fac);
  iot_container_t * cont = iot_container_alloc ("main");
  if (mode == 1) for (int c = 0; c < nc; c++) iot_container_add_component (cont, "HC", cname (c).c_str (), state (c, 0).c_str ());
  else { iot_container_config (mode ? &nosave_config : &file_config); SIM_CHECK (iot_container_init (cont), "init-failed", "initialising the container failed"); }
  SIM_CHECK ((int) T->insts.size () == nc, "not-created", "%zu of %d components were created", T->insts.size (), nc);
  std::vector<iot_component_t *> comp;
  for (int c = 0; c < nc; c++) { iot_component_t * f = iot_container_find_component (cont, cname (c).c_str ()); SIM_CHECK (f && ((I *) f)->id == c, "not-found", "component %d is not found", c); comp.push_back (f); }
  bool errors = p.k (5);
  if (errors) for (int k : { FK_OPEN_FAIL, FK_WRITE_ENOSPC, FK_WRITE_EIO, FK_CLOSE_FAIL, FK_RENAME_FAIL, FK_FSYNC_FAIL }) sim_conf.fault_p[k] = 0.08; // not FK_REMOVE_FAIL: a temporary file that cannot be removed stays
  sim_conf.fault_p[FK_WRITE_SHORT] = 0.1; sim_conf.fault_p[FK_IO_DELAY] = 0.1;
  int cm = (int) p.k (4);
  if (cm & 1) sim_conf.fault_p[FK_CRASH] = 0.02;
  if (cm & 2) sim_conf.fault_p[FK_POWERLOSS] = 0.02;
  sim_enable_crash (cm != 0);
  std::vector<int> ids;
  for (int a = 0; a < na; a++) ids.push_back (sim_spawn (a < nc ? "owner" : "reader", [&, a]
  {
    for (size_t n = 0; n < p.ops.size (); n++)
    {
      const Op & o = p.ops[n];
      if (o.actor != a) continue;
      if (o.code == SLEEP) { sim_sleep ((uint64_t) o.b); continue; }
      int c = (int) o.a;
      if (c >= nc) continue;
      if (o.code == READ)
      {
        uint64_t call = sim_event ();
        iot_data_t * d = iot_container_component_read (cont, cname (c).c_str ());
        uint64_t ret = sim_event ();
        SIM_CHECK (d, "not-found", "component %d cannot be read", c);
        sim_sleep ((uint64_t) o.b);
        const iot_data_t * m = iot_data_string_map_get (d, "config");
        size_t lo = 0; bool ok = false;
        for (size_t v = 0; v < T->ver[c].size (); v++) if (T->ver[c][v].ret < call) lo = v;
        for (size_t v = lo; v < T->ver[c].size () && !ok; v++) if (T->ver[c][v].call < ret || v == 0) ok = equals (m, state (c, (int) v));
        SIM_CHECK (ok, "mixed-config", "a reader saw a configuration that component %d did not have at the time", c);
        iot_data_free (d);
        continue;
      }
      if (a >= nc || c != a || sh->c[c].nver >= MAXV - 1) continue;
      auto & x = sh->c[c];
      std::string ds = delta (o);
      iot_data_t * d = iot_data_from_json (ds.c_str ());
      T->accept[c] = o.c != 0; T->saves[c] = 0;
      int ver = x.nver;
      if (o.c) { x.op[x.nver] = (int) n; ver = x.nver + 1; T->expect[c] = state (c, ver); x.inflight = ver; x.nver = ver; T->ver[c].push_back ({ sim_event (), UINT64_MAX }); }
      bool r = iot_component_reconfig (comp[(size_t) c], cont, d);
      iot_data_free (d);
      SIM_CHECK (r == (o.c != 0), "wrong-result", "a reconfiguration that was %s returned %d", o.c ? "accepted" : "rejected", r);
      if (o.c) T->ver[c].back ().ret = sim_event ();
      SIM_CHECK (T->saves[c] == (o.c && mode == 0 ? 1 : 0), "wrong-save", "a reconfiguration that was %s was saved %d times", o.c ? "accepted" : "rejected", T->saves[c]);
      x.inflight = 0;
      iot_data_t * now = iot_component_read (comp[(size_t) c]);
      SIM_CHECK (equals (iot_data_string_map_get (now, "config"), state (c, ver)), "wrong-config", "after a reconfiguration that was %s component %d does not have the configuration expected", o.c ? "accepted" : "rejected", c);
      iot_data_free (now);
    }
  }));
  sim_join_all (ids);
  sim_enable_crash (false);
  sim_quiesce_faults ();
  iot_container_free (cont);
  if (mode == 0) restart ("after a restart", false);
  for (auto & f : fs_list ("conf")) SIM_CHECK (f.find (".json") == f.size () - 5, "stray-file", "the store is left with a file named %s", f.c_str ());
  uint64_t h = 0; for (int c = 0; c < nc; c++) h = hmix (h, (uint64_t) sh->c[c].saved);
  sim_state (h);
  check_no_leaks ("reconfiguring");
}
void recover (const Plan & p)
{
  P = &p; use_names (p); T = new S; sh = (Sh *) sim_shared_area (sizeof (Sh));
  iot_component_factory_add (&fac);
  restart ("after a crash", (p.k (4) & 2) != 0);
  sim_probe ("restarted from storage after a crash");
}
SCENARIO (container_reconfig, "K04", gen, run, recover, 10, "dr");
}

// ================================================================== K04: several threads changing one component
namespace k04b
{
enum { RECONF, READ, SLEEP, ALL };
const int MAXA = 4;
struct S { iot_component_t comp; int started[MAXA], done[MAXA], saves[MAXA]; std::map<int, std::pair<int, std::array<int, MAXA>>> cur; bool savefail; };
S * T;
void start (iot_component_t * c) { iot_component_set_running (c); }
void stop (iot_component_t * c) { iot_component_set_stopped (c); }
void free_fn (iot_component_t * c) { iot_component_fini (c); }
bool reconf (iot_component_t *, iot_container_t *, const iot_data_t *) { sim_yield (); return true; }
extern iot_component_factory_t fac;
iot_component_t * config (iot_container_t *, const iot_data_t *) { iot_component_init (&T->comp, &fac, start, stop); return &T->comp; }
iot_component_factory_t fac = { "HT", IOT_CATEGORY_USER, config, free_fn, reconf, nullptr };
// each thread's pair of keys always changes together, to its next number
void judge (const iot_data_t * m, const char * what, const std::array<int, MAXA> & low, int own, int ownval)
{
  for (int a = 0; a < MAXA; a++)
  {
    int64_t k = geti (m, ("k" + std::to_string (a)).c_str (), -1), l = geti (m, ("l" + std::to_string (a)).c_str (), -1);
    SIM_CHECK (k == l, "mixed-config", "%s: a change of two settings by thread %d is half there (%" PRId64 " and %" PRId64 ")", what, a, k, l);
    SIM_CHECK (k >= low[(size_t) a] && k <= T->started[a], "wrong-config", "%s: change %" PRId64 " of thread %d, which had completed %d and started %d", what, k, a, low[(size_t) a], T->started[a]);
    if (a == own) SIM_CHECK (k == ownval, "wrong-save", "%s: the change being saved is not in it", what);
  }
  SIM_CHECK (geti (m, "id", -1) == 7, "lost-config", "%s: what no change touched is gone", what);
}
bool save (const char * name, const char *, const char * text)
{
  auto it = T->cur.find (sim_self ());
  SIM_CHECK (it != T->cur.end () && name && comp_name (0) == name, "wrong-save", "a configuration was saved although nothing had changed");
  int a = it->second.first;
  T->saves[a]++;
  std::string copy = text;
  sim_yield ();
  SIM_CHECK (copy == text, "mixed-config", "the text being saved changed meanwhile");
  iot_data_t * d = iot_data_from_json (copy.c_str ());
  SIM_CHECK (d, "wrong-save", "what is saved is not a configuration: %.60s", copy.c_str ());
  judge (d, "saving", it->second.second, a, T->started[a]);
  iot_data_free (d);
  return true;
}
const iot_container_config_t cfg = { mem_load, "conf", save };
void gen (Rng & r, Plan & p)
{
  int na = 2 + (int) r.below (MAXA - 1);
  p.knobs.resize (1);
  p.knobs.push_back (na); gen_names (r, p);
  int n = 3 + (int) r.below (14);
  for (int i = 0; i < n; i++)
  {
    int a = (int) r.below ((uint64_t) na), k = (int) r.below (10);
    p.ops.push_back ({ a, k < 6 ? RECONF : k < 8 ? READ : k < 9 ? ALL : SLEEP, 0, (int64_t) r.logrange (US, 2 * MS), 0 });
  }
}
void run (const Plan & p)
{
  use_names (p);
  T = new S; memset (T->started, 0, sizeof T->started); memset (T->done, 0, sizeof T->done); memset (T->saves, 0, sizeof T->saves); memset (&T->comp, 0, sizeof T->comp);
  g_conf = new std::map<std::string, std::string>; g_load_faults = false;
  int na = (int) std::min<int64_t> (MAXA, std::max<int64_t> (1, p.k (1)));
  sim_heap_mark ();
  iot_component_factory_add (&fac);
  iot_container_config (&cfg);
  iot_container_t * cont = iot_container_alloc ("main");
  std::string t = "{\"id\":7";
  for (int a = 0; a < MAXA; a++) for (const char * k : { "k", "l" }) t += ",\"" + (k + std::to_string (a)) + "\":0";
  iot_container_add_component (cont, "HT", comp_name (0).c_str (), (t + "}").c_str ());
  std::vector<int> ids;
  auto completed = [] { std::array<int, MAXA> l; for (size_t a = 0; a < MAXA; a++) l[a] = T->done[a]; return l; };
  for (int a = 0; a < na; a++) ids.push_back (sim_spawn ("user", [&, a]
  {
    for (auto & o : p.ops)
    {
      if (o.actor != a) continue;
      auto low = completed ();
      switch (o.code)
      {
        case RECONF:
        {
          int v = T->done[a] + 1, before = T->saves[a];
          iot_data_t * d = iot_data_from_json (("{\"k" + std::to_string (a) + "\":" + std::to_string (v) + ",\"l" + std::to_string (a) + "\":" + std::to_string (v) + "}").c_str ());
          T->started[a] = v;
          T->cur[sim_self ()] = { a, completed () };
          bool r = iot_component_reconfig (&T->comp, cont, d);
          T->done[a] = v;
          T->cur.erase (sim_self ());
          iot_data_free (d);
          SIM_CHECK (r, "wrong-result", "an accepted reconfiguration returned false");
          SIM_CHECK (T->saves[a] == before + 1, "wrong-save", "an accepted reconfiguration was saved %d times", T->saves[a] - before);
          break;
        }
        case READ:
        {
          iot_data_t * d = iot_container_component_read (cont, comp_name (0).c_str ());
          SIM_CHECK (d, "not-found", "the component cannot be read");
          std::array<int, MAXA> lo = low;
          judge (iot_data_string_map_get (d, "config"), "reading", lo, -1, 0);
          sim_sleep ((uint64_t) o.b);
          judge (iot_data_string_map_get (d, "config"), "reading again", lo, -1, 0);
          iot_data_free (d);
          break;
        }
        case ALL: { iot_data_t * l = iot_container_list_components (cont, nullptr); SIM_CHECK (iot_data_list_length (l) == 1, "bad-listing", "one component is listed as %u", iot_data_list_length (l)); iot_data_free (l); break; }
        default: sim_sleep ((uint64_t) o.b);
      }
    }
  }));
  sim_join_all (ids);
  iot_data_t * d = iot_component_read (&T->comp);
  judge (iot_data_string_map_get (d, "config"), "in the end", completed (), -1, 0);
  iot_data_free (d);
  iot_container_free (cont);
  uint64_t h = 0; for (int x : T->saves) h = hmix (h, (uint64_t) x);
  sim_state (h);
  check_no_leaks ("reconfiguring");
}
SCENARIO (container_reconfig_shared, "K04", gen, run, nullptr, 3, "dr");
}

// ================================================================== K05: several containers and the types they share
namespace k05
{
enum { COMP, INIT, FIND, ADD, LIST, REG, LOOK, SLEEP, CYCLE };
enum { T_SHARED, T_DYN, T_OWN, T_UNKNOWN, NTYPE };
enum { D_OK, D_ENV, D_UNSET };
const int NC = 3, NSHARED = 3, NOWN = 4, MAXG = NSHARED + NC * NOWN, ADDED = 40; // components 0 .. NSHARED - 1 are configured in every container
struct I { iot_component_t comp; int g, cont; bool freed = false; };
struct D { bool there = false; int type = 0, damage = 0; std::string text, tname; };
struct S { D d[128]; std::deque<I> insts; iot_container_t * cont[NC] = {}; };
S * T;
std::string lib (int g) { return "lib" + std::to_string (g) + ".so"; }
void start (iot_component_t * c) { iot_component_set_running (c); }
void stop (iot_component_t * c) { iot_component_set_stopped (c); }
void free_fn (iot_component_t * c)
{
  for (auto & i : T->insts) if (&i.comp == c)
  {
    SIM_CHECK (!i.freed, "double-free", "component %d of container %d was freed twice", i.g, i.cont);
    i.freed = true; sim_yield (); iot_component_fini (c); return;
  }
  sim_fail ("unknown-component", "a component that was never created was freed");
}
bool in (int cont, int g) { return g < NSHARED || g >= ADDED || (g - NSHARED) / NOWN == cont; }
int index_of (iot_container_t * c) { for (int i = 0; i < NC; i++) if (T->cont[i] == c) return i; sim_fail ("unknown-container", "a component was created for a container that does not exist"); }
extern iot_component_factory_t facs[64];
iot_component_t * make (int f, iot_container_t * cont, const iot_data_t * map)
{
  int k = index_of (cont), g = (int) geti (map, "id", -1);
  SIM_CHECK (g >= 0 && g < 128 && T->d[g].there && in (k, g), "wrong-config", "container %d created a component with a configuration that is not its own", k);
  D & d = T->d[g];
  SIM_CHECK (d.damage != D_UNSET && d.type != T_UNKNOWN, "created-invalid", "component %d was created although it is not valid", g);
  SIM_CHECK (d.tname == facs[f].type, "wrong-type", "component %d of type %s was created as one of type %s", g, d.tname.c_str (), facs[f].type);
  if (d.type == T_DYN) SIM_CHECK (sim_lib_opens (lib (g).c_str ()) > 0, "library-closed", "component %d was created after the library it comes from had been closed", g);
  iot_data_t * want = iot_data_from_json (d.text.c_str ());
  bool same = iot_data_equal (want, map);
  iot_data_free (want);
  SIM_CHECK (same, "wrong-config", "component %d of container %d was created with a configuration other than its own after substitution", g, k);
  sim_yield ();
  for (auto & i : T->insts) SIM_CHECK (i.cont != k || i.g != g, "duplicate", "component %d of container %d was created twice", g, k);
  T->insts.emplace_back (); I & i = T->insts.back ();
  memset (&i.comp, 0, sizeof (i.comp)); i.g = g; i.cont = k;
  iot_component_init (&i.comp, &facs[f], start, stop);
  return &i.comp;
}
template <int N> iot_component_t * config (iot_container_t * c, const iot_data_t * m) { return make (N, c, m); }
template <int N> const iot_component_factory_t * fac () { return &facs[N]; }
// 0 the shared type, 1 .. 3 registered by anyone, 4 .. for the component g in a library, 30 .. registered by a container itself
iot_component_factory_t facs[64] = {
#define F1(n) { "M" #n, IOT_CATEGORY_USER, config<n>, free_fn, nullptr, nullptr }
#define F4(a, b, c, d) F1 (a), F1 (b), F1 (c), F1 (d)
  F4 (0, 1, 2, 3), F4 (4, 5, 6, 7), F4 (8, 9, 10, 11), F4 (12, 13, 14, 15), F4 (16, 17, 18, 19), F4 (20, 21, 22, 23), F4 (24, 25, 26, 27), F4 (28, 29, 30, 31),
  F4 (32, 33, 34, 35), F4 (36, 37, 38, 39), F4 (40, 41, 42, 43), F4 (44, 45, 46, 47), F4 (48, 49, 50, 51), F4 (52, 53, 54, 55), F4 (56, 57, 58, 59), F4 (60, 61, 62, 63) };
// knobs: 1 containers, last names
// COMP a: global number, b: type, c: damage; REG a: 0 .. 3 shared type, 4 one of its own; LOOK a: type
void gen (Rng & r, Plan & p)
{
  int nc = 2 + (int) r.below (NC - 1);
  p.knobs.resize (1);
  p.knobs.push_back (nc); gen_names (r, p);
  for (int g = 0; g < NSHARED + nc * NOWN; g++) if (r.chance (0.6))
    p.ops.push_back ({ 0, COMP, g, (int64_t) r.pick<int> ({ T_SHARED, T_SHARED, T_DYN, T_DYN, T_OWN, T_UNKNOWN }), (int64_t) r.pick<int> ({ D_OK, D_ENV, D_ENV, D_ENV, D_UNSET }) });
  for (int c = 0; c < nc; c++)
  {
    if (r.chance (0.5)) p.ops.push_back ({ c, INIT, 0, 0, 0 });
    int n = (int) r.below (7);
    for (int i = 0; i < n; i++)
    {
      int k = (int) r.below (12);
      if (k < 3) p.ops.push_back ({ c, FIND, r.chance (0.5) ? (int64_t) r.below (NSHARED) : (int64_t) r.below ((uint64_t) (NSHARED + nc * NOWN)), 0, 0 });
      else if (k < 5) p.ops.push_back ({ c, ADD, i, (int64_t) r.below (3), r.chance (0.5) });
      else if (k < 6) p.ops.push_back ({ c, LIST, 0, 0, 0 });
      else if (k < 9) p.ops.push_back ({ c, REG, (int64_t) r.below (5), 0, 0 });
      else if (k < 10) p.ops.push_back ({ c, LOOK, (int64_t) r.below (5), 0, 0 });
      else if (k < 11) p.ops.push_back ({ c, SLEEP, 0, (int64_t) r.logrange (US, 2 * MS), 0 });
      else p.ops.push_back ({ c, CYCLE, 0, 0, 0 });
    }
  }
}
I * find (iot_component_t * c) { for (auto & i : T->insts) if (&i.comp == c) return &i; return nullptr; }
void run (const Plan & p)
{
  use_names (p);
  T = new S; g_conf = new std::map<std::string, std::string>; g_load_faults = false;
  int nc = (int) std::min<int64_t> (NC, std::max<int64_t> (1, p.k (1)));
  sim_heap_mark ();
  iot_component_factory_add (&facs[0]);
  const iot_component_factory_t * (* fn[]) () = { fac<4>, fac<5>, fac<6>, fac<7>, fac<8>, fac<9>, fac<10>, fac<11>, fac<12>, fac<13>, fac<14>, fac<15>, fac<16>, fac<17>, fac<18> };
  static_assert (sizeof (fn) / sizeof (fn[0]) == MAXG, "one for each");
  auto define = [&] (int g, int type, int damage)
  {
    D & d = T->d[g]; d.there = true; d.type = type; d.damage = damage;
    d.tname = facs[type == T_DYN ? 4 + g : type == T_OWN ? 30 + (g < NSHARED ? 0 : (g - NSHARED) / NOWN) : 0].type;
    if (type == T_OWN && g < NSHARED) d.tname = facs[1 + g].type; // one of the types anyone may register: see before ()
    if (type == T_UNKNOWN) d.tname = "Nothing";
    std::string pre = "{\"id\":" + std::to_string (g), var = "V_" + std::to_string (g * 7919 % 1000) + std::string ((size_t) g % 40, 'v') + std::to_string (g), value = "value " + std::to_string (g) + std::string ((size_t) (g * 13 % 50), 'w'), raw;
    if (damage != D_UNSET) sim_setenv (var.c_str (), value.c_str ()); else sim_fault_count (FK_ENV_UNSET);
    if (type == T_DYN) { pre += ",\"Library\":\"" + lib (g) + "\",\"Factory\":\"factory\""; sim_add_library (lib (g).c_str (), "factory", (void *) fn[g]); }
    raw = pre + ",\"val\":\"" + (damage ? "<${" + var + "}>" : "plain") + "\"}";
    d.text = pre + ",\"val\":\"" + (damage ? "<" + value + ">" : "plain") + "\"}";
    return raw;
  };
  std::vector<std::string> top ((size_t) nc, "{");
  for (auto & o : p.ops) if (o.code == COMP && o.a < NSHARED + nc * NOWN && !T->d[o.a].there)
  {
    int g = (int) o.a;
    (*g_conf)[comp_name (g)] = define (g, (int) (o.b % NTYPE), (int) (o.c % 3));
    for (int c = 0; c < nc; c++) if (in (c, g)) top[(size_t) c] += (top[(size_t) c].size () > 1 ? "," : "") + ("\"" + comp_name (g) + "\":\"" + T->d[g].tname + "\"");
  }
  for (int c = 0; c < nc; c++) { (*g_conf)["main" + std::to_string (c)] = top[(size_t) c] + "}"; T->cont[c] = iot_container_alloc (("main" + std::to_string (c)).c_str ()); }
  iot_container_config (&mem_config);
  std::vector<int> ids;
  std::vector<std::set<int>> added ((size_t) nc);
  for (int c = 0; c < nc; c++) ids.push_back (sim_spawn ("container", [&, c]
  {
    iot_container_t * cont = T->cont[c];
    auto before = [&] // the types its components have: its own, and those that several containers register
    {
      for (int g = 0; g < NSHARED; g++) if (T->d[g].there && T->d[g].type == T_OWN) iot_component_factory_add (&facs[1 + g]);
      iot_component_factory_add (&facs[30 + c]);
    };
    before ();
    for (auto & o : p.ops)
    {
      if (o.actor != c || o.code == COMP) continue;
      switch (o.code)
      {
        case INIT: SIM_CHECK (iot_container_init (cont), "init-failed", "initialising container %d failed", c); break;
        case FIND:
        {
          int g = (int) o.a;
          iot_component_t * x = iot_container_find_component (cont, comp_name (g).c_str ());
          I * i = x ? find (x) : nullptr;
          SIM_CHECK (!x || (i && i->g == g && i->cont == c), "wrong-component", "looking component %d up in container %d gave something else", g, c);
          D & d = T->d[g];
          if (d.there && in (c, g) && d.damage != D_UNSET && (d.type == T_SHARED || d.type == T_OWN)) SIM_CHECK (x, "not-found", "component %d was not found in container %d", g, c);
          if (!d.there || !in (c, g)) SIM_CHECK (!x, "wrong-component", "component %d was found in container %d, where it does not belong", g, c);
          break;
        }
        case ADD:
        {
          int g = ADDED + c * 16 + (int) o.a % 16;
          if (!added[(size_t) c].insert (g).second) break;
          std::string raw = define (g, T_SHARED, (int) (o.b % 3));
          if (o.c) T->d[g].tname = facs[30 + c].type; // its own type
          iot_container_add_component (cont, T->d[g].tname.c_str (), comp_name (g).c_str (), raw.c_str ());
          break;
        }
        case LIST: iot_data_free (iot_container_list_components (cont, nullptr)); break;
        case REG: iot_component_factory_add (&facs[o.a % 5 == 4 ? 30 + c : o.a % 5]); break;
        case LOOK:
        {
          const char * t = o.a % 5 == 4 ? facs[30 + c].type : o.a % 5 == 3 ? "Nothing" : facs[o.a % 5].type;
          const iot_component_factory_t * f = iot_component_factory_find (t);
          SIM_CHECK (!f || strcmp (f->type, t) == 0, "wrong-type", "looking up type %s gave type %s", t, f->type);
          if (o.a % 5 == 4) SIM_CHECK (f == &facs[30 + c], "type-lost", "type %s is not found although it was registered", t);
          if (o.a % 5 == 0) SIM_CHECK (f == &facs[0], "type-lost", "type %s is not found although it was registered", t);
          if (o.a % 5 == 3) SIM_CHECK (!f, "wrong-type", "a type nobody registered was found");
          break;
        }
        case SLEEP: sim_sleep ((uint64_t) o.b); break;
        case CYCLE: iot_container_start (cont); iot_container_stop (cont); break;
        default: break;
      }
    }
    SIM_CHECK (iot_container_init (cont), "init-failed", "initialising container %d failed", c);
    // exactly what belongs to it, each listed once with its own configuration
    iot_data_t * list = iot_container_list_components (cont, nullptr);
    std::map<int, int> seen;
    iot_data_list_iter_t it; iot_data_list_iter (list, &it);
    while (iot_data_list_iter_next (&it))
    {
      const iot_data_t * m = iot_data_list_iter_value (&it);
      const char * n = iot_data_string_map_get_string (m, "name"), * ty = iot_data_string_map_get_string (m, "type");
      int g = n ? comp_id (n) : -1;
      SIM_CHECK (g >= 0 && T->d[g].there && in (c, g) && (g < ADDED || added[(size_t) c].count (g)), "bad-listing", "container %d lists a component %s", c, n ? n : "(none)");
      SIM_CHECK (ty && T->d[g].tname == ty, "bad-listing", "component %d of container %d is listed with type %s", g, c, ty ? ty : "(none)");
      iot_data_t * want = iot_data_from_json (T->d[g].text.c_str ());
      SIM_CHECK (iot_data_equal (want, iot_data_string_map_get (m, "config")), "wrong-config", "component %d of container %d is listed with a configuration other than its own", g, c);
      iot_data_free (want);
      seen[g]++;
    }
    iot_data_free (list);
    for (int g = 0; g < 128; g++)
    {
      D & d = T->d[g];
      bool want = d.there && (g < ADDED ? in (c, g) : added[(size_t) c].count (g) > 0) && d.damage != D_UNSET && d.type != T_UNKNOWN;
      SIM_CHECK (seen[g] == (want ? 1 : 0), want ? "not-created" : "created-invalid", "component %d exists %d times in container %d", g, seen[g], c);
    }
  }));
  sim_join_all (ids);
  // the registry holds every type that was registered, once each: the first of a name stays
  for (auto & i : T->insts) SIM_CHECK (iot_component_factory_find (i.comp.factory->type) == i.comp.factory, "type-lost", "type %s is no longer the one registered", i.comp.factory->type);
  SIM_CHECK (!iot_component_factory_find ("Nothing"), "wrong-type", "a type nobody registered was found");
  ids.clear ();
  for (int c = 0; c < nc; c++) ids.push_back (sim_spawn ("end", [&, c] { if (c & 1) { iot_container_start (T->cont[c]); iot_container_stop (T->cont[c]); } iot_container_free (T->cont[c]); }));
  sim_join_all (ids);
  for (auto & i : T->insts) SIM_CHECK (i.freed, "not-freed", "component %d of container %d was never freed", i.g, i.cont);
  sim_state (hmix (T->insts.size (), p.ops.size ()));
  check_no_leaks ("freeing the containers");
}
SCENARIO (container_several, "K05", gen, run, nullptr, 10, "dr");
}
}
