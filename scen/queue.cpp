// Shared queue: Q01 .. Q03
#include "common.h"
#include "iot/queue.h"

namespace
{
enum { OP_ENQ, OP_TENQ, OP_DEQ, OP_TDEQ, OP_SIZE, OP_MAX, OP_SETMAX, OP_STOP, OP_SLEEP };
enum { K_MAX = 1, K_ACTORS, K_END, K_SEED };

struct H { int code; int64_t arg; int64_t res; uint64_t call, ret; int actor; bool open; };
struct Q
{
  iot_queue_t * q = nullptr;
  std::vector<H> hist;
  std::vector<iot_data_t *> els;       // element n is els[n]; the harness keeps a reference of its own
  std::vector<int> got;                // how often element n came out
  std::vector<int> where;              // actor: index of the operation it is in, -1 idle
  std::vector<bool> sleeping; uint64_t naps = 0;
  bool stop_called = false; uint64_t stop_ret = 0;
};
Q * T;

size_t begin (int actor, int code, int64_t arg)
{
  T->hist.push_back ({ code, arg, 0, sim_event (), 0, actor, true });
  T->where[(size_t) actor] = (int) T->hist.size () - 1;
  return T->hist.size () - 1;
}
void finish (size_t i, int64_t res)
{
  H & h = T->hist[i];
  h.res = res; h.open = false; h.ret = sim_event ();
  T->where[(size_t) h.actor] = -1;
}
int64_t element_of (iot_data_t * d)
{
  if (!d) return -1;
  for (size_t i = 0; i < T->els.size (); i++) if (T->els[i] == d)
  {
    SIM_CHECK (iot_data_ui32 (d) == i, "element-damaged", "element %d holds %u", (int) i, iot_data_ui32 (d));
    T->got[i]++;
    SIM_CHECK (T->got[i] == 1, "element-twice", "element %d came out of the queue twice", (int) i);
    iot_data_free (d);
    return (int64_t) i;
  }
  sim_fail ("element-unknown", "an element came out of the queue that was never put in");
}
iot_data_t * new_element (int64_t & id)
{
  id = (int64_t) T->els.size ();
  T->els.push_back (nullptr); T->got.push_back (0);
  iot_data_t * d = iot_data_alloc_ui32 ((uint32_t) id);
  iot_data_add_ref (d);
  T->els[(size_t) id] = d;
  return d;
}

void step (int a, const Op & o)
{
  size_t i;
  switch (o.code)
  {
    case OP_ENQ: { int64_t id; iot_data_t * d = new_element (id); i = begin (a, OP_ENQ, id); iot_queue_enqueue (T->q, d); finish (i, 0); break; }
    case OP_TENQ:
    {
      int64_t id; iot_data_t * d = new_element (id);
      i = begin (a, OP_TENQ, id);
      bool ok = iot_queue_try_enqueue (T->q, d);
      finish (i, ok);
      if (!ok) { sim_probe ("try_enqueue_refused"); iot_data_free (d); }
      break;
    }
    case OP_DEQ: { i = begin (a, OP_DEQ, 0); iot_data_t * d = iot_queue_dequeue (T->q); finish (i, -2); int64_t e = element_of (d); T->hist[i].res = e; break; }
    case OP_TDEQ: { i = begin (a, OP_TDEQ, 0); iot_data_t * d = iot_queue_try_dequeue (T->q); finish (i, -2); int64_t e = element_of (d); T->hist[i].res = e; break; }
    case OP_SIZE: { i = begin (a, OP_SIZE, 0); uint32_t n = iot_queue_size (T->q); finish (i, n); break; }
    case OP_MAX: { i = begin (a, OP_MAX, 0); uint32_t n = iot_queue_maxsize (T->q); finish (i, n); break; }
    case OP_SETMAX: i = begin (a, OP_SETMAX, o.a); iot_queue_setmaxsize (T->q, (uint32_t) o.a); finish (i, 0); break;
    case OP_STOP: i = begin (a, OP_STOP, 0); T->stop_called = true; iot_queue_stop (T->q); finish (i, 0); if (!T->stop_ret) T->stop_ret = T->hist[i].ret; break;
    case OP_SLEEP: T->naps++; T->sleeping[(size_t) a] = true; sim_sleep ((uint64_t) o.b); T->sleeping[(size_t) a] = false; break;
  }
}

// ---- linearizability against a sequential bounded queue
struct Model
{
  std::vector<uint8_t> q; uint32_t max; bool stopped;
  uint64_t hash () const { uint64_t k = hmix (max, stopped); for (auto e : q) k = hmix (k, e + 1000u); return k; }
  bool apply (const H & h)
  {
    bool full = max && q.size () >= max;
    switch (h.code)
    {
      case OP_ENQ: if (!full) { q.push_back ((uint8_t) h.arg); return true; } return stopped;
      case OP_TENQ: if (full) return h.res == 0; if (h.res != 1) return false; q.push_back ((uint8_t) h.arg); return true;
      case OP_DEQ: if (q.empty ()) return stopped && h.res == -1; if (h.res != q.front ()) return false; q.erase (q.begin ()); return true;
      case OP_TDEQ: if (q.empty ()) return h.res == -1; if (h.res != q.front ()) return false; q.erase (q.begin ()); return true;
      case OP_SIZE: return h.res == (int64_t) q.size ();
      case OP_MAX: return h.res == (int64_t) max;
      case OP_SETMAX: max = (uint32_t) h.arg; return true;
      case OP_STOP: stopped = true; return true;
    }
    return true;
  }
};
const char * opname (int c) { static const char * n[] = { "enqueue", "try_enqueue", "dequeue", "try_dequeue", "size", "maxsize", "setmaxsize", "stop", "sleep" }; return n[c]; }

void check_linearizable (uint32_t max)
{
  std::vector<H> h = T->hist;   // in call order already
  for (auto & x : h) if (x.open) x.ret = UINT64_MAX;
  Linearizer<Model, H> l (h);
  int r = l.check (Model { {}, max, false });
  if (r < 0) { sim_probe ("linearization_search_too_long"); return; }
  sim_probe ("linearized");
  if (!r)
  {
    std::string s;
    for (auto & x : h)
    {
      char b[96];
      snprintf (b, sizeof (b), "[%llu,%llu a%d %s %lld -> %lld] ", (unsigned long long) x.call, (unsigned long long) x.ret, x.actor, opname (x.code), (long long) x.arg, (long long) x.res);
      s += b;
      if (s.size () > 1500) { s += "..."; break; }
    }
    sim_fail ("not-linearizable", "no sequential order of a bounded queue (initial limit %u) explains: %s", max, s.c_str ());
  }
}

// no actor may be blocked in an operation that could complete
void check_progress (const char * when)
{
  // until the actors have had time to get as far as they can, none of them taking a nap meanwhile
  for (uint64_t tries = 0; tries < 5000; tries++)
  {
    auto steady = [] { for (bool x : T->sleeping) if (x) return false; return true; };
    bool ok = steady ();
    uint64_t t0 = sim_now (), naps = T->naps;
    sim_sleep (ok ? 100 * MS : std::min<uint64_t> (50 + 50 * tries, 5000) * MS);
    for (int n = 0; ok && n < 200 && sim_idle_between (t0, sim_now ()) < 60 * MS; n++) sim_sleep (50 * MS);
    if (ok && steady () && T->naps == naps) break;
  }
  // main is the only one that changes anything now: what it sees stays true
  uint32_t size = iot_queue_size (T->q), max = iot_queue_maxsize (T->q);
  int be = 0, bd = 0;
  for (size_t a = 0; a < T->where.size (); a++)
  {
    int w = T->where[a];
    if (w < 0) continue;
    const H & h = T->hist[(size_t) w];
    if (h.code == OP_DEQ)
    {
      bd++;
      SIM_CHECK (size == 0, "dequeue-stuck", "%s: a dequeue is blocked although %u elements are queued", when, size);
      SIM_CHECK (!T->stop_ret, "dequeue-stuck", "%s: a dequeue is blocked although the queue was stopped", when);
    }
    else if (h.code == OP_ENQ)
    {
      be++;
      SIM_CHECK (max && size >= max, "enqueue-stuck", "%s: an enqueue is blocked although %u elements are queued, limit %u", when, size, max);
      SIM_CHECK (!T->stop_ret, "enqueue-stuck", "%s: an enqueue is blocked although the queue was stopped", when);
    }
    else sim_fail ("stuck", "%s: %s does not return", when, opname (h.code));
  }
  if (be > 1) sim_probe ("several_blocked_enqueues");
  if (bd > 1) sim_probe ("several_blocked_dequeues");
  if (be || bd) sim_probe ("judged_with_blocked");
  sim_state (hmix (hmix (size, max), (uint64_t) (be * 16 + bd)));
}

void run (const Plan & p)
{
  Q t; T = &t;
  sim_heap_mark ();
  int na = (int) p.k (K_ACTORS);
  uint32_t max0 = (uint32_t) p.k (K_MAX);
  t.where.assign ((size_t) na + 1, -1);
  t.sleeping.assign ((size_t) na + 1, false);
  t.q = iot_queue_alloc (max0);
  auto ops = by_actor (p, na + 1);
  std::vector<int> ids;
  for (int i = 0; i < na; i++)
  {
    std::vector<Op> o = ops[(size_t) i];
    ids.push_back (sim_spawn ("actor", [o, i] { for (auto & x : o) step (i, x); }));
  }
  auto all_done = [&] { for (int i : ids) if (!sim_done (i)) return false; return true; };
  check_progress ("after the operations");
  // further rounds: one operation of the main thread at a time
  for (auto & x : ops[(size_t) na])
  {
    if (all_done ()) break;
    step (na, x);
    check_progress ("after a further operation");
    sim_probe ("round");
  }
  if (p.k (K_END) & 1) // let everyone finish without a stop
  {
    for (int n = 0; n < 200 && !all_done (); n++)
    {
      int64_t enq = 0;
      for (size_t a = 0; a < t.where.size (); a++) if (t.where[a] >= 0 && t.hist[(size_t) t.where[a]].code == OP_ENQ) enq++;
      step (na, Op { na, enq ? OP_TDEQ : OP_TENQ, 0, 0, 0 });
      check_progress ("while draining");
    }
  }
  step (na, Op { na, OP_STOP, 0, 0, 0 });
  uint64_t naps = 0;
  for (auto & o : p.ops) if (o.code == OP_SLEEP) naps += (uint64_t) o.b;
  bool ok = sim_wait_until (all_done, 5 * SEC + naps + 2 * sim_conf.max_total_stall_ns);
  SIM_CHECK (ok, "stop-stuck", "an operation is still blocked after the queue was stopped");
  sim_join_all (ids);
  // nothing blocks any more
  if (p.k (K_END) & 2) { sim_probe ("enqueue_after_stop"); step (na, Op { na, OP_ENQ, 0, 0, 0 }); }
  uint32_t left = iot_queue_size (t.q);
  uint32_t drain = (p.k (K_END) & 4) ? (uint32_t) (p.k (K_SEED) % (left + 1)) : left + 1;
  for (uint32_t i = 0; i < drain; i++) step (na, Op { na, (i + (uint32_t) p.k (K_SEED)) & 1 ? OP_DEQ : OP_TDEQ, 0, 0, 0 });
  if (t.hist.size () <= 70) check_linearizable (max0);
  // conservation
  left = iot_queue_size (t.q);
  iot_queue_free (t.q);
  if (left) sim_probe ("freed_with_elements");
  std::vector<int> kind (t.els.size (), 0); // 1 refused, 2 enqueue that may have been abandoned
  for (auto & h : t.hist)
  {
    if (h.code == OP_TENQ && !h.res) kind[(size_t) h.arg] = 1;
    if (h.code == OP_ENQ && t.stop_called) kind[(size_t) h.arg] = 2;
  }
  uint32_t released = 0;
  for (size_t i = 0; i < t.els.size (); i++)
  {
    uint32_t rc = iot_data_ref_count (t.els[i]);
    if (t.got[i] || kind[i] == 1)
    {
      SIM_CHECK (!(t.got[i] && kind[i] == 1), "refused-came-out", "element %d was refused but came out of the queue", (int) i);
      SIM_CHECK (rc == 1, "element-references", "element %d has %u references left instead of 1", (int) i, rc);
    }
    else if (rc == 1) released++;
    else
    {
      SIM_CHECK (rc == 2 && kind[i] == 2, "element-lost", "element %d was neither handed out nor released when the queue was freed (%u references)", (int) i, rc);
      sim_probe ("abandoned_enqueue");
      iot_data_free (t.els[i]); // still the caller's
    }
    iot_data_free (t.els[i]);
  }
  SIM_CHECK (released == left, "conservation", "%u elements were released with the queue although it held %u", released, left);
  check_no_leaks ("queue");
}

struct Mix { int enq, tenq, deq, tdeq, size, max, setmax, stop, sleep; };
void gen_mix (Rng & r, Plan & p, Mix m, int nops, int rounds)
{
  int na = 2 + (int) r.below (5);
  p.knobs.resize (1);
  p.knobs.push_back (r.chance (0.15) ? 0 : 1 + (int64_t) r.below (r.chance (0.5) ? 2 : 5));
  p.knobs.push_back (na);
  p.knobs.push_back ((int64_t) r.below (8));
  p.knobs.push_back ((int64_t) r.below (1000));
  int tot = m.enq + m.tenq + m.deq + m.tdeq + m.size + m.max + m.setmax + m.stop + m.sleep;
  bool roles = r.chance (0.35);  // separate producers and consumers
  for (int i = 0; i < nops; i++)
  {
    int w[9] = { m.enq, m.tenq, m.deq, m.tdeq, m.size, m.max, m.setmax, m.stop, m.sleep };
    Op o; o.b = 0; o.c = 0;
    o.actor = (int) r.below ((uint64_t) na);
    int x = (int) r.below ((uint64_t) tot);
    for (o.code = 0; x >= w[o.code]; o.code++) x -= w[o.code];
    if (roles && o.code <= OP_TDEQ) { bool prod = o.actor % 2 == 0; if (prod && o.code >= OP_DEQ) o.code -= 2; else if (!prod && o.code <= OP_TENQ) o.code += 2; }
    o.a = r.chance (0.3) ? 0 : 1 + (int64_t) r.below (4);
    if (o.code == OP_SLEEP) o.b = (int64_t) r.logrange (100, r.chance (0.15) ? 60 * SEC : 30 * MS);
    p.ops.push_back (o);
  }
  for (int i = 0; i < rounds; i++)
  {
    Op o { na, (int) r.pick<int> ({ OP_TENQ, OP_TDEQ, OP_TDEQ, OP_TENQ, OP_SETMAX }), r.chance (0.3) ? 0 : 1 + (int64_t) r.below (6), 0, 0 };
    p.ops.push_back (o);
  }
}
void gen_q01 (Rng & r, Plan & p) { gen_mix (r, p, { 8, 6, 8, 6, 3, 1, 2, 0, 2 }, (int) r.logrange (4, 36), (int) r.below (3)); if (r.chance (0.15)) p.ops.push_back ({ 0, OP_STOP, 0, 0, 0 }); }
void gen_q02 (Rng & r, Plan & p) { gen_mix (r, p, { 10, 3, 8, 3, 0, 0, 3, 0, 2 }, (int) r.logrange (4, 40), (int) r.below (10)); p.knobs[K_END] |= r.chance (0.5); }
void gen_q03 (Rng & r, Plan & p)
{
  gen_mix (r, p, { 9, 2, 7, 2, 1, 0, 2, 1, 2 }, (int) r.logrange (4, 40), 0);
  p.knobs[K_END] = (int64_t) (r.below (4) << 1);
}
}

SCENARIO (q_linearizable, "Q01", gen_q01, run, nullptr, 1, "dr");
SCENARIO (q_progress, "Q02", gen_q02, run, nullptr, 1, "dr");
SCENARIO (q_stop, "Q03", gen_q03, run, nullptr, 1, "dr");
