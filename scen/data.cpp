// Shared data values: D01 .. D03
#include "common.h"
#include "iot/uuid.h"
#include <memory>
#include <math.h>

namespace
{
// ------------------------------------------------------------------ reference model: immutable value trees
enum Kind { K_I64, K_U32, K_I8, K_F64, K_BOOL, K_NULL, K_STR, K_PTR, K_BIN, K_ARR, K_VEC, K_LIST, K_MAP };
struct V; typedef std::shared_ptr<V> VP;
struct Leaf { int holders = 0; int freed = 0; int built = 0; };
struct V
{
  Kind k = K_NULL; int64_t n = 0; std::string s; int own = 0; int noise = 0; bool sk = false;   // sk: map whose keys are all strings
 
  std::vector<VP> items;                                   // VEC (may hold null), LIST (head first)
  std::map<std::string, std::pair<VP, VP>> map;            // MAP, by canonical key
  std::vector<std::pair<std::string, VP>> meta;
};
std::vector<Leaf> * leaves;

const char * const names[] = { "a", "b", "name", "type", "kk", "zeta", "x1", "long_key_name_that_needs_a_block_of_its_own_ok", "state",
                               "a key that is longer than any memory block so that it is copied to plain memory", "q", "r", "s", "t", "u", "v" };

std::string canon (const VP & k) { char b[32]; if (k->k == K_STR) return "s" + k->s; snprintf (b, sizeof b, "u%012lld", (long long) k->n); return b; }
std::string rndstr (Rng & r)
{
  size_t n;
  switch (r.below (6)) { case 0: n = r.below (3); break; case 1: n = 14 + r.below (4); break; case 2: n = 44 + r.below (8); break; case 3: n = 60 + r.below (200); break; default: n = r.below (12); }
  std::string s;
  for (size_t i = 0; i < n; i++) s += (r.chance (0.05) ? (char) "\"\\\n\t/%"[r.below (6)] : (char) ('a' + r.below (26)));
  return s;
}
VP mk (Kind k, int64_t n = 0) { VP v = std::make_shared<V> (); v->k = k; v->n = n; return v; }
VP mkstr (const std::string & s, int own) { VP v = mk (K_STR); v->s = s; v->own = own; return v; }
VP rndkey (Rng & r, bool sk = false) { return r.chance (0.75) || sk ? mkstr (names[r.below (16)], (int) r.below (3)) : mk (K_U32, (int64_t) r.below (8)); }

struct GenOpt { bool ptr, meta, noise; int depth; };
VP gen_value (Rng & r, const GenOpt & o, int depth)
{
  VP v;
  int c = (int) r.below (depth < o.depth ? 17 : 11);
  switch (c)
  {
    case 0: v = mk (K_I64, (int64_t) r.next () >> r.below (60)); break;
    case 1: v = mk (K_U32, (int64_t) (uint32_t) r.next ()); break;
    case 2: v = mk (K_F64, (int64_t) r.below (2000) - 1000); break;
    case 3: v = mk (K_BOOL, (int64_t) r.below (2)); break;
    case 4: v = mk (K_NULL); break;
    case 5: case 6: v = mkstr (rndstr (r), (int) r.below (3)); break;
    case 7: v = mk (K_I8, (int64_t) (int8_t) r.next ()); break;
    case 8: v = mk (r.chance (0.5) ? K_BIN : K_ARR); v->own = (int) r.below (3); { size_t n = 4 * r.below (r.chance (0.3) ? 40 : 6); for (size_t i = 0; i < n; i++) v->s += (char) r.next (); } break;
    case 9: case 10:
      if (!o.ptr) { v = mk (K_U32, (int64_t) r.below (5)); break; }
      v = mk (K_PTR, (int64_t) leaves->size ()); leaves->push_back (Leaf ()); break;
    case 11: case 12: { v = mk (K_VEC); size_t n = r.below (5); for (size_t i = 0; i < n; i++) v->items.push_back (r.chance (0.12) ? nullptr : gen_value (r, o, depth + 1)); break; }
    case 13: case 14: { v = mk (K_LIST); size_t n = r.below (5); for (size_t i = 0; i < n; i++) v->items.push_back (gen_value (r, o, depth + 1)); break; }
    default: { v = mk (K_MAP); size_t n = r.below (depth ? 6 : 12); for (size_t i = 0; i < n; i++) { VP k = rndkey (r); VP e = gen_value (r, o, depth + 1); v->map[canon (k)] = { k, e }; } break; }
  }
  if (o.noise && v->k >= K_VEC && r.chance (0.6)) v->noise = 1 + (int) r.below (3);
  if (o.meta && v->k != K_BOOL && v->k != K_NULL && r.chance (0.12))
  {
    size_t n = 1 + r.below (2);
    for (size_t i = 0; i < n; i++) v->meta.push_back ({ i ? "unit" : "origin", gen_value (r, o, std::max (depth + 1, o.depth)) });
  }
  return v;
}

void count_leaves (const VP & v, int d)
{
  if (!v) return;
  if (v->k == K_PTR) (*leaves)[(size_t) v->n].holders += d;
  for (auto & i : v->items) count_leaves (i, d);
  for (auto & m : v->map) count_leaves (m.second.second, d);
  for (auto & m : v->meta) count_leaves (m.second, d);
}
void hold (const VP & v) { count_leaves (v, 1); }
void drop (const VP & v) { count_leaves (v, -1); }

void leaf_free (void * p)
{
  size_t id = (size_t) ((uintptr_t) p - 0x1000) / 16;
  SIM_CHECK (id < leaves->size (), "free-function-argument", "a free function was called with %p, which is no value of ours", p);
  Leaf & l = (*leaves)[id];
  SIM_CHECK (l.freed == 0, "freed-twice", "the free function of pointer %zu was called twice", id);
  SIM_CHECK (l.holders <= 0, "freed-early", "the free function of pointer %zu was called while %d references remain", id, l.holders);
  l.freed++;
  sim_yield ();
}

char * dup_str (const std::string & s) { char * p = (char *) sim_malloc (s.size () + 1); memcpy (p, s.c_str (), s.size () + 1); return p; }
const char * ref_str (const std::string & s)   // text that outlives every value of the run
{
  static std::set<std::string> * keep; if (!keep) keep = new std::set<std::string> ();
  return keep->insert (s).first->c_str ();
}

iot_data_t * build (const VP & v);
iot_data_t * build_key (const VP & k)
{
  if (k->k == K_U32) return iot_data_alloc_ui32 ((uint32_t) k->n);
  if (k->own == IOT_DATA_TAKE) return iot_data_alloc_string (dup_str (k->s), IOT_DATA_TAKE);
  if (k->own == IOT_DATA_REF) return iot_data_alloc_string (ref_str (k->s), IOT_DATA_REF);
  return iot_data_alloc_string (k->s.c_str (), IOT_DATA_COPY);
}
iot_data_t * build (const VP & v)
{
  if (!v) return nullptr;
  iot_data_t * d = nullptr;
  switch (v->k)
  {
    case K_I64: d = iot_data_alloc_i64 (v->n); break;
    case K_U32: d = iot_data_alloc_ui32 ((uint32_t) v->n); break;
    case K_I8: d = iot_data_alloc_i8 ((int8_t) v->n); break;
    case K_F64: d = iot_data_alloc_f64 ((double) v->n / 8); break;
    case K_BOOL: d = iot_data_alloc_bool (v->n); break;
    case K_NULL: d = iot_data_alloc_null (); break;
    case K_STR: d = build_key (v); break;
    case K_PTR: (*leaves)[(size_t) v->n].built++; d = iot_data_alloc_pointer ((void *) (0x1000 + 16 * (uintptr_t) v->n), leaf_free); break;
    case K_BIN: case K_ARR:
    {
      void * p = (void *) ref_str (v->s);
      size_t n = v->s.size ();
      if (!n && v->own != IOT_DATA_TAKE) p = nullptr;
      else if (v->own == IOT_DATA_TAKE) { p = sim_malloc (n + !n); memcpy (p, v->s.data (), n); }
      d = v->k == K_BIN ? iot_data_alloc_binary (p, (uint32_t) n, (iot_data_ownership_t) v->own)
                        : iot_data_alloc_array (p, (uint32_t) n / 4, IOT_DATA_UINT32, (iot_data_ownership_t) v->own);
      break;
    }
    case K_VEC:
    {
      uint32_t n = (uint32_t) v->items.size (), extra = (uint32_t) v->noise;
      d = iot_data_alloc_vector (n + extra);
      for (uint32_t i = 0; i < extra; i++) iot_data_vector_add (d, n + i, iot_data_alloc_ui32 (77 + i));
      for (uint32_t i = 0; i < n; i++)
      {
        if (!v->items[i]) continue;
        if (v->noise && i == 0) iot_data_vector_add (d, i, iot_data_alloc_string ("noise", IOT_DATA_COPY));
        iot_data_vector_add (d, i, build (v->items[i]));
      }
      if (extra) iot_data_vector_resize (d, n);
      break;
    }
    case K_LIST:
      d = iot_data_alloc_list ();
      for (size_t i = 0; i < v->items.size (); i++) iot_data_list_tail_push (d, build (v->items[i]));
      for (int i = 0; i < v->noise; i++) { iot_data_list_head_push (d, iot_data_alloc_ui32 (5)); iot_data_list_tail_push (d, iot_data_alloc_null ()); }
      for (int i = 0; i < v->noise; i++) { iot_data_free (iot_data_list_head_pop (d)); iot_data_free (iot_data_list_tail_pop (d)); }
      break;
    case K_MAP:
      d = iot_data_alloc_map (IOT_DATA_MULTI);
      for (int i = 0; i < v->noise; i++) iot_data_map_add (d, iot_data_alloc_string (ref_str (std::string ("~noise") + (char) ('0' + i)), IOT_DATA_REF), iot_data_alloc_ui32 (9));
      for (auto & m : v->map) iot_data_map_add (d, build_key (m.second.first), build (m.second.second));
      for (int i = 0; i < v->noise; i++) iot_data_string_map_remove (d, (std::string ("~noise") + (char) ('0' + i)).c_str ());
      break;
  }
  for (auto & m : v->meta)
  {
    iot_data_t * k = iot_data_alloc_string (m.first.c_str (), IOT_DATA_COPY);
    iot_data_set_metadata (d, build (m.second), k);
    iot_data_free (k);
  }
  return d;
}

#define BAD(...) sim_fail ("value-damaged", __VA_ARGS__)
void verify (const iot_data_t * d, const VP & v)
{
  if (!v) { if (d) BAD ("an element is present that was never set"); return; }
  if (!d) BAD ("an element is missing");
  static const iot_data_type_t types[] = { IOT_DATA_INT64, IOT_DATA_UINT32, IOT_DATA_INT8, IOT_DATA_FLOAT64, IOT_DATA_BOOL, IOT_DATA_NULL, IOT_DATA_STRING, IOT_DATA_POINTER,
                                           IOT_DATA_BINARY, IOT_DATA_ARRAY, IOT_DATA_VECTOR, IOT_DATA_LIST, IOT_DATA_MAP };
  iot_data_type_t ty = iot_data_type (d);
  if (ty != types[v->k]) BAD ("a value of type %s has type %s", iot_data_type_string (types[v->k]), iot_data_type_string (ty));
  switch (v->k)
  {
    case K_I64: if (iot_data_i64 (d) != v->n) BAD ("an Int64 reads %lld, not %lld", (long long) iot_data_i64 (d), (long long) v->n); break;
    case K_U32: if (iot_data_ui32 (d) != (uint32_t) v->n) BAD ("a UInt32 reads %u, not %u", iot_data_ui32 (d), (uint32_t) v->n); break;
    case K_I8: if (iot_data_i8 (d) != (int8_t) v->n) BAD ("an Int8 reads %d, not %d", iot_data_i8 (d), (int) v->n); break;
    case K_F64: if (iot_data_f64 (d) != (double) v->n / 8) BAD ("a Float64 changed"); break;
    case K_BOOL: if (iot_data_bool (d) != (bool) v->n) BAD ("a Bool changed"); break;
    case K_NULL: break;
    case K_STR:
    {
      const char * s = iot_data_string (d);
      if (!sim_addr_live (s)) BAD ("a string's text was released while the string is in use");
      if (v->s != s) BAD ("a string reads '%.40s', not '%.40s'", s, v->s.c_str ());
      break;
    }
    case K_PTR:
      if (iot_data_pointer (d) != (void *) (0x1000 + 16 * (uintptr_t) v->n)) BAD ("a pointer changed");
      if ((*leaves)[(size_t) v->n].freed) sim_fail ("freed-early", "the object of pointer %lld was freed while the pointer is in use", (long long) v->n);
      break;
    case K_BIN: case K_ARR:
    {
      uint32_t n = iot_data_array_size (d);
      if (n != v->s.size ()) BAD ("an array has %u bytes, not %zu", n, v->s.size ());
      const void * p = iot_data_address (d);
      if (n && !sim_addr_live (p)) BAD ("an array's data was released while the array is in use");
      if (n && memcmp (p, v->s.data (), n)) BAD ("an array's data changed");
      break;
    }
    case K_VEC:
    {
      uint32_t n = iot_data_vector_size (d);
      if (n != v->items.size ()) BAD ("a vector has %u elements, not %zu", n, v->items.size ());
      for (uint32_t i = 0; i < n; i++) verify (iot_data_vector_get (d, i), v->items[i]);
      break;
    }
    case K_LIST:
    {
      uint32_t n = iot_data_list_length (d);
      if (n != v->items.size ()) BAD ("a list has %u elements, not %zu", n, v->items.size ());
      iot_data_list_iter_t it; iot_data_list_iter (d, &it);
      size_t i = 0;
      while (iot_data_list_iter_prev (&it)) { if (i >= n) BAD ("a list has more elements than its length"); verify (iot_data_list_iter_value (&it), v->items[i++]); }
      if (i != n) BAD ("a list ends after %zu of %u elements", i, n);
      break;
    }
    case K_MAP:
    {
      uint32_t n = iot_data_map_size (d);
      if (n != v->map.size ()) BAD ("a map has %u entries, not %zu", n, v->map.size ());
      iot_data_map_iter_t it; iot_data_map_iter (d, &it);
      std::set<std::string> got;
      while (iot_data_map_iter_next (&it))
      {
        const iot_data_t * k = iot_data_map_iter_key (&it);
        VP kv = mk (K_U32);
        if (iot_data_type (k) == IOT_DATA_STRING) { const char * s = iot_data_string (k); if (!sim_addr_live (s)) BAD ("a map key was released while in use"); kv = mkstr (s, 0); }
        else kv->n = iot_data_ui32 (k);
        std::string c = canon (kv);
        auto e = v->map.find (c);
        if (e == v->map.end () || !got.insert (c).second) BAD ("a map has a wrong or repeated key '%s'", c.c_str ());
        const iot_data_t * val = iot_data_map_iter_value (&it);
        verify (val, e->second.second);
        if (iot_data_map_get (d, k) != val) BAD ("a map lookup does not find the value the iteration shows");
      }
      if (got.size () != n) BAD ("a map iteration shows %zu of %u entries", got.size (), n);
      break;
    }
  }
  for (auto & m : v->meta)
  {
    iot_data_static_t ks; iot_data_alloc_const_string (&ks, m.first.c_str ());
    verify (iot_data_get_metadata (d, IOT_DATA_STATIC (&ks)), m.second);
  }
}

bool same (const VP & a, const VP & b)   // iot_data_equal on values without NaN
{
  if (!a || !b) return a == b;
  if (a->k != b->k || a->s != b->s || a->items.size () != b->items.size () || a->map.size () != b->map.size ()) return false;
  if (a->k < K_STR || a->k == K_PTR) if (a->n != b->n) return false;
  for (size_t i = 0; i < a->items.size (); i++) if (!same (a->items[i], b->items[i])) return false;
  auto j = b->map.begin ();
  for (auto & m : a->map) { if (m.first != j->first || !same (m.second.second, j->second.second)) return false; ++j; }
  return true;
}

VP clone (const VP & v) { return std::make_shared<V> (*v); }
VP deep (const VP & v)
{
  if (!v) return v;
  VP n = clone (v);
  for (auto & i : n->items) i = deep (i);
  for (auto & m : n->map) m.second.second = deep (m.second.second);
  for (auto & m : n->meta) m.second = deep (m.second);
  return n;
}
bool has_gap (const VP & v) // an unset vector element: text conversion is not defined for it
{
  if (!v) return true;
  for (auto & i : v->items) if (has_gap (i)) return true;
  for (auto & m : v->map) if (has_gap (m.second.second)) return true;
  return false;
}
VP shallow (const VP & v) { if (v->k < K_VEC) return v; VP n = clone (v); n->meta.clear (); return n; }

struct Handle { iot_data_t * d = nullptr; VP v; bool own = false; bool stale = false; }; // own: only reference; stale: hash not comparable

// ------------------------------------------------------------------ D01
enum { OP_NEW, OP_SHARE, OP_TAKE, OP_EMBED, OP_COPY, OP_SHALLOW, OP_CHECK, OP_FREE, OP_MODIFY, OP_PATH, OP_EQUAL, OP_BINTAKE, OP_CONVERT, OP_YIELD, OP_EXOTIC };
enum { K_ACTORS = 1, K_SLOTS, K_DEPTH, K_HEAPPOL };
struct D1 { std::vector<std::vector<Handle>> slot; std::deque<Handle> mail; std::map<int, iot_data_t *> cache; };
D1 * T;
const bool dbg = getenv ("SIM_DBG") != nullptr;

void put (int a, size_t i, Handle h)   // stores a handle, releasing what the slot held
{
  Handle old = T->slot[(size_t) a][i];
  T->slot[(size_t) a][i] = h;
  if (old.v) drop (old.v);
  if (old.d) iot_data_free (old.d);
}
Handle copy_ref (Handle & h) // another reference to the same value
{
  Handle n = h; n.own = h.own = false;
  hold (n.v);
  iot_data_t * d = iot_data_add_ref (n.d);
  SIM_CHECK (d == n.d, "add-ref-result", "add_ref returned another value");
  return n;
}
VP pick_path (Rng & r, const VP & v, std::vector<VP> & path, size_t maxlen)
{
  VP at = v;
  while (path.size () < maxlen)
  {
    if (at->k == K_MAP && !at->map.empty ())
    {
      auto i = at->map.begin (); std::advance (i, r.below (at->map.size ()));
      path.push_back (i->second.first); at = i->second.second;
    }
    else if (at->k == K_VEC && !at->items.empty ())
    {
      size_t i = r.below (at->items.size ());
      if (!at->items[i]) break;
      path.push_back (mk (K_U32, (int64_t) i)); at = at->items[i];
    }
    else break;
    if (r.chance (0.3)) break;
  }
  return at;
}
VP replaced (const VP & v, const std::vector<VP> & path, size_t at, const VP & n, bool top = true)
{
  if (at == path.size ()) return n;
  VP c = clone (v); c->meta.clear ();
  if (v->k == K_MAP) { auto & e = c->map[canon (path[at])]; if (!e.first) e.first = path[at]; e.second = replaced (e.second, path, at + 1, n); }
  else { VP & e = c->items[(size_t) path[at]->n]; e = replaced (e, path, at + 1, n); }
  return c;
}
VP removed (const VP & v, const std::vector<VP> & path, size_t at)
{
  VP c = clone (v); c->meta.clear ();
  if (v->k == K_MAP)
  {
    auto e = c->map.find (canon (path[at]));
    if (at + 1 == path.size ()) c->map.erase (e); else e->second.second = removed (e->second.second, path, at + 1);
  }
  else if (at + 1 == path.size ())
  {
    std::vector<VP> n; for (size_t i = 0; i < c->items.size (); i++) if (c->items[i] && (int64_t) i != path[at]->n) n.push_back (c->items[i]);
    c->items = n;
  }
  else { VP & e = c->items[(size_t) path[at]->n]; e = removed (e, path, at + 1); }
  return c;
}
iot_data_t * build_path (const std::vector<VP> & path)
{
  iot_data_t * p = iot_data_alloc_list ();
  for (size_t i = path.size (); i--;) iot_data_list_head_push (p, build_key (path[i]));
  return p;
}
struct Upd { VP v; VP seen; };
iot_data_t * update_fn (const iot_data_t * d, void * arg)
{
  Upd * u = (Upd *) arg;
  verify (d, u->seen);
  return u->v ? build (u->v) : iot_data_add_ref (d);
}
struct Match { const iot_data_t * d; };
bool match_fn (const iot_data_t * d, const void * arg) { return d == ((const Match *) arg)->d; }

void modify (int a, size_t si, Rng & r, const GenOpt & go)
{
  Handle & s = T->slot[(size_t) a][si];
  if (!s.d || !s.own) return;
  iot_data_t * d = s.d; VP v = s.v; VP n = clone (v);
  GenOpt g = go; g.depth = 1;
  switch (v->k)
  {
    case K_MAP:
      switch (r.below (8))
      {
        case 0: case 1:
        {
          VP k = rndkey (r, v->sk), e = gen_value (r, g, 0); hold (e);
          auto old = n->map.find (canon (k)); VP oe;
          if (old != n->map.end ()) { oe = old->second.second; old->second.second = e; sim_probe ("map_value_replaced"); } else n->map[canon (k)] = { k, e };
          if (oe) drop (oe);
          if (k->k == K_STR && k->own == IOT_DATA_REF) iot_data_string_map_add (d, ref_str (k->s), build (e)); else iot_data_map_add (d, build_key (k), build (e));
          break;
        }
        case 2: case 3:
        {
          if (v->map.empty ()) return;
          auto i = n->map.begin (); std::advance (i, r.below (n->map.size ()));
          VP k = i->second.first, e = i->second.second; n->map.erase (i); drop (e);
          iot_data_t * kd = build_key (k);
          bool ok = iot_data_map_remove (d, kd);
          SIM_CHECK (ok, "value-damaged", "removing a present key reports it absent");
          iot_data_free (kd);
          break;
        }
        case 4: // merge from another slot
        {
          Handle & o = T->slot[(size_t) a][r.below (T->slot[(size_t) a].size ())];
          if (!o.d || o.d == d || o.v->k != K_MAP || v->sk != o.v->sk) return;
          VP ov = o.v; iot_data_t * od = o.d;
          for (auto & m : ov->map)
          {
            auto old = n->map.find (m.first); hold (m.second.second);
            if (old != n->map.end ()) { drop (old->second.second); old->second.second = m.second.second; } else n->map[m.first] = m.second;
          }
          s.stale = s.stale || o.stale;
          s.v = n;
          o.own = o.own && true;
          iot_data_map_merge (d, od);
          sim_probe ("map_merged");
          break;
        }
        case 5:
        {
          VP k = rndkey (r, v->sk), e = gen_value (r, g, 0);
          bool there = v->map.count (canon (k)); hold (e);
          if (!there) n->map[canon (k)] = { k, e };
          iot_data_t * kd = build_key (k), * ed = build (e);
          bool added = iot_data_map_add_unused (d, kd, ed);
          SIM_CHECK (added == !there, "value-damaged", "add_unused reports %d for a key that was %s", added, there ? "used" : "unused");
          if (!added) { drop (e); iot_data_free (kd); iot_data_free (ed); }
          break;
        }
        case 6: // replace by iterator
        {
          if (v->map.empty ()) return;
          VP e = gen_value (r, g, 0); hold (e);
          size_t at = r.below (v->map.size ());
          iot_data_map_iter_t it; iot_data_map_iter (d, &it);
          for (size_t i = 0; i <= at; i++) iot_data_map_iter_next (&it);
          const iot_data_t * k = iot_data_map_iter_key (&it);
          VP kv = iot_data_type (k) == IOT_DATA_STRING ? mkstr (iot_data_string (k), 0) : mk (K_U32, iot_data_ui32 (k));
          VP old = n->map[canon (kv)].second; n->map[canon (kv)].second = e;
          s.v = n; s.stale = true;
          iot_data_t * od = iot_data_map_iter_replace_value (&it, build (e));
          drop (old); iot_data_free (od);
          break;
        }
        default:
        {
          for (auto & m : v->map) drop (m.second.second);
          n->map.clear ();
          s.v = n;
          iot_data_map_empty (d);
          break;
        }
      }
      break;
    case K_VEC:
      switch (r.below (5))
      {
        case 0: case 1:
        {
          if (v->items.empty ()) return;
          size_t i = r.below (v->items.size ());
          VP e = r.chance (0.15) ? nullptr : gen_value (r, g, 0); if (e) hold (e);
          VP old = n->items[i]; n->items[i] = e; if (old) drop (old);
          if (!old && !e) { s.v = n; return; }
          iot_data_vector_add (d, (uint32_t) i, build (e));
          break;
        }
        case 2:
        {
          size_t m = r.below (7); if (m == v->items.size ()) m++;
          for (size_t i = m; i < v->items.size (); i++) if (v->items[i]) drop (v->items[i]);
          n->items.resize (m);
          s.v = n;
          iot_data_vector_resize (d, (uint32_t) m);
          sim_probe ("vector_resized");
          break;
        }
        case 3:
        {
          std::vector<VP> c; for (auto & i : n->items) if (i) c.push_back (i);
          n->items = c;
          iot_data_vector_compact (d);
          break;
        }
        default:
        {
          if (v->items.empty ()) return;
          size_t at = r.below (v->items.size ());
          VP e = gen_value (r, g, 0); hold (e);
          VP old = n->items[at]; n->items[at] = e;
          iot_data_vector_iter_t it; iot_data_vector_iter (d, &it);
          for (size_t i = 0; i <= at; i++) iot_data_vector_iter_next (&it);
          s.v = n;
          iot_data_t * od = iot_data_vector_iter_replace_value (&it, build (e));
          SIM_CHECK (!od == !old, "value-damaged", "replacing a vector element returns %s", od ? "a value where there was none" : "no value");
          if (old) drop (old);
          iot_data_free (od);
          break;
        }
      }
      break;
    case K_LIST:
      switch (r.below (8))
      {
        case 0: { VP e = gen_value (r, g, 0); hold (e); n->items.insert (n->items.begin (), e); iot_data_list_head_push (d, build (e)); break; }
        case 1: { VP e = gen_value (r, g, 0); hold (e); n->items.push_back (e); iot_data_list_tail_push (d, build (e)); break; }
        case 2: case 3:
        {
          if (v->items.empty ()) return;
          bool head = r.chance (0.5);
          VP e = head ? n->items.front () : n->items.back ();
          n->items.erase (head ? n->items.begin () : n->items.end () - 1);
          s.v = n;
          iot_data_t * x = head ? iot_data_list_head_pop (d) : iot_data_list_tail_pop (d);
          verify (x, e);
          drop (e); iot_data_free (x);
          break;
        }
        case 4:
        {
          for (auto & i : v->items) drop (i);
          n->items.clear (); s.v = n;
          iot_data_list_empty (d);
          break;
        }
        case 5: case 6: // remove one element by search
        {
          if (v->items.empty ()) return;
          size_t at = r.below (v->items.size ());
          iot_data_list_iter_t it; iot_data_list_iter (d, &it);
          for (size_t i = 0; i <= at; i++) iot_data_list_iter_prev (&it);
          Match m { iot_data_list_iter_value (&it) };
          VP e = n->items[at];
          size_t rem = at;
          for (size_t i = n->items.size (); i--;) if (n->items[i] == e || (n->items[i]->k == e->k && (e->k == K_BOOL || e->k == K_NULL || e->k == K_PTR) && same (n->items[i], e))) { rem = i; break; } // search is from the tail
          if (r.chance (0.5)) { n->items.erase (n->items.begin () + (long) rem); drop (e); s.v = n; bool ok = iot_data_list_remove (d, match_fn, &m); SIM_CHECK (ok, "value-damaged", "an element of a list is not found"); }
          else { n->items.erase (n->items.begin () + (long) at); drop (e); s.v = n; bool ok = iot_data_list_iter_remove (&it); SIM_CHECK (ok, "value-damaged", "an iterator removes nothing"); }
          break;
        }
        default:
        {
          if (v->items.empty ()) return;
          size_t at = r.below (v->items.size ());
          VP e = gen_value (r, g, 0); hold (e);
          VP old = n->items[at]; n->items[at] = e; s.v = n;
          iot_data_list_iter_t it; iot_data_list_iter (d, &it);
          for (size_t i = 0; i <= at; i++) iot_data_list_iter_prev (&it);
          iot_data_t * od = iot_data_list_iter_replace (&it, build (e));
          drop (old); iot_data_free (od);
          break;
        }
      }
      break;
    default:
    {
      if (v->k == K_BOOL || v->k == K_NULL || v->k == K_PTR) return;
      VP e = gen_value (r, g, 2); hold (e);
      for (auto & m : n->meta) if (m.first == "origin") { drop (m.second); m.second = e; e = nullptr; break; }
      if (e) n->meta.push_back ({ "origin", e }); else e = n->meta[0].second;
      for (auto & m : n->meta) if (m.first == "origin") e = m.second;
      iot_data_t * k = iot_data_alloc_string ("origin", IOT_DATA_COPY);
      s.v = n;
      iot_data_set_metadata (d, build (e), k);
      iot_data_free (k);
      break;
    }
  }
  T->slot[(size_t) a][si].v = n;
  verify (d, n);
}

// Values that a text can describe: what JSON and YAML make of them is exactly the model
VP gen_text (Rng & r, int depth)
{
  int c = depth == 0 ? 8 + (int) r.below (2) : (int) r.below (depth < 3 ? 10 : 7);
  switch (c)
  {
    case 0: case 1: return mk (K_I64, ((int64_t) r.next () >> (1 + r.below (60))) / 2);
    case 2: return mk (K_F64, (int64_t) r.below (2000) - 1000);
    case 3: return mk (K_BOOL, (int64_t) r.below (2));
    case 4: return mk (K_NULL);
    case 8: { VP v = mk (K_VEC); for (size_t n = r.below (5); n--;) v->items.push_back (gen_text (r, depth + 1)); return v; }
    case 9: { VP v = mk (K_MAP); v->sk = true; for (size_t n = r.below (5); n--;) { VP k = mkstr (names[r.below (16)], 0); v->map[canon (k)] = { k, gen_text (r, depth + 1) }; } return v; }
    default: return mkstr (r.chance (0.4) ? names[r.below (16)] : rndstr (r), 0);
  }
}
std::string text_of (const VP & v)
{
  char b[40]; std::string s;
  auto str = [] (const std::string & t) { std::string o = "\""; for (char c : t) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else o += c; } return o + '"'; };
  switch (v->k)
  {
    case K_I64: snprintf (b, sizeof b, "%lld", (long long) v->n); return b;
    case K_F64: snprintf (b, sizeof b, "%.3f", (double) v->n / 8); return b;
    case K_BOOL: return v->n ? "true" : "false";
    case K_NULL: return "null";
    case K_VEC: for (auto & i : v->items) s += (s.empty () ? "" : ", ") + text_of (i); return "[" + s + "]";
    case K_MAP: for (auto & m : v->map) s += (s.empty () ? "" : ", ") + str (m.second.first->s) + ": " + text_of (m.second.second); return "{" + s + "}";
    default: return str (v->s);
  }
}
bool plain (const VP & v)   // neither pointers, metadata nor gaps
{
  if (!v || !v->meta.empty () || v->k == K_PTR) return false;
  for (auto & i : v->items) if (!plain (i)) return false;
  for (auto & m : v->map) if (!plain (m.second.second)) return false;
  return true;
}
std::string b64 (const std::string & s)
{
  static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string o;
  for (size_t i = 0; i < s.size (); i += 3)
  {
    uint32_t x = 0; size_t n = std::min<size_t> (3, s.size () - i);
    for (size_t k = 0; k < 3; k++) x = x << 8 | (k < n ? (unsigned char) s[i + k] : 0);
    for (size_t k = 0; k < 4; k++) o += k <= n ? t[x >> (18 - 6 * k) & 63] : '=';
  }
  return o;
}
std::string bytes (Rng & r, size_t n) { std::string s; while (n--) s += (char) r.next (); return s; }

// The rest of the interface: every function that makes, converts or moves values. What it makes goes to slot si where the model can express it
void exotic (int a, size_t si, size_t sj, Rng & r)
{
  auto & sl = T->slot[(size_t) a];
  Handle h; h.own = true;
  switch (r.below (20))
  {
    case 0: case 1: // JSON, with or without a string cache of the actor's, ordered or not
    {
      h.v = gen_text (r, 0); std::string t = text_of (h.v);
      iot_data_t *& c = T->cache[a];
      if (!c && r.chance (0.6)) c = iot_data_alloc_map (IOT_DATA_STRING);
      bool ordered = r.chance (0.3);
      h.d = r.chance (0.8) && c ? iot_data_from_json_with_cache (t.c_str (), ordered, c) : iot_data_from_json_with_ordering (t.c_str (), ordered);
      verify (h.d, h.v);
      if (ordered) h.stale = true;
      put (a, si, h);
      if (c && r.chance (0.3)) { iot_data_t * x = c; c = nullptr; iot_data_free (x); verify (h.d, h.v); sim_probe ("json_cache_released"); }
      break;
    }
    case 2: // YAML; or YAML that ends early
    {
      h.v = gen_text (r, 0); std::string t = text_of (h.v);
      iot_data_t * ex = nullptr;
      bool cut = r.chance (0.3);
      if (cut) t.resize (1 + r.below (t.size () - 1));
      h.d = iot_data_from_yaml (t.c_str (), &ex);
      if (cut) { iot_data_free (h.d); iot_data_free (ex); sim_probe ("yaml_cut"); break; }
      SIM_CHECK (!ex, "value-damaged", "a YAML text was not understood: %s", iot_data_string (ex));
      verify (h.d, h.v);
      put (a, si, h);
      sim_probe ("yaml");
      break;
    }
    case 3: // a vector of numbers as an array, at any depth
    {
      VP v = mk (K_VEC); iot_data_t * d = iot_data_alloc_vector (0); uint32_t n = (uint32_t) r.below (6); h.v = mk (K_ARR); h.v->own = IOT_DATA_COPY;
      iot_data_vector_resize (d, n);
      for (uint32_t i = 0; i < n; i++)
      {
        uint32_t x = (uint32_t) r.next (); bool deepv = r.chance (0.3);
        if (r.chance (0.1)) { iot_data_vector_add (d, i, iot_data_alloc_string ("no number", IOT_DATA_REF)); continue; }
        iot_data_t * e = iot_data_alloc_ui32 (x);
        if (deepv) { iot_data_t * s = iot_data_alloc_typed_vector (1, IOT_DATA_UINT32); iot_data_vector_add (s, 0, e); e = s; }
        iot_data_vector_add (d, i, e);
        h.v->s.append ((const char *) &x, 4);
      }
      h.d = iot_data_vector_to_array (d, IOT_DATA_UINT32, true);
      iot_data_t * w = iot_data_vector_to_vector (d, IOT_DATA_UINT64, true);
      SIM_CHECK (iot_data_vector_size (w) == h.v->s.size () / 4, "value-damaged", "%u of %zu numbers of a vector were converted", iot_data_vector_size (w), h.v->s.size () / 4);
      iot_data_free (d); iot_data_free (w);
      verify (h.d, h.v);
      put (a, si, h);
      break;
    }
    case 4: // base64 text to an array to binary
    {
      h.v = mk (K_BIN); h.v->s = bytes (r, r.below (40)); h.v->own = IOT_DATA_COPY;
      if (h.v->s.empty ()) break;
      h.d = iot_data_alloc_array_from_base64 (b64 (h.v->s).c_str ());
      SIM_CHECK (h.d, "value-damaged", "a base64 text was not understood");
      SIM_CHECK (iot_data_array_is_of_type (h.d, IOT_DATA_UINT8) && iot_data_type (h.d) == IOT_DATA_ARRAY, "value-damaged", "base64 text makes no array of bytes");
      iot_data_array_to_binary (h.d);
      if (r.chance (0.3)) { iot_data_binary_to_array (h.d); SIM_CHECK (iot_data_type (h.d) == IOT_DATA_ARRAY, "value-damaged", "binary to array has no effect"); iot_data_array_to_binary (h.d); }
      verify (h.d, h.v);
      put (a, si, h);
      iot_data_t * bad = iot_data_alloc_array_from_base64 ("*no base64*");
      iot_data_free (bad);
      break;
    }
    case 5: // a map's base64 text becomes an array in place, while somebody holds the text
    {
      std::string b = bytes (r, 1 + r.below (60)), t = b64 (b);
      iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING), * s = iot_data_alloc_string (t.c_str (), IOT_DATA_COPY), * k = iot_data_alloc_string ("b64", IOT_DATA_REF);
      bool held = r.chance (0.5);
      if (held) iot_data_add_ref (s);
      iot_data_map_add (m, iot_data_add_ref (k), s);
      iot_data_string_map_add (m, "other", iot_data_alloc_string ("~ not base64 ~", IOT_DATA_COPY));
      bool ok = iot_data_map_base64_to_array (m, k), again = iot_data_map_base64_to_array (m, k);
      SIM_CHECK (ok && !again, "value-damaged", "base64 text in a map: converted %d, and again %d", ok, again);
      const iot_data_t * x = iot_data_map_get_array (m, k);
      SIM_CHECK (x && iot_data_array_size (x) == b.size () && !memcmp (iot_data_address (x), b.data (), b.size ()), "value-damaged", "a map's base64 text decodes wrongly");
      if (held) { SIM_CHECK (t == iot_data_string (s), "value-damaged", "the base64 text somebody holds changed"); iot_data_free (s); }
      iot_data_free (m); iot_data_free (k);
      break;
    }
    case 6: case 7: // compression against a cache that lives on
    {
      Handle & s = sl[sj];
      if (!s.d || s.stale || s.v->k < K_VEC || !plain (s.v)) break;
      h.v = deep (s.v); iot_data_t * d = s.d;
      iot_data_t *& c = T->cache[-1 - a];
      if (!c) c = iot_data_alloc_typed_map (IOT_DATA_MULTI, IOT_DATA_MULTI);
      h.d = iot_data_copy (d);
      iot_data_compress_with_cache (h.d, c);
      verify (h.d, h.v);
      put (a, si, h);
      sim_probe ("compressed_with_cache");
      if (r.chance (0.3)) { iot_data_t * x = c; c = nullptr; iot_data_free (x); verify (h.d, h.v); }
      break;
    }
    case 8: // numbers from text, counted up and down
    {
      static const char * const ty[] = { "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float32", "Float64" };
      int t = (int) r.below (10), n = (int) r.below (100);
      iot_data_t * d = iot_data_alloc_from_strings (ty[t], std::to_string (n).c_str ());
      SIM_CHECK (d && !strcmp (iot_data_type_name (d), ty[t]), "value-damaged", "a %s from text has another type", ty[t]);
      for (int i = 0; i < 3; i++) iot_data_increment (d);
      iot_data_decrement (d);
      double f = 0; bool ok = iot_data_cast (d, IOT_DATA_FLOAT64, &f);
      SIM_CHECK (ok && f == n + 2, "value-damaged", "%s %d counted up three times and down once reads %g", ty[t], n, f);
      iot_data_free (d);
      break;
    }
    case 9: // identifiers
    {
      iot_data_t * s = iot_data_alloc_uuid_string (), * u = iot_data_alloc_uuid ();
      SIM_CHECK (strlen (iot_data_string (s)) == 36 && iot_data_array_size (u) == 16, "value-damaged", "an identifier has another form");
      h.v = mkstr (iot_data_string (s), IOT_DATA_COPY); h.d = s;
      iot_data_free (u);
      put (a, si, h);
      break;
    }
    case 10: // typed containers
    {
      iot_data_t * v = iot_data_alloc_typed_vector (3, IOT_DATA_STRING), * l = iot_data_alloc_typed_list (IOT_DATA_STRING), * m = iot_data_alloc_typed_map (IOT_DATA_STRING, IOT_DATA_STRING);
      std::string t[3];
      for (uint32_t i = 0; i < 3; i++)
      {
        t[i] = rndstr (r);
        iot_data_t * s = iot_data_alloc_string (t[i].c_str (), IOT_DATA_COPY);
        iot_data_vector_add (v, i, s); iot_data_list_tail_push (l, iot_data_add_ref (s)); iot_data_string_map_add (m, names[i], iot_data_add_ref (s));
      }
      iot_data_t * keep = r.chance (0.5) ? iot_data_add_ref (iot_data_vector_get (v, 1)) : nullptr;
      bool order = r.chance (0.5);
      iot_data_free (order ? v : m);
      iot_data_list_iter_t it; iot_data_list_iter (l, &it);
      for (int i = 2; iot_data_list_iter_next (&it); i--) SIM_CHECK (t[i] == iot_data_list_iter_string_value (&it), "value-damaged", "an element of a typed list changed");
      iot_data_free (order ? m : v); iot_data_free (l);
      if (keep) { SIM_CHECK (t[1] == iot_data_string (keep), "value-damaged", "a value taken from a typed vector changed"); iot_data_free (keep); }
      break;
    }
    case 11: // conversion to text and CBOR into buffers that have to grow
    {
      Handle & s = sl[sj];
      if (!s.d || has_gap (s.v)) break;
      iot_data_t * d = s.d;
      char * x = iot_data_to_json (d), * y = iot_data_to_json_with_size (d, (uint32_t) (1 + r.below (40)));
      uint32_t n = (uint32_t) (1 + r.below (64));
      char * z = iot_data_to_json_with_buffer (d, (char *) sim_malloc (n), n);
      SIM_CHECK (!strcmp (x, y) && !strcmp (x, z), "value-damaged", "the JSON text depends on the buffer: '%.60s', '%.60s', '%.60s'", x, y, z);
      sim_free (x); sim_free (y); sim_free (z);
      iot_data_t * p = iot_data_to_cbor (d), * q = iot_data_to_cbor_with_size (d, (uint32_t) (1 + r.below (20)));
      SIM_CHECK (iot_data_equal (p, q), "value-damaged", "the CBOR form depends on the buffer");
      iot_data_free (p); iot_data_free (q);
      break;
    }
    case 12: // a constant list
    {
      static iot_data_list_static_t lists[64]; static int used;
      iot_data_t * l = iot_data_alloc_const_list (&lists[used++ % 64]);
      size_t n = r.below (4);
      for (size_t i = 0; i < n; i++) iot_data_list_tail_push (l, iot_data_alloc_ui32 ((uint32_t) i));
      iot_data_free (l);
      SIM_CHECK (iot_data_list_length (l) == n && iot_data_is_static (l), "value-damaged", "a constant list of %zu has %u elements", n, iot_data_list_length (l));
      for (size_t i = 0; i < n; i++) { iot_data_t * x = iot_data_list_head_pop (l); SIM_CHECK (iot_data_ui32 (x) == i, "value-damaged", "an element of a constant list changed"); iot_data_free (x); }
      break;
    }
    case 13: // the shape of a vector, tags
    {
      iot_data_t * v = iot_data_alloc_vector (2); uint32_t tot = 0, n = (uint32_t) (1 + r.below (3)), odd = r.chance (0.3);
      for (uint32_t i = 0; i < 2; i++)
      {
        iot_data_t * w = iot_data_alloc_vector (n + (i ? odd : 0));
        for (uint32_t k = 0; k < n + (i ? odd : 0); k++) iot_data_vector_add (w, k, iot_data_alloc_bool (k & 1));
        iot_data_vector_add (v, i, w);
      }
      iot_data_t * dim = iot_data_vector_dimensions (v, &tot);
      SIM_CHECK (odd ? !dim && !tot : dim && iot_data_array_length (dim) == 2 && tot == 2 * n, "value-damaged", "the dimensions of a vector are wrong");
      iot_data_free (dim);
      bool o = iot_data_set_tag (v, IOT_DATA_TAG_USER2, true), q = iot_data_set_tag (v, IOT_DATA_TAG_USER2, false);
      SIM_CHECK (!o && q && !iot_data_get_tag (v, IOT_DATA_TAG_USER1), "value-damaged", "a tag is wrong");
      iot_data_free (v);
      break;
    }
    case 14: // an array of one type as another
    {
      uint32_t n = (uint32_t) r.below (8); std::vector<uint16_t> x (n); for (auto & e : x) e = (uint16_t) r.next ();
      iot_data_t * d = iot_data_alloc_array (n ? x.data () : nullptr, n, IOT_DATA_UINT16, IOT_DATA_COPY);
      h.d = iot_data_array_transform (d, IOT_DATA_UINT32);
      h.v = mk (K_ARR); h.v->own = IOT_DATA_COPY;
      for (auto e : x) { uint32_t y = e; h.v->s.append ((const char *) &y, 4); }
      iot_data_t * none = iot_data_array_transform (d, IOT_DATA_INT8);
      uint32_t fit = 0; for (auto e : x) fit += e <= 127;
      SIM_CHECK (iot_data_array_length (none) == fit, "value-damaged", "%u of %u numbers fit a byte, %u were kept", fit, n, iot_data_array_length (none));
      iot_data_free (none); iot_data_free (d);
      verify (h.d, h.v);
      put (a, si, h);
      break;
    }
    case 15: // a value as its own type is the same value, as another type a new one
    {
      Handle & s = sl[sj];
      if (!s.d) break;
      iot_data_t * d = s.d; VP v = s.v;
      if (r.chance (0.5) && (v->k == K_U32 || v->k == K_I8))
      {
        h.v = mk (K_I64, v->n); h.d = iot_data_transform (d, IOT_DATA_INT64);
        SIM_CHECK (h.d, "value-damaged", "%lld is not converted to a wider type", (long long) v->n);
        verify (h.d, h.v);
      }
      else
      {
        h = s; h.own = s.own = false; hold (h.v);
        h.d = iot_data_transform (d, iot_data_type (d));
        SIM_CHECK (h.d == d, "add-ref-result", "a value transformed to its own type is another value");
        sim_probe ("transformed_to_itself");
      }
      put (a, si, h);
      break;
    }
    case 16: // a vector as a vector of the type its elements have shares them
    {
      uint32_t n = (uint32_t) (1 + r.below (5)), odd = (uint32_t) r.below (n + 1), k = 0; bool str = r.chance (0.6);
      iot_data_t * v = iot_data_alloc_vector (n); std::vector<std::string> t; std::vector<iot_data_t *> e;
      for (uint32_t i = 0; i < n; i++)
      {
        if (i == odd) { iot_data_vector_add (v, i, str ? iot_data_alloc_ui32 (i) : iot_data_alloc_string ("x", IOT_DATA_REF)); continue; }
        t.push_back (str ? rndstr (r) : std::to_string (r.below (1000)));
        e.push_back (str ? iot_data_alloc_string (t.back ().c_str (), IOT_DATA_COPY) : iot_data_alloc_i64 (atoll (t.back ().c_str ())));
        iot_data_vector_add (v, i, r.chance (0.5) ? iot_data_add_ref (e.back ()) : e.back ());
        if (iot_data_ref_count (e.back ()) == 1) e.back () = nullptr;
      }
      iot_data_t * w = iot_data_vector_to_vector (v, str ? IOT_DATA_STRING : IOT_DATA_INT64, false);
      bool first = r.chance (0.5);
      if (first) iot_data_free (v);
      if (!str && odd < n) SIM_CHECK (iot_data_vector_size (w) == t.size (), "value-damaged", "%u elements instead of %zu", iot_data_vector_size (w), t.size ());
      for (uint32_t i = 0; i < t.size (); i++)
      {
        const iot_data_t * x = iot_data_vector_get (w, i);
        SIM_CHECK (x && (str ? t[i] == iot_data_string (x) : atoll (t[i].c_str ()) == iot_data_i64 (x)), "value-damaged", "an element of a converted vector differs");
        if (e[i]) SIM_CHECK (x == e[i], "value-damaged", "an element that already has the right type was replaced");
      }
      (void) k;
      if (r.chance (0.5)) { iot_data_free (w); w = nullptr; }
      for (uint32_t i = 0; i < t.size (); i++) if (e[i]) { SIM_CHECK (str ? t[i] == iot_data_string (e[i]) : atoll (t[i].c_str ()) == iot_data_i64 (e[i]), "value-damaged", "an element went with the vector"); iot_data_free (e[i]); }
      if (!first) iot_data_free (v);
      iot_data_free (w);
      break;
    }
    case 17: // constants in containers, released as often as anybody likes
    {
      struct C { iot_data_static_t s[10]; };
      C * c = (C *) sim_malloc (sizeof (C)); iot_data_t * x[10]; int64_t n = (int64_t) r.below (100);
      x[0] = iot_data_alloc_const_i8 (&c->s[0], (int8_t) n); x[1] = iot_data_alloc_const_ui8 (&c->s[1], (uint8_t) n); x[2] = iot_data_alloc_const_i16 (&c->s[2], (int16_t) n);
      x[3] = iot_data_alloc_const_ui16 (&c->s[3], (uint16_t) n); x[4] = iot_data_alloc_const_i32 (&c->s[4], (int32_t) n); x[5] = iot_data_alloc_const_ui32 (&c->s[5], (uint32_t) n);
      x[6] = iot_data_alloc_const_i64 (&c->s[6], n); x[7] = iot_data_alloc_const_ui64 (&c->s[7], (uint64_t) n); x[8] = iot_data_alloc_const_pointer (&c->s[8], &c->s); x[9] = iot_data_alloc_const_string (&c->s[9], names[n % 16]);
      iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING), * l = iot_data_alloc_list ();
      for (int i = 0; i < 10; i++) { iot_data_string_map_add (m, names[i], x[i]); iot_data_list_tail_push (l, x[i]); if (r.chance (0.3)) iot_data_free (x[i]); }
      SIM_CHECK (iot_data_string_map_get_pointer (m, names[8]) == c->s, "value-damaged", "a constant pointer is another");
      iot_data_free (m);
      iot_data_t * m2 = r.chance (0.5) ? iot_data_copy (l) : iot_data_shallow_copy (l); iot_data_free (l);
      SIM_CHECK (iot_data_list_length (m2) == 10, "value-damaged", "a copy of a list of constants is shorter");
      iot_data_free (m2);
      for (int i = 0; i < 8; i++) { int64_t y = -1; SIM_CHECK (iot_data_is_static (x[i]) && iot_data_cast (x[i], IOT_DATA_INT64, &y) && y == n, "value-damaged", "constant %d reads %lld instead of %lld", i, (long long) y, (long long) n); }
      SIM_CHECK (iot_data_pointer (x[8]) == c->s && !strcmp (iot_data_string (x[9]), names[n % 16]), "value-damaged", "a constant changed");
      sim_free (c);
      break;
    }
    case 18: // numbers of every size in one map
    {
      iot_data_t * m = iot_data_alloc_map (IOT_DATA_MULTI); int64_t n = (int64_t) r.below (100);
      iot_data_t * x[] = { iot_data_alloc_i8 ((int8_t) n), iot_data_alloc_ui8 ((uint8_t) n), iot_data_alloc_i16 ((int16_t) n), iot_data_alloc_ui16 ((uint16_t) n), iot_data_alloc_i32 ((int32_t) n), iot_data_alloc_ui32 ((uint32_t) n), iot_data_alloc_i64 (n), iot_data_alloc_ui64 ((uint64_t) n), iot_data_alloc_f32 ((float) n), iot_data_alloc_f64 ((double) n) };
      for (auto e : x) iot_data_map_add (m, iot_data_add_ref (e), e);
      SIM_CHECK (iot_data_map_size (m) == 10, "value-damaged", "ten numbers of ten types make a map of %u", iot_data_map_size (m));
      for (int i = 0; i < 10; i += 1 + (int) r.below (3)) { iot_data_add_ref (x[i]); SIM_CHECK (iot_data_map_get (m, x[i]) == x[i] && iot_data_map_remove (m, x[i]), "value-damaged", "a number of a map is not found"); SIM_CHECK (!iot_data_map_get (m, x[i]), "value-damaged", "a removed number of a map is found"); iot_data_free (x[i]); }
      iot_data_free (m);
      break;
    }
    default: // removal and search by value
    {
      iot_data_t * l = iot_data_alloc_list (), * v = iot_data_alloc_vector (3);
      for (uint32_t i = 0; i < 3; i++) { iot_data_t * s = iot_data_alloc_string (names[i], (iot_data_ownership_t) (r.chance (0.5) ? IOT_DATA_COPY : IOT_DATA_REF)); iot_data_list_tail_push (l, s); iot_data_vector_add (v, i, iot_data_add_ref (s)); }
      uint32_t i = (uint32_t) r.below (3);
      const iot_data_t * f = iot_data_list_find (l, iot_data_string_cmp, names[i]), * g = iot_data_vector_find (v, iot_data_string_cmp, names[i]);
      SIM_CHECK (f && f == g && !strcmp (iot_data_string (f), names[i]), "value-damaged", "search by value finds something else");
      SIM_CHECK (iot_data_list_remove (l, iot_data_string_cmp, names[i]) && !iot_data_list_remove (l, iot_data_string_cmp, names[i]), "value-damaged", "removal by value");
      SIM_CHECK (!strcmp (iot_data_string (g), names[i]), "value-damaged", "a vector's value went with the list's");
      iot_data_vector_add (v, i, nullptr);
      SIM_CHECK (iot_data_vector_compact (v) == 2 && iot_data_list_length (l) == 2, "value-damaged", "compaction");
      iot_data_free (l); iot_data_free (v);
      break;
    }
  }
}
void drop_caches (int a) { for (int k : { a, -1 - a }) { iot_data_t * c = T->cache[k]; T->cache[k] = nullptr; iot_data_free (c); } }

void step1 (const Plan & p, int a, const Op & o)
{
  Rng r ((uint64_t) o.b);
  GenOpt go { true, true, true, (int) p.k (K_DEPTH) };
  auto & sl = T->slot[(size_t) a];
  size_t si = (size_t) o.a % sl.size (), sj = (size_t) o.c % sl.size ();
  Handle & s = sl[si];
  if (dbg) fprintf (stderr, "[%d] op %d a=%d c=%d (slot kind %d, own %d)\n", a, o.code, (int) si, (int) sj, s.v ? s.v->k : -1, s.own);
  switch (o.code)
  {
    case OP_NEW:
    {
      Handle h; h.v = gen_value (r, go, r.chance (0.8) && go.depth ? 0 : go.depth); hold (h.v); h.own = true;
      h.d = build (h.v);
      put (a, si, h);
      break;
    }
    case OP_SHARE: if (s.d) { Handle h = copy_ref (s); T->mail.push_back (h); sim_probe ("shared"); } break;
    case OP_TAKE: if (!T->mail.empty ()) { size_t i = r.below (T->mail.size ()); Handle h = T->mail[i]; T->mail.erase (T->mail.begin () + (long) i); put (a, si, h); sim_probe ("taken"); } break;
    case OP_EMBED: // slot sj's value becomes an element of slot si's container
    {
      Handle & e = sl[sj];
      if (!s.d || !e.d || si == sj || !s.own || s.v->k < K_VEC) break;
      if (s.d == e.d) break;
      iot_data_t * d = s.d; VP n = clone (s.v); VP ev = e.v; iot_data_t * ed = e.d; bool move = r.chance (0.5);
      s.stale = s.stale || e.stale;
      if (move) { e = Handle (); } else { e.own = false; hold (ev); iot_data_add_ref (ed); }
      if (n->k == K_MAP)
      {
        VP k = rndkey (r, n->sk); auto old = n->map.find (canon (k));
        if (old != n->map.end ()) { drop (old->second.second); old->second.second = ev; } else n->map[canon (k)] = { k, ev };
        s.v = n;
        iot_data_map_add (d, build_key (k), ed);
      }
      else if (n->k == K_VEC)
      {
        n->items.push_back (ev); s.v = n;
        uint32_t sz = (uint32_t) n->items.size ();
        iot_data_vector_resize (d, sz);
        iot_data_vector_add (d, sz - 1, ed);
      }
      else { n->items.insert (n->items.begin (), ev); s.v = n; iot_data_list_head_push (d, ed); }
      sim_probe (move ? "embed_moved" : "embed_shared");
      break;
    }
    case OP_COPY: if (s.d) { Handle h = s; h.own = h.v->k != K_PTR; h.stale = false; h.v = deep (h.v); if (h.v->k == K_PTR) s.own = false; hold (h.v); h.d = iot_data_copy (s.d); if (h.v->k != K_PTR && h.v->k != K_BOOL && h.v->k != K_NULL) SIM_CHECK (h.d != s.d, "copy-shares", "a copy is the original"); put (a, sj, h); } break;
    case OP_SHALLOW: if (s.d) { Handle h = s; h.v = shallow (s.v); hold (h.v); h.own = s.v->k >= K_VEC; if (!h.own) s.own = false; iot_data_t * x = iot_data_shallow_copy (h.d); h.d = x; put (a, sj, h); } break;
    case OP_CHECK: if (s.d) { iot_data_t * d = s.d; VP v = s.v; uint32_t rc = iot_data_ref_count (d); SIM_CHECK (rc >= 1 || iot_data_is_static (d), "reference-count", "a value in use has reference count %u", rc); verify (d, v); } break;
    case OP_FREE: put (a, si, Handle ()); break;
    case OP_MODIFY: modify (a, si, r, go); break;
    case OP_PATH:
    {
      if (!s.d || (s.v->k != K_MAP && s.v->k != K_VEC)) break;
      std::vector<VP> path; VP v = s.v; iot_data_t * d = s.d;
      VP at = pick_path (r, v, path, 1 + r.below (4));
      if (path.empty ()) break;
      Handle h; h.own = true; h.stale = s.stale;
      iot_data_t * pd = build_path (path);
      GenOpt g = go; g.depth = 1;
      switch (r.below (4))
      {
        case 0: { const iot_data_t * x = iot_data_get_at (d, pd); verify (x, at); break; }
        case 1: { VP e = gen_value (r, g, 0); h.v = replaced (v, path, 0, e); hold (h.v); h.d = iot_data_add_at (d, pd, build (e)); break; }
        case 2: h.v = removed (v, path, 0); hold (h.v); h.d = iot_data_remove_at (d, pd); break;
        default: { Upd u; u.seen = at; u.v = r.chance (0.7) ? gen_value (r, g, 0) : nullptr; h.v = replaced (v, path, 0, u.v ? u.v : at); hold (h.v); h.d = iot_data_update_at (d, pd, update_fn, &u); break; }
      }
      iot_data_free (pd);
      if (h.d) { sim_probe ("path_update"); iot_data_t * x = h.d; put (a, sj, h); (void) x; }
      break;
    }
    case OP_EQUAL:
    {
      Handle & e = sl[sj];
      if (!s.d || !e.d || s.stale || e.stale) break;
      VP x = s.v, y = e.v; iot_data_t * xd = s.d, * yd = e.d;
      bool eq = iot_data_equal (xd, yd);
      SIM_CHECK (eq == same (x, y), "value-damaged", "two values compare %s", eq ? "equal but differ" : "different but are equal");
      break;
    }
    case OP_BINTAKE:
    {
      if (!s.d || (s.v->k != K_BIN && s.v->k != K_ARR) || s.v->s.empty ()) break;
      // the value is emptied when ours is the only reference: the slot gives it up afterwards
      iot_data_t * d = s.d; VP v = s.v; uint32_t n;
      void * b = iot_data_binary_take (d, &n);
      SIM_CHECK (n == v->s.size () && !memcmp (b, v->s.data (), n), "value-damaged", "data taken from an array differ");
      SIM_CHECK (iot_data_address (d) || iot_data_array_length (d) == 0, "value-damaged", "an array that gave its data away still has %u elements", iot_data_array_length (d));
      sim_free (b);
      sim_probe ("binary_taken");
      Handle h; put (a, si, h);
      break;
    }
    case OP_CONVERT:
    {
      if (!s.d) break;
      iot_data_t * d = s.d; VP v = s.v;
      if (v->k == K_STR && !v->s.empty ()) { Handle h; h.own = true; h.v = mk (K_BIN); h.v->s = v->s; h.v->own = IOT_DATA_COPY; h.d = iot_data_binary_from_string (d); put (a, sj, h); }
      else if (!has_gap (v)) { char * j = iot_data_to_json (d); SIM_CHECK (j, "value-damaged", "no JSON text for a value"); sim_free (j); }
      break;
    }
    case OP_YIELD: sim_yield (); break;
    case OP_EXOTIC: exotic (a, si, sj, r); break;
  }
}

void gen_d01 (Rng & r, Plan & p)
{
  int actors = (int) r.range (2, 4);
  p.knobs.resize (1);
  p.knobs.push_back (actors);
  p.knobs.push_back ((int64_t) r.range (2, 5));
  p.knobs.push_back ((int64_t) r.range (0, 3));
  p.knobs.push_back (r.chance (0.3));
  // mostly: one actor builds and shares, all take, then everything is released
  int n = (int) r.range (8, 44);
  static const int w[] = { OP_NEW, OP_NEW, OP_NEW, OP_SHARE, OP_SHARE, OP_SHARE, OP_TAKE, OP_TAKE, OP_TAKE, OP_TAKE, OP_EMBED, OP_EMBED, OP_EMBED, OP_COPY, OP_COPY, OP_SHALLOW, OP_SHALLOW,
                           OP_CHECK, OP_CHECK, OP_FREE, OP_FREE, OP_FREE, OP_MODIFY, OP_MODIFY, OP_MODIFY, OP_PATH, OP_PATH, OP_EQUAL, OP_BINTAKE, OP_CONVERT, OP_YIELD, OP_EXOTIC, OP_EXOTIC, OP_EXOTIC, OP_EXOTIC };
  for (int i = 0; i < n; i++)
    p.ops.push_back ({ (int) r.below ((uint64_t) actors), w[r.below (sizeof w / sizeof *w)], (int64_t) r.below (8), (int64_t) r.next () & INT64_MAX, (int64_t) r.below (8) });
}

void run_d01 (const Plan & p)
{
  T = new D1 (); leaves = new std::vector<Leaf> ();
  int actors = (int) p.k (K_ACTORS);
  T->slot.resize ((size_t) actors, std::vector<Handle> ((size_t) p.k (K_SLOTS)));
  sim_heap_mark ();
  auto ops = by_actor (p, actors);
  std::vector<int> ids;
  for (int a = 0; a < actors; a++) ids.push_back (sim_spawn ("actor", [&, a] ()
  {
    if (p.k (K_HEAPPOL)) iot_data_alloc_heap (a & 1);
    for (auto & o : ops[(size_t) a]) step1 (p, a, o);
    drop_caches (a);
    for (size_t i = 0; i < T->slot[(size_t) a].size (); i++) put (a, i, Handle ());
    while (!T->mail.empty ()) { Handle h = T->mail.front (); T->mail.pop_front (); if (h.v) drop (h.v); iot_data_free (h.d); }
  }));
  sim_join_all (ids);
  size_t n = 0;
  for (size_t i = 0; i < leaves->size (); i++)
  {
    Leaf & l = (*leaves)[i];
    SIM_CHECK (l.holders == 0, "harness", "leaf %zu has %d holders at the end", i, l.holders);
    SIM_CHECK (l.freed == l.built, "free-count", "the free function of pointer %zu was called %d times", i, l.freed);
    n += (size_t) l.freed;
  }
  check_no_leaks ("after the last reference was released");
  sim_state (hmix (n, (uint64_t) leaves->size ()));
}
SCENARIO (data_lifetime, "D01", gen_d01, run_d01, nullptr, 3, "dr");

// ------------------------------------------------------------------ D02
enum { R_HASH, R_JSON, R_EQUAL, R_COMPARE, R_COPY, R_LOOKUP, R_VERIFY, R_SHALLOW, R_PATH, R_REF, R_CBOR, R_MERGE, R_FIND, R_TYPE, R_YIELD, R_PROBE };
const int NPROBE = 9;
struct D2 { VP v, w; iot_data_t * d = nullptr; uint32_t hash = 0; std::string json, cbor, probe[NPROBE]; int cmp = 0; std::vector<std::string> order; };
D2 * D;

int sgn (int x) { return (x > 0) - (x < 0); }
std::string json_of (const iot_data_t * d) { char * j = iot_data_to_json (d); std::string s = j ? j : "(none)"; sim_free (j); return s; }
std::string cbor_of (const iot_data_t * d)
{
  iot_data_t * b = iot_data_to_cbor (d);
  if (!b) return "(none)";
  std::string s ((const char *) iot_data_address (b), iot_data_array_size (b));
  iot_data_free (b);
  return s;
}
bool cborable (const VP & v) { return !has_gap (v); }
std::vector<std::string> key_order (const iot_data_t * d, bool back)
{
  std::vector<std::string> o;
  iot_data_map_iter_t it; iot_data_map_iter (d, &it);
  while (back ? iot_data_map_iter_prev (&it) : iot_data_map_iter_next (&it))
  {
    const iot_data_t * k = iot_data_map_iter_key (&it);
    VP kv = mk (K_U32);
    if (iot_data_type (k) == IOT_DATA_STRING) kv = mkstr (iot_data_string (k), 0); else kv->n = iot_data_ui32 (k);
    o.push_back (canon (kv));
  }
  if (back) std::reverse (o.begin (), o.end ());
  return o;
}

// Everything the reading functions say about a value, as text. Which of them: part
void tell (std::string & s, const char * f, ...) { char b[120]; va_list ap; va_start (ap, f); vsnprintf (b, sizeof b, f, ap); va_end (ap); s += b; }
void tell_arr (std::string & s, const iot_data_t * a)
{
  if (!a) { s += "none;"; return; }
  tell (s, "%d:%u:%u ", (int) iot_data_array_type (a), iot_data_array_length (a), iot_data_array_size (a));
  const unsigned char * p = (const unsigned char *) iot_data_address (a);
  for (uint32_t i = 0; i < iot_data_array_size (a) && i < 200; i++) tell (s, "%02x", p[i]);
  s += ';';
}
void probe_one (std::string & s, const iot_data_t * d, int part)
{
  iot_data_type_t ty = iot_data_type (d);
  switch (part)
  {
    case 0:
      tell (s, "%s %d%d%d%d%d %u;", iot_data_type_name (d), iot_data_is_of_type (d, IOT_DATA_MULTI), iot_data_is_of_type (d, IOT_DATA_STRING), iot_data_is_nan (d), iot_data_get_tag (d, IOT_DATA_TAG_USER1), iot_data_get_tag (d, IOT_DATA_TAG_USER2), iot_data_length (d));
      break;
    case 1:
    {
      static const iot_data_type_t to[] = { IOT_DATA_INT8, IOT_DATA_UINT16, IOT_DATA_INT32, IOT_DATA_UINT64, IOT_DATA_FLOAT32, IOT_DATA_FLOAT64, IOT_DATA_BOOL };
      for (auto t : to)
      {
        uint64_t v = 0; bool ok = ty <= IOT_DATA_BOOL && iot_data_cast (d, t, &v);
        tell (s, "%d%llx,", ok, ok ? (unsigned long long) v : 0);
      }
      break;
    }
    case 2:
      if (ty == IOT_DATA_MAP)
      {
        tell (s, "{%d %d %d%d ", (int) iot_data_map_type (d), (int) iot_data_map_key_type (d), iot_data_map_key_is_of_type (d, IOT_DATA_STRING), iot_data_map_key_is_of_type (d, IOT_DATA_MULTI));
        iot_data_map_iter_t it; iot_data_map_iter (d, &it);
        while (iot_data_map_iter_has_next (&it) && iot_data_map_iter_next (&it))
        {
          const iot_data_t * k = iot_data_map_iter_key (&it);
          if (iot_data_type (k) == IOT_DATA_STRING) { const char * ks = iot_data_map_iter_string_key (&it); tell (s, "%s=", ks ? ks : "?"); } else tell (s, "%u=", iot_data_ui32 (k));
          const iot_data_t * v = iot_data_map_iter_value (&it);
          if (iot_data_type (v) == IOT_DATA_STRING) { const char * x = iot_data_map_iter_string_value (&it); tell (s, "%s", x ? x : "?"); }
          if (iot_data_type (v) == IOT_DATA_BOOL) tell (s, "%d", iot_data_map_iter_bool_value (&it));
          s += ',';
        }
        while (iot_data_map_iter_prev (&it)) s += iot_data_type_name (iot_data_map_iter_value (&it))[0];
        const iot_data_t * f = iot_data_map_start ((iot_data_t *) d), * l = iot_data_map_end ((iot_data_t *) d);
        tell (s, "%d%d}", f ? (int) iot_data_type (f) : -1, l ? (int) iot_data_type (l) : -1);
      }
      break;
    case 3:
      if (ty == IOT_DATA_MAP) for (int i = 0; i < 16; i++)
      {
        iot_data_static_t ks; iot_data_alloc_const_string (&ks, names[i]); const iot_data_t * k = IOT_DATA_STATIC (&ks);
        const char * x = iot_data_map_get_string (d, k); int n = -1; double f = 0;
        tell (s, "%.20s %d%d %lld %llu %d %g ", x ? x : "-", iot_data_map_get_int (d, k, &n), n, (long long) iot_data_map_get_i64 (d, k, 5), (unsigned long long) iot_data_map_get_ui64 (d, k, 6), iot_data_map_get_bool (d, k, i & 1), iot_data_map_get_f64 (d, k, 0.5));
        tell (s, "%d%d%d%d%d%g;", !!iot_data_map_get_vector (d, k), !!iot_data_map_get_map (d, k), !!iot_data_map_get_array (d, k), !!iot_data_map_get_list (d, k), iot_data_map_get_number (d, k, IOT_DATA_FLOAT64, &f), f);
      }
      break;
    case 4:
      if (ty == IOT_DATA_MAP) for (int i = 0; i < 16; i++)
      {
        const char * k = names[i], * x = iot_data_string_map_get_string (d, k); int n = -1; float f = 0;
        tell (s, "%.20s %d%d %lld %llu %d %g ", x ? x : "-", iot_data_string_map_get_int (d, k, &n), n, (long long) iot_data_string_map_get_i64 (d, k, 5), (unsigned long long) iot_data_string_map_get_ui64 (d, k, 6), iot_data_string_map_get_bool (d, k, i & 1), iot_data_string_map_get_f64 (d, k, 0.5));
        tell (s, "%d%d%d%d%g;", !!iot_data_string_map_get_vector (d, k), !!iot_data_string_map_get_map (d, k), !!iot_data_string_map_get_list (d, k), iot_data_string_map_get_number (d, k, IOT_DATA_FLOAT32, &f), f);
      }
      break;
    case 5:
      if (ty == IOT_DATA_VECTOR)
      {
        tell (s, "[%d %u %u %u ", (int) iot_data_vector_type (d), iot_data_vector_element_count (d, IOT_DATA_STRING, true), iot_data_vector_element_count (d, IOT_DATA_MULTI, false), iot_data_vector_element_count (d, IOT_DATA_INT64, true));
        iot_data_vector_iter_t it; iot_data_vector_iter (d, &it);
        while (iot_data_vector_iter_has_next (&it) && iot_data_vector_iter_next (&it))
        {
          const iot_data_t * v = iot_data_vector_iter_value (&it); const char * x = iot_data_vector_iter_string_value (&it);
          tell (s, "%u%s%.20s,", iot_data_vector_iter_index (&it), v ? iot_data_type_name (v) : "-", x ? x : "");
        }
        while (iot_data_vector_iter_prev (&it)) tell (s, "%u", iot_data_vector_iter_index (&it));
        iot_data_t * a = iot_data_vector_to_array (d, IOT_DATA_FLOAT64, true); tell_arr (s, a); iot_data_free (a);
        a = iot_data_vector_to_array (d, IOT_DATA_UINT32, false); tell_arr (s, a); iot_data_free (a);
        a = iot_data_vector_to_vector (d, IOT_DATA_INT64, true); tell (s, "%u %08x", iot_data_vector_size (a), iot_data_hash (a)); iot_data_free (a);
        s += ']';
      }
      else if (ty == IOT_DATA_LIST)
      {
        tell (s, "(%d %u ", (int) iot_data_list_type (d), iot_data_list_length (d));
        iot_data_list_iter_t it; iot_data_list_iter (d, &it);
        while (iot_data_list_iter_has_next (&it) && iot_data_list_iter_next (&it)) { const char * x = iot_data_list_iter_string_value (&it); tell (s, "%s%.20s,", iot_data_type_name (iot_data_list_iter_value (&it)), x ? x : ""); }
        s += ')';
      }
      break;
    case 6:
      if (ty == IOT_DATA_ARRAY)
      {
        tell_arr (s, d);
        iot_data_array_iter_t it; iot_data_array_iter (d, &it);
        while (iot_data_array_iter_has_next (&it) && iot_data_array_iter_next (&it)) tell (s, "%u:%x,", iot_data_array_iter_index (&it), *(const uint32_t *) iot_data_array_iter_value (&it));
        while (iot_data_array_iter_prev (&it)) tell (s, "%u", iot_data_array_iter_index (&it));
        tell (s, "%d%d", iot_data_array_is_of_type (d, IOT_DATA_UINT32), iot_data_array_is_of_type (d, IOT_DATA_INT8));
        iot_data_t * a = iot_data_array_transform (d, IOT_DATA_INT16); tell_arr (s, a); iot_data_free (a);
      }
      else if (ty == IOT_DATA_STRING && *iot_data_string (d))
      {
        iot_data_t * b = iot_data_binary_from_string (d); tell_arr (s, b);
        iot_data_t * t = iot_data_string_from_binary (b); tell (s, "%d", t && iot_data_equal (t, d));
        iot_data_free (b); iot_data_free (t);
      }
      break;
    case 7:   // single values, by name and size of type, and the remaining ways to one element
    {
      tell (s, "%d %u ", (int) iot_data_name_type (iot_data_type_name (d)), iot_data_type_size (ty));
      if (ty <= IOT_DATA_BOOL)
      {
        tell (s, "%d%d ", iot_data_compare_value (d, d), iot_data_equal_value (d, d));
        switch (ty)
        {
          case IOT_DATA_INT8: tell (s, "%d", iot_data_i8 (d)); break;
          case IOT_DATA_UINT8: tell (s, "%u", iot_data_ui8 (d)); break;
          case IOT_DATA_INT16: tell (s, "%d", iot_data_i16 (d)); break;
          case IOT_DATA_UINT16: tell (s, "%u", iot_data_ui16 (d)); break;
          case IOT_DATA_INT32: tell (s, "%d", iot_data_i32 (d)); break;
          case IOT_DATA_UINT32: tell (s, "%u", iot_data_ui32 (d)); break;
          case IOT_DATA_INT64: tell (s, "%lld", (long long) iot_data_i64 (d)); break;
          case IOT_DATA_UINT64: tell (s, "%llu", (unsigned long long) iot_data_ui64 (d)); break;
          case IOT_DATA_FLOAT32: tell (s, "%a", iot_data_f32 (d)); break;
          case IOT_DATA_FLOAT64: tell (s, "%a", iot_data_f64 (d)); break;
          default: tell (s, "%d", iot_data_bool (d)); break;
        }
      }
      else if (ty == IOT_DATA_STRING) { const char * x = iot_data_string (d); tell (s, "%08x %08x %d", iot_hash (x), iot_hash_data ((const uint8_t *) x, strlen (x)), iot_util_string_is_uuid (x)); }
      else if (ty == IOT_DATA_ARRAY) { if (iot_data_array_length (d)) tell (s, "%02x", *(const unsigned char *) iot_data_array_get (d, iot_data_array_length (d) - 1)); }
      else if (ty == IOT_DATA_MAP) for (int i = 0; i < 16; i++)
      {
        iot_data_static_t ks; iot_data_alloc_const_string (&ks, names[i]); const iot_data_t * k = IOT_DATA_STATIC (&ks);
        const void * q = iot_data_map_get_pointer (d, k);
        tell (s, "%d%d%d", !!iot_data_map_get_typed (d, k, IOT_DATA_STRING), !!iot_data_map_get_typed (d, k, IOT_DATA_VECTOR), !!q);
      }
      else if (ty == IOT_DATA_VECTOR)
      {
        iot_data_vector_iter_t it; iot_data_vector_iter (d, &it);
        while (iot_data_vector_iter_next (&it)) { const char * x = iot_data_vector_iter_string_value (&it); tell (s, "%.20s%d,", x ? x : "-", !!iot_data_vector_get_pointer (d, iot_data_vector_iter_index (&it))); }
      }
      if (ty == IOT_DATA_LIST || ty == IOT_DATA_VECTOR || ty == IOT_DATA_MAP)
      {
        iot_data_iter_t it; iot_data_iter (d, &it);
        while (iot_data_iter_next (&it)) s += iot_data_type_name (iot_data_iter_value (&it) ? iot_data_iter_value (&it) : d)[0];
        while (iot_data_iter_prev (&it)) s += iot_data_type_name (iot_data_iter_value (&it) ? iot_data_iter_value (&it) : d)[0];
      }
      s += ';';
      break;
    }
    default:
    {
      iot_typecode_t tc; memset (&tc, 0, sizeof tc); iot_data_typecode (d, &tc);
      tell (s, "%d %d %d %08x;", (int) tc.type, (int) tc.key_type, (int) tc.element_type, iot_data_hash (d));
      break;
    }
  }
}
void probe_walk (std::string & s, const iot_data_t * d, int part)
{
  if (!d) { s += "-;"; return; }
  probe_one (s, d, part);
  switch (iot_data_type (d))
  {
    case IOT_DATA_MAP: { iot_data_map_iter_t it; iot_data_map_iter (d, &it); while (iot_data_map_iter_next (&it)) probe_walk (s, iot_data_map_iter_value (&it), part); break; }
    case IOT_DATA_VECTOR: for (uint32_t i = 0; i < iot_data_vector_size (d); i++) probe_walk (s, iot_data_vector_get (d, i), part); break;
    case IOT_DATA_LIST: { iot_data_iter_t it; iot_data_iter (d, &it); while (iot_data_iter_has_next (&it) && iot_data_iter_next (&it)) probe_walk (s, iot_data_iter_value (&it), part); break; }
    default: break;
  }
}
std::string probes (const iot_data_t * d, int part) { std::string s; probe_walk (s, d, part); return s; }

#define DIFF(...) sim_fail ("reader-differs", __VA_ARGS__)
void read_op (const Op & o)
{
  Rng r ((uint64_t) o.b);
  const iot_data_t * d = D->d; VP v = D->v;
  switch (o.code)
  {
    case R_HASH: { uint32_t h = iot_data_hash (d); if (h != D->hash) DIFF ("a concurrent reader computed hash %08x, a sequential one %08x", h, D->hash); break; }
    case R_JSON: if (!has_gap (v)) { std::string j = json_of (d); if (j != D->json) DIFF ("a concurrent reader converted to '%.60s', a sequential one to '%.60s'", j.c_str (), D->json.c_str ()); } break;
    case R_CBOR: if (cborable (v)) { std::string j = cbor_of (d); if (j != D->cbor) DIFF ("a concurrent reader's CBOR differs from a sequential one's"); } break;
    case R_EQUAL:
    {
      iot_data_t * t = build (v);
      bool left = r.chance (0.5);
      if (!(left ? iot_data_equal (d, t) : iot_data_equal (t, d))) DIFF ("a concurrent reader found the value different from an equal one");
      if (r.chance (0.5) && !iot_data_equal_value (d, t)) DIFF ("a concurrent reader found the value different from an equal one by value");
      iot_data_free (t);
      break;
    }
    case R_COMPARE:
    {
      iot_data_t * t = build (D->w);
      int c = sgn (iot_data_compare (d, t));
      if (c != D->cmp) DIFF ("a concurrent reader compared %d where a sequential one compares %d", c, D->cmp);
      iot_data_free (t);
      break;
    }
    case R_COPY:
    {
      iot_data_t * c = iot_data_copy (d);
      verify (c, v);
      if (iot_data_hash (c) != D->hash) DIFF ("a copy made by a concurrent reader has another hash");
      iot_data_free (c);
      break;
    }
    case R_SHALLOW:
    {
      iot_data_t * c = iot_data_shallow_copy (d);
      verify (c, shallow (v));
      if (iot_data_hash (c) != D->hash) DIFF ("a shallow copy made by a concurrent reader has hash %08x, not %08x", iot_data_hash (c), D->hash);
      if (!iot_data_equal (c, d)) DIFF ("a shallow copy made by a concurrent reader differs");
      iot_data_free (c);
      break;
    }
    case R_LOOKUP:
      if (v->k == K_MAP)
      {
        VP k = rndkey (r); auto e = v->map.find (canon (k));
        const iot_data_t * x;
        if (k->k == K_STR && r.chance (0.5)) x = iot_data_string_map_get (d, k->s.c_str ());
        else { iot_data_t * kd = build_key (k); x = iot_data_map_get (d, kd); iot_data_free (kd); }
        verify (x, e == v->map.end () ? nullptr : e->second.second);
        std::vector<std::string> ord = key_order (d, r.chance (0.3));
        if (ord != D->order) DIFF ("a concurrent reader iterated a map in another order");
      }
      else if (v->k == K_VEC && !v->items.empty ()) { size_t i = r.below (v->items.size ()); verify (iot_data_vector_get (d, (uint32_t) i), v->items[i]); }
      break;
    case R_VERIFY: verify (d, v); break;
    case R_PATH:
    {
      std::vector<VP> path; VP at = pick_path (r, v, path, 4);
      if (path.empty ()) break;
      iot_data_t * pd = build_path (path);
      verify (iot_data_get_at (d, pd), at);
      iot_data_t * n = iot_data_remove_at (d, pd); verify (n, removed (v, path, 0)); iot_data_free (n);
      iot_data_free (pd);
      break;
    }
    case R_REF: { iot_data_t * x = iot_data_add_ref (d); sim_yield (); iot_data_free (x); break; }
    case R_MERGE:
      if (v->k == K_MAP)
      {
        iot_data_t * m = iot_data_alloc_map (IOT_DATA_MULTI);
        iot_data_map_merge (m, d); verify (m, shallow (v));
        if (iot_data_hash (m) != D->hash) DIFF ("a merge of the value by a concurrent reader has another hash");
        iot_data_free (m);
      }
      else if (v->k == K_VEC)
      {
        uint32_t t = 0; iot_data_t * n = iot_data_alloc_vector (1);
        iot_data_vector_add (n, 0, iot_data_add_ref (d));
        if (iot_data_hash (n) != D->hash) DIFF ("a vector made from the value by a concurrent reader has another hash");
        iot_data_free (n); (void) t;
      }
      else if (v->k == K_LIST)
      {
        iot_data_t * n = iot_data_alloc_list ();
        iot_data_list_tail_push (n, iot_data_add_ref (d));
        if (iot_data_hash (n) != D->hash) DIFF ("a list made from the value by a concurrent reader has another hash");
        iot_data_free (n);
      }
      break;
    case R_FIND:
      if (v->k == K_LIST)
      {
        iot_data_list_iter_t it; iot_data_list_iter (d, &it); size_t n = 0;
        while (iot_data_list_iter_next (&it))
        {
          Match m { iot_data_list_iter_value (&it) };
          if (n >= v->items.size ()) DIFF ("a concurrent reader sees too many list elements");
          verify (m.d, v->items[v->items.size () - 1 - n++]);
          if (iot_data_list_find (d, match_fn, &m) != m.d) DIFF ("a concurrent reader does not find a list element");
        }
      }
      else if (v->k == K_VEC)
      {
        iot_data_vector_iter_t it; iot_data_vector_iter (d, &it); size_t n = 0;
        while (iot_data_vector_iter_next (&it)) { if (n >= v->items.size ()) DIFF ("a concurrent reader sees too many vector elements"); verify (iot_data_vector_iter_value (&it), v->items[n++]); }
        if (n != v->items.size ()) DIFF ("a concurrent reader sees %zu of %zu vector elements", n, v->items.size ());
      }
      else if (v->k == K_MAP)
      {
        iot_data_iter_t it; iot_data_iter (d, &it); size_t n = 0;
        while (iot_data_iter_next (&it)) n++;
        if (n != v->map.size ()) DIFF ("a concurrent reader sees %zu of %zu map entries", n, v->map.size ());
      }
      break;
    case R_TYPE:
    {
      iot_typecode_t tc; iot_data_typecode (d, &tc);
      if (!iot_data_matches (d, &tc)) DIFF ("a value does not match its own type");
      size_t n = v->k == K_MAP ? v->map.size () : v->items.size ();
      if (iot_data_length (d) != n) DIFF ("a concurrent reader sees length %u, not %zu", iot_data_length (d), n);
      break;
    }
    case R_PROBE:
    {
      int part = (int) r.below (NPROBE);
      std::string t = probes (d, part);
      if (t != D->probe[part]) DIFF ("a concurrent reader learns '%.100s', a sequential one '%.100s'", t.c_str (), D->probe[part].c_str ());
      break;
    }
    case R_YIELD: sim_yield (); break;
  }
}

void gen_d02 (Rng & r, Plan & p)
{
  int actors = (int) r.range (2, 4);
  p.knobs.resize (1);
  p.knobs.push_back (actors);
  p.knobs.push_back ((int64_t) r.next () & INT64_MAX);
  p.knobs.push_back (r.range (1, 3));
  int n = (int) r.range (2, 16);
  static const int w[] = { R_HASH, R_HASH, R_HASH, R_EQUAL, R_EQUAL, R_COMPARE, R_COMPARE, R_COPY, R_SHALLOW, R_LOOKUP, R_JSON, R_VERIFY, R_PATH, R_REF, R_CBOR, R_MERGE, R_MERGE, R_FIND, R_TYPE, R_PROBE, R_PROBE, R_PROBE, R_PROBE };
  for (int i = 0; i < n; i++) p.ops.push_back ({ (int) r.below ((uint64_t) actors), w[r.below (sizeof w / sizeof *w)], 0, (int64_t) r.next () & INT64_MAX, 0 });
}
void run_d02 (const Plan & p)
{
  D = new D2 (); T = new D1 (); leaves = new std::vector<Leaf> ();
  int actors = (int) p.k (K_ACTORS);
  Rng r ((uint64_t) p.k (2));
  GenOpt go { false, true, true, (int) p.k (3) };
  sim_heap_mark ();
  do D->v = gen_value (r, go, 0); while (D->v->k < K_VEC);
  // the other value differs in one place only, or altogether
  if (r.chance (0.7) && (!D->v->items.empty () || !D->v->map.empty ()))
  {
    std::vector<VP> path; pick_path (r, D->v, path, 3);
    VP e; do e = gen_value (r, go, go.depth); while (e->k == K_NULL);
    if (path.empty ()) { D->w = clone (D->v); D->w->items[r.below (D->w->items.size ())] = e; } else D->w = replaced (D->v, path, 0, e);
  }
  else do D->w = gen_value (r, go, 0); while (D->w->k < K_VEC);
  // what a single thread obtains, from an identically built value
  iot_data_t * t = build (D->v), * w = build (D->w);
  D->cmp = sgn (iot_data_compare (t, w));
  D->hash = iot_data_hash (t);
  if (!has_gap (D->v)) { D->json = json_of (t); D->cbor = cbor_of (t); }
  if (D->v->k == K_MAP) D->order = key_order (t, false);
  for (int i = 0; i < NPROBE; i++) D->probe[i] = probes (t, i);
  iot_data_free (t); iot_data_free (w);
  D->d = build (D->v);
  auto ops = by_actor (p, actors);
  std::vector<int> ids;
  for (int a = 0; a < actors; a++) ids.push_back (sim_spawn ("reader", [&, a] () { for (auto & o : ops[(size_t) a]) read_op (o); }));
  sim_join_all (ids);
  verify (D->d, D->v);
  if (iot_data_hash (D->d) != D->hash) DIFF ("after concurrent reads the hash is %08x, not %08x", iot_data_hash (D->d), D->hash);
  SIM_CHECK (iot_data_ref_count (D->d) == 1, "reference-count", "after concurrent reads the value has %u references", iot_data_ref_count (D->d));
  iot_data_free (D->d);
  check_no_leaks ("after the value was released");
  sim_state (hmix (D->hash, (uint64_t) actors));
}

// ------------------------------------------------------------------ D03
enum { M_NEW, M_COPY, M_MODIFY, M_VERIFY, M_FREE, M_POLICY, M_BLOCK, M_UNBLOCK, M_JSON, M_COMPRESS, M_FMT, M_CBOR, M_XML, M_CROSS, M_SORT, M_YIELD, M_EXOTIC };
struct Blk { void * p; unsigned char fill; };
struct D3 { std::vector<std::vector<Blk>> blk; std::map<uintptr_t, int> live; std::vector<bool> heap; bool pooled = false; };
D3 * M;
size_t blk_size;

void own_block (const void * p, int a, const char * what)
{
  uintptr_t x = (uintptr_t) p;
  auto i = M->live.lower_bound (x - blk_size + 1);
  SIM_CHECK (i == M->live.end () || i->first >= x + blk_size, "block-twice", "%s of actor %d got memory that actor %d is using", what, a, i->second);
  SIM_CHECK (sim_addr_live (p), "block-free", "%s of actor %d got released memory", what, a);
  M->live[x] = a;
}
void mem_op (const Plan & p, int a, const Op & o)
{
  Rng r ((uint64_t) o.b);
  GenOpt go { true, true, true, (int) p.k (K_DEPTH) };
  auto & sl = T->slot[(size_t) a];
  size_t si = (size_t) o.a % sl.size (), sj = (size_t) o.c % sl.size ();
  Handle & s = sl[si];
  auto & bl = M->blk[(size_t) a];
  switch (o.code)
  {
    case M_NEW: step1 (p, a, { a, OP_NEW, o.a, o.b, o.c }); break;
    case M_COPY: step1 (p, a, { a, OP_COPY, o.a, o.b, o.c }); break;
    case M_MODIFY: step1 (p, a, { a, OP_MODIFY, o.a, o.b, o.c }); break;
    case M_FREE: step1 (p, a, { a, OP_FREE, o.a, o.b, o.c }); break;
    case M_VERIFY: step1 (p, a, { a, OP_CHECK, o.a, o.b, o.c }); break;
    case M_POLICY:
    {
      bool set = r.chance (0.5), was = M->heap[(size_t) a];
      M->heap[(size_t) a] = set;
      bool old = iot_data_alloc_heap (set);
      SIM_CHECK (old == was, "policy", "a thread's allocation policy was %d where it had set %d", old, was);
      break;
    }
    case M_BLOCK:
    {
      if (r.chance (0.2)) { void * x = iot_data_block_alloc (blk_size + 1 + r.below (100)); SIM_CHECK (!x, "block-too-big", "a block larger than the block size was handed out"); break; }
      size_t n = 1 + r.below (blk_size);
      unsigned char f = (unsigned char) (1 + r.below (254));
      unsigned char * b = (unsigned char *) iot_data_block_alloc (n);
      SIM_CHECK (b, "block-none", "no block for %zu bytes", n);
      own_block (b, a, "a block");
      for (size_t i = 0; i < blk_size; i++) SIM_CHECK (!b[i], "block-dirty", "byte %zu of a new block is %02x", i, b[i]);
      memset (b, f, blk_size);
      bl.push_back ({ b, f });
      break;
    }
    case M_UNBLOCK:
    {
      if (bl.empty ()) break;
      size_t i = r.below (bl.size ()); Blk b = bl[i]; bl.erase (bl.begin () + (long) i);
      for (size_t k = 0; k < blk_size; k++) SIM_CHECK (((unsigned char *) b.p)[k] == b.fill, "block-overwritten", "byte %zu of a block in use was overwritten", k);
      M->live.erase ((uintptr_t) b.p);
      iot_data_block_free (b.p);
      break;
    }
    case M_JSON:
    {
      if (!s.d) break;
      std::string t = "{\"name\":\"" + std::string (r.below (50), 'n') + "\",\"list\":[1,2.5,true,null,\"x\"],\"sub\":{\"k\":" + std::to_string (r.below (1000)) + "}}";
      iot_data_t * d = iot_data_from_json (t.c_str ());
      SIM_CHECK (d, "value-damaged", "a JSON text was not understood");
      std::string back = json_of (d);
      iot_data_t * e = iot_data_from_json (back.c_str ());
      SIM_CHECK (e && iot_data_equal (d, e), "value-damaged", "a JSON value does not survive conversion: '%.80s'", back.c_str ());
      iot_data_free (d); iot_data_free (e);
      sim_probe ("json_roundtrip");
      break;
    }
    case M_COMPRESS:
    {
      if (!s.d || s.v->k < K_VEC || !s.own || s.stale) break;
      iot_data_t * d = s.d; VP v = s.v;
      if (has_gap (v)) break;
      std::function<bool (const VP &)> ptr = [&] (const VP & x) { if (!x->meta.empty () || x->k == K_PTR) return true; for (auto & i : x->items) if (ptr (i)) return true; for (auto & m : x->map) if (ptr (m.second.second)) return true; return false; };
      if (ptr (v)) break;
      iot_data_t * c = iot_data_copy (d);   // compression rewrites nested values: only on a value nobody shares
      iot_data_compress (c);
      verify (c, v);
      iot_data_free (c);
      sim_probe ("compressed");
      break;
    }
    case M_FMT:
    {
      std::string t (r.below (80), (char) ('a' + r.below (26))); int n = (int) r.below (100000);
      iot_data_t * d = iot_data_alloc_string_fmt ("%s-%d", t.c_str (), n);
      sim_yield ();
      std::string e = t + "-" + std::to_string (n);
      SIM_CHECK (e == iot_data_string (d), "value-damaged", "a formatted string reads '%.60s'", iot_data_string (d));
      if (M->pooled && !M->heap[(size_t) a]) sim_probe ("pooled_value");
      iot_data_t * i = iot_data_alloc_from_string (IOT_DATA_INT32, std::to_string (n).c_str ());
      SIM_CHECK (i && iot_data_i32 (i) == n, "value-damaged", "a parsed number differs");
      iot_data_free (d); iot_data_free (i);
      break;
    }
    case M_CBOR: if (s.d && !has_gap (s.v)) { iot_data_t * d = s.d; std::string x = cbor_of (d), y = cbor_of (d); SIM_CHECK (x == y, "value-damaged", "two conversions of a value to CBOR differ"); } break;
    case M_XML:
    {
      std::string v (1 + r.below (60), (char) ('a' + r.below (26)));
      std::string t = "<top id=\"" + v + "\"><sub>" + v + "</sub></top>";
      iot_data_t * d = iot_data_from_xml (t.c_str ());
      SIM_CHECK (d, "value-damaged", "an XML text was not understood");
      std::string j = json_of (d);
      SIM_CHECK (j.find (v) != std::string::npos, "value-damaged", "text of an XML document was lost");
      iot_data_free (d);
      break;
    }
    case M_CROSS: // hand a value to the next thread, which releases it under its own policy
      if (s.d && s.own) { Handle h = s; s = Handle (); T->mail.push_back (h); sim_probe ("handed_over"); }
      else if (!T->mail.empty ()) { Handle h = T->mail.front (); T->mail.pop_front (); verify (h.d, h.v); put (a, sj, h); }
      break;
    case M_SORT:
    {
      iot_data_t * d = iot_data_alloc_i64 ((int64_t) r.next ());
      bool heap = M->heap[(size_t) a];
      own_block (d, a, "a value");
      if (heap || !M->pooled) SIM_CHECK (sim_block_size (d) > 0, "policy", "a value of a thread using plain memory came from the pool");
      else SIM_CHECK (sim_block_size (d) == 0 || sim_block_size (d) == 4096, "policy", "a value of a thread using the pool came from plain memory");
      sim_yield ();
      M->live.erase ((uintptr_t) d);
      iot_data_free (d);
      break;
    }
    case M_YIELD: sim_yield (); break;
    case M_EXOTIC: step1 (p, a, { a, OP_EXOTIC, o.a, o.b, o.c }); break;
  }
}
void gen_d03 (Rng & r, Plan & p)
{
  int actors = (int) r.range (2, 5);
  p.knobs.resize (1);
  p.knobs.push_back (actors);
  p.knobs.push_back ((int64_t) r.range (1, 4));
  p.knobs.push_back ((int64_t) r.range (0, 2));
  p.knobs.push_back (0);
  int n = (int) r.range (6, 40);
  static const int w[] = { M_NEW, M_NEW, M_NEW, M_COPY, M_COPY, M_MODIFY, M_MODIFY, M_VERIFY, M_VERIFY, M_FREE, M_FREE, M_POLICY, M_POLICY, M_BLOCK, M_BLOCK, M_BLOCK, M_UNBLOCK, M_UNBLOCK, M_UNBLOCK,
                           M_JSON, M_COMPRESS, M_COMPRESS, M_FMT, M_CBOR, M_XML, M_CROSS, M_CROSS, M_SORT, M_SORT, M_YIELD, M_EXOTIC, M_EXOTIC, M_EXOTIC };
  bool blocks = r.chance (0.25);   // many blocks, so that the pool grows
  for (int i = 0; i < n * (blocks ? 3 : 1); i++)
  {
    int c = blocks ? r.pick ({ (int) M_BLOCK, (int) M_BLOCK, (int) M_BLOCK, (int) M_BLOCK, (int) M_UNBLOCK, (int) M_UNBLOCK, (int) M_UNBLOCK, (int) M_SORT }) : w[r.below (sizeof w / sizeof *w)];
    p.ops.push_back ({ (int) r.below ((uint64_t) actors), c, (int64_t) r.below (8), (int64_t) r.next () & INT64_MAX, (int64_t) r.below (8) });
  }
}
void run_d03 (const Plan & p)
{
  T = new D1 (); M = new D3 (); leaves = new std::vector<Leaf> ();
  int actors = (int) p.k (K_ACTORS);
  T->slot.resize ((size_t) actors, std::vector<Handle> ((size_t) p.k (K_SLOTS)));
  M->blk.resize ((size_t) actors); M->heap.resize ((size_t) actors);
  blk_size = iot_data_block_size ();
  sim_heap_mark ();
  { void * b = iot_data_block_alloc (1); void * c = iot_data_block_alloc (1); M->pooled = sim_block_size (b) != blk_size && sim_block_size (c) != blk_size; iot_data_block_free (b); iot_data_block_free (c); }
  auto ops = by_actor (p, actors);
  std::vector<int> ids;
  for (int a = 0; a < actors; a++) ids.push_back (sim_spawn ("actor", [&, a] ()
  {
    for (auto & o : ops[(size_t) a]) mem_op (p, a, o);
    drop_caches (a);
    for (size_t i = 0; i < T->slot[(size_t) a].size (); i++) { if (T->slot[(size_t) a][i].d) verify (T->slot[(size_t) a][i].d, T->slot[(size_t) a][i].v); put (a, i, Handle ()); }
    while (!M->blk[(size_t) a].empty ()) mem_op (p, a, { a, M_UNBLOCK, 0, (int64_t) M->blk[(size_t) a].size (), 0 });
    while (!T->mail.empty ()) { Handle h = T->mail.front (); T->mail.pop_front (); if (h.v) drop (h.v); iot_data_free (h.d); }
  }));
  sim_join_all (ids);
  for (size_t i = 0; i < leaves->size (); i++) SIM_CHECK ((*leaves)[i].freed == (*leaves)[i].built, "free-count", "the free function of pointer %zu was called %d times", i, (*leaves)[i].freed);
  // every block handed out from here on is distinct, so none is in the pool twice
  std::set<void *> seen; std::vector<void *> all;
  for (int i = 0; i < 150; i++) { void * b = iot_data_block_alloc (1); SIM_CHECK (seen.insert (b).second, "block-twice", "the same block was handed out twice"); all.push_back (b); }
  for (void * b : all) iot_data_block_free (b);
  check_no_leaks ("after everything was released");
  sim_state (hmix (leaves->size (), (uint64_t) actors));
}
SCENARIO (data_readers, "D02", gen_d02, run_d02, nullptr, 3, "dr");
SCENARIO (data_memory, "D03", gen_d03, run_d03, nullptr, 3, "dr");
}
