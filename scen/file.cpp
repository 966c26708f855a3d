// Files and the configuration store: F01 .. F04
#include "common.h"
#include "iot/file.h"
#include "iot/store.h"
#include <dirent.h>

int sim_open_regex ();
namespace
{
// Contents that name their file, version and length, so that any mixture or prefix shows
std::string content (int file, int ver, size_t len)
{
  char h[48]; snprintf (h, sizeof h, "F%dV%dL%zu:", file, ver, len);
  std::string s = h;
  uint64_t x = (uint64_t) file * 7919 + (uint64_t) ver * 104729 + 12345;
  while (s.size () < len) { x = x * 6364136223846793005ull + 1442695040888963407ull; s += (char) ('!' + (x >> 33) % 90); }
  s.resize (len);
  return s;
}
size_t rnd_size (Rng & r) { return r.chance (0.5) ? 16 + r.below (200) : r.chance (0.5) ? 4000 + r.below (200) : (size_t) r.logrange (16, 30000); }

// Writes through one of the interfaces
bool put (int how, const std::string & path, const std::string & s)
{
  switch (how & 3)
  {
    case 0: return iot_file_write (path.c_str (), s.c_str ());
    case 1: return iot_file_write_binary (path.c_str (), (const uint8_t *) s.data (), s.size ());
    case 2: return iot_store_write (path.c_str (), s.c_str ());
    default: return iot_store_write_binary (path.c_str (), (const uint8_t *) s.data (), s.size ());
  }
}
// Reads; false when there is nothing. Checks length and terminator.
bool get (int how, const std::string & path, std::string & out)
{
  size_t len = 0x5A5A5A; uint8_t * b; bool text = !(how & 1);
  switch (how & 3)
  {
    case 0: b = (uint8_t *) iot_file_read (path.c_str ()); break;
    case 1: b = iot_file_read_binary (path.c_str (), &len); break;
    case 2: b = (uint8_t *) iot_store_read (path.c_str ()); break;
    default: b = iot_store_read_binary (path.c_str (), &len); break;
  }
  if (!b)
  {
    SIM_CHECK (text || len == 0, "length-without-data", "reading %.40s returned nothing but a length of %zu", path.c_str (), len);
    return false;
  }
  size_t blk = sim_block_size (b);
  if (text)
  {
    len = 0; while (len < blk && b[len]) len++;
    SIM_CHECK (len < blk, "not-terminated", "the text read from %.40s is not terminated", path.c_str ());
  }
  else
  {
    SIM_CHECK (len && len < blk, "wrong-length", "reading %.40s returned %zu bytes of storage and a length of %zu", path.c_str (), blk, len);
    SIM_CHECK (b[len] == 0, "not-terminated", "the data read from %.40s is not terminated", path.c_str ());
  }
  out.assign ((const char *) b, len);
  sim_free (b);
  return true;
}

// ================================================================== F01: atomic replacement, crashes
namespace f01
{
enum { WRITE, DELETE, READ };
const int MAXF = 3, MAXV = 64;
struct Sh { int nf; struct { int cur, inflight, nmaybe; int maybe[MAXV]; int nver; int len[MAXV]; bool exist0; int everv; } f[MAXF]; };
Sh * sh;
std::string path (int f) { return f == 2 ? "data/sub/" + std::string (180, 'p') + ".bin" : "data/f" + std::to_string (f) + ".json"; }
// knobs: 1 files, 2 writers, 3 readers, 4 crash (0 none, 1 process, 2 power, 3 both), 5 I/O errors, 6 initially present (mask)
void gen (Rng & r, Plan & p)
{
  int nf = 1 + (int) r.below (3), nw = 1 + (int) r.below (2), nr = (int) r.below (3);
  p.knobs.resize (1);
  p.knobs.push_back (nf); p.knobs.push_back (nw); p.knobs.push_back (nr); p.knobs.push_back ((int64_t) r.pick ({ 0, 1, 2, 2, 3 })); p.knobs.push_back (r.chance (0.35)); p.knobs.push_back ((int64_t) r.below (8));
  int n = 2 + (int) r.below (14);
  for (int i = 0; i < n; i++)
  {
    int f = (int) r.below ((uint64_t) nf);
    if (nr && r.chance (0.5)) p.ops.push_back ({ nw + (int) r.below ((uint64_t) nr), READ, f, (int64_t) r.below (4), 0 });
    else if (r.chance (0.1)) p.ops.push_back ({ f % nw, DELETE, f, 0, 0 });
    else p.ops.push_back ({ f % nw, WRITE, f, (int64_t) rnd_size (r), (int64_t) r.below (4) });
  }
}
// which version a text is: -1 none; fails when it is no complete version
int which (int f, bool there, const std::string & s, const char * when)
{
  if (!there) return -1;
  int a = -1, v = -1; size_t l = 0;
  SIM_CHECK (sscanf (s.c_str (), "F%dV%dL%zu:", &a, &v, &l) == 3 && a == f && v >= 0 && v < sh->f[f].nver, "torn-contents", "%s file %d holds %zu bytes that are no version of it: %.30s", when, f, s.size (), s.c_str ());
  std::string want = content (f, v, (size_t) sh->f[f].len[v]);
  SIM_CHECK (s == want, "torn-contents", "%s file %d holds %zu bytes of version %d, which has %zu (first difference at %zu)", when, f, s.size (), v, want.size (), (size_t) (std::mismatch (s.begin (), s.begin () + (long) std::min (s.size (), want.size ()), want.begin ()).first - s.begin ()));
  return v;
}
struct W { int v; uint64_t call, ret; bool ok; };
void run (const Plan & p)
{
  sh = (Sh *) sim_shared_area (sizeof (Sh)); memset (sh, 0, sizeof (*sh));
  int nf = (int) std::min<int64_t> (MAXF, std::max<int64_t> (1, p.k (1))), nw = (int) std::max<int64_t> (1, p.k (2)), na = nw + (int) p.k (3);
  sh->nf = nf;
  fs_mkdir ("data"); fs_mkdir ("data/sub");
  for (int f = 0; f < nf; f++)
  {
    auto & x = sh->f[f]; x.cur = -1; x.inflight = -2; x.exist0 = (p.k (6) >> f) & 1;
    if (x.exist0) { x.len[0] = 300 * (f + 1); x.nver = 1; x.cur = 0; fs_put (path (f).c_str (), content (f, 0, (size_t) x.len[0])); }
  }
  bool errors = p.k (5);
  if (errors) for (int k : { FK_OPEN_FAIL, FK_WRITE_ENOSPC, FK_WRITE_EIO, FK_CLOSE_FAIL, FK_RENAME_FAIL, FK_FSYNC_FAIL, FK_REMOVE_FAIL }) sim_conf.fault_p[k] = 0.08;
  sim_conf.fault_p[FK_WRITE_SHORT] = 0.1; sim_conf.fault_p[FK_IO_DELAY] = 0.1;
  int cm = (int) p.k (4);
  if (cm & 1) sim_conf.fault_p[FK_CRASH] = 0.02;
  if (cm & 2) sim_conf.fault_p[FK_POWERLOSS] = 0.02;
  sim_enable_crash (cm != 0);
  static std::vector<std::vector<W>> hist; hist.assign ((size_t) nf, {});
  for (int f = 0; f < nf; f++) hist[(size_t) f].push_back ({ sh->f[f].cur, 0, 0, true });
  sim_heap_mark ();
  std::vector<int> ids;
  for (int a = 0; a < na; a++) ids.push_back (sim_spawn (a < nw ? "writer" : "reader", [&, a]
  {
    for (auto & o : p.ops)
    {
      int f = (int) o.a;
      if (o.actor != a || f >= nf) continue;
      std::string pa = path (f);
      if (o.code == READ)
      {
        if (a < nw) continue;
        uint64_t call = sim_event (); std::string s;
        bool there = get ((int) o.b, pa, s);
        uint64_t ret = sim_event ();
        int v = which (f, there, s, "a reader found that");
        if (v < 0 && errors) continue; // the open may have failed
        auto & h = hist[(size_t) f]; size_t l = 0;
        for (size_t i = 0; i < h.size (); i++) if (h[i].ok && h[i].ret < call && h[i].ret + 1) l = i;
        bool okv = h[l].v == v;
        for (size_t i = l + 1; i < h.size () && !okv; i++) if (h[i].call < ret && h[i].v == v) okv = true;
        SIM_CHECK (okv, "stale-contents", "a reader got version %d of file %d although version %d had been written before", v, f, h[l].v);
        sim_probe ("concurrent-read");
        continue;
      }
      if (f % nw != a || sh->f[f].nver >= MAXV) continue;
      auto & x = sh->f[f];
      int v = -1;
      if (o.code == WRITE) { v = x.nver++; x.len[v] = (int) std::max<int64_t> (o.b, 16); }
      x.inflight = v;
      auto & h = hist[(size_t) f];
      h.push_back ({ v, sim_event (), UINT64_MAX, false }); size_t hi = h.size () - 1;
      std::string s = v >= 0 ? content (f, v, (size_t) x.len[v]) : "";
      bool existed = fs_exists (pa.c_str ());
      bool ok = v >= 0 ? put ((int) o.c, pa, s) : (o.b & 1) ? iot_store_delete (pa.c_str ()) : iot_file_delete (pa.c_str ());
      hist[(size_t) f][hi].ret = sim_event (); hist[(size_t) f][hi].ok = ok;
      x.inflight = -2;
      if (ok) { x.cur = v; x.nmaybe = 0; } else x.maybe[x.nmaybe++] = v;
      SIM_CHECK (ok || errors || (v < 0 && !existed), "healthy-write-failed", "%s file %d reported failure although nothing failed", v >= 0 ? "writing" : "deleting", f);
      std::string now; bool there = fs_get (pa.c_str (), now);
      int w = which (f, there, now, "after a write");
      if (ok) SIM_CHECK (w == v, "wrong-contents", "file %d holds version %d after version %d was written", f, w, v);
      sim_state (hmix ((uint64_t) (v & 7), (uint64_t) ok));
    }
  }));
  sim_join_all (ids);
  sim_enable_crash (false);
  check_no_leaks ("file access");
  SIM_CHECK (fs_open_handles () == 0, "handle-leak", "%d files are still open", fs_open_handles ());
}
void recover (const Plan & p)
{
  sh = (Sh *) sim_shared_area (sizeof (Sh));
  // what is on the disk now is what survived
  for (int f = 0; f < sh->nf; f++)
  {
    auto & x = sh->f[f]; std::string s, pa = path (f);
    bool there = get (f & 3, pa, s);
    int v = which (f, there, s, "after a crash");
    bool ok = v == x.cur || v == x.inflight;
    for (int i = 0; i < x.nmaybe; i++) ok = ok || x.maybe[i] == v;
    if ((p.k (4) & 2) && !ok) { ok = v < x.cur || x.cur < 0; sim_probe ("older-version-after-power-loss"); }
    SIM_CHECK (ok, "lost-write", "after a crash file %d holds version %d although version %d was written and nothing newer was begun but %d", f, v, x.cur, x.inflight);
    sim_probe (x.inflight >= -1 ? "crash-in-write" : "crash-elsewhere");
  }
  // whatever the crash left behind does not stop later writes
  for (int f = 0; f < sh->nf; f++)
  {
    auto & x = sh->f[f]; if (x.nver >= MAXV) continue;
    int v = x.nver++; x.len[v] = 700; std::string s = content (f, v, 700), pa = path (f), now;
    SIM_CHECK (put (f & 3, pa, s), "healthy-write-failed", "file %d cannot be written after a crash", f);
    SIM_CHECK (fs_get (pa.c_str (), now) && now == s, "wrong-contents", "file %d is wrong after being written following a crash", f);
  }
}
}
SCENARIO (file_crash, "F01", f01::gen, f01::run, f01::recover, 1, "dr");

// ================================================================== F02: truthful outcomes
namespace f02
{
enum { WRITE, DELETE };
// knobs: 1 actors, 2 files, 3 fault rate %, 4 failing removes, 5 disk size
std::string path (int f) { switch (f) { case 0: return "data/a.json"; case 1: return "data/b"; case 2: return "c.json"; case 3: return "data/" + std::string (235, 'n'); case 4: return "data/" + std::string (255, 'n'); default: return "nodir/x.json"; } }
void gen (Rng & r, Plan & p)
{
  int na = 1 + (int) r.below (2), nf = 2 + (int) r.below (5);
  p.knobs.resize (1);
  p.knobs.push_back (na); p.knobs.push_back (nf); p.knobs.push_back ((int64_t) r.pick ({ 0, 3, 10, 30 })); p.knobs.push_back (r.chance (0.3)); p.knobs.push_back (r.chance (0.3) ? (int64_t) r.logrange (100, 40000) : 0);
  int n = 3 + (int) r.below (20);
  for (int i = 0; i < n; i++)
  {
    int f = (int) r.below ((uint64_t) nf);
    if (r.chance (0.25)) p.ops.push_back ({ f % na, DELETE, f, (int64_t) r.below (3), 0 });
    else p.ops.push_back ({ f % na, WRITE, f, (int64_t) rnd_size (r), (int64_t) r.below (5) });
  }
}
void run (const Plan & p)
{
  int na = (int) std::max<int64_t> (1, p.k (1)), nf = (int) p.k (2);
  double f = (double) p.k (3) / 100;
  for (int k : { FK_OPEN_FAIL, FK_WRITE_ENOSPC, FK_WRITE_EIO, FK_CLOSE_FAIL, FK_RENAME_FAIL, FK_FSYNC_FAIL }) sim_conf.fault_p[k] = f;
  if (p.k (4)) sim_conf.fault_p[FK_REMOVE_FAIL] = 0.3;
  sim_conf.fault_p[FK_WRITE_SHORT] = 0.15;
  fs_mkdir ("data");
  fs_put ("data/a.json", "{\"initial\":true}");
  if (p.k (5)) fs_setcap ((uint64_t) p.k (5));
  sim_heap_mark ();
  std::vector<int> ids; int ver = 0;
  for (int a = 0; a < na; a++) ids.push_back (sim_spawn ("actor", [&, a]
  {
    for (auto & o : p.ops)
    {
      int fi = (int) o.a;
      if (o.actor != a || fi % na != a || fi >= nf || fi > 5) continue;
      std::string pa = path (fi), old, now; bool was = fs_get (pa.c_str (), old), ok, conf = fi == 0 || fi == 2 || fi == 5;
      const char * uri = fi == 0 ? "data" : fi == 2 ? nullptr : "nodir", * name = fi == 0 ? "a" : fi == 2 ? "c" : "x";
      if (o.code == DELETE)
      {
        ok = o.b == 2 && conf ? iot_store_config_delete (name, uri) : o.b & 1 ? iot_store_delete (pa.c_str ()) : iot_file_delete (pa.c_str ());
        bool is = fs_get (pa.c_str (), now);
        SIM_CHECK (ok == (was && !is), "untrue-delete", "deleting %.40s returned %d, but it %s before and %s now", pa.c_str (), ok, was ? "existed" : "did not exist", is ? "exists" : "does not exist");
        SIM_CHECK (is ? was && now == old : true, "wrong-contents", "a failed delete changed %.40s", pa.c_str ());
        sim_probe (ok ? "deleted" : "delete-failed");
      }
      else
      {
        std::string s = content (fi, ++ver, (size_t) std::max<int64_t> (16, o.b));
        ok = o.c == 4 && conf ? iot_store_config_save (name, uri, s.c_str ()) : put ((int) o.c, pa, s);
        bool is = fs_get (pa.c_str (), now);
        if (ok) SIM_CHECK (is && now == s, "untrue-success", "writing %zu bytes to %.40s reported success, but it holds %zu%s", s.size (), pa.c_str (), is ? now.size () : 0, is ? "" : " (no file)");
        else SIM_CHECK (is == was && now == old, "untrue-failure", "writing %zu bytes to %.40s reported failure, but it changed from %zu to %zu bytes%s", s.size (), pa.c_str (), old.size (), now.size (), is == was ? "" : is ? " (created)" : " (lost)");
        bool longname = fi == 4; // room for a temporary name may be lacking
        SIM_CHECK (ok || f > 0 || p.k (5) || longname || fi == 5, "healthy-write-failed", "writing %.40s failed although nothing failed", pa.c_str ());
        sim_probe (ok ? "written" : "write-failed");
      }
      sim_state (hmix ((uint64_t) o.code * 2 + ok, (uint64_t) fi));
    }
  }));
  sim_join_all (ids);
  if (!p.k (4))
  {
    std::set<std::string> known; for (int i = 0; i < 6; i++) known.insert (path (i));
    for (const char * d : { "data", "" }) for (auto & n : fs_list (d))
    {
      std::string full = *d ? std::string (d) + "/" + n : n;
      SIM_CHECK (full == "data" || known.count (full), "temporary-left", "%.60s was left behind", full.c_str ());
    }
  }
  check_no_leaks ("file access");
  SIM_CHECK (fs_open_handles () == 0, "handle-leak", "%d files are still open", fs_open_handles ());
}
}
SCENARIO (file_outcome, "F02", f02::gen, f02::run, nullptr, 1, "dr");

// ================================================================== F03: complete reads
namespace f03
{
enum { READ, TRUNC, APPEND, REPLACE, REMOVE };
// files: 0..3 regular, 4 empty, 5 directory, 6 pipe, 7 device, 8 missing
std::string path (int f) { static const char * n[] = { "d/zero", "d/one", "d/two", "d/three", "d/empty", "d/dir", "d/pipe", "d/dev", "d/missing" }; return n[f]; }
// knobs: 1 readers, 2 external changes, 3 fault rate %, 4.. sizes
void gen (Rng & r, Plan & p)
{
  int nr = 1 + (int) r.below (3);
  p.knobs.resize (1);
  p.knobs.push_back (nr); p.knobs.push_back (r.chance (0.5)); p.knobs.push_back ((int64_t) r.pick ({ 0, 0, 5, 25, 70 }));
  for (int i = 0; i < 4; i++) p.knobs.push_back (r.chance (0.2) ? 4096 * (1 + (int64_t) r.below (3)) - 1 + (int64_t) r.below (3) : (int64_t) rnd_size (r));
  int n = 3 + (int) r.below (14);
  for (int i = 0; i < n; i++)
  {
    if (p.k (2) && r.chance (0.4))
    {
      // a file is either truncated or extended in place, never both: the sum of the two within one read cannot be told from a complete file
      int64_t f = (int64_t) r.below (4); int c = 1 + (int) r.below (4);
      if (c == TRUNC && (f & 1)) c = APPEND; else if (c == APPEND && !(f & 1)) c = TRUNC;
      p.ops.push_back ({ nr, c, f, (int64_t) r.logrange (1, 20000), (int64_t) r.below (4) });
    }
    else p.ops.push_back ({ (int) r.below ((uint64_t) nr), READ, r.chance (0.75) ? (int64_t) r.below (4) : 4 + (int64_t) r.below (5), (int64_t) r.below (4), 0 });
  }
}
struct C { std::string s; bool there; uint64_t from, to; };
void run (const Plan & p)
{
  int nr = (int) std::max<int64_t> (1, p.k (1));
  double fr = (double) p.k (3) / 100;
  for (int k : { FK_OPEN_FAIL, FK_READ_EIO, FK_SEEK_FAIL }) sim_conf.fault_p[k] = fr;
  sim_conf.fault_p[FK_READ_SHORT] = 0.2; sim_conf.fault_p[FK_IO_DELAY] = 0.2;
  fs_mkdir ("d"); fs_mkdir (path (5).c_str ()); fs_mkspecial (path (6).c_str (), DT_FIFO); fs_mkspecial (path (7).c_str (), DT_CHR); fs_put (path (4).c_str (), "");
  static std::vector<std::vector<C>> hist; hist.assign (4, {});
  auto set = [&] (int f, bool there, const std::string & s) { auto & h = hist[(size_t) f]; uint64_t e = sim_event (); if (!h.empty ()) h.back ().to = e; h.push_back ({ s, there, e, UINT64_MAX }); };
  for (int f = 0; f < 4; f++)
  {
    std::string s = content (f, 0, (size_t) std::max<int64_t> (1, p.k (4 + (size_t) f)));
    if (f == 3) for (size_t i = 20; i < s.size (); i += 7) s[i] = (char) (i * 3); // binary, with zeros and high bytes
    fs_put (path (f).c_str (), s); set (f, true, s);
  }
  sim_heap_mark ();
  std::vector<int> ids; int ver = 1;
  for (int a = 0; a <= nr; a++) ids.push_back (sim_spawn (a < nr ? "reader" : "other process", [&, a]
  {
    for (auto & o : p.ops)
    {
      if (o.actor != a) continue;
      int f = (int) o.a; std::string pa = path (f);
      if (o.code != READ)
      {
        if (f > 3) continue;
        auto cur = hist[(size_t) f].back ();
        if (sim_choose (320, 2, 0)) sim_sleep (1000 * (1 + sim_choose (321, 3000, 0))); else sim_yield ();
        cur = hist[(size_t) f].back ();
        if (o.code == TRUNC) { uint32_t n = (uint32_t) std::min<int64_t> (o.b, (int64_t) cur.s.size ()); if (o.c == 0) n = 0; if (cur.there && fs_truncate (pa.c_str (), n)) set (f, true, cur.s.substr (0, n)); }
        else if (o.code == APPEND) { std::string s = content (f, ver++, (size_t) std::max<int64_t> (16, o.b)); if (cur.there && fs_append (pa.c_str (), s)) set (f, true, cur.s + s); }
        else if (o.code == REPLACE) { std::string s = content (f, ver++, (size_t) std::max<int64_t> (16, o.b)); fs_put (pa.c_str (), s); set (f, true, s); sim_fault_count (FK_EXTERNAL_FS); }
        else { fs_remove (pa.c_str ()); set (f, false, ""); sim_fault_count (FK_EXTERNAL_FS); }
        continue;
      }
      int how = f == 3 ? (int) (o.b | 1) : (int) o.b; // binary contents only through the binary interface
      uint64_t call = sim_event (); std::string s;
      bool there = get (how, pa, s);
      uint64_t ret = sim_event ();
      if (f > 3)
      {
        // not a regular file with contents
        SIM_CHECK (!there || ((f == 6 || f == 7) && s == "PIPE!"), "phantom-contents", "reading %s returned %zu bytes", pa.c_str (), s.size ());
        sim_probe (f == 5 ? "read-directory" : f == 6 ? "read-pipe" : "read-other");
        continue;
      }
      bool ok = false; int n = 0; bool nonempty = true;
      for (auto & c : hist[(size_t) f])
      {
        if (c.from > ret || c.to < call) continue;
        n++;
        if (!c.there || c.s.empty ()) nonempty = false;
        if (there && c.there && c.s == s) ok = true;
      }
      if (there) SIM_CHECK (ok, "partial-contents", "reading %s returned %zu bytes that it never held during the read (it had %zu)", pa.c_str (), s.size (), hist[(size_t) f].back ().s.size ());
      else SIM_CHECK (fr > 0 || n > 1 || !nonempty, "missing-contents", "reading the intact file %s returned nothing", pa.c_str ());
      if (n > 1) sim_probe ("changed-while-read");
      sim_state (hmix ((uint64_t) there * 4 + (uint64_t) n, (uint64_t) f));
    }
  }));
  sim_join_all (ids);
  check_no_leaks ("file access");
  SIM_CHECK (fs_open_handles () == 0, "handle-leak", "%d files are still open", fs_open_handles ());
}
}
SCENARIO (file_read, "F03", f03::gen, f03::run, nullptr, 1, "dr");

// ================================================================== F04: the configuration store
namespace f04
{
enum { SAVE, LOAD, DELETE, LIST, FLIST, OTHER, STOREFN };
std::string cname (int64_t n)
{
  static const char * fix[] = { "pool", "scheduler", "a", "json", "x.json", "my config", "cfg-1", "UPPER", ".hidden", "dotted.name", "ajson", "new", "b.json.new", "$HOME", "[x]", "caf\xc3\xa9" };
  if (n < 16) return fix[n];
  return std::string ((size_t) (60 + n * 5) % 250, (char) ('a' + n % 26)) + std::to_string (n);
}
std::string text (int64_t n)
{
  Rng r ((uint64_t) n * 31 + 7);
  std::string s = "{\"v\":" + std::to_string (n); size_t l = r.chance (0.2) ? r.logrange (10, 9000) : r.below (80);
  for (size_t i = 0; i < l; i++) s += (char) (r.chance (0.05) ? "\"\n\t\\%"[r.below (5)] : ' ' + r.below (94));
  return s + "}";
}
// knobs: 1 actors, 2 directory (0 "conf", 1 none), 3 initial clutter mask, 4 failing directory, 5 own store functions
void gen (Rng & r, Plan & p)
{
  int na = 1 + (int) r.below (3);
  p.knobs.resize (1);
  p.knobs.push_back (na); p.knobs.push_back (r.chance (0.2)); p.knobs.push_back ((int64_t) r.below (1 << 14)); p.knobs.push_back (r.chance (0.3)); p.knobs.push_back (r.chance (0.15));
  p.knobs.push_back (r.chance (0.2)); // 6: at the end, a store without functions
  int n = 4 + (int) r.below (24);
  for (int i = 0; i < n; i++)
  {
    int64_t nm = r.chance (0.85) ? (int64_t) r.below (16) : 16 + (int64_t) r.below (30);
    int c = r.unit () < 0.3 ? SAVE : r.unit () < 0.35 ? LOAD : r.unit () < 0.3 ? DELETE : r.unit () < 0.75 ? LIST : r.unit () < 0.8 ? FLIST : OTHER;
    int a = (int) (nm % na);
    if (c == LIST || c == FLIST || c == OTHER) a = (int) r.below ((uint64_t) na);
    p.ops.push_back ({ a, c, nm, (int64_t) r.below (1000), (int64_t) r.below (8) });
  }
}
const char * const clutter[] = { "note.txt", "ajson", "xjson", "old.json.new", "old.json.bak", "b.jsonx", ".json", "json", "c.JSON", "long.name.with.dots.json", "fileXjson", "n.json~" };
struct N { bool there; std::string s; uint64_t since; bool unsure; };  // unsure: an operation on it is running
bool my_called; std::map<std::string, std::string> * mem;
uint8_t * my_read (const char * p, size_t * len) { auto it = mem->find (p); if (it == mem->end ()) { if (len) *len = 0; return nullptr; } if (len) *len = it->second.size (); uint8_t * b = (uint8_t *) sim_malloc (it->second.size () + 1); memcpy (b, it->second.c_str (), it->second.size () + 1); return b; }
bool my_write (const char * p, const uint8_t * b, size_t n) { if (sim_fault (FK_WRITE_EIO)) return false; (*mem)[p].assign ((const char *) b, n); return true; }
bool my_delete (const char * p) { return mem->erase (p) > 0; }
void run (const Plan & p)
{
  int na = (int) std::max<int64_t> (1, p.k (1)); bool none = p.k (2), own = p.k (5);
  const char * uri = none ? nullptr : "conf"; const char * dir = none ? "." : "conf";
  std::string pre = none ? "" : "conf/";
  if (p.k (4)) sim_conf.fault_p[FK_OPENDIR_FAIL] = 0.3;
  if (own) sim_conf.fault_p[FK_WRITE_EIO] = 0.2;
  sim_conf.fault_p[FK_IO_DELAY] = 0.1;
  static std::map<std::string, std::string> g_mem; g_mem.clear (); mem = &g_mem;
  if (!none) fs_mkdir ("conf");
  static std::map<std::string, N> files; files.clear ();            // by file name
  for (int i = 0; i < 12; i++) if ((p.k (3) >> i) & 1) { std::string s = "{\"c\":" + std::to_string (i) + "}"; fs_put ((pre + clutter[i]).c_str (), s); files[clutter[i]] = { true, s, 0, false }; }
  if (p.k (3) >> 12 & 1) { fs_mkdir ((pre + "dir.json").c_str ()); fs_mkspecial ((pre + "pipe.json").c_str (), DT_FIFO); }
  if (p.k (3) >> 13 & 1) fs_mkdir ((pre + "sub").c_str ());
  sim_heap_mark ();
  if (own) iot_store_config (my_read, my_write, my_delete);
  std::vector<int> ids;
  for (int a = 0; a < na; a++) ids.push_back (sim_spawn ("actor", [&, a]
  {
    for (auto & o : p.ops)
    {
      if (o.actor != a) continue;
      std::string nm = cname (o.a), file = nm + ".json";
      if (o.code <= DELETE && o.a % na != a) continue;
      if (o.code <= DELETE)
      {
        N & n = files[file];
        bool was = n.there; std::string old = n.s;
        if (o.code == SAVE)
        {
          std::string s = text (o.b);
          n.unsure = true; n.since = sim_event ();
          bool ok = iot_store_config_save (nm.c_str (), uri, s.c_str ());
          N & m = files[file];
          SIM_CHECK (ok || own || file.size () > 235, "save-failed", "saving configuration %.40s failed", nm.c_str ());
          if (ok) { m.there = true; m.s = s; }
          m.unsure = false; m.since = sim_event ();
        }
        else if (o.code == DELETE)
        {
          n.unsure = true; n.since = sim_event ();
          bool ok = iot_store_config_delete (nm.c_str (), uri);
          N & m = files[file];
          SIM_CHECK (ok == was, "untrue-delete", "deleting configuration %.40s, which %s, returned %d", nm.c_str (), was ? "was stored" : "was not stored", ok);
          m.there = false; m.s = "";
          m.unsure = false; m.since = sim_event ();
        }
        else
        {
          char * c = iot_store_config_load (nm.c_str (), uri);
          std::string s = c ? c : "";
          bool got = c; if (c) sim_free (c);
          SIM_CHECK (got == was && s == old, "wrong-contents", "loading configuration %.40s, which %s, returned %zu characters instead of %zu", nm.c_str (), was ? "is stored" : "is not stored", s.size (), old.size ());
        }
        continue;
      }
      static const char * const rx[] = { nullptr, "\\.json$", "^[a-m]", "x", "[", "*(", "\\.txt$", "^$" };
      uint64_t call = sim_event (); iot_data_t * l; const char * re = nullptr; bool cfg = o.code == LIST, bad = false, missing = false;
      if (cfg) { missing = o.c == 7; l = iot_store_config_list (missing ? "nowhere" : dir); }
      else if (o.code == FLIST) { re = rx[o.c & 7]; bad = re && strcmp (re, "[") == 0; if (re && strcmp (re, "*(") == 0) re = "\\(x"; if (re && strcmp (re, "\\(x") == 0) bad = true; l = iot_file_list (dir, re); }
      else { sim_yield (); continue; }
      if (!l)
      {
        SIM_CHECK (missing || bad || sim_conf.fault_p[FK_OPENDIR_FAIL] > 0, "list-missing", "listing an intact directory returned nothing");
        sim_probe ("list-absent");
        continue;
      }
      SIM_CHECK (!missing && !bad, "list-phantom", "listing %s returned a list", missing ? "a missing directory" : "with an invalid pattern");
      std::multiset<std::string> got;
      iot_data_list_iter_t it; iot_data_list_iter (l, &it);
      while (iot_data_list_iter_next (&it)) { const char * s = iot_data_list_iter_string_value (&it); got.insert (s ? s : "(none)"); }
      iot_data_free (l);
      if (own) { sim_probe ("listed-with-own-store"); }
      auto matches = [&] (const std::string & f)
      {
        if (cfg || (re && !strcmp (re, "\\.json$"))) return f.size () >= 5 && f.compare (f.size () - 5, 5, ".json") == 0;
        if (!re) return true;
        if (!strcmp (re, "^[a-m]")) return !f.empty () && f[0] >= 'a' && f[0] <= 'm';
        if (!strcmp (re, "x")) return f.find ('x') != std::string::npos;
        if (!strcmp (re, "\\.txt$")) return f.size () >= 4 && f.compare (f.size () - 4, 4, ".txt") == 0;
        return f.empty ();
      };
      std::set<std::string> may;
      if (!own) for (auto & f : files)
      {
        std::string shown = cfg && f.first.size () >= 5 ? f.first.substr (0, f.first.size () - 5) : f.first;
        bool steady = !f.second.unsure && f.second.since < call;
        if (!matches (f.first)) continue;
        if (steady && !f.second.there) continue;
        may.insert (shown);
        if (steady) SIM_CHECK (got.count (shown) == 1, "list-incomplete", "%s%.60s appears %zu times in the list", cfg ? "configuration " : "file ", shown.c_str (), got.count (shown));
      }
      for (auto & g : got)
      {
        bool temp = !cfg && g.size () > 4 && g.find (".json") != std::string::npos; // a write in progress elsewhere may show its temporary file in a plain listing
        bool known = may.count (g) || own;
        SIM_CHECK (known || (temp && na > 1), "list-phantom", "the list of %s names %.60s, which cannot be loaded", cfg ? "configurations" : "files", g.c_str ());
        SIM_CHECK (got.count (g) == 1, "list-duplicate", "the list names %.60s twice", g.c_str ());
      }
      sim_probe (cfg ? "config-list" : "file-list");
    }
  }));
  sim_join_all (ids);
  if (p.k (6)) // no functions at all: nothing can be stored, and nothing is found
  {
    iot_store_config (nullptr, nullptr, nullptr);
    size_t len = 7; uint8_t b[4] = { 1, 2, 3, 4 };
    bool saved = iot_store_config_save ("a", uri, "{}"), gone = iot_store_config_delete ("a", uri), wrote = iot_store_write_binary ("a", b, 4), wrote2 = iot_store_write ("a", "x"), gone2 = iot_store_delete ("a");
    SIM_CHECK (!saved && !wrote && !wrote2, "untrue-write", "a store without a writing function reported success");
    SIM_CHECK (!gone && !gone2, "untrue-delete", "a store without a deleting function reported success");
    SIM_CHECK (!iot_store_config_load ("a", uri) && !iot_store_read_binary ("a", &len) && !iot_store_read ("a"), "wrong-contents", "a store without a reading function gave something");
    iot_store_config (own ? my_read : iot_file_read_binary, own ? my_write : iot_file_write_binary, own ? my_delete : iot_file_delete);
  }
  if (own) iot_store_config (iot_file_read_binary, iot_file_write_binary, iot_file_delete);
  check_no_leaks ("configuration store");
  SIM_CHECK (fs_open_handles () == 0, "handle-leak", "%d files or directories are still open", fs_open_handles ());

  SIM_CHECK (::sim_open_regex () == 0, "leak", "a compiled pattern was never released");
}
}
}

SCENARIO (store_dir, "F04", f04::gen, f04::run, nullptr, 1, "dr");
