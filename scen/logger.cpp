// Loggers: L01 .. L04
#include "common.h"
#include <memory>
#include <tuple>
#include "iot/logger.h"
#include "iot/container.h"
#include "iot/config.h"
#include <sys/prctl.h>
#include <arpa/inet.h>

extern "C" int sim_prctl (int op, ...);
namespace
{
const char * const level_names[] = { "", "ERROR", "WARN", "Info", "Debug", "Trace" };
const size_t MSG_MAX = 1024;

std::string filler (uint64_t id, size_t len)
{
  // text of exactly len characters whose head identifies the message
  char h[32]; snprintf (h, sizeof h, "<m%llu>", (unsigned long long) id);
  std::string s = h;
  while (s.size () < len) s += (char) ('!' + (id * 7 + s.size () * 11) % 90);
  return s;
}

// Logs text through one of the ways the interface offers
void log_via (int how, iot_logger_t * l, int lv, const std::string & text)
{
  const char * t = text.c_str (); int n = (int) text.size (), h = n / 2;
  switch (how)
  {
    case 0: iot_log_log (l, (iot_loglevel_t) lv, "%s", t); break;
    case 1: iot_log__log (l, (iot_loglevel_t) lv, "%s", t); break;
    case 2: iot_log__log (l, (iot_loglevel_t) lv, "%.*s%s", h, t, t + h); break;
    case 3:
      if (lv == 1) { iot_log_error (l, "%s", t); } else if (lv == 2) { iot_log_warn (l, "%s", t); } else if (lv == 3) { iot_log_info (l, "%s", t); }
      else if (lv == 4) { iot_log_debug (l, "%s", t); } else { iot_log_trace (l, "%s", t); }
      break;
    default: iot_log__log (l, (iot_loglevel_t) lv, "%c%.*s%s", t[0], h, t + 1, t + 1 + std::min (h, n - 1)); break;
  }
}
bool gated (int how) { return how == 0 || how == 3; }

// ================================================================== L01: delivery
namespace l01
{
enum { LOG, SETLEVEL, STOP, START, RECONF, SETNEXT };
// knobs: 1 actors, 2 loggers, 3 rounds, 4 slow sink probability, 5.. per logger: level | started << 4 | (next + 1) << 8
void gen (Rng & r, Plan & p)
{
  int na = 1 + (int) r.below (4), nl = 2 + (int) r.below (3), nr = 1 + (int) r.below (3);
  p.knobs.resize (1);
  p.knobs.push_back (na); p.knobs.push_back (nl); p.knobs.push_back (nr); p.knobs.push_back (r.chance (0.3) ? 20 : 0);
  for (int i = 0; i < nl; i++) p.knobs.push_back ((int64_t) r.below (6) | (r.chance (0.8) ? 16 : 0) | (r.chance (0.6) ? (int64_t) (r.below ((uint64_t) i + 1)) << 8 : 0));
  for (int rd = 0; rd < nr; rd++)
  {
    if (rd) for (int i = 0, n = (int) r.below (3); i < n; i++) p.ops.push_back ({ 0, SETNEXT, rd * 16 + (int64_t) r.below ((uint64_t) nl), (int64_t) r.below ((uint64_t) nl + 1), 0 });
    int n = 3 + (int) r.below (18);
    for (int i = 0; i < n; i++)
    {
      int a = (int) r.below ((uint64_t) na);
      if (r.chance (0.55))
      {
        int64_t len = r.chance (0.15) ? 1015 + (int64_t) r.below (20) : r.chance (0.1) ? (int64_t) r.logrange (1, 4000) : 8 + (int64_t) r.below (40);
        p.ops.push_back ({ a, LOG, rd * 16 + (int64_t) r.below ((uint64_t) nl), 1 + (int64_t) r.below (5), (int64_t) r.below (5) | len << 4 });
      }
      else
      {
        int64_t l = (int64_t) r.below ((uint64_t) nl);
        int c = r.chance (0.3) ? SETLEVEL : r.chance (0.15) ? RECONF : r.chance (0.5) ? STOP : START;
        p.ops.push_back ({ (int) (l % na), c, rd * 16 + l, (int64_t) r.below (6), 0 });
      }
    }
  }
}

struct St { int level, save; bool run; bool operator< (const St & o) const { return std::tie (level, save, run) < std::tie (o.level, o.save, o.run); } };
struct Write { uint64_t call, ret; std::set<int> before, after; };
struct Lg { iot_logger_t * l; int idx; std::set<St> st; std::vector<Write> w; int next; bool freed; uint64_t inside; };
struct Call { int actor, lg, level, how; std::string text; uint64_t call, ret, t0, t1; std::map<int, int> got; bool stamped = false; uint64_t ts = 0; };
std::vector<Lg> * lgs; std::map<uint64_t, Call> * calls; int slow;

void impl (iot_logger_t * l, iot_loglevel_t level, uint64_t ts, const char * msg, const void * ctx)
{
  Lg * g = (Lg *) ctx;
  uint64_t now = sim_realtime () / 1000;
  std::string m = msg;
  SIM_CHECK (g >= lgs->data () && g < lgs->data () + lgs->size () && g->l == l, "wrong-context", "a log function was given another logger's context");
  unsigned long long id = 0;
  SIM_CHECK (sscanf (m.c_str (), "<m%llu>", &id) == 1 && calls->count (id), "corrupt-message", "logger %d received a message that was never logged: %.60s", g->idx, m.c_str ());
  Call & c = (*calls)[id];
  SIM_CHECK (m == c.text.substr (0, MSG_MAX - 1), "corrupt-message", "logger %d received message %llu of %zu characters changed (%zu characters arrived)", g->idx, id, c.text.size (), m.size ());
  SIM_CHECK ((int) level == c.level, "wrong-level", "message %llu of level %d arrived with level %d", id, c.level, (int) level);
  SIM_CHECK (ts >= c.t0 && ts <= now, "wrong-timestamp", "message %llu logged at %llu us or later arrived at %llu us stamped %llu us", id, (unsigned long long) c.t0, (unsigned long long) now, (unsigned long long) ts);
  SIM_CHECK (!c.stamped || ts == c.ts, "wrong-timestamp", "message %llu reached one logger stamped %llu us and another stamped %llu us", id, (unsigned long long) c.ts, (unsigned long long) ts);
  c.stamped = true; c.ts = ts;
  int n = ++c.got[g->idx];
  SIM_CHECK (n == 1, "delivered-twice", "logger %d received message %llu twice", g->idx, id);
  SIM_CHECK (!c.ret, "delivered-late", "message %llu was delivered after its log call had returned", id);
  if (slow && sim_choose (300, 100, 0) < (uint64_t) slow) sim_sleep (1000 * (1 + sim_choose (301, 3000, 0))); else sim_yield ();
}

void possible (const Lg & g, uint64_t lc, uint64_t lr, std::set<int> & v)
{
  // levels the logger may have had at some instant of [lc, lr]
  // value k holds from some instant of write k to some instant of write k+1
  for (size_t k = 0; k <= g.w.size (); k++)
  {
    uint64_t from = k ? g.w[k - 1].call : 0, to = k < g.w.size () ? g.w[k].ret : UINT64_MAX;
    if (from <= lr && (to == 0 || to >= lc))
    {
      const std::set<int> & s = k ? g.w[k - 1].after : g.w[0].before;
      v.insert (s.begin (), s.end ());
    }
  }
}

void run (const Plan & p)
{
  int na = (int) std::max<int64_t> (1, p.k (1)), nl = (int) std::max<int64_t> (1, p.k (2)), nr = (int) p.k (3);
  slow = (int) p.k (4);
  static std::vector<Lg> g_lgs; static std::map<uint64_t, Call> g_calls; static std::vector<uint64_t> order;
  g_lgs.assign ((size_t) nl, Lg ()); g_calls.clear (); lgs = &g_lgs; calls = &g_calls; order.clear ();
  sim_heap_mark ();
  for (int i = 0; i < nl; i++)
  {
    Lg & g = g_lgs[(size_t) i]; int64_t k = p.k (5 + (size_t) i);
    int level = (int) (k & 15); bool start = k & 16; int next = (int) (k >> 8) - 1;
    g.idx = i; g.next = next < i ? next : -1;
    g.l = iot_logger_alloc_custom ("lg", (iot_loglevel_t) level, start, g.next >= 0 ? g_lgs[(size_t) g.next].l : nullptr, impl, &g, nullptr);
    g.st = { St { start ? level : 0, level, start } };
    Write w; w.call = w.ret = 0; w.before = w.after = { start ? level : 0 };
    g.w = { w };
  }
  auto control = [&] (const Op & o, int i)
  {
    Lg & g = g_lgs[(size_t) i];
    // stopped loggers are only started or stopped again here: see the note in DESIGN.md about level changes while stopped
    bool running = true; for (auto & s : g.st) if (!s.run) running = false;
    if ((o.code == SETLEVEL || o.code == RECONF) && !running) return;
    std::set<St> n; Write w;
    for (auto & s : g.st)
    {
      w.before.insert (s.level);
      St t = s;
      if (o.code == SETLEVEL || o.code == RECONF) { t.level = o.code == RECONF && o.b == 0 ? (int) IOT_LOGLEVEL_DEFAULT : (int) o.b; n.insert (t); }
      else if (o.code == STOP) { if (s.run) t.save = s.level; t.level = 0; t.run = false; n.insert (t); }
      else if (o.code == START) { n.insert (t = St { s.save, s.save, true }); if (s.run) n.insert (s); if (s.run) w.after.insert (s.level); }
      w.after.insert (t.level);
    }
    w.call = sim_event (); w.ret = 0;
    g.w.push_back (w); size_t wi = g.w.size () - 1;
    iot_logger_t * l = g.l;
    switch (o.code)
    {
      case SETLEVEL: iot_logger_set_level (l, (iot_loglevel_t) o.b); break;
      case STOP: iot_logger_stop (l); sim_probe ("stop"); break;
      case START: iot_logger_start (l); break;
      default:
      {
        iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING);
        if (o.b) iot_data_string_map_add (m, "Level", iot_data_alloc_string (level_names[o.b], IOT_DATA_COPY));
        bool ok = iot_logger_factory ()->reconfig_fn ((iot_component_t *) l, nullptr, m);
        SIM_CHECK (ok, "reconfig-failed", "reconfiguring a logger reported failure");
        iot_data_free (m);
      }
    }
    g.st = n;
    g.w[wi].ret = sim_event ();
  };
  uint64_t next_id = 1;
  for (int rd = 0; rd < std::max (1, nr); rd++)
  {
    for (auto & o : p.ops) if (o.code == SETNEXT && o.a / 16 == rd)
    {
      int i = (int) (o.a % 16), nx = (int) o.b - 1;
      if (i >= nl || nx >= nl) continue;
      bool cycle = false; for (int k = nx; k >= 0; k = g_lgs[(size_t) k].next) if (k == i) cycle = true;
      if (cycle) continue;
      iot_logger_set_next (g_lgs[(size_t) i].l, nx >= 0 ? g_lgs[(size_t) nx].l : nullptr);
      g_lgs[(size_t) i].next = nx;
      sim_probe ("rechain");
    }
    std::vector<int> ids;
    size_t first = order.size ();
    for (int a = 0; a < na; a++) ids.push_back (sim_spawn ("actor", [&, a, rd]
    {
      for (auto & o : p.ops)
      {
        int i = (int) (o.a % 16);
        if (o.actor != a || o.code == SETNEXT || o.a / 16 != rd || i >= nl) continue;
        if (o.code != LOG) { if (i % na == a) control (o, i); continue; }
        uint64_t id = next_id++;
        order.push_back (id);
        Call & c = g_calls[id];
        c.actor = a; c.lg = i; c.level = (int) o.b; c.how = (int) (o.c & 15); c.text = filler (id, (size_t) (o.c >> 4));
        c.t0 = sim_realtime () / 1000; c.ret = 0; c.call = sim_event ();
        std::string text = c.text;
        log_via (c.how, g_lgs[(size_t) i].l, c.level, text);
        Call & d = g_calls[id];
        d.ret = sim_event (); d.t1 = sim_realtime () / 1000;
      }
    }));
    sim_join_all (ids);
    uint64_t h = (uint64_t) rd;
    for (size_t k = first; k < order.size (); k++)
    {
      Call & c = g_calls[order[k]];
      std::set<int> head; possible (g_lgs[(size_t) c.lg], c.call, c.ret, head);
      bool gate = gated (c.how), gmust = true, gmay = false;
      for (int v : head) { if (v >= c.level) gmay = true; else gmust = false; }
      for (int i = c.lg, depth = 0; i >= 0; i = g_lgs[(size_t) i].next, depth++)
      {
        std::set<int> v; possible (g_lgs[(size_t) i], c.call, c.ret, v);
        bool must = true, may = false;
        for (int x : v) { if (x >= c.level) may = true; else must = false; }
        if (gate) { must = must && gmust; may = may && gmay; }
        int n = c.got.count (i) ? c.got[i] : 0;
        SIM_CHECK (!must || n, "not-delivered", "message %llu of level %d logged to logger %d never reached logger %d (level %d, %d behind)", (unsigned long long) order[k], c.level, c.lg, i, *v.begin (), depth);
        SIM_CHECK (may || !n, "delivered-unwanted", "message %llu of level %d reached logger %d whose level was %d", (unsigned long long) order[k], c.level, i, *v.rbegin ());
        c.got.erase (i);
        h = hmix (h, (uint64_t) n * 8 + (uint64_t) depth);
        if (must) sim_probe ("must-deliver"); else if (!may) sim_probe ("must-not-deliver");
      }
      SIM_CHECK (c.got.empty (), "delivered-elsewhere", "message %llu logged to logger %d reached logger %d, which is not chained behind it", (unsigned long long) order[k], c.lg, c.got.begin ()->first);
    }
    sim_state (h);
  }
  for (int i = nl - 1; i >= 0; i--) iot_logger_free (g_lgs[(size_t) i].l);
  check_no_leaks ("loggers");
}
}
SCENARIO (log_delivery, "L01", l01::gen, l01::run, nullptr, 3, "dr");

// ================================================================== records in files, datagrams and on the console
struct Msg { int actor; int level; std::string text; uint64_t t0, t1; int lg; std::string tname; };
struct Rec { std::string tname, name, level, msg; uint64_t ts; };

// [thread:time:name:LEVEL] message -- without the newline; false when the structure is not there
bool parse (const std::string & s, Rec & r)
{
  if (s.empty () || s[0] != '[') return false;
  size_t a = s.find (':'), b = a == std::string::npos ? a : s.find (':', a + 1), c = b == std::string::npos ? b : s.find (':', b + 1), d = c == std::string::npos ? c : s.find ("] ", c + 1);
  if (d == std::string::npos) return false;
  r.tname = s.substr (1, a - 1); r.name = s.substr (b + 1, c - b - 1); r.level = s.substr (c + 1, d - c - 1); r.msg = s.substr (d + 2);
  r.ts = 0;
  if (b == a + 1) return false;
  for (size_t i = a + 1; i < b; i++) { if (!isdigit ((unsigned char) s[i])) return false; r.ts = r.ts * 10 + (uint64_t) (s[i] - '0'); }
  return true;
}

// One record (with its newline): checks it and returns the number of its message
uint64_t check_record (const char * sink, const std::string & line, const std::string & name, std::map<uint64_t, Msg> & msgs)
{
  SIM_CHECK (!line.empty () && line.back () == '\n', "record-not-terminated", "%s: a record of %zu bytes does not end its line: %.50s ... %s", sink, line.size (), line.c_str (), line.substr (line.size () > 20 ? line.size () - 20 : 0).c_str ());
  SIM_CHECK (line.size () <= MSG_MAX, "record-too-long", "%s: a record has %zu bytes, the record size is %zu", sink, line.size (), MSG_MAX);
  SIM_CHECK (line.find ('\0') == std::string::npos, "record-corrupt", "%s: a record contains a zero byte", sink);
  Rec r; unsigned long long id = 0;
  SIM_CHECK (parse (line.substr (0, line.size () - 1), r), "record-corrupt", "%s: not a record: %.80s", sink, line.c_str ());
  SIM_CHECK (sscanf (r.msg.c_str (), "<m%llu>", &id) == 1 && msgs.count (id), "record-corrupt", "%s: the record holds no message that was logged: %.80s", sink, line.c_str ());
  Msg & m = msgs[id];
  SIM_CHECK (r.name == name, "record-mixed", "%s: message %llu carries the logger name %.40s instead of %.40s", sink, id, r.name.c_str (), name.c_str ());
  SIM_CHECK (r.tname == m.tname, "record-mixed", "%s: message %llu of thread %s carries the thread name %s", sink, id, m.tname.c_str (), r.tname.c_str ());
  SIM_CHECK (r.level == level_names[m.level], "record-mixed", "%s: message %llu of level %s carries level %s", sink, id, level_names[m.level], r.level.c_str ());
  SIM_CHECK (r.ts >= m.t0 && (!m.t1 || r.ts <= m.t1), "record-mixed", "%s: message %llu carries the time of another one", sink, id);
  std::string full = m.text.substr (0, MSG_MAX - 1);
  size_t head = line.size () - 1 - r.msg.size ();
  if (head + full.size () + 1 <= MSG_MAX - 1) SIM_CHECK (r.msg == full, "record-cut", "%s: message %llu of %zu characters was changed (%zu left)", sink, id, full.size (), r.msg.size ());
  else
  {
    SIM_CHECK (r.msg.size () <= full.size () && full.compare (0, r.msg.size (), r.msg) == 0, "record-corrupt", "%s: the cut message %llu is not the start of what was logged", sink, id);
    SIM_CHECK (line.size () >= MSG_MAX - 8, "record-cut", "%s: over-long message %llu was cut to %zu bytes", sink, id, line.size ());
    sim_probe ("record-cut");
  }
  return id;
}

std::vector<std::string> lines_of (const std::string & s)
{
  std::vector<std::string> v; size_t i = 0;
  while (i < s.size ()) { size_t e = s.find ('\n', i); e = e == std::string::npos ? s.size () : e + 1; v.push_back (s.substr (i, e - i)); i = e; }
  return v;
}

// ================================================================== L02
namespace l02
{
enum { LOG, STOP, START };
enum { CONSOLE, FILES, UDP };
const std::string OLD = "[main:1:old:WARN] a record of an earlier run\n";
// knobs: 1 actors, 2 loggers, 3 slow I/O, 4.. per logger kind | (next + 1) << 4 | name length << 8
void gen (Rng & r, Plan & p)
{
  int na = 2 + (int) r.below (3), nl = 1 + (int) r.below (3);
  p.knobs.resize (1);
  p.knobs.push_back (na); p.knobs.push_back (nl); p.knobs.push_back ((int64_t) r.below (3));
  for (int i = 0; i < nl; i++) p.knobs.push_back ((int64_t) r.below (3) | (r.chance (0.5) ? (int64_t) r.below ((uint64_t) i + 1) << 4 : 0) | (r.chance (0.8) ? 1 + (int64_t) r.below (12) : (int64_t) r.below (200)) << 8);
  int n = 4 + (int) r.below (20);
  for (int i = 0; i < n; i++)
  {
    int64_t len = r.chance (0.4) ? 960 + (int64_t) r.below (80) : r.chance (0.1) ? (int64_t) r.logrange (1, 5000) : 6 + (int64_t) r.below (60);
    p.ops.push_back ({ (int) r.below ((uint64_t) na), LOG, (int64_t) r.below ((uint64_t) nl), 1 + (int64_t) r.below (5), (int64_t) r.below (5) | len << 4 });
  }
}
void run (const Plan & p)
{
  int na = (int) std::max<int64_t> (1, p.k (1)), nl = (int) std::max<int64_t> (1, p.k (2));
  if (p.k (3)) sim_conf.fault_p[FK_IO_DELAY] = p.k (3) == 1 ? 0.1 : 0.5;
  if (p.k (3)) sim_conf.fault_p[FK_WRITE_SHORT] = 0.1; // a slow sink accepts data piecemeal
  sim_conf.fault_p[FK_CLOCK_STEP_FWD] = sim_conf.fault_p[FK_CLOCK_STEP_BACK] = 0;
  static std::map<uint64_t, Msg> msgs; msgs.clear ();
  struct L { iot_logger_t * l; int kind, next; std::string name, path; uint16_t port; int sock; };
  static std::vector<L> ls; ls.clear ();
  sim_heap_mark ();
  fs_mkdir ("logs");
  for (int i = 0; i < nl; i++)
  {
    int64_t k = p.k (4 + (size_t) i); L l;
    l.kind = (int) (k & 15) % 3; l.next = (int) ((k >> 4) & 15) - 1; if (l.next >= i) l.next = -1;
    l.name = std::string ("L") + std::to_string (i) + std::string ((size_t) (k >> 8) % 300, 'n');
    l.path = "logs/" + std::to_string (i) + ".log"; l.port = (uint16_t) (5000 + i); l.sock = 0;
    iot_logger_t * nx = l.next >= 0 ? ls[(size_t) l.next].l : nullptr;
    if (l.kind == FILES && (k >> 8 & 1)) fs_put (l.path.c_str (), OLD);
    if (l.kind == FILES) l.l = iot_logger_alloc_file (l.name.c_str (), IOT_LOG_TRACE, true, nx, l.path.c_str ());
    else if (l.kind == UDP) l.l = iot_logger_alloc_udp (l.name.c_str (), IOT_LOG_TRACE, true, nx, i & 1 ? "10.1.2.3" : nullptr, l.port);
    else { l.l = iot_logger_alloc (l.name.c_str (), IOT_LOG_TRACE, true); if (nx) iot_logger_set_next (l.l, nx); }
    ls.push_back (l);
  }
  static std::vector<std::vector<uint64_t>> sent; sent.assign ((size_t) na, {});
  uint64_t next_id = 1;
  std::vector<int> ids;
  for (int a = 0; a < na; a++) ids.push_back (sim_spawn ("actor", [&, a]
  {
    // thread names up to the longest the system keeps; the last thread has none of its own
    std::string tname = a == na - 1 ? "" : a == 0 ? "thread-name-123" : "t" + std::to_string (a);
    sim_yield ();
    sim_prctl (PR_SET_NAME, tname.c_str ());
    for (auto & o : p.ops)
    {
      if (o.actor != a || o.a >= nl) continue;
      uint64_t id = next_id++;
      Msg & m = msgs[id];
      m.actor = a; m.level = (int) o.b; m.lg = (int) o.a; m.text = filler (id, (size_t) (o.c >> 4)); m.tname = tname; m.t0 = sim_realtime () / 1000; m.t1 = 0;
      sent[(size_t) a].push_back (id);
      std::string t = m.text;
      log_via ((int) (o.c & 15), ls[(size_t) o.a].l, (int) o.b, t);
      msgs[id].t1 = sim_realtime () / 1000;
    }
  }));
  sim_join_all (ids);
  for (int i = nl - 1; i >= 0; i--) iot_logger_free (ls[(size_t) i].l);
  check_no_leaks ("loggers");
  SIM_CHECK (fs_open_handles () == 0 && sim_open_sockets () == 0, "handle-leak", "%d files and %d sockets are still open", fs_open_handles (), sim_open_sockets ());
  // expected: message to logger i and everything behind it
  auto reaches = [&] (int from, int to) { for (int i = from; i >= 0; i = ls[(size_t) i].next) if (i == to) return true; return false; };
  auto judge = [&] (int i, const char * sink, const std::vector<std::string> & recs, int lo, int hi)
  {
    std::map<int, uint64_t> last; std::set<uint64_t> seen;
    for (auto & rc : recs)
    {
      uint64_t id = check_record (sink, rc, ls[(size_t) i].name, msgs);
      Msg & m = msgs[id];
      SIM_CHECK (seen.insert (id).second, "record-duplicated", "%s: message %llu was recorded twice", sink, (unsigned long long) id);
      SIM_CHECK (reaches (m.lg, i) && m.level >= lo && m.level <= hi, "record-misplaced", "%s: holds message %llu, which belongs elsewhere", sink, (unsigned long long) id);
      SIM_CHECK (last[m.actor] < id, "record-order", "%s: message %llu of one thread is recorded after its message %llu", sink, (unsigned long long) id, (unsigned long long) last[m.actor]);
      last[m.actor] = id;
    }
    for (auto & m : msgs) if (reaches (m.second.lg, i) && m.second.level >= lo && m.second.level <= hi)
      SIM_CHECK (seen.count (m.first), "record-lost", "%s: message %llu was never recorded", sink, (unsigned long long) m.first);
  };
  std::string con[2] = { sim_stdout (), sim_stderr () };
  uint64_t h = 0;
  for (int i = 0; i < nl; i++)
  {
    char sink[64]; L & l = ls[(size_t) i];
    if (l.kind == FILES)
    {
      snprintf (sink, sizeof sink, "log file %d", i);
      std::string s; SIM_CHECK (fs_get (l.path.c_str (), s), "record-lost", "log file %d does not exist", i);
      if (p.k (4 + (size_t) i) >> 8 & 1)
      {
        SIM_CHECK (s.compare (0, OLD.size (), OLD) == 0, "record-lost", "log file %d lost the record it held when it was opened", i);
        s = s.substr (OLD.size ());
        sim_probe ("appended");
      }
      auto v = lines_of (s); judge (i, sink, v, 1, 5); for (auto & x : v) h = hmix (h, x.size ());
    }
    else if (l.kind == UDP)
    {
      snprintf (sink, sizeof sink, "datagrams of logger %d", i);
      std::vector<std::string> v;
      for (auto & g : sim_datagrams ()) if (g.port == l.port) { v.push_back (g.data); SIM_CHECK (g.addr == (i & 1 ? inet_addr ("10.1.2.3") : 0xffffffffu), "wrong-address", "%s: sent to %08x", sink, g.addr); }
      judge (i, sink, v, 1, 5); for (auto & x : v) h = hmix (h, x.size ());
    }
    else for (int c = 0; c < 2; c++)
    {
      // console text holds the records of every console logger
      snprintf (sink, sizeof sink, "%s of logger %d", c ? "stderr" : "stdout", i);
      std::vector<std::string> v; std::string tag = ":" + l.name + ":";
      for (auto & x : lines_of (con[c])) { Rec r; if (!parse (x, r)) SIM_CHECK (false, "record-corrupt", "console: not a record: %.80s", x.c_str ()); if (r.name == l.name) v.push_back (x); }
      judge (i, sink, v, c ? 1 : 3, c ? 2 : 5);
    }
  }
  for (int c = 0; c < 2; c++) for (auto & x : lines_of (con[c]))
  {
    Rec r; bool known = parse (x, r), mine = false;
    for (auto & l : ls) if (known && l.kind == CONSOLE && l.name == r.name) mine = true;
    SIM_CHECK (mine, "record-corrupt", "console: not a record of any logger: %.80s", x.c_str ());
  }
  for (auto & g : sim_datagrams ()) SIM_CHECK (g.port >= 5000 && g.port < 5000 + nl && ls[(size_t) (g.port - 5000)].kind == UDP, "wrong-address", "a datagram was sent to port %d", g.port);
  sim_state (h);
}
}
SCENARIO (log_records, "L02", l02::gen, l02::run, nullptr, 1, "dr");

// ================================================================== L03: life times
namespace l03
{
enum { NEW, SHARE, TAKE, LOG, FREE, SETNEXT, DEFAULT, SLEEP };
const int SLOTS = 6;
// knobs: 1 actors, 2 default logger used from the start
void gen (Rng & r, Plan & p)
{
  int na = 1 + (int) r.below (4);
  p.knobs.resize (1);
  p.knobs.push_back (na); p.knobs.push_back (r.chance (0.5));
  int n = 6 + (int) r.below (40);
  for (int i = 0; i < n; i++)
  {
    int a = (int) r.below ((uint64_t) na); int64_t s = (int64_t) r.below (SLOTS), t = (int64_t) r.below (SLOTS);
    double x = r.unit ();
    int c = x < 0.2 ? NEW : x < 0.35 ? SHARE : x < 0.45 ? TAKE : x < 0.68 ? LOG : x < 0.85 ? FREE : x < 0.95 ? SETNEXT : x < 0.98 ? DEFAULT : SLEEP;
    p.ops.push_back ({ a, c, s, t, (int64_t) r.below (16) });
  }
}
struct M { int id; int kind; int refs; iot_logger_t * l; std::shared_ptr<M> next; int ctxfreed; int inside; bool dead; };
typedef std::shared_ptr<M> MP;
std::vector<M *> * all;
void unref (const MP & m)
{
  if (!m) return;
  m->refs--;
  if (m->refs == 0) { m->dead = true; unref (m->next); }
}
void cimpl (iot_logger_t * l, iot_loglevel_t, uint64_t, const char * msg, const void * ctx)
{
  M * m = (M *) ctx;
  SIM_CHECK (!m->ctxfreed, "use-after-free", "logger %d received a record after its context was released", m->id);
  SIM_CHECK (m->l == l, "wrong-context", "logger %d was given another context", m->id);
  SIM_CHECK (strncmp (msg, "life", 4) == 0, "corrupt-message", "logger %d received a corrupt message", m->id);
  m->inside++;
  sim_yield ();
  if (sim_choose (310, 4, 0) == 1) sim_sleep (1000 * (1 + sim_choose (311, 500, 0)));
  SIM_CHECK (!m->ctxfreed, "freed-in-use", "the context of logger %d was released while its log function was running", m->id);
  m->inside--;
}
void cfree (void * ctx)
{
  M * m = (M *) ctx;
  SIM_CHECK (!m->ctxfreed, "freed-twice", "the context of logger %d was released twice", m->id);
  SIM_CHECK (m->refs == 0, "freed-early", "the context of logger %d was released while %d references to it remain", m->id, m->refs);
  SIM_CHECK (!m->inside, "freed-in-use", "the context of logger %d was released while in use", m->id);
  m->ctxfreed = 1;
  sim_yield ();
}
void run (const Plan & p)
{
  int na = (int) std::max<int64_t> (1, p.k (1));
  static std::vector<std::shared_ptr<M>> keep; keep.clear ();
  static std::vector<M *> g_all; g_all.clear (); all = &g_all;
  struct Slot { MP m; };
  static std::vector<std::vector<MP>> hold; hold.assign ((size_t) na, std::vector<MP> (SLOTS));
  static std::vector<std::deque<MP>> box; box.assign ((size_t) na, {});
  static std::set<iot_logger_t *> defaults; defaults.clear ();
  int next_id = 0;
  fs_mkdir ("logs");
  sim_heap_mark ();
  auto dflt = [&]
  {
    iot_logger_t * l = iot_logger_default ();
    SIM_CHECK (l, "default-logger", "the default logger is missing");
    defaults.insert (l);
    SIM_CHECK (defaults.size () == 1, "default-logger", "two different default loggers were handed out");
    SIM_CHECK (l->level == IOT_LOGLEVEL_DEFAULT, "default-logger", "the default logger was handed out with level %d before it was ready", (int) l->level);
    // chained and referenced like any other
    iot_logger_add_ref (l);
    iot_log_error (l, "life default");
    iot_logger_free (l);
  };
  int inuse_of_default = 0;
  (void) inuse_of_default;
  std::vector<int> ids;
  for (int a = 0; a < na; a++) ids.push_back (sim_spawn ("actor", [&, a]
  {
    if (p.k (2)) dflt ();
    for (auto & o : p.ops)
    {
      if (o.actor != a || o.a >= SLOTS) continue;
      MP & s = hold[(size_t) a][(size_t) o.a];
      switch (o.code)
      {
        case DEFAULT: dflt (); break;
        case SLEEP: sim_sleep (1000 * (1 + (uint64_t) o.b * 300)); break;
        case NEW:
        {
          if (s || next_id > 40) break;
          MP m = std::make_shared<M> ();
          keep.push_back (m); g_all.push_back (m.get ());
          m->id = next_id++; m->kind = (int) (o.c & 3); m->refs = 1; m->ctxfreed = 0; m->inside = 0; m->dead = false; m->l = nullptr;
          MP nx = (o.c & 4) && o.b < SLOTS ? hold[(size_t) a][(size_t) o.b] : nullptr;
          m->next = nx; if (nx) nx->refs++;
          iot_logger_t * nl = nx ? nx->l : nullptr, * l; std::string name = "n" + std::to_string (m->id), path = "logs/" + name;
          if (m->kind == 2) l = iot_logger_alloc_file (name.c_str (), IOT_LOG_TRACE, true, nl, path.c_str ());
          else if (m->kind == 3) l = iot_logger_alloc_udp (name.c_str (), IOT_LOG_TRACE, true, nl, "127.0.0.1", (uint16_t) (6000 + m->id));
          else l = iot_logger_alloc_custom (name.c_str (), IOT_LOG_TRACE, true, nl, cimpl, m.get (), cfree);
          m->l = l;
          hold[(size_t) a][(size_t) o.a] = m;
          break;
        }
        case SHARE:
        {
          if (!s) break;
          MP m = s;
          m->refs++;
          iot_logger_add_ref (m->l);
          box[(size_t) (o.b % na)].push_back (m);
          break;
        }
        case TAKE:
          if (s || box[(size_t) a].empty ()) break;
          s = box[(size_t) a].front (); box[(size_t) a].pop_front ();
          break;
        case LOG:
        {
          if (!s) break;
          MP m = s;
          iot_log__log (m->l, IOT_LOG_WARN, "life %d %s", (int) o.b, "of a logger");
          break;
        }
        case FREE:
        {
          if (!s) break;
          MP m = s; s = nullptr;
          unref (m);
          iot_logger_free (m->l);
          break;
        }
        case SETNEXT:
        {
          // only on a logger nobody else can see, directly or through a chain
          if (!s || s->refs != 1) break;
          MP m = s, nx = o.b < SLOTS ? hold[(size_t) a][(size_t) o.b] : nullptr;
          if (o.c & 8) nx = m->next; // set again what it already is: its only reference may be the chain's
          bool cycle = false; for (MP q = nx; q; q = q->next) if (q == m) cycle = true;
          if (cycle) break;
          MP old = m->next;
          m->next = nx; if (nx) nx->refs++;
          unref (old);
          iot_logger_set_next (m->l, nx ? nx->l : nullptr);
          sim_probe (nx && nx == old ? "next-set-again" : "next-set");
          break;
        }
      }
    }
    for (size_t i = 0; i < SLOTS; i++) { MP m = hold[(size_t) a][i]; if (!m) continue; hold[(size_t) a][i] = nullptr; unref (m); iot_logger_free (m->l); }
  }));
  sim_join_all (ids);
  for (auto & b : box) while (!b.empty ()) { MP m = b.front (); b.pop_front (); unref (m); iot_logger_free (m->l); }
  for (M * m : g_all)
  {
    SIM_CHECK (m->refs == 0, "harness", "reference model");
    if (m->kind < 2) SIM_CHECK (m->ctxfreed == 1, "never-freed", "the context of logger %d was never released", m->id);
  }
  check_no_leaks ("loggers");
  SIM_CHECK (fs_open_handles () == 0 && sim_open_sockets () == 0, "handle-leak", "%d files and %d sockets are still open after the last reference was released", fs_open_handles (), sim_open_sockets ());
  SIM_CHECK (sim_bad_closes () == 0, "closed-twice", "a socket was closed or used after it was closed");
  for (auto & k : keep) k->next = nullptr;
}
}
SCENARIO (log_lifetime, "L03", l03::gen, l03::run, nullptr, 1, "dr");

// ================================================================== L04: failing sinks
namespace l04
{
enum { CUSTOM, FILES, UDP, CONSOLE };
// knobs: 1 actors, 2 sinks, 3 fault rate in %, 4 messages after recovery, 5.. kinds
void gen (Rng & r, Plan & p)
{
  int na = 1 + (int) r.below (3), nl = 1 + (int) r.below (3);
  p.knobs.resize (1);
  p.knobs.push_back (na); p.knobs.push_back (nl); p.knobs.push_back ((int64_t) r.pick ({ 0, 5, 20, 60, 100 })); p.knobs.push_back (1 + (int64_t) r.below (12));
  for (int i = 0; i < nl; i++) p.knobs.push_back (1 + (int64_t) r.below (3));
  int n = 3 + (int) r.below (25);
  for (int i = 0; i < n; i++)
  {
    int64_t len = r.chance (0.4) ? 900 + (int64_t) r.below (180) : 6 + (int64_t) r.below (60);
    p.ops.push_back ({ (int) r.below ((uint64_t) na), 0, 0, 1 + (int64_t) r.below (5), (int64_t) r.below (5) | len << 4 });
  }
}
std::map<uint64_t, Msg> * msgs; std::map<uint64_t, int> * got;
void rec (iot_logger_t *, iot_loglevel_t, uint64_t, const char * msg, const void *)
{
  unsigned long long id = 0;
  SIM_CHECK (sscanf (msg, "<m%llu>", &id) == 1 && msgs->count (id), "corrupt-message", "the logger behind the failing sinks received %.40s", msg);
  SIM_CHECK ((*msgs)[id].text.substr (0, MSG_MAX - 1) == msg, "corrupt-message", "message %llu was changed", id);
  (*got)[id]++;
  sim_yield ();
}
void run (const Plan & p)
{
  int na = (int) std::max<int64_t> (1, p.k (1)), nl = (int) std::max<int64_t> (1, p.k (2));
  double f = (double) p.k (3) / 100;
  for (int k : { FK_OPEN_FAIL, FK_SOCKET_FAIL }) sim_conf.fault_p[k] = f / 3;
  for (int k : { FK_WRITE_ENOSPC, FK_WRITE_EIO, FK_SEND_FAIL }) sim_conf.fault_p[k] = f;
  sim_conf.fault_p[FK_WRITE_SHORT] = 0.1; sim_conf.fault_p[FK_IO_DELAY] = 0.1;
  static std::map<uint64_t, Msg> g_msgs; static std::map<uint64_t, int> g_got; g_msgs.clear (); g_got.clear (); msgs = &g_msgs; got = &g_got;
  struct L { iot_logger_t * l; int kind; std::string name, path; bool opened; };
  static std::vector<L> ls; ls.clear ();
  sim_heap_mark ();
  fs_mkdir ("logs");
  iot_logger_t * end = iot_logger_alloc_custom ("end", IOT_LOG_TRACE, true, nullptr, rec, nullptr, nullptr), * next = end;
  for (int i = 0; i < nl; i++)
  {
    L l; l.kind = (int) p.k (5 + (size_t) i); l.name = "L" + std::to_string (i); l.path = "logs/" + l.name;
    int fh = fs_open_handles (), so = sim_open_sockets ();
    if (l.kind == FILES) { l.l = iot_logger_alloc_file (l.name.c_str (), IOT_LOG_TRACE, true, next, l.path.c_str ()); l.opened = fs_open_handles () > fh; }
    else if (l.kind == UDP) { l.l = iot_logger_alloc_udp (l.name.c_str (), IOT_LOG_TRACE, true, next, "10.0.0.9", (uint16_t) (7000 + i)); l.opened = sim_open_sockets () > so; }
    else { l.l = iot_logger_alloc (l.name.c_str (), IOT_LOG_TRACE, true); iot_logger_set_next (l.l, next); l.opened = true; }
    SIM_CHECK (l.l, "logger-missing", "no logger was made because its sink failed");
    iot_logger_free (next); // the chain holds the reference
    next = l.l;
    ls.push_back (l);
  }
  iot_logger_t * head = next;
  uint64_t next_id = 1; static int active; active = 0;
  auto put = [&] (int a, int level, int how, size_t len, const std::string & tname)
  {
    uint64_t id = next_id++;
    Msg & m = g_msgs[id];
    m.actor = a; m.level = level; m.lg = 0; m.text = filler (id, len); m.tname = tname; m.t0 = sim_realtime () / 1000; m.t1 = 0;
    std::string t = m.text;
    log_via (how, head, level, t);
    g_msgs[id].t1 = sim_realtime () / 1000;
    SIM_CHECK (g_got[id] == 1, "not-delivered", "message %llu reached the logger behind the failing sinks %d times", (unsigned long long) id, g_got[id]);
    return id;
  };
  std::vector<int> ids;
  for (int a = 0; a < na; a++) ids.push_back (sim_spawn ("actor", [&, a]
  {
    std::string tname = "t" + std::to_string (a);
    sim_prctl (PR_SET_NAME, tname.c_str ());
    for (auto & o : p.ops) if (o.actor == a) put (a, (int) o.b, (int) (o.c & 15), (size_t) (o.c >> 4), tname);
  }));
  sim_join_all (ids);
  sim_quiesce_faults ();
  uint64_t lastbad = next_id - 1;
  sim_prctl (PR_SET_NAME, "main");
  for (int i = 0; i < p.k (4); i++) put (9, 1 + i % 5, i % 3, 20 + (size_t) i * 90, "main");
  uint64_t total = next_id;
  iot_logger_free (head);
  check_no_leaks ("loggers");
  SIM_CHECK (sim_bad_closes () == 0, "closed-twice", "something not open was closed or written to");
  SIM_CHECK (fs_open_handles () == 0 && sim_open_sockets () == 0, "handle-leak", "%d files and %d sockets are still open", fs_open_handles (), sim_open_sockets ());
  std::string con[2] = { sim_stdout (), sim_stderr () };
  for (int i = 0; i < nl; i++)
  {
    L & l = ls[(size_t) i]; char sink[64]; snprintf (sink, sizeof sink, "sink %d", i);
    if (l.kind == UDP)
    {
      std::set<uint64_t> seen;
      for (auto & g : sim_datagrams ()) if (g.port == 7000 + i) { uint64_t id = check_record (sink, g.data, l.name, g_msgs); SIM_CHECK (seen.insert (id).second, "record-duplicated", "%s: message %llu was sent twice", sink, (unsigned long long) id); }
      if (l.opened) for (uint64_t id = lastbad + 1; id < total; id++) SIM_CHECK (seen.count (id), "not-resumed", "%s: message %llu, logged after the network recovered, was not sent", sink, (unsigned long long) id);
      continue;
    }
    // a stream may lose or tear what was in its buffer when the write failed, but never what comes after the fault:
    // every message logged after recovery must be there, as one whole line or as the rest of a torn one
    std::string text[2]; 
    if (l.kind == FILES) { if (!fs_get (l.path.c_str (), text[0])) { SIM_CHECK (!l.opened, "record-lost", "%s: the log file does not exist", sink); continue; } text[1] = text[0]; }
    else { text[0] = con[0]; text[1] = con[1]; }
    if (l.opened) for (uint64_t id = lastbad + 1; id < total; id++)
    {
      Msg & m = g_msgs[id]; const std::string & s = text[m.level > 2 ? 0 : 1]; char tag[40];
      snprintf (tag, sizeof tag, ":%s:%s] <m%llu>", l.name.c_str (), level_names[m.level], (unsigned long long) id);
      size_t at = s.find (tag);
      SIM_CHECK (at != std::string::npos, "not-resumed", "%s: message %llu, logged after the sink recovered, was not recorded", sink, (unsigned long long) id);
      size_t st = at; while (st > 0 && s[st] != '[' && s[st - 1] != '\n') st--;
      size_t en = s.find ('\n', at);
      SIM_CHECK (en != std::string::npos, "record-not-terminated", "%s: message %llu does not end its line", sink, (unsigned long long) id);
      check_record (sink, s.substr (st, en + 1 - st), l.name, g_msgs);
      sim_probe ("resumed");
    }
    if (f == 0) for (auto & m : g_msgs) { char tag[40]; snprintf (tag, sizeof tag, ":%s:%s] <m%llu>", l.name.c_str (), level_names[m.second.level], (unsigned long long) m.first); SIM_CHECK (!l.opened || text[m.second.level > 2 ? 0 : 1].find (tag) != std::string::npos, "record-lost", "%s: message %llu was not recorded", sink, (unsigned long long) m.first); }
  }
}
}
SCENARIO (log_faults, "L04", l04::gen, l04::run, nullptr, 2, "dr");

// sink addresses in configuration
namespace l04c
{
// ops: code form, a/b/c parameters
std::string target (const Op & o)
{
  Rng r ((uint64_t) o.a);
  std::string host = std::to_string (1 + r.below (223)) + "." + std::to_string (r.below (256)) + "." + std::to_string (r.below (256)) + "." + std::to_string (r.below (256));
  std::string port = std::to_string (1 + r.below (65535));
  switch (o.code)
  {
    case 0: return "file:logs/f" + std::to_string (o.b);
    case 1: return "udp:" + host + ":" + port;
    case 2: return "udp:" + port;
    case 3: { std::string s = "udp:"; size_t n = r.logrange (1, 300); for (size_t i = 0; i < n; i++) s += (char) ('a' + r.below (26)); return s + (r.chance (0.8) ? ":" : "") + (r.chance (0.8) ? port : ""); } // no address at all, of any length
    case 4: return std::string (r.pick ({ "udp:", "udp::", "file:", "console", "", ":", "tcp:1.2.3.4:5", "udp:1.2.3.4:", "udp::77", "udp:1.2.3.4:99999", "udp:1.2.3.4:-1", "udp:255.255.255.255:12", "udp:999.999.999.999.999.999:9" }));
    case 5: return "file:nodir/" + std::string ((size_t) r.below (400), 'x');
    default: return "udp:" + std::string ((size_t) (13 + r.below (8)), '1') + ":" + port;
  }
}
// a component whose records the scenario sees
int at_base; uint64_t base_id;
void base_impl (iot_logger_t *, iot_loglevel_t, uint64_t, const char * msg, const void *)
{
  unsigned long long id = 0;
  SIM_CHECK (sscanf (msg, "<m%llu>", &id) == 1 && id == base_id, "corrupt-message", "the next logger received a message that is not being logged: %.60s", msg);
  at_base++;
}
iot_component_t * base_config (iot_container_t *, const iot_data_t *) { return (iot_component_t *) iot_logger_alloc_custom ("base", IOT_LOG_TRACE, true, nullptr, base_impl, nullptr, nullptr); }
iot_component_factory_t base_factory = { "BaseLog", "CORE", base_config, (iot_component_free_fn_t) iot_logger_free, nullptr, nullptr };
void gen (Rng & r, Plan & p)
{
  p.knobs.resize (1);
  int n = 1 + (int) r.below (5);
  for (int i = 0; i < n; i++) p.ops.push_back ({ 0, (int) r.below (7), (int64_t) r.next () & 0xffffffff, i, (int64_t) r.below (8) });
}
void run (const Plan & p)
{
  sim_conf.fault_p[FK_OPEN_FAIL] = sim_conf.fault_p[FK_SOCKET_FAIL] = 0.1;
  static std::map<uint64_t, Msg> g_msgs; g_msgs.clear ();
  fs_mkdir ("logs");
  iot_logger_default ();
  sim_heap_mark ();
  iot_container_t * cont = iot_container_alloc ("c");
  sim_prctl (PR_SET_NAME, "main");
  iot_component_factory_add (&base_factory);
  iot_container_add_component (cont, "BaseLog", "base", "{}");
  uint64_t next_id = 1;
  for (auto & o : p.ops)
  {
    std::string to = target (o), name = "L" + std::to_string (o.b);
    iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING);
    iot_data_string_map_add (m, "Name", iot_data_alloc_string (name.c_str (), IOT_DATA_COPY));
    iot_data_string_map_add (m, "Level", iot_data_alloc_string (level_names[1 + o.b % 5], IOT_DATA_COPY));
    if (o.c != 7) iot_data_string_map_add (m, "To", iot_data_alloc_string (to.c_str (), IOT_DATA_COPY));
    if (o.c & 1) iot_data_string_map_add (m, "Start", iot_data_alloc_bool (!(o.c & 2)));
    int nx = (int) (o.a >> 3 & 3); // a logger behind it, an unknown one, or none
    if (nx == 1 || nx == 2) iot_data_string_map_add (m, "Next", iot_data_alloc_string (nx == 1 ? "base" : "other", IOT_DATA_COPY));
    bool macro = o.a >> 5 & 1;
    std::string old;
    if (o.code == 0 && (o.a >> 6 & 1)) { old = "[x:1:y:WARN] kept\n"; fs_put (to.c_str () + 5, old); }
    int fh = fs_open_handles (), so = sim_open_sockets ();
    size_t dg = sim_datagrams ().size (), ol = sim_stdout ().size () + sim_stderr ().size ();
    iot_logger_t * l = (iot_logger_t *) iot_logger_factory ()->config_fn (cont, m);
    iot_data_free (m);
    SIM_CHECK (l, "logger-missing", "no logger was made for %.60s", to.c_str ());
    bool started = !((o.c & 1) && (o.c & 2)), file = fs_open_handles () > fh, sock = sim_open_sockets () > so;
    SIM_CHECK (l->level == (started ? (iot_loglevel_t) (1 + o.b % 5) : IOT_LOG_NONE), "wrong-level", "a logger configured with level %s %s has level %d", level_names[1 + o.b % 5], started ? "and started" : "but not started", (int) l->level);
    uint64_t id = next_id++;
    Msg & ms = g_msgs[id]; ms.level = 1; ms.text = filler (id, 30); ms.tname = "main"; ms.t0 = sim_realtime () / 1000; ms.t1 = 0; ms.actor = 0; ms.lg = 0;
    std::string t = ms.text;
    at_base = 0; base_id = id;
    log_via (macro ? 3 : 1, l, 1, t);
    iot_logger_free (l);
    int want = nx == 1 && (started || !macro);
    SIM_CHECK (at_base == want, want ? "not-delivered" : "delivered-unwanted", "a logger configured for '%.60s' %s: a message reached the logger configured behind it %d times", to.c_str (), started ? "and started" : "but not started", at_base);
    if (want) sim_probe ("configured-next");
    bool con = sim_stdout ().size () + sim_stderr ().size () > ol, gram = sim_datagrams ().size () > dg;
    if (o.c == 7) to = "";
    if (!started) SIM_CHECK (!con && !gram, "delivered-unwanted", "a logger that was not started wrote a record");
    else if (to.compare (0, 5, "file:") == 0 && to.size () > 5)
    {
      std::string s;
      SIM_CHECK (!con && !gram && !sock, "wrong-sink", "a logger configured for %.60s wrote elsewhere", to.c_str ());
      if (file) { SIM_CHECK (fs_get (to.c_str () + 5, s), "wrong-sink", "log file %.60s was not written", to.c_str () + 5); SIM_CHECK (s.compare (0, old.size (), old) == 0, "record-lost", "log file %.60s lost the record it held", to.c_str () + 5); s = s.substr (old.size ()); check_record ("configured file", s, name, g_msgs); sim_probe ("file-ok"); }
    }
    else if (to.compare (0, 4, "udp:") == 0 && to.size () > 4)
    {
      SIM_CHECK (!con && !file, "wrong-sink", "a logger configured for %.60s wrote elsewhere", to.c_str ());
      SIM_CHECK (gram || !sock || to.find ("255.255.255.255") != std::string::npos, "record-lost", "a logger configured for %.60s sent nothing", to.c_str ()); // the system may refuse an explicit broadcast address
      if (gram)
      {
        Datagram & g = sim_datagrams ().back ();
        check_record ("configured address", g.data, name, g_msgs);
        if (o.code == 1)
        {
          size_t c = to.find (':', 4);
          SIM_CHECK (g.addr == inet_addr (to.substr (4, c - 4).c_str ()) && g.port == (uint16_t) atoi (to.c_str () + c + 1), "wrong-address", "a logger configured for %s sent to %08x:%u", to.c_str (), ntohl (g.addr), g.port);
          sim_probe ("udp-ok");
        }
        if (o.code == 2) SIM_CHECK (g.addr == 0xffffffffu && g.port == (uint16_t) atoi (to.c_str () + 4), "wrong-address", "a logger configured for %s sent to %08x:%u", to.c_str (), ntohl (g.addr), g.port);
      }
    }
    else SIM_CHECK (con && !gram && !file, "wrong-sink", "a logger configured for '%.60s' did not write to the console", to.c_str ());
  }
  iot_container_free (cont);
  SIM_CHECK (sim_bad_closes () == 0, "closed-twice", "something not open was closed or written to");
  check_no_leaks ("configured loggers");
  SIM_CHECK (fs_open_handles () == 0 && sim_open_sockets () == 0, "handle-leak", "%d files and %d sockets are still open", fs_open_handles (), sim_open_sockets ());
}
}
SCENARIO (log_config, "L04", l04c::gen, l04c::run, nullptr, 1, "dr");
SCENARIO (log_configured, "L01", l04c::gen, l04c::run, nullptr, 1, "dr");
}
