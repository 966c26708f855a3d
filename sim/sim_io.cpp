// Stand-ins for files, directories, standard streams and sockets. File state lives in shared memory so that it
// survives the simulated death of a process; every file has its page-cache contents and its durable contents.
#include "sim_int.h"
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <dirent.h>
#include <regex.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <map>
#include <set>
#include <algorithm>

#define MAX_INODES 192
#define MAX_DATA 65536
#define MAX_ENTRIES 192
#define MAX_PENDING 256
struct Inode { int used; int dtype; uint32_t size, dsize; int dirty; int refs; char data[MAX_DATA]; char ddata[MAX_DATA]; };
struct Entry { int used; int inode; char path[PATH_MAX]; };
struct Pending { int kind; int inode; char a[PATH_MAX]; char b[PATH_MAX]; }; // 1 create a->inode, 2 rename a->b, 3 unlink a
struct Fs
{
  uint64_t cap;
  Inode ino[MAX_INODES];
  Entry ent[MAX_ENTRIES];      // current directory
  Entry dent[MAX_ENTRIES];     // durable directory
  Pending pend[MAX_PENDING];
  int npend;
  char shared[1 << 20];
};
static Fs * fs;
static bool crash_on;
void sim_enable_crash (bool on) { crash_on = on; }
void * sim_shared_area (size_t n) { if (n > sizeof (fs->shared)) abort (); return fs->shared; }

void fs_init_region ()
{
  fs = (Fs *) mmap ((void *) 0x300000000000ull, sizeof (Fs), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (fs == MAP_FAILED) abort ();
}
void fs_reset ()
{
  for (int i = 0; i < MAX_INODES; i++) { fs->ino[i].used = 0; fs->ino[i].refs = 0; }
  for (int i = 0; i < MAX_ENTRIES; i++) fs->ent[i].used = fs->dent[i].used = 0;
  fs->npend = 0; fs->cap = 0;
  memset (fs->shared, 0, 4096 * 16);
}
static Entry * look (Entry * t, const char * p) { for (int i = 0; i < MAX_ENTRIES; i++) if (t[i].used && strcmp (t[i].path, p) == 0) return &t[i]; return nullptr; }
static std::string norm (const char * p)
{
  std::string s = p, r;
  for (size_t i = 0; i < s.size (); i++)
  {
    if (s[i] == '/' && !r.empty () && r.back () == '/') continue;
    r += s[i];
    if (r.size () >= 2 && r.substr (r.size () - 2) == "./" && (r.size () == 2 || r[r.size () - 3] == '/')) r.resize (r.size () - 2);
  }
  while (r.size () > 1 && r.back () == '/') r.pop_back ();
  return r;
}
static bool isdir (const std::string & p)
{
  if (p.empty () || p == "." || p == "/") return true;
  Entry * e = look (fs->ent, p.c_str ());
  return e && fs->ino[e->inode].dtype == DT_DIR;
}
static std::string parent (const std::string & p) { size_t i = p.rfind ('/'); return i == std::string::npos ? "" : i == 0 ? "/" : p.substr (0, i); }
static int new_inode (int dtype)
{
  for (int i = 0; i < MAX_INODES; i++) if (!fs->ino[i].used)
  {
    Inode & n = fs->ino[i];
    n.used = 1; n.dtype = dtype; n.size = n.dsize = 0; n.dirty = 0; n.refs = 0;
    return i;
  }
  return -1;
}
static Entry * add_entry (Entry * t, const char * p, int inode)
{
  if (strlen (p) >= PATH_MAX) return nullptr;
  for (int i = 0; i < MAX_ENTRIES; i++) if (!t[i].used) { t[i].used = 1; t[i].inode = inode; strcpy (t[i].path, p); return &t[i]; }
  return nullptr;
}
static void add_pending (int kind, int inode, const char * a, const char * b)
{
  if (fs->npend == MAX_PENDING)
  {
    // journal commit: everything so far becomes durable
    for (int i = 0; i < MAX_ENTRIES; i++) fs->dent[i] = fs->ent[i];
    fs->npend = 0;
    return;
  }
  Pending & p = fs->pend[fs->npend++];
  p.kind = kind; p.inode = inode;
  snprintf (p.a, PATH_MAX, "%s", a); snprintf (p.b, PATH_MAX, "%s", b ? b : "");
}
static void apply_dir (Entry * t, const Pending & p)
{
  Entry * e = look (t, p.a);
  if (p.kind == 1) { if (e) e->inode = p.inode; else add_entry (t, p.a, p.inode); }
  else if (p.kind == 2) { if (e) { Entry * d = look (t, p.b); int in = e->inode; e->used = 0; if (d) d->inode = in; else add_entry (t, p.b, in); } }
  else if (p.kind == 3) { if (e) e->used = 0; }
}
static void gc ()
{
  for (int i = 0; i < MAX_INODES; i++)
  {
    Inode & n = fs->ino[i];
    if (!n.used || n.refs) continue;
    bool ref = false;
    for (int j = 0; j < MAX_ENTRIES && !ref; j++) ref = (fs->ent[j].used && fs->ent[j].inode == i) || (fs->dent[j].used && fs->dent[j].inode == i);
    for (int j = 0; j < fs->npend && !ref; j++) ref = fs->pend[j].kind == 1 && fs->pend[j].inode == i;
    if (!ref) n.used = 0;
  }
}
static void sync_meta ()
{
  for (int i = 0; i < fs->npend; i++) apply_dir (fs->dent, fs->pend[i]);
  fs->npend = 0;
}
static void sync_inode (int i)
{
  Inode & n = fs->ino[i];
  memcpy (n.ddata, n.data, n.size); n.dsize = n.size; n.dirty = 0;
}
uint64_t fs_used () { uint64_t u = 0; gc (); for (int i = 0; i < MAX_INODES; i++) if (fs->ino[i].used) u += fs->ino[i].size; return u; }
void fs_setcap (uint64_t b) { fs->cap = b; }
void fs_mkdir (const char * p) { std::string s = norm (p); if (!look (fs->ent, s.c_str ())) { int i = new_inode (DT_DIR); add_entry (fs->ent, s.c_str (), i); add_entry (fs->dent, s.c_str (), i); } }
void fs_mkspecial (const char * p, int dt) { std::string s = norm (p); int i = new_inode (dt); add_entry (fs->ent, s.c_str (), i); add_entry (fs->dent, s.c_str (), i); }
void fs_put (const char * p, const std::string & d)
{
  std::string s = norm (p);
  Entry * e = look (fs->ent, s.c_str ());
  int i = new_inode (DT_REG);
  if (e) e->inode = i; else add_entry (fs->ent, s.c_str (), i);
  Entry * q = look (fs->dent, s.c_str ());
  if (q) q->inode = i; else add_entry (fs->dent, s.c_str (), i);
  Inode & n = fs->ino[i];
  n.size = n.dsize = (uint32_t) std::min<size_t> (d.size (), MAX_DATA);
  memcpy (n.data, d.data (), n.size); memcpy (n.ddata, d.data (), n.size);
  gc ();
}
bool fs_get (const char * p, std::string & out)
{
  std::string s = norm (p);
  Entry * e = look (fs->ent, s.c_str ());
  if (!e || fs->ino[e->inode].dtype != DT_REG) return false;
  out.assign (fs->ino[e->inode].data, fs->ino[e->inode].size);
  return true;
}
// Another process changes a file in place
bool fs_truncate (const char * p, uint32_t n)
{
  Entry * e = look (fs->ent, norm (p).c_str ());
  if (!e || fs->ino[e->inode].dtype != DT_REG) return false;
  Inode & d = fs->ino[e->inode];
  if (n < d.size) { d.size = n; d.dirty = 1; sim_fault_count (FK_EXTERNAL_FS); }
  return true;
}
bool fs_append (const char * p, const std::string & s)
{
  Entry * e = look (fs->ent, norm (p).c_str ());
  if (!e || fs->ino[e->inode].dtype != DT_REG) return false;
  Inode & d = fs->ino[e->inode];
  if (d.size + s.size () > MAX_DATA) return false;
  memcpy (d.data + d.size, s.data (), s.size ()); d.size += (uint32_t) s.size (); d.dirty = 1;
  sim_fault_count (FK_EXTERNAL_FS);
  return true;
}
bool fs_exists (const char * p) { return look (fs->ent, norm (p).c_str ()) != nullptr; }
void fs_remove (const char * p)
{
  std::string s = norm (p);
  Entry * e = look (fs->ent, s.c_str ()); if (e) e->used = 0;
  e = look (fs->dent, s.c_str ()); if (e) e->used = 0;
}
std::vector<std::string> fs_list (const char * dir)
{
  std::vector<std::string> r; std::string d = norm (dir); if (d == ".") d = "";
  for (int i = 0; i < MAX_ENTRIES; i++) if (fs->ent[i].used && parent (fs->ent[i].path) == d) r.push_back (strrchr (fs->ent[i].path, '/') ? strrchr (fs->ent[i].path, '/') + 1 : fs->ent[i].path);
  std::sort (r.begin (), r.end ());
  return r;
}

// Power loss: a prefix of the journalled directory operations survives; unsynchronised data survives fully, partly, as zeros or not at all.
void fs_apply_power_loss ()
{
  int keep = (int) sim_choose (60, (uint64_t) fs->npend + 1, (uint64_t) fs->npend);
  for (int i = 0; i < keep; i++) apply_dir (fs->dent, fs->pend[i]);
  fs->npend = 0;
  for (int i = 0; i < MAX_INODES; i++)
  {
    Inode & n = fs->ino[i];
    if (!n.used || n.dtype != DT_REG) continue;
    if (n.dirty)
    {
      uint64_t mode = sim_choose (61, 5, 0);
      if (mode == 0) {}                                            // all written back
      else if (mode == 1) { n.size = n.dsize; memcpy (n.data, n.ddata, n.dsize); sim_fault_count (FK_TORN); }   // nothing written back
      else if (mode == 2) { n.size = (uint32_t) (n.size * sim_choose (62, 100, 0) / 100); sim_fault_count (FK_TORN); }  // prefix
      else if (mode == 3) { n.size = 0; sim_fault_count (FK_TORN); }
      else { uint32_t from = (uint32_t) (n.size * sim_choose (63, 100, 0) / 100); memset (n.data + from, 0, n.size - from); sim_fault_count (FK_TORN); } // length updated, data zero
    }
    memcpy (n.ddata, n.data, n.size); n.dsize = n.size; n.dirty = 0; n.refs = 0;
  }
  for (int i = 0; i < MAX_ENTRIES; i++) fs->ent[i] = fs->dent[i];
}
void fs_restart ()
{
  for (int i = 0; i < MAX_INODES; i++) fs->ino[i].refs = 0;
}
void sim_crash (bool power) { sim_exit_crash (power); }
static void crash_point ()
{
  if (!crash_on || !g_active) return;
  if (sim_fault (FK_POWERLOSS)) { g_res->faults[FK_POWERLOSS]--; sim_exit_crash (true); }
  if (sim_fault (FK_CRASH)) { g_res->faults[FK_CRASH]--; sim_exit_crash (false); }
}

// ---------------------------------------------------------------- open files
struct Handle { int inode; uint64_t pos; int flags; bool console; int con; std::string path; int fd; bool closed; };
static std::map<int, Handle *> fds;
static std::map<FILE *, Handle *> files;
static int next_fd = 100;
static int open_dirs, open_regex;
struct Sock { bool open, broadcast; };
static std::map<int, Sock> socks;
static uint64_t bad_closes;
static std::string con_text[2];
std::string sim_stdout () { if (g_res) { extern FILE * sim_stdout_f; fflush (sim_stdout_f); } return con_text[0]; }
std::string sim_stderr () { extern FILE * sim_stderr_f; fflush (sim_stderr_f); return con_text[1]; }
uint64_t sim_bad_closes () { return bad_closes; }
static std::vector<Datagram> grams;
std::vector<Datagram> & sim_datagrams () { return grams; }
int sim_open_sockets () { int n = 0; for (auto & s : socks) if (s.second.open) n++; return n; }
int fs_open_handles () { return (int) fds.size () + open_dirs; }
int sim_open_regex () { return open_regex; }

static bool io_delay_on = true;
static void io_point (int kind, const void * o)
{
  sim_sync_point (kind, o);
  if (g_active && !g_faults_off && io_delay_on && sim_fault (FK_IO_DELAY)) sim_sleep (1000 * (1 + sim_choose (64, 20000, 0)));
}

static Handle * do_open (const char * path, int flags)
{
  std::string p = norm (path);
  if (p.empty ()) { errno = ENOENT; return nullptr; }
  if (strlen (path) >= PATH_MAX) { errno = ENAMETOOLONG; return nullptr; }
  size_t bs = p.rfind ('/');
  if ((bs == std::string::npos ? p.size () : p.size () - bs - 1) > 255) { errno = ENAMETOOLONG; return nullptr; }
  if (sim_fault (FK_OPEN_FAIL)) { static const int errs[] = { EACCES, EMFILE, ENFILE, EIO, EROFS }; errno = errs[sim_choose (65, 5, 0)]; return nullptr; }
  Entry * e = look (fs->ent, p.c_str ());
  int acc = flags & O_ACCMODE;
  if (!e)
  {
    if (!(flags & O_CREAT)) { errno = ENOENT; return nullptr; }
    if (!isdir (parent (p))) { errno = ENOENT; return nullptr; }
    int i = new_inode (DT_REG);
    if (i < 0) { errno = ENOSPC; return nullptr; }
    e = add_entry (fs->ent, p.c_str (), i);
    if (!e) { errno = ENOSPC; return nullptr; }
    add_pending (1, i, p.c_str (), nullptr);
  }
  else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return nullptr; }
  Inode & n = fs->ino[e->inode];
  if (n.dtype == DT_DIR && acc != O_RDONLY) { errno = EISDIR; return nullptr; }
  if ((flags & O_TRUNC) && acc != O_RDONLY && n.dtype == DT_REG) { n.size = 0; n.dirty = 1; }
  Handle * h = new Handle { e->inode, 0, flags, false, 0, p, next_fd++, false };
  n.refs++;
  fds[h->fd] = h;
  return h;
}

static ssize_t h_read (Handle * h, char * buf, size_t n)
{
  Inode & d = fs->ino[h->inode];
  if (d.dtype == DT_DIR) { errno = EISDIR; return -1; }
  if (d.dtype != DT_REG) { // a pipe-like special file: yields a few bytes, then end of file
    if (h->pos >= 5) return 0; size_t k = std::min<size_t> (n, 5 - h->pos); memcpy (buf, "PIPE!" + h->pos, k); h->pos += k; return (ssize_t) k; }
  if (sim_fault (FK_READ_EIO)) { errno = EIO; return -1; }
  size_t k = h->pos >= d.size ? 0 : std::min<size_t> (n, d.size - h->pos);
  if (k > 1 && sim_fault (FK_READ_SHORT)) k = 1 + sim_choose (66, k - 1, 0);
  memcpy (buf, d.data + h->pos, k);
  h->pos += k;
  return (ssize_t) k;
}
static ssize_t h_write (Handle * h, const char * buf, size_t n)
{
  if (h->console)
  {
    if (sim_fault (FK_WRITE_EIO)) { errno = EIO; return -1; }
    con_text[h->con].append (buf, n); return (ssize_t) n;
  }
  crash_point ();
  Inode & d = fs->ino[h->inode];
  if (h->flags & O_APPEND) h->pos = d.size;
  if (sim_fault (FK_WRITE_EIO)) { errno = EIO; return -1; }
  bool full = sim_fault (FK_WRITE_ENOSPC);
  if (fs->cap) { uint64_t u = fs_used (); uint64_t grow = h->pos + n > d.size ? h->pos + n - d.size : 0; if (u + grow > fs->cap) full = true; }
  if (h->pos + n > MAX_DATA) full = true;
  if (full)
  {
    // a full disk often accepts part of the data first
    size_t k = n > 1 ? sim_choose (67, n, 0) : 0;
    if (k == 0 || h->pos + k > MAX_DATA) { errno = ENOSPC; return -1; }
    n = k;
  }
  else if (n > 1 && sim_fault (FK_WRITE_SHORT)) n = 1 + sim_choose (68, n - 1, 0);
  if (h->pos > d.size) memset (d.data + d.size, 0, h->pos - d.size);
  memcpy (d.data + h->pos, buf, n);
  h->pos += n;
  if (h->pos > d.size) d.size = (uint32_t) h->pos;
  d.dirty = 1;
  crash_point ();
  return (ssize_t) n;
}
static int h_seek (Handle * h, off64_t * off, int whence)
{
  if (h->console) { errno = ESPIPE; return -1; }
  Inode & d = fs->ino[h->inode];
  if (d.dtype != DT_REG && d.dtype != DT_DIR) { errno = ESPIPE; return -1; }
  if (sim_fault (FK_SEEK_FAIL)) { errno = EIO; return -1; }
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t) h->pos : (d.dtype == DT_DIR ? INT64_MAX : (int64_t) d.size);
  int64_t np = d.dtype == DT_DIR && whence == SEEK_END ? INT64_MAX : base + *off;
  if (np < 0) { errno = EINVAL; return -1; }
  h->pos = (uint64_t) np;
  *off = np;
  return 0;
}
static int h_close (Handle * h)
{
  int r = 0;
  if (h->inode >= 0 && !h->console)
  {
    crash_point ();
    if ((h->flags & O_ACCMODE) != O_RDONLY && sim_fault (FK_CLOSE_FAIL)) { errno = sim_choose (69, 2, 0) ? ENOSPC : EIO; r = -1;
      // a delayed write error: the tail of the data is lost
      Inode & d = fs->ino[h->inode];
      if (d.size) { d.size = (uint32_t) (d.size * sim_choose (70, 100, 0) / 100); d.dirty = 1; } }
    fs->ino[h->inode].refs--;
  }
  fds.erase (h->fd);
  delete h;
  return r;
}
static ssize_t ck_read (void * c, char * b, size_t n) { return h_read ((Handle *) c, b, n); }
static ssize_t ck_write (void * c, const char * b, size_t n)
{
  // like the C library's own files: retry after a short write, stop at an error
  size_t done = 0;
  while (done < n)
  {
    ssize_t r = h_write ((Handle *) c, b + done, n - done);
    if (r <= 0) break;
    done += (size_t) r;
  }
  return (ssize_t) done;
}
static int ck_seek (void * c, off64_t * o, int w) { return h_seek ((Handle *) c, o, w); }
static int ck_close (void * c) { return h_close ((Handle *) c); }

static int mode_flags (const char * m)
{
  int f;
  bool plus = strchr (m, '+') != nullptr;
  if (m[0] == 'r') f = plus ? O_RDWR : O_RDONLY;
  else if (m[0] == 'w') f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  if (strchr (m, 'x')) f |= O_EXCL;
  return f;
}
static FILE * wrap (Handle * h, const char * mode)
{
  cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
  FILE * f = fopencookie (h, mode, io);
  files[f] = h;
  return f;
}

FILE * sim_stdout_f, * sim_stderr_f;
void sim_io_setup ()
{
  static Handle c[2];
  for (int i = 0; i < 2; i++)
  {
    c[i].console = true; c[i].con = i; c[i].inode = -1; c[i].fd = i + 1;
    cookie_io_functions_t io = { nullptr, ck_write, nullptr, nullptr };
    FILE * f = fopencookie (&c[i], "w", io);
    setvbuf (f, nullptr, _IONBF, 0);
    if (i == 0) { setvbuf (f, nullptr, _IOLBF, 4096); }
    (i == 0 ? sim_stdout_f : sim_stderr_f) = f;
  }
}
void sim_console_slow (bool) {}

static bool live_file (FILE * f)
{
  return f == sim_stdout_f || f == sim_stderr_f || files.count (f);
}
static void chk_file (FILE * f, const char * what)
{
  if (!g_active) return;
  if (!f) sim_fail ("null-dereference", "%s passed a null stream", what);
  if (!live_file (f)) sim_fail ("use-after-close", "%s on a stream that is not open", what);
}

extern "C" {
FILE * sim_fopen (const char * path, const char * mode)
{
  io_point (50, nullptr);
  sim_check_access (path, strlen (path) + 1, false, "fopen");
  crash_point ();
  Handle * h = do_open (path, mode_flags (mode));
  if (!h) return nullptr;
  FILE * f = wrap (h, mode);
  crash_point ();
  return f;
}
FILE * sim_fdopen (int fd, const char * mode)
{
  auto it = fds.find (fd);
  if (it == fds.end ()) { errno = EBADF; return nullptr; }
  return wrap (it->second, mode);
}
int sim_fclose (FILE * f)
{
  io_point (51, nullptr);
  chk_file (f, "fclose");
  files.erase (f);
  int r = fclose (f);
  return r;
}
size_t sim_fread (void * p, size_t s, size_t n, FILE * f)
{
  io_point (52, nullptr);
  chk_file (f, "fread");
  sim_check_access (p, s * n, true, "fread");
  size_t r = fread (p, s, n, f);
  sim_step ();
  return r;
}
size_t sim_fwrite (const void * p, size_t s, size_t n, FILE * f)
{
  io_point (53, nullptr);
  chk_file (f, "fwrite");
  sim_check_access (p, s * n, false, "fwrite");
  return fwrite (p, s, n, f);
}
int sim_fflush (FILE * f) { io_point (54, nullptr); if (f) chk_file (f, "fflush"); return f ? fflush (f) : 0; }
int sim_fseek (FILE * f, long o, int w) { io_point (55, nullptr); chk_file (f, "fseek"); return fseek (f, o, w); }
int sim_fseeko (FILE * f, off_t o, int w) { io_point (55, nullptr); chk_file (f, "fseek"); return fseeko (f, o, w); }
long sim_ftell (FILE * f) { sim_step (); chk_file (f, "ftell"); return ftell (f); }
off_t sim_ftello (FILE * f) { sim_step (); chk_file (f, "ftell"); return ftello (f); }
void sim_rewind (FILE * f) { io_point (55, nullptr); chk_file (f, "rewind"); rewind (f); }
int sim_feof (FILE * f) { return feof (f); }
int sim_ferror (FILE * f) { return ferror (f); }
void sim_clearerr (FILE * f) { clearerr (f); }
int sim_vfprintf (FILE * f, const char * fmt, va_list ap) { io_point (56, nullptr); chk_file (f, "fprintf"); return vfprintf (f, fmt, ap); }
int sim_fprintf (FILE * f, const char * fmt, ...) { va_list ap; va_start (ap, fmt); int r = sim_vfprintf (f, fmt, ap); va_end (ap); return r; }
int sim_printf (const char * fmt, ...) { va_list ap; va_start (ap, fmt); int r = sim_vfprintf (sim_stdout_f, fmt, ap); va_end (ap); return r; }
int sim_vprintf (const char * fmt, va_list ap) { return sim_vfprintf (sim_stdout_f, fmt, ap); }
int sim_fputs (const char * s, FILE * f) { io_point (56, nullptr); chk_file (f, "fputs"); sim_check_access (s, strlen (s) + 1, false, "fputs"); return fputs (s, f); }
int sim_puts (const char * s) { io_point (56, nullptr); return fprintf (sim_stdout_f, "%s\n", s); }
int sim_fputc (int c, FILE * f) { io_point (56, nullptr); chk_file (f, "fputc"); return fputc (c, f); }
int sim_putchar (int c) { return sim_fputc (c, sim_stdout_f); }
int sim_putc (int c, FILE * f) { return sim_fputc (c, f); }
int sim_fgetc (FILE * f) { io_point (52, nullptr); chk_file (f, "fgetc"); return fgetc (f); }
int sim_getc (FILE * f) { return sim_fgetc (f); }
char * sim_fgets (char * b, int n, FILE * f) { io_point (52, nullptr); chk_file (f, "fgets"); return fgets (b, n, f); }
void sim_perror (const char * s) { sim_fprintf (sim_stderr_f, "%s\n", s ? s : ""); }
int sim_fileno (FILE * f)
{
  sim_step ();
  if (f == sim_stdout_f) return 1;
  if (f == sim_stderr_f) return 2;
  chk_file (f, "fileno");
  return files[f]->fd;
}
int sim_open (const char * path, int flags, ...)
{
  io_point (50, nullptr);
  sim_check_access (path, strlen (path) + 1, false, "open");
  crash_point ();
  Handle * h = do_open (path, flags);
  if (!h) return -1;
  return h->fd;
}
int sim_mkstemp (char * t)
{
  size_t n = strlen (t);
  if (n < 6 || strcmp (t + n - 6, "XXXXXX")) { errno = EINVAL; return -1; }
  sim_check_access (t, n + 1, true, "mkstemp");
  static const char cs[] = "abcdefghijklmnopqrstuvwxyz0123456789";
  for (int i = 0; i < 6; i++) t[n - 6 + i] = cs[sim_choose (74, 36, 0)];
  for (unsigned k = 0; fs_exists (t); k++) for (unsigned i = 0, v = k; i < 6; i++, v /= 36) t[n - 6 + i] = cs[v % 36];
  return sim_open (t, O_CREAT | O_EXCL | O_RDWR);
}
int sim_chmod (const char * a, mode_t) { sim_step (); if (fs_exists (a) || isdir (norm (a))) return 0; errno = ENOENT; return -1; }
mode_t sim_umask (mode_t) { return 022; }
int sim_creat (const char * path, mode_t) { return sim_open (path, O_CREAT | O_WRONLY | O_TRUNC); }
static Handle * byfd (int fd) { auto it = fds.find (fd); if (it == fds.end ()) { errno = EBADF; return nullptr; } return it->second; }
ssize_t sim_read (int fd, void * b, size_t n)
{
  io_point (52, nullptr);
  Handle * h = byfd (fd);
  if (!h) return -1;
  sim_check_access (b, n, true, "read");
  return h_read (h, (char *) b, n);
}
ssize_t sim_write (int fd, const void * b, size_t n)
{
  io_point (53, nullptr);
  sim_check_access (b, n, false, "write");
  if (fd == 1 || fd == 2) { con_text[fd - 1].append ((const char *) b, n); return (ssize_t) n; }
  Handle * h = byfd (fd);
  if (!h) return -1;
  return h_write (h, (const char *) b, n);
}
off_t sim_lseek (int fd, off_t o, int w) { sim_step (); Handle * h = byfd (fd); if (!h) return -1; off64_t x = o; return h_seek (h, &x, w) ? -1 : x; }
ssize_t sim_pread (int fd, void * b, size_t n, off_t o)
{
  Handle * h = byfd (fd);
  if (!h) return -1;
  off64_t was = 0, x = o, end;
  if (h_seek (h, &was, SEEK_CUR) || h_seek (h, &x, SEEK_SET)) return -1;
  ssize_t r = sim_read (fd, b, n);
  end = was;
  int e = errno;
  h_seek (h, &end, SEEK_SET);
  errno = e;
  return r;
}
ssize_t sim_pwrite (int fd, const void * b, size_t n, off_t o)
{
  Handle * h = byfd (fd);
  if (!h) return -1;
  off64_t was = 0, x = o, end;
  if (h_seek (h, &was, SEEK_CUR) || h_seek (h, &x, SEEK_SET)) return -1;
  ssize_t r = sim_write (fd, b, n);
  end = was;
  int e = errno;
  h_seek (h, &end, SEEK_SET);
  errno = e;
  return r;
}
ssize_t sim_getdelim (char ** l, size_t * n, int delim, FILE * f)
{
  std::string t;
  for (;;)
  {
    int c = sim_fgetc (f);
    if (c == EOF) break;
    t += (char) c;
    if (c == delim) break;
  }
  if (t.empty ()) return -1;
  if (!*l || *n < t.size () + 1)
  {
    *n = t.size () + 1 < 120 ? 120 : t.size () + 1;
    char * p = (char *) sim_realloc (*l, *n);
    if (!p) return -1;
    *l = p;
  }
  sim_check_access (*l, t.size () + 1, true, "getdelim");
  memcpy (*l, t.c_str (), t.size () + 1);
  return (ssize_t) t.size ();
}
ssize_t sim_getline (char ** l, size_t * n, FILE * f) { return sim_getdelim (l, n, '\n', f); }
int sim_close (int fd)
{
  io_point (57, nullptr);
  auto s = socks.find (fd);
  if (s != socks.end ())
  {
    if (!s->second.open) { bad_closes++; errno = EBADF; return -1; }
    s->second.open = false;
    return 0;
  }
  auto it = fds.find (fd);
  if (it == fds.end ()) { if (fd >= 0) bad_closes++; errno = EBADF; return -1; }
  return h_close (it->second);
}
int sim_fsync (int fd)
{
  io_point (58, nullptr);
  Handle * h = byfd (fd);
  if (!h) return -1;
  crash_point ();
  if (sim_fault (FK_FSYNC_FAIL)) { errno = EIO; return -1; }
  sync_inode (h->inode);
  // as on journalling file systems, directory operations up to now are committed as well
  sync_meta ();
  crash_point ();
  return 0;
}
int sim_fdatasync (int fd) { return sim_fsync (fd); }
void sim_sync (void) { for (int i = 0; i < MAX_INODES; i++) if (fs->ino[i].used) sync_inode (i); sync_meta (); }
int sim_ftruncate (int fd, off_t n) { sim_step (); Handle * h = byfd (fd); if (!h) return -1; Inode & d = fs->ino[h->inode]; if (n > MAX_DATA) { errno = ENOSPC; return -1; } if ((uint32_t) n > d.size) memset (d.data + d.size, 0, (size_t) n - d.size); d.size = (uint32_t) n; d.dirty = 1; return 0; }
int sim_rename (const char * a, const char * b)
{
  io_point (59, nullptr);
  sim_check_access (a, strlen (a) + 1, false, "rename"); sim_check_access (b, strlen (b) + 1, false, "rename");
  crash_point ();
  std::string x = norm (a), y = norm (b);
  Entry * e = look (fs->ent, x.c_str ());
  if (!e) { errno = ENOENT; return -1; }
  if (strlen (b) >= PATH_MAX) { errno = ENAMETOOLONG; return -1; }
  if (sim_fault (FK_RENAME_FAIL)) { static const int errs[] = { EACCES, EIO, EBUSY, ENOSPC }; errno = errs[sim_choose (71, 4, 0)]; return -1; }
  Entry * d = look (fs->ent, y.c_str ());
  if (d && fs->ino[d->inode].dtype == DT_DIR) { errno = EISDIR; return -1; }
  if (!isdir (parent (y))) { errno = ENOENT; return -1; }
  if (d != e)
  {
    Pending p; p.kind = 2; snprintf (p.a, PATH_MAX, "%s", x.c_str ()); snprintf (p.b, PATH_MAX, "%s", y.c_str ());
    apply_dir (fs->ent, p);
    add_pending (2, -1, x.c_str (), y.c_str ());
  }
  crash_point ();
  return 0;
}
static int do_unlink (const char * a)
{
  io_point (60, nullptr);
  sim_check_access (a, strlen (a) + 1, false, "remove");
  crash_point ();
  std::string x = norm (a);
  Entry * e = look (fs->ent, x.c_str ());
  if (!e) { errno = ENOENT; return -1; }
  if (sim_fault (FK_REMOVE_FAIL)) { errno = sim_choose (72, 2, 0) ? EBUSY : EACCES; return -1; }
  if (fs->ino[e->inode].dtype == DT_DIR)
  {
    if (!fs_list (x.c_str ()).empty ()) { errno = ENOTEMPTY; return -1; }
  }
  e->used = 0;
  add_pending (3, -1, x.c_str (), nullptr);
  crash_point ();
  return 0;
}
int sim_remove (const char * a) { return do_unlink (a); }
int sim_unlink (const char * a) { std::string x = norm (a); if (isdir (x)) { errno = EISDIR; return -1; } return do_unlink (a); }
int sim_rmdir (const char * a) { if (!isdir (norm (a))) { errno = fs_exists (a) ? ENOTDIR : ENOENT; return -1; } return do_unlink (a); }
int sim_access (const char * a, int) { io_point (61, nullptr); if (isdir (norm (a)) || fs_exists (a)) return 0; errno = ENOENT; return -1; }
static int do_stat (int inode, struct stat * st)
{
  memset (st, 0, sizeof (*st));
  Inode & d = fs->ino[inode];
  st->st_mode = d.dtype == DT_DIR ? S_IFDIR | 0755 : d.dtype == DT_REG ? S_IFREG | 0644 : d.dtype == DT_FIFO ? S_IFIFO | 0644 : S_IFCHR | 0644;
  st->st_size = d.dtype == DT_REG ? d.size : 0;
  st->st_ino = (ino_t) inode + 1; st->st_nlink = 1; st->st_blksize = 4096;
  return 0;
}
int sim_stat (const char * a, struct stat * st)
{
  io_point (61, nullptr);
  std::string x = norm (a);
  Entry * e = look (fs->ent, x.c_str ());
  if (!e) { if (isdir (x)) { memset (st, 0, sizeof (*st)); st->st_mode = S_IFDIR | 0755; return 0; } errno = ENOENT; return -1; }
  return do_stat (e->inode, st);
}
int sim_lstat (const char * a, struct stat * st) { return sim_stat (a, st); }
int sim_fchmod (int fd, mode_t) { sim_step (); return byfd (fd) ? 0 : -1; }
int sim_fstat (int fd, struct stat * st) { io_point (61, nullptr); Handle * h = byfd (fd); if (!h) return -1; return do_stat (h->inode, st); }
int sim_mkdir (const char * a, mode_t) { io_point (61, nullptr); std::string x = norm (a); if (fs_exists (a)) { errno = EEXIST; return -1; } int i = new_inode (DT_DIR); add_entry (fs->ent, x.c_str (), i); add_pending (1, i, x.c_str (), nullptr); return 0; }
// ---------------------------------------------------------------- directories
struct SDir { std::string path; std::vector<std::string> names; size_t pos; struct dirent de; };
static std::set<SDir *> dirs;
DIR * sim_opendir (const char * p)
{
  io_point (62, nullptr);
  if (!p) { if (g_active) sim_fail ("null-dereference", "opendir passed a null name"); return nullptr; }
  if (sim_fault (FK_OPENDIR_FAIL)) { errno = sim_choose (73, 2, 0) ? EMFILE : EACCES; return nullptr; }
  std::string x = norm (p);
  if (!isdir (x)) { errno = fs_exists (p) ? ENOTDIR : ENOENT; return nullptr; }
  SDir * d = new SDir; d->path = x; d->pos = 0;
  d->names = fs_list (p);
  d->names.insert (d->names.begin (), ".."); d->names.insert (d->names.begin (), ".");
  // directory order is arbitrary: rotate
  if (d->names.size () > 2) { size_t r = sim_choose (74, d->names.size (), 0); std::rotate (d->names.begin (), d->names.begin () + (long) r, d->names.end ()); }
  dirs.insert (d); open_dirs++;
  return (DIR *) d;
}
struct dirent * sim_readdir (DIR * dd)
{
  sim_sync_point (63, nullptr);
  SDir * d = (SDir *) dd;
  if (!dirs.count (d)) sim_fail ("use-after-close", "readdir on a closed directory");
  if (sim_fault (FK_READDIR_FAIL)) { errno = EIO; return nullptr; }
  while (d->pos < d->names.size ())
  {
    std::string n = d->names[d->pos++];
    memset (&d->de, 0, sizeof (d->de));
    snprintf (d->de.d_name, sizeof (d->de.d_name), "%s", n.c_str ());
    d->de.d_type = DT_DIR; d->de.d_ino = 1;
    if (n != "." && n != "..")
    {
      std::string full = d->path.empty () || d->path == "." ? n : d->path == "/" ? "/" + n : d->path + "/" + n;
      Entry * e = look (fs->ent, full.c_str ());
      if (!e) continue; // removed meanwhile
      d->de.d_type = (unsigned char) fs->ino[e->inode].dtype; d->de.d_ino = (ino_t) e->inode + 2;
    }
    return &d->de;
  }
  return nullptr;
}
int sim_closedir (DIR * dd) { sim_step (); SDir * d = (SDir *) dd; if (!dirs.erase (d)) { if (g_active) sim_fail ("use-after-close", "closedir on a closed directory"); return -1; } delete d; open_dirs--; return 0; }
int sim_regcomp (regex_t * r, const char * s, int f) { int e = regcomp (r, s, f); if (!e) open_regex++; return e; }
void sim_regfree (regex_t * r) { open_regex--; regfree (r); }
// ---------------------------------------------------------------- sockets
int sim_socket (int, int, int)
{
  io_point (65, nullptr);
  if (sim_fault (FK_SOCKET_FAIL)) { errno = EMFILE; return -1; }
  int fd = next_fd++;
  socks[fd].open = true;
  return fd;
}
int sim_setsockopt (int s, int l, int o, const void * v, socklen_t n)
{
  sim_step ();
  if (!socks.count (s)) { errno = EBADF; return -1; }
  if (l == SOL_SOCKET && o == SO_BROADCAST && n >= sizeof (int)) socks[s].broadcast = *(const int *) v != 0;
  return 0;
}
ssize_t sim_sendto (int s, const void * b, size_t n, int, const struct sockaddr * a, socklen_t)
{
  io_point (66, nullptr);
  sim_check_access (b, n, false, "sendto");
  auto it = socks.find (s);
  if (it == socks.end () || !it->second.open) { bad_closes++; errno = EBADF; return -1; }
  if (sim_fault (FK_SEND_FAIL)) { static const int errs[] = { EAGAIN, ENETUNREACH, ECONNREFUSED, EINTR, ENOBUFS }; errno = errs[sim_choose (75, 5, 0)]; return -1; }
  const struct sockaddr_in * in = (const struct sockaddr_in *) a;
  if (in && in->sin_family != AF_INET && in->sin_family != AF_UNSPEC) { errno = EAFNOSUPPORT; return -1; }
  if (in && in->sin_addr.s_addr == 0xffffffffu && !it->second.broadcast) { errno = EACCES; return -1; }
  grams.push_back (Datagram { s, std::string ((const char *) b, n), in ? (uint32_t) in->sin_addr.s_addr : 0, in ? (uint16_t) ntohs (in->sin_port) : (uint16_t) 0 });
  return (ssize_t) n;
}
ssize_t sim_send (int s, const void * b, size_t n, int f) { return sim_sendto (s, b, n, f, nullptr, 0); }
ssize_t sim_sendmsg (int s, const struct msghdr * m, int f)
{
  std::string t;
  for (size_t i = 0; i < m->msg_iovlen; i++) t.append ((const char *) m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
  return sim_sendto (s, t.data (), t.size (), f, (const struct sockaddr *) m->msg_name, m->msg_namelen);
}
ssize_t sim_writev (int fd, const struct iovec * v, int n)
{
  std::string t;
  for (int i = 0; i < n; i++) { sim_check_access (v[i].iov_base, v[i].iov_len, false, "writev"); t.append ((const char *) v[i].iov_base, v[i].iov_len); }
  return sim_write (fd, t.data (), t.size ());
}
int sim_vdprintf (int fd, const char * f, va_list ap) { char b[4096]; int n = vsnprintf (b, sizeof (b), f, ap); return n < 0 ? n : (int) sim_write (fd, b, (size_t) std::min (n, (int) sizeof (b) - 1)); }
int sim_dprintf (int fd, const char * f, ...) { va_list ap; va_start (ap, f); int n = sim_vdprintf (fd, f, ap); va_end (ap); return n; }
int sim_shutdown (int, int) { return 0; }
}
