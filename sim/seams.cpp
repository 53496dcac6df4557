// libc services as seen by the code under test (objcopy renames X to simw_X).
#include "world.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/times.h>
#include <time.h>
#include <unistd.h>

void node_exit_switch();

static void step() {
  if (++g_steps > g_step_limit) violate("hang:steps", "the program made more than %llu calls without ending", (unsigned long long)g_step_limit);
}
static uint64_t phash(const std::string &p) { return hash_bytes(p.data(), p.size()); }

// A file-system operation: crash point, scheduling point, possible stall.
static void fs_op(const char *op, const std::string &path) {
  Node *n = cur;
  step();
  n->clock_streak = 0;
  n->nfsops++;
  if (n->crash_in_ops >= 0 && n->crash_in_ops-- == 0) {
    cnt("fault.crash_at_file_operation");
    if (n->save_no >= 0) cnt("probe.crash_inside_save");
    kill_node(n, sf("before %s %s", op, path.c_str()).c_str());
  }
  int64_t c = 1;
  uint32_t v = choose(SS, 8);
  static const int costs[8] = {1, 1, 2, 3, 7, 20, 90, 500};
  c = costs[v];
  if (fsf.stall && chance(SF, fsf.stall, 1000)) {
    static const double st[] = {0.01, 0.3, 0.9, 1.1, 2, 5, 15, 29, 31, 40};
    double s = st[choose(SF, 10)];
    if (s > fsf.stall_max_s) s = fsf.stall_max_s;
    cnt("fault.stall");
    note("  n%d stalls %.2fs", n->id, s);
    c += (int64_t)(s * 1e6);
  }
  n->t += c;
  n->cpu += std::min<int64_t>(c, 1000);
  yield_now();
  inter(phash(path) ^ (uint64_t)(n->id * 1315423911u) ^ hash_bytes(op, strlen(op)));
}
static bool ferr(const char *name, int p) {
  if (!p) return false;
  if (fsf.only_in_save && cur->save_no < 0) return false;
  if (!chance(SF, p, 1000)) return false;
  cnt((std::string("fault.") + name).c_str());
  return true;
}

static OpenFile *do_open(const char *cpath, int flags, const char *how) {
  Harness h;
  if (!cpath) violate("null-path", "a file with a null name was opened");
  std::string path = norm_path(cpath);
  fs_op(how, path);
  Node *n = cur;
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  auto fail = [&](int e) -> OpenFile * { ev("n%d %s %s -> errno %d", n->id, how, path.c_str(), e); errno = e; return nullptr; };
  InodeP i = vfs.get(path);
  if (path.empty()) return fail(ENOENT);
  if (path.size() > 4095) return fail(ENAMETOOLONG);
  { size_t b = path.rfind('/'); if (path.size() - (b == std::string::npos ? 0 : b + 1) > 255) return fail(ENAMETOOLONG); }
  if (!i && !(flags & O_CREAT)) return fail(ENOENT);
  if (i && (flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
  if (i && i->dir) return fail(wr ? EISDIR : EACCES);
  if (i && wr && i->readonly) return fail(EACCES);
  if (i && !wr && i->unreadable) return fail(EACCES);
  if (!i) { // parent directory
    size_t b = path.rfind('/');
    if (b != std::string::npos && b > 0) { InodeP dd = vfs.get(path.substr(0, b)); if (!dd || !dd->dir) return fail(ENOENT); if (dd->readonly) return fail(EACCES); }
  }
  if (wr) {
    if (ferr("open_for_write_fails", fsf.open_wr_fail)) { static const int es[] = {EACCES, ENOSPC, EROFS, EIO}; return fail(es[choose(SF, 4)]); }
  } else if (ferr("open_for_read_fails", fsf.open_fail)) { static const int es[] = {EACCES, EIO, EINTR, ENFILE}; return fail(es[choose(SF, 4)]); }
  if (ferr("too_many_open_files", fsf.emfile)) return fail(EMFILE);
  bool created = false;
  if (!i) {
    i = std::make_shared<Inode>(); i->id = vfs.next++; i->nlink = 1; i->creator = n->id; i->creator_save = n->save_no; created = true;
    if (on_mutation) on_mutation(n, "create", path, i);
    vfs.d[path] = i;
  } else if (wr && (flags & O_TRUNC)) {
    if (on_mutation) on_mutation(n, "truncate", path, i);
    if (vfs.capacity >= 0) vfs.capacity += i->data.size();
    i->data.clear(); i->writes++;
  }
  OpenFile *f = new OpenFile;
  f->fd = n->next_fd++; f->owner = n; f->ino = i; f->path = path;
  f->w = wr; f->r = (flags & O_ACCMODE) != O_WRONLY; f->app = flags & O_APPEND;
  n->fds[f->fd] = f;
  ev("n%d %s %s -> ok%s", n->id, how, path.c_str(), created ? " created" : "");
  return f;
}
static ssize_t do_read(OpenFile *f, char *buf, size_t size) {
  Harness h;
  fs_op("read", f->path);
  if (ferr("read_error", fsf.read_eio)) { ev("n%d read %s -> EIO", cur->id, f->path.c_str()); errno = EIO; return -1; }
  size_t n = f->pos < f->ino->data.size() ? std::min(size, f->ino->data.size() - f->pos) : 0;
  if (n > 1 && ferr("short_read", fsf.short_read)) n = 1 + choose(SF, (uint32_t)std::min<size_t>(n - 1, 4096));
  memcpy(buf, f->ino->data.data() + f->pos, n);
  f->pos += n;
  ev("n%d read %s -> %zu", cur->id, f->path.c_str(), n);
  return n;
}
static ssize_t put_bytes(OpenFile *f, const char *buf, size_t n) {
  if (on_mutation) on_mutation(cur, "write", f->path, f->ino);
  if (f->app) f->pos = f->ino->data.size();
  if (f->pos > f->ino->data.size()) f->ino->data.resize(f->pos, 0);
  size_t grow = f->pos + n > f->ino->data.size() ? f->pos + n - f->ino->data.size() : 0;
  if (vfs.capacity >= 0) {
    if ((int64_t)grow > vfs.capacity) {
      size_t over = f->pos + n - f->ino->data.size() - vfs.capacity;
      n = n > over ? n - over : 0;
      grow = vfs.capacity;
      cnt("fault.disk_full");
    }
    vfs.capacity -= grow;
  }
  f->ino->data.replace(f->pos, std::min(n, f->ino->data.size() - f->pos), buf, n);
  f->pos += n; f->ino->writes++;
  return n;
}
static ssize_t do_write(OpenFile *f, const char *buf, size_t size, bool loop) {
  Harness h;
  size_t done = 0;
  do {
    fs_op("write", f->path);
    if (ferr("write_no_space", fsf.write_enospc)) {
      size_t part = choose(SF, (uint32_t)std::min<size_t>(std::max<size_t>(size - done, 1), 100000)); // never all of it: that would be no failure
      if (part) { ssize_t w = put_bytes(f, buf + done, part); if (w > 0) done += w; } // less if the disk is full as well
      ev("n%d write %s -> ENOSPC after %zu", cur->id, f->path.c_str(), part);
      errno = ENOSPC; return done ? (ssize_t)done : -1;
    }
    if (ferr("write_error", fsf.write_eio)) { ev("n%d write %s -> EIO", cur->id, f->path.c_str()); errno = EIO; return done ? (ssize_t)done : -1; }
    size_t m = size - done;
    if (m > 1 && ferr("short_write", fsf.short_write)) m = 1 + choose(SF, (uint32_t)std::min<size_t>(m - 1, 4096));
    if (m > 1 && cur->crash_in_ops == 0 && cur->crash_mid_write) { // torn write: a prefix reaches the file, then the process dies
      m = choose(SF, (uint32_t)m);
      if (m) put_bytes(f, buf + done, m);
      cnt("fault.torn_write_crash");
      cur->crash_in_ops = -1;
      kill_node(cur, sf("after %zu bytes of a write to %s", m, f->path.c_str()).c_str());
    }
    ssize_t w = put_bytes(f, buf + done, m);
    ev("n%d write %s %zu -> %zd", cur->id, f->path.c_str(), m, w);
    if (w <= 0 && m > 0) { errno = ENOSPC; return done ? (ssize_t)done : -1; }
    done += w;
  } while (loop && done < size);
  return done;
}
static int do_close(OpenFile *f) {
  Harness h;
  if (f->closed) { errno = EBADF; return -1; }
  fs_op("close", f->path);
  f->closed = true;
  f->owner->fds.erase(f->fd);
  if (f->w && ferr("close_error", fsf.close_fail)) { ev("n%d close %s -> error", cur->id, f->path.c_str()); errno = choose(SF, 2) ? EIO : ENOSPC; return -1; }
  ev("n%d close %s", cur->id, f->path.c_str());
  return 0;
}
static int do_unlink(const char *cp, const char *how) {
  Harness h;
  std::string path = norm_path(cp);
  fs_op(how, path);
  InodeP i = vfs.get(path);
  auto fail = [&](int e) { ev("n%d %s %s -> errno %d", cur->id, how, path.c_str(), e); errno = e; return -1; };
  if (!i) return fail(ENOENT);
  if (i->dir) return fail(EISDIR);
  if (ferr("unlink_fails", fsf.unlink_fail)) return fail(choose(SF, 2) ? EIO : EACCES);
  if (on_mutation) on_mutation(cur, "unlink", path, i);
  if (--i->nlink == 0 && vfs.capacity >= 0) vfs.capacity += i->data.size();
  vfs.d.erase(path);
  ev("n%d %s %s -> ok", cur->id, how, path.c_str());
  return 0;
}
static int do_rename(const char *a, const char *b) {
  Harness h;
  std::string pa = norm_path(a), pb = norm_path(b);
  fs_op("rename", pb);
  auto fail = [&](int e) { ev("n%d rename %s %s -> errno %d", cur->id, pa.c_str(), pb.c_str(), e); errno = e; return -1; };
  InodeP i = vfs.get(pa);
  if (!i) return fail(ENOENT);
  InodeP j = vfs.get(pb);
  if (j && j->dir) return fail(EISDIR);
  if (pb.size() > 255 && pb.find('/') == std::string::npos) return fail(ENAMETOOLONG);
  if (ferr("rename_fails", fsf.rename_fail)) { static const int es[] = {EIO, EACCES, ENOSPC}; return fail(es[choose(SF, 3)]); }
  if (pa == pb || i == j) return 0;
  if (cur->win() && pa != pb && vfs.get(pb)) return fail(EEXIST); // there it does not replace
  if (on_mutation) on_mutation(cur, "rename", pb, i);
  if (j && --j->nlink == 0 && vfs.capacity >= 0) vfs.capacity += j->data.size();
  vfs.d.erase(pa);
  vfs.d[pb] = i;
  ev("n%d rename %s %s -> ok", cur->id, pa.c_str(), pb.c_str());
  return 0;
}

// ---- stdio: real FILEs over the simulated files
static ssize_t ck_read(void *c, char *b, size_t n) { ssize_t r = do_read((OpenFile *)c, b, n); return r; }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = do_write((OpenFile *)c, b, n, true); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *o, int wh) {
  OpenFile *f = (OpenFile *)c;
  off64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)f->pos : (off64_t)f->ino->data.size();
  if (base + *o < 0) { errno = EINVAL; return -1; }
  f->pos = base + *o; *o = f->pos;
  return 0;
}
static int ck_close(void *c) { return do_close((OpenFile *)c); }

static ssize_t out_write(void *, const char *b, size_t n) {
  if (cur) { if (cur->out.size() < 400000) cur->out.append(b, n); }
  return n;
}
extern "C" { FILE *simw_stdout, *simw_stderr, *simw_stdin; }
struct InitStd { InitStd() {
  cookie_io_functions_t io = {nullptr, out_write, nullptr, nullptr};
  simw_stdout = fopencookie(nullptr, "w", io); setvbuf(simw_stdout, nullptr, _IONBF, 0);
  simw_stderr = fopencookie(nullptr, "w", io); setvbuf(simw_stderr, nullptr, _IONBF, 0);
  simw_stdin = fopencookie(nullptr, "r", io);
} } initstd;

void flush_streams(Node *n) {
  std::vector<FILE *> v;
  for (auto &q : n->streams) v.push_back(q.first);
  std::sort(v.begin(), v.end(), [&](FILE *a, FILE *b) { return n->streams[a]->fd < n->streams[b]->fd; });
  for (FILE *f : v) if (n->streams.count(f)) fflush(f);
}
void sut_exit(int code) {
  Harness h;
  cur->exit_code = code; cur->exited = true;
  { auto v = cur->atexits; cur->atexits.clear(); for (auto i = v.rbegin(); i != v.rend(); ++i) { sh->in_sut = 1; (*i)(); sh->in_sut = 0; } }
  flush_streams(cur);
  if (!cur->started) harness_error("exit outside a process");
  node_exit_switch();
}

extern "C" {
static int parse_mode(const char *m) {
  int fl; bool plus = strchr(m, '+') != nullptr;
  if (m[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else if (m[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else if (m[0] == 'a') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  else { errno = EINVAL; return -1; }
  if (strchr(m, 'x')) fl |= O_EXCL;
  return fl;
}
static FILE *wrap(OpenFile *f, const char *m) {
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *fp = fopencookie(f, m, io);
  if (!fp) harness_error("fopencookie");
  static const size_t bs[] = {4096, 64, 512, 16, 1 << 16};
  size_t b = bs[cur->id >= 0 ? choose(SS, 5) : 0];
  f->vbuf = (char *)malloc(b);
  setvbuf(fp, f->vbuf, _IOFBF, b);
  f->fp = fp;
  f->owner->streams[fp] = f;
  return fp;
}
FILE *simw_fopen(const char *p, const char *m) {
  Harness h;
  int fl = parse_mode(m);
  if (fl < 0) return nullptr;
  OpenFile *f = do_open(p, fl, (fl & O_ACCMODE) == O_RDONLY ? "fopen-r" : (fl & O_EXCL) ? "fopen-wx" : (fl & O_APPEND) ? "fopen-a" : "fopen-w");
  if (!f) return nullptr;
  char mm[8]; int k = 0;
  for (const char *c = m; *c && k < 6; c++) if (strchr("rwa+b", *c)) mm[k++] = *c;
  mm[k] = 0;
  return wrap(f, mm);
}
FILE *simw_fopen64(const char *p, const char *m) { return simw_fopen(p, m); }
static std::set<FILE *> mem_streams; // over memory, no files: nothing can fail but the memory
int simw_fclose(FILE *fp) {
  Harness h;
  if (!fp) violate("null-stream", "fclose(NULL)");
  if (mem_streams.erase(fp)) return fclose(fp);
  auto it = cur->streams.find(fp);
  if (it == cur->streams.end()) { if (fp == simw_stdout || fp == simw_stderr) return 0; violate("bad-stream", "fclose() of a stream that is not open"); }
  int bad = ferror(fp) ? 1 : 0; (void)bad;
  Node *n = cur;
  OpenFile *f = it->second;
  int fl = f->w ? fflush(fp) : 0;       // same effect and result as the flush inside fclose
  int r = fclose(fp);
  n->streams.erase(fp);
  free(f->vbuf);
  return fl ? EOF : r;
}
FILE *simw_fdopen(int fd, const char *m) {
  Harness h;
  auto i = cur->fds.find(fd);
  if (i == cur->fds.end()) { errno = EBADF; return nullptr; }
  char mm[8]; int k = 0;
  for (const char *c = m; *c && k < 6; c++) if (strchr("rwa+b", *c)) mm[k++] = *c;
  mm[k] = 0;
  return wrap(i->second, mm);
}
FILE *simw_freopen(const char *p, const char *m, FILE *fp) { simw_fclose(fp); return simw_fopen(p, m); }
int simw_fflush(FILE *fp) { Harness h; if (!fp) { flush_streams(cur); return 0; } return fflush(fp); }
int simw_fileno(FILE *fp) { Harness h; auto it = cur->streams.find(fp); if (it == cur->streams.end()) return fp == simw_stdout ? 1 : 2; return it->second->fd; }
int simw_remove(const char *p) { return do_unlink(p, "remove"); }
int simw_unlink(const char *p) { return do_unlink(p, "unlink"); }
int simw__kbhit() { Harness h; return cur->keys_waiting() > 0; }
int simw__getch() {
  Harness h;
  if (!cur->keys_waiting()) violate("waits-for-key", "the run stands still until a key is pressed");
  int k = cur->keys[cur->key_at++].second;
  ev("n%d key %d", cur->id, k);
  if (cur->on_key) cur->on_key(k);
  return k;
}
int simw_kbhit() { return simw__kbhit(); }
int simw_getch() { return simw__getch(); }
int simw_rename(const char *a, const char *b) { return do_rename(a, b); }
int simw_link(const char *a, const char *b) {
  Harness h;
  std::string pa = norm_path(a), pb = norm_path(b);
  fs_op("link", pb);
  InodeP i = vfs.get(pa);
  if (!i) { errno = ENOENT; return -1; }
  if (vfs.get(pb)) { errno = EEXIST; return -1; }
  if (on_mutation) on_mutation(cur, "create", pb, i);
  i->nlink++; vfs.d[pb] = i;
  ev("n%d link %s %s", cur->id, pa.c_str(), pb.c_str());
  return 0;
}
int simw_symlink(const char *, const char *) { errno = EPERM; return -1; }
int simw_open(const char *p, int fl, ...) { OpenFile *f = do_open(p, fl, (fl & O_ACCMODE) == O_RDONLY ? "open-r" : (fl & O_EXCL) ? "open-wx" : "open-w"); return f ? f->fd : -1; }
int simw_open64(const char *p, int fl, ...) { return simw_open(p, fl); }
int simw_creat(const char *p, int) { return simw_open(p, O_WRONLY | O_CREAT | O_TRUNC); }
static OpenFile *getfd(int fd) { auto i = cur->fds.find(fd); if (i == cur->fds.end()) { errno = EBADF; return nullptr; } return i->second; }
ssize_t simw_read(int fd, void *b, size_t n) { OpenFile *f = getfd(fd); return f ? do_read(f, (char *)b, n) : -1; }
ssize_t simw_write(int fd, const void *b, size_t n) {
  if (fd == 1 || fd == 2) { Harness h; cur->out.append((const char *)b, n); return n; }
  OpenFile *f = getfd(fd); return f ? do_write(f, (const char *)b, n, false) : -1;
}
int simw_close(int fd) { OpenFile *f = getfd(fd); return f ? do_close(f) : -1; }
int simw_fsync(int fd) { Harness h; OpenFile *f = getfd(fd); if (!f) return -1; fs_op("fsync", f->path); return 0; }
int simw_fdatasync(int fd) { return simw_fsync(fd); }
void simw_sync(void) {}
int simw_ftruncate(int fd, off_t n) { Harness h; OpenFile *f = getfd(fd); if (!f) return -1; fs_op("ftruncate", f->path); if (on_mutation) on_mutation(cur, "truncate", f->path, f->ino); f->ino->data.resize(n); return 0; }
int simw_truncate(const char *p, off_t n) { Harness h; std::string q = norm_path(p); fs_op("truncate", q); InodeP i = vfs.get(q); if (!i) { errno = ENOENT; return -1; } if (on_mutation) on_mutation(cur, "truncate", q, i); i->data.resize(n); return 0; }
off_t simw_lseek(int fd, off_t o, int wh) { OpenFile *f = getfd(fd); if (!f) return -1; off64_t x = o; return ck_seek(f, &x, wh) ? -1 : x; }
int simw_access(const char *p, int mode) { Harness h; std::string q = norm_path(p); fs_op("access", q); InodeP i = vfs.get(q); if (!i) { errno = ENOENT; return -1; } if (((mode & W_OK) && i->readonly) || ((mode & R_OK) && i->unreadable)) { errno = EACCES; return -1; } return 0; }
static int do_stat(const std::string &q, InodeP i, struct stat *st) {
  memset(st, 0, sizeof *st);
  if (!i) { errno = ENOENT; return -1; }
  st->st_ino = i->id; st->st_size = i->data.size(); st->st_nlink = i->nlink; st->st_mode = i->dir ? S_IFDIR | 0755 : S_IFREG | 0644;
  st->st_mtime = g_epoch + g_now / 1000000;
  return 0;
}
int simw_stat(const char *p, struct stat *st) { Harness h; std::string q = norm_path(p); fs_op("stat", q); return do_stat(q, vfs.get(q), st); }
int simw_lstat(const char *p, struct stat *st) { return simw_stat(p, st); }
int simw_fstat(int fd, struct stat *st) { Harness h; OpenFile *f = getfd(fd); if (!f) return -1; return do_stat(f->path, f->ino, st); }
int simw_mkstemp(char *t) {
  size_t l = strlen(t);
  for (int k = 0; k < 100; k++) { snprintf(t + l - 6, 7, "%06d", (cur->id + 1) * 1000 + k + 1); if (!vfs.exists(norm_path(t))) return simw_open(t, O_RDWR | O_CREAT | O_EXCL); }
  errno = EEXIST; return -1;
}
int simw_mkdir(const char *p, unsigned) { Harness h; std::string q = norm_path(p); fs_op("mkdir", q); if (vfs.get(q)) { errno = EEXIST; return -1; } InodeP i = vfs.put(q, ""); i->dir = true; i->creator = cur->id; return 0; }
int simw_rmdir(const char *p) { Harness h; std::string q = norm_path(p); fs_op("rmdir", q); if (!vfs.get(q)) { errno = ENOENT; return -1; } vfs.rm(q); return 0; }
int simw_flock(int, int) { return 0; }
int simw_lockf(int, int, off_t) { return 0; }
int simw_fcntl(int, int, ...) { return 0; }
FILE *simw_tmpfile(void) { char t[] = "tmpfile.XXXXXX"; int fd = simw_mkstemp(t); if (fd < 0) return nullptr; OpenFile *f = getfd(fd); return wrap(f, "w+"); }
char *simw_tmpnam(char *b) { static char s[32]; char *d = b ? b : s; sprintf(d, "tmpnam.%d", cur->id); return d; }

// ---- time
static void time_op(int64_t us) { step(); cur->t += us; cur->cpu += us; }
static int64_t wall(Node *n) { return g_epoch * 1000000 + n->t + n->skew; }
time_t simw_time(time_t *p) { Harness h; cur->clock_streak = 0; time_op(1); yield_now(); int64_t w = wall(cur); time_t r = w >= 0 ? w / 1000000 : 0; if (p) *p = r; return r; }
static void spin(bool cpu) { // repeated polling of a clock: let time pass ever faster
  Node *n = cur;
  int64_t d = 1;
  int k = n->clock_streak++;
  if (k > 3) d = std::min<int64_t>(int64_t(1) << std::min(k - 3, 17), 100000);
  step(); n->t += d; n->cpu += d;
  yield_now();
}
clock_t simw_clock(void) { Harness h; spin(true); return (clock_t)(cur->cpu * (CLOCKS_PER_SEC / 1000000)); }
clock_t simw_times(struct tms *t) { Harness h; spin(true); memset(t, 0, sizeof *t); t->tms_utime = cur->cpu / 10000; return cur->t / 10000; }
int simw_clock_gettime(clockid_t c, struct timespec *ts) {
  Harness h; spin(false);
  int64_t w = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? wall(cur) : (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) ? cur->cpu : cur->t + 5000000;
  ts->tv_sec = w / 1000000; ts->tv_nsec = (w % 1000000) * 1000; return 0;
}
int simw_gettimeofday(struct timeval *tv, void *) { Harness h; spin(false); int64_t w = wall(cur); tv->tv_sec = w / 1000000; tv->tv_usec = w % 1000000; return 0; }
int simw_nanosleep(const struct timespec *a, struct timespec *b) { Harness h; step(); cur->clock_streak = 0; node_sleep(a->tv_sec * 1000000 + a->tv_nsec / 1000 + 50); if (b) b->tv_sec = b->tv_nsec = 0; return 0; }
int simw_usleep(unsigned us) { Harness h; step(); cur->clock_streak = 0; node_sleep(us + 50); return 0; }
unsigned simw_sleep(unsigned s) { Harness h; step(); cur->clock_streak = 0; node_sleep(s * 1000000ll + 50); return 0; }
int simw_sched_yield(void) { Harness h; step(); node_sleep(1); return 0; }
unsigned simw_alarm(unsigned) { return 0; }

// ---- randomness: the program's generator, seeded as the program seeds it (a fresh process starts from a fixed seed)
static uint64_t rnd64() { Rng r(cur->prng); uint64_t v = r.next(); cur->prng = r.s; cur->rand_calls++; return v; }
int simw_rand(void) { if (cur->rand_calls % 65536 == 65535) { Harness h; step(); } return (int)(rnd64() >> 33); }
void simw_srand(unsigned s) { Harness h; cur->prng = mix64(0x5EED ^ (uint64_t)s); cur->seeded = true; cur->seeds.push_back(s); ev("n%d seed %u", cur->id, s); }
long simw_random(void) { return simw_rand(); }
void simw_srandom(unsigned s) { simw_srand(s); }
double simw_drand48(void) { return (rnd64() >> 11) * (1.0 / 9007199254740992.0); }
void simw_srand48(long s) { simw_srand((unsigned)s); }
long simw_lrand48(void) { return simw_rand(); }
long simw_mrand48(void) { return (int32_t)rnd64(); }
ssize_t simw_getrandom(void *b, size_t n, unsigned) { Harness h; for (size_t i = 0; i < n; i++) ((char *)b)[i] = (char)mix64(cur->id * 1000003 + (uint64_t)cur->t * 31 + i); return n; }
unsigned simw_arc4random(void) { unsigned v; simw_getrandom(&v, 4, 0); return v; }
int simw_getpid(void) { return 4000 + cur->id; }
int simw_getppid(void) { return 1; }
unsigned simw_getuid(void) { return 1000; }
int simw_gethostname(char *b, size_t n) { snprintf(b, n, "simhost"); return 0; }

// ---- memory
static bool alloc_fails(size_t n) {
  step();
  if ((uint64_t)n > (uint64_t)g_bytes_limit) { cnt("fault.alloc_too_large"); return true; }
  if (cur->alloc_fail_at < 0) return false;
  if (cur->alloc_fail_at > 0) { cur->alloc_fail_at--; return false; }
  if (--cur->alloc_fail_n <= 0) cur->alloc_fail_at = -1;
  cnt("fault.alloc_failure");
  ev("n%d allocation of %zu fails", cur->id, n);
  return true;
}
void *simw_malloc(size_t n) {
  Harness h;
  if (alloc_fails(n)) { errno = ENOMEM; return nullptr; }
  void *p = malloc(n ? n : 1);
  if (!p) { errno = ENOMEM; return nullptr; }
  memset(p, g_fill, n);
  cur->live[p] = n;
  return p;
}
FILE *simw_open_memstream(char **b, size_t *n) { Harness h; if (alloc_fails(512)) { errno = ENOMEM; return nullptr; } FILE *f = open_memstream(b, n); if (f) mem_streams.insert(f); return f; }
FILE *simw_fmemopen(void *b, size_t n, const char *m) { Harness h; if (alloc_fails(512)) { errno = ENOMEM; return nullptr; } FILE *f = fmemopen(b, n, m); if (f) mem_streams.insert(f); return f; }
void *simw_calloc(size_t a, size_t b) {
  Harness h;
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  if (alloc_fails(n)) { errno = ENOMEM; return nullptr; }
  void *p = calloc(n ? n : 1, 1);
  if (!p) { errno = ENOMEM; return nullptr; }
  cur->live[p] = n;
  return p;
}
void simw_free(void *p) { if (!p) return; Harness h; cur->live.erase(p); sh->in_sut = 1; free(p); sh->in_sut = 0; }
void *simw_realloc(void *p, size_t n) {
  if (!p) return simw_malloc(n);
  Harness h;
  if (n == 0) { cur->live.erase(p); free(p); return nullptr; }
  if (alloc_fails(n)) { errno = ENOMEM; return nullptr; }
  size_t old = cur->live.count(p) ? cur->live[p] : n; // unknown: from the library (getline())
  void *q = realloc(p, n);
  if (!q) { errno = ENOMEM; return nullptr; }
  cur->live.erase(p);
  if (n > old) memset((char *)q + old, g_fill, n - old);
  cur->live[q] = n;
  return q;
}
void *simw_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return simw_realloc(p, n); }
void *simw_aligned_alloc(size_t al, size_t n) {
  Harness h;
  if (alloc_fails(n)) { errno = ENOMEM; return nullptr; }
  void *p = nullptr;
  if (posix_memalign(&p, al < sizeof(void *) ? sizeof(void *) : al, n ? n : 1)) { errno = ENOMEM; return nullptr; }
  memset(p, g_fill, n);
  cur->live[p] = n;
  return p;
}
int simw_posix_memalign(void **p, size_t al, size_t n) { *p = simw_aligned_alloc(al, n); return *p ? 0 : ENOMEM; }
char *simw_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)simw_malloc(n); if (p) memcpy(p, s, n); return p; }
char *simw_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)simw_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char *simw_strtok(char *s, const char *d) { if (!s && !cur->strtok_save) return nullptr; return strtok_r(s, d, &cur->strtok_save); }

// ---- terminal
static int vout(const char *f, va_list a) {
  Harness h;
  char *p = nullptr; int n = vasprintf(&p, f, a);
  if (n >= 0) { if (cur->out.size() < 400000) cur->out.append(p, n); free(p); }
  return n;
}
int simw_vprintf(const char *f, va_list a) { return vout(f, a); }
int simw_printf(const char *f, ...) { va_list a; va_start(a, f); int n = vout(f, a); va_end(a); return n; }
int simw_puts(const char *s) { Harness h; if (cur->out.size() < 400000) { cur->out += s; cur->out += '\n'; } return 1; }
int simw_putchar(int c) { Harness h; if (cur->out.size() < 400000) cur->out += (char)c; return c; }
int simw_fputs_unlocked(const char *s, FILE *f) { return fputs(s, f); }
int simw_getchar(void) { return -1; }
int simw_scanf(const char *, ...) { return -1; }

// ---- process control
int simw_system(const char *c) { violate("system", "the program runs a shell command: %s", c ? c : ""); }
int simw_fork(void) { errno = EAGAIN; return -1; }
int simw_execvp(const char *, char *const *) { errno = ENOENT; return -1; }
FILE *simw_popen(const char *, const char *) { errno = ENOENT; return nullptr; }
void simw_exit(int c) { sut_exit(c); abort(); }
void simw__exit(int c) { Harness h; cur->exit_code = c; cur->exited = true; cur->streams.clear(); node_exit_switch(); abort(); }
void simw__Exit(int c) { simw__exit(c); }
void simw_abort(void) { violate("crash:abort", "the code under test called abort()"); }
int simw_atexit(void (*f)(void)) { cur->atexits.push_back(f); return 0; }
void (*simw_signal(int, void (*)(int)))(int) { return nullptr; }
int simw_sigaction(int, const void *, void *) { return 0; }
int simw_raise(int s) { violate("crash:raise", "the code under test raised signal %d", s); }
int simw_kill(int, int) { errno = EPERM; return -1; }
void simw___assert_fail(const char *e, const char *f, unsigned l, const char *) { violate("crash:assert", "assertion failed in the code under test: %s", e); }
char *simw_getenv(const char *) { return nullptr; }
char *simw_secure_getenv(const char *) { return nullptr; }
}
