#include <sys/stat.h>
#include "engine.h"
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>

Shared *sh;
RunCfg rc;
static Rng srng[NSTREAM];

std::vector<Prop> &props() { static std::vector<Prop> v; return v; }

uint64_t mix64(uint64_t x) { Rng r(x); return r.next(); }
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
std::string sf(const char *fmt, ...) {
  char b[8192]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b;
}

uint32_t choose(Stream s, uint32_t n) {
  if (n == 0) harness_error("choose(0)");
  uint32_t i = sh->nch[s];
  uint32_t v;
  if (rc.replay) v = i < rc.tape.v[s].size() ? rc.tape.v[s][i] % n : 0;
  else v = (uint32_t)(srng[s].next() % n);
  if (i >= MAXCH) violate("hang:choices", "the program went on without ending (%u decisions in stream %d)", i, (int)s);
  sh->ch[s][i] = v;
  sh->chn[s][i] = n;
  sh->nch[s] = i + 1;
  return v;
}

static void tracef(const char *b, size_t n) {
  if (!rc.trace) return;
  if (sh->tracelen + n + 1 < TRACECAP) {
    memcpy(sh->trace + sh->tracelen, b, n);
    sh->trace[sh->tracelen + n] = '\n';
    sh->tracelen += n + 1;
  }
}
void ev(const char *fmt, ...) {
  char b[2048]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  sh->hash = hash_bytes(b, n, sh->hash);
  sh->events++;
  tracef(b, n);
}
void note(const char *fmt, ...) {
  if (!rc.trace) return;
  char b[4096]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  tracef(b, n);
}
void inter(uint64_t x) { sh->inter = mix64(sh->inter ^ x); }
void cnt(const char *name, uint64_t n) {
  for (uint32_t i = 0; i < sh->ncnt; i++) if (!strcmp(sh->cnt[i].name, name)) { sh->cnt[i].v += n; return; }
  if (sh->ncnt >= MAXCNT) return;
  snprintf(sh->cnt[sh->ncnt].name, sizeof sh->cnt[0].name, "%s", name);
  sh->cnt[sh->ncnt++].v = n;
}
void describe(const std::string &s) { snprintf(sh->desc, sizeof sh->desc, "%s", s.c_str()); }
void end_run() { sh->in_sut = 0; sh->status = RS_OK; _exit(0); }
void violate(const char *kind, const char *fmt, ...) {
  sh->in_sut = 0;
  va_list a; va_start(a, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, a); va_end(a);
  snprintf(sh->kind, sizeof sh->kind, "%s", kind);
  ev("VIOLATION %s: %s", kind, sh->msg);
  sh->status = RS_VIOLATION;
  _exit(0);
}
void finding(const char *id, const char *fmt, ...) {
  int p = sh->in_sut; sh->in_sut = 0;
  const char *k = getenv("VSIM_KNOWN");
  std::string list = std::string(",") + (k ? k : "") + ",", key = std::string(",") + id + ",";
  char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if (list.find(key) == std::string::npos) violate(id, "%s", b);
  ev("known finding %s: %s", id, b);
  cnt((std::string("known.") + id).c_str());
  sh->in_sut = p;
}
void harness_error(const char *fmt, ...) {
  sh->in_sut = 0;
  va_list a; va_start(a, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, a); va_end(a);
  sh->status = RS_HARNESS;
  _exit(0);
}

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0:"
         "detect_stack_use_after_return=0:symbolize=0:print_summary=1:abort_on_error=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:"
         "handle_segv=0:log_path=/dev/null:malloc_context_size=2:quarantine_size_mb=8:use_sigaltstack=0:"
         "print_legend=0:print_full_thread_history=0:max_redzone=256";
}
extern "C" void __asan_set_error_report_callback(void (*)(const char *));
static void asan_cb(const char *rep) {
  const char *p = strstr(rep, "AddressSanitizer: ");
  if (!p) p = rep;
  int n = 0;
  p += p == rep ? 0 : 18;
  while (p[n] && p[n] != '\n' && p[n] != ' ' && n < 100) n++;
  snprintf(sh->asan, sizeof sh->asan, "%.*s", n, p);
}

static void on_deadly(int sig) {
  if (!sh->asan[0]) {
    const char *n = sig == SIGSEGV ? "SEGV" : sig == SIGBUS ? "BUS" : sig == SIGFPE ? "FPE" : sig == SIGILL ? "ILL" : "ABRT";
    for (int i = 0; (sh->asan[i] = n[i]); i++);
  }
  _exit(99);
}
static void child_signals() {
  static char alt[65536];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_deadly; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
}
static int g_devnull = -1;

struct RunOut {
  int status; // RunStatus, crash folded into RS_VIOLATION
  std::string kind, msg, desc;
  uint64_t hash, inter, state, events;
  double simtime;
  bool nontrivial;
  Tape tape;
  std::vector<uint32_t> bounds[NSTREAM];
  std::vector<std::pair<std::string, uint64_t>> cnts;
  std::string trace;
};

static int g_cpu_limit = 20;

static RunOut exec_run(const Prop &p, const RunCfg &cfg, bool want_tape) {
  sh->status = RS_RUNNING; sh->in_sut = 0;
  sh->kind[0] = sh->msg[0] = sh->asan[0] = sh->desc[0] = 0;
  sh->hash = 1469598103934665603ull; sh->inter = 1; sh->state = 1; sh->events = 0; sh->simtime = 0; sh->nontrivial = 0;
  memset(sh->nch, 0, sizeof sh->nch);
  sh->ncnt = 0; sh->tracelen = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(4); }
  if (pid == 0) {
    rc = cfg;
    for (int s = 0; s < NSTREAM; s++) srng[s] = Rng(mix64(cfg.seed ^ mix64(0xABCDEF + s)));
    struct rlimit rl = {(rlim_t)g_cpu_limit, (rlim_t)g_cpu_limit + 5};
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    __asan_set_error_report_callback(asan_cb);
    if (g_devnull >= 0 && !getenv("VSIM_STDERR")) dup2(g_devnull, 2);
    child_signals();
    p.fn();
    finish_state();
    end_run();
  }
  int st;
  while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) { perror("waitpid"); exit(4); }
  RunOut o;
  o.status = sh->status;
  o.kind = sh->kind; o.msg = sh->msg;
  if (sh->status == RS_RUNNING) { // died
    bool sut = sh->in_sut;
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) {
      o.kind = "hang"; o.msg = "the code under test did not return within the processor-time limit";
      if (WTERMSIG(st) == SIGKILL) { o.kind = "killed"; sut = false; o.msg = "the run was killed (out of memory?)"; }
    } else if (sh->asan[0]) { o.kind = std::string("crash:") + sh->asan; o.msg = std::string("the code under test crashed: ") + sh->asan; }
    else { o.kind = sf("crash:status-%x", st); o.msg = sf("the code under test ended the process abnormally (wait status 0x%x)", st); }
    o.status = sut ? RS_VIOLATION : RS_HARNESS;
    if (!sut) o.msg = "outside the code under test: " + o.msg;
    sh->hash = hash_bytes(o.kind.data(), o.kind.size(), sh->hash);
  }
  o.desc = sh->desc; o.hash = sh->hash; o.inter = sh->inter; o.state = sh->state; o.events = sh->events;
  o.simtime = sh->simtime; o.nontrivial = sh->nontrivial;
  for (uint32_t i = 0; i < sh->ncnt; i++) o.cnts.push_back({sh->cnt[i].name, sh->cnt[i].v});
  if (want_tape) for (int s = 0; s < NSTREAM; s++) {
    o.tape.v[s].assign(sh->ch[s], sh->ch[s] + sh->nch[s]);
    o.bounds[s].assign(sh->chn[s], sh->chn[s] + sh->nch[s]);
  }
  if (cfg.trace) o.trace.assign(sh->trace, sh->tracelen);
  return o;
}

static void *map_shared(size_t n) {
  void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(4); }
  return p;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static std::string jesc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) r += sf("\\u%04x", c);
    else r += c;
  }
  return r;
}

static uint64_t run_seed(uint64_t seed, const std::string &prop, uint64_t i) {
  return mix64(mix64(seed) ^ hash_bytes(prop.data(), prop.size()) ^ mix64(i * 2 + 1));
}

static const Prop *find_prop(const std::string &id) {
  for (auto &p : props()) if (id == p.id) return &p;
  fprintf(stderr, "no such property %s\n", id.c_str());
  exit(4);
}

// ---- replay files
static void write_replay(const std::string &path, const std::string &prop, uint64_t seed, uint64_t idx, bool thorough, const RunOut &o, const Tape &t, const std::string &trace) {
  FILE *f = fopen(path.c_str(), "w");
  if (!f) { perror(path.c_str()); exit(4); }
  fprintf(f, "vsim-replay 1\nproperty %s\nverif_seed %llu\nrun %llu\nthorough %d\nkind %s\nhash %016llx\n", prop.c_str(), (unsigned long long)seed, (unsigned long long)idx, (int)thorough, o.kind.c_str(), (unsigned long long)o.hash);
  const char *nm[] = {"workload", "schedule", "faults", "decoder"};
  for (int s = 0; s < NSTREAM; s++) {
    fprintf(f, "stream %s %zu", nm[s], t.v[s].size());
    for (auto v : t.v[s]) fprintf(f, " %u", v);
    fprintf(f, "\n");
  }
  fprintf(f, "what %s\n--- minimised history\n%s", jesc(o.msg).c_str(), trace.c_str());
  fclose(f);
}
static bool read_replay(const std::string &path, std::string &prop, RunCfg &c, std::string &kind, uint64_t &hash) {
  FILE *f = fopen(path.c_str(), "r");
  if (!f) { perror(path.c_str()); return false; }
  char b[256]; int th = 0;
  unsigned long long h;
  char *line = nullptr; size_t cap = 0;
  int ns = 0;
  while (getline(&line, &cap, f) > 0) {
    if (sscanf(line, "property %200s", b) == 1) prop = b;
    else if (sscanf(line, "thorough %d", &th) == 1) c.thorough = th;
    else if (!strncmp(line, "kind ", 5)) { kind = line + 5; while (!kind.empty() && kind.back() == '\n') kind.pop_back(); }
    else if (sscanf(line, "hash %llx", &h) == 1) hash = h;
    else if (!strncmp(line, "stream ", 7)) {
      char *p = strchr(line + 7, ' ');
      long n = strtol(p, &p, 10);
      for (long i = 0; i < n; i++) c.tape.v[ns].push_back((uint32_t)strtoul(p, &p, 10));
      ns++;
    } else if (!strncmp(line, "---", 3)) break;
  }
  free(line); fclose(f);
  c.replay = true;
  return ns == NSTREAM;
}

// ---- minimisation
struct Shrinker {
  const Prop &p; RunCfg cfg; std::string kind; RunOut best; Tape cur; int tries = 0; double deadline;
  Shrinker(const Prop &p, const RunCfg &c, const RunOut &o, const Tape &t, double budget) : p(p), cfg(c), kind(o.kind), best(o), cur(t), deadline(now() + budget) { cfg.replay = true; cfg.trace = false; }
  static size_t weight(const Tape &t) { size_t w = 0; for (auto &v : t.v) { w += v.size() * 4; for (auto x : v) w += x ? 3 + (x > 1) + (x > 16) : 0; } return w; }
  bool attempt(Tape t) {
    for (auto &v : t.v) while (!v.empty() && v.back() == 0) v.pop_back();
    if (now() > deadline || tries > 6000) return false;
    tries++;
    cfg.tape = t;
    RunOut o = exec_run(p, cfg, true);
    if (o.status != RS_VIOLATION || o.kind != kind) return false;
    // what the run consumed is the canonical tape
    Tape u = t;
    for (int s = 0; s < NSTREAM; s++) { if (u.v[s].size() > o.tape.v[s].size()) u.v[s].resize(o.tape.v[s].size()); for (size_t i = 0; i < u.v[s].size(); i++) u.v[s][i] = o.tape.v[s][i]; while (!u.v[s].empty() && u.v[s].back() == 0) u.v[s].pop_back(); }
    if (weight(u) > weight(cur)) return false;
    cur = u; best = o;
    return true;
  }
  void run() {
    attempt(cur);
    size_t w;
    do {
      w = weight(cur);
      for (int s : {(int)SF, (int)SS, (int)SD, (int)SW}) {
        { Tape t = cur; t.v[s].clear(); attempt(t); }
        for (size_t n = cur.v[s].size(); n > 1; n /= 2) { Tape t = cur; if (n / 2 < t.v[s].size()) { t.v[s].resize(n / 2); if (!attempt(t)) { Tape t2 = cur; if (t2.v[s].size() > 4) { t2.v[s].resize(t2.v[s].size() * 3 / 4); attempt(t2); } break; } } }
        for (size_t blk = std::max<size_t>(cur.v[s].size() / 2, 1);; blk /= 2) {
          if (blk == 0) break;
          for (size_t i = 0; i < cur.v[s].size() && now() < deadline;) {
            size_t e = std::min(cur.v[s].size(), i + blk);
            bool nz = false;
            for (size_t j = i; j < e; j++) nz |= cur.v[s][j] != 0;
            if (nz) { Tape t = cur; std::fill(t.v[s].begin() + i, t.v[s].begin() + e, 0); if (attempt(t)) { i += blk; continue; } }
            { Tape t = cur; t.v[s].erase(t.v[s].begin() + i, t.v[s].begin() + e); if (attempt(t)) continue; }
            i += blk;
          }
        }
        for (size_t i = 0; i < cur.v[s].size() && now() < deadline; i++) {
          while (i < cur.v[s].size() && cur.v[s][i] > 1) { Tape t = cur; t.v[s][i] /= 2; if (!attempt(t)) break; }
          if (i < cur.v[s].size() && cur.v[s][i] > 0) { Tape t = cur; t.v[s][i]--; attempt(t); }
        }
      }
    } while (weight(cur) < w && now() < deadline);
  }
};

// ---- batch
struct Agg {
  uint64_t runs = 0, nontrivial = 0, events = 0;
  double simtime = 0;
  std::map<std::string, uint64_t> cnt, runs_with;
  std::set<uint64_t> inters, states, nt;
  std::vector<std::pair<uint64_t, std::string>> samples;
};
struct Ctl { volatile uint64_t first_bad; volatile int stop; volatile uint64_t nextbatch; };

static int worker(const Prop &p, uint64_t seed, bool thorough, uint64_t n, int w, int nw, double deadline, Ctl *ctl, const std::string &outp, bool hashes) {
  Agg a;
  std::vector<std::pair<uint64_t, uint64_t>> hv;
  std::string bad, hbad; int hn = 0;
  for (uint64_t i = w; i < n; i += nw) {
    if (i > ctl->first_bad || now() > deadline || ctl->stop) break;
    RunCfg c; c.prop = p.id; c.seed = run_seed(seed, p.id, i); c.thorough = thorough;
    RunOut o = exec_run(p, c, false);
    if (o.status == RS_HARNESS) { if (hbad.empty()) hbad = sf("H %llu harness %s", (unsigned long long)i, o.msg.c_str()); if (++hn >= 3) break; continue; } // the others may still find a violation
    a.runs++; a.events += o.events; a.simtime += o.simtime;
    for (auto &q : o.cnts) { a.cnt[q.first] += q.second; if (q.second) a.runs_with[q.first]++; }
    a.inters.insert(o.inter); a.states.insert(o.state);
    if (o.nontrivial) { a.nontrivial++; a.nt.insert(mix64(o.inter) ^ o.state); }
    if (hashes) hv.push_back({i, o.hash});
    if (a.samples.size() < 3 && o.nontrivial && !o.desc.empty()) a.samples.push_back({i, o.desc});
    if (o.status == RS_VIOLATION) {
      bad = sf("V %llu %s %s", (unsigned long long)i, o.kind.c_str(), o.msg.c_str());
      uint64_t f = ctl->first_bad;
      while (i < f && !__sync_bool_compare_and_swap(&ctl->first_bad, f, i)) f = ctl->first_bad;
      break;
    }
  }
  FILE *f = fopen(outp.c_str(), "w");
  if (!f) return 4;
  fprintf(f, "R %llu %llu %llu %.6f\n", (unsigned long long)a.runs, (unsigned long long)a.nontrivial, (unsigned long long)a.events, a.simtime);
  for (auto &q : a.cnt) fprintf(f, "C %s %llu %llu\n", q.first.c_str(), (unsigned long long)q.second, (unsigned long long)a.runs_with[q.first]);
  for (auto v : a.inters) fprintf(f, "I %016llx\n", (unsigned long long)v);
  for (auto v : a.states) fprintf(f, "S %016llx\n", (unsigned long long)v);
  for (auto v : a.nt) fprintf(f, "N %016llx\n", (unsigned long long)v);
  for (auto &q : hv) fprintf(f, "K %llu %016llx\n", (unsigned long long)q.first, (unsigned long long)q.second);
  for (auto &q : a.samples) fprintf(f, "M %llu %s\n", (unsigned long long)q.first, jesc(q.second).c_str());
  if (!bad.empty()) fprintf(f, "%s\n", jesc(bad).c_str());
  if (!hbad.empty()) fprintf(f, "%s\n", jesc(hbad).c_str());
  fclose(f);
  return 0;
}

static int cmd_run(int argc, char **argv) {
  std::string prop, out = ".", tag = "";
  uint64_t seed = 1; long n = -1; int nw = 8; double budget = 500, shrink = 40; bool thorough = false, hashes = false; double mult = 1;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--runs") n = atol(nx().c_str()); else if (a == "--workers") nw = atoi(nx().c_str());
    else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--out") { out = nx(); mkdir(out.c_str(), 0777); }
    else if (a == "--thorough") thorough = true; else if (a == "--hashes") hashes = true;
    else if (a == "--shrink") shrink = atof(nx().c_str()); else if (a == "--mult") mult = atof(nx().c_str());
  }
  const Prop *p = find_prop(prop);
  if (n < 0) n = (long)((thorough ? p->thorough : p->quick) * mult);
  Ctl *ctl = (Ctl *)map_shared(sizeof(Ctl));
  ctl->first_bad = ~0ull;
  double t0 = now();
  std::vector<pid_t> kids;
  auto wf = [&](int w) { return out + "/" + prop + sf(".w%d.%d", w, (int)getpid()); };
  std::vector<std::string> files;
  for (int w = 0; w < nw; w++) {
    files.push_back(wf(w));
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) { sh = (Shared *)map_shared(sizeof(Shared)); _exit(worker(*p, seed, thorough, n, w, nw, t0 + budget, ctl, files[w], hashes)); }
    kids.push_back(pid);
  }
  bool fail = false;
  for (auto k : kids) { int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) fail = true; }
  double t1 = now();
  Agg a; std::string harness; std::map<uint64_t, std::pair<std::string, std::string>> bad; std::map<uint64_t, std::string> hv;
  for (auto &fn : files) {
    FILE *f = fopen(fn.c_str(), "r");
    if (!f) { fail = true; continue; }
    char *line = nullptr; size_t cap = 0; ssize_t len;
    while ((len = getline(&line, &cap, f)) > 0) {
      line[len - 1] = 0;
      unsigned long long x, y, z; double d; int off; char nm[128];
      switch (line[0]) {
        case 'R': if (sscanf(line, "R %llu %llu %llu %lf", &x, &y, &z, &d) == 4) { a.runs += x; a.nontrivial += y; a.events += z; a.simtime += d; } break;
        case 'C': if (sscanf(line, "C %120s %llu %llu", nm, &x, &y) == 3) { a.cnt[nm] += x; a.runs_with[nm] += y; } break;
        case 'I': a.inters.insert(strtoull(line + 2, 0, 16)); break;
        case 'S': a.states.insert(strtoull(line + 2, 0, 16)); break;
        case 'N': a.nt.insert(strtoull(line + 2, 0, 16)); break;
        case 'K': if (sscanf(line, "K %llu %120s", &x, nm) == 2) hv[x] = nm; break;
        case 'M': if (sscanf(line, "M %llu %n", &x, &off) >= 1) a.samples.push_back({x, line + off}); break;
        case 'V': if (sscanf(line, "V %llu %120s %n", &x, nm, &off) >= 2) bad[x] = {nm, line + off}; break;
        case 'H': harness = line; break;
      }
    }
    free(line); fclose(f); unlink(fn.c_str());
  }
  if (hashes) for (auto &q : hv) printf("HASH %llu %s\n", (unsigned long long)q.first, q.second.c_str());
  printf("{\"property\":\"%s\",\"seed\":%llu,\"planned_runs\":%ld,\"runs\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\"distinct_interleavings\":%zu,\"distinct_states\":%zu,\"events\":%llu,\"simtime_s\":%.3f,\"search_s\":%.3f,",
         prop.c_str(), (unsigned long long)seed, n, (unsigned long long)a.runs, (unsigned long long)a.nontrivial, a.nt.size(), a.inters.size(), a.states.size(), (unsigned long long)a.events, a.simtime, t1 - t0);
  printf("\"rule\":\"%s\",\"real\":\"%s\",\"stub\":\"%s\",", jesc(p->rule).c_str(), jesc(p->real).c_str(), jesc(p->stub).c_str());
  printf("\"counters\":{");
  bool first = true;
  for (auto &q : a.cnt) { printf("%s\"%s\":[%llu,%llu]", first ? "" : ",", q.first.c_str(), (unsigned long long)q.second, (unsigned long long)a.runs_with[q.first]); first = false; }
  printf("},\"samples\":[");
  std::sort(a.samples.begin(), a.samples.end());
  for (size_t i = 0; i < a.samples.size() && i < 4; i++) printf("%s{\"run\":%llu,\"what\":\"%s\"}", i ? "," : "", (unsigned long long)a.samples[i].first, a.samples[i].second.c_str());
  printf("]");
  int ret = 0;
  if ((fail || !harness.empty()) && bad.empty()) { printf(",\"error\":\"%s\"}\n", jesc(harness.empty() ? "a worker died" : harness).c_str()); fflush(stdout); return 4; }
  if (!bad.empty()) {
    sh = (Shared *)map_shared(sizeof(Shared));
    RunCfg c; c.prop = prop; c.thorough = thorough;
    uint64_t idx = 0; RunOut o1, o2; bool rep = false; int tried = 0; std::string why;
    for (auto &b : bad) { // the first one that repeats exactly
      idx = b.first; c.seed = run_seed(seed, prop, idx);
      o1 = exec_run(*p, c, true); o2 = exec_run(*p, c, true);
      rep = o1.status == RS_VIOLATION && o2.status == RS_VIOLATION && o1.hash == o2.hash && o1.kind == o2.kind;
      if (rep || ++tried >= 6) break;
      if (why.empty()) why = sf("violation in run %llu (%s) did not repeat: %s/%016llx vs %s/%016llx", (unsigned long long)idx, b.second.second.c_str(), o1.kind.c_str(), (unsigned long long)o1.hash, o2.kind.c_str(), (unsigned long long)o2.hash);
    }
    if (!rep) { printf(",\"error\":\"%s\"}\n", jesc(why).c_str()); fflush(stdout); return 4; }
    bool hang = o1.kind.rfind("hang", 0) == 0;
    if (hang) g_cpu_limit = 5;
    Shrinker s(*p, c, o1, o1.tape, hang ? 15 : shrink);
    s.run();
    if (hang) g_cpu_limit = 20;
    RunCfg c2 = c; c2.replay = true; c2.tape = s.cur; c2.trace = true;
    RunOut o3 = exec_run(*p, c2, true);
    const Tape *ft = &s.cur;
    if (o3.status != RS_VIOLATION || o3.kind != o1.kind) { c2.tape = o1.tape; ft = &o1.tape; o3 = exec_run(*p, c2, true); }
    std::string path = out + "/" + prop + ".replay";
    write_replay(path, prop, seed, idx, thorough, o3, *ft, o3.trace);
    printf(",\"violation\":{\"run\":%llu,\"kind\":\"%s\",\"what\":\"%s\",\"replay\":\"%s\",\"shrink_tries\":%d,\"choices_before\":%zu,\"choices_after\":%zu}", (unsigned long long)idx, jesc(o3.kind).c_str(), jesc(o3.msg).c_str(), jesc(path).c_str(), s.tries, o1.tape.v[0].size() + o1.tape.v[1].size() + o1.tape.v[2].size() + o1.tape.v[3].size(), ft->v[0].size() + ft->v[1].size() + ft->v[2].size() + ft->v[3].size());
    ret = 1;
  }
  printf("}\n");
  fflush(stdout);
  return ret;
}

static int cmd_replay(int argc, char **argv) {
  std::string prop, kind; RunCfg c; uint64_t hash = 0;
  if (argc < 3 || !read_replay(argv[2], prop, c, kind, hash)) return 4;
  bool quiet = argc > 3 && !strcmp(argv[3], "-q");
  const Prop *p = find_prop(prop);
  c.prop = prop; c.trace = true;
  sh = (Shared *)map_shared(sizeof(Shared));
  RunOut o = exec_run(*p, c, true);
  if (!quiet) { fwrite(o.trace.data(), 1, o.trace.size(), stdout); printf("status %d kind %s: %s\n", o.status, o.kind.c_str(), o.msg.c_str()); }
  if (o.status == RS_VIOLATION && o.kind == kind) { printf("reproduced kind=%s hash=%016llx %s\n", kind.c_str(), (unsigned long long)o.hash, o.hash == hash ? "identical history" : "DIFFERENT history"); return o.hash == hash ? 1 : 5; }
  printf("not reproduced\n");
  return 0;
}

static int cmd_one(int argc, char **argv) { // vsim one PROP SEED RUN [thorough]: trace of one run
  const Prop *p = find_prop(argv[2]);
  RunCfg c; c.prop = p->id; c.seed = run_seed(strtoull(argv[3], 0, 10), p->id, strtoull(argv[4], 0, 10)); c.trace = true; c.thorough = argc > 5;
  sh = (Shared *)map_shared(sizeof(Shared));
  RunOut o = exec_run(*p, c, true);
  fwrite(o.trace.data(), 1, o.trace.size(), stdout);
  printf("desc %s\nstatus %d nontrivial %d kind %s: %s\nhash %016llx choices %zu/%zu/%zu/%zu\n", o.desc.c_str(), o.status, (int)o.nontrivial, o.kind.c_str(), o.msg.c_str(), (unsigned long long)o.hash, o.tape.v[0].size(), o.tape.v[1].size(), o.tape.v[2].size(), o.tape.v[3].size());
  for (auto &q : o.cnts) printf("  %s %llu\n", q.first.c_str(), (unsigned long long)q.second);
  return o.status == RS_OK ? 0 : 1;
}

int main(int argc, char **argv) {
  if (!getenv("VSIM_NOASLR")) {
    setenv("VSIM_NOASLR", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  g_devnull = open("/dev/null", O_WRONLY);
  if (argc >= 2 && !strcmp(argv[1], "run")) return cmd_run(argc, argv);
  if (argc >= 2 && !strcmp(argv[1], "replay")) return cmd_replay(argc, argv);
  if (argc >= 5 && !strcmp(argv[1], "one")) return cmd_one(argc, argv);
  if (argc >= 2 && !strcmp(argv[1], "list")) { for (auto &p : props()) printf("%s %u %u\n", p.id, p.quick, p.thorough); return 0; }
  fprintf(stderr, "usage: vsim run|replay|one|list\n");
  return 4;
}
