#include "world.h"
#include <queue>
#include <sys/mman.h>
#include <unistd.h>

Vfs vfs;
FsFaults fsf;
Node *cur;
std::vector<std::unique_ptr<Node>> nodes;
uint8_t g_fill = 0xA5;
int64_t g_epoch = 1700000000;
uint64_t g_steps, g_step_limit = 3000000;
int64_t g_now;
int64_t g_bytes_limit = 1 << 28;
std::function<void(Node *, const char *, const std::string &, InodeP)> on_mutation;
bool g_count_trials_as_ops;

bool have_image(const char *kind) { for (ImageRow *r = vsim_images; r->n; r++) if (!strcmp(r->n, kind)) return true; return false; }
Image *image(const char *kind, int copy) {
  static std::map<std::pair<std::string, int>, Image *> cache;
  auto k = std::make_pair(std::string(kind), copy);
  auto it = cache.find(k);
  if (it != cache.end()) return it->second;
  int c = 0;
  for (ImageRow *r = vsim_images; r->n; r++) {
    if (strcmp(r->n, kind)) continue;
    if (c++ == copy) {
      Image *im = new Image;
      im->kind = r->n;
      memcpy((char *)im + sizeof(char *), r->f, sizeof r->f);
      return cache[k] = im;
    }
  }
  harness_error("no image %s/%d", kind, copy);
}

InodeP Vfs::put(const std::string &p, const std::string &data) {
  InodeP i = std::make_shared<Inode>();
  i->id = next++; i->data = data; i->nlink = 1;
  d[p] = i;
  return i;
}
std::string norm_path(const char *p) {
  std::string s = p, r;
  while (s.rfind("./", 0) == 0) s = s.substr(2);
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '/' && !r.empty() && r.back() == '/') continue;
    if (s.compare(i, 3, "/./") == 0) { i++; continue; }
    r += s[i];
  }
  return r;
}

// ---- fibers
static ucontext_t sched_ctx;
static void *sched_fake;
static const void *sched_bottom; static size_t sched_size;
extern "C" void __sanitizer_start_switch_fiber(void **fake, const void *bottom, size_t size);
extern "C" void __sanitizer_finish_switch_fiber(void *fake, const void **bottom, size_t *size);
extern "C" void __asan_handle_no_return(void);

struct Timed { int64_t t; uint64_t seq; std::function<void()> f; bool operator<(const Timed &o) const { return t != o.t ? t > o.t : seq > o.seq; } };
static std::priority_queue<Timed> timers;
static uint64_t tseq;
void at(int64_t t, std::function<void()> f) { timers.push({t, tseq++, f}); }

static void finish_node();
static void tramp() {
  __sanitizer_finish_switch_fiber(nullptr, &sched_bottom, &sched_size);
  Node *n = cur;
  sh->in_sut = 1;
  n->body();
  finish_node();
  abort();
}
static void to_sched(bool dead) {
  Node *n = cur;
  int in = sh->in_sut;
  sh->in_sut = 0;
  __sanitizer_start_switch_fiber(dead ? nullptr : &n->fake, sched_bottom, sched_size);
  swapcontext(&n->ctx, &sched_ctx);
  __sanitizer_finish_switch_fiber(n->fake, &sched_bottom, &sched_size);
  sh->in_sut = in;
}
static void finish_node() {
  sh->in_sut = 0;
  cur->st = NS_DONE;
  ev("n%d end code %d t=%lld", cur->id, cur->exit_code, (long long)cur->t);
  to_sched(true);
}
void node_exit_switch() { finish_node(); abort(); }

Node *new_node(Image *img, std::function<void()> body, int64_t start) {
  auto u = std::make_unique<Node>();
  Node *n = u.get();
  n->id = (int)nodes.size();
  n->img = img; n->body = body; n->t = start;
  n->prng = 0x1234567;
  nodes.push_back(std::move(u));
  return n;
}
void sut_exit(int code);
Node *new_main(Image *img, const std::vector<std::string> &args, int64_t start) {
  Node *n = new_node(img, nullptr, start);
  n->body = [n, args]() {
    std::vector<std::string> *keep = new std::vector<std::string>(args);
    std::vector<char *> *av = new std::vector<char *>;
    for (auto &s : *keep) av->push_back(&s[0]);
    av->push_back(nullptr);
    int r = n->img->main((int)keep->size(), av->data());
    sut_exit(r);
  };
  return n;
}
static const size_t STK = 8 << 20;
static void start_node(Node *n) {
  char *m = (char *)mmap(0, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) harness_error("no stack");
  mprotect(m, 4096, PROT_NONE);
  n->stack = m + 4096; n->stack_size = STK;
  getcontext(&n->ctx);
  n->ctx.uc_stack.ss_sp = n->stack; n->ctx.uc_stack.ss_size = STK; n->ctx.uc_link = nullptr;
  makecontext(&n->ctx, tramp, 0);
  n->started = true;
}
static bool in_fiber() { return cur && cur->started; }

void yield_now() {
  if (!in_fiber()) return;
  // keep running while no one else is behind us
  bool other = !timers.empty() && timers.top().t <= cur->t;
  if (!other) for (auto &n : nodes) if (n.get() != cur && n->st == NS_READY && (n->t < cur->t || (n->t == cur->t && n->id < cur->id))) { other = true; break; }
  if (other) to_sched(false);
}
void kill_node(Node *n, const char *why) {
  if (n->st != NS_READY) return;
  n->st = NS_KILLED;
  ev("n%d killed (%s) t=%lld", n->id, why, (long long)n->t);
  inter(0xDEAD0000 + n->id);
  n->streams.clear(); // buffered data dies with the process
  if (n == cur) { to_sched(true); abort(); }
}
void run_world() {
  for (;;) {
    Node *best = nullptr;
    for (auto &n : nodes) if (n->st == NS_READY && n->body && (!best || n->t < best->t)) best = n.get();
    if (!timers.empty() && (!best || timers.top().t <= best->t)) {
      Timed x = timers.top(); timers.pop();
      g_now = std::max(g_now, x.t);
      x.f();
      continue;
    }
    if (!best) break;
    if (!best->started) start_node(best);
    cur = best;
    __sanitizer_start_switch_fiber(&sched_fake, best->stack, best->stack_size);
    swapcontext(&sched_ctx, &best->ctx);
    __sanitizer_finish_switch_fiber(sched_fake, nullptr, nullptr);
    g_now = std::max(g_now, best->t);
    cur = nullptr;
  }
  sh->simtime = g_now * 1e-6;
}
double sim_seconds() { return g_now * 1e-6; }
void node_sleep(int64_t us) { cur->t += us; yield_now(); }
void node_work(int64_t us) { cur->t += us; cur->cpu += us; yield_now(); }
uint64_t live_bytes(Node *n) { uint64_t s = 0; for (auto &q : n->live) s += q.second; return s; }

void finish_state() {
  uint64_t h = sh->state;
  for (auto &q : vfs.d) { h = hash_bytes(q.first.data(), q.first.size(), h); h = hash_bytes(q.second->data.data(), q.second->data.size(), h); }
  for (auto &n : nodes) h = mix64(h ^ ((uint64_t)n->id << 32) ^ (uint32_t)(n->exit_code * 4 + (int)n->st));
  for (uint32_t i = 0; i < sh->ncnt; i++) if (!strncmp(sh->cnt[i].name, "fault.", 6) || !strncmp(sh->cnt[i].name, "probe.", 6)) h = mix64(h ^ hash_bytes(sh->cnt[i].name, strlen(sh->cnt[i].name)) ^ sh->cnt[i].v);
  sh->state = h;
}
