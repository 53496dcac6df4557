// Simulated processes ("nodes"), file system, clocks, allocator.
#pragma once
#include "engine.h"
#include <memory>
#include <ucontext.h>
#include <csetjmp>

struct SimParams { char *spf_name; int ret_int; int dont_randomize; }; // sim_init_params of the program

// ---- images (independent copies of the real programs)
struct ImageRow { const char *n; void *f[18]; };
extern "C" ImageRow vsim_images[];
struct Image {
  const char *kind;
  int (*main)(int, char **);
  int (*sim_init)(void *, void **);
  void (*sim_close)(void *);
  int (*sim_run)(void *);
  void (*sim_state_str)(void *, char *);
  void (*sim_cur_res_str)(void *, char *);
  int (*sim_save_res)(void *);
  void (*sim_control)(void *, int);
  int (*cdc_init)(char *, void **);
  int (*cdc_get_n)(void *);
  int (*cdc_get_k)(void *);
  void (*cdc_set_csnrn)(void *, int);
  void (*cdc_set_sg)(void *, double);
  int (*enc_bpsk)(void *, int *, double *);
  int (*dec_bpsk)(void *, double *, int *);
  void (*cdc_close)(void *);
  void (*mexFunction)(int, void **, int, const void **);
  int (*spf_read_preparse)(char *, char **);
};
Image *image(const char *kind, int copy); // harness error when absent
bool have_image(const char *kind);

// ---- file system
struct Node;
struct Inode {
  int id; std::string data; int nlink = 0; bool dir = false;
  int creator = -1; int creator_save = -1; bool readonly = false, unreadable = false;
  uint64_t writes = 0;
};
typedef std::shared_ptr<Inode> InodeP;
struct Vfs {
  std::map<std::string, InodeP> d;
  int next = 1;
  bool exists(const std::string &p) { return d.count(p) != 0; }
  InodeP get(const std::string &p) { auto i = d.find(p); return i == d.end() ? nullptr : i->second; }
  InodeP put(const std::string &p, const std::string &data); // harness-side create/replace
  void rm(const std::string &p) { d.erase(p); }
  int64_t capacity = -1;          // bytes left on the device, -1: unlimited
};
extern Vfs vfs;
std::string norm_path(const char *p);

struct OpenFile { // open file description
  int fd; Node *owner; InodeP ino; std::string path; bool r = false, w = false, app = false; size_t pos = 0; FILE *fp = nullptr; bool closed = false; char *vbuf = nullptr;
};

// what the fault injector may do to file operations; probabilities are per 1000 operations
struct FsFaults {
  int open_fail = 0, open_wr_fail = 0, write_enospc = 0, write_eio = 0, short_write = 0, read_eio = 0, short_read = 0,
      close_fail = 0, rename_fail = 0, unlink_fail = 0, emfile = 0;
  int stall = 0;                  // per 1000 operations: the process stalls
  int stall_max_s = 40;
  bool only_in_save = false;      // confine errors to operations inside a save
};
extern FsFaults fsf;

// ---- nodes
enum NState { NS_READY, NS_DONE, NS_KILLED };
struct Node {
  int id = -1; Image *img = nullptr;
  std::function<void()> body;
  ucontext_t ctx; void *stack = nullptr; size_t stack_size = 0; void *fake = nullptr;
  NState st = NS_READY; bool started = false;
  int exit_code = -999; bool exited = false;
  int64_t t = 0;                  // local time, microseconds since the start of the simulation
  int64_t cpu = 0;                // processor time, microseconds
  int64_t skew = 0;               // wall-clock offset, microseconds
  int clock_streak = 0;
  std::string out;
  uint64_t prng = 0; bool seeded = false; std::vector<unsigned> seeds; uint64_t rand_calls = 0;
  char *strtok_save = nullptr;
  std::map<FILE *, OpenFile *> streams; std::map<int, OpenFile *> fds; int next_fd = 1000;
  int crash_in_ops = -1;          // crash when this many more file operations have been made
  bool crash_mid_write = false;
  int64_t alloc_fail_at = -1;     // fail this many allocations from now (0 = next one)
  int alloc_fail_n = 1;           // and this many in a row
  std::map<void *, size_t> live;  // live allocations
  int save_no = -1;               // number of the save in progress, -1 outside
  bool in_update = false;
  void *user = nullptr;           // property-specific data
  int nfsops = 0;
  std::vector<std::pair<int64_t, int>> keys; size_t key_at = 0; // keyboard of the Windows console: when, what; how many have been read
  std::function<void(int)> on_key;
  bool win() const { return img && !strcmp(img->kind, "win"); }
  int keys_waiting() const { int c = 0; for (size_t i = key_at; i < keys.size() && keys[i].first <= t; i++) c++; return c; }
  std::vector<void (*)(void)> atexits;
};
extern Node *cur;                 // running node (never null while code under test runs)
extern std::vector<std::unique_ptr<Node>> nodes;
extern uint8_t g_fill;            // pattern for fresh memory
extern int64_t g_epoch;           // wall-clock seconds at simulation start
extern uint64_t g_steps, g_step_limit;
extern int64_t g_now;             // highest local time reached
extern int64_t g_bytes_limit;     // allocations larger than this fail
extern std::function<void(Node *, const char *op, const std::string &path, InodeP ino)> on_mutation; // before a change of a file's content or name
extern bool g_count_trials_as_ops;

Node *new_node(Image *img, std::function<void()> body, int64_t start);
Node *new_main(Image *img, const std::vector<std::string> &args, int64_t start);
void at(int64_t t, std::function<void()> f); // timed harness event
void run_world();                           // until nothing is left to do
void kill_node(Node *n, const char *why);
void node_sleep(int64_t us);                // current node spends time without CPU
void node_work(int64_t us);                 // ... with CPU
void yield_now();
double sim_seconds();

// calling into the code under test outside a fiber (node 0)
struct Sut { Node *prev; int pin; Sut(Node *n) { prev = cur; cur = n; pin = sh->in_sut; sh->in_sut = 1; } ~Sut() { sh->in_sut = pin; cur = prev; } };
struct Harness { int p; Harness() { p = sh->in_sut; sh->in_sut = 0; } ~Harness() { sh->in_sut = p; } };

uint64_t live_bytes(Node *n);
