// Choice streams, run records, violations, counters.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <cmath>

enum Stream { SW = 0, SS = 1, SF = 2, SD = 3, NSTREAM = 4 }; // workload, schedule, faults, decoder outcomes

static const uint32_t MAXCH = 2000000;   // choices per stream
static const uint32_t MAXCNT = 160;    // named counters per run
static const uint32_t TRACECAP = 4 << 20;

struct CntSlot { char name[48]; uint64_t v; };

enum RunStatus { RS_RUNNING = 0, RS_OK = 1, RS_VIOLATION = 2, RS_HARNESS = 3 };

struct Shared { // one per worker, MAP_SHARED between worker and the child that executes a run
  volatile int status;
  volatile int in_sut;
  char kind[96];
  char msg[4096];
  char asan[512];
  char desc[1024];
  uint64_t hash;          // hash of the whole event history
  uint64_t inter;         // hash of the interleaving (who did what, in what order)
  uint64_t state;         // hash of the final observable state
  uint64_t events;
  double simtime;
  uint32_t nontrivial;
  uint32_t nch[NSTREAM];
  uint32_t ch[NSTREAM][MAXCH];
  uint32_t chn[NSTREAM][MAXCH]; // bounds, for shrinking
  uint32_t ncnt;
  CntSlot cnt[MAXCNT];
  uint32_t tracelen;
  char trace[TRACECAP];
};
extern Shared *sh;

struct Tape { std::vector<uint32_t> v[NSTREAM]; };

// run set-up (child side)
struct RunCfg {
  std::string prop;
  uint64_t seed = 0;       // run seed
  bool replay = false;     // choices come from tape, 0 when exhausted
  Tape tape;
  bool trace = false;
  bool thorough = false;
};
extern RunCfg rc;

uint64_t mix64(uint64_t x);
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
uint32_t choose(Stream s, uint32_t n);                     // [0, n)
inline bool chance(Stream s, uint32_t num, uint32_t den) { // true with probability num/den; 0 on the tape = false
  if (num == 0) return false;
  return choose(s, den) >= den - num;
}
inline int range(Stream s, int a, int b) { return a + (int)choose(s, (uint32_t)(b - a + 1)); }
template <class T> const T &pick(Stream s, const std::vector<T> &v) { return v[choose(s, (uint32_t)v.size())]; }

struct Rng { // for bulk pseudo-random data derived from one choice
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  uint32_t below(uint32_t n) { return (uint32_t)(next() % n); }
  double gauss() { double a = u(), b = u(); if (a < 1e-300) a = 1e-300; return sqrt(-2 * log(a)) * cos(6.283185307179586 * b); }
};

void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));          // hashed event
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));        // trace only
void inter(uint64_t x);                                                        // interleaving signature
void cnt(const char *name, uint64_t n = 1);
void finish_state();                                                           // final observable state -> sh->state
void describe(const std::string &s);
[[noreturn]] void violate(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void end_run();
// a violation that the known-findings file may list by id: counted as "known.<id>" when listed, raised otherwise
void finding(const char *id, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
std::string sf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// property registry
struct Prop {
  const char *id;
  void (*fn)();
  uint32_t quick, thorough;     // runs
  const char *rule;             // what a run is, and what makes one non-trivial
  const char *real, *stub;      // components
};
extern std::vector<Prop> &props();
struct PropReg { PropReg(Prop p) { props().push_back(p); } };
