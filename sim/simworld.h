// Simulated runs of the simulation programs: parameter files, a scripted codec, ground truth, results files.
#pragma once
#include "world.h"

struct Counts {
  long trn = 0, enb = 0, enbl = 0, er = 0, mltrn = 0, enml = 0;
  long enml_slack = 0; // trials whose distance comparison is numerically undecidable
  bool same(const Counts &o) const { long s = enml_slack + o.enml_slack, d = enml - o.enml; return trn == o.trn && enb == o.enb && enbl == o.enbl && er == o.er && mltrn == o.mltrn && d <= s && -d <= s; }
  bool zero() const { return !trn && !enb && !enbl && !er && !mltrn && !enml; }
  Counts &operator+=(const Counts &o) { trn += o.trn; enb += o.enb; enbl += o.enbl; er += o.er; mltrn += o.mltrn; enml += o.enml; enml_slack += o.enml_slack; return *this; }
  std::string str() const { return sf("trn=%ld bit=%ld bl=%ld er=%ld mltrn=%ld enml=%ld", trn, enb, enbl, er, mltrn, enml); }
};
struct Point { double snr; std::string txt; int trn_req; };
struct Spec {
  std::string spf = "run.spf", res = "res.out", text;
  std::map<std::string, std::string> includes;
  std::vector<Point> pts;
  bool val_trn = false; int min_trn = 0, min_err = 0; // as written in the file (0: absent)
  bool rnd = false, ml = false, mlhd = false; double fixedR = 0;
  int n = 8, k = 4;
  std::vector<std::string> extra;    // lines for the codec
  int req(int i) const { int m = min_trn > 0 ? min_trn : 1; int r = pts[i].trn_req; return r > 0 ? r : m; }
  int minerr() const { return min_err > 0 ? min_err : 1; }
};
struct SaveRec {
  std::vector<Counts> snap; int64_t t0, t1 = -1; bool done = false; int rc = 0;
  std::string before, after; bool had_before = false, has_after = false;
  size_t fds0 = 0, fds1 = 0, blk0 = 0, blk1 = 0; uint64_t mem0 = 0, mem1 = 0; // files and memory held before and after
  uint64_t faults0 = 0; bool fault = false; uint64_t seq0 = 0, seq1 = 0;
};
struct Trial { int pt; double sg; std::vector<double> cin, cout; };
struct Life {
  Spec spec; Node *node = nullptr;
  int init_rc = -777; bool inited = false;
  std::vector<Counts> truth; std::vector<SaveRec> saves;
  bool run_failed = false;           // sim_run returned an error
  bool dec_failed = false, enc_failed = false;
  std::string cdc_param;
  int csnrn = -1; double sg = -1; bool sg_set = false, cs_set = false;
  bool have_x = false; std::vector<int> x; std::vector<double> cw;
  // script of the stand-in decoder
  int perr = 16, per_er = 0;         // out of 64
  int cap = 200;                     // trials per point after which every decoding fails (so runs end)
  int64_t cost = 1000; int cost_jit = 0;
  int64_t dec_fail_trial = -1, enc_fail_trial = -1; int64_t trials = 0, encs = 0;
  int64_t slow_trial = -1, slow_us = 0;
  std::vector<int> order;            // point of each completed trial
  std::vector<int64_t> endt;         // completion time (local) of each trial
  std::vector<int> errs;             // bit errors of each trial
  std::vector<std::string> state_strs, res_strs;
  std::function<void(Life *, const double *cin, const double *cout, int pt)> on_trial;
  void *inst = nullptr; int run_rc = -777;  // the instance main works with; what its last slice returned
  std::function<void(Life *)> before_run;  // before every slice
  std::function<void(Life *)> after_run;   // after every return of the simulation slice
  std::function<void(Life *, SaveRec &)> after_save;
  std::function<void(Life *, const char *)> on_state_str, on_res_str;
  int64_t last_run_t0 = 0;
  uint64_t det_seed = 0;             // not 0: the stand-in decoder's outcome is a function of this and the received vector
  std::vector<uint64_t> th;          // hash of each completed trial: point, transmitted and received vectors, outcome
  bool ml_due = false, have_alt = false; // have_alt: the last trial's comparison failed; other admissible accounts
  std::vector<std::vector<Counts>> alt; Counts last; int last_en = 0;
  int64_t wall0 = 0, wall1 = 0;      // wall clock around the initialisation, seconds
  bool keep_rx = false; std::vector<uint64_t> rxh; // hash of each received vector
  std::vector<int64_t> save_dur;
  int runs = 0;
  bool killed() const { return node && node->st == NS_KILLED; }
  Counts total_truth() const { Counts c; for (auto &q : truth) c += q; return c; }
};
extern std::vector<std::unique_ptr<Life>> lives;
extern uint64_t g_fault_count;       // I/O and allocation faults injected so far
extern uint64_t g_seq;
inline Life *L() { return (Life *)cur->user; }
Life *new_life(const Spec &s);
// start as the real program: main(argv)
Node *start_main(Life *l, const char *img, int copy, bool nr, int si, int ri, int64_t t0);

// results file as the harness reads it
struct ResEntry { double snr; std::string txt; Counts c; double wer = -1, err = -1, mler = -1; std::string wer_s, err_s, mler_s; };
struct ResTable { double snr; double v[4]; std::string s[5]; };
struct ResFile { bool ok = false; std::string why; int n = -1, k = -1; std::vector<ResEntry> e; std::vector<ResTable> tab; std::map<std::string, int> groups; };
ResFile parse_res(const std::string &data);
std::string make_res(int n, int k, const std::vector<ResEntry> &e);
typedef std::map<double, Counts> Acc;
Acc acc_of(const ResFile &f);
void acc_add(Acc &a, const Spec &s, const std::vector<Counts> &c);
bool acc_same(const Acc &a, const Acc &b, std::string &why); // missing = zero
std::string acc_str(const Acc &a);

// generators
std::string snr_text(Stream s, int style);
Spec gen_spec(const std::string &spf, const std::string &res, int maxpts, int maxtrn, int maxerr);
void render_spec(Spec &s, bool fancy);
void install(const Spec &s);        // put the parameter file into the file system
std::string no_number(Stream s, bool integer); // text that is no (integer) number
std::string gen_base(const std::string &res, int n, int k, const std::vector<std::string> &snrs, bool big); // put a results file
void relay_res(const std::string &res);
std::string res_name(const std::string &usual); // a results file name, most often the usual one; its directories exist
void make_dirs(const std::string &file);

extern void (*g_extra_hook)(const char *what);
