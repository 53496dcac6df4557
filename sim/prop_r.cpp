// Results-file properties R01..R09: worlds of one or more simulated runs sharing results files.
#include <climits>
#include "simworld.h"
#include "mex.h"
#include "runs.h"

static const char *REAL = "main_txt.c, sim_bg.c, spf_par.c, ui_txt.c, srm_utils.c (unmodified, compiled from the working tree)";
static const char *STUB = "codec (scripted stand-in), file system, clocks, rand(), allocator, terminal";

void common_setup() {
  static const uint8_t fills[] = {0xA5, 0x00, 0xFF, 0x7B};
  g_fill = fills[choose(SW, 4)];
  g_epoch = 1700000000 + choose(SW, 100000);
  vfs.d.clear();
}
std::string mark_of(const Spec &s) { return norm_path((s.res + ".bsy").c_str()); }
std::string resp(const Spec &s) { return norm_path(s.res.c_str()); }

struct InSut { int p; InSut() { p = sh->in_sut; sh->in_sut = 1; } ~InSut() { sh->in_sut = p; } };
extern "C" {
int hook_sim_init(void *, void **); void hook_sim_close(void *); int hook_sim_run(void *); int hook_sim_save_res(void *);
void hook_sim_state_str(void *, char *); void hook_sim_cur_res_str(void *, char *); void hook_sim_control(void *, int);
}
int c_init(const std::string &spf, int ri, bool nr, void **inst) { InSut s; static std::vector<std::string *> keep; keep.push_back(new std::string(spf)); SimParams p{&(*keep.back())[0], ri, nr}; return hook_sim_init(&p, inst); }
int c_run(void *i) { InSut s; return hook_sim_run(i); }
int c_save(void *i) { InSut s; return hook_sim_save_res(i); }
void c_close(void *i) { InSut s; hook_sim_close(i); }
void c_control(void *i, int c) { InSut s; hook_sim_control(i, c); }
std::string c_state(void *i) { static char b[20000]; InSut s; hook_sim_state_str(i, b); return b; }
std::string c_res(void *i) { static char b[20000]; InSut s; hook_sim_cur_res_str(i, b); return b; }

// ---- accounts
struct World { Acc base; std::string res; };
static World W;
static ResFile read_now(const std::string &res) {
  InodeP i = vfs.get(res);
  ResFile f;
  if (!i) { f.why = "no file"; return f; }
  return parse_res(i->data);
}
static const std::vector<Counts> *last_ok(Life *l) { for (size_t i = l->saves.size(); i-- > 0;) if (l->saves[i].done && l->saves[i].rc == 0) return &l->saves[i].snap; return nullptr; }
// every admissible content: per life the last completed save, or (crash) the one in progress
static bool match_accounts(const Acc &file, const std::string &res, bool failed_either, std::string &why) {
  std::vector<Acc> alts = {W.base};
  for (auto &l : lives) {
    if (norm_path(l->spec.res.c_str()) != res) continue;
    std::vector<std::vector<Counts>> opt;
    const std::vector<Counts> *ok = last_ok(l.get());
    opt.push_back(ok ? *ok : std::vector<Counts>());
    size_t from = 0;
    for (size_t i = 0; i < l->saves.size(); i++) if (l->saves[i].done && l->saves[i].rc == 0) from = i + 1;
    for (size_t i = from; i < l->saves.size(); i++) if (!l->saves[i].done || (failed_either && l->saves[i].rc != 0)) opt.push_back(l->saves[i].snap);
    std::vector<Acc> na;
    for (auto &a : alts) for (auto &o : opt) { Acc b = a; acc_add(b, l->spec, o); na.push_back(b); if (na.size() > 4000) break; }
    alts = na;
  }
  for (auto &a : alts) { std::string w; if (acc_same(file, a, w)) return true; if (why.empty()) why = w; }
  return false;
}
static void check_accounts(const char *when, const std::string &res, bool failed_either = false) {
  ResFile f = read_now(res);
  bool any = !W.base.empty();
  for (auto &l : lives) if (last_ok(l.get())) any = true;
  if (!f.ok) {
    if (!vfs.get(res) && !any) return;
    violate("unreadable-results", "%s: the results file cannot be read: %s", when, f.why.c_str());
  }
  std::string why;
  if (!match_accounts(acc_of(f), res, failed_either, why)) violate("wrong-totals", "%s: %s", when, why.c_str());
}
static void check_order(const char *when, const std::string &res) {
  ResFile f = read_now(res);
  if (!f.ok) return;
  for (size_t i = 1; i < f.e.size(); i++) {
    if (f.e[i].snr == f.e[i - 1].snr) violate("duplicate-entry", "%s: two entries for %s dB", when, f.e[i].txt.c_str());
    if (f.e[i].snr < f.e[i - 1].snr) violate("unordered-entries", "%s: %s dB listed after %s dB", when, f.e[i].txt.c_str(), f.e[i - 1].txt.c_str());
  }
}
// R08
static void check_rates(const char *when, const std::string &data, int n, int k) {
  ResFile f = parse_res(data);
  if (!f.ok) violate("unreadable-results", "%s: %s", when, f.why.c_str());
  if (f.n != n || f.k != k) violate("wrong-code-size", "%s: file says n=%d k=%d, the code has n=%d k=%d", when, f.n, f.k, n, k);
  auto near = [](double shown, double v) { return std::fabs(shown - v) <= 0.00051 * std::fabs(v) + 1e-300; };
  for (auto &e : f.e) {
    if (e.wer_s.empty() || e.err_s.empty() || e.mler_s.empty()) violate("rates-missing", "%s: a rate group does not match the SNR group", when);
    double t = e.c.trn;
    if (e.c.trn <= 0) violate("empty-entry", "%s: entry %s dB with %ld trials", when, e.txt.c_str(), e.c.trn);
    if (!near(e.wer, e.c.enbl / t)) violate("wrong-rate", "%s: WER at %s dB is %s, counters give %.4e", when, e.txt.c_str(), e.wer_s.c_str(), e.c.enbl / t);
    if (!near(e.err, e.c.er / t)) violate("wrong-rate", "%s: ERR at %s dB is %s, counters give %.4e", when, e.txt.c_str(), e.err_s.c_str(), e.c.er / t);
    double ml = e.c.mltrn ? (double)e.c.enml / e.c.mltrn : 0;
    if (!near(e.mler, ml)) violate("wrong-rate", "%s: MLER at %s dB is %s, counters give %.4e", when, e.txt.c_str(), e.mler_s.c_str(), ml);
  }
  if (f.tab.size() != f.e.size()) violate("wrong-table", "%s: the table has %zu rows for %zu entries", when, f.tab.size(), f.e.size());
  for (size_t i = 0; i < f.e.size(); i++) {
    auto &e = f.e[i]; auto &r = f.tab[i];
    double t = e.c.trn, v[4] = {e.c.enb / (t * k), e.c.enbl / t, e.c.er / t, e.c.mltrn ? (double)e.c.enml / e.c.mltrn : 0.0};
    if (std::fabs(r.snr - e.snr) > 0.00501) violate("wrong-table", "%s: row %zu is for %s dB, entry is %s dB", when, i, r.s[0].c_str(), e.txt.c_str());
    for (int j = 0; j < 4; j++) if (!near(r.v[j], v[j])) violate("wrong-table", "%s: row for %s dB, column %d shows %s, counters give %.4e", when, e.txt.c_str(), j + 1, r.s[j + 1].c_str(), v[j]);
  }
}

// ---- a save, whatever comes of it, gives back the files and (in the long run) the memory it took
static void check_released(Life *l, SaveRec &sr) {
  if (sr.fds1 > sr.fds0) violate("file-left-open", "a save (result %d) left %zu files open that were not before", sr.rc, sr.fds1 - sr.fds0);
  int grew = 0; // something kept for later saves is fine, growing with every failure is not
  for (auto &q : l->saves) if (q.done && q.rc != 0 && q.blk1 > q.blk0 && q.mem1 > q.mem0) grew++;
  if (grew >= 3) violate("memory-lost", "%d failed saves left more memory allocated than before, now %zu blocks (%llu bytes)", grew, sr.blk1, (unsigned long long)sr.mem1);
}

// ---- busy-mark protocol (R06), valid under every schedule and fault
static bool g_protocol;
static void protocol_monitor(Node *n, const char *op, const std::string &path, InodeP ino) {
  Life *l = (Life *)n->user;
  if (!l) return;
  std::string rf = resp(l->spec), mk = mark_of(l->spec);
  InodeP m = vfs.get(mk), r = vfs.get(rf);
  if (path == mk && strcmp(op, "create") && m && m->creator != n->id)
    violate("foreign-mark-touched", "run %d does '%s' on the busy mark of run %d", n->id, op, m->creator);
  bool data = (path == rf && (strcmp(op, "write") || r == ino)) || (r && ino == r && strcmp(op, "create"));
  if (data) {
    if (!m) violate("unprotected-update", "run %d does '%s' on %s while no busy mark exists", n->id, op, rf.c_str());
    if (m->creator != n->id) violate("unprotected-update", "run %d does '%s' on %s under the busy mark of run %d", n->id, op, rf.c_str(), m->creator);
    if (n->save_no >= 0 && m->creator_save != n->save_no) violate("unprotected-update", "run %d updates %s under a busy mark left from an earlier save", n->id, rf.c_str());
  }
}
static uint64_t unlink_faults() { for (uint32_t i = 0; i < sh->ncnt; i++) if (!strcmp(sh->cnt[i].name, "fault.unlink_fails")) return sh->cnt[i].v; return 0; }
static void protocol_after(Life *l, SaveRec &s) {
  InodeP m = vfs.get(mark_of(l->spec));
  if (m && m->creator == l->node->id && !unlink_faults()) violate("mark-left-behind", "run %d returned %d from saving and left its busy mark in place", l->node->id, s.rc);
}

// ---- a run driven through the simulator's interface (as the Windows console keys or an embedding program do)
static void api_body(Life *l, ApiOpts o) {
  Harness h;
  void *inst = nullptr;
  cur->exit_code = 1;
  if (c_init(l->spec.spf, o.ri, o.nr, &inst) != 0) return;
  int left = o.slices; int r = 17;
  while (r == 17 && left-- > 0) {
    int a = choose(SW, 6);
    if (a < 3) r = c_run(inst);
    else if (a == 3) c_save(inst);
    else if (a == 4) { c_save(inst); c_save(inst); }
    else { node_sleep(1 + choose(SW, 3000000)); if (o.controls) c_control(inst, 1 + choose(SW, 3)); }
    c_state(inst);
  }
  while (r == 17) r = c_run(inst);
  if (o.fault_free_last) { fsf = FsFaults(); vfs.capacity = -1; cur->alloc_fail_at = -1; }
  for (int i = 0; i < o.final_saves; i++) c_save(inst);
  c_close(inst);
  cur->exit_code = r == 0 ? 0 : 1;
}
Node *start_api(Life *l, int copy, ApiOpts o, int64_t t0) {
  Node *n = new_node(image("stub", copy), nullptr, t0);
  n->user = l; l->node = n;
  n->body = [l, o]() { api_body(l, o); };
  ev("n%d api start", n->id);
  return n;
}
void script(Life *l) { // how the stand-in decoder behaves and how long trials take
  static const int pe[] = {8, 0, 2, 32, 60, 20};
  l->perr = pe[choose(SW, 6)];
  l->per_er = choose(SW, 3) == 2 ? 32 : 0;
  static const int64_t cs[] = {1000, 60000, 300000, 1100000, 3100000, 12000000};
  l->cost = cs[choose(SW, 6)];
  l->cap = 20 + choose(SW, 100);
}
std::string spec_str(const Spec &s) {
  std::string r = "pts{";
  for (size_t i = 0; i < s.pts.size(); i++) r += (i ? " " : "") + s.pts[i].txt + (s.val_trn ? sf("/%d", s.pts[i].trn_req) : "");
  return r + sf("} min_trn=%d min_err=%d rnd=%d ml=%d hard=%d n=%d k=%d", s.min_trn, s.min_err, s.rnd, s.ml, s.mlhd, s.n, s.k);
}
void skew_events() {
  if (chance(SF, 1, 3)) {
    int m = 1 + choose(SF, 3);
    for (int i = 0; i < m; i++) {
      int64_t t = choose(SF, 60) * 1000000ll; static const int64_t js[] = {1, -1, 30, -30, 3600, -3600, 700, -86400};
      int64_t j = js[choose(SF, 8)] * 1000000;
      at(t, [j]() { cnt("fault.clock_jump"); ev("clock jumps by %lld s", (long long)(j / 1000000)); for (auto &n : nodes) n->skew += j; });
    }
  }
}

// ================= R01
static void r01() {
  common_setup();
  int th = rc.thorough ? 2 : 1;
  Spec s = gen_spec("run.spf", (choose(SW, 4) == 3 ? "./" : "") + res_name("out.srf"), 5, 12 * th, 10 * th);
  render_spec(s, chance(SW, 1, 3)); install(s);
  W.base.clear(); W.res = resp(s);
  if (chance(SW, 1, 3)) {
    std::vector<std::string> v; int m = 1 + choose(SW, 4);
    for (int i = 0; i < m; i++) v.push_back(s.pts.size() > 46 || chance(SW, 1, 2) ? s.pts[choose(SW, (uint32_t)s.pts.size())].txt : snr_text(SW, 2));
    gen_base(W.res, s.n, s.k, v, false);
    W.base = acc_of(parse_res(vfs.get(W.res)->data)); relay_res(W.res);
  }
  Life *l = new_life(s); script(l);
  if (l->cost < 300000 && choose(SW, 2)) l->cost_jit = 900000;
  l->after_save = [](Life *l, SaveRec &sr) {
    if (sr.rc != 0) violate("save-refused", "saving failed with code %d although nothing was wrong", sr.rc);
    check_accounts("after a save", W.res);
    check_order("after a save", W.res);
  };
  bool api = choose(SW, 2);
  skew_events();
  static size_t gone; gone = (size_t)-1;
  if (choose(SF, 5) == 4) { // the results file is taken away between two saves: the next save has everything this run simulated
    int q = 1 + choose(SF, 2);
    while (q-- > 0) at(choose(SF, 40000) * 1000ll, [l]() {
      std::string b = W.res + ".bsy";
      if (l->node->st != NS_READY || l->node->save_no >= 0 || vfs.get(b) || !vfs.get(W.res)) return;
      cnt("fault.results_taken_away"); ev("results file taken away");
      vfs.rm(W.res); W.base.clear(); gone = l->saves.size();
    });
  }
  int ri = RI[choose(SW, 4)], si = SI[choose(SW, 6)];
  if (api) { ApiOpts o; o.ri = ri; o.slices = 4 + choose(SW, 12); o.controls = choose(SW, 2); o.final_saves = 1 + choose(SW, 3); start_api(l, 0, o, 0); }
  else start_main(l, "stub", 0, choose(SW, 2), si, ri, 0);
  std::string other;
  if (chance(SW, 1, 8)) { // somebody else's simulation beside
    size_t sl = W.res.rfind('/'); other = choose(SW, 2) ? W.res + "2" : (sl == std::string::npos ? "" : W.res.substr(0, sl + 1)) + "beside.srf";
    Spec q = gen_spec("beside.spf", other, 3, 6, 3); render_spec(q, false); install(q);
    Life *b = new_life(q); script(b); b->cap = 10; b->cost = l->cost;
    start_main(b, "stub", 1, true, choose(SW, 3), choose(SW, 3), choose(SW, 4) * 250000ll);
    cnt("probe.another_file_beside");
  }
  run_world();
  if (!other.empty()) { Acc b = W.base; W.base.clear(); check_accounts("at the end, the other file", other); W.base = b; }
  if (!l->inited) violate("init-refused", "a valid parameter file was refused");
  if (l->saves.empty()) violate("never-saved", "the run ended without saving");
  if (gone != l->saves.size()) check_accounts("at the end", W.res);
  if (l->node->exit_code != 0) violate("bad-exit", "the program ended with code %d", l->node->exit_code);
  sh->nontrivial = l->saves.size() >= 2 && l->trials >= 3;
  describe(sf("%s si=%d ri=%d cost=%.3fs base=%zu pts | %zu saves, %lld trials; ", api ? "interface-driven" : "main()", si, ri, l->cost * 1e-6, W.base.size(), l->saves.size(), (long long)l->trials) + spec_str(s));
}
static PropReg p01({"R01", r01, 9000, 150000, "one run = one simulated program life with a random parameter set, random decoder outcomes, trial durations, save and return intervals, clock jumps, saving driven by main() or by interface calls at random moments; non-trivial: at least two saves and three trials; distinct: interleaving signature x final state", REAL, STUB});

// ================= R02
// Whether a save of the life would bring a counter beyond the range of the counters.
static bool past_limit(Life *l, SaveRec &sr) {
  const SaveRec *ok = nullptr; for (auto &q : l->saves) { if (&q == &sr) break; if (q.rc == 0) ok = &q; }
  ResFile f = parse_res(sr.before); if (!f.ok) return false;
  Acc a = acc_of(f);
  for (size_t p = 0; p < sr.snap.size(); p++) {
    Counts c = sr.snap[p], o; if (ok) o = ok->snap[p];
    const Counts &e = a[l->spec.pts[p].snr]; long sl = c.enml_slack + o.enml_slack;
    if (e.trn + c.trn - o.trn > INT_MAX || e.enb + c.enb - o.enb > INT_MAX || e.enbl + c.enbl - o.enbl > INT_MAX || e.er + c.er - o.er > INT_MAX || e.mltrn + c.mltrn - o.mltrn > INT_MAX || e.enml + c.enml - o.enml + sl > INT_MAX) return true;
  }
  return false;
}
static void r02() {
  common_setup();
  W.base.clear(); W.res = res_name("acc.srf");
  int m = 2 + choose(SW, 4);
  Spec first;
  std::vector<std::string> pool; int ps = 3 + choose(SW, 9), style = choose(SW, 7);
  for (int i = 0; i < ps; i++) pool.push_back(snr_text(SW, style >= 4 ? style : (int)choose(SW, 4)));
  bool full = chance(SW, 1, 16); // nearly as many values as the file has room for
  if (full) for (int i = 0; i < 30; i++) pool.push_back(sf("%.2f", 4 + 0.25 * choose(SW, 60)));
  int n = 2 * (1 + choose(SW, 6)), k = 1 + choose(SW, (uint32_t)n);
  static bool edge; edge = false;
  if (chance(SW, 1, 3)) {
    std::vector<std::string> v; int q = 1 + choose(SW, 6);
    for (int i = 0; i < q; i++) v.push_back(choose(SW, 2) ? pick(SW, pool) : snr_text(SW, 2));
    gen_base(W.res, n, k, v, choose(SW, 2));
    if (choose(SF, 6) == 0) { // a counter has nearly reached the limit of what the program can count
      static const char *gs[] = {"tr_num", "en_bit", "en_bl", "erasures_num", "ml_tr_num", "enml_bl"};
      std::string &d = vfs.get(W.res)->data; size_t p = d.find(std::string("\n") + gs[choose(SF, 6)] + " {");
      if (p != std::string::npos) {
        p = d.find('{', p) + 2; int skip = choose(SF, (uint32_t)q);
        while (skip-- && d[d.find(' ', p) + 1] != '}') p = d.find(' ', p) + 1;
        d.replace(p, d.find(' ', p) - p, sf("%d", INT_MAX - (int)choose(SF, 40))); edge = true; cnt("probe.counter_near_its_limit");
      }
    }
    W.base = acc_of(parse_res(vfs.get(W.res)->data)); relay_res(W.res);
  }
  bool brim = full && choose(SW, 2); // the file gets exactly as many entries as it has room for
  if (brim) {
    std::set<double> all; for (auto &q : W.base) all.insert(q.first);
    for (auto &t : pool) all.insert(atof(t.c_str()));
    for (int i = 0; all.size() < 50; i++) { std::string t = sf("%.2f", 19.1 + 0.5 * i); if (all.insert(atof(t.c_str())).second) pool.push_back(t); }
    if (all.size() == 50) cnt("probe.file_filled_to_the_brim");
  }
  int64_t t = 0;
  std::string d;
  for (int i = 0; i < m; i++) {
    Spec s = gen_spec(sf("run%d.spf", i), W.res, 4, 6, 4);
    s.n = n; s.k = k; s.pts.clear();
    int np = 1 + choose(SW, full ? 40 : 5);
    std::set<double> used;
    if (brim && i == 0) { std::vector<std::string> q = pool; for (size_t j = q.size(); j-- > 1;) std::swap(q[j], q[choose(SW, (uint32_t)j + 1)]); for (auto &t : q) if (s.pts.size() < 50) { Point p; p.txt = t; p.snr = atof(t.c_str()); p.trn_req = s.val_trn ? (int)choose(SW, 3) : 0; if (used.insert(p.snr).second) s.pts.push_back(p); } }
    else for (int j = 0; j < np; j++) { Point p; p.txt = pick(SW, pool); p.snr = atof(p.txt.c_str()); p.trn_req = s.val_trn ? (int)choose(SW, 6) : 0; if (used.insert(p.snr).second) s.pts.push_back(p); }
    if (!chance(SW, 1, 3)) std::sort(s.pts.begin(), s.pts.end(), [](const Point &a, const Point &b) { return a.snr < b.snr; });
    render_spec(s, false); install(s);
    Life *l = new_life(s); script(l); l->cap = full ? 4 : 12;
    l->after_save = [](Life *l, SaveRec &sr) {
      if (sr.rc != 0 && edge && past_limit(l, sr)) {
        if (sr.after != sr.before) violate("full-counter-file-changed", "a save was refused because a counter would get too big, but the file was changed");
        cnt("probe.save_beyond_the_limit"); check_accounts("after a refused save", W.res); return;
      }
      if (sr.rc != 0) violate("save-refused", "saving failed with code %d although nothing was wrong", sr.rc);
      check_accounts("after a save", W.res);
      check_order("after a save", W.res);
      ResFile a = parse_res(sr.before), b = parse_res(sr.after);
      if (sr.had_before && a.ok && b.ok) { // entries of SNR values this run does not simulate stay as they are
        Acc x = acc_of(a), y = acc_of(b);
        for (auto &q : x) { bool mine = false; for (auto &p : l->spec.pts) mine |= p.snr == q.first; std::string w; if (!mine && !(y.count(q.first) && y[q.first].same(q.second))) violate("foreign-entry-changed", "the entry for %g dB, which this run does not simulate, changed", q.first); }
      }
    };
    start_main(l, "stub", i, true, SI[choose(SW, 4)], RI[choose(SW, 3)], t);
    run_world();
    if (!l->inited) violate("init-refused", "a valid parameter file was refused");
    bool over = edge && !l->saves.empty() && l->saves.back().rc != 0;
    if ((l->node->exit_code != 0) != over) violate("bad-exit", "the program ended with code %d", l->node->exit_code);
    t = g_now + choose(SW, 100000000);
    d += sf("run%d:%zu pts ", i, s.pts.size());
  }
  check_accounts("at the end", W.res);
  check_order("at the end", W.res);
  sh->nontrivial = lives.size() >= 2 && acc_of(read_now(W.res)).size() >= 2;
  describe(d + "base " + acc_str(W.base).substr(0, 200) + " final " + acc_str(acc_of(read_now(W.res))).substr(0, 400));
}
static PropReg p02({"R02", r02, 4500, 80000, "one run = 2-5 program lives one after another on the same results file with overlapping, unsorted or high-precision Eb/No lists and possibly an older file; non-trivial: two lives and two SNR entries", REAL, STUB});

// ================= R03
static void concurrent(bool faults) {
  common_setup();
  W.base.clear(); W.res = res_name("shared.srf");
  int m = 2 + choose(SW, 3);
  int n = 2 * (1 + choose(SW, 4)), k = 1 + choose(SW, (uint32_t)n);
  if (chance(SW, 1, 3)) { gen_base(W.res, n, k, {"1", "2"}, false); W.base = acc_of(parse_res(vfs.get(W.res)->data)); relay_res(W.res); }
  static const int stalls[] = {0, 10, 40, 100, 200};
  fsf.stall = stalls[choose(SW, 5)];
  fsf.stall_max_s = pick(SW, std::vector<int>{40, 5, 1});
  int64_t cost = pick(SW, std::vector<int64_t>{1100000, 300000, 60000, 2000000, 5000});
  int np = 1 + choose(SW, 3);
  bool samespf = choose(SW, 2);
  std::string d;
  for (int i = 0; i < m; i++) {
    Spec s = gen_spec(samespf ? "run.spf" : sf("run%d.spf", i), W.res, 3, 6, 3);
    if (samespf && i) s = lives[0]->spec;
    else {
      s.n = n; s.k = k; s.pts.clear();
      static const char *ps[] = {"1", "2", "1.5", "0.5"};
      int off = choose(SW, 3);
      for (int j = 0; j < np; j++) { Point p; p.txt = ps[(off + j) % 4]; p.snr = atof(p.txt.c_str()); p.trn_req = s.val_trn ? 2 + (int)choose(SW, 5) : 0; s.pts.push_back(p); }
      render_spec(s, false); install(s);
    }
    Life *l = new_life(s); script(l); l->cost = cost; l->cap = 10;
    int si = choose(SW, 4) == 3 ? 600 : (int)choose(SW, 3), ri = choose(SW, 2);
    int64_t t0 = choose(SW, 4) == 0 ? 0 : choose(SW, 8) * 250000ll + choose(SW, 20);
    start_main(l, "stub", i, choose(SW, 2), si, ri, t0);
    d += sf("[si=%d ri=%d t0=%.2f] ", si, ri, t0 * 1e-6);
  }
  std::string other;
  if (chance(SW, 1, 4)) { // somebody simulates into another file beside, or of the same name in another directory
    size_t sl = W.res.rfind('/'); std::string dir = sl == std::string::npos ? "" : W.res.substr(0, sl + 1), nm = W.res.substr(dir.size());
    int k = choose(SW, 6);
    other = k == 0 ? "alt/" + nm : k == 1 ? W.res + "2" : k == 2 ? dir + "other.srf" : k == 3 ? dir + "z" : k == 4 ? W.res + ".1" : dir + "2" + nm;
    make_dirs(other);
    Spec s = gen_spec("other.spf", other, 3, 6, 3); render_spec(s, false); install(s);
    Life *l = new_life(s); script(l); l->cost = cost; l->cap = 10;
    start_main(l, "stub", m, true, choose(SW, 3), choose(SW, 2), choose(SW, 8) * 250000ll);
    cnt("probe.another_file_beside"); d += "and another one into " + other.substr(0, 60) + " ";
  }
  if (g_protocol) {
    on_mutation = protocol_monitor;
    for (auto &l : lives) l->after_save = protocol_after;
  }
  run_world();
  fsf = FsFaults();
  int fails = 0, saves = 0; bool overlap = false;
  for (auto &l : lives) {
    if (!l->inited) violate("init-refused", "a valid parameter file was refused");
    for (auto &s : l->saves) {
      saves++; fails += s.rc != 0;
      for (auto &q : lives) if (q != l) for (auto &u : q->saves) if (u.seq0 < s.seq1 && s.seq0 < u.seq1) overlap = true;
    }
  }
  check_accounts("after all runs ended", W.res, faults);
  check_order("after all runs ended", W.res);
  if (!other.empty()) { Acc b = W.base; W.base.clear(); check_accounts("after all runs ended, the other file", other, faults); check_order("after all runs ended, the other file", other); W.base = b; }
  if (overlap) cnt("probe.overlapping_saves_runs");
  sh->nontrivial = overlap;
  describe(sf("%d runs on one file, trial %.3fs, stalls %d/1000: ", m, cost * 1e-6, fsf.stall) + d + sf("| %d saves, %d timed out", saves, fails));
}
static void r03() { concurrent(false); }
static PropReg p03({"R03", r03, 8000, 150000, "one run = 2-4 program lives at once on one results file, scheduled by a seeded discrete-event scheduler with random operation costs and stalls; non-trivial: two saves overlapped in time", REAL, STUB});

// ================= R04
static void r04() {
  common_setup();
  W.base.clear(); W.res = res_name("crash.srf");
  int n = 2 * (1 + choose(SW, 4)), k = 1 + choose(SW, (uint32_t)n);
  if (choose(SW, 2)) { gen_base(W.res, n, k, {"1", "2", "3"}, false); W.base = acc_of(parse_res(vfs.get(W.res)->data)); relay_res(W.res); }
  fsf.short_write = pick(SW, std::vector<int>{0, 300});
  int m = 1 + choose(SW, 4);
  int64_t t = 0;
  std::string d; bool crashed_in_save = false;
  for (int i = 0; i < m; i++) {
    Spec s = gen_spec(sf("run%d.spf", i), W.res, 3, 5, 3);
    s.n = n; s.k = k;
    render_spec(s, false); install(s);
    Life *l = new_life(s); script(l); l->cap = 10; l->cost = pick(SW, std::vector<int64_t>{400000, 1200000, 50000});
    l->after_save = [](Life *l, SaveRec &sr) { if (sr.rc == 0) check_accounts("after a save", W.res); };
    ApiOpts o; o.slices = 3 + choose(SW, 8); o.ri = choose(SW, 2);
    Node *nd = choose(SW, 3) ? start_main(l, "stub", i, true, choose(SW, 3), choose(SW, 2), t) : start_api(l, i, o, t);
    bool crash = i + 1 < m || choose(SF, 2);
    g_count_trials_as_ops = choose(SF, 4) == 1;
    if (crash) { nd->crash_in_ops = choose(SF, 4) == 0 ? (int)choose(SF, 200) : (int)choose(SF, 40); nd->crash_mid_write = choose(SF, 2); }
    if (choose(SF, 6) == 5) { int64_t kt = t + choose(SF, 8000000); at(kt, [nd]() { if (nd->st == NS_READY) { cnt("fault.kill_at_time"); kill_node(nd, "killed"); } }); }
    InodeP b0 = vfs.get(W.res); std::string before = b0 ? b0->data : ""; bool had = (bool)b0;
    run_world();
    if (nd->st == NS_KILLED) {
      InodeP r = vfs.get(W.res);
      bool insave = !l->saves.empty() && !l->saves.back().done;
      if (insave) {
        crashed_in_save = true;
        SaveRec &sr = l->saves.back();
        if (!r) { if (sr.had_before) violate("results-lost", "the process died while saving and the results file is gone"); }
        else if (!(sr.had_before && r->data == sr.before)) {
          ResFile f = parse_res(r->data);
          if (!f.ok) violate("torn-results", "the process died while saving and left an incomplete results file: %s", f.why.c_str());
        }
      }
      if (r || had) check_accounts("after a crash", W.res);
      // the operator clears the mark of a dead run, sooner or later
      std::string mk = mark_of(s);
      InodeP mi = vfs.get(mk);
      if (mi) { cnt("probe.stale_mark"); if (!chance(SW, 1, 8)) vfs.rm(mk); }
    }
    t = g_now + 1000 + choose(SW, 2000000);
    d += sf("[life %d: %zu saves%s] ", i, l->saves.size(), nd->st == NS_KILLED ? " crashed" : "");
  }
  fsf = FsFaults();
  check_accounts("at the end", W.res);
  check_order("at the end", W.res);
  sh->nontrivial = crashed_in_save;
  describe(d + "final " + acc_str(acc_of(read_now(W.res))).substr(0, 400));
}
static PropReg p04({"R04", r04, 9000, 150000, "one run = 1-4 program lives in a row, most of them killed at a chosen file operation, inside a write (torn), inside a trial or at a chosen time; non-trivial: a life died inside a save", REAL, STUB});

// ================= R05
static void r05() {
  common_setup();
  W.base.clear(); W.res = res_name("err.srf");
  Spec s = gen_spec("run.spf", W.res, 3, 8, 5);
  render_spec(s, false); install(s);
  if (choose(SW, 2)) { gen_base(W.res, s.n, s.k, {"1", "2", "3"}, false); W.base = acc_of(parse_res(vfs.get(W.res)->data)); relay_res(W.res); }
  Life *l = new_life(s); script(l); l->cap = 20; l->cost = 400000;
  int hi = 30 + choose(SF, 120);
  fsf.only_in_save = true;
  uint32_t mask = choose(SF, 1024); if (choose(SF, 3) == 0) mask = 1u << choose(SF, 10);
  if (mask & 1) fsf.open_fail = hi;
  if (mask & 2) fsf.open_wr_fail = hi;
  if (mask & 4) fsf.write_enospc = hi * 2;
  if (mask & 8) fsf.write_eio = hi * 2;
  if (mask & 16) fsf.read_eio = hi * 2;
  if (mask & 32) fsf.close_fail = hi;
  if (mask & 64) fsf.rename_fail = hi * 3;
  if (mask & 128) fsf.emfile = hi;
  bool allocs = mask & 256; bool full = mask & 512;
  fsf.short_write = 100; fsf.short_read = 50;
  int nfail = 0;
  l->after_save = [&](Life *l, SaveRec &sr) {
    cur->alloc_fail_at = -1;
    if (sr.rc != 0) {
      nfail++;
      if (!sr.fault) violate("save-refused", "saving failed with code %d although no fault was injected", sr.rc);
      if (sr.had_before != sr.has_after || sr.before != sr.after) violate("failed-save-changed-file", "saving reported failure but the results file changed (%zu bytes before, %zu after%s)", sr.before.size(), sr.after.size(), sr.had_before && !sr.has_after ? ", file gone" : "");
    } else check_accounts("after a save that reported success", W.res);
    check_released(l, sr);
    if (full) { if (vfs.capacity < 0 && choose(SF, 3) == 0) { vfs.capacity = choose(SF, 900); } else vfs.capacity = -1; }
    if (allocs && choose(SF, 2)) { cur->alloc_fail_at = choose(SF, 6); cur->alloc_fail_n = 1 + choose(SF, 2); }
  };
  l->after_run = [&](Life *) { cur->alloc_fail_at = -1; };
  struct Guard {};
  ApiOpts o; o.ri = choose(SW, 2); o.slices = 6 + choose(SW, 14); o.fault_free_last = true;
  bool by_main = chance(SW, 1, 4); // the program itself must go on with its trials, whatever becomes of its saves
  if (by_main) { allocs = false; start_main(l, "stub", 0, choose(SW, 2), choose(SW, 2), choose(SW, 2), 0); cnt("probe.saves_of_the_program"); }
  else {
  Node *nd = new_node(image("stub", 0), nullptr, 0);
  nd->user = l; l->node = nd;
  nd->body = [&]() { // like api_body; allocation faults are armed only around saves
    Harness h;
    void *inst = nullptr;
    cur->exit_code = 1;
    if (c_init(s.spf, o.ri, true, &inst) != 0) return;
    int left = o.slices, r = 17;
    while (r == 17 && left-- > 0) {
      if (choose(SW, 5) < 2) { cur->alloc_fail_at = -1; r = c_run(inst); }
      else { if (allocs && choose(SF, 2)) { cur->alloc_fail_at = choose(SF, 6); cur->alloc_fail_n = 1 + choose(SF, 2); } c_save(inst); cur->alloc_fail_at = -1; }
    }
    cur->alloc_fail_at = -1;
    while (r == 17) r = c_run(inst);
    fsf = FsFaults(); vfs.capacity = -1; full = allocs = false;
    int rcs = c_save(inst);
    if (rcs != 0) violate("no-recovery", "the first save after the faults stopped failed with code %d", rcs);
    c_close(inst);
    cur->exit_code = 0;
  };
  }
  run_world();
  if (!l->inited) violate("init-refused", "a valid parameter file was refused");
  if (by_main) {
    if (l->saves.empty()) violate("never-saved", "the run ended without saving");
    for (size_t i = 0; i < s.pts.size(); i++) if (l->truth[i].trn < s.req((int)i)) violate("gave-up", "after a failed save the program ended the simulation: %ld of %d trials at %s dB", l->truth[i].trn, s.req((int)i), s.pts[i].txt.c_str());
    if ((l->saves.back().rc == 0) != (l->node->exit_code == 0)) violate("bad-exit", "the last save returned %d but the program ended with code %d", l->saves.back().rc, l->node->exit_code);
    check_accounts("at the end", W.res);
  } else check_accounts("at the end, after a fault-free save", W.res);
  check_order("at the end", W.res);
  sh->nontrivial = nfail > 0;
  describe(sf("fault mask %#x rate %d/1000: %zu saves, %d failed, %lld trials; ", mask, hi, l->saves.size(), nfail, (long long)l->trials) + spec_str(s));
}
static PropReg p05({"R05", r05, 9000, 150000, "one run = one program life whose saves meet failing opens, reads, writes (error, no space, short), closes, renames, allocations and a full disk; the last save is fault-free; non-trivial: at least one save reported failure", REAL, STUB});

// ================= R06
static void r06() {
  g_protocol = true;
  int mode = choose(SW, 4);
  if (mode == 0) { // concurrent runs
    concurrent(false);
    return;
  }
  common_setup();
  W.base.clear(); W.res = res_name("mark.srf");
  Spec s = gen_spec("run.spf", W.res, 2, 5, 3);
  render_spec(s, false); install(s);
  on_mutation = protocol_monitor;
  Life *l = new_life(s); script(l); l->cost = 700000; l->cap = 10;
  std::string mk = mark_of(s);
  if (mode == 1 || mode == 3) { // a mark of somebody else appears and is (perhaps) taken away later
    int64_t t_on = choose(SW, 2) ? 0 : choose(SW, 5) * 700000ll, dur = pick(SW, std::vector<int64_t>{1000000, 100, 300000, 5000000, 12000000, 20000000, 26000000, -1});
    at(t_on, [mk]() { if (!vfs.exists(mk)) { InodeP i = vfs.put(mk, "Busy"); i->creator = 99; ev("somebody else's busy mark appears"); } });
    if (dur >= 0) at(t_on + dur, [mk]() { InodeP i = vfs.get(mk); if (i && i->creator == 99) { vfs.rm(mk); ev("somebody else's busy mark is gone"); } });
    int64_t t_off = dur < 0 ? INT64_MAX : t_on + dur;
    bool block = false;
    l->after_save = [=, &block](Life *l, SaveRec &sr) {
      protocol_after(l, sr);
      InodeP m = vfs.get(mk);
      if (m && m->creator == 99) {
        if (sr.rc == 0 && sr.before != sr.after) violate("saved-under-foreign-mark", "the results were saved while somebody else's busy mark was in place");
        if (sr.rc == 0) violate("saved-under-foreign-mark", "saving reported success while somebody else's busy mark was in place all the time");
        cnt("probe.gave_up_waiting");
        block = true;
      }
      int64_t waited = std::min(t_off, sr.t1) - std::max(t_on, sr.t0);
      if (sr.rc != 0 && waited < 20000000) violate("gave-up-too-early", "saving failed after waiting only %.3f s for the busy mark to go", waited > 0 ? waited * 1e-6 : 0.0);
      if (sr.t1 - sr.t0 > 300000000ll) violate("waited-too-long", "saving took %.0f s", (sr.t1 - sr.t0) * 1e-6);
      if (waited > 0 && sr.rc == 0) cnt("probe.waited_for_mark");
      if (sr.rc == 0) check_accounts("after a save", W.res);
    };
    if (choose(SW, 2)) start_main(l, "stub", 0, true, choose(SW, 3), choose(SW, 2), 0);
    else { ApiOpts o; o.slices = 4; start_api(l, 0, o, 0); }
    run_world();
    sh->nontrivial = l->saves.size() > 0;
    describe(sf("foreign mark at %.2fs for %.2fs: %zu saves, ", t_on * 1e-6, dur * 1e-6, l->saves.size()) + spec_str(s));
    return;
  }
  // faults while saving: the mark is always given back
  int hi = 40 + choose(SF, 100);
  fsf.only_in_save = true;
  uint32_t mask = choose(SF, 128);
  if (mask & 1) fsf.open_fail = hi;
  if (mask & 2) fsf.open_wr_fail = hi;
  if (mask & 4) fsf.write_enospc = hi * 2;
  if (mask & 8) fsf.read_eio = hi * 2;
  if (mask & 16) fsf.close_fail = hi;
  if (mask & 32) fsf.rename_fail = hi * 3;
  if (mask & 64) fsf.emfile = hi;
  bool damaged = chance(SF, 1, 3);
  if (damaged) { vfs.put(W.res, "code_n 4\ncode_k 2\n\nSNR { 1 2 }\ntr_num { 10 20 }\nen_bit { 1 }\nen_bl { 1 1 }\nerasures_num { 0 0 }\nml_tr_num { 0 0 }\nenml_bl { 0 0 }\n"); cnt("fault.damaged_results_file"); }
  int nf = 0;
  l->after_save = [&](Life *l, SaveRec &sr) { nf += sr.rc != 0; protocol_after(l, sr); cur->alloc_fail_at = -1; };
  Node *nd = new_node(image("stub", 0), nullptr, 0);
  nd->user = l; l->node = nd;
  nd->body = [&]() {
    Harness h;
    void *inst = nullptr;
    if (c_init(s.spf, 0, true, &inst) != 0) return;
    int left = 6 + choose(SW, 10), r = 17;
    while (left-- > 0) {
      if (r == 17 && choose(SW, 4) < 2) r = c_run(inst);
      else { if (chance(SF, 1, 3)) cur->alloc_fail_at = choose(SF, 6); c_save(inst); cur->alloc_fail_at = -1; }
    }
    c_close(inst);
    cur->exit_code = 0;
  };
  run_world();
  sh->nontrivial = nf > 0;
  describe(sf("faults mask %#x damaged=%d: %zu saves, %d failed", mask, damaged, l->saves.size(), nf));
}
static PropReg p06({"R06", r06, 9000, 150000, "one run = concurrent runs, or one run meeting somebody else's busy mark that stays for a random time, or one run whose saves meet I/O faults, allocation failures or a damaged file; the protocol is monitored at every file operation; non-trivial: saves overlapped, waited, or failed", REAL, STUB});

// ================= R07
// Number of values in a group's text "name { a b ".
static int m_of(const std::string &l) { int n = 0; for (size_t p = l.find('{'); (p = l.find(' ', p)) != std::string::npos && p + 1 < l.size(); p++) n++; return n; }
static int W_count(const std::string &t, size_t p) { int n = 0; for (size_t e = t.find('}', p); p < e && p != std::string::npos; p = t.find(' ', p) + 1) n++; return n; } // values of a group from p on
static void r07() {
  common_setup();
  W.base.clear(); W.res = res_name("old.srf");
  Spec s = gen_spec("run.spf", W.res, 3, 6, 3);
  render_spec(s, false); install(s);
  std::vector<std::string> v; int m = 1 + choose(SW, 5);
  for (int i = 0; i < m; i++) v.push_back(choose(SW, 2) ? s.pts[choose(SW, (uint32_t)s.pts.size())].txt : snr_text(SW, 2));
  std::string good = gen_base(W.res, s.n, s.k, v, choose(SW, 2)), bad = good;
  static const char *groups[] = {"SNR", "tr_num", "en_bit", "en_bl", "erasures_num", "ml_tr_num", "enml_bl"};
  int kind = choose(SF, 10); bool definite = true; std::string what;
  auto grp_pos = [&](const std::string &t, const char *g) { size_t p = t.find(std::string("\n") + g + " {"); return p == std::string::npos ? t.find(std::string(g) + " {") : p + 1; };
  switch (kind) {
    case 0: case 1: { // torn: only a prefix is there
      size_t end = bad.find('}', grp_pos(bad, "enml_bl"));
      size_t first = grp_pos(bad, "SNR") + 4;
      size_t cut = first + choose(SF, (uint32_t)(end - first + 1));
      bad = bad.substr(0, cut); what = sf("cut after %zu of %zu bytes", cut, good.size());
      if (kind == 1) { bad += std::string(good.size() - cut, '\0'); what += ", rest zeroed"; }
      break; }
    case 2: { const char *g = groups[choose(SF, 7)]; size_t p = grp_pos(bad, g), e = bad.find('\n', p); bad.erase(p, e - p); what = std::string("group ") + g + " missing"; break; }
    case 3: { const char *g = groups[choose(SF, 7)]; size_t p = bad.find('{', grp_pos(bad, g)) + 2, e = bad.find(' ', p); bad.erase(p, e - p + 1); what = std::string("one value of ") + g + " missing"; break; }
    case 4: { const char *g = groups[choose(SF, 7)]; size_t p = bad.find('{', grp_pos(bad, g)) + 2; bad.insert(p, "7 "); what = std::string("one value too many in ") + g; break; }
    case 5: { const char *g = groups[choose(SF, 7)]; size_t p = grp_pos(bad, g), e = bad.find('}', p); bad.erase(e, 1); what = std::string("group ") + g + " not closed"; definite = false; break; }
    case 6: { // arbitrary damage: must not crash or hang
      int c = 1 + choose(SF, 6); for (int i = 0; i < c; i++) { size_t p = choose(SF, (uint32_t)bad.size()); int q = choose(SF, 4); if (q == 0) bad[p] = (char)choose(SF, 256); else if (q == 1) bad.erase(p, 1 + choose(SF, 20)); else if (q == 2) bad.insert(p, std::string(1 + choose(SF, 6), "{} %x\n\1"[choose(SF, 7)])); else bad = bad.substr(0, p + 1); if (bad.empty()) bad = "x"; }
      what = "random damage"; definite = false; break; }
    case 7: { // more entries than the program can hold, or none of them readable
      if (choose(SF, 2)) { std::vector<std::string> w; int q = 51 + choose(SF, 30); for (int i = 0; i < q; i++) w.push_back(sf("%d", i)); bad = good = gen_base(W.res, s.n, s.k, w, false); what = sf("%d entries", q); }
      else { what = "not permitted to read it"; vfs.get(W.res)->unreadable = true; }
      break; }
  }
  if (kind == 8) { // more values than the program can hold in some of the groups, which come in any order
    uint32_t mask = 1 + choose(SF, 127); int q = 51 + choose(SF, 12) * choose(SF, 2);
    std::string out = bad.substr(0, grp_pos(bad, "SNR")); std::vector<std::string> ls;
    for (int g = 0; g < 7; g++) {
      size_t p = grp_pos(bad, groups[g]), e = bad.find('}', p); std::string l = bad.substr(p, e - p);
      if (mask >> g & 1) for (int have = m_of(l); have < q; have++) l += g ? sf("%d ", (int)choose(SF, 10)) : sf("%d ", 100 + have);
      ls.push_back(l + "}\n");
    }
    for (int g = 6; g > 0; g--) std::swap(ls[g], ls[choose(SF, g + 1)]);
    for (auto &l : ls) out += l;
    bad = out; what = sf("%d values in some groups (mask %x)", q, mask);
  }
  if (kind == 9) { // a value that is no number
    int gi = choose(SF, 7); const char *g = groups[gi]; size_t p = bad.find('{', grp_pos(bad, g)) + 2; int skip = choose(SF, (uint32_t)W_count(bad, p));
    while (skip--) p = bad.find(' ', p) + 1;
    std::string t = no_number(SF, gi > 0); bad.replace(p, bad.find(' ', p) - p, t); what = "value '" + t + "' in " + g;
  }
  if (kind != 7) { vfs.put(W.res, bad); }
  cnt((std::string("fault.damaged_file.") + (kind <= 1 ? "torn" : kind == 2 ? "group_missing" : kind <= 4 ? "value_count" : kind == 5 ? "unclosed" : kind == 6 ? "random" : kind == 7 ? "too_many_or_unreadable" : kind == 9 ? "no_number" : "oversized_groups")).c_str());
  Life *l = new_life(s); script(l); l->cap = 8; l->cost = 500000;
  std::string d0 = vfs.get(W.res)->data;
  l->after_save = [&](Life *l, SaveRec &sr) {
    InodeP i = vfs.get(W.res);
    check_released(l, sr);
    if (sr.rc != 0) { if (!i || i->data != sr.before) violate("damaged-file-changed", "an old results file (%s) was refused but changed", what.c_str()); }
    else if (definite) violate("damaged-file-accepted", "an old results file (%s) was taken for a complete one: saving reported success", what.c_str());
    else {
      ResFile f = read_now(W.res);
      if (f.ok) { Acc a = acc_of(f); for (size_t p = 0; p < sr.snap.size(); p++) if (sr.snap[p].trn && a[l->spec.pts[p].snr].trn < sr.snap[p].trn && kind != 6) violate("wrong-totals", "the run's own trials are missing after merging with a damaged file"); }
    }
  };
  if (choose(SW, 2)) start_main(l, "stub", 0, true, choose(SW, 3), choose(SW, 2), 0);
  else { ApiOpts o; o.slices = 5; o.final_saves = 4; start_api(l, 0, o, 0); }
  run_world();
  sh->nontrivial = definite && l->saves.size() > 0;
  describe("old file damaged: " + what + "; " + spec_str(s));
}
static PropReg p07({"R07", r07, 7000, 120000, "one run = one program life that finds an old results file torn at a random byte, with a missing, short, long or unclosed group, random bytes, too many entries, groups of more values than the program can hold in any order, or no permission; non-trivial: the damage is one that must be refused and a save was tried", REAL, STUB});

// ================= R08
static void r08() {
  common_setup();
  W.base.clear(); W.res = res_name("rates.srf");
  Spec s = gen_spec("run.spf", W.res, 4, 15, 8);
  if (choose(SW, 3) == 2) { s.pts.resize(1); }
  render_spec(s, false); install(s);
  std::vector<std::string> v; bool big = choose(SW, 2);
  if (choose(SW, 2)) { int q = 1 + choose(SW, 5); for (int i = 0; i < q; i++) v.push_back(choose(SW, 2) ? s.pts[choose(SW, (uint32_t)s.pts.size())].txt : snr_text(SW, 2)); gen_base(W.res, s.n, s.k, v, big); }
  Life *l = new_life(s); script(l); l->cap = 60; if (l->cost > 2000000) l->cost = 400000;
  l->after_save = [](Life *l, SaveRec &sr) { if (sr.rc == 0) check_rates("after a save", sr.after, l->spec.n, l->spec.k); };
  if (choose(SW, 2)) start_main(l, "stub", 0, true, choose(SW, 4), choose(SW, 3), 0);
  else { ApiOpts o; o.slices = 3 + choose(SW, 8); start_api(l, 0, o, 0); }
  // a second run at the same time
  if (chance(SW, 1, 3)) { Spec q = s; q.spf = "run2.spf"; render_spec(q, false); install(q); Life *l2 = new_life(q); script(l2); l2->cap = 20; l2->cost = l->cost; l2->after_save = l->after_save; start_main(l2, "stub", 1, false, choose(SW, 3), choose(SW, 2), 300000); }
  run_world();
  int ok = 0; for (auto &q : lives) for (auto &x : q->saves) ok += x.rc == 0;
  sh->nontrivial = ok > 0 && l->trials > 2;
  InodeP f = vfs.get(W.res);
  describe((f ? f->data.substr(0, 700) : std::string("-")));
}
static PropReg p08({"R08", r08, 7000, 120000, "one run = one or two program lives, with or without an older file holding small or very large totals; after each save every rate and table row is recomputed from the counters in the file; non-trivial: a save completed after more than two trials", REAL, STUB});

// ================= R09: the Octave/Matlab loader as a reader
struct MxNode { std::vector<double> d; std::vector<std::pair<std::string, MxNode *>> f; std::string s; bool st = false; };
static jmp_buf mex_jmp; static bool mex_jmp_ok; static std::string mex_err;
extern "C" {
char *mxArrayToString(const mxArray *a) { return (char *)((MxNode *)a)->s.c_str(); } // released by Octave/Matlab when the call ends
void mxFree(void *) {}
mxArray *mxCreateStructMatrix(int m, int n, int nf, const char **keys) { if (m != 1 || n != 1) violate("loader-bad-size", "a structure array of %d x %d instead of a scalar structure", m, n); MxNode *x = new MxNode; x->st = true; for (int i = 0; i < nf; i++) x->f.push_back({keys[i], nullptr}); return (mxArray *)x; }
void mxSetFieldByNumber(mxArray *a, int i, int f, mxArray *v) { MxNode *x = (MxNode *)a; if (i != 0) violate("loader-bad-field", "element %d of a scalar structure set", i); if (f < 0 || f >= (int)x->f.size()) violate("loader-bad-field", "field number %d set", f); x->f[f].second = (MxNode *)v; }
void mxSetField(mxArray *a, int i, const char *name, mxArray *v) { if (i != 0) violate("loader-bad-field", "element %d of a scalar structure set", i); MxNode *x = (MxNode *)a; for (auto &q : x->f) if (q.first == name) q.second = (MxNode *)v; }
mxArray *mxCreateDoubleScalar(double v) { MxNode *x = new MxNode; x->d = {v}; return (mxArray *)x; }
mxArray *mxCreateDoubleMatrix(int m, int n, mxComplexity) { if (m < 0 || n < 0) violate("loader-bad-size", "matrix %d x %d", m, n); MxNode *x = new MxNode; x->d.assign((size_t)m * n, 0.0); return (mxArray *)x; }
double *mxGetPr(const mxArray *a) { return ((MxNode *)a)->d.data(); }
mxArray *mxCreateString(const char *s) { MxNode *x = new MxNode; x->s = s; return (mxArray *)x; }
void mxDestroyArray(mxArray *) {}
const char *mexFunctionName(void) { return "loadsrf"; }
int mexPrintf(const char *f, ...) { return 0; }
void mexWarnMsgTxt(const char *) {}
void mexErrMsgTxt(const char *m) { mex_err = m; if (!mex_jmp_ok) violate("loader", "error outside a call"); longjmp(mex_jmp, 1); }
}
struct LoadRes { bool err = false; MxNode *r = nullptr; };
static LoadRes load_now(const std::string &path, int nargs = 1) {
  LoadRes o;
  MxNode in; in.s = path;
  const void *prhs[1] = {&in}; void *plhs[2] = {nullptr, nullptr};
  static int vol; vol = 0;
  mex_jmp_ok = true;
  if (setjmp(mex_jmp) == 0) { InSut s; cur->img->mexFunction(1, plhs, nargs, prhs); }
  else o.err = true;
  sh->in_sut = 0;
  mex_jmp_ok = false;
  o.r = (MxNode *)plhs[0];
  if (!o.r) o.err = true;
  return o;
}
static bool load_equals(MxNode *r, const ResFile &f, std::string &why) {
  static const char *keys[] = {"n", "k", "EbNo", "BER", "WER", "ERR", "MLER"};
  std::map<std::string, MxNode *> m;
  for (auto &q : r->f) m[q.first] = q.second;
  for (auto k : keys) if (!m.count(k) || !m[k]) { why = std::string("field ") + k + " is missing"; return false; }
  if (m["n"]->d != std::vector<double>{(double)f.n} || m["k"]->d != std::vector<double>{(double)f.k}) { why = "wrong n or k"; return false; }
  for (int i = 2; i < 7; i++) if (m[keys[i]]->d.size() != f.e.size()) { why = sf("%s has %zu values for %zu entries", keys[i], m[keys[i]]->d.size(), f.e.size()); return false; }
  auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-9 * std::fabs(b) + 1e-300; };
  for (size_t i = 0; i < f.e.size(); i++) {
    const Counts &c = f.e[i].c; double t = c.trn;
    double v[5] = {f.e[i].snr, t > 0 ? c.enb / (t * f.k) : 0, t > 0 ? c.enbl / t : 0, t > 0 ? c.er / t : 0, c.mltrn > 0 ? (double)c.enml / c.mltrn : 0};
    for (int j = 0; j < 5; j++) if (!near(m[keys[j + 2]]->d[i], v[j])) { why = sf("%s[%zu] = %.9g, the file's counters give %.9g", keys[j + 2], i, m[keys[j + 2]]->d[i], v[j]); return false; }
  }
  return true;
}
int load_check(const std::string &path, std::string &why) { // 0: the file's data, 1: refused, 2: something else
  LoadRes o = load_now(path);
  if (o.err) return 1;
  InodeP i = vfs.get(path);
  ResFile f = parse_res(i ? i->data : "");
  if (!f.ok) { why = "data returned for an unreadable file"; return 2; }
  return load_equals(o.r, f, why) ? 0 : 2;
}
static std::vector<std::pair<uint64_t, std::string>> g_versions; // every content the results file ever had
static void r09() {
  common_setup();
  W.base.clear(); W.res = res_name("live.srf");
  int n = 2 * (1 + choose(SW, 6)), k = 1 + choose(SW, (uint32_t)n);
  bool big = choose(SW, 2);
  if (choose(SW, 2)) { std::vector<std::string> v; int q = 1 + choose(SW, 5); for (int i = 0; i < q; i++) v.push_back(snr_text(SW, 2)); gen_base(W.res, n, k, v, big); }
  int m = 1 + choose(SW, 2);
  for (int i = 0; i < m; i++) {
    Spec s = gen_spec(sf("run%d.spf", i), W.res, 4, 8, 4);
    s.n = n; s.k = k; render_spec(s, false); install(s);
    Life *l = new_life(s); script(l); l->cap = 12; l->cost = pick(SW, std::vector<int64_t>{400000, 1200000, 30000});
    start_main(l, "stub", i, choose(SW, 2), choose(SW, 3), choose(SW, 2), choose(SW, 3) * 100000ll);
  }
  fsf.stall = pick(SW, std::vector<int>{0, 60, 200}); fsf.stall_max_s = 3;
  fsf.short_read = 100;
  static int loads, good; loads = good = 0;
  static uint64_t vseq; vseq = 0;
  // contents the file has had, to compare loads with: recorded whenever a loader's or a run's operation may have changed it
  static auto snap = [&]() { InodeP i = vfs.get(W.res); std::string d = i ? i->data : "\1absent"; if (g_versions.empty() || g_versions.back().second != d) g_versions.push_back({++vseq, d}); };
  snap();
  on_mutation = [](Node *nd, const char *, const std::string &p, InodeP) { snap(); };
  Node *ld = new_node(image("load", 0), nullptr, choose(SW, 4) * 500000ll);
  int nl = 3 + choose(SW, 10);
  ld->body = [nl]() {
    Harness h;
    for (int i = 0; i < nl; i++) {
      snap();
      size_t v0 = g_versions.size() - 1;
      LoadRes o = load_now(W.res);
      snap();
      loads++;
      cnt("probe.loads");
      bool ok = false; std::string why;
      for (size_t j = v0; j < g_versions.size() && !ok; j++) {
        const std::string &d = g_versions[j].second;
        if (d == "\1absent") { if (o.err) { ok = true; } continue; }
        ResFile f = parse_res(d);
        if (!f.ok) continue;
        if (!o.err && load_equals(o.r, f, why)) { ok = true; good++; }
      }
      ev("n%d load %d -> %s", cur->id, i, o.err ? "error" : "data");
      if (!ok) violate("wrong-load", o.err ? "loading the results file failed (%s) although a complete file existed all the time" : "the loaded data equal no complete content the file had during the load: %s", o.err ? mex_err.c_str() : why.c_str());
      node_sleep(choose(SS, 1500000));
    }
    cur->exit_code = 0;
  };
  run_world();
  on_mutation = nullptr;
  // a last load when all is quiet
  fsf = FsFaults();
  sh->nontrivial = good > 0 && g_versions.size() > 3;
  describe(sf("%d runs saving while the loader reads %d times (%d with data), %zu contents seen", m, loads, good, g_versions.size()));
}
static PropReg p09({"R09", r09, 6000, 100000, "one run = one or two program lives saving while the Octave/Matlab loader reads the file at random moments (short reads, stalls); non-trivial: a load returned data and the file changed at least three times", "loadsrf.c, ui_octave_txt.c, spf_par.c as the reader; main_txt.c, sim_bg.c as the writers", "MEX interface, codec, file system, clocks, rand(), allocator"});

// ================= R10: the loader and files of any origin
static void r10() {
  common_setup();
  static int good, refused; good = refused = 0; static std::string d; d.clear();
  Node *ld = new_node(image("load", 0), nullptr, 0);
  int nl = 2 + choose(SW, 8);
  fsf.short_read = choose(SW, 2) * 100;
  ld->body = [nl]() {
    Harness h;
    for (int t = 0; t < nl; t++) {
      // what the file means
      int n = 1 << choose(SW, 11), k = 1 + choose(SW, (uint32_t)n);
      int m = choose(SW, 8) == 7 ? (choose(SW, 2) ? 50 : 40 + (int)choose(SW, 11)) : choose(SW, 8);
      bool big = choose(SW, 2), zeros = choose(SW, 3) == 2, old = choose(SW, 4) == 3;
      std::vector<ResEntry> e;
      for (int i = 0; i < m; i++) {
        ResEntry q; q.txt = m > 12 ? sf("%.2f", -3 + i * 0.25) : snr_text(SW, (int)choose(SW, 5)); q.snr = atof(q.txt.c_str());
        auto val = [&](long hi) { return big ? (long)choose(SW, 2147483647u) % (hi + 1) : (long)choose(SW, (uint32_t)std::min(hi, 1000000l) + 1); };
        q.c.trn = zeros && choose(SW, 2) ? 0 : 1 + val(big ? 2147483646 : 5000);
        q.c.enb = val(2147483647); q.c.enbl = val(q.c.trn); q.c.er = old ? 0 : val(q.c.trn);
        q.c.mltrn = choose(SW, 2) ? 0 : val(q.c.trn); q.c.enml = q.c.mltrn ? val(q.c.mltrn) : 0;
        e.push_back(q);
      }
      // its text
      std::string txt = make_res(n, k, e);
      std::vector<std::string> ls; std::string tail;
      for (size_t p = 0; p < txt.size();) { size_t q = txt.find('\n', p); if (q == std::string::npos) q = txt.size(); std::string l = txt.substr(p, q - p); if (l[0] == '%') { tail = txt.substr(p); break; } if (!l.empty()) ls.push_back(l); p = q + 1; }
      auto is = [](const std::string &l, const char *g) { return l.compare(0, strlen(g) + 1, std::string(g) + " ") == 0; };
      auto del = [&](const char *g) { for (size_t i = 0; i < ls.size(); i++) if (is(ls[i], g)) { ls.erase(ls.begin() + i); return; } };
      if (old) { del("erasures_num"); del("ERR"); cnt("probe.file_without_erasures"); }
      if (choose(SW, 3) == 2) for (const char *g : {"WER", "ERR", "MLER"}) if (choose(SW, 2)) del(g);
      if (choose(SW, 3) == 2) { cnt("probe.groups_in_another_order"); for (size_t i = ls.size(); i-- > 1;) std::swap(ls[i], ls[choose(SW, (uint32_t)i + 1)]); }
      if (choose(SW, 4) == 3) ls.insert(ls.begin() + choose(SW, (uint32_t)ls.size() + 1), pick(SW, std::vector<std::string>{"note { a b 3 }", "date 17", "% made by hand { 1 2", "SNR_unit dB", "tr_num_old { }"}));
      // what is wrong with it
      int kind = choose(SF, 15); std::string what = "nothing"; bool wrong = false, clear = true, there = true, missing_args = false;
      auto at = [&](const char *g) { for (size_t i = 0; i < ls.size(); i++) if (is(ls[i], g)) return (int)i; return -1; };
      static const char *need[] = {"SNR", "tr_num", "en_bit", "en_bl", "ml_tr_num", "enml_bl", "erasures_num"};
      const char *g = need[choose(SF, 7)]; int gi = at(g);
      if (kind == 0) { const char *c = choose(SF, 2) ? "code_n" : "code_k"; del(c); wrong = true; what = std::string(c) + " missing"; }
      else if (kind == 1 && m && strcmp(g, "erasures_num")) { del(g); wrong = true; what = std::string(g) + " missing"; }
      else if (kind == 2 && gi >= 0 && m && !(m == 1 && !strcmp(g, "erasures_num"))) { std::string &l = ls[gi]; size_t p = l.find('{') + 2; int skip = choose(SF, (uint32_t)m); while (skip--) p = l.find(' ', p) + 1; l.erase(p, l.find(' ', p) - p + 1); wrong = true; what = std::string("a value too few in ") + g; }
      else if (kind == 3 && gi >= 0) { std::string &l = ls[gi]; l.insert(l.find('}'), "3 "); wrong = true; what = std::string("a value too many in ") + g; }
      else if (kind == 4 && m) { size_t f = 0; std::string t; for (auto &l : ls) t += l + "\n"; size_t lo = std::string::npos, hi = 0; for (const char *q : need) if (strcmp(q, "erasures_num") && at(q) >= 0) { size_t p = t.find("\n" + std::string(q) + " "); p = p == std::string::npos ? 0 : p + 1; lo = std::min(lo, p); hi = std::max(hi, t.find('}', p)); } f = lo + 1 + choose(SF, (uint32_t)(hi - lo)); ls = {t.substr(0, f)}; if (choose(SF, 2)) ls[0] += std::string(t.size() - f, '\0'); tail.clear(); wrong = true; what = sf("cut after %zu bytes", f); }
      else if (kind == 5) { std::vector<ResEntry> x; int q = 51 + choose(SF, 20); for (int i = 0; i < q; i++) { ResEntry y; y.txt = sf("%d", i); y.c.trn = 9; x.push_back(y); } ls = {make_res(n, k, x)}; tail.clear(); wrong = true; what = sf("%d entries", q); }
      else if (kind == 6 && gi >= 0 && m) { ls[gi] = std::string(g) + " 7"; wrong = true; what = std::string(g) + " without braces"; }
      else if (kind == 7) { there = choose(SF, 2); wrong = true; what = there ? "not permitted" : "no file"; }
      else if (kind == 8) { wrong = clear = false; what = "random damage"; }
      else if (kind == 9) { missing_args = true; wrong = true; what = "no argument"; }
      else if (kind == 11 && gi >= 0 && m) { // a value that is no number
        std::string &l = ls[gi]; size_t p = l.find('{') + 2; int skip = choose(SF, (uint32_t)m); while (skip--) p = l.find(' ', p) + 1;
        std::string t = no_number(SF, strcmp(g, "SNR")); l.replace(p, l.find(' ', p) - p, t); wrong = true; what = "value '" + t + "' in " + g;
      }
      else if (kind == 12) { const char *c = choose(SF, 2) ? "code_n" : "code_k"; int i = at(c); if (i >= 0) { std::string t = no_number(SF, true); ls[i] = std::string(c) + " " + t; wrong = true; what = std::string(c) + " " + t; } }
      else if (kind == 10 && gi >= 0 && m) { std::string &l = ls[gi]; l.erase(l.find('}'), 1); wrong = true; clear = false; what = std::string(g) + " not closed"; }
      txt.clear(); for (auto &l : ls) txt += l + (choose(SW, 16) == 15 ? "\r\n" : "\n");
      txt += tail;
      if (kind == 8) { clear = false; int c = 1 + choose(SF, 6); for (int i = 0; i < c && !txt.empty(); i++) { size_t p = choose(SF, (uint32_t)txt.size()); int q = choose(SF, 4); if (q == 0) txt[p] = (char)choose(SF, 256); else if (q == 1) txt.erase(p, 1 + choose(SF, 20)); else if (q == 2) txt.insert(p, std::string(1 + choose(SF, 6), "{} %x\n\1"[choose(SF, 7)])); else txt = txt.substr(0, p + 1); } }
      if (wrong || !clear) cnt("fault.damaged_file_loaded");
      vfs.rm("any.srf");
      if (there) { vfs.put("any.srf", txt); if (kind == 7) vfs.get("any.srf")->unreadable = true; }
      LoadRes o = load_now("any.srf", missing_args ? 0 : 1);
      ev("n%d load %d of a file with %d entries (%s) -> %s", cur->id, t, m, what.c_str(), o.err ? "error" : "data");
      d += sf("%d entries, wrong: %s -> %s; ", m, what.c_str(), o.err ? "error" : "data");
      cnt("probe.loads");
      if (!clear) continue; // whatever it is taken for, nothing is overrun
      if (wrong) { if (!o.err) violate("damaged-file-loaded", "a file with %d entries and something wrong (%s) was loaded as if it were complete", m, what.c_str()); refused++; continue; }
      ResFile f; f.n = n; f.k = k; f.e = e; std::string why;
      if (o.err) violate("load-refused", "a complete file with %d entries was refused (%s)", m, mex_err.c_str());
      if (!load_equals(o.r, f, why)) violate("wrong-load", "the loaded data are not those of the file: %s", why.c_str());
      good++;
    }
    cur->exit_code = 0;
  };
  run_world();
  sh->nontrivial = good > 0 && refused > 0;
  describe(d);
}
static PropReg p10({"R10", r10, 9000, 150000, "one run = one session of the Octave/Matlab loader reading 2-9 files one after another: complete ones with 0-50 entries in any layout and order, with and without erasure counts, with entries without trials, and ones with missing, short, long or unclosed groups, cut, too long, unreadable, absent or damaged at random; non-trivial: a file was loaded and one refused", "loadsrf.c, ui_octave_txt.c, spf_par.c", "MEX interface, file system, allocator"});
