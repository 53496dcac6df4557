// Simulation properties S01..S10 and parameter files P01: single program lives (and a few side by side), all codecs.
#include "runs.h"

static const char *REAL = "main_txt.c, sim_bg.c, spf_par.c, ui_txt.c, srm_utils.c and, in the runs that use a real codec, the codec programs' encoders and decoders (unmodified, compiled from the working tree)";
static const char *STUB = "codec in the other runs (scripted stand-in), file system, clocks, allocator, terminal";

int load_check(const std::string &path, std::string &why);

// ---- lives with the stand-in codec or one of the real ones
static const char *gen_img(Spec &s, int stub_num, int stub_den, int maxm = 3) { // picks the program; fills in the codec parameters
  if (chance(SW, stub_num, stub_den)) return "stub";
  const char *img = pick_codec_img();
  CfgOpt o; o.maxm = maxm;
  CodecCfg c = gen_codec(img, o);
  s.n = c.n; s.k = c.k; s.extra = c.items;
  return img;
}
static bool no_codec(const char *img) { return !strcmp(img, "stub") || !strcmp(img, "own"); }
static const char *own_rnd(const char *img, int num, int den) { // the program with its own random generator, at times
  if (strcmp(img, "stub") || !have_image("own") || !chance(SW, num, den)) return img;
  cnt("probe.own_random_generator");
  return "own";
}
static void low_snr(Spec &s, const char *img) { // so that a real decoder errs now and then
  if (no_codec(img)) return;
  for (auto &p : s.pts) if (p.snr > 4) { p.snr = 4 - 0.25 * (&p - &s.pts[0]); p.txt = sf("%.2f", p.snr); p.snr = atof(p.txt.c_str()); }
  std::vector<Point> v; std::set<double> u;
  for (auto &p : s.pts) if (u.insert(p.snr).second) v.push_back(p);
  s.pts = v;
}
struct HOpts { int slices = 1000000, ri = 1000000, saves = 0; bool nr = true; };
static Node *start_held(Life *l, const char *img, int copy, HOpts o, int64_t t0) { // run held in the hands of an embedding program
  Node *n = new_node(image(img, copy), nullptr, t0);
  n->user = l; l->node = n;
  n->body = [l, o]() {
    Harness h;
    void *inst = nullptr;
    cur->exit_code = 1;
    if (c_init(l->spec.spf, o.ri, o.nr, &inst) != 0) return;
    int r; do { r = c_run(inst); if (r == 17 && o.saves && chance(SW, o.saves, 100)) c_save(inst); } while (r == 17);
    int s = c_save(inst);
    c_close(inst);
    cur->exit_code = r == 0 && s == 0 ? 0 : 1;
  };
  ev("n%d held start", n->id);
  return n;
}
static ResFile file_of(const std::string &res) { InodeP i = vfs.get(res); ResFile f; if (!i) { f.why = "no file"; return f; } return parse_res(i->data); }
static void need_acc(const char *what, const std::string &res, const Acc &want) {
  ResFile f = file_of(res);
  if (!f.ok) { if (want.empty() && !vfs.get(res)) return; violate("unreadable-results", "%s: the results file cannot be read: %s", what, f.why.c_str()); }
  std::string why;
  if (!acc_same(acc_of(f), want, why)) violate("wrong-totals", "%s: %s", what, why.c_str());
}
static Acc acc_life(const Life *l, const Acc &base) { Acc a = base; acc_add(a, l->spec, l->truth); return a; }

// ================= S01
static void s01() {
  common_setup();
  Spec s = gen_spec("ref.spf", "ref.srf", 4, 20, 6);
  const char *img = own_rnd(gen_img(s, 1, 2, rc.thorough ? 4 : 3), 1, 4);
  low_snr(s, img);
  Acc base; std::string based;
  if (chance(SW, 1, 4)) { based = gen_base("ref.srf", s.n, s.k, {s.pts[0].txt, "-7"}, false); base = acc_of(parse_res(based)); }
  render_spec(s, false); install(s);
  Life *ref = new_life(s); script(ref);
  ref->det_seed = 1 + choose(SW, 0x7ffffffe); ref->cost = 1000; ref->cap = 15 + choose(SW, 60);
  start_held(ref, img, 0, HOpts(), 0);
  run_world();
  if (!ref->inited) violate("init-refused", "a valid parameter file was refused: %s", s.text.c_str());
  Acc want = acc_life(ref, base);
  need_acc("after the undisturbed run", "ref.srf", want);
  int m = 1 + choose(SW, 2);
  fsf.stall = pick(SF, std::vector<int>{0, 30, 200}); fsf.stall_max_s = pick(SF, std::vector<int>{40, 2});
  fsf.short_read = pick(SF, std::vector<int>{0, 200}); fsf.short_write = pick(SF, std::vector<int>{0, 200});
  skew_events();
  std::string d;
  int64_t t0 = g_now + 1000;
  for (int i = 0; i < m; i++) {
    Spec q = s; q.spf = sf("v%d.spf", i); q.res = sf("v%d.srf", i);
    render_spec(q, false); install(q);
    if (!based.empty()) vfs.put(q.res, based);
    Life *l = new_life(q);
    l->perr = ref->perr; l->per_er = ref->per_er; l->cap = ref->cap; l->det_seed = ref->det_seed;
    l->cost = pick(SW, std::vector<int64_t>{300000, 1100000, 50000, 2500000, 9000000, 700});
    if (choose(SW, 2)) l->cost_jit = 1 + choose(SW, 3000000);
    if (choose(SW, 3) == 2) { l->slow_trial = choose(SW, 30); l->slow_us = 20000000; }
    int ri = RI[choose(SW, 4)], si = SI[choose(SW, 6)];
    int64_t t = t0 + choose(SW, 4) * 400000ll;
    if (choose(SW, 3) == 2) { HOpts o; o.ri = ri; o.saves = 30; start_held(l, img, 1 + i, o, t); d += sf("[held ri=%d] ", ri); }
    else { start_main(l, img, 1 + i, true, si, ri, t); d += sf("[si=%d ri=%d] ", si, ri); }
  }
  if (chance(SW, 1, 4)) { Spec q = gen_spec("other.spf", "other.srf", 2, 10, 4); render_spec(q, false); install(q); Life *l = new_life(q); script(l); start_main(l, "stub", 7, choose(SW, 2), choose(SW, 3), choose(SW, 3), t0); }
  run_world();
  fsf = FsFaults();
  int runs = 0;
  for (int i = 1; i <= m; i++) {
    Life *l = lives[i].get();
    if (!l->inited) violate("init-refused", "a valid parameter file was refused");
    runs += l->runs;
    for (size_t j = 0; j < std::max(l->th.size(), ref->th.size()); j++) {
      if (j >= l->th.size()) violate("trials-missing", "the undisturbed run made %zu trials, this one %zu", ref->th.size(), l->th.size());
      if (j >= ref->th.size()) violate("trials-added", "the undisturbed run made %zu trials, this one %zu", ref->th.size(), l->th.size());
      if (l->th[j] != ref->th[j]) violate("different-trial", "trial %zu differs from the undisturbed run's (point %d there, %d here; %s)", j, ref->order[j], l->order[j], img);
    }
    need_acc("after the disturbed run", l->spec.res, want);
    if (l->node->exit_code != 0) violate("bad-exit", "the program ended with code %d", l->node->exit_code);
  }
  sh->nontrivial = runs >= 2 + m && ref->th.size() >= 4;
  describe(sf("%s, %zu trials: ", img, ref->th.size()) + d + spec_str(s));
}
static PropReg ps01({"S01", s01, 4500, 60000, "one run = an undisturbed life and one or two lives of the same parameter file with other trial durations, intervals, stalls, clock jumps, neighbours; all trials are compared; non-trivial: the disturbed lives were interrupted at least once and made four trials", REAL, STUB});

// ================= S02
static void check_effort(Life *l) {
  const Spec &s = l->spec;
  size_t m = s.pts.size();
  std::vector<int> en(m, 0), tr(m, 0); std::vector<long> T(m, -1);
  int at = 0;
  for (size_t j = 0; j < l->order.size(); j++) {
    int p = l->order[j];
    if (p != at) {
      if (p != at + 1) violate("wrong-order", "trial %zu is for SNR value number %d after number %d", j, p, at);
      if (T[at] < 0) violate("left-too-early", "%s dB was left after %d trials with %d word errors; %d trials and %d errors were requested", s.pts[at].txt.c_str(), tr[at], en[at], s.req(at), s.minerr());
      at = p;
    }
    tr[p]++; if (l->errs[j]) en[p]++;
    if (T[p] < 0 && tr[p] >= s.req(p) && en[p] >= s.minerr()) T[p] = tr[p];
    if (T[p] >= 0) { long lim = std::max<long>(s.req(p), (3 * T[p]) / 2 + 2); if (tr[p] > lim) violate("too-many-trials", "%s dB: trial %d made although requests (%d trials, %d errors) were met after %ld trials", s.pts[p].txt.c_str(), tr[p], s.req(p), s.minerr(), T[p]); }
  }
}
static void check_effort_end(Life *l) {
  const Spec &s = l->spec;
  check_effort(l);
  for (size_t i = 0; i < s.pts.size(); i++) {
    const Counts &c = l->truth[i];
    if (c.trn < s.req(i) || c.enbl < s.minerr()) violate("left-too-early", "%s dB ended with %ld trials and %ld word errors; %d and %d were requested", s.pts[i].txt.c_str(), c.trn, c.enbl, s.req(i), s.minerr());
  }
}
static void s02() {
  common_setup();
  static const int MT[] = {25, 80, 6, 200}, ME[] = {8, 70, 30, 3};
  Spec s = gen_spec("run.spf", "out.srf", 5, MT[choose(SW, 4)], ME[choose(SW, 4)]);
  const char *img = gen_img(s, 5, 6);
  low_snr(s, img);
  bool huge = !strcmp(img, "stub") && chance(SW, 1, 8); // more is requested than will ever be simulated
  if (huge) {
    static const int H[] = {2147483647, 1000000000, 30000000, 600000, 200000000, 6000000};
    int h = H[choose(SW, 6)]; h -= choose(SW, 1000); int w = choose(SW, 3);
    if (w != 1) s.min_err = h; if (w != 0) { s.min_trn = h; for (auto &p : s.pts) if (p.trn_req > 1 && choose(SW, 2)) p.trn_req = h; }
    cnt("probe.huge_requests");
  }
  render_spec(s, chance(SW, 1, 3)); install(s);
  Life *l = new_life(s); script(l);
  static const int pe[] = {8, 1, 2, 32, 60, 20, 4, 64};
  l->perr = pe[choose(SW, 8)];
  l->cap = 50 + choose(SW, 600);
  l->cost = pick(SW, std::vector<int64_t>{100000, 300000, 1000, 1200000}); if (choose(SW, 2)) l->cost_jit = 400000;
  skew_events();
  int ri = RI[choose(SW, 4)], si = SI[2 + choose(SW, 4)];
  start_main(l, img, 0, choose(SW, 2), si, ri, 0);
  g_step_limit = 6000000;
  if (huge) { int most = 30 + choose(SW, 5000); l->on_trial = [most](Life *l, const double *, const double *, int) { if (l->trials >= most) kill_node(l->node, "enough seen"); }; }
  run_world();
  if (!l->inited) violate("init-refused", "a valid parameter file was refused");
  if (huge && l->node->st == NS_KILLED) check_effort(l);
  else check_effort_end(l);
  if (l->node->st != NS_KILLED && l->node->exit_code != 0) violate("bad-exit", "the program ended with code %d", l->node->exit_code);
  sh->nontrivial = l->runs > 1 && l->trials >= 5;
  describe(sf("%s perr=%d/64 cap=%d si=%d ri=%d: %lld trials in %d slices; ", img, l->perr, l->cap, si, ri, (long long)l->trials, l->runs) + spec_str(s));
}
static PropReg ps02({"S02", s02, 6000, 90000, "one run = one program life with random requests (up to 200 trials and 70 errors per SNR value), error probabilities from 1/64 to 1, slice lengths and clock jumps; the sequence of trials is checked against the requests; non-trivial: more than one slice and five trials", REAL, STUB});

// ================= S03
static void s03() {
  common_setup();
  Spec s = gen_spec("run.spf", "out.srf", 3, 25, 8);
  if (choose(SW, 3)) { s.ml = choose(SW, 2); s.mlhd = !s.ml || choose(SW, 2); }
  const char *img = gen_img(s, 1, 2, 4);
  low_snr(s, img);
  render_spec(s, false); install(s);
  Life *l = new_life(s); script(l);
  static const int pe[] = {20, 8, 40, 60, 64, 2};
  l->perr = pe[choose(SW, 6)]; l->per_er = pick(SW, std::vector<int>{0, 16, 48, 64});
  l->cap = 30 + choose(SW, 60);
  l->cost = pick(SW, std::vector<int64_t>{300000, 1000, 900000});
  std::string res = resp(s);
  l->after_save = [res](Life *l, SaveRec &sr) { if (sr.rc != 0) violate("save-refused", "saving failed with code %d although nothing was wrong", sr.rc); need_acc("after a save", res, acc_life(l, Acc())); };
  start_main(l, img, 0, choose(SW, 2), SI[choose(SW, 5)], RI[choose(SW, 3)], 0);
  run_world();
  if (!l->inited) violate("init-refused", "a valid parameter file was refused");
  need_acc("at the end", res, acc_life(l, Acc()));
  Counts c = l->total_truth();
  if (c.enml) cnt("probe.runs_with_ml_errors");
  if (c.er) cnt("probe.runs_with_erasures");
  if (c.enbl && c.mltrn > c.enml) cnt("probe.runs_with_ml_right");
  sh->nontrivial = c.enbl > 0 && c.trn > c.enbl;
  describe(sf("%s perr=%d erasures=%d: %s; ", img, l->perr, l->per_er, c.str().c_str()) + spec_str(s));
}
static PropReg ps03({"S03", s03, 6000, 90000, "one run = one program life with random options and outcomes (right, wrong, erased, erased and wrong), all codecs; after each save every counter equals the independent judge's; non-trivial: right and wrong decodings occurred", REAL, STUB});

// ================= S04
struct NoiseStat { std::vector<double> z; std::vector<int> bits; };
static void s04() {
  common_setup();
  if (choose(SW, 2)) g_epoch = 1000000000ll + choose(SW, 2000000000);
  int mode = choose(SW, 3); // 0: statistics, else: many configurations, values only
  size_t want_n = 4800;
  Spec s = gen_spec("run.spf", "out.srf", mode ? 6 : 2, 10, 3);
  const char *img = own_rnd(gen_img(s, mode ? 1 : 2, mode ? 2 : 3, 4), 1, 3);
  if (mode) {} else { if (no_codec(img)) { s.n = 8 * (1 + (int)choose(SW, 4)); if (chance(SW, 1, 12)) { s.n = 2000; want_n = chance(SW, 1, 8) ? 4000000 : 400000; s.pts.resize(1); } s.k = 1 + choose(SW, (uint32_t)s.n); } s.val_trn = false; s.min_trn = (int)(want_n / s.n); s.min_err = 1; s.ml = s.mlhd = false; }
  low_snr(s, img);
  render_spec(s, false); install(s);
  Life *l = new_life(s); script(l);
  l->cap = mode ? 20 : 100000; if (!mode) { l->perr = 16; }
  if (!mode) { l->cap = (int)(want_n / s.n); }
  l->cost = pick(SW, std::vector<int64_t>{300000, 3000, 1200000});
  double R = s.fixedR ? atof(sf("%.6g", s.fixedR).c_str()) : (double)s.k / s.n;
  static NoiseStat st; st = NoiseStat();
  std::vector<double> cwb(s.n);
  CodecCfg cfg; // reference encoder of the code
  l->on_trial = [&](Life *l, const double *cin, const double *rx, int pt) {
    double want = 1 / sqrt(2 * R * pow(10.0, s.pts[pt].snr / 10));
    if (l->sg_set && fabs(l->sg - want) > 1e-9 * want) violate("wrong-noise-level", "at %s dB the decoder was told the noise level %.12g instead of %.12g", s.pts[pt].txt.c_str(), l->sg, want);
    bool same = true;
    for (int i = 0; i < s.n; i++) {
      double z = (rx[i] - cin[i]) / want;
      if (!std::isfinite(rx[i])) violate("not-a-number", "the vector handed to the decoder holds %g", rx[i]);
      if (fabs(z) > 12) violate("wrong-noise", "at %s dB a received value deviates from the transmitted one by %.1f times the noise level", s.pts[pt].txt.c_str(), z);
      same = same && fabs(z) < 1e-4;
      st.z.push_back(z);
    }
    if (same) violate("no-noise", "at %s dB nothing was added to the transmitted codeword", s.pts[pt].txt.c_str());
    if (s.rnd) for (int b : l->x) st.bits.push_back(b);
    else for (int i = 0; i < s.n; i++) if (cin[i] != -1.0) violate("wrong-codeword", "not the all-zero codeword");
  };
  start_main(l, img, 0, chance(SW, 1, 4), SI[2 + choose(SW, 4)], RI[choose(SW, 4)], 0);
  g_step_limit = 20000000;
  run_world();
  if (!l->inited) violate("init-refused", "a valid parameter file was refused");
  // moments and dependences
  const std::vector<double> &z = st.z; size_t N = z.size();
  auto test = [&](const char *what, double sum, double mean, double var, double lim) {
    double d = (sum - mean) / sqrt(var);
    if (fabs(d) > lim) violate("wrong-distribution", "%s is %.1f standard deviations off over %zu noise values (%s)", what, d, N, img);
  };
  if (N >= 1500) {
    double s1 = 0, s2 = 0, c1 = 0, c2 = 0, cn = 0, sg = 0; size_t n = s.n;
    long a05 = 0, a1 = 0, a2 = 0, a3 = 0, pos = 0;
    for (size_t i = 0; i < N; i++) {
      double v = z[i], a = fabs(v);
      s1 += v; s2 += v * v; a05 += a < 0.5; a1 += a < 1; a2 += a < 2; a3 += a > 3; pos += v > 0;
      if (i + 1 < N) c1 += v * z[i + 1]; if (i + 2 < N) c2 += v * z[i + 2]; if (i + n < N) cn += v * z[i + n];
      (void)sg;
    }
    test("the mean", s1, 0, N, 8); test("the variance", s2, N, 2.0 * N, 9);
    auto bin = [&](const char *w, long k, double p) { test(w, k, N * p, N * p * (1 - p) + 4, 9); };
    bin("the share within 0.5 deviations", a05, 0.382924922548); bin("the share within 1 deviation", a1, 0.682689492137); bin("the share within 2 deviations", a2, 0.954499736104); bin("the share beyond 3 deviations", a3, 0.002699796063); bin("the share of positive values", pos, 0.5);
    test("the correlation of neighbouring values", c1, 0, N, 9); test("the correlation of values two apart", c2, 0, N, 9); test("the correlation of consecutive words", cn, 0, N, 9);
    if (n > 2) for (size_t i = 0; i < n; i++) { double q = 0; size_t k = 0; for (size_t j = i; j < N; j += n) { q += z[j] * z[j]; k++; } if (k > 100) test("the variance at one position", q, k, 2.0 * k, 9.5); }
    // tails: Chernoff's bound, at most e^-34 for one test
    for (double a : {2.5, 3.0, 3.25, 3.5, 3.72, 4.0, 4.25, 4.5, 4.75}) {
      double lam = N * erfc(a / sqrt(2)); double k = 0; for (double v : z) k += fabs(v) > a;
      double kl = (k > 0 ? k * log(k / lam) - k : 0) + lam;
      if (kl > 34) violate("wrong-distribution", "%.0f of %zu noise values are beyond %.2f deviations, %.1f expected (%s)", k, N, a, lam, img);
    }
    std::vector<uint64_t> u(N); size_t rep = 0;
    for (size_t i = 0; i < N; i++) memcpy(&u[i], &z[i], 8);
    std::sort(u.begin(), u.end()); for (size_t i = 1; i < N; i++) rep += u[i] == u[i - 1];
    if (N > 100000) cnt("probe.large_noise_samples");
    if (rep > N / 50) violate("repeated-noise", "%zu of %zu noise values repeat earlier ones", rep, N);
    const std::vector<int> &b = st.bits; size_t B = b.size();
    if (B >= 500) {
      long o = 0, e1 = 0, ek = 0; size_t k = s.k;
      for (size_t i = 0; i < B; i++) { o += b[i]; if (i + 1 < B) e1 += b[i] == b[i + 1]; if (i + k < B) ek += b[i] == b[i + k]; }
      test("the share of ones among information symbols", o, B / 2.0, B / 4.0, 8); test("the agreement of neighbouring information symbols", e1, (B - 1) / 2.0, B / 4.0, 8); test("the agreement of consecutive information words", ek, (B - k) / 2.0, B / 4.0, 8);
      if (B / k > 60) for (size_t i = 0; i < k; i++) { long q = 0, c = 0; for (size_t j = i; j < B; j += k) { q += b[j]; c++; } test("the share of ones at one information position", q, c / 2.0, c / 4.0, 8); }
      cnt("probe.statistics_of_information_words");
    }
    cnt("probe.statistics_of_noise");
  }
  cnt("probe.noise_values", N);
  sh->nontrivial = N >= 1500 || s.pts.size() > 1;
  describe(sf("%s R=%.4g: %zu noise values; ", img, R, N) + spec_str(s));
}
static PropReg ps04({"S04", s04, 3000, 50000, "one run = one program life; every vector handed to the decoder is compared with the transmitted one; every third run makes thousands of noise values and tests moments, shares, and correlations within and between words at seven or more standard deviations; non-trivial: at least 1500 noise values or two SNR values", REAL, STUB});

// ================= S05
static void s05() {
  common_setup();
  Spec s = gen_spec("run.spf", "out.srf", 4, 60, 20);
  const char *img = gen_img(s, 5, 6);
  low_snr(s, img);
  render_spec(s, false); install(s);
  Life *l = new_life(s); script(l);
  l->perr = pick(SW, std::vector<int>{8, 4, 2, 20}); l->cap = 60 + choose(SW, 120);
  l->cost = pick(SW, std::vector<int64_t>{500000, 60000, 1100000, 3300000, 12000000, 5000}); if (choose(SW, 2)) l->cost_jit = 2000000;
  if (choose(SW, 3) == 2) { l->slow_trial = choose(SW, 60); l->slow_us = 40000000; }
  static int si, ri; si = pick(SW, std::vector<int>{5, 0, 1, 20, 60, -1}); ri = pick(SW, std::vector<int>{0, 1, 3, 10, -1});
  fsf.stall = pick(SF, std::vector<int>{0, 30}); fsf.stall_max_s = 20;
  int esi = si < 0 ? 600 : si, eri = ri < 0 ? 10 : ri;
  int64_t mt = l->cost + l->cost_jit + (l->slow_trial >= 0 ? l->slow_us : 0);
  static int late; late = 0;
  l->on_trial = [=](Life *l, const double *, const double *, int) {
    size_t saved = 0; int64_t since = -1, dur = 0;
    for (auto &q : l->saves) if (q.done && q.rc == 0) { saved = 0; for (auto &c : q.snap) saved += c.trn; }
    if (saved >= l->order.size()) return;
    since = l->endt[saved];
    for (auto &q : l->saves) if (q.done && q.t1 > since) dur += q.t1 - q.t0;
    int64_t age = cur->t - since, lim = (esi + 2 + eri + 2) * 1000000ll + 2 * mt + dur;
    if (age > (esi + 1) * 1000000ll) late++;
    if (age > lim) violate("unsaved-for-too-long", "trial %zu ended %.1f s ago and is not in the results file (save interval %d s, return interval %d s, longest trial %.1f s, time spent saving %.1f s)", saved, age * 1e-6, esi, eri, mt * 1e-6, dur * 1e-6);
  };
  l->after_run = [=](Life *l) {
    int64_t d = cur->t - l->last_run_t0;
    if (d > (eri + 2) * 1000000ll + mt) violate("slice-too-long", "control came back after %.1f s (return interval %d s, longest trial %.1f s)", d * 1e-6, eri, mt * 1e-6);
  };
  static int64_t last_state; last_state = -1;
  l->on_state_str = [=](Life *l, const char *) {
    int64_t dur = 0;
    for (auto &q : l->saves) if (q.done && q.t1 > last_state) dur += q.t1 - q.t0;
    if (last_state >= 0 && cur->t - last_state > (eri + 3) * 1000000ll + mt + dur) violate("status-too-late", "the status was not shown for %.1f s", (cur->t - last_state) * 1e-6);
    last_state = cur->t;
    cnt("probe.status_lines");
  };
  start_main(l, img, 0, true, si, ri, 0);
  if (choose(SF, 3) == 2) { Node *nd = l->node; int64_t kt = choose(SF, 200) * 1000000ll; at(kt, [nd, l, esi, eri, mt]() {
    if (nd->st != NS_READY) return;
    cnt("fault.kill_at_time"); kill_node(nd, "killed");
    InodeP r = vfs.get(resp(l->spec));
    long have = 0; if (r) { ResFile f = parse_res(r->data); if (f.ok) for (auto &e : f.e) have += e.c.trn; }
    if (have > (long)l->order.size()) violate("wrong-totals", "the results file holds more trials than were made");
    int64_t dur = 0;
    if ((size_t)have < l->order.size()) {
      int64_t since = l->endt[have];
      for (auto &q : l->saves) dur += (q.done ? q.t1 : nd->t) - q.t0;
      if (nd->t - since > (esi + 2 + eri + 2) * 1000000ll + 2 * mt + dur) violate("lost-too-much", "the killed run lost %zu trials, the oldest made %.1f s before", l->order.size() - have, (nd->t - since) * 1e-6);
    } }); }
  run_world();
  fsf = FsFaults();
  if (!l->inited && !l->killed()) violate("init-refused", "a valid parameter file was refused");
  if (!l->killed()) { need_acc("at the end", resp(s), acc_life(l, Acc())); if (l->runs > 1 && last_state < 0) violate("no-status", "control came back %d times and no status was shown", l->runs); }
  sh->nontrivial = l->saves.size() > 1 || late > 0;
  describe(sf("%s si=%d ri=%d trial %.3f..%.3f s: %zu saves, %lld trials; ", img, esi, eri, l->cost * 1e-6, mt * 1e-6, l->saves.size(), (long long)l->trials) + spec_str(s));
}
static PropReg ps05({"S05", s05, 5000, 80000, "one run = one program life with random intervals (also the default ones), trial durations from 5 ms to 40 s and stalls, one in three killed at a random moment; at every trial the age of the oldest unsaved trial is checked; non-trivial: a save before the final one", REAL, STUB});

// ================= S06, S07: failures
static bool complete(const Life *l) { for (size_t i = 0; i < l->spec.pts.size(); i++) if (l->truth[i].trn < l->spec.req((int)i) || l->truth[i].enbl < l->spec.minerr()) return false; return true; }
static bool acc_alt(const Life *l, const Acc &base, const Acc &file) {
  for (auto &a : l->alt) { Acc w = base; acc_add(w, l->spec, a); std::string y; if (acc_same(file, w, y)) return true; }
  return false;
}
static void check_failed_life(Life *l, const Acc &base, bool strict_saved) { // what must hold after any life with failures inside
  std::string res = resp(l->spec);
  Node *n = l->node;
  bool fin = !l->saves.empty() && l->saves.back().done && l->saves.back().rc == 0;
  if (n->st != NS_DONE) return;
  if (n->exit_code == 0) {
    if (!l->inited) violate("failure-not-reported", "the program could not start but ended with code 0");
    if (l->run_failed || l->dec_failed || l->enc_failed) violate("failure-not-reported", "the simulation failed but the program ended with code 0");
    if (!fin) violate("failure-not-reported", "the final save failed but the program ended with code 0");
    if (!complete(l)) violate("failure-not-reported", "less than requested was simulated but the program ended with code 0");
    need_acc("after a life that ended with code 0", res, acc_life(l, base));
    return;
  }
  if (!l->inited) { need_acc("after a life that did not start", res, base); return; }
  if (strict_saved && l->saves.empty()) violate("not-saved", "the simulation failed after %zu trials and nothing was saved", l->order.size());
  Acc file; ResFile f = file_of(res);
  if (f.ok) file = acc_of(f);
  else if (vfs.get(res)) violate("unreadable-results", "after a failure the results file cannot be read: %s", f.why.c_str());
  // the last save that reported success
  const SaveRec *ok = nullptr;
  for (auto &s : l->saves) if (s.done && s.rc == 0) ok = &s;
  Acc w = base; if (ok) acc_add(w, l->spec, ok->snap);
  std::string why;
  if (!acc_same(file, w, why) && !(l->have_alt && acc_alt(l, base, file))) violate("wrong-totals", "after a failure: %s", why.c_str());
  if (fin && strict_saved) { why.clear(); if (!acc_same(file, acc_life(l, base), why) && !acc_alt(l, base, file)) violate("wrong-totals", "after a failure, trials made before it: %s", why.c_str()); }
}
static void s06() {
  common_setup();
  int kind = choose(SF, 8);
  Spec s = gen_spec("run.spf", "out.srf", 3, 12, 5);
  const char *img = kind == 2 ? "" : kind <= 1 ? "stub" : "";
  if (!*img) img = gen_img(s, kind == 2 ? 0 : 1, 2);
  if (kind == 1) { if (choose(SW, 2)) s.rnd = true; else s.ml = true; }
  low_snr(s, img);
  Acc base;
  if (choose(SW, 2)) { base = acc_of(parse_res(gen_base("out.srf", s.n, s.k, {s.pts[0].txt, "-9"}, false))); }
  std::string before = vfs.get("out.srf") ? vfs.get("out.srf")->data : "";
  render_spec(s, false);
  std::string what = "no failure";
  bool unusable = false;
  if (kind == 4 || kind == 5) {
    unusable = true;
    std::vector<std::string> L; { std::string c; int depth = 0; for (char ch : s.text) { if (ch == '{') depth++; if (ch == '}') depth--; if (ch == '\n' && !depth) { L.push_back(c); c.clear(); } else c += ch; } }
    auto drop = [&](const char *key) { std::string t; bool hit = false; for (auto &i : L) if (i.compare(0, strlen(key), key)) t += i + "\n"; else hit = true; s.text = t; return hit; };
    auto setp = [&](const std::string &key, const std::string &v) { std::string t; for (auto &i : L) t += (i.compare(0, key.size(), key) ? i : v) + "\n"; s.text = t; };
    std::vector<std::string> need = {"res_file", s.val_trn ? "SNR_val_trn" : "EbNo_values"};
    std::string im = img;
    if (im == "d0" || im == "d1") { need.push_back("RM_m"); need.push_back("RM_r"); }
    if (im == "glp") { need.push_back("RM_r"); need.push_back("border_node_mask"); need.push_back("border_node_lsize"); }
    if (im == "polar") { need.push_back("c_m"); need.push_back("info_bits_mask"); }
    int q = choose(SF, 8);
    std::string grp = s.val_trn ? "SNR_val_trn" : "EbNo_values";
    if (q <= 3) { std::string k = need[choose(SF, (uint32_t)need.size())]; if (!drop(k.c_str())) harness_error("no %s", k.c_str()); what = k + " missing"; }
    else if (q == 4) { setp(grp, grp + " { }"); what = "empty list of SNR values"; }
    else if (q == 5) { std::string v = grp + " {"; for (int i = 0; i < 51 + (int)choose(SF, 20); i++) v += sf(s.val_trn ? " %d 3" : " %d", i); setp(grp, v + " }"); what = "more than 50 SNR values"; }
    else if (q == 6) { setp("res_file", "res_file " + std::string(1000 + choose(SF, 3), 'a')); what = "results file name too long"; }
    else { setp(grp, s.val_trn ? "SNR_val_trn { 1 5 2 }" : "EbNo_values 1"); what = s.val_trn ? "SNR_val_trn without a number of trials" : "EbNo_values without a group"; }
    cnt("fault.unusable_parameters");
  }
  install(s);
  if ((kind == 5 || kind == 4) && chance(SF, 1, 8)) { vfs.rm("run.spf"); what = "no parameter file"; }
  Life *l = new_life(s); script(l); l->cap = 20; l->cost = pick(SW, std::vector<int64_t>{400000, 1200000, 1000});
  int fail_at = choose(SF, 25);
  if (kind == 0) { l->dec_fail_trial = fail_at; what = sf("decoder fails at trial %d", fail_at); }
  if (kind == 1) { l->enc_fail_trial = fail_at; what = sf("encoder fails at call %d", fail_at); }
  static bool armed; armed = false;
  l->on_trial = [=](Life *l, const double *, const double *, int) {
    if (l->dec_failed || l->enc_failed) violate("went-on-after-failure", "a trial is simulated after the codec has failed");
    if (kind == 2 && l->trials - 1 == fail_at && !armed) { armed = true; cur->alloc_fail_at = choose(SF, 5); cur->alloc_fail_n = 1 + choose(SF, 3); }
  };
  if (kind == 2) what = sf("memory short at trial %d", fail_at);
  if (kind == 3) {
    fsf.only_in_save = true; what = "saves fail";
    int q = choose(SF, 4);
    if (q == 0) fsf.open_wr_fail = 400; if (q == 1) fsf.write_enospc = 400; if (q == 2) fsf.rename_fail = 500; if (q == 3) fsf.close_fail = 300;
    if (choose(SF, 2)) fsf.read_eio = 200;
  }
  if (kind == 7) {
    unusable = true; cnt("fault.bad_command_line");
    static const std::vector<std::vector<std::string>> q = {{"sim"}, {"sim", "run.spf", "-si"}, {"sim", "run.spf", "-ri"}, {"sim", "run.spf", "-nr", "-si"}, {"sim", "run.spf", "-si", "5", "-ri"}, {"sim", "-nr"}, {"sim", "run.spf", "-si", "x"}, {"sim", "run.spf", "-nr", "-ri", "-si", "5"}, {"sim", "run.spf", "-ri", "1s", "-nr"}, {"sim", "run.spf", "-si", "99999999999"}};
    auto &a = q[choose(SF, (uint32_t)q.size())];
    what = "command line:"; for (auto &x : a) what += " " + x;
    Node *n = new_main(image(img, 0), a, 0); n->user = l; l->node = n;
  } else
  start_main(l, img, 0, choose(SW, 2), choose(SW, 4), choose(SW, 3), 0);
  run_world();
  fsf = FsFaults(); l->node->alloc_fail_at = -1;
  if (unusable) {
    if (l->node->exit_code == 0) violate("failure-not-reported", "unusable (%s) but the program ended with code 0", what.c_str());
    if (l->inited || l->trials) violate("unusable-accepted", "unusable (%s) but accepted", what.c_str());
    std::string now = vfs.get("out.srf") ? vfs.get("out.srf")->data : "";
    if (now != before) violate("wrong-totals", "the program refused to run but the results file changed");
  } else {
    if (!l->inited) violate("init-refused", "a valid parameter file was refused");
    check_failed_life(l, base, true);
    if (kind == 6 && l->node->exit_code != 0) violate("bad-exit", "nothing failed but the program ended with code %d", l->node->exit_code);
  }
  bool failed = l->dec_failed || l->enc_failed || l->run_failed; for (auto &q : l->saves) failed |= q.rc != 0;
  sh->nontrivial = failed || unusable;
  describe(sf("%s, %s: %zu trials, %zu saves, exit code %d; ", img, what.c_str(), l->order.size(), l->saves.size(), l->node->exit_code) + spec_str(s));
}
static PropReg ps06({"S06", s06, 7000, 100000, "one run = one program life in which the encoder or decoder fails at a chosen call, memory runs short inside a chosen trial, saves fail, the parameter file lacks something, or nothing fails; non-trivial: something failed", REAL, STUB});

static void s07() {
  common_setup();
  int kind = choose(SF, 8);
  Spec s = gen_spec("run.spf", "out.srf", 2, 5, 2);
  if (kind == 7) { // the loader
    std::vector<std::string> v; int q = 1 + choose(SW, 4); for (int i = 0; i < q; i++) v.push_back(snr_text(SW, 2));
    gen_base("out.srf", s.n, s.k, v, false);
    Node *n = new_node(image("load", 0), nullptr, 0);
    static std::string what; what.clear();
    n->body = [q]() {
      Harness h;
      for (int i = 0; i < 3; i++) {
        size_t l0 = cur->live.size();
        bool f = i < 2; if (f) { cur->alloc_fail_at = choose(SF, 40); cur->alloc_fail_n = choose(SF, 2) ? 1 : 1000000; }
        std::string why; int r = load_check("out.srf", why);
        bool hit = f && cur->alloc_fail_at < 0; if (f && cur->alloc_fail_n < 1000000 && cur->alloc_fail_n > 1) hit = true;
        if (f && cur->alloc_fail_at == 0 && cur->alloc_fail_n < 1000000) hit = true;
        cur->alloc_fail_at = -1;
        what += sf("load %d -> %d; ", i, r);
        if (r == 2) violate("wrong-load", "memory was short and the loader returned something else than the file's data: %s", why.c_str());
        if (r == 1 && !hit) violate("load-refused", "nothing failed but the loader refused a valid file");
        if (r == 0 && !hit && cur->live.size() != l0) violate("leak", "the loader left %zu blocks allocated", cur->live.size() - l0);
        (void)l0;
      }
      cur->exit_code = 0;
    };
    run_world();
    sh->nontrivial = true;
    describe("loader with failing allocations: " + what);
    return;
  }
  const char *img = gen_img(s, 1, 4);
  low_snr(s, img);
  Acc base;
  if (choose(SW, 2)) base = acc_of(parse_res(gen_base("out.srf", s.n, s.k, {s.pts[0].txt, "-9"}, false)));
  render_spec(s, false); install(s);
  Life *l = new_life(s); script(l); l->cap = 5; l->cost = pick(SW, std::vector<int64_t>{400000, 1200000, 1000});
  bool clean = kind == 6, held = choose(SW, 3) == 2;
  if (held) { HOpts o; o.ri = choose(SW, 2); o.saves = 40; start_held(l, img, 0, o, 0); }
  else start_main(l, img, 0, choose(SW, 2), choose(SW, 3), choose(SW, 2), 0);
  int at = 0;
  if (!clean) {
    at = choose(SF, kind < 3 ? 12 : kind < 5 ? 60 : 400);
    l->node->alloc_fail_at = at; l->node->alloc_fail_n = pick(SF, std::vector<int>{1, 1000000, 2, 5});
  }
  l->on_trial = [](Life *l, const double *, const double *, int) { if (l->dec_failed || l->enc_failed) violate("went-on-after-failure", "a trial is simulated after the codec has failed"); };
  run_world();
  bool hit = false; for (uint32_t i = 0; i < sh->ncnt; i++) if (!strcmp(sh->cnt[i].name, "fault.alloc_failure")) hit = true;
  check_failed_life(l, base, false);
  if (!hit) {
    if (!l->inited) violate("init-refused", "a valid parameter file was refused");
    if (l->node->exit_code != 0) violate("bad-exit", "nothing failed but the program ended with code %d", l->node->exit_code);
    if (!l->node->live.empty()) violate("leak", "the program ended with %zu blocks (%llu bytes) allocated, the largest %zu bytes (%s)", l->node->live.size(), (unsigned long long)live_bytes(l->node), [&] { size_t m = 0; for (auto &q : l->node->live) m = std::max(m, q.second); return m; }(), img);
    if (!l->node->fds.empty()) violate("leak", "the program ended with %zu files open", l->node->fds.size());
    cnt("probe.leak_checks");
  } else if (l->inited) cnt("probe.failure_after_start"); else cnt("probe.failure_in_start");
  sh->nontrivial = hit || clean;
  describe(sf("%s %s allocation failure at %d x%d: started %d, %zu trials, exit code %d", img, held ? "held" : "main()", clean ? -1 : at, l->node->alloc_fail_n, l->inited, l->order.size(), l->node->exit_code));
}
static PropReg ps07({"S07", s07, 8000, 120000, "one run = one program life (any codec, or the Octave/Matlab loader) in which the k-th allocation, or several or all from there on, fail, or none (then everything must be released at the end); non-trivial: an allocation failed or the release was checked", "all programs of the repository and the Octave/Matlab loader", "codec in a quarter of the runs, MEX interface, file system, clocks, allocator, terminal"});

// ================= S08
struct Status { bool ok = false; double snr = 0; int i = 0, m = 0; long trn = 0, req = 0, en = 0, ml = -1; };
static Status parse_status(const std::string &s) {
  Status r; int used = 0;
  int k = sscanf(s.c_str(), " SNR: %lf (%d / %d), trn: %ld / %ld, en: %ld%n", &r.snr, &r.i, &r.m, &r.trn, &r.req, &r.en, &used);
  if (k != 6) return r;
  long ml; if (sscanf(s.c_str() + used, ", ML en: %ld", &ml) == 1) r.ml = ml;
  r.ok = true;
  return r;
}
struct Ctl { long n = 0; long exact = -1; long least = 0; };
// what a control (1 more, 2 fewer, 3 next) did to the status, and what that asks for
static void control_effect(Life *l, std::vector<Ctl> &ctl, int c, const Status &a, const Status &b) {
  Ctl &q = ctl[a.i - 1]; q.n++;
  if (b.i != a.i) {
    if (c != 3 || b.i != a.i + 1) violate("control-moved", "a control changed the current SNR value from number %d to %d", a.i, b.i);
    q.least = q.exact = l->truth[a.i - 1].trn; // 'next' may move on at once
    cnt("probe.next_at_once");
    return;
  }
  if (c == 1 && (b.req < a.req + (a.req - 1) / 2 || b.req > a.req + (a.req + 1) / 2) && !(b.req >= a.req && b.req > 1300000000)) // (or as many as can be counted)
    violate("wrong-request", "'more' changed the request from %ld to %ld", a.req, b.req);
  if (c == 2) { long lo = std::max(a.trn, a.req - (a.req + 2) / 3), hi = std::max(a.trn, a.req - a.req / 3); if (b.req < lo || b.req > hi) violate("wrong-request", "'fewer' changed the request from %ld to %ld after %ld trials", a.req, b.req, a.trn); }
  if (c == 3 && b.req != a.trn) violate("wrong-request", "'next' changed the request to %ld after %ld trials", b.req, a.trn);
  q.least = b.req; q.exact = -1;
  bool met = l->truth[a.i - 1].enbl >= l->spec.minerr();
  if (b.req <= b.trn) q.exact = b.trn; else if (met) q.exact = b.req;
}
// what each SNR value got at the end
static void check_steered(Life *l, const std::vector<Ctl> &ctl) {
  const Spec &s = l->spec;
  size_t m = s.pts.size(); std::vector<long> tr(m, 0), en(m, 0), T(m, -1); int at = 0;
  for (size_t j = 0; j < l->order.size(); j++) {
    int p = l->order[j];
    if (p < at) violate("wrong-order", "SNR value number %d is simulated after number %d", p, at);
    at = p; tr[p]++; en[p] += l->errs[j] != 0;
    if (T[p] < 0 && tr[p] >= s.req(p) && en[p] >= s.minerr()) T[p] = tr[p];
  }
  for (size_t i = 0; i < m; i++) {
    if (ctl[i].n == 0) {
      if (T[i] < 0) violate("left-too-early", "%s dB, never controlled, ended with %ld trials and %ld errors; %d and %d were requested", s.pts[i].txt.c_str(), tr[i], en[i], s.req((int)i), s.minerr());
      if (tr[i] > std::max<long>(s.req((int)i), 3 * T[i] / 2 + 2)) violate("too-many-trials", "%s dB, never controlled, ended with %ld trials; requests were met after %ld", s.pts[i].txt.c_str(), tr[i], T[i]);
    } else if (ctl[i].exact >= 0 && tr[i] != ctl[i].exact) violate("control-ignored", "%s dB: %ld trials were asked for by the last control, %ld made", s.pts[i].txt.c_str(), ctl[i].exact, tr[i]);
  }
}
static void s08() {
  common_setup();
  Spec s = gen_spec("run.spf", "out.srf", 4, 40, 6);
  const char *img = gen_img(s, 5, 6);
  low_snr(s, img);
  render_spec(s, false); install(s);
  Life *l = new_life(s); script(l); l->cost = pick(SW, std::vector<int64_t>{300000, 1100000, 50000}); l->cap = 60 + choose(SW, 200);
  if (choose(SW, 2)) l->cost_jit = 700000;
  static std::vector<Ctl> ctl; ctl.assign(s.pts.size(), Ctl());
  static int used[4]; memset(used, 0, sizeof used);
  Node *nd = new_node(image(img, 0), nullptr, 0);
  nd->user = l; l->node = nd;
  int pct = pick(SW, std::vector<int>{40, 10, 80});
  int ri = choose(SW, 2), maxc = 30;
  nd->body = [=]() {
    Harness h;
    void *inst = nullptr;
    cur->exit_code = 1;
    if (c_init(l->spec.spf, ri, true, &inst) != 0) return;
    int left = maxc;
    auto see = [&](const char *when) {
      Status st = parse_status(c_state(inst));
      if (!st.ok || st.i < 1 || st.i > (int)s.pts.size()) violate("bad-status", "%s: the status string cannot be read: %s", when, c_state(inst).c_str());
      if (st.trn != l->truth[st.i - 1].trn) violate("bad-status", "%s: %ld trials shown, %ld made", when, st.trn, l->truth[st.i - 1].trn);
      return st;
    };
    int r = 17;
    bool first = chance(SW, 1, 4); // controls before the first trial
    int spree = chance(SW, 1, 8) ? 5 + choose(SW, 60) : 0, patience = 3 + choose(SW, 30);
    while (r == 17) {
      if (!first) r = c_run(inst);
      first = false;
      if (r != 17) break;
      if (spree > 0 && choose(SW, 3) == 0) { // asks for more and more
        cnt("probe.more_and_more");
        for (; spree > 0; spree--) {
          Status a = see("before a control");
          c_control(inst, 1); used[1]++;
          control_effect(l, ctl, 1, a, see("after a control"));
        }
      }
      if (--patience < 0) { // and has seen enough
        Status a = see("before a control");
        if (a.req > 3000) { c_control(inst, 3); used[3]++; control_effect(l, ctl, 3, a, see("after a control")); }
      }
      if (choose(SW, 8) == 7) c_save(inst);
      while (left > 0 && chance(SW, pct, 100)) {
        left--;
        Status a = see("before a control");
        int c = 1 + choose(SW, 3);
        c_control(inst, c);
        used[c]++;
        ev("control %d at point %d: %ld / %ld", c, a.i, a.trn, a.req);
        Status b = see("after a control");
        control_effect(l, ctl, c, a, b);
        cnt(c == 1 ? "probe.more" : c == 2 ? "probe.fewer" : "probe.next");
      }
    }
    int sv = c_save(inst);
    std::string fin = c_res(inst);
    c_close(inst);
    cur->exit_code = r == 0 && sv == 0 ? 0 : 1;
  };
  run_world();
  if (!l->inited) violate("init-refused", "a valid parameter file was refused");
  if (nd->exit_code != 0) violate("bad-exit", "the run ended with code %d", nd->exit_code);
  check_steered(l, ctl);
  need_acc("at the end", resp(s), acc_life(l, Acc()));
  sh->nontrivial = used[1] + used[2] + used[3] >= 2;
  describe(sf("%s: %d more, %d fewer, %d next; %zu trials; ", img, used[1], used[2], used[3], l->order.size()) + spec_str(s));
}
static PropReg ps08({"S08", s08, 6000, 90000, "one run = one simulation controlled by an operator who asks for more, fewer trials or the next SNR value at random moments, also several times in a row and before the first trial; non-trivial: at least two controls", REAL, STUB});

// ================= S12
struct Pressed { bool is = false; int key = 0; Status a; size_t saves = 0, out = 0; long trials = 0; int64_t t = 0; };
static void s12() {
  if (!have_image("win")) { cnt("probe.windows_program_not_buildable"); describe("the Windows parts cannot be compiled with the stand-in for its services"); return; }
  common_setup();
  Spec s = gen_spec("run.spf", res_name("out.srf"), 4, 40, 6);
  render_spec(s, false); install(s);
  static Acc base; base.clear();
  if (chance(SW, 1, 3)) { gen_base(resp(s), s.n, s.k, {s.pts[0].txt, "-7"}, false); base = acc_of(parse_res(vfs.get(resp(s))->data)); relay_res(resp(s)); }
  Life *l = new_life(s); script(l); l->cost = pick(SW, std::vector<int64_t>{300000, 1100000, 50000, 3100000}); l->cap = 60 + choose(SW, 200);
  if (choose(SW, 2)) l->cost_jit = 700000;
  static std::vector<Ctl> ctl; ctl.assign(s.pts.size(), Ctl());
  static int used[6]; memset(used, 0, sizeof used);
  static Pressed pr; pr = Pressed();
  static bool faults; faults = chance(SF, 1, 4);
  static bool two; two = chance(SW, 1, 5);
  static std::set<size_t> bykey; bykey.clear();
  static int waiting; static size_t seen; waiting = 0; seen = 0;
  static uint64_t renames; static bool lost; renames = 0; lost = false;
  if (faults) {
    fsf.only_in_save = true; int hi = 30 + choose(SF, 120); uint32_t m = choose(SF, 128);
    if (m & 1) fsf.open_fail = hi; if (m & 2) fsf.open_wr_fail = hi; if (m & 4) fsf.write_enospc = hi * 2; if (m & 8) fsf.write_eio = hi; if (m & 16) fsf.read_eio = hi; if (m & 32) fsf.close_fail = hi; if (m & 64) fsf.rename_fail = hi * 3;
  }
  static int si; si = SI[choose(SW, 6)]; int ri = RI[choose(SW, 4)];
  Node *nd = start_main(l, "win", 0, true, si, ri, 0);
  static const char other[] = "qS\rn,.xX0\x1b\tl\0\xe0HP+";
  int q = choose(SW, 5) == 4 ? 0 : 1 + choose(SW, 14); int64_t span = pick(SW, std::vector<int64_t>{20000000, 4000000, 100000000, 600000000}), kt = 0;
  for (int i = 0; i < q; i++) {
    int w = choose(SW, 8), k = w < 6 ? "s ><N>"[w] : choose(SW, 4) ? (unsigned char)other[choose(SW, sizeof other - 1)] : (int)choose(SW, 256); // any byte at times
    if (choose(SW, 4)) kt += choose(SW, (uint32_t)(span / q)); // else at once after the one before
    nd->keys.push_back({kt, k});
    if (chance(SW, 1, 60)) { // the key is held down, and later the operator has seen enough
      int r = 5 + choose(SW, 55); while (r-- > 0) nd->keys.push_back({kt, '>'});
      kt += choose(SW, 20000000); nd->keys.push_back({kt, 'N'});
      cnt("probe.more_and_more");
    }
  }
  static auto status = [](Life *l, const char *when) {
    Status st = parse_status(c_state(l->inst));
    if (!st.ok || st.i < 1 || st.i > (int)l->spec.pts.size()) violate("bad-status", "%s: the status string cannot be read: %s", when, c_state(l->inst).c_str());
    return st;
  };
  static auto settle = [](Life *l) { // the key read last has had its effect
    if (!pr.is) return;
    pr.is = false;
    Status b = status(l, "after a key");
    if (l->trials != pr.trials) violate("key-late", "key '%c' has its effect after another slice", pr.key);
    int c = pr.key == '>' ? 1 : pr.key == '<' ? 2 : pr.key == 'N' ? 3 : 0;
    if (c) control_effect(l, ctl, c, pr.a, b);
    else if (b.i != pr.a.i || b.req != pr.a.req) violate("key-steers", "key %d changed the request from %ld to %ld (SNR value number %d to %d)", pr.key, pr.a.req, b.req, pr.a.i, b.i);
    size_t ns = l->saves.size() - pr.saves;
    if (pr.key == 's') {
      bykey.insert(pr.saves);
      if (!ns) violate("key-ignored", "key 's' was read but nothing was saved");
      if (!faults && l->saves.back().rc) violate("save-refused", "saving failed with code %d although nothing was wrong", l->saves.back().rc);
      if (!l->saves.back().rc && !two && !lost) need_acc("after key 's'", resp(l->spec), acc_life(l, base));
    } else if (ns) {
      int64_t last = 0; for (size_t i = 0; i < pr.saves; i++) if (!bykey.count(i)) last = std::max(last, l->saves[i].t0);
      if (l->saves[pr.saves].t0 - last < si * 1000000ll) violate("key-saves", "results were saved after key %d, %.1f s after the last regular one; %d s were asked for", pr.key, (l->saves[pr.saves].t0 - last) * 1e-6, si);
    }
    if (pr.key == ' ') {
      std::string want = c_res(l->inst);
      if (cur->out.find(want, pr.out) == std::string::npos) violate("key-ignored", "the results so far are not printed after the space key");
    } else if (cur->out.find(c_res(l->inst), pr.out) != std::string::npos) violate("key-prints", "the results so far are printed after key %d", pr.key);
    used[c ? c : pr.key == 's' ? 4 : pr.key == ' ' ? 5 : 0]++;
    cnt(c == 1 ? "probe.key_more" : c == 2 ? "probe.key_fewer" : c == 3 ? "probe.key_next" : pr.key == 's' ? "probe.key_save" : pr.key == ' ' ? "probe.key_results" : "probe.key_other");
  };
  nd->on_key = [l](int k) {
    settle(l);
    pr.is = true; pr.key = k; pr.a = status(l, "before a key"); pr.saves = l->saves.size(); pr.out = cur->out.size(); pr.trials = l->trials; pr.t = cur->t;
  };
  l->before_run = [](Life *l) {
    settle(l);
    if (waiting > 0 && cur->key_at == seen) violate("key-ignored", "key '%c', pressed at %.1f s, waits and another slice begins at %.1f s", cur->keys[seen].second, cur->keys[seen].first * 1e-6, cur->t * 1e-6);
    waiting = 0;
  };
  l->after_run = [](Life *l) { waiting = l->run_rc == 17 ? cur->keys_waiting() : 0; seen = cur->key_at; };
  l->after_save = [](Life *l, SaveRec &sr) {
    uint64_t rn = 0; for (uint32_t i = 0; i < sh->ncnt; i++) if (!strcmp(sh->cnt[i].name, "fault.rename_fails")) rn = sh->cnt[i].v;
    if (rn > renames + 1 && !sr.has_after) lost = true; // neither the new nor the old file could be given its name
    renames = rn;
    if (two || lost) return;
    ResFile was = parse_res(sr.before), now = parse_res(sr.after); std::string why;
    if (sr.rc && sr.had_before && was.ok && (!sr.has_after || !now.ok || !acc_same(acc_of(was), acc_of(now), why))) violate("failed-save-changed-file", "saving reported failure but the results file %s", sr.has_after ? "changed" : "is gone");
    for (auto &q : vfs.d) if (!sr.rc && q.first != resp(l->spec) && q.first.rfind(resp(l->spec), 0) == 0) violate("left-behind", "%s is left behind by a successful save", q.first.c_str());
  };
  Life *b = nullptr;
  if (two) {
    Spec z = s; z.spf = "run2.spf"; render_spec(z, false); install(z);
    b = new_life(z); script(b); b->cap = 20; b->cost = 700000;
    start_main(b, choose(SW, 2) ? "win" : "stub", 1, true, choose(SW, 3), choose(SW, 3), choose(SW, 8) * 250000ll);
    cnt("probe.another_run_beside");
  }
  run_world();
  if (!l->inited) violate("init-refused", "a valid parameter file was refused");
  bool ok = !l->saves.empty() && l->saves.back().rc == 0;
  if ((nd->exit_code == 0) != ok) violate("bad-exit", "the run ended with code %d, its last save with %d", nd->exit_code, l->saves.empty() ? -777 : l->saves.back().rc);
  if (!faults && !ok) violate("bad-exit", "the run ended with code %d", nd->exit_code);
  check_steered(l, ctl);
  if (!faults) { Acc want = acc_life(l, base); if (b) acc_add(want, b->spec, b->truth); need_acc("at the end", resp(s), want); }
  else if (ok && !two && !lost) need_acc("at the end", resp(s), acc_life(l, base));
  sh->nontrivial = used[1] + used[2] + used[3] + used[4] + used[5] > 0;
  describe(sf("%d keys, %zu read: %d more, %d fewer, %d next, %d saves, %d results, %d others; %zu trials; ", q, nd->key_at, used[1], used[2], used[3], used[4], used[5], used[0], l->order.size()) + spec_str(s));
}
static PropReg ps12({"S12", s12, 6000, 90000, "one run = one run of the program with its Windows parts compiled, whose simulated keyboard has up to 14 keys pressed at random moments (also several at once, and keys without a meaning), sometimes with failing saves or with another run beside; non-trivial: a key with a meaning was read", REAL, "codec (scripted stand-in), keyboard and process services of Windows, file system (rename() does not replace a file), clocks, allocator, terminal"});

// ================= S09
static void s09() {
  common_setup();
  static const int64_t EP[] = {1700000000, 1, 0, 2147483600, 2147483645, 4294967290, 2147483647, 1000000000, 4000000000};
  int e = choose(SW, 18); g_epoch = e < 9 ? EP[e] : 1600000000 + (int64_t)choose(SW, 800000000);
  Spec s = gen_spec("run.spf", "a.srf", 3, 12, 3);
  const char *img = own_rnd(gen_img(s, 1, 2), 1, 3);
  low_snr(s, img);
  bool nr = chance(SW, 1, 4);
  int m = 2 + (nr ? choose(SW, 2) : choose(SW, 2));
  int64_t t = 0; std::string d;
  if (!nr) skew_events();
  int64_t cst = pick(SW, std::vector<int64_t>{400000, 1200000, 1000});
  for (int i = 0; i < m; i++) {
    Spec q = s; q.spf = sf("r%d.spf", i); q.res = sf("r%d.srf", i); render_spec(q, false); install(q);
    Life *l = new_life(q); script(l); l->cost = cst; l->cap = 20; l->keep_rx = true; l->det_seed = 77;
    if (i) { l->perr = lives[0]->perr; l->per_er = lives[0]->per_er; l->cap = lives[0]->cap; }
    start_main(l, img, i, nr, choose(SW, 3), choose(SW, 3), t);
    static const int64_t gap[] = {1000000, 2000000, 999999, 100000, 1, 60000000, 3600000000ll, 0, 1500000};
    int64_t g = gap[choose(SW, 9)];
    int gk = choose(SW, 8); // differences that a shortened or rounded seed would not see
    if (gk == 5) g = 1000000ll << (1 + choose(SW, 29)); // not 2^31 - 2, the period of the seeds
    if (gk == 6) { static const int64_t q[] = {60, 100, 128, 1000, 3600, 10000, 86400, 100000, 1000000, 65535, 32767, 255}; g = 1000000 * q[choose(SW, 12)]; }
    if (gk == 7) g = 86400000000ll * (1 + choose(SW, 400));
    t += g; d += sf("+%.6fs ", g * 1e-6);
  }
  run_world();
  int64_t same = 0;
  for (auto &l : lives) {
    if (!l->inited) violate("init-refused", "a valid parameter file was refused");
    if (l->node->exit_code != 0) violate("bad-exit", "the program ended with code %d", l->node->exit_code);
    std::set<uint64_t> seen;
    for (size_t j = 0; j < l->rxh.size(); j++) if (!seen.insert(l->rxh[j]).second) violate("noise-repeats", "trial %zu got the same received vector as an earlier trial of the same run (clock at %lld s, %s)", j, (long long)l->wall0, img);
  }
  for (size_t a = 0; a < lives.size(); a++) for (size_t b = a + 1; b < lives.size(); b++) {
    Life *x = lives[a].get(), *y = lives[b].get();
    if (nr) { if (x->th != y->th) violate("not-reproducible", "two runs of the same parameters with -nr differ"); continue; }
    std::set<uint64_t> seen(x->rxh.begin(), x->rxh.end()); size_t com = 0;
    for (uint64_t h : y->rxh) com += seen.count(h);
    if (!com) continue;
    bool overlap = !(x->wall1 < y->wall0 || y->wall1 < x->wall0);
    if (overlap) { same++; finding("same-second-seed", "two runs started without -nr within the same second of wall-clock time simulate identical noise (%zu of %zu trials)", com, y->rxh.size()); }
    else violate("same-noise", "runs started at %lld s and %lld s without -nr share %zu of %zu received vectors (%s)", (long long)x->wall0, (long long)y->wall0, com, y->rxh.size(), img);
  }
  sh->nontrivial = lives[0]->rxh.size() >= 3;
  describe(sf("%s%s clock starts at %lld, %d runs %s| %zu trials each", img, nr ? " -nr" : "", (long long)g_epoch, m, d.c_str(), lives[0]->rxh.size()));
}
static PropReg ps09({"S09", s09, 5000, 80000, "one run = two or three program lives of the same parameters started seconds, fractions of a second or days apart, with or without -nr, with the clock anywhere from 1970 past 2038 and jumping; all received vectors are compared; non-trivial: three trials per life", REAL, STUB});

// ================= S10
static void check_summary(const Life *l, const std::string &str, const char *when) {
  const Spec &s = l->spec;
  std::vector<std::string> rows; std::string c;
  for (char ch : str) if (ch == '\n') { rows.push_back(c); c.clear(); } else c += ch;
  rows.push_back(c);
  size_t nsim = 0; for (size_t i = 0; i < s.pts.size(); i++) if (l->truth[i].trn) nsim = i + 1;
  size_t got = 0; bool ml = s.ml || s.mlhd;
  for (size_t i = 1; i < rows.size(); i++) {
    std::vector<double> v; const char *p = rows[i].c_str(); char *e;
    for (;;) { double x = strtod(p, &e); if (e == p) break; v.push_back(x); p = e; }
    if (v.size() < 3) continue;
    if (got >= s.pts.size()) violate("bad-summary", "%s: more rows than SNR values", when);
    const Counts &t = l->truth[got];
    if (fabs(v[0] - s.pts[got].snr) > 0.00501 + 1e-9) violate("bad-summary", "%s: row %zu is for %g dB, SNR value number %zu is %s dB", when, got, v[0], got + 1, s.pts[got].txt.c_str());
    auto near = [](double a, double b, double tol) { return fabs(a - b) <= 0.00051 * fabs(b) + tol + 1e-300; };
    if (t.trn) {
      if (!near(v[1], t.enb / ((double)t.trn * s.k), 0)) violate("bad-summary", "%s: %s dB: bit error rate %g shown, should be %g", when, s.pts[got].txt.c_str(), v[1], t.enb / ((double)t.trn * s.k));
      if (!near(v[2], t.enbl / (double)t.trn, 0)) violate("bad-summary", "%s: %s dB: word error rate %g shown, should be %g", when, s.pts[got].txt.c_str(), v[2], t.enbl / (double)t.trn);
      if (ml) {
        if (v.size() < 4) violate("bad-summary", "%s: no ML error rate", when);
        double q = t.mltrn ? (double)t.enml / t.mltrn : 0;
        if (!near(v[3], q, t.mltrn ? (double)t.enml_slack / t.mltrn : 0)) violate("bad-summary", "%s: %s dB: ML error rate %g shown, should be %g", when, s.pts[got].txt.c_str(), v[3], q);
      }
    }
    got++;
  }
  if (got < nsim) violate("bad-summary", "%s: %zu SNR values shown, %zu simulated", when, got, nsim);
}
static void check_state(const Life *l, const std::string &str, const char *when, bool controlled) {
  const Spec &s = l->spec;
  Status st = parse_status(str);
  if (!st.ok) violate("bad-status", "%s: cannot be read: %s", when, str.c_str());
  int p = st.i - 1, last = l->order.empty() ? 0 : l->order.back();
  if (st.m != (int)s.pts.size() || p < 0 || p >= st.m) violate("bad-status", "%s: SNR value number %d of %d shown, there are %zu", when, st.i, st.m, s.pts.size());
  if (p != last && !(p == last + 1 && l->truth[p].trn == 0)) violate("bad-status", "%s: SNR value number %d shown, the last trial was for number %d", when, st.i, last + 1);
  if (fabs(st.snr - s.pts[p].snr) > 0.00501 + 1e-9) violate("bad-status", "%s: %g dB shown for SNR value number %d, which is %s dB", when, st.snr, st.i, s.pts[p].txt.c_str());
  const Counts &t = l->truth[p];
  if (st.trn != t.trn || st.en != t.enbl) violate("bad-status", "%s: %ld trials and %ld errors shown, %ld and %ld made", when, st.trn, st.en, t.trn, t.enbl);
  if ((s.ml || s.mlhd) && (st.ml < t.enml - t.enml_slack || st.ml > t.enml + t.enml_slack)) violate("bad-status", "%s: %ld ML errors shown, %ld counted", when, st.ml, t.enml);
  if (controlled) return;
  if (st.req < s.req(p) && st.req < t.trn) violate("bad-status", "%s: %ld trials requested shown, %ld made, %d in the file", when, st.req, t.trn, s.req(p));
  if (st.req < t.trn) violate("bad-status", "%s: %ld trials shown as requested but %ld made", when, st.req, t.trn);
  bool always = true; { long en = 0; bool f = false; for (size_t j = 0; j < l->order.size(); j++) if (l->order[j] == p) { en += l->errs[j] != 0; f = true; if (en < s.minerr()) always = false; } if (!f) always = true; }
  if (always && st.req != s.req(p)) violate("bad-status", "%s: %ld trials requested shown, the file asks for %d", when, st.req, s.req(p));
}
static void s10() {
  common_setup();
  bool many = chance(SW, 1, 5);
  Spec s = gen_spec("run.spf", "out.srf", 6, many ? 3 : 30, many ? 2 : 8);
  if (many) {
    s.pts.clear(); int q = 30 + choose(SW, 21);
    for (int i = 0; i < q; i++) { Point p; p.txt = sf("%.2f", -5 + 0.25 * i); p.snr = atof(p.txt.c_str()); p.trn_req = s.val_trn ? (int)choose(SW, 3) : 0; s.pts.push_back(p); }
    if (choose(SW, 2)) for (size_t i = s.pts.size(); i-- > 1;) std::swap(s.pts[i], s.pts[choose(SW, (uint32_t)i + 1)]);
  }
  const char *img = many ? "stub" : gen_img(s, 3, 4);
  if (!many) low_snr(s, img);
  render_spec(s, false); install(s);
  Life *l = new_life(s); script(l); l->cost = pick(SW, std::vector<int64_t>{300000, 1100000, 50000}); l->cap = many ? 6 : 40 + choose(SW, 100);
  if (choose(SW, 2)) l->cost_jit = 700000;
  if (chance(SF, 1, 10)) { l->dec_fail_trial = 1 + choose(SF, 30); cnt("fault.decoder_failure_planned"); }
  l->on_state_str = [](Life *l, const char *d) { check_state(l, d, "status string", false); l->state_strs.push_back(d); cnt("probe.status_strings"); };
  l->on_res_str = [](Life *l, const char *d) { check_summary(l, d, "summary string"); l->res_strs.push_back(d); cnt("probe.summaries"); };
  bool held = choose(SW, 3) == 2;
  int ri = choose(SW, 3);
  if (held) {
    Node *n = new_node(image(img, 0), nullptr, 0);
    n->user = l; l->node = n;
    n->body = [l, ri]() {
      Harness h; void *inst = nullptr; cur->exit_code = 1;
      if (c_init(l->spec.spf, ri, true, &inst) != 0) return;
      int r; do { r = c_run(inst); if (r == 17) { c_state(inst); if (choose(SW, 3) == 2) c_res(inst); if (choose(SW, 4) == 3) c_save(inst); } } while (r == 17);
      c_res(inst); c_save(inst); c_res(inst); c_close(inst);
      cur->exit_code = r;
    };
  } else start_main(l, img, 0, choose(SW, 2), SI[choose(SW, 5)], ri, 0);
  run_world();
  if (!l->inited) violate("init-refused", "a valid parameter file was refused");
  if (l->res_strs.empty()) violate("no-summary", "the run ended without a summary");
  if (!held) { // what the user sees on the terminal
    const std::string &o = l->node->out;
    size_t pos = 0; size_t shown = 0;
    for (auto &q : l->state_strs) { size_t e = q.find_last_not_of(' '); std::string core = q.substr(0, e == std::string::npos ? 0 : e + 1); size_t f = o.find(core, pos); if (f == std::string::npos) violate("status-not-shown", "a status was made but not shown on the terminal: %s", core.c_str()); pos = f + core.size(); shown++; }
    std::string fin = l->res_strs.back();
    if (o.find(fin, pos) == std::string::npos) violate("summary-not-shown", "the summary is not on the terminal");
    // the last words
    bool failed = l->run_failed, good = o.find("failed") == std::string::npos;
    if (failed && good && o.find("rror") == std::string::npos) violate("failure-not-shown", "the simulation failed and the program does not say so");
    if (!failed && l->node->exit_code == 0 && !good) violate("wrong-last-words", "the simulation succeeded and the program reports a failure: %s", o.substr(o.size() > 300 ? o.size() - 300 : 0).c_str());
    cnt(failed ? "probe.failed_simulations" : "probe.completed_simulations");
    if (l->runs > 1 && shown == 0) violate("no-status", "control came back %d times and no status was shown", l->runs);
    check_summary(l, fin, "summary on the terminal");
  }
  sh->nontrivial = l->state_strs.size() >= 2;
  describe(sf("%s %s%zu status strings, %zu summaries; ", img, many ? "many SNR values, " : "", l->state_strs.size(), l->res_strs.size()) + spec_str(s).substr(0, 300));
}
static PropReg ps10({"S10", s10, 5000, 80000, "one run = one program life; every status string, every summary and the terminal output are compared with what was simulated; a fifth of the runs have 30 to 50 SNR values; non-trivial: at least two status strings", REAL, STUB});

// ================= P01
static std::string ws(bool nl) {
  static const char *q[] = {" ", "\t", "  ", " \t ", ",", ", ", "\n", "\r\n", "\n\n", "\n% c { include x\n", "\r\n%%\r\n", " % res_file no.srf\n", "% glued\n", "%\r\n", "%%{\n\n"};
  return q[choose(SW, nl ? 15 : 6)];
}
static std::vector<std::string> toks(const std::string &s) { std::vector<std::string> v; std::string c; for (char ch : s) { if (strchr(" \t\r\n,", ch)) { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) v.push_back(c); return v; }
// the same parameters in another layout, possibly spread over included files
static void relayout(Spec &q, const std::vector<std::string> &items, bool allow_include) {
  std::vector<std::string> it = items;
  // order: the SNR list and everything else may move; codec lines keep their order
  size_t nc = q.extra.size();
  std::vector<std::string> gen(it.begin(), it.end() - nc), cod(it.end() - nc, it.end());
  static const char *unk[] = {"some_option 17", "comment_of_user { a b c }", "RES_FILE x.srf", "verbose on", "empty_group { }", "Kx -1e9", "res_file2 { x }", "ml 1", "note {include}", "#first 1", "// x", "; y", "\"name\" \"RM\"", "-nr 1", "! !", "# 1", "on off", "1 2"};
  int nu = choose(SW, 4);
  for (int i = 0; i < nu; i++) gen.push_back(unk[choose(SW, 18)]);
  for (size_t i = gen.size(); i-- > 1;) std::swap(gen[i], gen[choose(SW, (uint32_t)i + 1)]);
  size_t pos = 0; for (auto &e : cod) { pos += choose(SW, (uint32_t)(gen.size() - pos + 1)); gen.insert(gen.begin() + pos, e); pos++; }
  // token stream
  std::vector<std::string> pieces; // each piece: one parameter, laid out
  for (auto &g : gen) {
    std::vector<std::string> t = toks(g); std::string o;
    for (size_t i = 0; i < t.size(); i++) {
      if (i) {
        bool glue = (t[i - 1] == "{" && choose(SW, 2)) || (t[i] == "}" && t[i - 1] != "{" && choose(SW, 2));
        if (!glue) o += ws(true);
      }
      o += t[i];
    }
    // "{" glued to the parameter name is a different token: keep apart (done: only glue after "{")
    pieces.push_back(o);
  }
  auto join = [&](size_t a, size_t b) { std::string s; if (choose(SW, 4) == 3) s += ws(true); for (size_t i = a; i < b; i++) { s += pieces[i]; if (i + 1 < b) s += ws(true); } return s; };
  int ninc = allow_include ? (int)choose(SW, 4) : 0;
  if (ninc == 0) { q.text = join(0, pieces.size()) + (choose(SW, 3) ? "\n" : choose(SW, 2) ? "" : "\r\n% end"); return; }
  // split into a tree of files: run -> inc0 (somewhere) -> inc1 (nested or beside)
  std::vector<std::pair<size_t, size_t>> seg; size_t a = 0;
  for (int i = 0; i < ninc; i++) { size_t l = pieces.size() - a; size_t s0 = a + choose(SW, (uint32_t)l + 1), s1 = s0 + choose(SW, (uint32_t)(pieces.size() - s0) + 1); seg.push_back({s0, s1}); a = s1; }
  std::string text; size_t p = 0;
  static const char *nm[] = {"code.inc", "sub/list.spf", "x"};
  { InodeP d = vfs.put("sub", ""); d->dir = true; }
  for (int i = 0; i < ninc; i++) {
    text += join(p, seg[i].first) + ws(true) + "include" + ws(true) + q.spf + nm[i == 1 ? 0 : i == 2 ? 2 : 0] + sf("%d", i) + ws(true);
    std::string name = q.spf + nm[i == 1 ? 0 : i == 2 ? 2 : 0] + sf("%d", i);
    std::string body = join(seg[i].first, seg[i].second);
    if (body.empty()) body = choose(SW, 2) ? "% nothing here" : "\n";
    if (choose(SW, 3) == 2 && seg[i].second - seg[i].first >= 2) { // nested
      size_t mid = seg[i].first + 1 + choose(SW, (uint32_t)(seg[i].second - seg[i].first - 1));
      std::string in2 = name + ".nested"; q.includes[in2] = join(mid, seg[i].second) + (choose(SW, 2) ? "\n" : "");
      body = join(seg[i].first, mid) + ws(true) + "include " + in2 + (choose(SW, 2) ? "\n" : "");
      cnt("probe.nested_includes");
    }
    q.includes[name] = body + (choose(SW, 2) ? "\n" : "");
    cnt("probe.includes");
    p = seg[i].second;
  }
  text += join(p, pieces.size());
  q.text = text + (choose(SW, 2) ? "\n" : "");
}
// long chains of included files, many of them, long lines and long words
static void stretch(Spec &q) {
  auto add = [&](const std::string &t) { if (choose(SW, 2)) q.text = t + "\n" + q.text; else q.text += "\n" + t + (choose(SW, 2) ? "\n" : " "); };
  int k = choose(SW, 12);
  if (k == 0) { // a chain
    int d = 2 + choose(SW, 24);
    for (int i = 0; i < d; i++) {
      std::string name = q.spf + sf(".chain%d", i); q.includes[name] = q.text;
      q.text = (choose(SW, 3) == 2 ? "% level\n" : "") + std::string("include") + ws(true) + name + (choose(SW, 2) ? ws(true) : "") ;
      if (choose(SW, 4) == 3) q.text += "\nlevel_option " + sf("%d", i);
      if (choose(SW, 4) == 3) q.text = "level_group {" + sf(" %d }\n", i) + q.text;
    }
    cnt("probe.include_chain");
  }
  if (k == 1) { // many small files
    int d = 3 + choose(SW, 40);
    for (int i = 0; i < d; i++) {
      std::string name = q.spf + sf(".part%d", i); static const char *body[] = {"%\n", "opt 1", "opt 1\n", "grp { 1 2 }", "\n", " ", "% c", "opt % c\n 1", "grp {}\r\n"};
      q.includes[name] = body[choose(SW, 9)];
      add("include " + name);
    }
    cnt("probe.many_includes");
  }
  if (k == 2) { add("% " + std::string(1 + choose(SW, 30000), "x {}"[choose(SW, 4)])); cnt("probe.long_comment"); }
  if (k == 3) { add("opt " + std::string(1 + choose(SW, 9000), "x1-."[choose(SW, 4)])); if (choose(SW, 2)) add(std::string(1 + choose(SW, 9000), 'r') + " 1"); cnt("probe.long_word"); }
  if (k == 4) { int d = 1 + choose(SW, 2500); std::string g = "list {"; for (int i = 0; i < d; i++) g += choose(SW, 2) ? " 1" : "\n-2.5"; add(g + (choose(SW, 2) ? "}" : " }")); cnt("probe.long_group"); }
  if (k == 5) { int d = 1 + choose(SW, 400); for (int i = 0; i < d; i++) add(choose(SW, 2) ? "opt 1" : "grp { a }"); cnt("probe.many_parameters"); }
}
static std::vector<std::string> items_of(const Spec &s) {
  std::vector<std::string> L; std::string c; int depth = 0;
  for (char ch : s.text) { if (ch == '{') depth++; if (ch == '}') depth--; if (ch == '\n' && !depth) { if (!c.empty()) L.push_back(c); c.clear(); } else c += ch; }
  return L;
}
static void p01() {
  common_setup();
  int mode = choose(SF, 9); if (mode == 8) mode = 4; // 0..3: layout; 4: faults while reading; 5: refusals; 6: damage; 7: size
  Spec s = gen_spec("ref.spf", "ref.srf", 4, 9, 4);
  const char *img = gen_img(s, 1, 2);
  low_snr(s, img);
  if (mode == 6) { // any text: must end in an answer
    img = "stub";
    s.extra.clear();
    render_spec(s, true);
    std::string t = s.text;
    int c = 1 + choose(SF, 12);
    for (int i = 0; i < c && !t.empty(); i++) {
      size_t p = choose(SF, (uint32_t)t.size()); int q = choose(SF, 7);
      static const char *ins[] = {"{", "}", " { ", " } ", "%", "include ", "include ref.spf ", "\n", "{{", "}}", "\x01", "\xff", " SNR_val_trn { 1 2 3 } ", " EbNo_values ", " res_file ", "{1", "1}"};
      if (q == 0) t[p] = (char)choose(SF, 256); else if (q == 1) t.erase(p, 1 + choose(SF, 30)); else if (q <= 3) t.insert(p, ins[choose(SF, 17)]); else if (q == 4) t.insert(p, std::string(1 + choose(SF, 1500), "a{}1 \n"[choose(SF, 6)])); else if (q == 5) t = t.substr(0, p); else { size_t b = choose(SF, (uint32_t)t.size()); t.insert(p, t.substr(b, 1 + choose(SF, 60))); }
    }
    s.text = t; install(s);
    Life *l = new_life(s);
    cnt("fault.damaged_parameter_file");
    Node *n = new_node(image(img, 0), nullptr, 0); n->user = l; l->node = n;
    n->body = [l]() { Harness h; void *inst = nullptr; int r = c_init(l->spec.spf, 1, true, &inst); cur->exit_code = r; if (r == 0) { cnt("probe.damaged_but_usable"); c_state(inst); c_close(inst); } };
    run_world();
    sh->nontrivial = true;
    describe("damaged parameter file -> " + sf("%d", l->init_rc));
    return;
  }
  render_spec(s, false); install(s);
  std::vector<std::string> items = items_of(s);
  Life *ref = new_life(s); script(ref); ref->det_seed = 1 + choose(SW, 0x7ffffffe); ref->cap = 12; ref->cost = 1000;
  start_held(ref, img, 0, HOpts(), 0);
  run_world();
  if (!ref->inited) violate("init-refused", "a valid parameter file was refused: %s", s.text.c_str());
  Acc want = acc_life(ref, Acc());
  Spec q = s; q.spf = "v.spf"; q.res = "v.srf";
  for (auto &i : items) if (i == "res_file ref.srf") i = "res_file v.srf";
  relayout(q, items, true);
  stretch(q);
  bool may_refuse = false, must_refuse = false; std::string what = "layout";
  if (mode == 4) {
    may_refuse = true; what = "faults while reading";
    int k = choose(SF, 6);
    if (k == 0) fsf.read_eio = 300; if (k == 1) fsf.open_fail = 300; if (k == 2) fsf.emfile = 300;
    fsf.short_read = 400;
    if (k >= 4) { fsf.read_eio = 400; fsf.short_read = 900; } // most often: the disk fails after part of the file
  }
  if (mode == 5) {
    must_refuse = true;
    int k = choose(SF, 8);
    std::vector<std::string> inc; for (auto &i : q.includes) inc.push_back(i.first);
    if (k <= 2 && !inc.empty()) {
      const std::string &f = inc[choose(SF, (uint32_t)inc.size())];
      if (k == 0) { q.includes.erase(f); what = "included file missing"; }
      else if (k == 1) { q.includes[f] = ""; what = "included file empty"; }
      else { q.includes[f] += std::string(1, '\0') + " x 1"; what = "included file with a zero byte"; }
    } else if (k == 3) { q.text += "\ninclude no.such.file "; what = "included file missing"; }
    else if (k == 4) { q.text += "\nlast_option"; what = "a parameter without a value"; }
    else if (k == 5) { q.text += "\nlast_group { 1 2"; what = "a group that is not closed"; }
    else { // a value that is not what it should be
      std::vector<std::string> it = items; what.clear();
      for (int t = 0; t < 40 && what.empty(); t++) {
        std::string &i = it[choose(SF, (uint32_t)it.size())];
        size_t a = i.find(' '), b = i.find('{'); if (a == std::string::npos) continue;
        std::string key = i.substr(0, a);
        bool sw = key == "random_codeword" || key == "ml_lb" || key == "ml_lb_hard" || key == "use_variable_list";
        bool in = key == "min_trials_per_snr" || key == "min_errors_per_snr" || key == "RM_m" || key == "RM_r" || key == "c_m" || key == "border_node_lsize" || key == "permutations", fl = key == "EbNo_values" || key == "fixed_R", pr = key == "SNR_val_trn" || key == "distance_threshold";
        if (!(sw || in || fl || pr) || i.find("\nuse_") != std::string::npos) continue;
        size_t lo = b == std::string::npos ? a + 1 : b + 1; std::vector<std::pair<size_t, size_t>> tok;
        for (size_t p = lo; p < i.size();) { while (p < i.size() && strchr(" \t\n\r,", i[p])) p++; size_t e = p; while (e < i.size() && !strchr(" \t\n\r,{}%", i[e])) e++; if (e == p) { if (p < i.size() && i[p] == '%') break; p++; continue; } tok.push_back({p, e}); p = e; }
        if (tok.empty()) continue;
        size_t w = choose(SF, (uint32_t)tok.size());
        bool whole = in || (key == "SNR_val_trn" && w % 2) || (key == "distance_threshold" && w % 2 == 0);
        static const char *swb[] = {"yes", "ON", "1", "onn", "of", "0"};
        std::string bad = sw ? swb[choose(SF, 6)] : no_number(SF, whole);
        static const char *none[] = {"4000", "-4000", "1e30", "-1e300", "1e300"};
        if ((key == "EbNo_values" || (key == "SNR_val_trn" && !whole)) && chance(SF, 1, 3)) bad = none[choose(SF, 5)]; // no noise level
        if (key == "fixed_R" && chance(SF, 1, 3)) bad = "-0.5";
        what = "'" + bad + "' in " + key;
        i.replace(tok[w].first, tok[w].second - tok[w].first, bad);
      }
      if (what.empty()) { what = "a parameter without a value"; it.push_back("last_option"); q.text += "\nlast_option"; }
      else { relayout(q, it, true); stretch(q); }
      cnt("fault.value_of_the_wrong_kind");
    }
    cnt("fault.malformed_parameter_file");
  }
  if (mode == 7) { // near the size limit
    may_refuse = true; what = "large file";
    int k = choose(SF, 3); size_t sz = k == 0 ? 139000 + choose(SF, 2000) : k == 1 ? 139990 + choose(SF, 20) : 60000 + choose(SF, 100000);
    bool inc = !q.includes.empty() && choose(SF, 2);
    std::string &t = inc ? q.includes.begin()->second : q.text;
    size_t room = sz > t.size() + 10 ? sz - t.size() - 10 : 10;
    int style = choose(SF, 3);
    std::string pad = style == 0 ? "\n%" + std::string(room, 'x') + "\n" : style == 1 ? std::string(room, ' ') : "";
    if (style == 2) while (pad.size() + 20 < room) pad += "\nunknown_par 1";
    t = choose(SF, 2) ? pad + "\n" + t : t + "\n" + pad + "\n";
    if (sz < 60100 && !inc && style < 2) may_refuse = false;
    cnt("fault.large_parameter_file");
  }
  install(q);
  Life *l = new_life(q); l->perr = ref->perr; l->per_er = ref->per_er; l->cap = ref->cap; l->det_seed = ref->det_seed; l->cost = 1000;
  Node *n = new_node(image(img, 1), nullptr, g_now + 1000);
  n->user = l; l->node = n;
  int af = mode == 4 && choose(SF, 2) ? (int)choose(SF, 25) : -1;
  n->body = [l, af]() {
    Harness h; void *inst = nullptr; cur->exit_code = 1;
    FsFaults keep = fsf;
    if (af >= 0) { cur->alloc_fail_at = af; cur->alloc_fail_n = 1 + choose(SF, 2); }
    int r = c_init(l->spec.spf, 1000000, true, &inst);
    cur->alloc_fail_at = -1; fsf = FsFaults();
    if (r != 0) return;
    do r = c_run(inst); while (r == 17);
    int v = c_save(inst); c_close(inst);
    cur->exit_code = r == 0 && v == 0 ? 0 : 1;
  };
  run_world();
  auto show = [&]() { std::string t = q.text.substr(0, 700); for (auto &i : q.includes) t += "\n--- " + i.first + ":\n" + i.second.substr(0, 400); return t; };
  if (!l->inited) {
    if (l->init_rc == 0 || l->init_rc == -777) violate("no-answer", "the program gave no answer");
    if (!may_refuse && !must_refuse) violate("layout-refused", "the same parameters in another layout were refused (%s): %s", what.c_str(), show().c_str());
    if (vfs.get("v.srf")) violate("refused-but-saved", "the program refused to run but wrote results");
    cnt("probe.refused");
  } else {
    if (must_refuse) violate("malformed-accepted", "%s: accepted: %s", what.c_str(), show().c_str());
    if (l->th != ref->th) violate("layout-matters", "%s: what is simulated differs from the reference layout (%zu and %zu trials): %s", what.c_str(), l->th.size(), ref->th.size(), show().c_str());
    need_acc("with another layout", "v.srf", want);
    cnt("probe.same_meaning");
  }
  sh->nontrivial = q.text != s.text;
  describe(sf("%s, %s, %zu included files -> %s: ", img, what.c_str(), q.includes.size(), l->inited ? "same run" : "refused") + show().substr(0, 600));
}
static PropReg pp01({"P01", p01, 10000, 150000, "one run = a reference parameter file and the same parameters in a random layout (order, white space, comments, line ends, unknown parameters, nested includes), or with read faults, missing or malformed parts, near the size limit, or randomly damaged; non-trivial: a different text was read", REAL, STUB});
