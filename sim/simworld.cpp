#include "simworld.h"

std::vector<std::unique_ptr<Life>> lives;
uint64_t g_seq;
void (*g_extra_hook)(const char *);

static uint64_t fault_sum() {
  uint64_t s = 0;
  for (uint32_t i = 0; i < sh->ncnt; i++) if (!strncmp(sh->cnt[i].name, "fault.", 6) && strcmp(sh->cnt[i].name, "fault.stall") && strcmp(sh->cnt[i].name, "fault.short_read") && strcmp(sh->cnt[i].name, "fault.short_write")) s += sh->cnt[i].v;
  return s;
}

Life *new_life(const Spec &s) {
  lives.push_back(std::make_unique<Life>());
  Life *l = lives.back().get();
  l->spec = s;
  l->truth.resize(s.pts.size());
  return l;
}
Node *start_main(Life *l, const char *img, int copy, bool nr, int si, int ri, int64_t t0) {
  std::vector<std::string> a = {"sim", l->spec.spf};
  int order = choose(SW, 6);
  static const char *orders[] = {"nsr", "nrs", "snr", "srn", "rns", "rsn"};
  for (const char *o = orders[order]; *o; o++) {
    if (*o == 'n' && nr) a.push_back("-nr");
    if (*o == 's' && si >= 0) { a.push_back("-si"); a.push_back(sf("%d", si)); }
    if (*o == 'r' && ri >= 0) { a.push_back("-ri"); a.push_back(sf("%d", ri)); }
  }
  Node *n = new_main(image(img, copy), a, t0);
  n->user = l; l->node = n;
  std::string s; for (auto &q : a) s += " " + q;
  ev("n%d start t=%lld:%s", n->id, (long long)t0, s.c_str());
  return n;
}

// ---------------- hooks between main / simulator / codec
static bool is_stub() { return !strcmp(cur->img->kind, "stub") || !strcmp(cur->img->kind, "own") || cur->win(); }
extern "C" {
int hook_sim_init(void *sp, void **inst) {
  int64_t w0 = (g_epoch * 1000000 + cur->t + cur->skew) / 1000000;
  int r = cur->img->sim_init(sp, inst);
  Harness h;
  if (cur->user) { L()->wall0 = std::max<int64_t>(0, w0); L()->wall1 = std::max<int64_t>(0, (g_epoch * 1000000 + cur->t + cur->skew) / 1000000); }
  if (cur->user) { L()->init_rc = r; L()->inited = r == 0; }
  ev("n%d init -> %d", cur->id, r);
  return r;
}
void hook_sim_close(void *inst) { cur->img->sim_close(inst); }
int hook_sim_run(void *inst) {
  Life *l = L();
  if (l) { l->last_run_t0 = cur->t; l->runs++; l->inst = inst; if (l->before_run) { Harness h; l->before_run(l); } }
  int r = cur->img->sim_run(inst);
  Harness h;
  if (l) {
    if (r < 0) l->run_failed = true;
    note("n%d slice -> %d  t=%.3f trials=%lld", cur->id, r, cur->t * 1e-6, (long long)l->trials);
    if (l) l->run_rc = r;
    if (l->after_run) l->after_run(l);
  }
  return r;
}
void hook_sim_state_str(void *inst, char *d) {
  cur->img->sim_state_str(inst, d);
  Harness h;
  if (L() && L()->on_state_str) L()->on_state_str(L(), d);
}
void hook_sim_cur_res_str(void *inst, char *d) {
  cur->img->sim_cur_res_str(inst, d);
  Harness h;
  if (L() && L()->on_res_str) L()->on_res_str(L(), d);
}
int hook_sim_save_res(void *inst) {
  Life *l = L();
  Node *n = cur;
  size_t idx = 0;
  if (l) {
    Harness h;
    SaveRec s;
    s.snap = l->truth; s.t0 = n->t; s.faults0 = fault_sum(); s.seq0 = ++g_seq;
    InodeP i = vfs.get(norm_path(l->spec.res.c_str()));
    s.had_before = (bool)i; if (i) s.before = i->data;
    s.fds0 = n->fds.size(); s.blk0 = n->live.size(); s.mem0 = live_bytes(n);
    l->saves.push_back(s);
    idx = l->saves.size() - 1;
    n->save_no = (int)idx;
    ev("n%d save %zu begins t=%.3f", n->id, idx, n->t * 1e-6);
    cnt("probe.saves");
  }
  int r = n->img->sim_save_res(inst);
  if (l) {
    Harness h;
    SaveRec &s = l->saves[idx];
    s.done = true; s.rc = r; s.t1 = n->t; s.fault = fault_sum() != s.faults0; s.seq1 = ++g_seq;
    InodeP i = vfs.get(norm_path(l->spec.res.c_str()));
    s.has_after = (bool)i; if (i) s.after = i->data;
    s.fds1 = n->fds.size(); s.blk1 = n->live.size(); s.mem1 = live_bytes(n);
    n->save_no = -1;
    ev("n%d save %zu -> %d t=%.3f", n->id, idx, r, n->t * 1e-6);
    if (r) cnt("probe.failed_saves"); else cnt("probe.completed_saves");
    inter(0x5A00 + n->id * 4 + (r != 0));
    if (l->after_save) l->after_save(l, s);
  }
  return r;
}
void hook_sim_control(void *inst, int c) { { Harness h; ev("n%d control %d", cur->id, c); } cur->img->sim_control(inst, c); }

static int stub_marker;
int hook_cdc_init(char *p, void **inst) {
  if (!is_stub()) return cur->img->cdc_init(p, inst);
  Harness h;
  L()->cdc_param = p;
  *inst = &stub_marker;
  return 0;
}
int hook_cdc_get_n(void *c) { return is_stub() ? L()->spec.n : cur->img->cdc_get_n(c); }
int hook_cdc_get_k(void *c) { return is_stub() ? L()->spec.k : cur->img->cdc_get_k(c); }
void hook_cdc_set_csnrn(void *c, int i) {
  if (Life *l = L()) { l->csnrn = i; l->cs_set = true; }
  if (!is_stub()) cur->img->cdc_set_csnrn(c, i);
}
void hook_cdc_set_sg(void *c, double s) {
  if (Life *l = L()) { l->sg = s; l->sg_set = true; }
  if (!is_stub()) cur->img->cdc_set_sg(c, s);
}
void hook_cdc_close(void *c) { if (!is_stub()) cur->img->cdc_close(c); }

static void stub_encode(Life *l, const int *x, double *y) { // linear, injective: information bits, then parities
  int n = l->spec.n, k = l->spec.k;
  for (int i = 0; i < n; i++) {
    int b = x[i % k] & 1;
    if (i >= k) b ^= (x[(i / k + i) % k] & 1) & (i / k != 0 && k > 1);
    y[i] = b ? 1.0 : -1.0;
  }
}
static void enc_failure(Life *l) {
  l->enc_failed = true;
  if (!l->ml_due) return; // the trial's comparison with the decoded word could not be made
  std::vector<Counts> a = l->truth; Counts &q = a[l->order.back()];
  if (l->last_en == 0) l->alt.push_back(l->truth);
  q.mltrn -= l->last.mltrn; q.enml -= l->last.enml; q.enml_slack -= l->last.enml_slack;
  l->truth = a; // counted without the comparison, or
  q.trn -= l->last.trn; q.enb -= l->last.enb; q.enbl -= l->last.enbl; q.er -= l->last.er;
  l->alt.push_back(a); // not at all
  l->have_alt = true;
  cnt("probe.comparison_failed");
}
int hook_enc_bpsk(void *c, int *x, double *y) {
  Life *l = L();
  if (!is_stub()) {
    std::vector<int> xi; 
    if (l) { Harness h; l->x.assign(x, x + l->spec.k); l->have_x = true; }
    int r = cur->img->enc_bpsk(c, x, y);
    if (l) { Harness h; if (r == -1) enc_failure(l); else l->cw.assign(y, y + l->spec.n); l->ml_due = false; }
    return r;
  }
  Harness h;
  for (int i = 0; i < l->spec.k; i++) if (x[i] != 0 && x[i] != 1) violate("bad-information-bit", "the encoder was given the information symbol %d", x[i]);
  if (l->encs++ == l->enc_fail_trial) {
    cnt("fault.encoder_failure");
    ev("n%d encoder fails", cur->id);
    enc_failure(l);
    return -1;
  }
  l->ml_due = false;
  l->x.assign(x, x + l->spec.k); l->have_x = true;
  l->cw.resize(l->spec.n);
  stub_encode(l, x, l->cw.data());
  memcpy(y, l->cw.data(), sizeof(double) * l->spec.n);
  return 0;
}
int hook_dec_bpsk(void *c, double *cout, int *xd) {
  Life *l = L();
  Node *nd = cur;
  if (!l) return cur->img->dec_bpsk(c, cout, xd);
  int n = l->spec.n, k = l->spec.k;
  std::vector<double> rx(cout, cout + n);
  std::vector<int> x(k, 0); std::vector<double> cin(n, -1.0);
  if (l->spec.rnd) {
    if (!l->have_x && !l->enc_failed) { Harness h; violate("no-codeword", "a trial with random codewords was decoded without encoding one"); }
    if (l->have_x) { x = l->x; cin = l->cw; }
  }
  int pt;
  if (l->cs_set) pt = l->csnrn;
  else { // the program does not tell its decoder the point number: use the noise level
    pt = -1;
    double R = l->spec.fixedR ? l->spec.fixedR : (double)k / n;
    double best = 1e300;
    for (size_t i = 0; i < l->spec.pts.size(); i++) { double sg = 1 / sqrt(2 * R * pow(10, l->spec.pts[i].snr / 10)), d = fabs(sg - l->sg); if (d < best) { best = d; pt = (int)i; } }
  }
  if (pt < 0 || pt >= (int)l->truth.size()) { Harness h; violate("bad-point", "a trial was simulated for the non-existent SNR point %d", pt); }
  int r, en = 0;
  if (is_stub()) {
    Harness h;
    l->trials++;
    if (l->on_trial) l->on_trial(l, cin.data(), rx.data(), pt);
    int64_t cst = l->cost;
    if (l->cost_jit) cst += (int64_t)choose(SD, (uint32_t)l->cost_jit);
    if (l->trials - 1 == l->slow_trial) { cst += l->slow_us; cnt("fault.slow_trial"); }
    if (nd->crash_in_ops >= 0 && g_count_trials_as_ops && nd->crash_in_ops-- == 0) { cnt("fault.crash_in_trial"); kill_node(nd, "inside a trial"); }
    node_work(cst);
    if (l->trials - 1 == l->dec_fail_trial) {
      cnt("fault.decoder_failure");
      ev("n%d decoder fails at trial %lld", nd->id, (long long)l->trials);
      l->dec_failed = true;
      for (int i = 0; i < k; i++) xd[i] = 7;
      return -1;
    }
    Rng dr(l->det_seed ? mix64(l->det_seed ^ hash_bytes(rx.data(), rx.size() * sizeof(double))) : 0);
    auto ch = [&](uint32_t m) { return l->det_seed ? dr.below(m) : choose(SD, m); };
    uint32_t v = ch(256);
    bool err = 63 - (int)(v & 63) < l->perr, era = 3 - (int)(v >> 6) == 0 && l->per_er && (int)(63 - ch(64)) < l->per_er;
    if (l->truth[pt].trn >= l->cap) err = true;
    for (int i = 0; i < k; i++) xd[i] = x[i];
    if (err) {
      int m = 1 + ch((uint32_t)k), a = ch((uint32_t)k);
      for (int i = 0; i < m; i++) xd[(a + i) % k] ^= 1;
    }
    r = era ? 1 : 0;
  } else {
    l->trials++;
    if (l->on_trial) { Harness h; l->on_trial(l, cin.data(), rx.data(), pt); }
    r = cur->img->dec_bpsk(c, cout, xd);
    Harness h;
    if (r == -1) { l->dec_failed = true; ev("n%d decoder fails", nd->id); return r; }
    int64_t cst = l->cost;
    if (l->cost_jit) cst += (int64_t)choose(SD, (uint32_t)l->cost_jit);
    if (l->trials - 1 == l->slow_trial) { cst += l->slow_us; cnt("fault.slow_trial"); }
    node_work(cst);
    if (l->truth[pt].trn >= l->cap) { cnt("fault.decoder_made_to_err"); for (int i = 0; i < k; i++) xd[i] = x[i] ^ (i == 0); } // so that runs end
  }
  Harness h;
  Counts &t = l->truth[pt];
  Counts before = t;
  for (int i = 0; i < k; i++) if (xd[i] != x[i]) en++;
  t.trn++;
  if (en) { t.enb += en; t.enbl++; }
  if (r == 1) t.er++;
  if (l->spec.ml || l->spec.mlhd) if (r != 1) {
    t.mltrn++;
    std::vector<double> y(n);
    if (is_stub()) stub_encode(l, xd, y.data());
    else { // the real encoder of this program (a pure function of its argument: property C01)
      std::vector<int> t2(xd, xd + k);
      Sut s(cur);
      int64_t af = cur->alloc_fail_at; cur->alloc_fail_at = -1;
      cur->img->enc_bpsk(c, t2.data(), y.data());
      cur->alloc_fail_at = af;
    }
    double d1 = 0, d2 = 0;
    for (int i = 0; i < n; i++) {
      double q = l->spec.mlhd ? (rx[i] > 0 ? 1.0 : -1.0) : rx[i];
      d1 += (cin[i] - q) * (cin[i] - q); d2 += (y[i] - q) * (y[i] - q);
    }
    if (en && fabs(d1 - d2) < 1e-9 * (1 + d1) && !l->spec.mlhd) t.enml_slack++;
    if (d1 > d2) t.enml++;
  }
  l->last = Counts(); l->last.trn = 1; l->last.enb = t.enb - before.enb; l->last.enbl = t.enbl - before.enbl; l->last.er = t.er - before.er;
  l->last.mltrn = t.mltrn - before.mltrn; l->last.enml = t.enml - before.enml; l->last.enml_slack = t.enml_slack - before.enml_slack; l->last_en = en;
  l->ml_due = l->last.mltrn > 0;
  uint64_t rh = hash_bytes(rx.data(), rx.size() * sizeof(double));
  l->th.push_back(mix64(hash_bytes(xd, k * sizeof(int), hash_bytes(cin.data(), n * sizeof(double), rh)) ^ (uint64_t)(pt * 4 + r)));
  if (l->keep_rx) l->rxh.push_back(rh);
  l->order.push_back(pt); l->endt.push_back(nd->t); l->errs.push_back(en);
  l->have_x = false;
  inter(0x7000 + nd->id);
  return r;
}
}

// ---------------- results files
static std::string strip_comments(const std::string &s, std::vector<std::string> *comments) {
  std::string r;
  for (size_t i = 0; i < s.size();) {
    if (s[i] == '%') { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); if (comments) comments->push_back(s.substr(i + 1, e - i - 1)); i = e; }
    else r += s[i++];
  }
  return r;
}
static std::vector<std::string> split_ws(const std::string &s) {
  std::vector<std::string> v; std::string c;
  for (char ch : s) { if (strchr(" \t\r\n,", ch) || ch == 0) { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; }
  if (!c.empty()) v.push_back(c);
  return v;
}
ResFile parse_res(const std::string &data) {
  ResFile f;
  std::vector<std::string> com;
  std::vector<std::string> t = split_ws(strip_comments(data, &com));
  std::map<std::string, std::vector<std::string>> g;
  for (size_t i = 0; i < t.size();) {
    std::string key = t[i++];
    if (i >= t.size()) { f.why = "key " + key + " without a value"; return f; }
    if (t[i] == "{") {
      i++;
      std::vector<std::string> v;
      while (i < t.size() && t[i] != "}") v.push_back(t[i++]);
      if (i >= t.size()) { f.why = "group " + key + " is not closed"; return f; }
      i++;
      if (g.count(key)) { f.why = "group " + key + " appears twice"; return f; }
      g[key] = v;
    } else {
      if (key == "code_n") f.n = atoi(t[i].c_str());
      if (key == "code_k") f.k = atoi(t[i].c_str());
      i++;
    }
  }
  for (auto &q : g) f.groups[q.first] = (int)q.second.size();
  static const char *need[] = {"SNR", "tr_num", "en_bit", "en_bl", "erasures_num", "ml_tr_num", "enml_bl"};
  for (auto k : need) if (!g.count(k)) { f.why = std::string("group ") + k + " is missing"; return f; }
  size_t m = g["SNR"].size();
  for (auto k : need) if (g[k].size() != m) { f.why = std::string("group ") + k + sf(" has %zu values, SNR has %zu", g[k].size(), m); return f; }
  for (auto &q : g) for (auto &x : q.second) { char *e; strtod(x.c_str(), &e); if (*e) { f.why = "not a number in group " + q.first + ": " + x; return f; } }
  auto fl = [&](const char *k, size_t i, std::string &s) { if (g[k].size() != m) return -1.0; s = g[k][i]; return atof(s.c_str()); };
  for (size_t i = 0; i < m; i++) {
    ResEntry e;
    e.txt = g["SNR"][i]; e.snr = atof(e.txt.c_str());
    e.c.trn = atol(g["tr_num"][i].c_str()); e.c.enb = atol(g["en_bit"][i].c_str()); e.c.enbl = atol(g["en_bl"][i].c_str());
    e.c.er = atol(g["erasures_num"][i].c_str()); e.c.mltrn = atol(g["ml_tr_num"][i].c_str()); e.c.enml = atol(g["enml_bl"][i].c_str());
    e.wer = fl("WER", i, e.wer_s); e.err = fl("ERR", i, e.err_s); e.mler = fl("MLER", i, e.mler_s);
    f.e.push_back(e);
  }
  for (auto &c : com) {
    auto v = split_ws(c);
    if (v.size() != 5) continue;
    bool num = true;
    for (auto &x : v) { char *e; strtod(x.c_str(), &e); if (*e) num = false; }
    if (!num) continue;
    ResTable r; r.snr = atof(v[0].c_str());
    for (int i = 0; i < 4; i++) r.v[i] = atof(v[i + 1].c_str());
    for (int i = 0; i < 5; i++) r.s[i] = v[i];
    f.tab.push_back(r);
  }
  f.ok = true;
  return f;
}
std::string make_res(int n, int k, const std::vector<ResEntry> &e) {
  std::string s = sf("code_n %d\ncode_k %d\n\n", n, k);
  auto grp = [&](const char *name, std::function<std::string(const ResEntry &)> f) { s += std::string(name) + " { "; for (auto &q : e) s += f(q) + " "; s += "}\n"; };
  grp("SNR", [](const ResEntry &q) { return q.txt; });
  grp("tr_num", [](const ResEntry &q) { return sf("%ld", q.c.trn); });
  grp("en_bit", [](const ResEntry &q) { return sf("%ld", q.c.enb); });
  grp("en_bl", [](const ResEntry &q) { return sf("%ld", q.c.enbl); });
  grp("erasures_num", [](const ResEntry &q) { return sf("%ld", q.c.er); });
  grp("WER", [](const ResEntry &q) { return sf("%.3e", (double)q.c.enbl / q.c.trn); });
  grp("ERR", [](const ResEntry &q) { return sf("%.3e", (double)q.c.er / q.c.trn); });
  grp("ml_tr_num", [](const ResEntry &q) { return sf("%ld", q.c.mltrn); });
  grp("enml_bl", [](const ResEntry &q) { return sf("%ld", q.c.enml); });
  grp("MLER", [](const ResEntry &q) { return sf("%.3e", q.c.mltrn ? (double)q.c.enml / q.c.mltrn : 0.0); });
  s += "\n% SNR   BER        WER        ERR        ML LB";
  for (auto &q : e) s += sf("\n%% %3.2f  %.3e  %.3e  %.3e  %.3e", q.snr, (double)q.c.enb / ((double)q.c.trn * k), (double)q.c.enbl / q.c.trn, (double)q.c.er / q.c.trn, q.c.mltrn ? (double)q.c.enml / q.c.mltrn : 0.0);
  return s;
}
Acc acc_of(const ResFile &f) { Acc a; for (auto &e : f.e) a[e.snr] += e.c; return a; }
void acc_add(Acc &a, const Spec &s, const std::vector<Counts> &c) { for (size_t i = 0; i < c.size(); i++) if (!c[i].zero()) a[s.pts[i].snr] += c[i]; }
bool acc_same(const Acc &a, const Acc &b, std::string &why) {
  std::set<double> k;
  for (auto &q : a) k.insert(q.first);
  for (auto &q : b) k.insert(q.first);
  for (double x : k) {
    Counts z, ca = a.count(x) ? a.at(x) : z, cb = b.count(x) ? b.at(x) : z;
    if (!ca.same(cb)) { why = sf("at %g dB: file has %s, should have %s", x, ca.str().c_str(), cb.str().c_str()); return false; }
  }
  return true;
}
std::string acc_str(const Acc &a) { std::string s; for (auto &q : a) s += sf("[%g: %s] ", q.first, q.second.str().c_str()); return s; }

// ---------------- generators
std::string snr_text(Stream s, int style) {
  switch (style) {
    case 0: return sf("%d", (int)choose(s, 8));
    case 1: { static const char *q[] = {"0", "0.5", "1", "1.5", "2", "-0.5", "-1", "2.25", "0.25", "3", "10", "-10"}; return q[choose(s, 12)]; }
    case 2: return sf("%.2f", -3 + 0.05 * choose(s, 200));
    case 3: { static const char *q[] = {"0.1", "1e-1", "+1.10", "1.0", "01", "1.10", "-0", "2.", ".5", "0.50"}; return q[choose(s, 10)]; }
    case 5: { static const char *q[] = {"1", "1.01", "1.001", "1.0001", "1.00001", "1.000001", "0.99999", "0.999", "2.5", "2.50001", "2.4999", "1.00000000001", "-1.001", "-1", "2.501"}; return q[choose(s, 15)]; } // nearly equal
    case 6: { static const char *q[] = {"0.3", "0.30000000000000004", "0.7000000000000001", "0.7", "1.3333333333333333", "2.2000000000000002", "2.2", "1.1", "-0.6666666666666666", "3.3333333333333335", "1e-17"}; return q[choose(s, 11)]; } // as a script prints sums and quotients
    default: return sf("%.7f", choose(s, 30) / 7.0);
  }
}
Spec gen_spec(const std::string &spf, const std::string &res, int maxpts, int maxtrn, int maxerr) {
  Spec s;
  s.spf = spf; s.res = res;
  int m = 1 + choose(SW, (uint32_t)maxpts);
  int style = choose(SW, 9); style = style == 8 ? 5 : style % 4;
  bool sorted = !chance(SW, 1, 3);
  s.val_trn = choose(SW, 2);
  std::set<double> used;
  bool many = maxpts >= 3 && chance(SW, 1, 10); // nearly as many values as there is room for
  if (many) { m = 14 + choose(SW, maxpts >= 5 ? 30 : 16); maxtrn = std::min(maxtrn, 3); maxerr = std::min(maxerr, 2); }
  if (many && maxpts == 5 && chance(SW, 1, 4)) { // exactly as many as there is room for
    cnt("probe.fifty_snr_values");
    for (int i = 0; i < 50; i++) { Point p; p.txt = sf("%.2f", -3 + 0.25 * i); p.snr = atof(p.txt.c_str()); p.trn_req = s.val_trn ? (int)choose(SW, (uint32_t)maxtrn) : 0; used.insert(p.snr); s.pts.push_back(p); }
    for (int i = 50; i-- > 1;) std::swap(s.pts[i], s.pts[choose(SW, i + 1)]);
    m = 0;
  }
  for (int i = 0; i < m; i++) {
    Point p; p.txt = many ? sf("%.2f", -3 + 0.25 * choose(SW, maxpts >= 5 ? 50 : 32)) : snr_text(SW, style); p.snr = atof(p.txt.c_str());
    p.trn_req = s.val_trn ? (int)choose(SW, (uint32_t)maxtrn) : 0;
    if (used.count(p.snr)) continue;
    used.insert(p.snr);
    s.pts.push_back(p);
  }
  if (sorted) std::sort(s.pts.begin(), s.pts.end(), [](const Point &a, const Point &b) { return a.snr < b.snr; });
  if (s.pts.size() < 50 && chance(SW, 1, 10)) { size_t i = choose(SW, (uint32_t)s.pts.size()); Point p = s.pts[i]; if (p.trn_req) p.trn_req = 1 + choose(SW, (uint32_t)maxtrn); s.pts.insert(s.pts.begin() + i, p); } // a value given twice
  s.min_trn = choose(SW, (uint32_t)maxtrn);
  s.min_err = choose(SW, (uint32_t)maxerr);
  s.rnd = choose(SW, 2);
  int ml = choose(SW, 4);
  s.ml = ml == 1 || ml == 3; s.mlhd = ml >= 2;
  if (chance(SW, 1, 5)) s.fixedR = 0.1 * (1 + choose(SW, 9));
  static const int ns[] = {2, 4, 8, 16, 6, 32};
  s.n = ns[choose(SW, 6)];
  s.k = 1 + choose(SW, (uint32_t)s.n);
  return s;
}
void render_spec(Spec &s, bool fancy) {
  std::vector<std::string> item;
  item.push_back("res_file " + s.res);
  std::string g;
  if (s.val_trn) { g = "SNR_val_trn {\n"; for (auto &p : s.pts) g += "   " + p.txt + sf("  %d\n", p.trn_req); g += "}"; }
  else { g = "EbNo_values {"; for (auto &p : s.pts) g += " " + p.txt; g += " }"; }
  item.push_back(g);
  if (s.min_trn) item.push_back(sf("min_trials_per_snr %d", s.min_trn));
  if (s.min_err) item.push_back(sf("min_errors_per_snr %d", s.min_err));
  if (s.rnd || choose(SW, fancy ? 2 : 4) == 1) item.push_back(std::string("random_codeword ") + (s.rnd ? "on" : "off"));
  if (s.ml || choose(SW, fancy ? 2 : 4) == 1) item.push_back(std::string("ml_lb ") + (s.ml ? "on" : "off"));
  if (s.mlhd || choose(SW, fancy ? 2 : 4) == 1) item.push_back(std::string("ml_lb_hard ") + (s.mlhd ? "on" : "off"));
  if (s.fixedR) item.push_back(sf("fixed_R %.6g", s.fixedR));
  if (fancy) {
    if (choose(SW, 2)) item.push_back("some_option 17");
    if (choose(SW, 3) == 2) item.push_back("some_group {\n  a b\n  c }");
    for (size_t i = item.size(); i-- > 1;) std::swap(item[i], item[choose(SW, (uint32_t)i + 1)]);
  }
  if (!s.extra.empty()) { // codec parameters, in their order
    size_t pos = fancy ? 0 : item.size();
    for (auto &e : s.extra) { if (fancy) pos += choose(SW, (uint32_t)(item.size() - pos + 1)); item.insert(item.begin() + pos, e); pos++; }
  }
  s.text.clear();
  for (auto &i : item) { s.text += i + "\n"; if (fancy && choose(SW, 4) == 3) s.text += "% a comment { here\n\n"; }
}
void install(const Spec &s) {
  vfs.put(norm_path(s.spf.c_str()), s.text);
  for (auto &q : s.includes) vfs.put(norm_path(q.first.c_str()), q.second);
}
std::string no_number(Stream st, bool integer) {
  static const char *bad[] = {"x", "1x", "nan", "inf", "-", "--3", "1..5", "a12", "0x3", "12_", "1.5", "3000000000", "1e12", "-99999999999", "0.25"};
  return bad[choose(st, integer ? 15 : 10)];
}
std::string gen_base(const std::string &res, int n, int k, const std::vector<std::string> &snrs, bool big) {
  std::map<double, ResEntry> m;
  for (auto &t : snrs) {
    ResEntry e; e.txt = t; e.snr = atof(t.c_str()); e.txt = sf("%.15g", e.snr); if (atof(e.txt.c_str()) != e.snr) e.txt = sf("%.17g", e.snr);
    long B = big ? 1900000000l : 5000;
    e.c.trn = 1 + choose(SW, (uint32_t)B);
    e.c.enbl = choose(SW, (uint32_t)(e.c.trn + 1));
    e.c.enb = std::min<long>(e.c.enbl ? e.c.enbl + choose(SW, 1000) : 0, (long)1900000000);
    if (e.c.enb > e.c.enbl * k) e.c.enb = std::min<long>(e.c.enbl * k, 1900000000);
    if (choose(SW, 2)) e.c.er = choose(SW, (uint32_t)(e.c.trn + 1));
    if (choose(SW, 2)) { e.c.mltrn = e.c.trn - e.c.er; if (e.c.mltrn) e.c.enml = choose(SW, (uint32_t)std::min(e.c.mltrn + 1, e.c.enbl + 1)); }
    m[e.snr] = e;
  }
  std::vector<ResEntry> v;
  for (auto &q : m) v.push_back(q.second);
  std::string s = make_res(n, k, v);
  vfs.put(norm_path(res.c_str()), s);
  return s;
}

// The same old results in another layout (another version of the program, or somebody's editor).
void relay_res(const std::string &res) {
  InodeP f = vfs.get(norm_path(res.c_str()));
  if (!f || choose(SW, 3) < 2) return;
  std::vector<std::string> ls; std::string tail, txt = f->data;
  for (size_t p = 0; p < txt.size();) { size_t q = txt.find('\n', p); if (q == std::string::npos) q = txt.size(); std::string l = txt.substr(p, q - p); if (l[0] == '%') { tail = txt.substr(p); break; } if (!l.empty()) ls.push_back(l); p = q + 1; }
  auto del = [&](const char *g) { for (size_t i = 0; i < ls.size(); i++) if (ls[i].compare(0, strlen(g) + 1, std::string(g) + " ") == 0) { ls.erase(ls.begin() + i); return; } };
  for (const char *g : {"WER", "ERR", "MLER"}) if (choose(SW, 3) == 2) del(g);
  if (choose(SW, 2)) for (size_t i = ls.size(); i-- > 1;) std::swap(ls[i], ls[choose(SW, (uint32_t)i + 1)]);
  static const char *x[] = {"note { 1 2 3 }", "date 17", "% made by hand { 1 2", "SNR_unit dB", "tr_num_old { }", "% 1 2 3"};
  if (choose(SW, 3) == 2) ls.insert(ls.begin() + choose(SW, (uint32_t)ls.size() + 1), x[choose(SW, 6)]);
  bool cr = choose(SW, 4) == 3, tab = choose(SW, 4) == 3;
  txt.clear();
  for (auto &l : ls) { if (tab && l[0] != '%') for (char &c : l) if (c == ' ' && choose(SW, 4) == 3) c = choose(SW, 2) ? '\t' : '\n'; txt += l + (cr ? "\r\n" : "\n"); }
  if (choose(SW, 2)) txt += tail;
  f->data = txt;
  cnt("probe.old_results_in_another_layout");
}

void make_dirs(const std::string &f) {
  for (size_t p = 0; (p = f.find('/', p)) != std::string::npos; p++) if (!vfs.get(f.substr(0, p))) { InodeP d = vfs.put(f.substr(0, p), ""); d->dir = true; }
}
std::string res_name(const std::string &u) {
  int k = choose(SW, 20);
  std::string r = u;
  if (k == 10) r = "results/" + u;
  if (k == 11) r = "my.results/2024/" + u;
  if (k == 12) r = "x";
  if (k == 13) r = u + ".srf";
  if (k == 14) r = "." + u;
  if (k == 15) r = u + ".bak";
  if (k == 16) r = std::string(1 + choose(SW, 240), 'n') + ".srf";
  if (k == 17) { r.clear(); int d = 1 + choose(SW, 4); for (int i = 0; i < d; i++) r += std::string(1 + choose(SW, 230), (char)('a' + i)) + "/"; r += u; } // below the documented 1000 characters
  if (k == 18) r = "RM(3_2)-N8_K4+=~@#$.srf";
  if (k == 19) r = u + ".bsy.tmp";
  make_dirs(r);
  return r;
}
