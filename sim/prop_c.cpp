// Codec properties C01..C07: a process with several codec instances at the receiving ends of faulty channels.
#include "codecs.h"
#include "simworld.h"

void common_setup();
static const char *REALC = "the codec programs' cdc_*/enc_bpsk/dec_bpsk with their decoders, formats and list code, spf_par.c, srm_utils.c, crc.c (unmodified, compiled from the working tree)";
static const char *STUBC = "channel (noise and faults), allocator, memory contents, file system";

static const uint8_t FILLS[] = {0xA5, 0x00, 0xFF, 0x7B, 0x3F};
struct Station { Cdc c; CodecCfg cfg; double sg = 1; int snrn = 0; int words = 0; bool dirty = false; };
struct Word { int st; Bits x; Vec tx, rx; double sg; int snrn; std::string what; bool light = false; bool rnd = false; };

static Node *proc(const char *img, int copy) { Node *n = new_node(image(img, copy), nullptr, 0); n->user = nullptr; return n; }
struct In { Node *p; In(Node *n) { p = cur; cur = n; } ~In() { cur = p; } };

static std::string hex(const Bits &b) { std::string s; for (int v : b) s += v == 0 ? '0' : v == 1 ? '1' : '?'; return s; }
static void ev_bits(const char *what, const Bits &b) { ev("%s %016llx", what, (unsigned long long)hash_bytes(b.data(), b.size() * sizeof(int))); }
static bool binary(const Bits &b) { for (int v : b) if (v != 0 && v != 1) return false; return true; }

// ---- the channel
enum Load { LIGHT, MIXED };
static bool g_weak; // signals so weak that no decoder value meets its limit
static bool g_moderate; // keep most values away from the decoders' limits, where everything is a tie
static double pick_sigma(Stream s) { static const double q[] = {1, 0.5, 0.7, 0.3, 2, 0.1, 4, 0.03}, q2[] = {1, 0.6, 0.8, 0.5, 2, 0.7, 4, 1.4}, q3[] = {2, 4, 3, 1.4, 6, 1, 8, 2.5}; return (g_weak ? q3 : g_moderate ? q2 : q)[choose(s, 8)]; }
static void transmit(Word &w, const CodecCfg &c, Load load) {
  int n = c.n;
  Rng g(choose(SD, 0x7fffffff));
  double s2 = w.sg * w.sg;
  w.rx.resize(n);
  auto amp = [&](double llr) { return llr * s2 / 2; }; // received amplitude that means this log-likelihood ratio
  if (load == LIGHT) {
    w.light = true;
    int kind = choose(SF, 6), d = mindist(c);
    static const double base[] = {8, 20, 100, 1e3, 1e6, 1e12};
    double a = base[choose(SF, 6)], b = base[choose(SF, 6)];
    for (int i = 0; i < n; i++) w.rx[i] = w.tx[i] * amp(a);
    w.what = sf("LLR %g", a);
    if (kind == 0) cnt("fault.none");
    if (kind == 1) { w.what = sf("LLR %g or %g", a, b); for (int i = 0; i < n; i++) if (g.below(2)) w.rx[i] = w.tx[i] * amp(b); cnt("fault.unequal_gain"); }
    if (kind == 2) { w.what = "LLR 8..1e12"; for (int i = 0; i < n; i++) w.rx[i] = w.tx[i] * amp(8 * pow(10, g.u() * 11)); cnt("fault.unequal_gain"); }
    if (kind == 3) { int q = 1 + choose(SF, 3); for (int i = 0; i < q; i++) w.rx[g.below(n)] = 0; w.what += " weak symbols"; cnt("fault.weak_symbols", q);
      for (int i = 0; i < n; i++) if (w.rx[i] == 0) w.rx[i] = w.tx[i] * amp(0.5 + 4 * g.u()); }
    if (kind >= 4 && d >= 4) { // inverted symbols, all of about the same amplitude
      static const double lvs[] = {2, 4, 8, 20, 600, 1e6};
      double lv = lvs[choose(SF, 6)];
      if (c.m > 6) lv = std::max(lv, 8.0); // products of hundreds of weak values are nothing but rounding
      int most = c.img == "d0" || c.img == "d1" ? (d >= 32 ? d / 8 : d / 4) : std::min(3, d / 4); // sums of limited values need a margin in larger codes and lists
      int t = 1 + choose(SF, (uint32_t)most), pat = choose(SF, 3);
      for (int i = 0; i < n; i++) w.rx[i] = w.tx[i] * amp(lv * (pat == 1 ? 1 : 0.95 + 0.1 * g.u()));
      std::set<int> f; while (pat != 2 && (int)f.size() < t) f.insert(g.below(n));
      if (pat == 2) { f.insert(g.below(n)); while ((int)f.size() < t) { int v = 1 << g.below(c.m); std::set<int> h = f; for (int i : h) if ((int)f.size() < t) f.insert(i ^ v); } } // regularly spaced
      for (int i : f) w.rx[i] = -w.rx[i];
      w.what = sf("LLR %g, %d of %d symbols inverted", lv, t, n); cnt("fault.inverted_symbols", t);
    }
    return;
  }
  for (int i = 0; i < n; i++) w.rx[i] = w.tx[i] + w.sg * g.gauss();
  w.what = "noise";
  cnt("fault.channel_noise");
  int faults = choose(SF, 3);
  for (int f = 0; f < faults; f++) {
    int k = choose(SF, 8);
    switch (k) {
      case 0: { int q = 1 + choose(SF, (uint32_t)n); for (int i = 0; i < q; i++) { int p = g.below(n); w.rx[p] = -w.rx[p]; } w.what += " inverted"; cnt("fault.inverted_symbols", q); break; }
      case 1: { int a = choose(SF, (uint32_t)n), q = 1 + choose(SF, (uint32_t)n); for (int i = 0; i < q; i++) w.rx[(a + i) % n] *= -1; w.what += " burst"; cnt("fault.burst"); break; }
      case 2: { int q = 1 + choose(SF, (uint32_t)n); for (int i = 0; i < q; i++) { int p = g.below(n); w.rx[p] = 0.02 * w.sg * g.gauss(); } w.what += " weak"; cnt("fault.weak_symbols", q); break; }
      case 3: { double a = g_moderate ? 0.2 + 1.5 * g.u() : pow(10, -2 + 4 * g.u()); for (auto &v : w.rx) v *= a; w.what += sf(" gain %.3g", a); cnt("fault.gain"); break; }
      case 4: { for (auto &v : w.rx) v = w.sg * g.gauss(); w.what = "only noise"; cnt("fault.signal_lost"); break; }
      case 5: { double a = g.u() < 0.5 ? 1 : -1; for (auto &v : w.rx) v = a * fabs(v) * (1 + 0.01 * g.u()); w.what += " stuck"; cnt("fault.stuck_receiver"); break; }
      case 6: { int q = choose(SF, (uint32_t)n); for (int i = q; i < n; i++) w.rx[i] += w.sg * 3 * g.gauss(); w.what += " jammed"; cnt("fault.jamming"); break; }
      default: { int q = 1 + choose(SF, (uint32_t)std::min(n, 3)); for (int i = 0; i < q; i++) w.rx[g.below(n)] *= g_moderate ? 3 : 1e3; w.what += " spikes"; cnt("fault.spikes", q); break; }
    }
  }
}
static Bits gen_word(int k) {
  Rng g(choose(SW, 0x7fffffff));
  Bits x = rand_bits(g, k);
  int s = choose(SW, 8);
  if (s == 6) x.assign(k, 0);
  if (s == 7) x.assign(k, 1);
  return x;
}

// ---- one codec process with some stations; every operation goes through here
struct LinkOpt {
  std::vector<std::string> kinds; CfgOpt cfg; int max_st = 3, max_words = 14; Load load = MIXED;
  int alloc_pct = 0;               // percentage of operations that meet a failing allocation
  int reopen_pct = 8;
  std::string fmt;                 // reliability format other than the default one
};
struct Link {
  LinkOpt o; Node *n0 = nullptr; std::vector<Station> st; std::vector<Word> done; std::vector<RefDec> got;
  std::function<void(Station &, Word &, int rc, const Bits &out, bool allocfault)> on_dec;
  std::function<void(Station &, const Bits &x, int rc, const Vec &y, bool allocfault)> on_enc;
  std::string desc;
  int decs = 0, failed = 0;
};
static uint64_t alloc_faults() { for (uint32_t i = 0; i < sh->ncnt; i++) if (!strcmp(sh->cnt[i].name, "fault.alloc_failure")) return sh->cnt[i].v; return 0; }
static bool arm(Link &l) {
  cur->alloc_fail_at = -1;
  if (!l.o.alloc_pct || !chance(SF, l.o.alloc_pct, 100)) return false;
  static const int at_[] = {0, 1, 0, 2, 0, 3, 5, 8, 4, 12};
  cur->alloc_fail_at = at_[choose(SF, 10)]; cur->alloc_fail_n = choose(SF, 3) == 2 ? 1000000 : 1 + choose(SF, 2);
  return true;
}
static void open_station(Link &l, Station &s, bool faults) {
  uint64_t f0 = alloc_faults(), b0 = live_bytes(cur); size_t c0 = cur->live.size();
  if (faults) arm(l); else cur->alloc_fail_at = -1;
  s.c.init(l.n0->img, s.cfg);
  cur->alloc_fail_at = -1;
  bool f = alloc_faults() != f0;
  ev("init %s -> %d", s.cfg.str().c_str(), s.c.init_rc);
  if (!s.c.ok) {
    if (!f) violate("init-refused", "valid codec parameters were refused: %s", s.cfg.str().c_str());
    cnt("probe.failed_init");
    if (live_bytes(cur) != b0 || cur->live.size() != c0) violate("init-leak", "a failed initialisation left %zu blocks (%llu bytes) allocated (%s)", cur->live.size() - c0, (unsigned long long)(live_bytes(cur) - b0), s.cfg.str().c_str());
    open_station(l, s, false);
    return;
  }
  if (s.c.img->cdc_get_n) { int n, k; { Sut g(cur); n = s.c.img->cdc_get_n(s.c.h); k = s.c.img->cdc_get_k(s.c.h); } if (n != s.cfg.n || k != s.cfg.k) violate("wrong-code-size", "the codec says n=%d k=%d, its parameters give n=%d k=%d (%s)", n, k, s.cfg.n, s.cfg.k, s.cfg.str().c_str()); }
  s.c.sg(s.sg); s.c.csnrn(s.snrn);
}
static void run_link(Link &l) {
  std::string kind = l.o.kinds[choose(SW, (uint32_t)l.o.kinds.size())];
  l.n0 = proc((kind + l.o.fmt).c_str(), 0);
  In in(l.n0);
  int m = 1 + choose(SW, (uint32_t)l.o.max_st);
  l.st.resize(m);
  for (int i = 0; i < m; i++) {
    l.st[i].cfg = i && choose(SW, 4) == 3 ? l.st[0].cfg : gen_codec(kind.c_str(), l.o.cfg);
    l.st[i].sg = pick_sigma(SW);
    g_fill = FILLS[choose(SF, 5)];
    open_station(l, l.st[i], true);
    l.desc += "[" + l.st[i].cfg.str() + "] ";
  }
  int words = 1 + choose(SW, (uint32_t)l.o.max_words);
  while (words-- > 0) {
    Station &s = l.st[choose(SS, (uint32_t)m)];
    inter(&s - &l.st[0]);
    if (chance(SS, l.o.reopen_pct, 100)) {
      s.c.close(); cnt("probe.reopened"); ev("station %d reopened", (int)(&s - &l.st[0]));
      if (choose(SW, 2)) s.cfg = gen_codec(kind.c_str(), l.o.cfg);
      g_fill = FILLS[choose(SF, 5)];
      open_station(l, s, true);
    }
    if (choose(SS, 3) == 0) { s.sg = pick_sigma(SS); s.snrn = choose(SS, 4); s.c.sg(s.sg); s.c.csnrn(s.snrn); ev("station %d sigma %g", (int)(&s - &l.st[0]), s.sg); }
    Word w; w.st = (int)(&s - &l.st[0]); w.sg = s.sg; w.snrn = s.snrn;
    w.x = gen_word(s.cfg.k);
    g_fill = FILLS[choose(SF, 5)];
    uint64_t f0 = alloc_faults();
    arm(l);
    Vec y; int rc = s.c.enc(w.x, y);
    cur->alloc_fail_at = -1;
    bool af = alloc_faults() != f0;
    ev("station %d enc -> %d %016llx", w.st, rc, rc == -1 ? 0ull : (unsigned long long)hash_bytes(y.data(), y.size() * 8));
    if (l.on_enc) l.on_enc(s, w.x, rc, y, af);
    Bits cw = ref_encode(s.cfg, w.x);
    w.tx.clear(); for (int b : cw) w.tx.push_back(b ? 1 : -1);
    transmit(w, s.cfg, l.o.load);
    g_fill = FILLS[choose(SF, 5)];
    f0 = alloc_faults();
    arm(l);
    Bits out; rc = s.c.dec(w.rx, out);
    cur->alloc_fail_at = -1;
    af = alloc_faults() != f0;
    ev("station %d dec (%s) -> %d %016llx", w.st, w.what.c_str(), rc, (unsigned long long)hash_bytes(out.data(), out.size() * sizeof(int)));
    note("  rx %s out %s", w.what.c_str(), hex(out).c_str());
    l.decs++; s.words++;
    if (rc != 0 && rc != 1) { l.failed++; cnt("probe.failed_decodings"); if (!af) violate("decoding-refused", "decoding returned %d although nothing failed (%s, %s)", rc, s.cfg.str().c_str(), w.what.c_str()); }
    if (l.on_dec) l.on_dec(s, w, rc, out, af);
    l.done.push_back(w);
  }
}
static void close_link(Link &l, bool check) {
  In in(l.n0);
  for (auto &s : l.st) s.c.close();
  if (check && !cur->live.empty()) violate("leak", "all codecs are closed and %zu blocks (%llu bytes) are still allocated", cur->live.size(), (unsigned long long)live_bytes(cur));
}
static int fresh_decode(Node *n, const CodecCfg &c, const Word &w, Bits &out) {
  In in(n); cur->alloc_fail_at = -1;
  Cdc q; q.init(n->img, c);
  if (!q.ok) { sh->in_sut = 0; violate("init-refused", "valid codec parameters were refused: %s", c.str().c_str()); }
  q.sg(w.sg); q.csnrn(w.snrn);
  int r = q.dec(w.rx, out);
  q.close();
  return r;
}


static void finish_link(Link &l, bool nontriv) {
  sh->nontrivial = nontriv;
  cnt("probe.decodings", l.decs);
  describe(l.desc + sf("| %d decodings", l.decs));
}
static const std::vector<std::string> ALL4 = {"d0", "d1", "glp", "polar"};

// ================= C01: no memory
static void check_enc(Station &s, const Bits &x, int rc, const Vec &y, bool af) {
  if (rc == -1) { if (!af) violate("encoding-refused", "encoding returned %d although nothing failed (%s)", rc, s.cfg.str().c_str()); cnt("probe.failed_encodings"); return; }
  Bits c = ref_encode(s.cfg, x);
  for (int i = 0; i < s.cfg.n; i++) if (y[i] != (c[i] ? 1.0 : -1.0)) violate("wrong-codeword", "symbol %d of the codeword of %s is %g, should be %g (%s)", i, hex(x).c_str(), y[i], c[i] ? 1.0 : -1.0, s.cfg.str().c_str());
}
static void same_as_fresh(Link &l, Node *n, const CodecCfg &c, const Word &w, int rc, const Bits &out, const char *where) {
  uint8_t f = g_fill; g_fill = (uint8_t)(f ^ 0x5A);
  Bits b; int r = fresh_decode(n, c, w, b);
  g_fill = f;
  if (r != rc || b != out) violate("history-dependent", "decoding gave %d/%s in its history and %d/%s %s (%s, %s, sigma %g)", rc, hex(out).c_str(), r, hex(b).c_str(), where, c.str().c_str(), w.what.c_str(), w.sg);
}
static void c01() {
  common_setup();
  Link l; l.o.kinds = ALL4; l.o.cfg.maxm = rc.thorough ? 7 : 5; l.o.cfg.bigm = 9; l.o.alloc_pct = choose(SF, 2) ? 15 : 0; l.o.max_st = 4; l.o.max_words = rc.thorough ? 40 : 16;
  l.o.load = choose(SF, 5) == 4 ? LIGHT : MIXED;
  g_moderate = choose(SF, 2);
  Node *n1 = nullptr; struct Last { CodecCfg c; Word w; int rc; Bits out; bool have = false; } last;
  l.on_enc = check_enc;
  l.on_dec = [&](Station &s, Word &w, int rc, const Bits &out, bool) {
    if (!n1) n1 = proc(l.n0->img->kind, 1);
    if (rc != 0 && rc != 1) { s.dirty = true; return; }
    if (!binary(out)) violate("not-a-word", "the decoder returned %s (%s)", hex(out).c_str(), s.cfg.str().c_str());
    same_as_fresh(l, n1, s.cfg, w, rc, out, "on a new codec");
    last = {s.cfg, w, rc, out, true};
    if (s.dirty) cnt("probe.decoded_after_failure");
  };
  run_link(l);
  if (last.have) same_as_fresh(l, proc(l.n0->img->kind, 2), last.c, last.w, last.rc, last.out, "in a new process");
  close_link(l, false);
  finish_link(l, l.decs > 2 && l.st.size() > 1);
}
static PropReg q01({"C01", c01, 14000, 250000, "one run = one codec process (any of the four programs) with 1-4 interleaved codec instances that are closed and reopened, change noise level, meet failing allocations and differing memory contents while words arrive over faulty channels; every decoding is compared with that of a new instance, the last also with one in a new process, every encoding with the (v+u|u)/polar/CRC reference; non-trivial: two instances and three decodings; distinct: interleaving signature x final state", REALC, STUBC});

// ================= C02: light faults
static void c02() {
  common_setup();
  Link l; l.o.kinds = ALL4; l.o.cfg.maxm = rc.thorough ? 8 : 6; l.o.cfg.bigm = rc.thorough ? 13 : 12; l.o.load = LIGHT; l.o.max_words = rc.thorough ? 40 : 12; l.o.alloc_pct = choose(SF, 4) == 3 ? 10 : 0;
  l.on_dec = [&](Station &s, Word &w, int rc, const Bits &out, bool af) {
    if (af && rc != 0 && rc != 1) return;
    if (rc == 1) violate("false-erasure", "an erasure was reported for a lightly disturbed word (%s, %s)", s.cfg.str().c_str(), w.what.c_str());
    if (out != w.x) violate("not-corrected", "sent %s, decoded %s (%s, %s)", hex(w.x).c_str(), hex(out).c_str(), s.cfg.str().c_str(), w.what.c_str());
  };
  run_link(l);
  finish_link(l, l.decs > 1);
}
static PropReg q02({"C02", c02, 14000, 250000, "one run = one codec process with 1-3 interleaved instances receiving words over channels with light faults only (amplitudes equal or mixed up to LLR 1e12, up to 3 weak symbols, up to three symbols, with the recursive decoders up to a quarter of the minimum distance, inverted), across noise-level changes, reopening and failing allocations; non-trivial: two decodings", REALC, STUBC});

// ================= C03..C06: decoding rules
static int g_ml, g_cmp;
static void rule_check(Station &s, Word &w, int rc, const Bits &out, bool af, bool crc_only) {
  if (rc != 0 && rc != 1) { if (!af) violate("decoding-refused", "decoding returned %d although nothing failed (%s)", rc, s.cfg.str().c_str()); return; }
  if (!binary(out)) violate("not-a-word", "the decoder returned %s with code %d (%s)", hex(out).c_str(), rc, s.cfg.str().c_str());
  if (s.cfg.crc.empty() && rc == 1) violate("false-erasure", "an erasure was reported without a CRC (%s, %s)", s.cfg.str().c_str(), w.what.c_str());
  std::vector<RefDec> os = ref_outcomes(s.cfg, w.rx, w.sg, (int)std::max(1.0, std::min(40.0, 8e6 / (4.0 * s.cfg.k * s.cfg.n * std::max((double)s.cfg.L, (double)s.cfg.perms.size())))));
  if (os.empty()) { cnt("probe.undecidable_ties"); return; }
  g_cmp++;
  bool same = false;
  for (auto &d : os) { if ((rc == 1) == d.erasure) { same = true; if (out == d.x) { cnt(os.size() > 1 ? "probe.compared_ties" : d.erasure ? "probe.compared_erasures" : out == w.x ? "probe.compared_right" : "probe.compared_wrong"); return; } } }
  RefDec &d = os[0];
  if (!same) violate(crc_only ? "wrong-verdict" : "wrong-decoding", "the decoder %s, %s word on the final list has a right CRC (%s, %s, sigma %g)", rc == 1 ? "reported an erasure" : "reported success", d.erasure ? "no" : "a", s.cfg.str().c_str(), w.what.c_str(), w.sg);
  violate(crc_only ? "wrong-choice" : "wrong-decoding", "decoded %s, the rule gives %s%s (sent %s; %s, %s, sigma %g, code %d)", hex(out).c_str(), hex(d.x).c_str(), os.size() > 1 ? " or another equally likely word" : "", hex(w.x).c_str(), s.cfg.str().c_str(), w.what.c_str(), w.sg, rc);
}
static void ml_check(Station &s, Word &w, int rc, const Bits &out) {
  if (rc != 0 && rc != 1) return;
  RefDec d = ml_decode(s.cfg, w.rx, w.sg);
  if (d.unsure) return;
  g_ml++; cnt("probe.compared_with_ml");
  if (rc == 1) violate("false-erasure", "an erasure was reported by a decoder with a complete list (%s, %s)", s.cfg.str().c_str(), w.what.c_str());
  if (out != d.x) violate("not-ml", "decoded %s, the most likely word is %s (sent %s; %s, %s, sigma %g)", hex(out).c_str(), hex(d.x).c_str(), hex(w.x).c_str(), s.cfg.str().c_str(), w.what.c_str(), w.sg);
}
static void rule(std::vector<std::string> kinds, int crc, bool crc_only) {
  common_setup();
  g_ml = g_cmp = 0;
  Link l; l.o.kinds = kinds; l.o.max_words = rc.thorough ? 30 : 12; l.o.alloc_pct = choose(SF, 4) == 3 ? 8 : 0; l.o.cfg.force_crc = crc;
  bool ml = choose(SW, 3) == 2;
  bool rec = kinds[0] == "d0" || kinds[0] == "d1";
  l.o.cfg.maxm = rec ? (rc.thorough ? 8 : 6) : (rc.thorough ? 7 : 5); l.o.cfg.bigm = rec ? 12 : 9;
  if (ml && !rec) { l.o.cfg.maxm = kinds[0] == "glp" ? 4 : 3; l.o.cfg.big_list = true; l.o.cfg.bigm = 0; l.o.cfg.allow_var = false; }
  g_moderate = choose(SF, 8) != 7;
  if (!rec && choose(SW, rc.thorough ? 60 : 100) == 1) { ml = false; l.o.cfg = CfgOpt(); l.o.cfg.force_crc = crc; l.o.cfg.shipped = true; l.o.max_st = 1; l.o.max_words = 3; }
  g_weak = ml;
  static double work; work = 0; // copying done by the reference decoder
  l.on_dec = [&](Station &s, Word &w, int rc, const Bits &out, bool af) {
    bool small = s.cfg.k <= 8;
    if (rec) ml = s.cfg.img == "d1" && s.cfg.r == 1;
    if (ml && !rec && small && leaves_complete(s.cfg) && (s.cfg.perms.empty() || s.cfg.L >= 512)) ml_check(s, w, rc, out);
    if (ml && rec && small) ml_check(s, w, rc, out);
    double cost = 8.0 * s.cfg.n * std::max(s.cfg.k, s.cfg.m) * std::max((double)s.cfg.L, (double)s.cfg.perms.size()); if (s.cfg.L > 64 || s.cfg.perms.size() > 64) work += cost;
    if (work < 1.5e9) rule_check(s, w, rc, out, af, crc_only);
  };
  run_link(l);
  finish_link(l, g_cmp + g_ml > 0);
}
static void c03() { rule({"polar"}, 1, true); }
static void c04() { rule({"glp"}, -1, false); }
static void c05() { rule({"polar"}, choose(SW, 3) == 2 ? 1 : 0, false); }
static void c06() { rule({"d0", "d1"}, -1, false); }
#define RULE(what) "one run = " what " with 1-3 interleaved instances receiving words over channels with noise, inversions, bursts, weak symbols, gain errors, spikes, jamming, stuck or lost signal, across noise-level changes, reopening and failing allocations; every decoding is compared with a reference decoder working on plain vectors (skipping numerically undecidable ties), with complete lists also with brute-force maximum likelihood; non-trivial: a decoding was compared"
static PropReg q03({"C03", c03, 10000, 150000, RULE("one CRC-aided polar codec process"), REALC, STUBC});
static PropReg q04({"C04", c04, 9000, 120000, RULE("one Reed-Muller list codec process (masks, permutations, variable list sizes)"), REALC, STUBC});
static PropReg q05({"C05", c05, 10000, 150000, RULE("one polar list codec process"), REALC, STUBC});
static PropReg q06({"C06", c06, 14000, 200000, RULE("one recursive Reed-Muller codec process (either program)"), REALC, STUBC});

// ================= C08: the other reliability formats
static void c08() {
  common_setup();
  g_ml = g_cmp = 0;
  int f = 1 + choose(SW, 2); std::string fmt = f == 1 ? "rho1" : "rho5";
  Link l; l.o.fmt = fmt;
  for (auto k : {"d0", "glp", "polar"}) if (have_image((k + fmt).c_str())) l.o.kinds.push_back(k);
  if (l.o.kinds.empty()) { sh->nontrivial = false; describe("no program can be built with " + fmt); return; }
  g_fmt = f; cnt(f == 1 ? "probe.rho1" : "probe.rho5");
  l.o.load = choose(SF, 3) == 2 ? LIGHT : MIXED; l.o.max_words = rc.thorough ? 30 : 12; l.o.alloc_pct = choose(SF, 4) == 3 ? 8 : 0;
  l.o.cfg.maxm = l.o.load == LIGHT ? 6 : 5; l.o.cfg.bigm = 9;
  g_moderate = choose(SF, 2);
  bool ml = f == 1 && l.o.load != LIGHT && choose(SW, 3) == 2;
  if (ml) { l.o.cfg.maxm = 3; l.o.cfg.big_list = true; l.o.cfg.bigm = 0; l.o.cfg.allow_var = false; }
  l.on_enc = check_enc;
  l.on_dec = [&](Station &s, Word &w, int rc, const Bits &out, bool af) {
    if (l.o.load == LIGHT) {
      if (af && rc != 0 && rc != 1) return;
      g_cmp++;
      if (rc == 1) violate("false-erasure", "%s: an erasure was reported for a lightly disturbed word (%s, %s)", fmt.c_str(), s.cfg.str().c_str(), w.what.c_str());
      if (out != w.x) violate("not-corrected", "%s: sent %s, decoded %s (%s, %s)", fmt.c_str(), hex(w.x).c_str(), hex(out).c_str(), s.cfg.str().c_str(), w.what.c_str());
      return;
    }
    if (ml && s.cfg.img != "d0" && s.cfg.k <= 8 && leaves_complete(s.cfg) && (s.cfg.perms.empty() || s.cfg.L >= 512)) ml_check(s, w, rc, out);
    rule_check(s, w, rc, out, af, false);
  };
  run_link(l);
  finish_link(l, g_cmp + g_ml > 0);
}
static PropReg q08({"C08", c08, 9000, 120000, RULE("one codec process (recursive, Reed-Muller list or polar list decoder) built with the exact or the min-sum log-likelihood format"), "the same codec sources with another delivered format header made active in a copy of formats.h", STUBC});

// ================= C07: short of memory
static void c07() {
  common_setup();
  Link l; l.o.kinds = ALL4; l.o.cfg.maxm = rc.thorough ? 6 : 4; l.o.cfg.bigm = 8; l.o.alloc_pct = 60; l.o.max_words = rc.thorough ? 30 : 12; l.o.reopen_pct = 25;
  g_moderate = choose(SF, 2);
  Node *n1 = nullptr; int bad = 0;
  l.on_enc = [&](Station &s, const Bits &x, int rc, const Vec &y, bool af) {
    check_enc(s, x, rc, y, af);
    bad += rc == -1;
  };
  l.on_dec = [&](Station &s, Word &w, int rc, const Bits &out, bool af) {
    if (!n1) n1 = proc(l.n0->img->kind, 1);
    if (rc == -1) { bad++; return; }
    if (rc != 0 && rc != 1) violate("unclear-failure", "decoding returned %d, which the simulator does not take for a failure (%s)", rc, s.cfg.str().c_str());
    Bits b; int r = fresh_decode(n1, s.cfg, w, b);
    if (r != rc || b != out) violate(af ? "failure-not-reported" : "not-recovered", "%s decoding gave %d/%s, with enough memory all the time it gives %d/%s (%s, %s)", af ? "short of memory," : "after being short of memory,", rc, hex(out).c_str(), r, hex(b).c_str(), s.cfg.str().c_str(), w.what.c_str());
  };
  run_link(l);
  close_link(l, true);
  finish_link(l, alloc_faults() > 0 && l.decs > 0);
}
static PropReg q07({"C07", c07, 14000, 250000, "one run = one codec process with 1-3 interleaved instances in which most initialisations, encodings and decodings meet one, two or only failing allocations at a random place; words that are decoded all the same are compared with a codec that had enough memory, live blocks are counted after a failed initialisation and after closing; non-trivial: an allocation failed and a word was decoded", REALC, STUBC});
