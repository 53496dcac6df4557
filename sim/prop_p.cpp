// P02: arbitrary codec parameters are refused, or the codec works.
#include "codecs.h"
#include "simworld.h"

void common_setup();
extern "C" void simw_free(void *p);
static const uint8_t FILLS[] = {0xA5, 0x00, 0xFF, 0x7B, 0x3F};
struct KV { std::string k, v; };
static int num(const std::string &s) { return (int)strtol(s.c_str(), nullptr, 10); }
static long long leaf_num(int m, int r) { if (r < 0 || r > m || m > 40) return 0; long long c = 1; for (int i = 0; i < r; i++) c = c * (m - i) / (i + 1); return c; }
static int rmk(int m, int r) { double s = 0, c = 1; for (int i = 0; i <= r; i++) { s += c; c = c * (m - i) / (i + 1); } return s < 2e9 ? (int)(s + 0.5) : -1; }
static void leaf_sizes(int m, int r, Bits &z) { if (r == 0) z.push_back(1); else if (r == m) z.push_back(1 << m); else { leaf_sizes(m - 1, r - 1, z); leaf_sizes(m - 1, r, z); } }

struct PCase {
  std::string img; std::vector<KV> kv; std::string what; bool changed = false, must_accept = true; int muts = 0, kind = -1; bool first = false;
  std::string text() const { std::string s; for (auto &q : kv) s += q.k + (q.v.empty() ? "" : " " + q.v) + "\n"; return s; }
  KV *find(const char *k) { KV *r = nullptr; for (auto &q : kv) if (q.k == k) r = &q; return r; }
  std::string word(const char *k) { std::string v = get(k); size_t b = v.find_first_not_of(" \t\r\n"); if (b == std::string::npos) return ""; return v.substr(b, v.find_first_of(" \t\r\n", b) - b); }
  std::string get(const char *k) { KV *q = find(k); return q ? q->v : ""; }
};
// code size the parameters mean if they mean a code at all (last value counts)
static bool meaning(PCase &p, int &n, int &k) {
  bool pol = p.img == "polar";
  int m = num(p.get(pol ? "c_m" : "RM_m")), r = pol ? 0 : num(p.get("RM_r"));
  if (m < 1 || m > 30 || (!pol && (r < 0 || r > m))) return false;
  n = 1 << m;
  if (p.img == "d0" || p.img == "d1") { k = rmk(m, r); return true; }
  std::string mask = p.word(pol ? "info_bits_mask" : "border_node_mask");
  if (pol) {
    if ((long long)mask.size() < n) return false;
    k = 0; for (int i = 0; i < n; i++) k += mask[i] != '0';
    k -= (int)p.word("ca_polar_crc").size();
    return k > 0;
  }
  if ((long long)mask.size() < leaf_num(m, r) || r == 0) return false;
  if (p.muts == 1 && (p.kind == 9 || p.kind == 10 || p.kind == 11)) { // everything else is in order
    auto toks = [](const std::string &v) { std::vector<std::string> t; std::string c; for (char ch : v + " ") if (isspace((unsigned char)ch)) { if (!c.empty()) t.push_back(c); c.clear(); } else c += ch; return t; };
    auto group = [](const std::vector<std::string> &t) { if (t.size() < 2 || t[0] != "{" || t.back() != "}") return false; for (size_t i = 1; i + 1 < t.size(); i++) if (t[i].find_first_of("{}") != std::string::npos) return false; return true; };
    if (p.find("distance_threshold")) {
      auto t = toks(p.get("distance_threshold"));
      if (!group(t) || t.size() % 2 || t.size() > 102) return false;
      for (size_t i = 1; i + 1 < t.size(); i += 2) if (num(t[i]) < 1 || num(t[i]) > num(p.get("border_node_lsize"))) return false;
      if (t.size() == 2 && p.word("use_variable_list") == "on") return false;
    }
    if (p.kind != 11 && !p.first && p.find("permutations")) {
      auto t = toks(p.get("permutations"));
      if (!group(t) || (t.size() - 2) % m) return false;
      Bits z; leaf_sizes(m, r, z); bool full = true; for (size_t i = 0; i < z.size(); i++) full &= mask[i] != '0';
      for (size_t i = 1; i + 1 < t.size(); i += m) { std::set<int> u; for (int j = 0; j < m; j++) { if (t[i + j].find_first_not_of("0123456789") != std::string::npos && t[i + j] != "x") return false; int v = num(t[i + j]); if (v < 0 || v >= m || (v != j && !full)) return false; u.insert(v); } if ((int)u.size() != m) return false; }
    }
  }
  Bits z; leaf_sizes(m, r, z);
  k = 0; for (size_t i = 0; i < z.size(); i++) if (mask[i] != '0') k += z[i];
  return k > 0;
}
static std::string some_mask(size_t n) {
  Rng g(choose(SF, 0x7fffffff)); int st = choose(SF, 4); std::string s(n, '1');
  if (st == 1) for (auto &c : s) c = g.below(2) ? '1' : '0';
  if (st == 2) for (size_t i = 0; i < n; i++) s[i] = i >= n / 2 ? '1' : '0';
  if (st == 3) for (size_t i = 0; i + 1 < n; i++) s[i] = '0';
  return s;
}
static std::string some_perms(int m, int q) {
  std::string s = "{";
  for (int i = 0; i < q; i++) { Bits b(m); for (int j = 0; j < m; j++) b[j] = j; if (i || choose(SF, 2)) for (int j = m; j-- > 1;) std::swap(b[j], b[choose(SF, (uint32_t)j + 1)]); for (int v : b) s += sf(" %d", v); }
  return s + " }";
}
static void mutate(PCase &p) {
  bool pol = p.img == "polar", lst = p.img == "glp" || pol;
  const char *km = pol ? "c_m" : "RM_m", *kmask = pol ? "info_bits_mask" : "border_node_mask", *kl = pol ? "list_size" : "border_node_lsize";
  int m = num(p.get(km)), r = pol ? 0 : num(p.get("RM_r"));
  int q = choose(SF, lst ? 14 : 6);
  p.muts++; p.kind = q;
  auto set = [&](const char *k, const std::string &v) { KV *x = p.find(k); if (x) x->v = v; else p.kv.push_back({k, v}); };
  auto bad = [&](const std::string &w) { p.what += (p.what.empty() ? "" : ", ") + w; p.changed = true; p.must_accept = false; cnt("fault.wrong_codec_parameter"); };
  auto harmless = [&](const std::string &w) { p.what += (p.what.empty() ? "" : ", ") + w; p.changed = true; };
  static const char *huge[] = {"-1", "0", "31", "32", "33", "64", "100", "1000000", "-2147483648", "2147483647", "4294967297", "99999999999", "x", "-", "0x3", "1e2", "27", "30", "-30"};
  switch (q) {
    case 0: case 1: { // the code's length
      std::string v = choose(SF, 2) ? huge[choose(SF, 19)] : sf("%d", (pol ? 1 : 1) + (int)choose(SF, 13));
      set(km, v); bad(sf("%s %s", km, v.c_str()));
      if (lst && num(v) >= 1 && num(v) <= 13 && choose(SF, 3)) { long long w = pol ? 1ll << num(v) : leaf_num(num(v), r); if (w > 0 && w < 20000) set(kmask, some_mask((size_t)w + (choose(SF, 3) ? 0 : choose(SF, 3)) - (choose(SF, 4) == 3 && w > 1))); }
      break; }
    case 2: if (!pol) {
      std::string v = choose(SF, 3) == 0 ? huge[choose(SF, 19)] : sf("%d", m + (int)choose(SF, 3) - 1);
      if (choose(SF, 3) == 2) v = sf("%d", (int)choose(SF, 3));
      set("RM_r", v); bad("RM_r " + v);
      if (p.img == "glp" && num(v) >= 0 && num(v) <= m && choose(SF, 3)) set(kmask, some_mask((size_t)std::max(1ll, leaf_num(m, num(v)))));
      break; } // fall through
    case 3: { // something twice, also with another value first
      if (p.kv.empty()) return;
      KV x = p.kv[choose(SF, (uint32_t)p.kv.size())];
      if (choose(SF, 2) && (x.k == km || x.k == "RM_r" || x.k == kl)) { x.v = huge[choose(SF, 19)]; p.must_accept = false; }
      p.kv.insert(p.kv.begin() + choose(SF, (uint32_t)p.kv.size() + 1), x);
      harmless(x.k + " twice");
      p.must_accept = false;
      break; }
    case 4: { // one missing
      if (p.kv.empty()) return;
      size_t i = choose(SF, (uint32_t)p.kv.size()); bad(p.kv[i].k + " missing"); p.kv.erase(p.kv.begin() + i); break; }
    case 5: { // a group instead of a value, a value instead of a group, another order, an unknown parameter
      if (p.kv.empty()) return;
      size_t i = choose(SF, (uint32_t)p.kv.size()); int w = choose(SF, 4);
      if (w == 0) { bad(p.kv[i].k + " as a group"); p.kv[i].v = "{ " + p.kv[i].v.substr(0, 60) + " }"; if (p.kv[i].v.find('{', 1) != std::string::npos) p.kv[i].v = "{ }"; }
      else if (w == 1) { bad(p.kv[i].k + " 7"); p.kv[i].v = "7"; }
      else if (w == 2) { bad("another order"); std::swap(p.kv[i], p.kv[choose(SF, (uint32_t)p.kv.size())]); }
      else { harmless("an unknown parameter"); p.kv.insert(p.kv.begin() + i, {choose(SF, 2) ? "RM_q" : "list_sizes", choose(SF, 2) ? "4" : "{ 1 2 3 }"}); }
      break; }
    case 6: { // mask
      std::string v = p.get(kmask); int w = choose(SF, 7);
      if (w == 0 && v.size() > 1) { v.resize(v.size() - 1 - choose(SF, (uint32_t)v.size() - 1)); bad("mask too short"); }
      else if (w == 1) { v += some_mask(1 + choose(SF, 40)); harmless("mask too long"); }
      else if (w == 2) { for (auto &c : v) c = '0'; bad("empty mask"); }
      else if (w == 3) { for (auto &c : v) if (c == '1') c = "123x~"[choose(SF, 5)]; bad("strange mask"); }
      else if (w == 4) { v = v.substr(0, 1); bad("mask of one"); }
      else if (w == 5 && v.size() > 1) { v.insert(v.size() / 2, choose(SF, 2) ? " " : "\n"); bad("mask in two parts"); }
      else { v = some_mask(1 + choose(SF, 100)); bad("another mask"); }
      set(kmask, v); break; }
    case 7: case 8: { // list size
      static const char *ls[] = {"0", "-1", "-8", "1", "100", "5000", "1048576", "268435456", "536870912", "536870913", "1073741824", "2147483647", "-2147483648", "4294967296", "65536", "16777217", "x", "7"};
      std::string v = ls[choose(SF, 18)]; set(kl, v); bad(sf("%s %s", kl, v.c_str())); break; }
    case 9: case 10: { // permutations
      int w = choose(SF, 10); std::string v = some_perms(std::max(1, std::min(m, 30)), 1 + choose(SF, 4));
      std::vector<std::string> t; { std::string c; for (char ch : v + " ") if (ch == ' ') { if (!c.empty()) t.push_back(c); c.clear(); } else c += ch; }
      size_t i = 1 + choose(SF, (uint32_t)t.size() - 2);
      std::string name = "permutations";
      if (w == 0) { static const char *b[] = {"-1", "31", "32", "100", "x", "1000000", "-2147483648"}; t[i] = b[choose(SF, 7)]; }
      if (w == 1) t[i] = sf("%d", m);
      if (w == 2) t[i] = t[1 + (i % (t.size() - 2))];
      if (w == 3) t.erase(t.begin() + i);
      if (w == 4) t.insert(t.begin() + i, "0");
      if (w == 5) t = {"{", "}"};
      if (w == 6) { Rng g(choose(SF, 1000)); t = {"{"}; int c = 9990 + choose(SF, 30); if (choose(SF, 2) && m > 0) c = c / m * m; for (int j = 0; j < c; j++) t.push_back(sf("%d", j % std::max(1, m))); t.push_back("}"); }
      if (w == 7) t = {"0", "1", "2", "3"};
      v.clear(); for (auto &x : t) v += x + " ";
      if (w == 8 || choose(SF, 4) == 3) p.first = true, p.kv.insert(p.kv.begin(), {name, v}); else set("permutations", v);
      static const char *nm[] = {"with an entry out of range", "with an entry equal to m", "with an entry twice", "with one missing", "with one too many", "empty", "very many", "without a group", "first of all", ""};
      bad(sf("permutations %s", nm[w])); break; }
    case 11: if (p.img == "glp") { // list sizes and thresholds
      int L = num(p.get(kl)), w = choose(SF, 7); std::string v = "{";
      int c = w == 0 ? 49 + choose(SF, 4) : 1 + choose(SF, 4);
      for (int i = 0; i < c; i++) v += sf(" %d %g", w == 1 ? L + 1 + (int)choose(SF, 5) : w == 2 ? -(int)choose(SF, 3) : w == 3 && i ? 1 << choose(SF, 31) : 1, choose(SF, 2) ? 3.5 : choose(SF, 2) ? -1 : 1e300);
      if (w == 4) v += " 1";
      if (w == 5) v += " x nan";
      v += " }";
      if (w == 6) v = choose(SF, 2) ? "5" : "{ }";
      set("distance_threshold", v); if (choose(SF, 4)) set("use_variable_list", "on"); bad("distance_threshold " + v.substr(0, 30)); break; } // fall through
    case 12: if (pol) { // CRC
      int K = 0; for (char c : p.get(kmask)) K += c != '0';
      static const int d[] = {-1, 0, 1, -2, 100, -1000, 2};
      int l = std::max(1, K + d[choose(SF, 7)]);
      Rng g(choose(SF, 1000)); std::string v; for (int i = 0; i < l; i++) v += g.below(2) ? '1' : '0';
      if (choose(SF, 6) == 5) v = std::string(v.size(), '0');
      if (choose(SF, 6) == 5) v += "x2";
      set("ca_polar_crc", v); bad(sf("CRC of %zu, %d information positions", v.size(), K)); break; } // fall through
    default: { // another program's parameters
      if (p.kv.empty()) return;
      harmless("foreign parameters"); p.kv.push_back({pol ? "RM_m" : "c_m", "9"}); p.kv.push_back({pol ? "border_node_mask" : "info_bits_mask", "0"}); p.kv.push_back({pol ? "border_node_lsize" : "list_size", "-3"}); break; }
  }
}
static PCase gen_case() {
  PCase p; const char *img = pick_codec_img(); p.img = img;
  CfgOpt o; o.maxm = 4; o.shipped = choose(SW, 120) == 119;
  CodecCfg c = gen_codec(img, o);
  for (auto &it : c.items) for (size_t b = 0; b < it.size();) { // an item may switch something on and off again
    size_t nl = std::min(it.find("\nuse_", b), it.size()); std::string i = it.substr(b, nl - b); b = nl + 1;
    size_t e = i.find(' '); p.kv.push_back({i.substr(0, e), i.substr(e + 1)});
  }
  int c2 = choose(SF, 8) == 7 ? 0 : 1 + (choose(SF, 3) == 2) + (choose(SF, 6) == 5);
  while (c2-- > 0) mutate(p);
  if (p.what.empty()) p.what = "nothing changed";
  return p;
}
static std::string brief(const PCase &p) { std::string s; for (auto &q : p.kv) s += q.k + " " + q.v.substr(0, 70) + (q.v.size() > 70 ? sf("..(%zu)", q.v.size()) : "") + "; "; for (auto &c : s) if (c == '\n') c = ' '; return s.substr(0, 700); }

static void *raw_init(Image *im, const std::string &text, int &r, bool &file_ok) {
  vfs.put(norm_path("codec.par"), text);
  char *s = nullptr; static char fn[] = "codec.par"; void *h = nullptr;
  int64_t af = cur->alloc_fail_at; cur->alloc_fail_at = -1;
  { Sut g(cur); if (im->spf_read_preparse(fn, &s) != 0) s = nullptr; }
  cur->alloc_fail_at = af;
  file_ok = s != nullptr; r = -999;
  if (!s) return nullptr;
  { Sut g(cur); r = im->cdc_init(s, &h); }
  cur->alloc_fail_at = -1;
  { Sut g(cur); simw_free(s); }
  return h;
}
static void p02_direct() {
  PCase first = gen_case();
  Node *n0 = new_node(image(first.img.c_str(), 0), nullptr, 0); n0->user = nullptr;
  Node *keep = cur; cur = n0;
  // a good codec beside it, to see that nothing of it is damaged
  CfgOpt o; o.maxm = 4; o.allow_var = false;
  CodecCfg gc = gen_codec(first.img.c_str(), o);
  Cdc good; cur->alloc_fail_at = -1; good.init(n0->img, gc);
  if (!good.ok) { sh->in_sut = 0; violate("init-refused", "valid codec parameters were refused: %s", gc.str().c_str()); }
  good.sg(0.5);
  int q = 1 + choose(SW, 4), accepted = 0, refused = 0; std::string d;
  for (int i = 0; i < q; i++) {
    PCase p = i ? gen_case() : first;
    if (i && p.img != first.img) { p = first; }
    d += p.what + "; ";
    inter(i);
    g_fill = FILLS[choose(SF, 5)];
    size_t c0 = cur->live.size(), o0 = cur->out.size(); uint64_t b0 = live_bytes(cur);
    bool af = choose(SF, 6) == 5; cur->alloc_fail_at = af ? (int)choose(SF, 8) : -1; cur->alloc_fail_n = 1; int64_t a0 = cur->alloc_fail_at;
    int r; bool file_ok; void *h = raw_init(n0->img, p.text(), r, file_ok);
    if (!file_ok) { if (cur->out.size() == o0) violate("refused-silently", "parameters were refused without a message: %s", brief(p).c_str()); refused++; ev("file refused"); continue; }
    int n = 0, k = 0; bool mean = meaning(p, n, k);
    ev("init %s -> %d", p.what.c_str(), r);
    if (r != 0) {
      refused++; cnt("probe.refused_parameters");
      if (cur->out.size() == o0) violate("refused-silently", "parameters were refused without a message (%s): %s", p.what.c_str(), brief(p).c_str());
      if (h) violate("refused-with-instance", "parameters were refused but an instance was returned (%s)", p.what.c_str());
      if (cur->live.size() != c0 || live_bytes(cur) != b0) violate("init-leak", "refused parameters left %zu blocks allocated (%s): %s", cur->live.size() - c0, p.what.c_str(), brief(p).c_str());
      if (a0 < 0 && p.must_accept && n <= 1 << 13) violate("init-refused", "usable parameters were refused (%s): %s", p.what.c_str(), brief(p).c_str());
    } else {
      int gn, gk; { Sut g(cur); gn = n0->img->cdc_get_n(h); gk = n0->img->cdc_get_k(h); }
      if (gn <= 0 || gk <= 0) { cnt("probe.refused_by_size"); refused++; } // the simulator refuses this
      else {
        accepted++; cnt("probe.accepted_parameters");
        if (!mean) violate("unusable-accepted", "parameters that do not describe a code were accepted with n=%d k=%d (%s): %s", gn, gk, p.what.c_str(), brief(p).c_str());
        if (gn != n || gk != k) violate("wrong-code-size", "the codec says n=%d k=%d, its parameters give n=%d k=%d (%s): %s", gn, gk, n, k, p.what.c_str(), brief(p).c_str());
        long long L = num(p.get(p.img == "polar" ? "list_size" : "border_node_lsize")) , np = 1;
        if (p.img == "glp") for (char ch : p.get("permutations")) np += ch == ' ';
        double longest = 2.0 * std::max(L, np); // partitioning a list can take the square of its length
        if (n <= 1 << 13 && L <= 5000 && L * np * n < 1 << 22 && longest * longest * k < 1e8) { // otherwise decoding takes too long
          double sg = choose(SW, 2) ? 0.4 : 1; { Sut g(cur); n0->img->cdc_set_sg(h, sg); }
          int words = n > 1000 ? 1 : 1 + choose(SW, 3);
          while (words-- > 0) {
            Rng g(choose(SW, 0x7fffffff)); Bits x = rand_bits(g, k);
            int *xb = (int *)malloc(sizeof(int) * n); double *yb = (double *)malloc(sizeof(double) * n);
            for (int j = 0; j < n; j++) { xb[j] = j < k ? x[j] : 99; yb[j] = 77; }
            int e; { Sut g(cur); e = n0->img->enc_bpsk(h, xb, yb); }
            if (e == -1) violate("encoding-refused", "accepted parameters, but encoding fails (%s): %s", p.what.c_str(), brief(p).c_str());
            for (int j = 0; j < n; j++) if (yb[j] != 1 && yb[j] != -1) violate("not-a-codeword", "accepted parameters, but symbol %d of a codeword is %g (%s): %s", j, yb[j], p.what.c_str(), brief(p).c_str());
            for (int j = 0; j < n; j++) { yb[j] *= 12 * sg * sg; xb[j] = 55; }
            { Sut g(cur); e = n0->img->dec_bpsk(h, yb, xb); }
            if (e != 0) violate("decoding-refused", "accepted parameters, but decoding an undisturbed word returns %d (%s): %s", e, p.what.c_str(), brief(p).c_str());
            for (int j = 0; j < k; j++) if (xb[j] != x[j]) violate("not-decoded", "accepted parameters, but an undisturbed word is not decoded: symbol %d is %d, sent %d (%s): %s", j, xb[j], x[j], p.what.c_str(), brief(p).c_str());
            free(xb); free(yb);
          }
        } else cnt("probe.accepted_huge");
      }
      { Sut g(cur); n0->img->cdc_close(h); }
      if (cur->live.size() != c0 || live_bytes(cur) != b0) violate("leak", "a closed codec left %zu blocks allocated (%s): %s", cur->live.size() - c0, p.what.c_str(), brief(p).c_str());
    }
    // the codec beside
    Rng g(choose(SW, 0x7fffffff)); Bits x = rand_bits(g, gc.k), out; Bits cw = ref_encode(gc, x); Vec rx; for (int b : cw) rx.push_back((b ? 1 : -1) * 3.0);
    int e = good.dec(rx, out);
    if (e != 0 || out != x) violate("neighbour-damaged", "after handling parameters (%s) another codec decodes wrongly", p.what.c_str());
  }
  good.close();
  cur = keep;
  sh->nontrivial = first.changed;
  describe(sf("%s direct: %d accepted, %d refused: ", first.img.c_str(), accepted, refused) + d.substr(0, 500));
}
static void p02_program() {
  PCase p = gen_case();
  Spec s; s.rnd = choose(SW, 2); s.min_err = 1 + choose(SW, 2); s.min_trn = 0;
  Point pt; pt.txt = choose(SW, 2) ? "-12" : "-15.5"; pt.snr = atof(pt.txt.c_str()); pt.trn_req = 1 + choose(SW, 3); s.pts = {pt}; s.val_trn = true;
  for (auto &q : p.kv) if ((q.k == "list_size" || q.k == "border_node_lsize") && num(q.v) > 5000 && num(q.v) <= 1 << 24) q.v = "200"; // would take too long
  bool mean = meaning(p, s.n, s.k);
  if (!mean) { s.n = 8; s.k = 4; }
  for (auto &q : p.kv) s.extra.push_back(q.k + " " + q.v);
  std::string before;
  if (choose(SW, 2)) before = gen_base("res.out", s.n, s.k, {"-3"}, false);
  render_spec(s, false); install(s);
  Life *l = new_life(s); l->cost = 200000;
  start_main(l, p.img.c_str(), 0, choose(SW, 2), 2, 1, 0);
  run_world();
  InodeP f = vfs.get(norm_path("res.out"));
  int ex = l->node->exit_code;
  ev("%s -> exit code %d, %zu trials", p.what.c_str(), ex, l->order.size());
  if (!l->inited) {
    cnt("probe.refused_parameters");
    if (ex == 0) violate("failure-not-reported", "the codec's parameters are unusable (%s) but the program ended with code 0: %s", p.what.c_str(), brief(p).c_str());
    if (l->node->out.empty()) violate("refused-silently", "parameters were refused without a message (%s): %s", p.what.c_str(), brief(p).c_str());
    if (before.empty() ? (bool)f : !f || f->data != before) violate("refused-but-saved", "the program refused to run but the results file changed (%s)", p.what.c_str());
    if (p.must_accept && s.n <= 1 << 13) violate("init-refused", "usable parameters were refused (%s): %s", p.what.c_str(), brief(p).c_str());
  } else {
    cnt("probe.accepted_parameters");
    if (!mean) violate("unusable-accepted", "parameters that do not describe a code were accepted (%s): %s", p.what.c_str(), brief(p).c_str());
    if (ex != 0 && s.n > 1 << 13) { cnt("probe.accepted_huge"); } // may lack memory
    else {
    if (ex != 0) violate("bad-exit", "accepted parameters, but the program ended with code %d (%s): %s", ex, p.what.c_str(), brief(p).c_str());
    ResFile rf = f ? parse_res(f->data) : ResFile();
    if (!rf.ok) violate("no-results", "accepted parameters, but there are no usable results (%s): %s", p.what.c_str(), brief(p).c_str());
    if (rf.n != s.n || rf.k != s.k) violate("wrong-code-size", "the results file says n=%d k=%d, the parameters give n=%d k=%d (%s): %s", rf.n, rf.k, s.n, s.k, p.what.c_str(), brief(p).c_str());
    }
  }
  sh->nontrivial = p.changed;
  describe(p.img + " program: " + p.what + sf(" -> %s, exit code %d", l->inited ? "accepted" : "refused", ex));
}
static void p02() {
  common_setup();
  if (choose(SW, 4) == 3) p02_program(); else p02_direct();
}
static PropReg pp02({"P02", p02, 25000, 400000, "one run = one codec program meeting one to four sets of codec parameters made wrong in one to three places (sizes, orders, masks, list sizes, permutations, thresholds, CRCs, missing, repeated, reordered or misplaced parameters), with failing allocations, beside a codec in use, or as a whole program life; refused sets must leave nothing, accepted ones must work; non-trivial: the first set was changed",
  "main_txt.c, sim_bg.c, spf_par.c, the codec programs with their decoders (unmodified, compiled from the working tree)", "allocator, memory contents, file system, clock, terminal"});
