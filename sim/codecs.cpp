#include "codecs.h"

extern "C" void simw_free(void *p);

std::string CodecCfg::str() const {
  std::string s = img + sf(" m=%d", m);
  if (img != "polar") s += sf(" r=%d", r);
  s += sf(" n=%d k=%d", n, k);
  if (img == "glp" || img == "polar") { s += sf(" L=%d mask=", L); for (int b : mask) s += b ? '1' : '0'; }
  if (!crc.empty()) { s += " crc="; for (int b : crc) s += b ? '1' : '0'; }
  if (!perms.empty()) s += sf(" %zu permutations", perms.size());
  if (!thr.empty()) s += sf(" %zu list sizes", thr.size());
  return s;
}
const char *pick_codec_img() { static const char *q[] = {"d0", "d1", "glp", "polar"}; return q[choose(SW, 4)]; }
static int rm_k(int m, int r) { return r == 0 ? 1 : r == m ? 1 << m : rm_k(m - 1, r - 1) + rm_k(m - 1, r); }
static void leaves(int m, int r, Bits &sz) { // leaves of the recursion in decoding order, by number of information bits
  if (r == 0) { sz.push_back(1); return; }
  if (r == m) { sz.push_back(1 << m); return; }
  leaves(m - 1, r - 1, sz); leaves(m - 1, r, sz);
}
static std::string bstr(const Bits &b) { std::string s; for (int x : b) s += x ? '1' : '0'; return s; }
static int list_len(const int *Ls, bool big, int m) { // now and then a very long list
  int i = choose(SW, 8);
  static const int lb[] = {64, 100, 200, 256, 257, 300, 512, 40};
  if (i == 6 && !big && m <= 5 && choose(SW, 4) == 3) { cnt("probe.long_lists"); return lb[choose(SW, 8)]; }
  return Ls[i];
}
static CodecCfg shipped_codec(const std::string &img, const CfgOpt &o) { // the kinds of codes and permutation sets in work/
  CodecCfg c; c.img = img; cnt("probe.shipped_like_codes");
  if (img == "glp") {
    c.m = std::min(9, 6 + (int)choose(SW, 5)); c.r = 2 + choose(SW, (uint32_t)(c.m - 2)); c.n = 1 << c.m;
    Bits sz; leaves(c.m, c.r, sz);
    c.mask.assign(sz.size(), 1);
    int set = std::min(3, (int)choose(SW, 5)); if (set == 3 && choose(SW, 2)) set = 2;
    if (set == 0) { // frozen leaves: the first ones, then scattered ones
      size_t f = choose(SW, (uint32_t)sz.size()); for (size_t i = 0; i < f; i++) c.mask[i] = i < f / 2 ? choose(SW, 8) == 7 : choose(SW, 3) != 0;
    } else if (set == 1) for (int i = 0; i < c.m; i++) { Bits q; for (int j = 0; j < c.m; j++) q.push_back((j + c.m - i) % c.m); c.perms.push_back(q); }
    else if (set == 2) { // every choice of r variables comes last once
      for (int b = (1 << c.m) - 1; b >= 0; b--) if (__builtin_popcount(b) == c.r) {
        Bits q; for (int j = 0; j < c.m; j++) if (!(b >> j & 1)) q.push_back(j);
        for (int j = 0; j < c.m; j++) if (b >> j & 1) q.push_back(j);
        c.perms.push_back(q);
      }
    }
    for (size_t i = 0; i < sz.size(); i++) if (c.mask[i]) c.k += sz[i];
    if (!c.k) { c.mask.back() = 1; c.k = sz.back(); }
    c.L = pick(SW, std::vector<int>{32, 64, 128, 256, 24, 100}); if (c.m >= 8 && c.L > 128) c.L = 64; if (c.m == 9) c.L = std::min(c.L, 32);
    c.items = {sf("RM_m %d", c.m), sf("RM_r %d", c.r), "border_node_mask " + bstr(c.mask), sf("border_node_lsize %d", c.L)};
    if (!c.perms.empty()) { std::string s = "permutations {\n"; for (auto &q : c.perms) { for (int v : q) s += sf(" %d", v); s += "\n"; } c.items.push_back(s + "}"); }
    return c;
  }
  c.m = 6 + choose(SW, 4); c.n = 1 << c.m; c.mask.assign(c.n, 0);
  int K = c.n / 4 + choose(SW, (uint32_t)c.n / 2), cl = o.force_crc == 0 ? 0 : o.force_crc == 1 || choose(SW, 2) ? pick(SW, std::vector<int>{8, 16, 4, 24, 11}) : 0;
  cl = std::min(cl, K - 1);
  std::vector<std::pair<double, int>> w; // the usual weight of a channel
  for (int i = 0; i < c.n; i++) { double s = 0; for (int j = 0; j < c.m; j++) if (i >> j & 1) s += pow(2, j / 4.0); w.push_back({s, i}); }
  std::sort(w.rbegin(), w.rend());
  for (int i = 0; i < K; i++) c.mask[w[i].second] = 1;
  for (int i = 0; i < cl; i++) c.crc.push_back(i + 1 == cl ? 1 : choose(SW, 2));
  c.k = K - cl;
  c.L = pick(SW, std::vector<int>{8, 16, 32, 64, 128, 5}); if (c.m == 9) c.L = std::min(c.L, 32);
  c.items = {sf("c_m %d", c.m), "info_bits_mask " + bstr(c.mask), sf("list_size %d", c.L)};
  if (cl) c.items.push_back("ca_polar_crc " + bstr(c.crc));
  return c;
}
CodecCfg gen_codec(const char *img, const CfgOpt &o_) {
  CodecCfg c; c.img = img;
  if (o_.shipped && (c.img == "glp" || c.img == "polar")) return shipped_codec(c.img, o_);
  CfgOpt o = o_;
  bool big = o.bigm > o.maxm && choose(SW, 50) == 49;
  if (big) { o.maxm = o.bigm; cnt("probe.big_codes"); }
  int bigr = big ? (int)choose(SW, o.bigm >= 11 ? 6 : 3) : 0;
  static const int Ls_[] = {1, 2, 4, 8, 3, 16, 5, 32}, Lb[] = {1, 2, 4, 1, 3, 2, 1, 6}, *Ls = big ? Lb : Ls_;
  if (c.img == "d0" || c.img == "d1") {
    c.m = big ? o.maxm - bigr : 1 + choose(SW, (uint32_t)o.maxm + 1);
    c.r = 1 + choose(SW, (uint32_t)c.m); if (big && choose(SW, 3) == 2) c.r = 1;
    c.n = 1 << c.m; c.k = rm_k(c.m, c.r);
    c.items = {sf("RM_m %d", c.m), sf("RM_r %d", c.r)};
  } else if (c.img == "glp") {
    c.m = big ? o.maxm - bigr : 3 + choose(SW, (uint32_t)std::max(1, o.maxm - 2));
    c.r = 2 + choose(SW, (uint32_t)(c.m - 2));
    c.n = 1 << c.m;
    Bits sz; leaves(c.m, c.r, sz);
    c.mask.assign(sz.size(), 1);
    bool sub = o.allow_mask && chance(SW, 1, 2);
    if (sub) {
      int style = choose(SW, 3);
      for (size_t i = 0; i < sz.size(); i++) c.mask[i] = style == 0 ? choose(SW, 4) != 3 : style == 1 ? choose(SW, 2) : i >= sz.size() / 2 || choose(SW, 4) == 3;
      bool any = false; for (int b : c.mask) any |= b;
      if (!any) c.mask[choose(SW, (uint32_t)sz.size())] = 1;
    }
    c.k = 0; for (size_t i = 0; i < sz.size(); i++) if (c.mask[i]) c.k += sz[i];
    c.L = list_len(Ls, big, c.m);
    if (o.big_list) c.L = 512;
    c.items = {sf("RM_m %d", c.m), sf("RM_r %d", c.r), "border_node_mask " + bstr(c.mask), sf("border_node_lsize %d", c.L)};
    bool full = true; for (int b : c.mask) full &= b;
    if (full && o.allow_perm && chance(SW, 1, 2)) {
      int p = 1 + choose(SW, 7);
      if (p == 7 && !big && choose(SW, 3) == 2) {
        p += choose(SW, 3) ? choose(SW, 8) : choose(SW, 40); cnt("probe.many_permutations");
        if (!o.big_list && choose(SW, 4)) { c.L = p + choose(SW, (uint32_t)p * 2); c.items[3] = sf("border_node_lsize %d", c.L); }
      }
      std::string s = "permutations {";
      for (int i = 0; i < p; i++) {
        Bits q(c.m); for (int j = 0; j < c.m; j++) q[j] = j;
        if (i || choose(SW, 2)) for (int j = c.m; j-- > 1;) std::swap(q[j], q[choose(SW, (uint32_t)j + 1)]);
        c.perms.push_back(q);
        for (int v : q) s += sf(" %d", v);
        s += "\n";
      }
      c.items.push_back(s + "}"); // RM_m stands before
    }
    if (o.allow_var && chance(SW, 1, 4)) {
      int q = 1 + choose(SW, 4);
      if (q == 4 && choose(SW, 4) == 3) q = choose(SW, 3) ? 4 + choose(SW, 46) : 50;
      std::string s = "distance_threshold {";
      for (int i = 0; i < q; i++) {
        int l = 1 + choose(SW, (uint32_t)c.L); double d = c.n * 0.5 * (0.2 + 0.1 * choose(SW, 20));
        c.thr.push_back({l, atof(sf("%.3f", d).c_str())});
        s += sf(" %d %.3f", l, d);
      }
      // switched off, the thresholds mean nothing
      if (choose(SW, 5) == 4) { c.thr.clear(); if (choose(SW, 3)) c.items.push_back(choose(SW, 2) ? "use_variable_list off" : "use_variable_list on\nuse_variable_list off"); c.items.push_back(s + " }"); cnt("probe.thresholds_switched_off"); }
      else { c.items.push_back("use_variable_list on"); c.items.push_back(s + " }"); }
    }
  } else {
    c.m = big ? o.maxm - bigr : 1 + choose(SW, (uint32_t)o.maxm);
    c.n = 1 << c.m;
    c.mask.assign(c.n, 0);
    int style = choose(SW, 3), K;
    if (style == 0) { // reliable positions: late ones
      std::vector<std::pair<int, int>> w; for (int i = 0; i < c.n; i++) w.push_back({__builtin_popcount(i) * 64 + i, i});
      std::sort(w.rbegin(), w.rend());
      K = 1 + choose(SW, (uint32_t)c.n);
      for (int i = 0; i < K; i++) c.mask[w[i].second] = 1;
    } else {
      int d = 1 + choose(SW, 4);
      for (int i = 0; i < c.n; i++) c.mask[i] = choose(SW, 5) < (uint32_t)d;
      if (style == 2) c.mask[0] = 1;
    }
    K = 0; for (int b : c.mask) K += b;
    if (!K) { c.mask[c.n - 1] = 1; K = 1; }
    int cl = 0;
    if ((o.force_crc < 0 && choose(SW, 2)) || o.force_crc == 1) cl = std::min(1 + (int)choose(SW, choose(SW, 8) == 7 ? 40 : 8), choose(SW, 6) == 5 ? K - 1 : K / 2); // now and then longer than the information word
    for (int i = 0; i < cl; i++) c.crc.push_back(choose(SW, 2));
    if (cl) c.crc[cl - 1] = 1;
    c.k = K - cl;
    c.L = list_len(Ls, big, c.m);
    if (o.big_list) { c.L = 1; while (c.L < (1 << std::min(K, 9))) c.L *= 2; }
    c.items = {sf("c_m %d", c.m), "info_bits_mask " + bstr(c.mask), sf("list_size %d", c.L)};
    if (cl) c.items.push_back("ca_polar_crc " + bstr(c.crc));
  }
  return c;
}
bool leaves_complete(const CodecCfg &c) { // does every leaf offer all its words (or the best ones, when it is the last)?
  if (c.img != "glp") return true;
  Bits sz; leaves(c.m, c.r, sz);
  for (size_t i = 0; i + 1 < sz.size(); i++) if (c.mask[i] && sz[i] >= 4) return false;
  return true;
}
int mindist(const CodecCfg &c) { if (c.img == "polar") return 0; return 1 << (c.m - c.r); }

// ---- encoding
Bits ref_crc(const Bits &x, const Bits &poly) { // remainder: same length as the polynomial without its leading one
  // the check bits are the last ones of x after elimination by the polynomial
  Bits b = x; int n = (int)x.size(), l = (int)poly.size();
  for (int i = 0; i + l < n; i++) if (b[i]) { b[i] = 0; for (int j = 0; j < l; j++) b[i + 1 + j] ^= poly[j]; }
  if (n < l) b.insert(b.begin(), l - n, 0);
  return Bits(b.end() - l, b.end());
}
static Bits enc_mm(const Bits &x, size_t a, size_t n) {
  if (n == 1) return {x[a]};
  Bits v = enc_mm(x, a, n / 2), u = enc_mm(x, a + n / 2, n / 2), y;
  for (size_t i = 0; i < n / 2; i++) y.push_back(v[i] ^ u[i]);
  y.insert(y.end(), u.begin(), u.end());
  return y;
}
static Bits enc_rm(int m, int r, const Bits &x, size_t &p, const Bits *mask, size_t &leaf) {
  int n = 1 << m;
  if (r == 0 || r == m) {
    bool on = !mask || (*mask)[leaf]; leaf++;
    if (!on) return Bits(n, 0);
    if (r == 0) return Bits(n, x[p++]);
    Bits y = enc_mm(x, p, n); p += n;
    return y;
  }
  Bits v = enc_rm(m - 1, r - 1, x, p, mask, leaf), u = enc_rm(m - 1, r, x, p, mask, leaf), y;
  for (int i = 0; i < n / 2; i++) y.push_back(v[i] ^ u[i]);
  y.insert(y.end(), u.begin(), u.end());
  return y;
}
static Bits enc_polar_full(const CodecCfg &c, const Bits &z) { // z: all information positions, in order
  Bits w(c.n, 0); size_t p = 0;
  for (int i = 0; i < c.n; i++) if (c.mask[i]) w[i] = z[p++];
  return enc_mm(w, 0, c.n);
}
Bits ref_encode(const CodecCfg &c, const Bits &x) {
  if (c.img == "polar") { Bits z = x; if (!c.crc.empty()) { Bits q = ref_crc(x, c.crc); z.insert(z.end(), q.begin(), q.end()); } return enc_polar_full(c, z); }
  size_t p = 0, leaf = 0;
  return enc_rm(c.m, c.r, x, p, c.img == "glp" ? &c.mask : nullptr, leaf);
}

// ---- decoding on an ideal machine (probability differences e = P0 - P1, limited to 1 - 1e-8 in magnitude)
static const double CT = 1.0 - 1e-8;
static double clip(double e) { return e > CT ? CT : e < -CT ? -CT : e; }
int g_fmt = 0;
bool exact_format() { return g_fmt != 2; }
static double add(double a, double b) { return g_fmt ? a + b : clip((a + b) / (1 + a * b)); }
static double mul(double a, double b) { // the estimate of the sum of two bits
  if (!g_fmt) return a * b;
  double q = std::min(fabs(a), fabs(b)), s = (a < 0) == (b < 0) ? 1 : -1;
  if (g_fmt == 1) q += log1p(exp(-(fabs(a) + fabs(b)))) - log1p(exp(-fabs(fabs(a) - fabs(b))));
  return s * q;
}
static double ln0(double e) { return !g_fmt ? log(1 + e) : std::min(e, 0.0) - log1p(exp(-fabs(e))); } // of the probability of 0
static double llr(double e) { return !g_fmt ? log((1 + e) / (1 - e)) : e; }
void to_eps(const Vec &rx, double sg, Vec &e) {
  e.resize(rx.size());
  for (size_t i = 0; i < rx.size(); i++) e[i] = g_fmt ? -rx[i] * (2 / (sg * sg)) : clip(-tanh(rx[i] * (2 / (sg * sg)) / 2));
}
static const double TOL = 1e-6;
static bool close2(double a, double b) { if (a == b) return true; return fabs(a - b) <= TOL * (1 + std::max(fabs(a), fabs(b))) * 1e-1; }
// recursive decoding of the first two programs: returns the codeword (+1/-1) and appends information bits
static Vec dec_rec(int kind, int m, int r, const Vec &y, Bits &x, bool &unsure);
static void rm1_best(int m, const Vec &y, double s, Bits &pre, double &best, double &second, Bits &bx) {
  if (m == 0) {
    for (int b = 0; b < 2; b++) {
      double t = s + ln0(b ? -y[0] : y[0]);
      if (t > best) { second = best; best = t; bx = pre; bx.push_back(b); } else if (t > second) second = t;
    }
    return;
  }
  int h = 1 << (m - 1);
  for (int b = 0; b < 2; b++) {
    double t = s; Vec u(h);
    for (int i = 0; i < h; i++) { double p = mul(y[i], y[i + h]); t += ln0(b ? -p : p); u[i] = add(b ? -y[i] : y[i], y[i + h]); }
    pre.push_back(b);
    rm1_best(m - 1, u, t, pre, best, second, bx);
    pre.pop_back();
  }
}
static Vec sgn(const Bits &b) { Vec v; for (int x : b) v.push_back(x ? -1 : 1); return v; }
static Vec dec_rec(int kind, int m, int r, const Vec &y, Bits &x, bool &unsure) {
  int n = 1 << m;
  if (r == 0) {
    double s = 0; for (double e : y) s += llr(e);
    if (fabs(s) < TOL) unsure = true;
    x.push_back(s > 0 ? 0 : 1);
    return Vec(n, s > 0 ? 1 : -1);
  }
  if (r == m) {
    Bits c; for (double e : y) { if (fabs(e) < 1e-9) unsure = true; c.push_back(e > 0 ? 0 : 1); }
    Bits z = enc_mm(c, 0, n);
    x.insert(x.end(), z.begin(), z.end());
    return sgn(c);
  }
  if (kind == 1 && r == 1) {
    Bits pre, bx; double best = -1e300, second = -1e300;
    rm1_best(m, y, 0, pre, best, second, bx);
    if (best - second < TOL * (1 + fabs(best))) unsure = true;
    x.insert(x.end(), bx.begin(), bx.end());
    size_t p = 0, leaf = 0;
    return sgn(enc_rm(m, 1, bx, p, nullptr, leaf));
  }
  int h = n / 2; Vec a(h), b(h);
  for (int i = 0; i < h; i++) a[i] = mul(y[i], y[i + h]);
  Vec v = dec_rec(kind, m - 1, r - 1, a, x, unsure);
  for (int i = 0; i < h; i++) b[i] = add(y[i] * v[i], y[i + h]);
  Vec u = dec_rec(kind, m - 1, r, b, x, unsure), o;
  for (int i = 0; i < h; i++) o.push_back(v[i] * u[i]);
  o.insert(o.end(), u.begin(), u.end());
  return o;
}
// list decoding: every path carries its own vectors
struct Path { double s = 0; Bits x; int perm = 0; std::vector<Vec> y; Vec out; };
typedef std::vector<Path> List;
// Equally likely entries: any of them may be kept. Every way to resolve such ties is gone through (depth first).
static struct { bool on = false; double max = 0; std::vector<std::pair<int, int>> p; size_t at = 0; } tie;
static int tie_pick(int n, bool &unsure) {
  if (n <= 1) return 0;
  double prod = n; for (size_t i = 0; i < tie.at; i++) prod *= tie.p[i].second;
  if (prod > tie.max) { unsure = true; return 0; } // too many
  if (tie.at == tie.p.size()) tie.p.push_back({0, n});
  return tie.p[tie.at++].first;
}
static bool tie_next() { tie.at = 0; while (!tie.p.empty()) { if (++tie.p.back().first < tie.p.back().second) return true; tie.p.pop_back(); } return false; }
static void prune(List &l, size_t L, bool &unsure) {
  if (l.size() <= L) return;
  std::stable_sort(l.begin(), l.end(), [](const Path &a, const Path &b) { return a.s > b.s; });
  if (close2(l[L - 1].s, l[L].s)) {
    size_t a = L - 1, b = L + 1;
    while (a > 0 && close2(l[a - 1].s, l[a].s)) a--;
    while (b < l.size() && close2(l[b].s, l[b - 1].s)) b++;
    size_t g = b - a, k = L - a;
    if (!tie.on || g > 10) unsure = true;
    else {
      std::vector<unsigned> sub; for (unsigned q = 0; q < 1u << g; q++) if ((size_t)__builtin_popcount(q) == k) sub.push_back(q);
      unsigned q = sub[tie_pick((int)sub.size(), unsure)];
      List keep; for (size_t i = 0; i < g; i++) if (q >> i & 1) keep.push_back(l[a + i]);
      for (size_t i = 0; i < k; i++) l[a + i] = keep[i];
    }
  }
  l.resize(L);
}
// the best of the list: one of those that are equally likely
static size_t tie_best(List &l, bool &unsure) {
  std::stable_sort(l.begin(), l.end(), [](const Path &a, const Path &b) { return a.s > b.s; });
  size_t b = 1; while (b < l.size() && close2(l[b].s, l[b - 1].s)) b++;
  return tie.on ? tie_pick((int)b, unsure) : 0;
}
static void list_rm(const CodecCfg &c, int m, int r, List &l, size_t &leaf, size_t L, bool &unsure) {
  int n = 1 << m, h = n / 2;
  if (r == 0 || r == m) {
    bool on = c.mask[leaf++];
    List nl;
    for (auto &p : l) {
      Vec y = p.y.back(); p.y.pop_back();
      if (!on) { for (double e : y) p.s += ln0(e); p.out.assign(n, 1); nl.push_back(p); continue; }
      if (r == 0) {
        for (int b = 0; b < 2; b++) { Path q = p; for (double e : y) q.s += ln0(b ? -e : e); q.x.push_back(b); q.out.assign(n, b ? -1 : 1); nl.push_back(q); }
        continue;
      }
      Bits hd; double s = 0; std::vector<std::pair<double, int>> w;
      for (int i = 0; i < n; i++) { double e = fabs(y[i]); if (e < 1e-12) unsure = true; hd.push_back(y[i] > 0 ? 0 : 1); s += ln0(e); w.push_back({e, i}); }
      auto push = [&](Bits b, double sc) { Path q = p; Bits z = enc_mm(b, 0, n); q.x.insert(q.x.end(), z.begin(), z.end()); q.s += sc; q.out = sgn(b); nl.push_back(q); };
      auto fl = [&](std::initializer_list<int> f) { Bits b = hd; for (int i : f) b[i] ^= 1; return b; };
      if (m == 1) {
        for (int a = 0; a < 4; a++) { Bits b = hd; double t = 0; for (int i = 0; i < 2; i++) { bool f = a >> i & 1; if (f) b[i] ^= 1; t += ln0(f ? -fabs(y[i]) : fabs(y[i])); } push(b, t); }
        continue;
      }
      std::stable_sort(w.begin(), w.end());
      auto cost = [](double e) { return -llr(e); };
      double c1 = cost(w[0].first), c2 = cost(w[1].first), c3 = cost(w[2].first);
      if (close2(w[1].first, w[2].first) || (n > 3 && close2(w[2].first, w[3].first) && c1 + c2 <= c3 + TOL)) unsure = true;
      if (fabs(c1 + c2 - c3) < TOL) unsure = true;
      push(hd, s); push(fl({w[0].second}), s + c1); push(fl({w[1].second}), s + c2);
      if (c1 + c2 > c3) push(fl({w[0].second, w[1].second}), s + c1 + c2); else push(fl({w[2].second}), s + c3);
    }
    l.swap(nl);
    if (on) prune(l, L, unsure);
    return;
  }
  for (auto &p : l) { Vec a(h); const Vec &y = p.y.back(); for (int i = 0; i < h; i++) a[i] = mul(y[i], y[i + h]); p.y.push_back(a); }
  list_rm(c, m - 1, r - 1, l, leaf, L, unsure);
  for (auto &p : l) { Vec b(h); Vec y = p.y.back(); for (int i = 0; i < h; i++) b[i] = add(y[i] * p.out[i], y[i + h]); p.y.back() = p.out; p.y.push_back(b); }
  list_rm(c, m - 1, r, l, leaf, L, unsure);
  for (auto &p : l) { Vec v = p.y.back(); p.y.pop_back(); Vec o; for (int i = 0; i < h; i++) o.push_back(v[i] * p.out[i]); o.insert(o.end(), p.out.begin(), p.out.end()); p.out = o; }
}
static void list_polar(const CodecCfg &c, int m, List &l, size_t &leaf, size_t L, bool &unsure) {
  int n = 1 << m, h = n / 2;
  if (m == 0) {
    bool on = c.mask[leaf++];
    List nl;
    for (auto &p : l) {
      double e = p.y.back()[0]; p.y.pop_back();
      for (int b = 0; b < (on ? 2 : 1); b++) { Path q = p; q.s += ln0(b ? -e : e); if (on) q.x.push_back(b); q.out.assign(1, b ? -1 : 1); nl.push_back(q); }
    }
    l.swap(nl);
    if (on) prune(l, L, unsure);
    return;
  }
  for (auto &p : l) { Vec a(h); const Vec &y = p.y.back(); for (int i = 0; i < h; i++) a[i] = mul(y[i], y[i + h]); p.y.push_back(a); }
  list_polar(c, m - 1, l, leaf, L, unsure);
  for (auto &p : l) { Vec b(h); Vec y = p.y.back(); for (int i = 0; i < h; i++) b[i] = add(y[i] * p.out[i], y[i + h]); p.y.back() = p.out; p.y.push_back(b); }
  list_polar(c, m - 1, l, leaf, L, unsure);
  for (auto &p : l) { Vec v = p.y.back(); p.y.pop_back(); Vec o; for (int i = 0; i < h; i++) o.push_back(v[i] * p.out[i]); o.insert(o.end(), p.out.begin(), p.out.end()); p.out = o; }
}
static RefDec glp_one(const CodecCfg &c, const Vec &e, size_t L) {
  RefDec d;
  List l;
  std::vector<Bits> ps = c.perms;
  if (ps.empty()) { Bits id(c.m); for (int i = 0; i < c.m; i++) id[i] = i; ps.push_back(id); }
  auto perm = [&](const Bits &p, int i) { int o = 0; for (int j = 0; j < c.m; j++) if (i >> j & 1) o |= 1 << p[j]; return o; };
  for (size_t q = 0; q < ps.size(); q++) { Path p; p.perm = (int)q; Vec y(c.n); for (int i = 0; i < c.n; i++) y[i] = e[perm(ps[q], i)]; p.y.push_back(y); l.push_back(p); }
  size_t leaf = 0;
  list_rm(c, c.m, c.r, l, leaf, L, d.unsure);
  // the decoded codeword, permuted back; its information word
  size_t bi = tie_best(l, d.unsure);
  auto word = [&](const Path &p) { Bits w(c.n); for (int i = 0; i < c.n; i++) w[perm(ps[p.perm], i)] = p.out[i] < 0; return w; };
  Bits w0 = word(l[bi]);
  if (!tie.on) for (size_t i = 1; i < l.size() && close2(l[i].s, l[0].s); i++) if (word(l[i]) != w0) d.unsure = true;
  if (c.perms.empty()) { d.x = l[bi].x; return d; }
  // information word of a codeword of the full code: invert the encoder by recursion
  std::function<void(int, int, const Bits &)> inv = [&](int m, int r, const Bits &y) {
    if (r == 0) { d.x.push_back(y[0]); return; }
    if (r == m) { Bits z = enc_mm(y, 0, y.size()); d.x.insert(d.x.end(), z.begin(), z.end()); return; }
    size_t h = y.size() / 2; Bits v, u(y.begin() + h, y.end());
    for (size_t i = 0; i < h; i++) v.push_back(y[i] ^ y[i + h]);
    inv(m - 1, r - 1, v); inv(m - 1, r, u);
  };
  inv(c.m, c.r, w0);
  return d;
}
RefDec ref_decode(const CodecCfg &c, const Vec &rx, double sg) {
  RefDec d; Vec e; to_eps(rx, sg, e);
  if (c.img == "d0" || c.img == "d1") { dec_rec(c.img == "d1", c.m, c.r, e, d.x, d.unsure); return d; }
  if (c.img == "glp") {
    if (c.thr.empty()) return glp_one(c, e, c.L);
    bool un = false;
    for (auto &t : c.thr) {
      d = glp_one(c, e, t.first);
      un |= d.unsure;
      Bits y = ref_encode(c, d.x); double s = 0;
      for (int i = 0; i < c.n; i++) { double q = rx[i] - (y[i] ? 1 : -1); s += q * q; }
      s /= sg * sg;
      if (close2(s, t.second)) un = true; // before or after the next list
      if (s < t.second) break;
    }
    d.unsure = un;
    return d;
  }
  List l(1); l[0].y.push_back(e);
  size_t leaf = 0;
  list_polar(c, c.m, l, leaf, c.L, d.unsure);
  std::stable_sort(l.begin(), l.end(), [](const Path &a, const Path &b) { return a.s > b.s; });
  auto info = [&](const Path &p) { return Bits(p.x.begin(), p.x.begin() + c.k); };
  auto valid = [&](const Path &p) { return ref_crc(info(p), c.crc) == Bits(p.x.begin() + c.k, p.x.end()); };
  if (!c.crc.empty()) {
    List v; for (auto &p : l) if (valid(p)) v.push_back(p);
    if (v.empty()) d.erasure = true; else l.swap(v);
  }
  d.x = info(l[tie_best(l, d.unsure)]);
  return d;
}
std::vector<RefDec> ref_outcomes(const CodecCfg &c, const Vec &rx, double sg, int max) {
  std::vector<RefDec> r;
  tie.on = true; tie.max = max; tie.p.clear(); tie.at = 0;
  do {
    RefDec d = ref_decode(c, rx, sg);
    if (d.unsure || max-- < -1000) { r.clear(); break; }
    bool have = false; for (auto &q : r) have |= q.x == d.x && q.erasure == d.erasure;
    if (!have) r.push_back(d);
  } while (tie_next());
  tie.on = false;
  return r;
}
RefDec ml_decode(const CodecCfg &c, const Vec &rx, double sg) {
  RefDec d; d.ml = true; Vec e; to_eps(rx, sg, e);
  double best = -1e300, second = -1e300;
  for (uint32_t w = 0; w < 1u << c.k; w++) {
    Bits x(c.k); for (int i = 0; i < c.k; i++) x[i] = w >> i & 1;
    Bits y = ref_encode(c, x); double s = 0;
    for (int i = 0; i < c.n; i++) s += ln0(y[i] ? -e[i] : e[i]);
    if (s > best) { second = best; best = s; d.x = x; } else if (s > second) second = s;
  }
  d.unsure = best - second < 1e-3 * (1 + fabs(best));
  double t = 0; for (double v : rx) t += fabs(v) * 2 / (sg * sg);
  if (!g_fmt && t > 17) d.unsure = true; // some intermediate value could meet the decoders' limit of 1 - 1e-8
  return d;
}

// ---- real codecs
int Cdc::init(Image *im, const CodecCfg &c) {
  img = im; cfg = c; h = nullptr; ok = false;
  vfs.put(norm_path("codec.par"), c.text());
  char *s = nullptr; static char fn[] = "codec.par"; static char buf[160000];
  int64_t af = cur->alloc_fail_at; cur->alloc_fail_at = -1;
  { Sut g(cur); if (im->spf_read_preparse(fn, &s) != 0) { s = nullptr; } }
  if (!s) { sh->in_sut = 0; harness_error("codec parameters refused: %s", c.text().c_str()); }
  snprintf(buf, sizeof buf, "%s", s);
  { Sut g(cur); simw_free(s); }
  cur->alloc_fail_at = af;
  { Sut g(cur); init_rc = im->cdc_init(buf, &h); }
  ok = init_rc == 0;
  return init_rc;
}
int Cdc::enc(const Bits &x, Vec &y) {
  int *xb = (int *)malloc(sizeof(int) * std::max<size_t>(x.size(), 1)); // exact sizes, so that an overrun is seen
  double *yb = (double *)malloc(sizeof(double) * cfg.n);
  for (size_t i = 0; i < x.size(); i++) xb[i] = x[i];
  for (int i = 0; i < cfg.n; i++) yb[i] = 77;
  int r; { Sut g(cur); r = img->enc_bpsk(h, xb, yb); }
  for (size_t i = 0; i < x.size(); i++) if (xb[i] != x[i]) violate("input-changed", "encoding changed the information word (%s)", cfg.str().c_str());
  y.assign(yb, yb + cfg.n);
  free(xb); free(yb);
  return r;
}
int Cdc::dec(const Vec &rx, Bits &x) {
  double *b = (double *)malloc(sizeof(double) * cfg.n);
  int *xb = (int *)malloc(sizeof(int) * cfg.n); // the simulator gives room for n symbols
  for (int i = 0; i < cfg.n; i++) { b[i] = rx[i]; xb[i] = 55; }
  int r; { Sut g(cur); r = img->dec_bpsk(h, b, xb); }
  for (int i = 0; i < cfg.n; i++) if (memcmp(&b[i], &rx[i], sizeof(double))) violate("input-changed", "decoding changed the received vector (%s)", cfg.str().c_str());
  x.assign(xb, xb + cfg.k);
  free(b); free(xb);
  return r;
}
void Cdc::sg(double s) { Sut g(cur); img->cdc_set_sg(h, s); }
void Cdc::csnrn(int i) { if (img->cdc_set_csnrn) { Sut g(cur); img->cdc_set_csnrn(h, i); } }
void Cdc::close() { if (!ok) return; Sut g(cur); img->cdc_close(h); ok = false; h = nullptr; }
Bits rand_bits(Rng &r, int n) { Bits b(n); for (auto &x : b) x = r.next() >> 33 & 1; return b; }
