// S11: the simulations delivered in work/, run, killed and resumed as they are.
#include "codecs.h"
#include "simworld.h"
#include "runs.h"
#include <filesystem>
#include <fstream>
#include <sstream>

void common_setup();
static std::map<std::string, std::string> g_work; // the delivered files by name relative to work/
static void load_work() {
  if (!g_work.empty()) return;
  const char *r = getenv("VSIM_REPO");
  std::string base = std::string(r && *r ? r : "/repo") + "/work";
  std::error_code ec;
  for (std::filesystem::recursive_directory_iterator it(base, ec), end; !ec && it != end; it.increment(ec)) {
    std::string p = it->path().string().substr(base.size() + 1);
    if (!it->is_regular_file() || p.size() < 4 || (p.substr(p.size() - 4) != ".spf" && p.substr(p.size() - 4) != ".txt")) continue;
    std::ifstream f(it->path(), std::ios::binary); std::stringstream s; s << f.rdbuf();
    g_work[p] = s.str();
  }
}
static std::vector<std::string> tokens(const std::string &file, int depth = 0) {
  std::vector<std::string> t;
  auto i = g_work.find(file);
  if (i == g_work.end() || depth > 8) return t;
  std::stringstream in(i->second); std::string line;
  while (std::getline(in, line)) {
    size_t c = line.find('%'); if (c != std::string::npos) line.resize(c);
    std::string u; for (char ch : line) { if (ch == '{' || ch == '}') { u += ' '; u += ch; u += ' '; } else u += ch; }
    std::stringstream w(u); std::string x; while (w >> x) t.push_back(x);
  }
  std::vector<std::string> o;
  for (size_t j = 0; j < t.size(); j++) {
    if (t[j] == "include" && j + 1 < t.size()) { auto q = tokens(t[++j], depth + 1); o.insert(o.end(), q.begin(), q.end()); }
    else o.push_back(t[j]);
  }
  return o;
}
struct Delivered { std::string img; int n = 0, k = 0, nperm = 0, L = 0; bool ok = false; };
static Delivered understand(Spec &s) {
  Delivered d;
  std::vector<std::string> t = tokens(s.spf);
  int m = 0, r = -1; std::string mask, crc; bool pol = false;
  for (size_t i = 0; i + 1 < t.size();) {
    std::string k = t[i++]; std::vector<std::string> v;
    if (t[i] == "{") { i++; while (i < t.size() && t[i] != "}") v.push_back(t[i++]); i++; } else v.push_back(t[i++]);
    if (v.empty()) continue;
    auto num = [&]() { return atoi(v[0].c_str()); };
    if (k == "res_file") s.res = v[0];
    else if (k == "SNR_val_trn") { s.val_trn = true; s.pts.clear(); for (size_t j = 0; j + 1 < v.size(); j += 2) { Point p; p.txt = v[j]; p.snr = atof(v[j].c_str()); p.trn_req = atoi(v[j + 1].c_str()); s.pts.push_back(p); } }
    else if (k == "EbNo_values") { s.pts.clear(); for (auto &x : v) { Point p; p.txt = x; p.snr = atof(x.c_str()); p.trn_req = 0; s.pts.push_back(p); } }
    else if (k == "min_trials_per_snr") s.min_trn = num();
    else if (k == "min_errors_per_snr") s.min_err = num();
    else if (k == "random_codeword") s.rnd = v[0] == "on";
    else if (k == "ml_lb") s.ml = v[0] == "on";
    else if (k == "ml_lb_hard") s.mlhd = v[0] == "on";
    else if (k == "RM_m" || k == "c_m") { m = num(); pol = k == "c_m"; }
    else if (k == "RM_r") r = num();
    else if (k == "border_node_mask" || k == "info_bits_mask") mask = v[0];
    else if (k == "border_node_lsize" || k == "list_size") d.L = num();
    else if (k == "ca_polar_crc") crc = v[0];
    else if (k == "permutations") d.nperm = (int)v.size() / std::max(1, m);
  }
  d.n = 1 << m;
  if (pol) { d.img = "polar"; d.k = (int)std::count(mask.begin(), mask.end(), '1') - (int)crc.size(); d.ok = (int)mask.size() == d.n; }
  else {
    size_t at = 0; d.k = 0;
    std::function<void(int, int)> go = [&](int m, int r) { // leaves in the decoder's order
      if (r == 0 || r == m) { if (d.img != "glp" || at >= mask.size() || mask[at] != '0') d.k += r ? 1 << m : 1; at++; return; }
      go(m - 1, r - 1); go(m - 1, r);
    };
    d.img = s.spf.find("dtrm0") != std::string::npos ? "d0" : s.spf.find("dtrm1") != std::string::npos ? "d1" : "glp";
    go(m, r); d.ok = m > 0 && r > 0 && r < m;
  }
  s.n = d.n; s.k = d.k;
  return d;
}
static void s11() {
  common_setup();
  load_work();
  std::vector<std::string> spfs, codes;
  for (auto &q : g_work) { if (q.first.find('/') == std::string::npos && q.first.substr(q.first.size() - 4) == ".spf") spfs.push_back(q.first); if (q.first.rfind("codes/rm/rm", 0) == 0 && q.first.find('_') == std::string::npos) codes.push_back(q.first); }
  if (spfs.empty()) { sh->nontrivial = false; describe("no delivered simulations found"); return; }
  Spec s; bool composed = !codes.empty() && choose(SW, 4) == 3;
  if (composed) { // one of the delivered codes with settings of one's own
    std::string c = codes[choose(SW, (uint32_t)codes.size())], stem = c.substr(0, c.size() - 4), cyc = "codes/rm/p" + stem.substr(stem.size() - 2) + "cyclic.txt";
    s.spf = "own.spf";
    int w = choose(SW, 3);
    std::string t = "include " + c + "\nborder_node_lsize " + sf("%d", 1 << choose(SW, 6)) + "\n";
    if (w == 1 && g_work.count(stem + "_PmCr.txt")) t += "include " + stem + "_PmCr.txt\n";
    if (w == 2 && g_work.count(cyc)) t += "include " + cyc + "\n";
    t += "res_file results/own.srf\nEbNo_values { 0 1.5 3 }\nmin_trials_per_snr 3\nmin_errors_per_snr 1\nrandom_codeword on\nml_lb on\n";
    g_work["own.spf"] = t;
  } else s.spf = spfs[choose(SW, (uint32_t)spfs.size())];
  for (auto &q : g_work) vfs.put(norm_path(q.first.c_str()), q.second);
  Delivered d = understand(s);
  g_work.erase("own.spf");
  if (!d.ok || s.pts.empty()) violate("not-delivered-whole", "%s does not describe a simulation", s.spf.c_str());
  std::string res = norm_path(s.res.c_str());
  double work = (double)d.n * d.n * std::max(d.L, d.nperm); // of one decoding
  int budget = std::max(2, (int)std::min(40.0, 4e8 / (work + 1e5))) * (rc.thorough ? 3 : 1);
  fsf.stall = pick(SF, std::vector<int>{0, 100}); fsf.stall_max_s = 30; fsf.short_read = pick(SF, std::vector<int>{0, 200}); fsf.short_write = pick(SF, std::vector<int>{0, 200});
  int q = 1 + choose(SW, 3); Acc have; bool any = false; std::string how; size_t saves = 0; int touched = 0;
  for (int i = 0; i < q && budget > 0; i++) {
    Life *l = new_life(s);
    l->cost = pick(SW, std::vector<int64_t>{130000000, 310000000, 47000000, 700000000}); if (choose(SW, 2)) l->cost_jit = 90000000;
    l->cap = 1 << 30;
    int trials = 1 + choose(SW, (uint32_t)budget); budget -= trials;
    bool held = choose(SW, 3) != 2, nr = choose(SW, 2);
    if (held) { // an embedding program, which goes on to the next SNR value now and then
      Node *n = new_node(image(d.img.c_str(), i & 1), nullptr, g_now + 1000);
      n->user = l; l->node = n;
      n->body = [l, nr, trials]() {
        Harness h; void *inst = nullptr; cur->exit_code = 1;
        if (c_init(l->spec.spf, 10, nr, &inst) != 0) return;
        int r; do { r = c_run(inst); c_state(inst); if (choose(SS, 3) == 2) c_save(inst); if (choose(SS, 2)) { c_control(inst, 3); cnt("probe.next_snr_value"); } } while (r == 17 && l->trials < trials);
        c_res(inst); int v = c_save(inst); c_close(inst);
        cur->exit_code = v;
      };
    } else start_main(l, d.img.c_str(), i & 1, nr, choose(SW, 3) == 2 ? 0 : -1, -1, g_now + 1000);
    Node *nd = l->node; int64_t kt = g_now + trials * l->cost + (int64_t)choose(SF, 1000) * (l->cost / 1000);
    if (!held || choose(SF, 3) == 2) at(kt, [nd]() { if (nd->st == NS_READY) { cnt("fault.kill_at_time"); kill_node(nd, "killed"); } });
    run_world();
    if (!l->inited && !l->killed()) violate("init-refused", "%s was refused by the program it is for", s.spf.c_str());
    if (l->dec_failed || l->enc_failed || l->run_failed) violate("run-failed", "%s failed although nothing happened to it", s.spf.c_str());
    // what is in the file: what there was, and this life's last completed save or the one under way
    std::vector<Acc> may; Acc a = have; bool saved = false;
    for (auto &v : l->saves) { saves++; Acc b = have; acc_add(b, s, v.snap); if (v.done && v.rc == 0) { a = b; saved = true; may.clear(); } else may.push_back(b); }
    may.insert(may.begin(), a); any |= saved;
    InodeP f = vfs.get(res);
    if (!f) { if (any) violate("no-results", "results were saved and %s is not there", res.c_str()); }
    else {
      ResFile r = parse_res(f->data);
      if (!r.ok) violate("unreadable-results", "%s cannot be read: %s", res.c_str(), r.why.c_str());
      if (r.n != d.n || r.k != d.k) violate("wrong-code-size", "%s gives n=%d k=%d, the delivered code has n=%d k=%d", res.c_str(), r.n, r.k, d.n, d.k);
      std::string why; bool ok = false; Acc got = acc_of(r);
      for (auto &m : may) ok |= acc_same(got, m, why);
      if (!ok) violate("wrong-totals", "%s, life %d%s: %s", s.spf.c_str(), i, l->killed() ? " (killed)" : "", why.c_str());
      have = got; any = true;
    }
    for (auto &c : l->truth) touched += c.trn > 0;
    how += sf("%s%s %lld trials %zu saves; ", held ? "held" : "main", l->killed() ? " killed" : "", (long long)l->trials, l->saves.size());
  }
  for (auto &p : g_work) { InodeP f = vfs.get(norm_path(p.first.c_str())); if (!f || f->data != p.second) violate("delivered-file-changed", "%s is no longer what it was", p.first.c_str()); }
  sh->nontrivial = saves > 0 && touched > 0;
  describe(sf("%s (%s n=%d k=%d L=%d, %d permutations): ", s.spf.c_str(), d.img.c_str(), d.n, d.k, d.L, d.nperm) + how);
}
static PropReg ps11({"S11", s11, 1500, 20000, "one run = one of the simulations delivered in work/ (or one of the delivered codes with permutations and list sizes of one's own) run by its program in 1-3 successive lives with trials of minutes, default save intervals, stalls, short reads and writes, kills at random moments and changes of the SNR value; non-trivial: saved at least once", "the four programs (main, sim_bg, codecs, parameter files), unmodified, with the files in work/ as they are", "file system, clock, random generator, durations of trials"});
