// Codec configurations, reference encoders and decoders, direct use of the real codecs.
#pragma once
#include "world.h"

typedef std::vector<int> Bits;
typedef std::vector<double> Vec;

struct CodecCfg {
  std::string img;                 // d0, d1, glp, polar
  int m = 0, r = 0, n = 0, k = 0;  // k: information bits seen by the user
  Bits mask;                       // glp: border nodes; polar: information positions
  int L = 1;
  std::vector<Bits> perms;
  Bits crc;                        // polar
  std::vector<std::pair<int, double>> thr; // glp: variable list sizes and distance thresholds
  std::vector<std::string> items;  // parameter file lines
  std::string text() const { std::string s; for (auto &i : items) s += i + "\n"; return s; }
  std::string str() const;
};
struct CfgOpt { int maxm = 5; int bigm = 0; /* now and then a code of up to this size, with short lists */ bool big_list = false; bool shipped = false; /* like the parameter files in work/ */ bool allow_var = true, allow_perm = true, allow_mask = true; int force_crc = -1; };
CodecCfg gen_codec(const char *img, const CfgOpt &o);
const char *pick_codec_img(); // one of the four programs
bool leaves_complete(const CodecCfg &c);
int mindist(const CodecCfg &c);    // guaranteed minimum distance for Reed-Muller codes (0: unknown)

Bits ref_encode(const CodecCfg &c, const Bits &x);           // codeword bits
Bits ref_crc(const Bits &x, const Bits &poly);
struct RefDec { Bits x; bool erasure = false; bool unsure = false; bool ml = false; };
RefDec ref_decode(const CodecCfg &c, const Vec &rx, double sg);
std::vector<RefDec> ref_outcomes(const CodecCfg &c, const Vec &rx, double sg, int max); // all admissible outcomes; empty: too many or numerically undecidable
RefDec ml_decode(const CodecCfg &c, const Vec &rx, double sg); // brute force over all information words
extern int g_fmt; // reliability format of the codecs and the reference decoders: 0 eps5, 1 rho1, 2 rho5
bool exact_format();
void to_eps(const Vec &rx, double sg, Vec &e);

struct Cdc { // a real codec instance
  Image *img = nullptr; void *h = nullptr; CodecCfg cfg; bool ok = false; int init_rc = 0;
  int init(Image *im, const CodecCfg &c);        // in the current node
  int enc(const Bits &x, Vec &y);
  int dec(const Vec &rx, Bits &x);
  void sg(double s); void csnrn(int i);
  void close();
};
Bits rand_bits(Rng &r, int n);
// channel: BPSK of cw with noise level sg and faults
struct Channel { Vec rx; std::string what; };
