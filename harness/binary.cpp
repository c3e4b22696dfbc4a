#include "vc.h"
using namespace vc;
// OPS: list of X(name, op)
typedef scl S_; typedef vec V_; typedef mat M_;
#define P1(nm, OPR, L, R) \
  SC(nm##_##L##R##s) { drive(ch<L##_>(1) OPR ch<R##_>(2), SEED_SCALAR); } \
  SC(nm##_##L##R##o) { drive_strip(ch<L##_>(1) OPR ch<R##_>(2)); }
#define P2(nm, OPR, L, R) P1(nm, OPR, L, R) SC(nm##_##L##R##a) { drive(ch<L##_>(1) OPR ch<R##_>(2), SEED_ARRAY); }
// constants: scalar double, scalar int, Eigen vector, Eigen matrix
#define KS(nm, OPR, L) \
  SC(nm##_##L##ks) { double k = vc_real("K"); drive(ch<L##_>(1) OPR k, SEED_SCALAR); } \
  SC(nm##_##L##io) { drive_strip(ch<L##_>(1) OPR 3); } \
  SC(nm##_k##L##o) { double k = vc_real("K"); drive_strip(k  OPR ch<L##_>(1)); } \
  SC(nm##_i##L##s) { drive(3  OPR ch<L##_>(1), SEED_SCALAR); }
#define KV(nm, OPR, L) \
  SC(nm##_##L##ws) { auto k = cvec("K"); drive(ch<L##_>(1) OPR k, SEED_SCALAR); } \
  SC(nm##_w##L##a) { auto k = cvec("K"); drive(k  OPR ch<L##_>(1), SEED_ARRAY); } \
  SC(nm##_##L##zs) { auto k = cviewv("K"); drive(ch<L##_>(1) OPR k, SEED_ARRAY); }
#define KM(nm, OPR, L) \
  SC(nm##_##L##xs) { auto k = cmat("K"); drive(ch<L##_>(1) OPR k, SEED_SCALAR); } \
  SC(nm##_x##L##a) { auto k = cmat("K"); drive(k  OPR ch<L##_>(1), SEED_ARRAY); }
#define ALL(nm, OPR) P1(nm, OPR, S, S) P2(nm, OPR, S, V) P2(nm, OPR, V, S) P2(nm, OPR, V, V) P2(nm, OPR, S, M) P2(nm, OPR, M, S) P2(nm, OPR, M, M) \
  KS(nm, OPR, S) KS(nm, OPR, V) KS(nm, OPR, M) KV(nm, OPR, S) KV(nm, OPR, V) KM(nm, OPR, S) KM(nm, OPR, M)
#define X(nm, OPR) ALL(nm, OPR)
OPS
