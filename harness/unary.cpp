#include "vc.h"
using namespace vc;
#ifndef FNS
#define FNS X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(exp) X(log) X(sqrt) X(erf) X(tanh) X(sinh) X(cosh) X(sigmoid)
#endif
#define ONE(f, S, F) \
  SC(f##_##S##_s) { drive(F(ch<S>(1)), SEED_SCALAR); } \
  SC(f##_##S##_o) { drive_strip(F(ch<S>(1))); }
#define ARR(f, S, F) ONE(f, S, F) SC(f##_##S##_a) { drive(F(ch<S>(1)), SEED_ARRAY); }
#define X(f) ONE(f, scl, ad::f) ARR(f, vec, ad::f) ARR(f, mat, ad::f)
FNS
ONE(neg, scl, -) ARR(neg, vec, -) ARR(neg, mat, -)
