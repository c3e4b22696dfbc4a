#include "vc.h"
#include <vector>
using namespace vc;
typedef scl S_; typedef vec V_; typedef mat M_;
static const int ids[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17};
#define RNG(nm, F, S, N) \
  SC(nm##_##S##N##_s) { drive(F(ids, ids + N, [](int k) { return ch<S##_>(k); }), SEED_SCALAR); } \
  SC(nm##_##S##N##_o) { drive_strip(F(ids, ids + N, [](int k) { return ch<S##_>(k); })); }
#define RNGA(nm, F, S, N) RNG(nm, F, S, N) \
  SC(nm##_##S##N##_a) { drive(F(ids, ids + N, [](int k) { return ch<S##_>(k); }), SEED_ARRAY); }
#define ALLN(nm, F) RNG(nm, F, S, 0) RNG(nm, F, S, 1) RNG(nm, F, S, 2) RNG(nm, F, S, 3) RNG(nm, F, S, 4) RNGA(nm, F, V, 1) RNGA(nm, F, V, 2) RNGA(nm, F, V, 3) RNGA(nm, F, M, 1) RNGA(nm, F, M, 2)  RNGA(nm, F, M, 3)
#ifdef P_RED
ALLN(rsum, ad::sum) ALLN(rprod, ad::prod)
// longer ranges; the elements of the products are positive here
RNG(rsuml, ad::sum, S, 8) RNG(rsuml, ad::sum, S, 17) RNGA(rsuml, ad::sum, V, 7) RNGA(rsuml, ad::sum, M, 5)
RNG(rprodl, ad::prod, S, 8) RNG(rprodl, ad::prod, S, 17)
#endif
#ifdef P_FE
#define FEN(nm, F) RNG(nm, F, S, 1) RNG(nm, F, S, 2) RNG(nm, F, S, 3) RNG(nm, F, S, 4) RNGA(nm, F, V, 1) RNGA(nm, F, V, 2) RNGA(nm, F, V, 3) RNGA(nm, F, M, 1) RNGA(nm, F, M, 2)  RNGA(nm, F, M, 3)
FEN(fe, ad::for_each)
RNG(fel, ad::for_each, S, 8) RNG(fel, ad::for_each, S, 17) RNGA(fel, ad::for_each, V, 7) RNGA(fel, ad::for_each, M, 5)
#endif
