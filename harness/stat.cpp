#define VC_LO 1
#include "vc.h"
using namespace vc;
// an operand: S V Q variable scalar, vector, square matrix; k w q owned constants; z y viewed constants; 0..9 integer constants
template <char C> auto op(int id) {
    const char* kn = id == 1 ? "K1" : id == 2 ? "K2" : "K3";
    if constexpr (C == 'S') return cs(id);
    else if constexpr (C == 'V') return cv(id);
    else if constexpr (C == 'Q') return cq(id);
    else if constexpr (C == 'k') return vc_real(kn);
    else if constexpr (C >= '0' && C <= '9') return (int)(C - '0');
    else if constexpr (C == 'w') return cvec(kn);
    else if constexpr (C == 'z') return cviewv(kn);
    else if constexpr (C == 'y') return cviewm(kn, "n", "n");
    else return cmat(kn, "n", "n");
}
#define D3(nm, F, A, B, C) \
  SC(nm##_##A##B##C##_s) { drive(F(op<(#A)[0]>(1), op<(#B)[0]>(2), op<(#C)[0]>(3)), SEED_SCALAR); } \
  SC(nm##_##A##B##C##_o) { drive_strip(F(op<(#A)[0]>(1), op<(#B)[0]>(2), op<(#C)[0]>(3))); }
#define D2(nm, F, A, B) \
  SC(nm##_##A##B##_s) { drive(F(op<(#A)[0]>(1), op<(#B)[0]>(2)), SEED_SCALAR); } \
  SC(nm##_##A##B##_o) { drive_strip(F(op<(#A)[0]>(1), op<(#B)[0]>(2))); }
#define C7(nm, F, A, a, B, b, C, c) D3(nm, F, A, B, C) D3(nm, F, A, B, c) D3(nm, F, A, b, C) D3(nm, F, A, b, c) D3(nm, F, a, B, C) D3(nm, F, a, B, c) D3(nm, F, a, b, C)
#define C5(nm, F) C7(nm, F, S, k, S, k, S, k) C7(nm, F, V, w, S, k, S, k) C7(nm, F, V, w, V, w, S, k) C7(nm, F, V, w, S, k, V, w) C7(nm, F, V, w, V, w, V, w) \
  D3(nm, F, z, V, S) D3(nm, F, z, S, z) D3(nm, F, V, z, z)
// integer constants
#define I3(nm, F) D3(nm, F, S, 0, 2) D3(nm, F, S, S, 2) D3(nm, F, 1, S, S) D3(nm, F, 1, 0, S) D3(nm, F, V, 0, 2) D3(nm, F, V, V, 2) D3(nm, F, V, 0, V) D3(nm, F, V, S, 2) D3(nm, F, w, 0, S)
#ifdef P_NORMI
I3(normi, ad::normal_adj_log_pdf)
#endif
#ifdef P_CAUCHYI
I3(cauchyi, ad::cauchy_adj_log_pdf)
#endif
#ifdef P_UNIFI
I3(unifi, ad::uniform_adj_log_pdf)
#endif
#ifdef P_BERNI
D2(berni, ad::bernoulli_adj_log_pdf, 0, S) D2(berni, ad::bernoulli_adj_log_pdf, 1, S) D2(berni, ad::bernoulli_adj_log_pdf, 2, S)
#endif
#ifdef P_NORM1
C5(norm, ad::normal_adj_log_pdf)
#endif
#ifdef P_NORM2
C7(norm, ad::normal_adj_log_pdf, V, w, S, k, Q, q) C7(norm, ad::normal_adj_log_pdf, V, w, V, w, Q, q) D3(norm, ad::normal_adj_log_pdf, z, V, y)
#endif
#ifdef P_CAUCHY
C5(cauchy, ad::cauchy_adj_log_pdf)
#endif
#ifdef P_UNIF
C5(unif, ad::uniform_adj_log_pdf)
#endif
#ifdef P_BERN
D2(bern, ad::bernoulli_adj_log_pdf, S, S) D2(bern, ad::bernoulli_adj_log_pdf, k, S) D2(bern, ad::bernoulli_adj_log_pdf, S, k)
D2(bern, ad::bernoulli_adj_log_pdf, V, S) D2(bern, ad::bernoulli_adj_log_pdf, w, S) D2(bern, ad::bernoulli_adj_log_pdf, z, S) D2(bern, ad::bernoulli_adj_log_pdf, V, k)
D2(bern, ad::bernoulli_adj_log_pdf, V, V) D2(bern, ad::bernoulli_adj_log_pdf, w, V) D2(bern, ad::bernoulli_adj_log_pdf, z, V) D2(bern, ad::bernoulli_adj_log_pdf, V, w)
#endif
#ifdef P_WISH
#define W2(A, B) \
  SC(wish_##A##B##_s) { drive(ad::wishart_adj_log_pdf(op<(#A)[0]>(1), op<(#B)[0]>(2), vc_real("K3")), SEED_SCALAR); } \
  SC(wish_##A##B##_o) { drive_strip(ad::wishart_adj_log_pdf(op<(#A)[0]>(1), op<(#B)[0]>(2), vc_real("K3"))); }
W2(Q, Q) W2(q, Q) W2(Q, q) W2(y, Q)
#endif
