#include "vc.h"
using namespace vc;
typedef scl S_; typedef vec V_; typedef mat M_;
#ifdef P_EQ
#define EQ1(S) \
  SC(eq_##S##_s) { auto w = varview<S##_>(); drive(w = ch<S##_>(1), SEED_SCALAR, VarHook<S##_>{w}); } \
  SC(eq_##S##_o) { auto w = varview<S##_>(); drive_strip(w = ch<S##_>(1), VarHook<S##_>{w}); }
#define EQA(S) EQ1(S) SC(eq_##S##_a) { auto w = varview<S##_>(); drive(w = ch<S##_>(1), SEED_ARRAY, VarHook<S##_>{w}); }
EQ1(S) EQA(V) EQA(M)
SC(eq_Sk_s) { auto w = varview<scl>(); drive(w = vc_real("K"), SEED_SCALAR, VarHook<scl>{w}); }
SC(eq_Si_s) { auto w = varview<scl>(); drive(w = ad::constant(3.), SEED_SCALAR, VarHook<scl>{w}); }
SC(eq_Vk_s) { auto w = varview<vec>(); drive(w = cvec("K"), SEED_SCALAR, VarHook<vec>{w}); }
SC(eq_Vz_a) { auto w = varview<vec>(); drive(w = cviewv("K"), SEED_ARRAY, VarHook<vec>{w}); }
SC(eq_Mk_s) { auto w = varview<mat>(); drive(w = cmat("K"), SEED_SCALAR, VarHook<mat>{w}); }
SC(eq_Mz_a) { auto w = varview<mat>(); drive(w = cviewm("K"), SEED_ARRAY, VarHook<mat>{w}); }
// a variable assigned inside an assignment
template <class S> struct Chain : VarHook<S> {
    ad::VarView<double, S> u;
    Chain(const ad::VarView<double, S>& w, const ad::VarView<double, S>& u_) : VarHook<S>{w}, u(u_) {}
    void mid(int r) const { VarHook<S>::mid(r); auto v = u; vc_fill(v.data_adj(), (long)v.rows(), (long)v.cols(), "B", 0); rec("outer variable value", 0, u.get()); }
};
SC(eq_chain_S_s) { auto u = varview<scl>(); auto w = varview<scl>(); drive(u = (w = cs(1)), SEED_SCALAR, Chain<scl>(w, u)); }
SC(eq_chain_V_a) { auto u = varview<vec>(); auto w = varview<vec>(); drive(u = (w = cv(1)), SEED_ARRAY, Chain<vec>(w, u)); }
SC(eq_chain_M_s) { auto u = varview<mat>(); auto w = varview<mat>(); drive(u = (w = cm(1)), SEED_SCALAR, Chain<mat>(w, u)); }
#define GL(L, R) \
  SC(glue_##L##R##_s) { drive((ch<L##_>(1), ch<R##_>(2)), SEED_SCALAR); } \
  SC(glue_##L##R##_o) { drive_strip((ch<L##_>(1), ch<R##_>(2))); }
#define GLA(L, R) GL(L, R) SC(glue_##L##R##_a) { drive((ch<L##_>(1), ch<R##_>(2)), SEED_ARRAY); }
GL(S, S) GL(V, S) GL(M, S) GLA(S, V) GLA(V, V) GLA(M, V) GLA(S, M) GLA(V, M) GLA(M, M)
SC(glue3_V_a) { drive((ch<V_>(1), ch<S_>(2), ch<V_>(3)), SEED_ARRAY); }
SC(glue3_S_o) { drive_strip((ch<V_>(1), ch<M_>(2), ch<S_>(3))); }
SC(glue_kV_a) { drive((ad::constant(2.), ch<V_>(2)), SEED_ARRAY); }
#endif
#ifdef P_OPEQ
#define OE1(nm, OP, W, R) \
  SC(nm##_##W##R##_s) { auto w = varview<W##_>(); drive(w OP probed(ch<R##_>(1), w), SEED_SCALAR, VarHook<W##_>{w}); } \
  SC(nm##_##W##R##_o) { auto w = varview<W##_>(); drive_strip(w OP probed(ch<R##_>(1), w), VarHook<W##_>{w}); }
#define OEA(nm, OP, W, R) OE1(nm, OP, W, R) \
  SC(nm##_##W##R##_a) { auto w = varview<W##_>(); drive(w OP probed(ch<R##_>(1), w), SEED_ARRAY, VarHook<W##_>{w}); }
#define OEK(nm, OP) \
  SC(nm##_Sk_s) { auto w = varview<scl>(); drive(w OP vc_real("K"), SEED_SCALAR, VarHook<scl>{w}); } \
  SC(nm##_Vk_a) { auto w = varview<vec>(); drive(w OP vc_real("K"), SEED_ARRAY, VarHook<vec>{w}); } \
  SC(nm##_Vw_a) { auto w = varview<vec>(); drive(w OP cvec("K"), SEED_ARRAY, VarHook<vec>{w}); } \
  SC(nm##_Vz_s) { auto w = varview<vec>(); drive(w OP cviewv("K"), SEED_SCALAR, VarHook<vec>{w}); } \
  SC(nm##_Mx_o) { auto w = varview<mat>(); drive_strip(w OP cmat("K"), VarHook<mat>{w}); }
#define OE(nm, OP) OE1(nm, OP, S, S) OEA(nm, OP, V, S) OEA(nm, OP, V, V) OEA(nm, OP, M, S) OEA(nm, OP, M, M) OEK(nm, OP)
OE(adde, +=) OE(sube, -=) OE(mule, *=) OE(dive, /=)
#endif
