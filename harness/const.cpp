#include "vc.h"
using namespace vc;
template <class Node> void fold(const Node& n0) {
    Node node(n0);
    vc_eq_int("contract: folded to a constant", (long)ad::util::is_constant_v<Node>, 1);
    auto sz = node.bind_cache_size();
    vc_eq_int("storage: a constant needs no value memory", (long)sz(0), 0);
    vc_eq_int("storage: a constant needs no adjoint memory", (long)sz(1), 0);
    auto one = node.single_bind_cache_size();
    vc_eq_int("storage: a constant owns no value memory", (long)one(0), 0);
    vc_eq_int("storage: a constant owns no adjoint memory", (long)one(1), 0);
    double *v = vc_buf("value cache", 0), *a = vc_buf("adjoint cache", 0);
    auto end = node.bind_cache(ad::util::PtrPack<double>(v, a));
    vc_eq_ptr("value storage used is exactly what was requested", end.val, v);
    vc_eq_ptr("adjoint storage used is exactly what was requested", end.adj, a);
    for (int r = 1; r <= 2; ++r) {
        { auto&& x = node.feval(); rec("folded", 0, x); }
        rec("folded", 0, node.get());
        node.beval(3.);
        rec("folded", 0, node.get());
        vc_eq_int("contract: size is rows times columns", (long)node.size(), (long)(node.rows() * node.cols()));
        vc_rec_s("rows", 0, (double)(long)node.rows());
        vc_rec_s("columns", 0, (double)(long)node.cols());
    }
}
template <class S> auto kk(const char* name) {
    if constexpr (std::is_same<S, scl>::value) return ad::constant(vc_real(name));
    else if constexpr (std::is_same<S, vec>::value) return ad::constant(cvec(name));
    else return ad::constant(cmat(name));
}
typedef scl S_; typedef vec V_; typedef mat M_;
#ifdef P_UN
#define FU(f, F) SC(k##f##_S) { fold(F(kk<scl>("K"))); } SC(k##f##_V) { fold(F(kk<vec>("K"))); } SC(k##f##_M) { fold(F(kk<mat>("K"))); } SC(k##f##_Z) { fold(F(cviewv("K"))); } SC(k##f##_Y) { fold(F(cviewm("K"))); }
#define X(f) FU(f, ad::f)
X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(exp) X(log) X(sqrt) X(erf) X(tanh) X(sinh) X(cosh) X(sigmoid) FU(neg, -)
FU(sum, ad::sum) FU(prod, ad::prod)
#define PW(n, e) FU(n, ad::pow<e>)
PW(pm5, -5) PW(pm4, -4) PW(pm3, -3) PW(pm2, -2) PW(pm1, -1) PW(p0, 0) PW(p1, 1) PW(p2, 2) PW(p3, 3) PW(p4, 4) PW(p5, 5) PW(p6, 6) PW(p8, 8) PW(p11, 11)
SC(kid_S) { fold(kk<scl>("K")); } SC(kid_V) { fold(kk<vec>("K")); } SC(kid_M) { fold(kk<mat>("K")); } SC(kid_Z) { fold(cviewv("K")); } SC(kid_Y) { fold(cviewm("K")); }
SC(knorm_V) { fold(ad::norm(kk<vec>("K"))); } SC(knorm_M) { fold(ad::norm(kk<mat>("K"))); } SC(knorm_Z) { fold(ad::norm(cviewv("K"))); } SC(knorm_Y) { fold(ad::norm(cviewm("K"))); }
SC(ktr_V) { fold(ad::transpose(kk<vec>("K"))); } SC(ktr_M) { fold(ad::transpose(kk<mat>("K"))); } SC(ktr_Z) { fold(ad::transpose(cviewv("K"))); } SC(ktr_Y) { fold(ad::transpose(cviewm("K"))); }
#endif
#ifdef P_BIN
#define FB(nm, OPR, L, R) SC(k##nm##_##L##R) { fold(kk<L##_>("K") OPR kk<R##_>("L")); }
#define FBA(nm, OPR) FB(nm, OPR, S, S) FB(nm, OPR, S, V) FB(nm, OPR, V, S) FB(nm, OPR, V, V) FB(nm, OPR, S, M) FB(nm, OPR, M, S) FB(nm, OPR, M, M) \
  SC(k##nm##_Sd) { fold(kk<scl>("K") OPR vc_real("L")); } SC(k##nm##_dV) { fold(vc_real("K") OPR kk<vec>("L")); } SC(k##nm##_Vw) { fold(kk<vec>("K") OPR cvec("L")); } SC(k##nm##_Zz) { fold(cviewv("K") OPR cviewv("L")); } \
  SC(k##nm##_Mx) { fold(kk<mat>("K") OPR cmat("L")); }
FBA(add, +) FBA(sub, -) FBA(mul, *) FBA(div, /) FBA(lt, <) FBA(le, <=) FBA(gt, >) FBA(ge, >=) FBA(eq, ==) FBA(ne, !=) FBA(and, &&) FBA(or, ||)
#endif
#ifdef P_OTH
static const int ids[] = {0, 1, 2, 3};
static const char* nms[] = {"K", "L", "P", "Q"};
#define RG(nm, F, S, N) SC(k##nm##_##S##N) { fold(F(ids, ids + N, [](int k) { return kk<S##_>(nms[k]); })); }
#define RGA(nm, F) RG(nm, F, S, 1) RG(nm, F, S, 2) RG(nm, F, S, 4) RG(nm, F, V, 1) RG(nm, F, V, 3) RG(nm, F, M, 1) RG(nm, F, M, 3)
RGA(rsum, ad::sum) RGA(rprod, ad::prod) RG(rsum, ad::sum, S, 0) RG(rsum, ad::sum, V, 0) RG(rsum, ad::sum, M, 0) RG(rprod, ad::prod, V, 0) RG(rprod, ad::prod, M, 0)
SC(kdot_MV) { fold(ad::dot(kk<mat>("K"), ad::constant(cvec("L", "m")))); }
SC(kdot_MM) { fold(ad::dot(kk<mat>("K"), ad::constant(cmat("L", "m", "k")))); }
SC(kdot_xw) { fold(ad::dot(kk<mat>("K"), cvec("L", "m"))); }
SC(kdot_YZ) { fold(ad::dot(cviewm("K"), cviewv("L", "m"))); }
#define KD(nm, f, D) SC(nm) { fold(f<D>(ad::constant(cmat("K", "n", "n")))); }
KD(kdet_lu, ad::det, ad::DetFullPivLU) KD(kdet_ldlt, ad::det, ad::DetLDLT) KD(kdet_llt, ad::det, ad::DetLLT)
KD(kldet_lu, ad::log_det, ad::LogDetFullPivLU) KD(kldet_ldlt, ad::log_det, ad::LogDetLDLT) KD(kldet_llt, ad::log_det, ad::LogDetLLT)
SC(kif_S) { fold(ad::if_else(kk<scl>("C"), kk<scl>("K"), kk<scl>("L"))); }
SC(kif_V) { fold(ad::if_else(kk<scl>("C"), kk<vec>("K"), kk<vec>("L"))); }
SC(kif_M) { fold(ad::if_else(kk<scl>("C"), kk<mat>("K"), kk<mat>("L"))); }
SC(kif_d) { fold(ad::if_else(kk<scl>("C"), vc_real("K"), vc_real("L"))); }
#endif
#ifdef P_GET
// element access
template <class Node> void corners(const Node& k) {
    size_t i = (size_t)k.rows() - 1, j = (size_t)k.cols() - 1;
    vc_rec_s("corner", 0, k.get(i, j)); vc_rec_s("row", 0, k.get(i, 0)); vc_rec_s("column", 0, k.get(0, j)); vc_rec_s("first", 0, k.get(0, 0));
    rec("folded", 0, k.get());
    const double* d = k.data();
    vc_rec_s("first", 0, d[0]); vc_rec_s("corner", 0, d[i + j * (size_t)k.rows()]);
}
SC(kget_S) { corners(kk<scl>("K")); } SC(kget_V) { corners(ad::constant(cvec("K"))); } SC(kget_M) { corners(ad::constant(cmat("K"))); }
SC(kget_Z) { corners(cviewv("K")); } SC(kget_Y) { corners(cviewm("K")); }
#endif
