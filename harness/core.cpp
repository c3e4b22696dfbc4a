#include "vc.h"
using namespace vc;
#define SO(nm, EX) SC(nm##_s) { drive(EX, SEED_SCALAR); } SC(nm##_o) { drive_strip(EX); }
#define SAO(nm, EX) SO(nm, EX) SC(nm##_a) { drive(EX, SEED_ARRAY); }
#ifdef P_REDUCE
SO(sum_S, ad::sum(cs(1))) SO(sum_V, ad::sum(cv(1))) SO(sum_M, ad::sum(cm(1)))
SO(prod_S, ad::prod(cs(1))) SO(prod_V, ad::prod(cv(1))) SO(prod_M, ad::prod(cm(1)))
#endif
#ifdef P_LINALG
SAO(dot_MV, ad::dot(cm(1), chd<vec>(2, "m", "")))
SAO(dot_MM, ad::dot(cm(1), chd<mat>(2, "m", "k")))
SAO(dot_kMV, ad::dot(cmat("K"), chd<vec>(2, "m", "")))
SAO(dot_kMM, ad::dot(cmat("K"), chd<mat>(2, "m", "k")))
SAO(dot_Mkv, ad::dot(cm(1), cvec("K", "m")))
SAO(dot_Mkm, ad::dot(cm(1), cmat("K", "m", "k")))
SAO(dot_Mkz, ad::dot(cm(1), cviewv("K", "m")))
SAO(tr_V, ad::transpose(cv(1)))
SAO(tr_M, ad::transpose(cm(1)))
SO(norm_V, ad::norm(cv(1)))
SO(norm_M, ad::norm(cm(1)))
#endif
#ifdef P_POW
#define PW(nm, e) SO(nm##_S, ad::pow<e>(cs(1))) SAO(nm##_V, ad::pow<e>(cv(1))) SAO(nm##_M, ad::pow<e>(cm(1)))
PW(pow_m16, -16) PW(pow_m9, -9) PW(pow_m8, -8) PW(pow_m7, -7) PW(pow_m6, -6) PW(pow_m5, -5) PW(pow_m4, -4) PW(pow_m3, -3) PW(pow_m2, -2) PW(pow_m1, -1) PW(pow_0, 0) PW(pow_1, 1) PW(pow_2, 2) PW(pow_3, 3) PW(pow_4, 4) PW(pow_5, 5) PW(pow_6, 6) PW(pow_7, 7) PW(pow_8, 8) PW(pow_9, 9) PW(pow_10, 10) PW(pow_11, 11) PW(pow_12, 12) PW(pow_13, 13) PW(pow_15, 15) PW(pow_16, 16) PW(pow_17, 17) PW(pow_24, 24) PW(pow_31, 31) PW(pow_32, 32)
#endif
#ifdef P_IF
SO(if_S, ad::if_else(cs(1), cs(2), cs(3)))
SAO(if_V, ad::if_else(cs(1), cv(2), cv(3)))
SAO(if_M, ad::if_else(cs(1), cm(2), cm(3)))
SO(if_Sk, ad::if_else(cs(1), cs(2), vc_real("K")))
SO(if_kS, ad::if_else(cs(1), vc_real("K"), cs(3)))
SAO(if_Vk, ad::if_else(cs(1), cv(2), cvec("K")))
SAO(if_kV, ad::if_else(cs(1), cvec("K"), cv(3)))
SAO(if_Mk, ad::if_else(cs(1), cm(2), cmat("K")))
SAO(if_kM, ad::if_else(cs(1), cviewm("K"), cm(3)))
SO(if_kSS, ad::if_else(vc_real("K"), cs(2), cs(3)))
SAO(if_cmp, ad::if_else(cs(1) < 0., cv(2), cv(3)))
SAO(if_kkV, ad::if_else(cs(1), cvec("K"), cvec("L")))
SO(if_kkS, ad::if_else(cs(1), vc_real("K"), vc_real("L")))
#endif
#ifdef P_DET
#define DT(nm, f, D) SO(nm, f<D>(cq(1)))
DT(det_lu, ad::det, ad::DetFullPivLU) DT(det_ldlt, ad::det, ad::DetLDLT) DT(det_llt, ad::det, ad::DetLLT)
DT(ldet_lu, ad::log_det, ad::LogDetFullPivLU) DT(ldet_ldlt, ad::log_det, ad::LogDetLDLT) DT(ldet_llt, ad::log_det, ad::LogDetLLT)
SO(det_def, ad::det(cq(1))) SO(ldet_def, ad::log_det(cq(1)))
#endif
