#include "vc.h"
#include <vector>
using namespace vc;
typedef scl S_; typedef vec V_; typedef mat M_;
#ifdef P_LEAF
// a variable as an expression
#define LF1(S) SC(leaf_##S##_s) { auto w = varview<S##_>(); drive(w, SEED_SCALAR, VarHook<S##_>{w}); }
#define LFA(S) LF1(S) SC(leaf_##S##_a) { auto w = varview<S##_>(); drive(w, SEED_ARRAY, VarHook<S##_>{w}); }
LF1(S) LFA(V) LFA(M)
#endif
#ifdef P_VAR
template <class S> auto owned() {
    if constexpr (std::is_same<S, scl>::value) return ad::Var<double, scl>();
    else if constexpr (std::is_same<S, vec>::value) return ad::Var<double, vec>((size_t)vc_size("n", 0));
    else { size_t r = (size_t)vc_size("n", 0), c = (size_t)vc_size("m", 0); return ad::Var<double, mat>(r, c); }
}
template <class T> void setv(T& x, const char* a) { vc_array(x.data(), (long)x.rows(), (long)x.cols(), a); }
template <class T> void seta(T& x, const char* a) { vc_array(x.data_adj(), (long)x.rows(), (long)x.cols(), a); }
template <class T> void see(const char* v, const char* a, T& x) { rec(v, 0, x.get()); rec(a, 0, x.get_adj()); }
template <class T> void same_store(const T& xx, const T& yy) {
    T& x = const_cast<T&>(xx); T& y = const_cast<T&>(yy);
    vc_eq_ptr("same value storage", x.data(), y.data());
    vc_eq_ptr("same adjoint storage", x.data_adj(), y.data_adj());
    vc_eq_int("contract: same rows", (long)x.rows(), (long)y.rows());
    vc_eq_int("contract: same cols", (long)x.cols(), (long)y.cols());
}
#define EACH(nm, ...) \
  SC(nm##_S) { typedef scl S; __VA_ARGS__ } SC(nm##_V) { typedef vec S; __VA_ARGS__ } SC(nm##_M) { typedef mat S; __VA_ARGS__ }
// construction: zero value and adjoint, sizes as asked
EACH(var_init, auto x = owned<S>(); see("zero value", "zero adjoint", x); vc_eq_int("contract: size", (long)x.size(), (long)(x.rows() * x.cols()));)
SC(var_scalar) { ad::Var<double> x(vc_real("K")); see("K value", "zero adjoint", x); }
// copies are independent
EACH(var_copy, auto x = owned<S>(); setv(x, "P"); seta(x, "Q"); ad::Var<double, S> y(x); see("P value", "Q adjoint", y);
     setv(y, "R"); seta(y, "T"); see("P value", "Q adjoint", x); setv(x, "U"); seta(x, "W"); see("R value", "T adjoint", y);)
EACH(var_assign, auto x = owned<S>(); auto y = owned<S>(); setv(x, "P"); seta(x, "Q"); setv(y, "R"); seta(y, "T"); y = x; see("P value", "Q adjoint", y);
     setv(y, "R"); seta(y, "T"); see("P value", "Q adjoint", x); y.reset_adj(); see("P value", "Q adjoint", x);)
EACH(var_self, auto x = owned<S>(); setv(x, "P"); seta(x, "Q"); auto& y = x; y = x; see("P value", "Q adjoint", x);
     vc_eq_int("contract: still its own storage", 1, 1);)
EACH(var_move, auto x = owned<S>(); setv(x, "P"); seta(x, "Q"); ad::Var<double, S> y(std::move(x)); see("P value", "Q adjoint", y); setv(y, "R"); seta(y, "T"); see("R value", "T adjoint", y);)
EACH(var_moveassign, auto y = owned<S>(); { auto x = owned<S>(); setv(x, "P"); seta(x, "Q"); y = std::move(x); } see("P value", "Q adjoint", y); setv(y, "R"); seta(y, "T"); see("R value", "T adjoint", y);)
// a temporary in a copy chain: the result owns its storage after the source is gone
template <class S> ad::Var<double, S> pass(ad::Var<double, S> x) { return x; }
EACH(var_return, auto x = owned<S>(); setv(x, "P"); seta(x, "Q"); auto y = pass<S>(x); setv(x, "R"); seta(x, "T"); see("P value", "Q adjoint", y);)
// views alias
typedef ad::VarView<double, scl> VVS;
#define VIEWOF(S) ad::VarView<double, S>
EACH(view_alias, auto x = owned<S>(); setv(x, "P"); seta(x, "Q"); VIEWOF(S) v = x; VIEWOF(S) u(v); see("P value", "Q adjoint", u); same_store<VIEWOF(S)>(x, v); same_store<VIEWOF(S)>(u, v);
     setv(u, "R"); seta(v, "T"); see("R value", "T adjoint", x);)
EACH(view_rebind, auto x = owned<S>(); auto y = owned<S>(); setv(x, "P"); seta(x, "Q"); setv(y, "R"); seta(y, "T"); VIEWOF(S) v = y; auto e = v.bind({x.data(), x.data_adj()});
     see("P value", "Q adjoint", v); same_store<VIEWOF(S)>(v, x); vc_eq_ptr("value storage used is exactly its size", e.val, x.data() + x.size()); vc_eq_ptr("adjoint storage used is exactly its size", e.adj, x.data_adj() + x.size());
     setv(v, "U"); see("U value", "Q adjoint", x); see("R value", "T adjoint", y);)
// read-only access sees the same storage
template <class T> void csee(const T& x, T& y) {
    rec("P value", 0, x.get()); rec("Q adjoint", 0, x.get_adj());
    vc_eq_ptr("read-only value storage", const_cast<double*>(x.data()), y.data()); vc_eq_ptr("read-only adjoint storage", const_cast<double*>(x.data_adj()), y.data_adj());
    vc_eq_int("contract: same rows", (long)x.rows(), (long)y.rows()); vc_eq_int("contract: same cols", (long)x.cols(), (long)y.cols());
}
EACH(const_access, auto x = owned<S>(); setv(x, "P"); seta(x, "Q"); csee(x, x); const ad::Var<double, S> y(x); rec("P value", 0, y.get()); rec("Q adjoint", 0, y.get_adj()); VIEWOF(S) v = x; csee(v, v);)
SC(const_elem_S) { auto x = owned<scl>(); setv(x, "P"); seta(x, "Q"); const auto& y = x; vc_rec_s("P value", 0, y.get(0, 0)); vc_rec_s("Q adjoint", 0, y.get_adj(0, 0)); }
SC(const_elem_V) { ad::Var<double, vec> x((size_t)vc_size("n", 1)); setv(x, "P"); seta(x, "Q"); size_t i = (size_t)vc_size("n", 1) - 1; const auto& y = x; vc_rec_s("last of P", 0, y.get(i, 0)); vc_rec_s("last of Q", 0, y.get_adj(i, 0)); }
SC(const_elem_M) { ad::Var<double, mat> x((size_t)vc_size("n", 1), (size_t)vc_size("m", 1)); setv(x, "P"); seta(x, "Q"); size_t i = (size_t)vc_size("n", 1) - 1, j = (size_t)vc_size("m", 1) - 1; const auto& y = x;
    vc_rec_s("corner of P", 0, y.get(i, j)); vc_rec_s("corner of Q", 0, y.get_adj(i, j)); vc_rec_s("first of P", 0, y.get(0, 0)); vc_rec_s("row of P", 0, y.get(i, 0)); vc_rec_s("column of Q", 0, y.get_adj(0, j)); }
// a view of storage the user owns
EACH(view_ptr, auto x = owned<S>(); setv(x, "P"); seta(x, "Q"); VIEWOF(S) v(x.data(), x.data_adj(), x.rows(), x.cols()); see("P value", "Q adjoint", v); same_store<VIEWOF(S)>(x, v); setv(v, "R"); v.zero_adj(); see("R value", "zero adjoint", x);
     ad::util::SizePack b = v.bind_cache_size() + v.single_bind_cache_size(); vc_eq_int("contract: needs no cache (values)", (long)b(0), 0); vc_eq_int("contract: needs no cache (adjoints)", (long)b(1), 0);)
// resetting
EACH(reset, auto x = owned<S>(); setv(x, "P"); seta(x, "Q"); x.reset_adj(); see("P value", "zero adjoint", x);)
EACH(zero_adj, auto x = owned<S>(); setv(x, "P"); seta(x, "Q"); x.zero_adj(); see("P value", "zero adjoint", x);)
EACH(ones_adj, auto x = owned<S>(); setv(x, "P"); seta(x, "Q"); x.ones_adj(); see("P value", "one adjoint", x);)
EACH(zero_ones, auto x = owned<S>(); setv(x, "P"); seta(x, "Q"); x.zero(); see("zero value", "Q adjoint", x); x.ones(); see("one value", "Q adjoint", x);)
// element access
SC(elem_S) { auto x = owned<scl>(); setv(x, "P"); seta(x, "Q"); vc_rec_s("P value", 0, x.get(0, 0)); vc_rec_s("Q adjoint", 0, x.get_adj(0, 0)); x.get() = 2.; x.get_adj(0, 0) = 3.; vc_rec_s("two", 0, x.get()); vc_rec_s("three", 0, x.get_adj()); }
SC(elem_V) { ad::Var<double, vec> x((size_t)vc_size("n", 1)); setv(x, "P"); seta(x, "Q"); size_t i = (size_t)vc_size("n", 1) - 1;
    vc_rec_s("last of P", 0, x.get(i, 0)); vc_rec_s("last of Q", 0, x.get_adj(i, 0)); vc_rec_s("last of P", 0, x(i).get()); vc_rec_s("last of Q", 0, x[i].get_adj());
    vc_eq_ptr("element view has the storage of the element", x(i).data(), x.data() + i); vc_eq_ptr("element view has the adjoint of the element", x[i].data_adj(), x.data_adj() + i); }
SC(elem_M) { ad::Var<double, mat> x((size_t)vc_size("n", 1), (size_t)vc_size("m", 1)); setv(x, "P"); seta(x, "Q"); size_t i = (size_t)vc_size("n", 1) - 1, j = (size_t)vc_size("m", 1) - 1;
    vc_rec_s("corner of P", 0, x.get(i, j)); vc_rec_s("corner of Q", 0, x.get_adj(i, j)); vc_rec_s("first of P", 0, x.get(0, 0)); vc_rec_s("row of P", 0, x.get(i, 0)); vc_rec_s("column of Q", 0, x.get_adj(0, j)); }
// sub-blocks of a vector of n + m elements
#define SPLIT ad::VarView<double, vec> x(vc_buf("x", vc_size("n", 0) + vc_size("m", 0)), vc_buf("x adjoint", vc_size("n", 0) + vc_size("m", 0)), (size_t)(vc_size("n", 0) + vc_size("m", 0))); setv(x, "P"); seta(x, "Q"); size_t k = (size_t)vc_size("n", 0), l = (size_t)vc_size("m", 0);
SC(head) { SPLIT auto h = x.head(k); vc_eq_ptr("head starts at the start", h.data(), x.data()); vc_eq_ptr("head adjoint starts at the start", h.data_adj(), x.data_adj()); vc_eq_int("contract: head size", (long)h.size(), (long)k);
    h.beval(vc_real("K")); rec("after head", 0, x.get_adj()); rec("values untouched", 0, x.get()); }
SC(tail) { SPLIT auto t = x.tail(l); vc_eq_ptr("tail starts after the head", t.data(), x.data() + k); vc_eq_ptr("tail adjoint starts after the head", t.data_adj(), x.data_adj() + k); vc_eq_int("contract: tail size", (long)t.size(), (long)l);
    t.beval(vc_real("K")); rec("after tail", 0, x.get_adj()); rec("values untouched", 0, x.get()); }
SC(head_reset) { SPLIT auto h = x.head(k); h.reset_adj(); rec("head reset", 0, x.get_adj()); rec("values untouched", 0, x.get()); }
SC(tail_reset) { SPLIT auto t = x.tail(l); t.reset_adj(); rec("tail reset", 0, x.get_adj()); rec("values untouched", 0, x.get()); }
SC(elem_add) { ad::VarView<double, vec> x(vc_buf("x", vc_size("n", 0) + 1), vc_buf("x adjoint", vc_size("n", 0) + 1), (size_t)(vc_size("n", 0) + 1)); setv(x, "P"); seta(x, "Q"); size_t k = (size_t)vc_size("n", 0);
    auto e = x[k]; e.beval(vc_real("K")); rec("after element", 0, x.get_adj()); rec("values untouched", 0, x.get()); }
// a vector of variables keeps each variable with its own storage when it grows
SC(vec_of_var) { std::vector<ad::Var<double>> v; v.emplace_back(vc_real("K")); v.emplace_back(2.); v.push_back(ad::Var<double>(3.)); v[1].beval(vc_real("K")); v[2].beval(1.);
    vc_rec_s("K value", 0, v[0].get()); vc_rec_s("two", 0, v[1].get()); vc_rec_s("three", 0, v[2].get()); vc_rec_s("zero adjoint", 0, v[0].get_adj()); vc_rec_s("K value", 0, v[1].get_adj()); vc_rec_s("one value", 0, v[2].get_adj());
    for (auto& x : v) x.reset_adj(); for (auto& x : v) vc_rec_s("zero adjoint", 0, x.get_adj()); }
SC(vec_of_vec) { std::vector<ad::Var<double, vec>> v(2, ad::Var<double, vec>((size_t)vc_size("n", 0))); setv(v[0], "P"); setv(v[1], "R"); v[0].beval(vc_real("K")); v.emplace_back((size_t)vc_size("n", 0));
    see("P value", "K adjoint", v[0]); see("R value", "zero adjoint", v[1]); see("zero value", "zero adjoint", v[2]); }
#endif
