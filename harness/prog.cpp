#include "vc.h"
using namespace vc;
#ifdef P_DRV
// Drivers over an expression with an arbitrary operand.
template <class S> auto expr() { return ad::sin(ch<S>(1)); }
template <class T> void obs(const T& x) { rec("ret", 0, x); }
static double seed() { return vc_real("seed"); }
template <class S> auto sd(double* p, long r, long c) {
    vc_fill(p, r, c, "S", 0);
    return view(p, r, c, (S*)nullptr);
}
#define ROUNDS(E, ...) \
    auto body = [&](int r_) { vc_round(r_); __VA_ARGS__; }; \
    body(1); vc_forget(&E, sizeof(E)); body(2); \
    if (!vc_symbolic()) for (int q = 3; q <= 6; ++q) body(q);
// --- scalar expressions
SC(drv_S_ev) { auto e = ad::bind(expr<scl>()); ROUNDS(e, obs(ad::evaluate(e))) }
SC(drv_S_evr) { auto e = ad::bind(expr<scl>()); ROUNDS(e, obs(ad::evaluate(std::move(e)))) }
SC(drv_S_sep) { auto e = ad::bind(expr<scl>()); double s = seed(); ROUNDS(e, obs(ad::evaluate(e)); ad::evaluate_adj(e, s); rec("after", 0, e.get().get())) }
SC(drv_S_sepr) { auto e = ad::bind(expr<scl>()); double s = seed(); ROUNDS(e, obs(ad::evaluate(std::move(e))); ad::evaluate_adj(std::move(e), s)) }
SC(drv_S_sep1) { auto e = ad::bind(expr<scl>()); ROUNDS(e, obs(ad::evaluate(e)); ad::evaluate_adj(e)) }
SC(drv_S_sepr1) { auto e = ad::bind(expr<scl>()); ROUNDS(e, obs(ad::evaluate(e)); ad::evaluate_adj(std::move(e))) }
SC(drv_S_ad) { auto e = ad::bind(expr<scl>()); double s = seed(); ROUNDS(e, obs(ad::autodiff(e, s)); rec("after", 0, e.get().get())) }
SC(drv_S_adr) { auto e = ad::bind(expr<scl>()); double s = seed(); ROUNDS(e, obs(ad::autodiff(std::move(e), s))) }
SC(drv_S_ad1) { auto e = ad::bind(expr<scl>()); ROUNDS(e, obs(ad::autodiff(e))) }
SC(drv_S_adr1) { auto e = ad::bind(expr<scl>()); ROUNDS(e, obs(ad::autodiff(std::move(e)))) }
SC(drv_S_copy1) { auto e0 = ad::bind(expr<scl>()); auto e(e0); double s = seed(); ROUNDS(e, obs(ad::autodiff(e, s))) }
SC(drv_S_copyc) { const auto e0 = ad::bind(expr<scl>()); auto e(e0); double s = seed(); ROUNDS(e, obs(ad::autodiff(e, s))) }
SC(drv_S_tmp) { auto c = expr<scl>(); double s = seed(); ROUNDS(c, obs(ad::autodiff(ad::bind(c), s))) }
SC(drv_S_own) { auto e = expr<scl>(); bind_exact(e); double s = seed(); ROUNDS(e, obs(ad::evaluate(e)); ad::evaluate_adj(e, s); rec("after", 0, e.get())) }
SC(drv_S_own1) { auto e = expr<scl>(); bind_exact(e); ROUNDS(e, obs(ad::autodiff(e)); rec("after", 0, e.get())) }
SC(drv_S_ownr) { auto e = expr<scl>(); bind_exact(e); double s = seed(); ROUNDS(e, obs(ad::autodiff(std::move(e), s)); rec("after", 0, e.get())) }
// --- vectors and matrices
#define MULTI(L, S) \
SC(drv_##L##_ev) { auto e = ad::bind(expr<S>()); ROUNDS(e, obs(ad::evaluate(e))) } \
SC(drv_##L##_sep) { auto e = ad::bind(expr<S>()); long r = (long)e.get().rows(), c = (long)e.get().cols(); double* p = vc_buf("seed", r * c); \
    ROUNDS(e, obs(ad::evaluate(e)); auto s = sd<S>(p, r, c); ad::evaluate_adj(e, s); rec("after", 0, e.get().get())) } \
SC(drv_##L##_sepr) { auto e = ad::bind(expr<S>()); long r = (long)e.get().rows(), c = (long)e.get().cols(); double* p = vc_buf("seed", r * c); \
    ROUNDS(e, obs(ad::evaluate(e)); auto s = sd<S>(p, r, c); ad::evaluate_adj(std::move(e), s)) } \
SC(drv_##L##_ad) { auto e = ad::bind(expr<S>()); long r = (long)e.get().rows(), c = (long)e.get().cols(); double* p = vc_buf("seed", r * c); \
    ROUNDS(e, auto s = sd<S>(p, r, c); obs(ad::autodiff(e, s)); rec("after", 0, e.get().get())) } \
SC(drv_##L##_adr) { auto e = ad::bind(expr<S>()); long r = (long)e.get().rows(), c = (long)e.get().cols(); double* p = vc_buf("seed", r * c); \
    ROUNDS(e, auto s = sd<S>(p, r, c); obs(ad::autodiff(std::move(e), s))) } \
SC(drv_##L##_copy1) { auto e0 = ad::bind(expr<S>()); auto e(e0); long r = (long)e.get().rows(), c = (long)e.get().cols(); double* p = vc_buf("seed", r * c); \
    ROUNDS(e, auto s = sd<S>(p, r, c); obs(ad::autodiff(e, s))) } \
SC(drv_##L##_own) { auto e = expr<S>(); bind_exact(e); long r = (long)e.rows(), c = (long)e.cols(); double* p = vc_buf("seed", r * c); \
    ROUNDS(e, obs(ad::evaluate(e)); auto s = sd<S>(p, r, c); ad::evaluate_adj(e, s); rec("after", 0, e.get())) } \
SC(drv_##L##_ownad) { auto e = expr<S>(); bind_exact(e); long r = (long)e.rows(), c = (long)e.cols(); double* p = vc_buf("seed", r * c); \
    ROUNDS(e, auto s = sd<S>(p, r, c); obs(ad::autodiff(e, s)); rec("after", 0, e.get())) }
MULTI(V, vec) MULTI(M, mat)
// --- copies and moves of bound expressions: rounds 1, 2 evaluate, rounds 3, 4 back-propagate
#define TWO(L, S, MAKE) \
SC(L) { auto a = ad::bind(expr<S>()); MAKE; \
    vc_round(1); rec("first", 0, ad::evaluate(a)); vc_round(2); rec("second", 0, ad::evaluate(b)); \
    rec("first", 0, a.get().get()); rec("second", 0, b.get().get()); \
    long r = (long)a.get().rows(), c = (long)a.get().cols(); double* p = vc_buf("seed", r * c); \
    vc_round(3); { auto s = sd<S>(p, r, c); ad::evaluate_adj(a, s); } vc_round(4); { auto s = sd<S>(p, r, c); ad::evaluate_adj(b, s); } \
    rec("first", 0, a.get().get()); rec("second", 0, b.get().get()); }
TWO(two_copy_V, vec, auto b(a)) TWO(two_copy_M, mat, auto b(a))
TWO(two_copyc_V, vec, const auto& ca = a; auto b(ca))
#define TWOS(L, MAKE) \
SC(L) { auto a = ad::bind(expr<scl>()); MAKE; \
    vc_round(1); rec("first", 0, ad::evaluate(a)); vc_round(2); rec("second", 0, ad::evaluate(b)); \
    rec("first", 0, a.get().get()); rec("second", 0, b.get().get()); double s = seed(); \
    vc_round(3); ad::evaluate_adj(a, s); vc_round(4); ad::evaluate_adj(b, s); \
    rec("first", 0, a.get().get()); rec("second", 0, b.get().get()); }
TWOS(two_copy_S, auto b(a)) TWOS(two_copyc_S, const auto& ca = a; auto b(ca))
// a copy (a move) made between evaluation and back-propagation carries the values along
#define LATE(L, S, MAKE) \
SC(L) { auto a = ad::bind(expr<S>()); vc_round(1); rec("first", 0, ad::evaluate(a)); MAKE; rec("first", 0, b.get().get()); \
    long r = (long)b.get().rows(), c = (long)b.get().cols(); double* p = vc_buf("seed", r * c); \
    vc_round(3); { auto s = sd<S>(p, r, c); ad::evaluate_adj(b, s); } rec("first", 0, b.get().get()); \
    vc_round(2); rec("second", 0, ad::evaluate(b)); vc_round(4); { auto s = sd<S>(p, r, c); ad::evaluate_adj(b, s); } rec("second", 0, b.get().get()); }
LATE(late_copy_V, vec, auto b(a)) LATE(late_copy_M, mat, auto b(a)) LATE(late_move_V, vec, auto b(std::move(a))) LATE(late_move_M, mat, auto b(std::move(a)))
#define LATES(L, MAKE) \
SC(L) { auto a = ad::bind(expr<scl>()); vc_round(1); rec("first", 0, ad::evaluate(a)); MAKE; rec("first", 0, b.get().get()); double s = seed(); \
    vc_round(3); ad::evaluate_adj(b, s); rec("first", 0, b.get().get()); \
    vc_round(2); rec("second", 0, ad::evaluate(b)); vc_round(4); ad::evaluate_adj(b, s); rec("second", 0, b.get().get()); }
LATES(late_copy_S, auto b(a)) LATES(late_move_S, auto b(std::move(a)))
#endif
#ifdef P_PROG
// Whole programs over real variables: every round gives each variable an arbitrary value and an
// arbitrary adjoint already accumulated, differentiates, and observes value, gradient and variables.
template <class S> struct In {      // an input variable
    ad::Var<double, S>& v; int id;
    void pre() const { vc_fill(v.data(), (long)v.rows(), (long)v.cols(), "X", id); vc_fill(v.data_adj(), (long)v.rows(), (long)v.cols(), "A", id); }
    void post() const { rec("grad", id, v.get_adj()); rec("kept", id, v.get()); }
};
template <class S> struct Up {      // an input variable the program updates in place (its adjoint starts at zero)
    ad::Var<double, S>& v; int id;
    void pre() const { vc_fill(v.data(), (long)v.rows(), (long)v.cols(), "X", id); v.reset_adj(); }
    void post() const { rec("grad", id, v.get_adj()); rec("kept", id, v.get()); }
};
template <class S> struct Ph {      // a placeholder: arbitrary value, adjoint reset
    ad::Var<double, S>& v;
    void pre() const { vc_havoc(v.data(), (long)v.rows(), (long)v.cols()); v.reset_adj(); }
    void post() const { rec("result", 0, v.get()); }
};
template <class S> struct PhX : Ph<S> { void post() const {} };     // ... whose final value is not the program value
template <class S> In<S> in(ad::Var<double, S>& v, int id) { return {v, id}; }
template <class S> Up<S> up(ad::Var<double, S>& v, int id) { return {v, id}; }
template <class S> Ph<S> phr(ad::Var<double, S>& v) { return {v}; }
template <class S> PhX<S> ph(ad::Var<double, S>& v) { return {{v}}; }
template <class E, class... T> void program(E& e, const T&... t) {
    using shape_t = typename std::decay<decltype(e.get())>::type::shape_t;
    double s = vc_real("seed");
    double* p = vc_buf("seed", (long)(e.get().rows() * e.get().cols()));
    auto body = [&](int r_) {
        vc_round(r_);
        (t.pre(), ...);
        if constexpr (std::is_same<shape_t, scl>::value) { rec("value", 0, ad::autodiff(e, s)); }
        else {
            long r = (long)e.get().rows(), c = (long)e.get().cols();
            vc_fill(p, r, c, "S", 0);
            auto sv = view(p, r, c, (shape_t*)nullptr);
            rec("value", 0, ad::autodiff(e, sv));
        }
        (t.post(), ...);
    };
    body(1); vc_forget(&e, sizeof(e)); body(2);
    if (!vc_symbolic()) for (int q = 3; q <= 6; ++q) body(q);
}
#define SV(...) ad::Var<double> __VA_ARGS__
#define VV(x) ad::Var<double, vec> x((size_t)vc_size("n", 0))
#define MV(x) ad::Var<double, mat> x((size_t)vc_size("n", 0), (size_t)vc_size("m", 0))
#define GO(E, ...) auto e = ad::bind(E); program(e, __VA_ARGS__)
// scalars
SC(s_prodsin) { SV(a); SV(b); GO(a * b + ad::sin(a), in(a, 1), in(b, 2)); }
SC(s_let) { SV(a); SV(b); SV(w); GO((w = a * b, w * w + a), in(a, 1), in(b, 2), ph(w)); }
SC(s_let2) { SV(a); SV(b); SV(w); SV(u); GO((u = (w = a * b) + a, w * u + w), in(a, 1), in(b, 2), ph(w), ph(u)); }
SC(s_letlet) { SV(a); SV(b); SV(w); SV(u); GO((w = ad::sin(a), u = w * b, w * u * ad::exp(u)), in(a, 1), in(b, 2), ph(w), ph(u)); }
SC(s_upd) { SV(a); SV(b); SV(w); GO((w = a + b, w += w * a, w *= w, w), in(a, 1), in(b, 2), ph(w)); }
SC(s_upd_in) { SV(a); SV(w); GO((w *= a, w += ad::sin(w), w * a), in(a, 1), up(w, 2)); }
SC(s_upd3) { SV(a); SV(b); SV(w); GO((w = a * 1., w += b, w += b, w += b, w * w), in(a, 1), in(b, 2), ph(w)); }
SC(s_updall) { SV(a); SV(b); SV(w); GO((w = a * 2., w += b, w *= a, w -= w * b, w /= b, w * a), in(a, 1), in(b, 2), ph(w)); }
SC(s_updval) { SV(a); SV(b); SV(w); GO((w = a * b, w *= b), in(a, 1), in(b, 2), ph(w)); }
SC(s_if) { SV(a); SV(b); GO(ad::if_else(a < b, a * a, a - b), in(a, 1), in(b, 2)); }
SC(s_iflet) { SV(a); SV(b); SV(w); GO((w = a * b, ad::if_else(w > a, w * b, w + b * b)), in(a, 1), in(b, 2), ph(w)); }
SC(s_ifif) { SV(a); SV(b); GO(ad::if_else(a < b && b < 1., ad::if_else(a == 0., a + b, a * b), b), in(a, 1), in(b, 2)); }
SC(s_pow) { SV(a); SV(b); GO(ad::pow<3>(a * b) - ad::pow<2>(a) * ad::pow<0>(b), in(a, 1), in(b, 2)); }
SC(s_div) { SV(a); SV(b); GO(a / b - b / a + 1. / (a * b), in(a, 1), in(b, 2)); }
SC(s_many) { SV(a); SV(b); SV(c); GO(ad::tanh(a * b) * ad::cosh(c) - ad::sigmoid(a + c) / ad::exp(b), in(a, 1), in(b, 2), in(c, 3)); }
SC(s_xxxx) { SV(a); GO(a * a * (a + a) - (a - a * a), in(a, 1)); }
SC(s_range) { SV(a); SV(b); std::array<int, 3> it = {{1, 2, 3}}; GO(ad::sum(it.begin(), it.end(), [&](int k) { return a * (double)k + b * a; }), in(a, 1), in(b, 2)); }
SC(s_rangew) { SV(a); SV(b); std::array<SV(), 3> w; std::array<int, 2> it = {{1, 2}};
    GO((w[0] = a * b, ad::for_each(it.begin(), it.end(), [&](int k) { return w[k] = w[k - 1] * a; }), w[0] + w[1] * w[2]), in(a, 1), in(b, 2), ph(w[0]), ph(w[1]), ph(w[2])); }
SC(s_prodr) { std::vector<SV()> a(3); GO(ad::prod(a.begin(), a.end(), [&](const SV()& x) { return ad::sin(x); }) * a[0], in(a[0], 1), in(a[1], 2), in(a[2], 3)); }
// an in-place update inside an expression whose value is discarded (it is back-propagated with a zero seed)
#define DS(nm, ...) SC(d_##nm) { SV(a); SV(b); SV(w); SV(u); std::array<int, 2> it = {{1, 2}}; (void)it; GO((w = a * b, __VA_ARGS__, w * w), in(a, 1), in(b, 2), ph(w), ph(u)); }
DS(sin, ad::sin(w *= a)) DS(neg, -(w *= a)) DS(exp, ad::exp(w *= a)) DS(tanh, ad::tanh(w *= a)) DS(pow, ad::pow<3>(w *= a)) DS(pow0, ad::pow<0>(w *= a)) DS(pow1, ad::pow<1>(w *= a))
DS(addl, (w *= a) + b) DS(addr, b + (w *= a)) DS(subl, (w *= a) - b) DS(subr, b - (w *= a)) DS(mull, (w *= a) * b) DS(mulr, b * (w *= a)) DS(divl, (w *= a) / 2.)
DS(konst, 2. * (w *= a) + 1.) DS(eq, u = (w *= a)) DS(plus, (u = b, u += (w *= a))) DS(minus, (u = b, u -= (w *= a))) DS(times, (u = b, u *= (w *= a))) DS(glue, (w *= a, b))
DS(fe, ad::for_each(it.begin(), it.begin() + 1, [&](int) { return w *= a; })) DS(rsum, ad::sum(it.begin(), it.begin() + 1, [&](int) { return w *= a; }))
DS(rprod, ad::prod(it.begin(), it.begin() + 1, [&](int) { return w *= a; })) DS(sum, ad::sum(w *= a)) DS(prod, ad::prod(w *= a)) DS(if, ad::if_else(a == a, w *= a, b)) DS(nest, ad::sin(b * ad::exp(-(w *= a))))
#define DV(nm, ...) SC(dv_##nm) { VV(a); SV(b); VV(w); VV(u); GO((w = a * b, __VA_ARGS__, ad::sum(w * w)), in(a, 1), in(b, 2), ph(w), ph(u)); }
DV(sum, ad::sum(w *= a)) DV(prod, ad::prod(w *= a)) DV(norm, ad::norm(w *= a)) DV(sin, ad::sin(w *= a)) DV(addr, b + (w *= a)) DV(addl, (w *= a) + b) DV(mulr, b * (w *= a)) DV(mull, (w *= a) * b) DV(mulv, a * (w *= a)) DV(vmul, (w *= a) * a)
DV(tr, ad::transpose(w *= a)) DV(dot, ad::dot(ad::transpose(a), w *= a)) DV(eq, u = (w *= a)) DV(plus, (u = a, u += (w *= a))) DV(times, (u = a, u *= (w *= a))) DV(pow, ad::pow<2>(w *= a)) DV(if, ad::if_else(b == b, w *= a, a))
#define DM(nm, ...) SC(dm_##nm) { MV(a); SV(b); MV(w); ad::Var<double, vec> x((size_t)vc_size("m", 0)); GO((w = a * b, __VA_ARGS__, ad::sum(w * w)), in(a, 1), in(b, 2), in(x, 3), ph(w)); }
DM(dot, ad::dot(w *= a, x)) DM(tr, ad::transpose(w *= a)) DM(dotr, ad::dot(ad::transpose(a), w *= a)) DM(sum, ad::sum(w *= a)) DM(norm, ad::norm(w *= a)) DM(mul, b * (w *= a)) DM(sin, ad::sin(w *= a))
// vectors
SC(v_prodsin) { VV(a); VV(b); GO(a * b + ad::sin(a), in(a, 1), in(b, 2)); }
SC(v_bcast) { VV(a); SV(b); GO(a * b + b * (b - a), in(a, 1), in(b, 2)); }
SC(v_sum) { VV(a); VV(b); GO(ad::sum(a * b * a) + ad::sum(b), in(a, 1), in(b, 2)); }
SC(v_prod) { VV(a); SV(b); GO(ad::prod(a) * b + ad::prod(a), in(a, 1), in(b, 2)); }
SC(v_norm) { VV(a); VV(b); GO(ad::norm(a - b) * ad::sum(a), in(a, 1), in(b, 2)); }
SC(v_let) { VV(a); VV(b); VV(w); GO((w = a * b, ad::sum(w * w) + ad::sum(w)), in(a, 1), in(b, 2), ph(w)); }
SC(v_letval) { VV(a); SV(b); VV(w); VV(u); GO((w = a * b, u = w + a, w * u), in(a, 1), in(b, 2), ph(w), ph(u)); }
SC(v_upd) { VV(a); VV(b); VV(w); GO((w = a * b, w += a, w *= w, w -= b, ad::sum(w * a)), in(a, 1), in(b, 2), ph(w)); }
SC(v_upds) { VV(a); SV(b); VV(w); GO((w = a + b, w *= b, w += w, w -= b, w / b), in(a, 1), in(b, 2), ph(w)); }
SC(v_upddiv) { VV(a); VV(b); VV(w); GO((w = a * 1., w /= b, w /= b, ad::sum(w)), in(a, 1), in(b, 2), ph(w)); }
SC(v_updin) { VV(a); VV(w); GO((w *= a, w += w, ad::sum(w * w)), in(a, 1), up(w, 2)); }
SC(v_block) { ad::Var<double, vec> a((size_t)(vc_size("n", 0) + vc_size("m", 0))); size_t k = (size_t)vc_size("n", 0), l = (size_t)vc_size("m", 0);
    GO(ad::sum(a.head(k) * 2.) * ad::norm(a.tail(l)) + ad::sum(ad::sin(a)), in(a, 1)); }
SC(v_if) { VV(a); VV(b); SV(c); GO(ad::if_else(c < 0., a * b, a - b * c), in(a, 1), in(b, 2), in(c, 3)); }
SC(v_cmp) { VV(a); VV(b); GO(ad::sum((a < b) * a), in(a, 1), in(b, 2)); }
SC(v_pow) { VV(a); GO(ad::sum(ad::pow<3>(a) * ad::pow<2>(a)), in(a, 1)); }
// matrices
SC(m_prodsin) { MV(a); MV(b); GO(a * b - ad::cos(b), in(a, 1), in(b, 2)); }
SC(m_lsq) { MV(a); ad::Var<double, vec> x((size_t)vc_size("m", 0)); VV(y); GO(ad::norm(ad::dot(a, x) - y), in(a, 1), in(x, 2), in(y, 3)); }
SC(m_dot) { MV(a); ad::Var<double, mat> b((size_t)vc_size("m", 0), (size_t)vc_size("k", 0)); GO(ad::sum(ad::dot(a, b)), in(a, 1), in(b, 2)); }
SC(m_dotval) { MV(a); ad::Var<double, vec> x((size_t)vc_size("m", 0)); GO(ad::sin(ad::dot(a, x)), in(a, 1), in(x, 2)); }
SC(m_gram) { MV(a); GO(ad::sum(ad::dot(ad::transpose(a), a)), in(a, 1)); }
SC(m_let) { MV(a); SV(b); MV(w); GO((w = a * b, ad::sum(w * w) + b), in(a, 1), in(b, 2), ph(w)); }
SC(m_upd) { MV(a); SV(b); MV(w); GO((w = a * a, w *= b, w += a, ad::sum(w)), in(a, 1), in(b, 2), ph(w)); }
SC(m_tr) { MV(a); ad::Var<double, mat> b((size_t)vc_size("m", 0), (size_t)vc_size("n", 0)); GO(ad::transpose(a) * b + b, in(a, 1), in(b, 2)); }
// statistics: a normal model with shared parameters
SC(st_model) { VV(y); SV(mu); SV(s); SV(w); GO((w = mu * s, ad::normal_adj_log_pdf(y, w, s) + ad::normal_adj_log_pdf(mu, 0., 1.)), in(y, 1), in(mu, 2), in(s, 3), ph(w)); }
SC(st_hier) { VV(y); VV(th); SV(mu); SV(ls); SV(sd);
    GO((sd = ad::exp(ls), ad::normal_adj_log_pdf(th, mu, sd) + ad::normal_adj_log_pdf(y, th, 1.) + ad::cauchy_adj_log_pdf(mu, 0., 5.) + ad::normal_adj_log_pdf(ls, 0., 1.)),
       in(y, 1), in(th, 2), in(mu, 3), in(ls, 4), ph(sd)); }
SC(st_logit) { VV(x); VV(b); SV(k); VV(p); auto yk = cvec("Y"); GO((p = ad::sigmoid(x * b + k), ad::bernoulli_adj_log_pdf(ad::constant(yk), p)), in(x, 1), in(b, 2), in(k, 3), ph(p)); }
SC(st_reg) { MV(a); ad::Var<double, vec> b((size_t)vc_size("m", 0)); VV(y); SV(s); SV(w); GO((w = ad::exp(s), ad::normal_adj_log_pdf(y, ad::dot(a, b), w) + ad::normal_adj_log_pdf(b, 0., 1.)), in(a, 1), in(b, 2), in(y, 3), in(s, 4), ph(w)); }
// Eigen constants in the program
SC(k_lin) { VV(a); auto k = cvec("K"); GO(ad::sum(ad::constant(k) * a * a) + 2., in(a, 1)); }
SC(k_fold) { SV(a); GO(a * (ad::constant(2.) * 3. + 1.), in(a, 1)); }
#endif
