// Contract harness.  The same scenario source is used twice:
//  - compiled against the contract shim of Eigen (VC_SYM): the verifier executes the
//    real library code symbolically and the vc_* hooks introduce universally
//    quantified inputs and record what the contract constrains;
//  - compiled against the real Eigen (replay): the hooks draw concrete inputs and
//    print what happened, so that a refuted obligation is replayed on the real code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <fastad_bits/reverse.hpp>
#include <fastad_bits/reverse/stat.hpp>
#include <fastad_bits/reverse/core/det.hpp>
#include <fastad_bits/reverse/core/log_det.hpp>
#include <fastad_bits/forward.hpp>
#include <vector>
#include <array>

extern "C" {
long    vc_size(const char* name, long lo);             // any size >= lo
double  vc_real(const char* name);                      // any real of the scenario's domain
double* vc_buf(const char* tag, long n);                // exactly n doubles
void    vc_fill(void* p, long r, long c, const char* name, int id);   // name<id>_<round>(i,j)
void    vc_array(void* p, long r, long c, const char* name);          // name(i,j)
void    vc_havoc(void* p, long r, long c);              // arbitrary content
void    vc_touch(const void* p, long r, long c);        // requires r*c doubles accessible
void    vc_round(int r);
void    vc_event(const char* what, int id);
void    vc_eq_ptr(const char* label, const void* a, const void* b);
void    vc_eq_int(const char* label, long a, long b);
void    vc_rec_s(const char* label, int id, double v);
void    vc_forget(const void* node, long bytes);        // havoc whatever the node wrote in earlier rounds
int     vc_symbolic();
}
#ifdef VC_SYM
extern "C" void vc_rec_h(const char* label, int id, unsigned long h);
#else
extern "C" void vc_rec_begin(const char* label, int id, long r, long c);
extern "C" void vc_rec_val(double v);
extern "C" void vc_sibling(void (*f)(void*), void* p);
#endif

#ifndef VC_LO
#define VC_LO 0     // smallest row / column count of the operands
#endif
namespace vc {

template <class T> void rec(const char* label, int id, const T& x) {
    if constexpr (std::is_arithmetic<T>::value) vc_rec_s(label, id, (double)x);
    else {
#ifdef VC_SYM
        vc_rec_h(label, id, x.hnd());
#else
        auto v = x.eval();
        vc_rec_begin(label, id, v.rows(), v.cols());
        for (long j = 0; j < v.cols(); ++j) for (long i = 0; i < v.rows(); ++i) vc_rec_val((double)v(i, j));
#endif
    }
}

using ad::scl; using ad::vec; using ad::mat;
typedef Eigen::Map<Eigen::Array<double, Eigen::Dynamic, 1>> MapA;
typedef Eigen::Map<Eigen::Array<double, Eigen::Dynamic, Eigen::Dynamic>> MapAA;

template <class S> struct Dims;      // shape -> array map
template <class P, class S> auto view(P* p, long r, long c, S*) {
    if constexpr (std::is_same<S, mat>::value) return MapAA(p, r, c);
    else { (void)c; return MapA(p, r); }
}

struct NoProbe { void look(int) const {} };
// an operand that also uses a variable itself: when it is back-propagated, it observes the
// variable's value and adds something of its own to the variable's adjoint
template <class S> struct VarProbe {
    ad::VarView<double, S> w;
    double* own;
    void look(int id) const {
        rec("variable seen by operand", id, w.get());
        auto v = w;
        long r = (long)v.rows(), c = (long)v.cols();
        vc_fill(own, r, c, "B", 0);
        auto d = view(v.data_adj(), r, c, (S*)nullptr);
        d += view(own, r, c, (S*)nullptr);
    }
};

// An arbitrary expression node obeying the node contract: fresh value on every forward
// pass, exact storage use (its own view last), seed recorded when back-propagated into.
template <class V, class S, class P = NoProbe>
struct Child : ad::core::ValueAdjView<V, S>, ad::core::ExprBase<Child<V, S, P>>
{
    using value_adj_view_t = ad::core::ValueAdjView<V, S>;
    using typename value_adj_view_t::value_t;
    using typename value_adj_view_t::shape_t;
    using typename value_adj_view_t::var_t;
    using typename value_adj_view_t::ptr_pack_t;
    int id; long kv, ka;
    V *iv, *ia;
    P probe;
    Child(int id_, long r, long c, long kv_, long ka_, const P& p = P())
        : value_adj_view_t(nullptr, nullptr, r, c), id(id_), kv(kv_), ka(ka_), iv(nullptr), ia(nullptr), probe(p) {}
    const var_t& feval() {
        vc_event("feval", id);
        vc_havoc(iv, kv, 1);
        vc_fill(this->data(), (long)this->rows(), (long)this->cols(), "V", id);
        return this->get();
    }
    template <class T> void beval(const T& seed) {
        vc_event("beval", id);
        rec("seed", id, seed);
        rec("child value kept", id, this->get());
        probe.look(id);
        if constexpr (!std::is_same<P, NoProbe>::value) rec("seed", id, seed);
        vc_havoc(ia, ka, 1);
        vc_touch(iv, kv, 1);
        vc_havoc(this->data_adj(), (long)this->rows(), (long)this->cols());
    }
    ptr_pack_t bind_cache(ptr_pack_t begin) {
        iv = begin.val; begin.val += kv;
        ia = begin.adj; begin.adj += ka;
        return value_adj_view_t::bind(begin);
    }
    ad::util::SizePack bind_cache_size() const {
        return single_bind_cache_size() + ad::util::SizePack((size_t)kv, (size_t)ka);
    }
    ad::util::SizePack single_bind_cache_size() const { return {this->size(), this->size()}; }
};

template <class S> auto child(int id, const char* rn, const char* cn, const char* kvn, const char* kan) {
    long r = 1, c = 1;
    if constexpr (!std::is_same<S, scl>::value) r = vc_size(rn, VC_LO);
    if constexpr (std::is_same<S, mat>::value) c = vc_size(cn, VC_LO);
    return Child<double, S>(id, r, c, vc_size(kvn, 0), vc_size(kan, 0));
}
inline const char* kvn(int id) { return id == 1 ? "kv1" : id == 2 ? "kv2" : id == 3 ? "kv3" : "kv4"; }
inline const char* kan(int id) { return id == 1 ? "ka1" : id == 2 ? "ka2" : id == 3 ? "ka3" : "ka4"; }
inline auto cs(int id) { return child<scl>(id, "", "", kvn(id), kan(id)); }
inline auto cv(int id) { return child<vec>(id, "n", "", kvn(id), kan(id)); }
inline auto cm(int id) { return child<mat>(id, "n", "m", kvn(id), kan(id)); }
inline auto cq(int id) { return child<mat>(id, "n", "n", kvn(id), kan(id)); }
template <class S> auto ch(int id) {
    if constexpr (std::is_same<S, scl>::value) return cs(id);
    else if constexpr (std::is_same<S, vec>::value) return cv(id);
    else return cm(id);
}

template <class S> auto chd(int id, const char* rn, const char* cn) {
    return child<S>(id, rn, cn, kvn(id), kan(id));
}

// A placeholder variable over caller memory, and a hook that gives it arbitrary contents
template <class S> auto varview(const char* rn = "n", const char* cn = "m") {
    long r = 1, c = 1;
    if constexpr (!std::is_same<S, scl>::value) r = vc_size(rn, VC_LO);
    if constexpr (std::is_same<S, mat>::value) c = vc_size(cn, VC_LO);
    return ad::VarView<double, S>(vc_buf("placeholder value", r * c), vc_buf("placeholder adjoint", r * c), r, c);
}
template <class S> struct VarHook {
    ad::VarView<double, S> w;
    void pre(int) const { auto v = w; vc_fill(v.data(), (long)v.rows(), (long)v.cols(), "W", 0); }
    void mid(int) const {
        auto v = w;
        rec("variable value", 0, v.get());
        vc_fill(v.data_adj(), (long)v.rows(), (long)v.cols(), "A", 0);
    }
    void post(int) const { rec("variable adjoint", 0, w.get_adj()); rec("variable after", 0, w.get()); }
};
template <class S, class WS> auto probed(const Child<double, S>& c, const ad::VarView<double, WS>& w) {
    return Child<double, S, VarProbe<WS>>(c.id, (long)c.rows(), (long)c.cols(), c.kv, c.ka, VarProbe<WS>{w, vc_buf("operand", (long)(w.rows() * w.cols()))});
}

// constants
inline Eigen::VectorXd cvec(const char* name, const char* n = "n") {
    long r = vc_size(n, VC_LO);
    Eigen::VectorXd k(r);
    vc_array(k.data(), r, 1, name);
    return k;
}
inline Eigen::MatrixXd cmat(const char* name, const char* n = "n", const char* m = "m") {
    long r = vc_size(n, VC_LO), c = vc_size(m, VC_LO);
    Eigen::MatrixXd k(r, c);
    vc_array(k.data(), r, c, name);
    return k;
}
inline auto cviewv(const char* name, const char* n = "n") {
    long r = vc_size(n, VC_LO);
    double* p = vc_buf("constant", r);
    vc_array(p, r, 1, name);
    return ad::constant_view(p, r);
}
inline auto cviewm(const char* name, const char* n = "n", const char* m = "m") {
    long r = vc_size(n, VC_LO), c = vc_size(m, VC_LO);
    double* p = vc_buf("constant", r * c);
    vc_array(p, r, c, name);
    return ad::constant_view(p, r, c);
}

// ---- protocols -----------------------------------------------------------------------
enum { SEED_SCALAR, SEED_ARRAY, SEED_OWN };

struct NoHook { void pre(int) const {} void mid(int) const {} void post(int) const {} };

template <class Node, class H = NoHook> void run_round(Node& node, int r, int mode, double seed, double* sp, double* va, const H& hook = H()) {
    using shape_t = typename Node::shape_t;
    vc_round(r);
    hook.pre(r);
    {
        auto&& x = node.feval();
        rec("ret", 0, x);
    }
    rec("get", 0, node.get());
    vc_touch(node.data(), (long)node.rows(), (long)node.cols());
    {
        auto d = view(node.data(), (long)node.rows(), (long)node.cols(), (shape_t*)nullptr);
        rec("data", 0, d);
    }
    hook.mid(r);
    vc_event("backward", 0);
    if (mode == SEED_SCALAR) {
        node.beval(seed);
    } else {
        long R = (long)node.rows(), C = (long)node.cols();
        if constexpr (!std::is_same<shape_t, scl>::value) {
            if (mode == SEED_ARRAY) {
                vc_fill(sp, R, C, "S", 0);
                auto m = view(sp, R, C, (shape_t*)nullptr);
                node.beval(m);
            } else {
                vc_fill(va, R, C, "S", 0);
                auto&& a_adj = ad::util::to_array(node.get_adj());
                node.beval(a_adj);
            }
        } else {
            vc_fill(va, 1, 1, "S", 0);
            auto&& a_adj = ad::util::to_array(node.get_adj());
            node.beval(a_adj);
        }
    }
    rec("after", 0, node.get());
    hook.post(r);
}

template <class Node> void bind_exact(Node& node) {
    auto sz = node.bind_cache_size();
    double* v = vc_buf("value cache", (long)sz(0));
    double* a = vc_buf("adjoint cache", (long)sz(1));
    auto end = node.bind_cache(ad::util::PtrPack<double>(v, a));
    vc_eq_ptr("value storage used is exactly what was requested", end.val, v + sz(0));
    vc_eq_ptr("adjoint storage used is exactly what was requested", end.adj, a + sz(1));
}

// On replay, a second expression of the same form (own storage, other inputs) is evaluated and
// differentiated at every event: whatever nodes share beyond their storage is disturbed.  (The
// verifier makes mutable statics arbitrary at the same points.)
#ifndef VC_SYM
template <class H, class Node> decltype(auto) node_or_int(const Node& n) {
    if constexpr (std::is_same<H, NoHook>::value) return (n); else return 0;
}
template <class Node> struct Sibling {
    Node n; std::vector<double> v, a;
    explicit Sibling(const Node& m) : n(m) {
        auto sz = n.bind_cache_size();
        v.resize((size_t)sz(0) + 1); a.resize((size_t)sz(1) + 1);
        n.bind_cache(ad::util::PtrPack<double>(v.data(), a.data()));
        vc_sibling([](void* p) { auto& s = *(Sibling*)p; s.n.feval(); s.n.beval(1.25); }, this);
    }
    ~Sibling() { vc_sibling(nullptr, nullptr); }
};
#endif

// own storage, seed given as a scalar or as an array expression
template <class Node, class H = NoHook> void drive(Node node, int mode, const H& hook = H()) {
#ifndef VC_SYM
    std::conditional_t<std::is_same<H, NoHook>::value, Sibling<Node>, int> sibling(node_or_int<H>(node));
#endif
    bind_exact(node);
    double seed = vc_real("seed");
    double* sp = nullptr;
    if (mode == SEED_ARRAY) sp = vc_buf("seed", (long)(node.rows() * node.cols()));
    run_round(node, 1, mode, seed, sp, nullptr, hook);
    vc_forget(&node, sizeof(node));
    run_round(node, 2, mode, seed, sp, nullptr, hook);
    if (!vc_symbolic()) for (int q = 3; q <= 6; ++q) run_round(node, q, mode, seed, sp, nullptr, hook);
}

// as the right-hand side of a placeholder assignment: the root's own view is given back
// and replaced by the variable's storage; the seed is the variable's own adjoint
template <class Node, class H = NoHook> void drive_strip(Node node, const H& hook = H()) {
    auto sz = node.bind_cache_size();
    auto s1 = node.single_bind_cache_size();
    long nv = (long)sz(0) - (long)s1(0), na = (long)sz(1) - (long)s1(1);
    double* v = vc_buf("value cache", nv);
    double* a = vc_buf("adjoint cache", na);
    auto end = node.bind_cache(ad::util::PtrPack<double>(v, a));
    vc_eq_ptr("value storage used is exactly what was requested", end.val - s1(0), v + nv);
    vc_eq_ptr("adjoint storage used is exactly what was requested", end.adj - s1(1), a + na);
    long n = (long)(node.rows() * node.cols());
    double* vv = vc_buf("variable value", n);
    double* va = vc_buf("variable adjoint", n);
    using view_t = typename Node::value_adj_view_t;
    static_cast<view_t&>(node).bind({vv, va});
    run_round(node, 1, SEED_OWN, 0., nullptr, va, hook);
    vc_forget(&node, sizeof(node));
    run_round(node, 2, SEED_OWN, 0., nullptr, va, hook);
    if (!vc_symbolic()) for (int q = 3; q <= 6; ++q) run_round(node, q, SEED_OWN, 0., nullptr, va, hook);
}

} // namespace vc
#define SC(name) extern "C" void sc_##name()
