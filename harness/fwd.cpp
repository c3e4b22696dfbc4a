#include "vc.h"
using namespace vc;
using namespace ad;      // unary minus on forward variables is only found this way
// Forward mode: an arbitrary value/tangent pair per operand; the result of every operation and
// the operands afterwards are observed.
typedef ad::ForwardVar<double> F;
static double arr1(const char* n) { double* p = vc_buf(n, 1); vc_array(p, 1, 1, n); return *p; }
static F inX() { return F(arr1("X"), arr1("DX")); }
static F inY() { return F(arr1("Y"), arr1("DY")); }
template <class T> void out(const T& r) {
    static_assert(std::is_same<typename std::decay<T>::type, F>::value, "result is a forward variable");
    vc_rec_s("value", 0, r.get_value()); vc_rec_s("tangent", 0, r.get_adjoint());
}
static void keepX(const F& x) { vc_rec_s("operand x value", 0, x.get_value()); vc_rec_s("operand x tangent", 0, x.get_adjoint()); }
static void keepY(const F& y) { vc_rec_s("operand y value", 0, y.get_value()); vc_rec_s("operand y tangent", 0, y.get_adjoint()); }
#define UN(f) \
  SC(f##_x) { F x = inX(); const F& cx = x; F r = ad::f(cx); out(r); keepX(x); } \
  SC(f##_t) { F x = inX(); out(ad::f(F(x))); keepX(x); } \
  SC(f##_self) { F x = inX(); x = ad::f(x); out(x); } \
  SC(f##_ch) { F x = inX(); F y = inY(); out(ad::f(x * y)); keepX(x); keepY(y); }
UN(sin) UN(cos) UN(tan) UN(asin) UN(acos) UN(atan) UN(exp) UN(log) UN(sqrt) UN(erf)
SC(neg_x) { F x = inX(); F r = -x; out(r); keepX(x); }
SC(neg_t) { F x = inX(); out(-F(x)); keepX(x); }
SC(neg_self) { F x = inX(); x = -x; out(x); }
SC(neg_ch) { F x = inX(); F y = inY(); out(-(x * y)); keepX(x); keepY(y); }
#define BI(nm, op) \
  SC(nm##_xy) { F x = inX(); F y = inY(); out(x op y); keepX(x); keepY(y); } \
  SC(nm##_tt) { F x = inX(); F y = inY(); out(F(x) op F(y)); keepX(x); keepY(y); } \
  SC(nm##_xx) { F x = inX(); out(x op x); keepX(x); } \
  SC(nm##_xk) { F x = inX(); out(x op F(arr1("K"))); keepX(x); } \
  SC(nm##_ky) { F y = inY(); out(F(arr1("K")) op y); keepY(y); } \
  SC(nm##_lself) { F x = inX(); F y = inY(); x = x op y; out(x); keepY(y); } \
  SC(nm##_rself) { F x = inX(); F y = inY(); y = x op y; out(y); keepX(x); }
BI(add, +) BI(sub, -) BI(mul, *) BI(div, /)
SC(pluseq_xy) { F x = inX(); F y = inY(); F& r = (x += y); out(r); out(x); keepY(y); vc_eq_ptr("contract: += returns its left side", &r, &x); }
SC(pluseq_xx) { F x = inX(); F& r = (x += x); out(r); out(x); vc_eq_ptr("contract: += returns its left side", &r, &x); }
SC(pluseq_xk) { F x = inX(); x += arr1("K"); out(x); }
SC(make_k) { F x(arr1("K")); out(x); }
SC(make_0) { F x; out(x); }
SC(make_copy) { F x = inX(); F y(x); F z; z = x; out(y); out(z); x.set_value(0.); x.set_adjoint(0.); out(y); out(z); }
SC(make_set) { F x = inY(); vc_rec_s("value", 0, x.set_value(arr1("X"))); vc_rec_s("tangent", 0, x.set_adjoint(arr1("DX"))); out(x);
    x.get_value() = arr1("X"); x.get_adjoint() = arr1("DX"); out(x); const F& c = x; out(c); }
// a loop over a composition of symbolic length is covered operation by operation; one mixed program as a cross-check
SC(prog) { F x = inX(); F y = inY(); F s; s += x; s += y; s += ad::sin(x) * y; s = s * s - ad::exp(y); out(s); keepX(x); keepY(y); }
