// element-wise sequences, generated abscissae, signal shapes, closeness.  Functions.h first and alone: its functions must not
// depend on what other headers bring in.
#include "MathUtils/Functions.h"
#include "MathUtils/Maths.h"
#include "MathUtils/Check.h"
#include "MathUtils/Complex.h"
#include "MathUtils/VectorGeneration.h"
#include "MathUtils/StdVector.h"
using namespace mathutils;
typedef std::vector<double> V;
typedef std::vector<std::complex<double>> VC;
static inline int put(const V &r, double *o, int cap) { for (int i = 0; i < (int) r.size() && i < cap; i++) o[i] = r[i]; return (int) r.size(); }
static inline VC mkc(const double *p, int n) { VC v(n); for (int i = 0; i < n; i++) v[i] = std::complex<double>(p[2 * i], p[2 * i + 1]); return v; }
static inline int putc_(const VC &r, double *o, int cap) { for (int i = 0; i < (int) r.size() && i < cap; i++) { o[2 * i] = r[i].real(); o[2 * i + 1] = r[i].imag(); } return (int) r.size(); }
extern "C" {
int vp_bin(double *a, int na, double *b, int nb, int op, double *o, int cap, double *ka, double *kb) {
  V u(a, a + na), w(b, b + nb); const V &cu = u, &cw = w; V r;
  switch (op) { case 0: r = Add(cu, cw); break; case 1: r = Minus(cu, cw); break; case 2: r = Mult(cu, cw); break; default: r = Divide(cu, cw); }
  put(u, ka, na); put(w, kb, nb); return put(r, o, cap); }
int vp_binc(double *a, int na, double *b, int nb, int op, double *o, int cap) {
  VC u = mkc(a, na), w = mkc(b, nb), r;
  switch (op) { case 0: r = Add(u, w); break; case 1: r = Minus(u, w); break; default: r = Mult(u, w); break; }
  return putc_(r, o, cap); }
int vp_addscalar(double *a, int n, double k, double *o, double *keep) { V u(a, a + n); V r = AddScalar<double>(u, k); put(u, keep, n); return put(r, o, n); }
double vp_sum(double *a, int n, double *keep) { V u(a, a + n); double s = Sum(u); put(u, keep, n); return s; }
int vp_inplace(double *a, int n, double k, int op, double *o) { V u(a, a + n); if (op == 0) Scale<double>(u, k); else if (op == 1) Pow<double>(u, k); else Negate(u); return put(u, o, n); }
// the scalar is an element of the sequence; both operands are the same sequence; the result replaces an operand
int vp_alias(double *a, int n, int j, int op, double *o) { V u(a, a + n); switch (op) { case 0: Scale<double>(u, u[j]); break; case 1: Pow<double>(u, u[j]); break; case 2: u = AddScalar<double>(u, u[j]); break; case 3: u = Add(u, u); break; case 4: u = Minus(u, u); break; case 5: u = Mult(u, u); break; default: u = Divide(u, u); break; } return put(u, o, n); }
int vp_negf(float *a, int n, float *o) { std::vector<float> u(a, a + n); Negate(u); for (int i = 0; i < (int) u.size() && i < n; i++) o[i] = u[i]; return (int) u.size(); }
int vp_cplx(double *p, int n, int op, double *o, double *keep) {
  VC v = mkc(p, n); const VC &cv = v; V r;
  switch (op) { case 0: r = Real<double>(cv); break; case 1: r = Imag<double>(cv); break; case 2: r = Amplitude<double>(cv); break; case 3: r = Phase<double>(cv); break; case 4: r = Phase<double>(cv, RAD); break; default: r = Phase<double>(cv, DEG); }
  putc_(v, keep, n); return put(r, o, n); }
// generated abscissae
int vp_lin(double a, double b, unsigned n, double *o, int cap) { return put(linspace<double>(a, b, n), o, cap); }
int vp_log(double a, double b, unsigned n, double base, int dflt, double *o, int cap) { return put(dflt ? logspace<double>(a, b, n) : logspace<double>(a, b, n, base), o, cap); }
int vp_arange(double a, double b, double h, int dflt, double *o, int cap) { return put(dflt ? arange<double>(a, b) : arange<double>(a, b, h), o, cap); }
int vp_linf(float a, float b, unsigned n, float *o, int cap) { std::vector<float> r = linspace<float>(a, b, n); for (int i = 0; i < (int) r.size() && i < cap; i++) o[i] = r[i]; return (int) r.size(); }
// signal shapes
int vp_sinc(double *x, int n, double *o, double *keep) { V u(x, x + n); V r = Sinc(u); put(u, keep, n); return put(r, o, n); }
int vp_sinc_r(double a, double b, unsigned n, double *o, int cap) { return put(Sinc<double>(a, b, n), o, cap); }
int vp_heav(double *x, int n, double s, double *o, double *keep) { V u(x, x + n); V r = Heaviside<double>(u, s); put(u, keep, n); return put(r, o, n); }
int vp_door(double *x, int n, double a, double b, double h, int dflt, double *o, double *keep) { V u(x, x + n); V r = dflt ? Door<double>(u, a, b) : Door<double>(u, a, b, h); put(u, keep, n); return put(r, o, n); }
int vp_dirac(double *x, int n, double a, double h, int dflt, double *o, double *keep) { V u(x, x + n); V r = dflt ? Dirac<double>(u, a) : Dirac<double>(u, a, h); put(u, keep, n); return put(r, o, n); }
int vp_ramp(double *x, int n, double a, double b, double l, double r_, double *o, double *keep) { V u(x, x + n); V r = Ramp<double>(u, a, b, l, r_); put(u, keep, n); return put(r, o, n); }
int vp_sgn(double x) { return sgn<double>(x); }
int vp_sgnf(float x) { return sgn<float>(x); }
int vp_sgni(int x) { return sgn<int>(x); }
double vp_sat(double x, double a, double b) { return Saturate<double>(x, a, b); }
double vp_ssq(double x) { return SgnSqrt<double>(x); }
// closeness
int vp_close(double a, double b, double rt, double at) { return IsClose<double>(a, b, rt, at); }
int vp_close_d(double a, double b) { return IsClose<double>(a, b); }
int vp_close_r(double a, double b, double rt) { return IsClose<double>(a, b, rt); }
void vp_aclose(double a, double b, double rt, double at) { AssertIsClose<double>(a, b, rt, at); }
void vp_aclose_d(double a, double b) { AssertIsClose<double>(a, b); }
int vp_closev(double *a, int na, double *b, int nb, double rt, double at) { V u(a, a + na), w(b, b + nb); return IsClose<double>(u, w, rt, at); }
int vp_closev_d(double *a, int na, double *b, int nb) { V u(a, a + na), w(b, b + nb); return IsClose<double>(u, w); }
void vp_aclosev(double *a, int na, double *b, int nb, double rt, double at) { V u(a, a + na), w(b, b + nb); AssertIsClose<double>(u, w, rt, at); }
void vp_aclosev_d(double *a, int na, double *b, int nb) { V u(a, a + na), w(b, b + nb); AssertIsClose<double>(u, w); }
int vp_odd_i(int x) { return is_odd<int>(x); }
int vp_even_i(int x) { return is_even<int>(x); }
int vp_odd_l(long x) { return is_odd<long>(x); }
int vp_even_l(long x) { return is_even<long>(x); }
int vp_odd_u(unsigned x) { return is_odd<unsigned>(x); }
int vp_even_u(unsigned x) { return is_even<unsigned>(x); }
int vp_odd_s(short x) { return is_odd<short>(x); }
int vp_even_s(short x) { return is_even<short>(x); }
}
