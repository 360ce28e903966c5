// quadrature on triangles and 1-D integration
#include <complex>
#include "MathUtils/MathUtils.h"
using namespace mathutils;
typedef std::vector<double> V;
extern "C" { double vp_user3(double x, double y, double z); double vp_userk(int k, double x, double y, double z); double vp_user1(double x); float vp_user1f(float x); }
struct G : public Integrand<double> { double Evaluate(const Vector3d<double> &x) const override { return vp_user3(x[0], x[1], x[2]); } };
struct GM : public Integrand<double> { int a, b, c; double Evaluate(const Vector3d<double> &x) const override { double r = 1; for (int i = 0; i < a; i++) r *= x[0]; for (int i = 0; i < b; i++) r *= x[1]; for (int i = 0; i < c; i++) r *= x[2]; return r; } };
struct GV : public Integrand<Vector3d<double>> { Vector3d<double> Evaluate(const Vector3d<double> &x) const override { return Vector3d<double>(vp_userk(0, x[0], x[1], x[2]), vp_userk(1, x[0], x[1], x[2]), vp_userk(2, x[0], x[1], x[2])); } };
struct GN : public Integrand<VectorN<double>> { int n; VectorN<double> Evaluate(const Vector3d<double> &x) const override { VectorN<double> r(n); for (int i = 0; i < n; i++) r(i) = vp_userk(i, x[0], x[1], x[2]); return r; } };
struct GC : public Integrand<std::complex<double>> { std::complex<double> Evaluate(const Vector3d<double> &x) const override { return std::complex<double>(vp_userk(0, x[0], x[1], x[2]), vp_userk(1, x[0], x[1], x[2])); } };
static inline Vector3d<double> mk(const double *v) { return Vector3d<double>(v[0], v[1], v[2]); }
extern "C" {
double vp_tri(int order, double *v) { G g; Integration2dTriangle<double> q(&g, order); return q.Compute(mk(v), mk(v + 3), mk(v + 6)); }
double vp_trim(int order, double *v, int a, int b, int c) { GM g; g.a = a; g.b = b; g.c = c; Integration2dTriangle<double> q(&g, order); return q.Compute(mk(v), mk(v + 3), mk(v + 6)); }
void vp_triv(int order, double *v, double *o) { GV g; Integration2dTriangle<Vector3d<double>> q(&g, order); Vector3d<double> r = q.Compute(mk(v), mk(v + 3), mk(v + 6)); for (int i = 0; i < 3; i++) o[i] = r[i]; }
int vp_trin(int order, double *v, int n, double *o) { GN g; g.n = n; Integration2dTriangle<VectorN<double>> q(&g, order); VectorN<double> r = q.Compute(mk(v), mk(v + 3), mk(v + 6)); for (int i = 0; i < n && i < r.rows(); i++) o[i] = r(i); return (int) r.rows(); }
void vp_tric(int order, double *v, double *o) { GC g; Integration2dTriangle<std::complex<double>> q(&g, order); std::complex<double> r = q.Compute(mk(v), mk(v + 3), mk(v + 6)); o[0] = r.real(); o[1] = r.imag(); }
// several triangles with one rule, in turn
void vp_tri2(int order, double *v, double *w, double *o) { G g; Integration2dTriangle<double> q(&g, order); const Integration2d<double> &b = q; o[0] = b.Compute(mk(v), mk(v + 3), mk(v + 6)); o[1] = q.Compute(mk(w), mk(w + 3), mk(w + 6)); o[2] = q.Compute(mk(v), mk(v + 3), mk(v + 6)); }

double vp_trapz(double *y, int n) { V v(y, y + n); return Trapz(v); }
double vp_trapzdx(double *y, int n, double dx) { V v(y, y + n); return Trapz(v, dx); }
double vp_trapzxy(double *x, int nx, double *y, int n) { V a(x, x + nx), v(y, y + n); return Trapz(a, v); }
float vp_trapzf(float *y, int n, float dx) { std::vector<float> v(y, y + n); return Trapz(v, dx); }
float vp_trapzxyf(float *x, int nx, float *y, int n) { std::vector<float> a(x, x + nx), v(y, y + n); return Trapz(a, v); }
}
static double script(Integrate1d<double> &q, const int *ops, const double *arg, int nops, double *o, double *acc) {
  for (int i = 0; i < nops; i++)
    switch (ops[i]) {
      case 0: o[i] = q.Get(); break;
      case 1: q.SetXmin(arg[i]); break;
      case 2: q.SetXmax(arg[i]); break;
      case 3: q.SetIntegrationMethod(TRAPEZOIDAL); break;
      case 4: q.SetIntegrationMethod(NEWTON_COTES); break;
      case 5: try { o[i] = q.Get(); } catch (...) { o[i] = -12345.; } break;
    }
  acc[0] = q.GetXmin(); acc[1] = q.GetXmax(); acc[2] = (double) (int) (q.GetIntegrationMethod() == TRAPEZOIDAL);
  return q.Get(); }
extern "C" {
double vp_int_v(double *y, int ny, double a, double b, unsigned n, int *ops, double *arg, int nops, double *o, double *acc) { V v(y, y + ny); Integrate1d<double> q(v, a, b, n); v.clear(); return script(q, ops, arg, nops, o, acc); }
double vp_int_f(double a, double b, unsigned n, int *ops, double *arg, int nops, double *o, double *acc) { Integrate1d<double> q(&vp_user1, a, b, n); return script(q, ops, arg, nops, o, acc); }
float vp_int_ff(float a, float b, unsigned n) { Integrate1d<float> q(&vp_user1f, a, b, n); return q.Get(); }
}
