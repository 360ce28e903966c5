// One entry per way of using the library wrongly (and, with other arguments, rightly).
#include <complex>
#include <string>
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
typedef std::vector<double> V;
typedef std::complex<double> C;
typedef MatrixMN<double> MX;
extern "C" { double vp_user1(double x); double vp_user2(double x, double y); double vp_user3(double x, double y, double z); }
struct F1 : public Function1d<double> { double Evaluate(const double &x) const override { return vp_user1(x); } };
struct F2 : public Function2d<double> { double Evaluate(const double &x, const double &y) const override { return vp_user2(x, y); } };
struct F3 : public Function3d<double> { double Evaluate(const double &x, const double &y, const double &z) const override { return vp_user3(x, y, z); } };
struct G : public Integrand<double> { double Evaluate(const Vector3d<double> &x) const override { return vp_user3(x[0], x[1], x[2]); } };
template<class T> static inline std::shared_ptr<const std::vector<T>> sp(const T *a, int n) { return std::make_shared<const std::vector<T>>(a, a + n); }
static const INTERP_METHOD M[4] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE, BSPLINE};
template<class T, int D> static inline boost::multi_array<T, D> arr(const int *n, const T *d) {
  std::array<size_t, D> s; size_t t = 1; for (int i = 0; i < D; i++) { s[i] = n[i]; t *= n[i]; }
  boost::multi_array<T, D> a(s); for (size_t i = 0; i < t; i++) a.data()[i] = d[i]; return a; }
static inline MX mkm(const double *b, int n, int m) { MX v(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) v(i, j) = b[i * m + j]; return v; }
// a grid of k axes with n[i] points (ax concatenated), then data of shape m, then an access
template<class Gr, int D> static inline double gr(int k, const double *ax, const int *n, int fill, const int *m, const double *d, int what, int idx, const double *q) {
  Gr g; for (int i = 0; i < k; i++) { g.AddCoord(V(ax, ax + n[i])); ax += n[i]; }
  if (fill) g.AddVar(arr<double, D>(m, d));
  const Gr &c = g; std::array<double, D> p; for (int i = 0; i < D; i++) p[i] = q[i];
  if (what == 1) return (double) (int) c.GetCoord(idx).size(); if (what == 2) return c.GetCoordMinVal(idx); if (what == 3) return c.GetCoordMaxVal(idx);
  if constexpr (std::is_same<Gr, RegularGridInterpolator<double, D>>::value) { if (what == 4) return c.Interp(p, true); if (what == 5) return c.Interp(p, false); if (what == 6) return c.Interp(p); }
  else { if (what >= 4) return c.GetData(p); }
  return 0; }
extern "C" {
int vp_e_unit(int k) { static const char *N[12] = {"DEG", "RAD", "deg", "rad", "", "D", "DEGR", "RADD", "DEG ", " RAD", "GRAD", "a unit with a rather long name"}; return STRING2ANGLE(N[k]); }
int vp_e_nunit() { return 12; }
double vp_e_h0(double x) { return Struve_zero_order<double>(x); }
double vp_e_h1(double x) { return Struve_first_order<double>(x); }
double vp_e_h0d(double x) { return Struve_zero_order_derivative<double>(x); }
double vp_e_ei(double x) { return Ei_approximation<double>(x); }
double vp_e_e1(double x) { return E1_approximation<double>(x); }
void vp_e_b1(int n) { F1 f; ChebyshevSeries1dClosed<double> p(&f, 0., 1., n); p.Compute_bi(); }
void vp_e_b2(int n, int m) { F2 f; ChebyshevSeries2dClosed<double> p(&f, 0., 1., 0., 1., n, m); p.Compute_bij(); }
void vp_e_b3(int n, int m, int l) { F3 f; ChebyshevSeries3dClosed<double> p(&f, 0., 1., 0., 1., 0., 1., n, m, l); p.Compute_bijk(); }
int vp_e_close(double *a, int n, double *b, int m) { V u(a, a + n), w(b, b + m); return IsClose<double>(u, w); }
void vp_e_aclose(double a, double b) { AssertIsClose<double>(a, b); }
void vp_e_aclosev(double *a, int n, double *b, int m) { V u(a, a + n), w(b, b + m); AssertIsClose<double>(u, w); }
double vp_e_conv(double *k, int nk, double *s, int ns, int rev) { V u(k, k + nk); boost::circular_buffer<double> b(16); for (int i = 0; i < ns; i++) b.push_back(s[i]); return rev ? NaiveConvolution<double>(u, b, 1.) : NaiveConvolution<double>(u, b, 1., false); }
double vp_e_ramp(double *x, int n, double a, double b) { V v(x, x + n); return Ramp<double>(v, a, b, 1., 2.)[0]; }
double vp_e_dirac(double *x, int n, double a, int dflt) { V v(x, x + n); V r = dflt ? Dirac<double>(v, a) : Dirac<double>(v, a, 2.); return r[0]; }
double vp_e_tz(double *y, int n) { V v(y, y + n); return Trapz(v); }
double vp_e_tzd(double *y, int n) { V v(y, y + n); return Trapz(v, 2.); }
double vp_e_tzx(double *x, int nx, double *y, int n) { V u(x, x + nx), v(y, y + n); return Trapz(u, v); }
double vp_e_iv(double *y, int ny, unsigned n, int method) { V v(y, y + ny); Integrate1d<double> q(v, 0., 1., n); if (method == 1) q.SetIntegrationMethod(NEWTON_COTES); if (method == 2) { q.Get(); q.SetIntegrationMethod(NEWTON_COTES); } if (method == 3) { q.SetIntegrationMethod(NEWTON_COTES); try { q.Get(); } catch (...) { } } return q.Get(); }
double vp_e_if(unsigned n, int method) { Integrate1d<double> q(&vp_user1, 0., 1., n); if (method == 1) q.SetIntegrationMethod(NEWTON_COTES); if (method == 2) { q.Get(); q.SetIntegrationMethod(NEWTON_COTES); } if (method == 3) { q.SetIntegrationMethod(NEWTON_COTES); try { q.Get(); } catch (...) { } } return q.Get(); }
double vp_e_tri(int order, double *v) { G g; Integration2dTriangle<double> t(&g, order); return t.Compute(Vector3d<double>(v[0], v[1], v[2]), Vector3d<double>(v[3], v[4], v[5]), Vector3d<double>(v[6], v[7], v[8])); }
double vp_e_tri0(int order) { Integration2dTriangle<double> t(nullptr, order); return 0; }
void vp_e_mk1(int m) { Interp1d<double, double> *p = Interp1d<double, double>::MakeInterp1d(m < 4 ? M[m] : (INTERP_METHOD) m); delete p; }
void vp_e_mk1c(int m) { Interp1d<double, C> *p = Interp1d<double, C>::MakeInterp1d(m < 4 ? M[m] : (INTERP_METHOD) m); delete p; }
void vp_e_mk2(int m) { Interp2d<double> *p = Interp2d<double>::MakeInterp2d(m < 4 ? M[m] : (INTERP_METHOD) m); delete p; }
int vp_e_methods() { return (int) LINEAR + 16 * (int) LINEAR_EXTRAPOLATE + 256 * (int) LINEAR_SATURATE + 4096 * (int) BSPLINE; }
double vp_e_i1(int method, double *x, int n, double *y, int m, double q, int form) { std::unique_ptr<Interp1d<double, double>> p(Interp1d<double, double>::MakeInterp1d(M[method])); p->Initialize(sp(x, n), sp(y, m)); if (form == 3) return 0; return form == 0 ? p->Eval(q) : form == 1 ? (*p)(q) : p->Eval(V{q})[0]; }
double vp_e_i2(double *x, int n, double *y, int m, double *d, int nd, double q, double r, int form) { Interp2dLinear<double> p; p.Initialize(sp(x, n), sp(y, m), sp(d, nd)); if (form == 3) return 0; return form == 0 ? p.Eval(q, r) : form == 1 ? p(q, r) : p.Eval(std::vector<V>(1, V{q, r}))[0]; }
double vp_e_l1(int method, double *x, int n, double *y, int m, double q, int name, int form) { LookupTable1D<double, double> t(M[method]); t.SetX(V(x, x + n)); t.AddY("a", V(y, y + m)); static const char *N[4] = {"a", "b", "", "aa"};
  return form == 0 ? t.Eval(N[name], q) : form == 1 ? t.Eval(N[name], V{q})[0] : form == 2 ? t.GetXmin(N[name]) : t.GetXmax(N[name]); }
double vp_e_l2(double *x, int n, double *y, int m, double *d, int nd, double q, double r, int name, int form, int method) { LookupTable2d<double> t; t.SetX(V(x, x + n)); t.SetY(V(y, y + m)); if (method) t.SetInterpolationMethod(M[method]); t.AddData("a", V(d, d + nd)); static const char *N[4] = {"a", "b", "", "aa"};
  return form == 0 ? t.Eval(N[name], q, r) : form == 1 ? t.Eval(N[name], V{q, r}) : t.Eval(N[name], std::vector<V>(1, V{q, r}))[0]; }
double vp_e_l2c(double *x, int n, double *d, double *q, int nq) { LookupTable2d<double> t; t.SetX(V(x, x + n)); t.SetY(V(x, x + n)); t.AddData("a", V(d, d + n * n)); return t.Eval("a", V(q, q + nq)); }
double vp_e_g1(int k, double *ax, int *n, int fill, int *m, double *d, int what, int idx, double *q) { return gr<RegularGridInterpolator<double, 1>, 1>(k, ax, n, fill, m, d, what, idx, q); }
double vp_e_g2(int k, double *ax, int *n, int fill, int *m, double *d, int what, int idx, double *q) { return gr<RegularGridInterpolator<double, 2>, 2>(k, ax, n, fill, m, d, what, idx, q); }
double vp_e_n1(int k, double *ax, int *n, int fill, int *m, double *d, int what, int idx, double *q) { return gr<RegularGridNearest<double, 1>, 1>(k, ax, n, fill, m, d, what, idx, q); }
double vp_e_n2(int k, double *ax, int *n, int fill, int *m, double *d, int what, int idx, double *q) { return gr<RegularGridNearest<double, 2>, 2>(k, ax, n, fill, m, d, what, idx, q); }
void vp_e_ml(double *x, int nx, double *f, int nf) { std::vector<double *> g{x}; std::array<int, 1> s{nx}; NDInterpolator_1_ML m(g.begin(), s, f, f + nf); }
void vp_e_bin(int op, double *a, int n, double *b, int m) { V u(a, a + n), w(b, b + m); if (op == 0) Add(u, w); else if (op == 1) Minus(u, w); else if (op == 2) Mult(u, w); else Divide(u, w); }
int vp_e_lin(double a, double b, unsigned n) { return (int) linspace<double>(a, b, n).size(); }
int vp_e_log(double a, double b, unsigned n, int base) { return (int) (base ? logspace<double>(a, b, n, 2.) : logspace<double>(a, b, n)).size(); }
int vp_e_ara(double a, double b, double s) { return (int) arange<double>(a, b, s).size(); }
void vp_e_chol(double *a, int n, int m) { MX L; mkm(a, n, m).GetCholeskyDecomposition(L); }
void vp_e_chol3(double *a) { Matrix33<double> A, L; for (int i = 0; i < 9; i++) A(i / 3, i % 3) = a[i]; A.GetCholeskyDecomposition(L); }
void vp_e_qr(int full, int n, int m) { MX Q, R, A = MX::Zero(n, m); if (full) A.GetFullQRDecomposition(Q, R); else A.GetQRDecomposition(Q, R); }
void vp_e_lu(int n, int m) { MX P, L, U, A = MX::Identity(n, m); A.GetLUDecomposition(P, L, U); }
void vp_e_eig(int n, int m) { MX::Identity(n, m); MX A = MX::Identity(n, m); A.Eigenvalues(); }
// least squares under constraints: A m x n, b mb x kb, C p x nc, d pd x kd
void vp_e_lsc(int *s) { MX A = MX::Identity(s[0], s[1]), b = MX::Zero(s[2], s[3]), K = MX::Identity(s[4], s[5]), d = MX::Zero(s[6], s[7]); A.LeastSquareSolverConstraint(b, K, d); }
}
