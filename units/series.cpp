// power series and Chebyshev series in one, two and three variables
#include <complex>
#include <cmath>
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
typedef MatrixMN<double> MX;
typedef std::vector<double> V;
extern "C" {
// the approximated function: uninterpreted for the analysis
double vp_user1(double x);
double vp_user2(double x, double y);
double vp_user3(double x, double y, double z);
}
struct F1 : public Function1d<double> { double Evaluate(const double &x) const override { return vp_user1(x); } };
struct F2 : public Function2d<double> { double Evaluate(const double &x, const double &y) const override { return vp_user2(x, y); } };
struct F3 : public Function3d<double> { double Evaluate(const double &x, const double &y, const double &z) const override { return vp_user3(x, y, z); } };
static inline VectorN<double> mkv(const double *b, int n) { VectorN<double> v(n); for (int i = 0; i < n; i++) v(i) = b[i]; return v; }
static inline MX mkm(const double *b, int n, int m) { MX v(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) v(i, j) = b[i * m + j]; return v; }
template<class P> static inline double ev1(const P &p, double x, int w) { return w == 0 ? p.Evaluate(x) : p.Evaluate_derivative_x(x); }
template<class P> static inline double ev2(const P &p, double x, double y, int w) { return w == 0 ? p.Evaluate(x, y) : w == 1 ? p.Evaluate_derivative_x(x, y) : p.Evaluate_derivative_y(x, y); }
template<class P> static inline double ev3(const P &p, double x, double y, double z, int w) { return w == 0 ? p.Evaluate(x, y, z) : w == 1 ? p.Evaluate_derivative_x(x, y, z) : w == 2 ? p.Evaluate_derivative_y(x, y, z) : p.Evaluate_derivative_z(x, y, z); }
// d: xmin xmax ymin ymax zmin zmax
extern "C" {
double vp_horner(double *a, int n, double x, double *keep) { V c(a, a + n); double r = Horner<double>(c, x); for (int i = 0; i < n; i++) keep[i] = c[i]; return r; }
double vp_hornerd(double *a, int n, double x, double *keep) { V c(a, a + n); double r = Horner_derivative<double>(c, x); for (int i = 0; i < n; i++) keep[i] = c[i]; return r; }
void vp_hornerc(double *a, int n, double x, double y, double *o) { V c(a, a + n); std::complex<double> r = Horner<std::complex<double>>(c, std::complex<double>(x, y)); o[0] = r.real(); o[1] = r.imag(); }
double vp_ps1(double *b, int n, double *d, int kind, double x, int w) {
  if (kind == 0) { PowerSeries1dClosed<double> p(mkv(b, n), d[0], d[1]); return ev1(p, x, w); }
  PowerSeries1dOpened<double> p(mkv(b, n), d[0]); return ev1(p, x, w); }
double vp_ps2(double *b, int n, int m, double *d, int kind, double x, double y, int w) {
  if (kind == 0) { PowerSeries2dClosed<double> p(mkm(b, n, m), d[0], d[1], d[2], d[3]); return ev2(p, x, y, w); }
  if (kind == 1) { PowerSeries2dOpened<double> p(mkm(b, n, m), d[0], d[2]); return ev2(p, x, y, w); }
  PowerSeries2dMixed<double> p(mkm(b, n, m), d[0], d[1], d[2]); return ev2(p, x, y, w); }
}
template<class P> static void all3(P &p, double x, double y, double z, int w, double *o, double *acc) {
  if (w == 0) {
    o[0] = p.Evaluate(x, y, z); o[1] = p.Evaluate_derivative_x(x, y, z); o[2] = p.Evaluate_derivative_y(x, y, z); o[3] = p.Evaluate_derivative_z(x, y, z);
    p.Evaluate_f_dfdx_dfdy(x, y, z, o[4], o[5], o[6]);
    MX c = p.Compute_cij(z);
    o[7] = p.Evaluate_z_predefined(x, y, c); o[8] = p.Evaluate_derivative_x_z_predefined(x, y, c); o[9] = p.Evaluate_derivative_y_z_predefined(x, y, c);
    p.Evaluate_f_dfdx_dfdy_z_predefined(x, y, c, o[10], o[11], o[12]);
    acc[0] = p.xmin(); acc[1] = p.ymin(); acc[2] = p.zmin(); acc[3] = p.order_x(); acc[4] = p.order_y(); acc[5] = p.order_z();
  } else {
    o[0] = p.Evaluate_zinf(x, y); o[1] = p.Evaluate_derivative_x_zinf(x, y); o[2] = p.Evaluate_derivative_y_zinf(x, y);
    MX c = p.Compute_cij_zinf();
    o[3] = p.Evaluate_z_predefined(x, y, c); o[4] = p.Evaluate_derivative_x_z_predefined(x, y, c); o[5] = p.Evaluate_derivative_y_z_predefined(x, y, c);
    p.Evaluate_f_dfdx_dfdy_z_predefined(x, y, c, o[6], o[7], o[8]);
  } }
extern "C" {
void vp_ps3(double *b, int n, int m, int l, double *d, int kind, double x, double y, double z, int w, double *o, double *acc) {
  std::vector<MX> c; for (int k = 0; k < l; k++) c.push_back(mkm(b + k * n * m, n, m));
  if (kind == 0) { PowerSeries3dClosed<double> p(c, d[0], d[1], d[2], d[3], d[4], d[5]); all3(p, x, y, z, w, o, acc); acc[6] = p.xmax(); acc[7] = p.ymax(); acc[8] = p.zmax(); }
  else if (kind == 1) { PowerSeries3dYZOpenedXClosed<double> p(c, d[0], d[1], d[2], d[4]); all3(p, x, y, z, w, o, acc); acc[6] = p.xmax(); }
  else { PowerSeries3dZOpenedXYClosed<double> p(c, d[0], d[1], d[2], d[3], d[4]); all3(p, x, y, z, w, o, acc); acc[6] = p.xmax(); acc[7] = p.ymax(); } }
// Chebyshev: compute, then evaluate (w: 0 value, 1 d/dx, 2 d/dy, 3 d/dz)
double vp_cs1(double *d, int kind, int nx, double x, int w, int times) {
  F1 f;
  if (kind == 0) { ChebyshevSeries1dClosed<double> p(&f, d[0], d[1], nx); for (int i = 0; i < times; i++) p.Compute_ai(); return ev1(p, x, w); }
  ChebyshevSeries1dOpened<double> p(&f, d[0], nx); for (int i = 0; i < times; i++) p.Compute_ai(); return ev1(p, x, w); }
double vp_cs2(double *d, int kind, int nx, int ny, double x, double y, int w, int times) {
  F2 f;
  if (kind == 0) { ChebyshevSeries2dClosed<double> p(&f, d[0], d[1], d[2], d[3], nx, ny); for (int i = 0; i < times; i++) p.Compute_aij(); return ev2(p, x, y, w); }
  if (kind == 1) { ChebyshevSeries2dOpened<double> p(&f, d[0], d[2], nx, ny); for (int i = 0; i < times; i++) p.Compute_aij(); return ev2(p, x, y, w); }
  ChebyshevSeries2dMixed<double> p(&f, d[0], d[1], d[2], nx, ny); for (int i = 0; i < times; i++) p.Compute_aij(); return ev2(p, x, y, w); }
double vp_cs3(double *d, int kind, int nx, int ny, int nz, double x, double y, double z, int w, int times) {
  F3 f;
  if (kind == 0) { ChebyshevSeries3dClosed<double> p(&f, d[0], d[1], d[2], d[3], d[4], d[5], nx, ny, nz); for (int i = 0; i < times; i++) p.Compute_aijk(); return ev3(p, x, y, z, w); }
  if (kind == 1) { ChebyshevSeries3dYZOpenedXClosed<double> p(&f, d[0], d[1], d[2], d[4], nx, ny, nz); for (int i = 0; i < times; i++) p.Compute_aijk(); return ev3(p, x, y, z, w); }
  ChebyshevSeries3dZOpenedXYClosed<double> p(&f, d[0], d[1], d[2], d[3], d[4], nx, ny, nz); for (int i = 0; i < times; i++) p.Compute_aijk(); return ev3(p, x, y, z, w); }
// evaluation at every Chebyshev node given by the caller
void vp_cs1_at(double *d, int kind, int nx, double *xs, int n, double *o) {
  F1 f;
  if (kind == 0) { ChebyshevSeries1dClosed<double> p(&f, d[0], d[1], nx); p.Compute_ai(); for (int i = 0; i < n; i++) o[i] = p.Evaluate(xs[i]); }
  else { ChebyshevSeries1dOpened<double> p(&f, d[0], nx); p.Compute_ai(); for (int i = 0; i < n; i++) o[i] = p.Evaluate(xs[i]); } }
void vp_cs2_at(double *d, int kind, int nx, int ny, double *xs, double *ys, double *o) {
  F2 f; int q = 0;
#define AT2 p.Compute_aij(); for (int i = 0; i <= nx; i++) for (int j = 0; j <= ny; j++) o[q++] = p.Evaluate(xs[i], ys[j]);
  if (kind == 0) { ChebyshevSeries2dClosed<double> p(&f, d[0], d[1], d[2], d[3], nx, ny); AT2 }
  else if (kind == 1) { ChebyshevSeries2dOpened<double> p(&f, d[0], d[2], nx, ny); AT2 }
  else { ChebyshevSeries2dMixed<double> p(&f, d[0], d[1], d[2], nx, ny); AT2 } }
void vp_cs3_at(double *d, int kind, int nx, int ny, int nz, double *xs, double *ys, double *zs, double *o) {
  F3 f; int q = 0;
#define AT3 p.Compute_aijk(); for (int i = 0; i <= nx; i++) for (int j = 0; j <= ny; j++) for (int k = 0; k <= nz; k++) o[q++] = p.Evaluate(xs[i], ys[j], zs[k]);
  if (kind == 0) { ChebyshevSeries3dClosed<double> p(&f, d[0], d[1], d[2], d[3], d[4], d[5], nx, ny, nz); AT3 }
  else if (kind == 1) { ChebyshevSeries3dYZOpenedXClosed<double> p(&f, d[0], d[1], d[2], d[4], nx, ny, nz); AT3 }
  else { ChebyshevSeries3dZOpenedXYClosed<double> p(&f, d[0], d[1], d[2], d[3], d[4], nx, ny, nz); AT3 } }
// conversion to power series: coefficients, or evaluation of the power series built from them
int vp_b1(double *d, int nx, double *o) { F1 f; ChebyshevSeries1dClosed<double> p(&f, d[0], d[1], nx); p.Compute_ai(); VectorN<double> b = p.Compute_bi(); for (int i = 0; i < (int) b.rows() && i <= nx; i++) o[i] = b(i); return (int) b.rows(); }
int vp_b2(double *d, int nx, int ny, double *o) { F2 f; ChebyshevSeries2dClosed<double> p(&f, d[0], d[1], d[2], d[3], nx, ny); p.Compute_aij(); MX b = p.Compute_bij();
  if ((int) b.rows() != nx + 1 || (int) b.cols() != ny + 1) return -1; for (int i = 0; i <= nx; i++) for (int j = 0; j <= ny; j++) o[i * (ny + 1) + j] = b(i, j); return 0; }
int vp_b3(double *d, int nx, int ny, int nz, double *o) { F3 f; ChebyshevSeries3dClosed<double> p(&f, d[0], d[1], d[2], d[3], d[4], d[5], nx, ny, nz); p.Compute_aijk(); std::vector<MX> b = p.Compute_bijk();
  if ((int) b.size() != nz + 1) return -1; int q = 0;
  for (int k = 0; k <= nz; k++) { if ((int) b[k].rows() != nx + 1 || (int) b[k].cols() != ny + 1) return -1; for (int i = 0; i <= nx; i++) for (int j = 0; j <= ny; j++) o[q++] = b[k](i, j); } return 0; }
double vp_bps1(double *d, int kind, int nx, double x) { F1 f;
  if (kind == 0) { ChebyshevSeries1dClosed<double> p(&f, d[0], d[1], nx); p.Compute_ai(); return PowerSeries1dClosed<double>(p.Compute_bi(), d[0], d[1]).Evaluate(x); }
  ChebyshevSeries1dOpened<double> p(&f, d[0], nx); p.Compute_ai(); return PowerSeries1dOpened<double>(p.Compute_bi(), d[0]).Evaluate(x); }
double vp_bps2(double *d, int kind, int nx, int ny, double x, double y) { F2 f;
  if (kind == 0) { ChebyshevSeries2dClosed<double> p(&f, d[0], d[1], d[2], d[3], nx, ny); p.Compute_aij(); return PowerSeries2dClosed<double>(p.Compute_bij(), d[0], d[1], d[2], d[3]).Evaluate(x, y); }
  if (kind == 1) { ChebyshevSeries2dOpened<double> p(&f, d[0], d[2], nx, ny); p.Compute_aij(); return PowerSeries2dOpened<double>(p.Compute_bij(), d[0], d[2]).Evaluate(x, y); }
  ChebyshevSeries2dMixed<double> p(&f, d[0], d[1], d[2], nx, ny); p.Compute_aij(); return PowerSeries2dMixed<double>(p.Compute_bij(), d[0], d[1], d[2]).Evaluate(x, y); }
double vp_bps3(double *d, int kind, int nx, int ny, int nz, double x, double y, double z) { F3 f;
  if (kind == 0) { ChebyshevSeries3dClosed<double> p(&f, d[0], d[1], d[2], d[3], d[4], d[5], nx, ny, nz); p.Compute_aijk(); return PowerSeries3dClosed<double>(p.Compute_bijk(), d[0], d[1], d[2], d[3], d[4], d[5]).Evaluate(x, y, z); }
  if (kind == 1) { ChebyshevSeries3dYZOpenedXClosed<double> p(&f, d[0], d[1], d[2], d[4], nx, ny, nz); p.Compute_aijk(); return PowerSeries3dYZOpenedXClosed<double>(p.Compute_bijk(), d[0], d[1], d[2], d[4]).Evaluate(x, y, z); }
  ChebyshevSeries3dZOpenedXYClosed<double> p(&f, d[0], d[1], d[2], d[3], d[4], nx, ny, nz); p.Compute_aijk(); return PowerSeries3dZOpenedXYClosed<double>(p.Compute_bijk(), d[0], d[1], d[2], d[3], d[4]).Evaluate(x, y, z); }
}
