// splines
#include <vector>
#include "MathUtils/Spline.h"
using namespace mathutils;
typedef std::vector<double> V;
typedef Eigen::VectorXd E;
template<int DEG> static inline double ev(const double *x, const double *y, int n, double q, int form) {
  V a(x, x + n), b(y, y + n);
  if (form == 0) { Spline<double, 1, DEG> s(a, b); for (auto &v : a) v = 0; for (auto &v : b) v = 0; const Spline<double, 1, DEG> &c = s; return c(q); }
  E u(n), w(n); for (int i = 0; i < n; i++) { u(i) = x[i]; w(i) = y[i]; }
  Spline<double, 1, DEG> s(u, w); u.setZero(); w.setZero();
  if (form == 1) return s(q);
  Spline<double, 1, DEG> t(s); return t(q); }
extern "C" {
double vp_s1(double *x, double *y, int n, double q, int f) { return ev<1>(x, y, n, q, f); }
double vp_s2(double *x, double *y, int n, double q, int f) { return ev<2>(x, y, n, q, f); }
double vp_s3(double *x, double *y, int n, double q, int f) { return ev<3>(x, y, n, q, f); }
double vp_s4(double *x, double *y, int n, double q, int f) { return ev<4>(x, y, n, q, f); }
}
