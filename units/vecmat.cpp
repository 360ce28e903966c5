// fixed and dynamic vectors and matrices
#include <complex>
#include "MathUtils/MathUtils.h"
using namespace mathutils;
template<class V, int N> static inline V mk(const double *a) { V v; for (int i = 0; i < N; i++) v[i] = a[i]; return v; }
template<class V> static inline void put(const V &v, double *o) { for (int i = 0; i < (int) v.size(); i++) o[i] = v(i); }
template<class M> static inline void putm(const M &m, double *o) { int k = 0; for (int i = 0; i < (int) m.rows(); i++) for (int j = 0; j < (int) m.cols(); j++) o[k++] = m(i, j); }
template<class V, int N, class S, class CT> static inline void vec(int mode, const double *a, const double *b, double e, double *o, S set, CT ctor) {
  typedef Eigen::Matrix<double, N, 1> E;
  if (mode == 0) { V v; put(v, o); return; }
  if (mode == 1) { put(ctor(a), o); return; }
  V v = mk<V, N>(a), w = mk<V, N>(b); const V &c = v;
  if (mode == 2) { for (int i = 0; i < N; i++) o[i] = c.at(i); }
  if (mode == 3) { for (int i = 0; i < N; i++) v.at(i) = b[i]; put(v, o); }
  if (mode == 4) { v.SetNull(); put(v, o); }
  if (mode == 5) { set(v, b); put(v, o); }
  if (mode == 6) { o[0] = c.infNorm(); put(v, o + 1); }
  if (mode == 7) { o[0] = v.IsEqual(w, e) ? 1 : 0; put(v, o + 1); }
  if (mode == 8) { o[0] = v.IsEqual(w) ? 1 : 0; put(w, o + 1); }
  if (mode == 9) { E x = mk<E, N>(a), y = mk<E, N>(b); V u(x + 2 * y); put(u, o); }
  if (mode == 10) { E x = mk<E, N>(a), y = mk<E, N>(b); w = x - y; put(w, o); w = c; put(w, o + N); }
  if (mode == 11) { V u(c); v.SetNull(); put(u, o); V s; s = u; u.SetNull(); put(s, o + N); }
  if (mode == 12) { V u = 3. * v + w; put(u, o); u += v; u = u - 2 * w; put(u, o + N); }
  if (mode == 13) { o[0] = v.dot(w); o[1] = v.norm(); o[2] = v.squaredNorm(); } }
typedef VectorN<double> VN; typedef MatrixMN<double> MN;
static inline VN vn(const double *a, int n) { VN v(n); for (int i = 0; i < n; i++) v[i] = a[i]; return v; }
static inline MN mn(const double *a, int r, int c) { MN m(r, c); int k = 0; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = a[k++]; return m; }
template<class M, int N> static inline M mf(const double *a) { M m; int k = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) m(i, j) = a[k++]; return m; }
// operations common to all matrix types; m, w: operands of equal shape
template<class M> static inline void mat(int mode, M m, M w, int i, double e, double *o, int *sh) {
  const M &c = m; auto dim = [&](const auto &x) { sh[0] = (int) x.rows(); sh[1] = (int) x.cols(); };
  if (mode == 0) { int k = 0; for (int a = 0; a < (int) m.rows(); a++) for (int b = 0; b < (int) m.cols(); b++) o[k++] = c.at(a, b); sh[0] = c.GetNbRows(); sh[1] = c.GetNbCols(); }
  if (mode == 1) { for (int a = 0; a < (int) m.rows(); a++) for (int b = 0; b < (int) m.cols(); b++) m.at(a, b) = w(a, b); putm(m, o); }
  if (mode == 2) { m.SetIdentity(); putm(m, o); dim(m); }
  if (mode == 3) { m.SetNull(); putm(m, o); dim(m); }
  if (mode == 4) { auto x = c.GetColumn(i); putm(x, o); dim(x); }
  if (mode == 5) { auto x = c.GetRow(i); putm(x, o); dim(x); }
  if (mode == 6) { auto x = c.GetDiag(); putm(x, o); dim(x); }
  if (mode == 7) { m.Transpose(); putm(m, o); dim(m); }
  if (mode == 8) { M x = Transpose(c); putm(x, o); dim(x); putm(m, o + m.size()); }
  if (mode == 9) { M x = MakeSymmetricFromUpper(c); putm(x, o); dim(x); putm(m, o + m.size()); }
  if (mode == 10) { M x = MakeSymmetricFromLower(c); putm(x, o); dim(x); putm(m, o + m.size()); }
  if (mode == 11) { o[0] = c.IsSymmetric() ? 1 : 0; }
  if (mode == 12) { o[0] = c.IsIdentity() ? 1 : 0; }
  if (mode == 13) { o[0] = c.IsSquare() ? 1 : 0; }
  if (mode == 14) { o[0] = c.IsOrthogonal() ? 1 : 0; }
  if (mode == 15) { o[0] = c.IsEqual(w, e) ? 1 : 0; }
  if (mode == 16) { o[0] = c.IsEqual(w) ? 1 : 0; }
  if (mode == 17) { m.Inverse(); putm(m, o); dim(m); }
  if (mode == 18) { M x = c.GetInverse(); putm(x, o); dim(x); putm(m, o + m.size()); }
  if (mode == 19) { M x(c); m.SetNull(); putm(x, o); M y; y = x; x.SetNull(); putm(y, o + y.size()); dim(y); }
  if (mode == 20) { M x(2. * m - w); putm(x, o); x = m + w; putm(x, o + m.size()); dim(x); }
  if (mode == 21) { M x = m * w; putm(x, o); dim(x); }
  if (mode == 22) { M x(c); x = *&x; putm(x, o); dim(x); } }
extern "C" {
void vp_v2(int mode, double *a, double *b, double e, double *o) { vec<Vector2d<double>, 2>(mode, a, b, e, o, [](Vector2d<double> &v, const double *b) { v.Set(b[0], b[1]); }, [](const double *a) { return Vector2d<double>(a[0], a[1]); }); }
void vp_v3(int mode, double *a, double *b, double e, double *o) { vec<Vector3d<double>, 3>(mode, a, b, e, o, [](Vector3d<double> &v, const double *b) { v.Set(b[0], b[1], b[2]); }, [](const double *a) { return Vector3d<double>(a[0], a[1], a[2]); }); }
void vp_v6(int mode, double *a, double *b, double e, double *o) { vec<Vector6d<double>, 6>(mode, a, b, e, o, [](Vector6d<double> &v, const double *b) { v.Set(b[0], b[1], b[2], b[3], b[4], b[5]); }, [](const double *a) { return Vector6d<double>(a[0], a[1], a[2], a[3], a[4], a[5]); }); }
void vp_v3x(int mode, double *a, double *b, double *o) { Vector3d<double> v = mk<Vector3d<double>, 3>(a), w = mk<Vector3d<double>, 3>(b); const Vector3d<double> &c = v;
  if (mode == 0) { v.Normalize(); put(v, o); }
  if (mode == 1) o[0] = c.IsUnit() ? 1 : 0;
  if (mode == 2) { o[0] = inner(c, w); }
  if (mode == 3) { putm(outer(c, w), o); }
  if (mode == 4) { putm(outer(c), o); }
  if (mode == 5) { Vector3d<double> x = v.cross(w); put(x, o); }
  if (mode == 6) { o[0] = c.GetProjectedAngleAroundX(RAD); o[1] = c.GetProjectedAngleAroundY(RAD); o[2] = c.GetProjectedAngleAroundZ(RAD); o[3] = c.GetProjectedAngleAroundX(DEG); o[4] = c.GetProjectedAngleAroundY(DEG); o[5] = c.GetProjectedAngleAroundZ(DEG); } }
void vp_v6x(int mode, double *a, double *b, double *o) { Vector6d<double> v = mk<Vector6d<double>, 6>(a), w = mk<Vector6d<double>, 6>(b);
  if (mode == 2) { o[0] = inner(v, w); }
  if (mode == 3) { putm(outer(v, w), o); }
  if (mode == 4) { putm(outer(v), o); } }
void vp_vf(int n, float *a, float *o) { if (n == 2) { Vector2d<float> v(a[0], a[1]); o[0] = v.infNorm(); } if (n == 3) { Vector3d<float> v(a[0], a[1], a[2]); o[0] = v.infNorm(); o[1] = (float) inner(v, v); } if (n == 6) { Vector6d<float> v(a[0], a[1], a[2], a[3], a[4], a[5]); o[0] = v.infNorm(); o[1] = inner(v, v); } }
int vp_vn(int mode, double *a, double *b, int n, double e, double *o, int *sh) { VN v = vn(a, n), w = vn(b, n); const VN &c = v; auto dim = [&](const auto &x) { sh[0] = (int) x.rows(); sh[1] = (int) x.cols(); };
  if (mode == 0) { VN u(n); return (int) u.size(); }
  if (mode == 1) { VN u; return (int) u.size(); }
  if (mode == 2) { for (int i = 0; i < n; i++) o[i] = c.at(i); }
  if (mode == 3) { for (int i = 0; i < n; i++) v.at(i) = b[i]; put(v, o); }
  if (mode == 4) { v.SetNull(); put(v, o); return (int) v.size(); }
  if (mode == 5) { v.SetOnes(); put(v, o); return (int) v.size(); }
  if (mode == 6) { o[0] = c.infNorm(); put(v, o + 1); }
  if (mode == 7) { o[0] = v.IsEqual(w, e) ? 1 : 0; }
  if (mode == 8) { o[0] = v.IsEqual(w) ? 1 : 0; }
  if (mode == 9) { Eigen::VectorXd x = v, y = w; VN u(x + 2 * y); put(u, o); w = x - y; put(w, o + n); return (int) u.size(); }
  if (mode == 10) { v.Sort(); put(v, o); }
  if (mode == 11) { v.Sort(true); put(v, o); }
  if (mode == 12) { v.Sort(false); put(v, o); }
  if (mode == 13) { v.Reverse(); put(v, o); }
  if (mode == 14) { MN m = c.GetMatrixSquare(); putm(m, o); dim(m); }
  if (mode == 15) { MN m = GetMatrixSquare(c); putm(m, o); dim(m); }
  if (mode == 16) { MN m = c.GetDiagonalMatrix(); putm(m, o); dim(m); }
  if (mode == 17) { MN m = GetDiagonalMatrix(c); putm(m, o); dim(m); }
  if (mode == 18) { MN m = Transpose(c); putm(m, o); dim(m); }
  if (mode == 19) { VN u(c); v.SetNull(); put(u, o); VN s(1); s = u; u.SetNull(); put(s, o + n); return (int) s.size(); }
  if (mode == 20) { o[0] = v.dot(w); o[1] = v.norm(); o[2] = v.squaredNorm(); }
  return 0; }
void vp_m33(int mode, double *a, double *b, int i, double e, double *o, int *sh) { typedef Matrix33<double> M; mat<M>(mode, mf<M, 3>(a), mf<M, 3>(b), i, e, o, sh); }
void vp_m66(int mode, double *a, double *b, int i, double e, double *o, int *sh) { typedef Matrix66<double> M; mat<M>(mode, mf<M, 6>(a), mf<M, 6>(b), i, e, o, sh); }
void vp_mn(int mode, double *a, double *b, int r, int c, int i, double e, double *o, int *sh) { mat<MN>(mode, mn(a, r, c), mn(b, r, c), i, e, o, sh); }
int vp_mn_dim(int r, int c, int *sh) { MN m(r, c); sh[0] = m.GetNbRows(); sh[1] = m.GetNbCols(); if (sh[0] != m.rows() || sh[1] != m.cols()) abort(); MN e; return (int) e.size(); }
void vp_mn_ideps(double *a, int r, int c, double e, double *o) { const MN m = mn(a, r, c); o[0] = m.IsIdentity(e) ? 1 : 0; }
void vp_mv33(double *a, double *x, double *o) { Matrix33<double> m = mf<Matrix33<double>, 3>(a); Vector3d<double> v = mk<Vector3d<double>, 3>(x); Vector3d<double> r = m * v; put(r, o); }
void vp_mv66(double *a, double *x, double *o) { Matrix66<double> m = mf<Matrix66<double>, 6>(a); Vector6d<double> v = mk<Vector6d<double>, 6>(x); Vector6d<double> r = m * v; put(r, o); }
int vp_mvn(double *a, int r, int c, double *x, double *o) { MN m = mn(a, r, c); VN v = vn(x, c); VN y = m * v; put(y, o); return (int) y.size(); }
void vp_mmn(double *a, int r, int k, double *b, int c, double *o, int *sh) { MN m = mn(a, r, k), w = mn(b, k, c); MN y = m * w; putm(y, o); sh[0] = y.rows(); sh[1] = y.cols(); }
}
