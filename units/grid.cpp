// N-dimensional regular grids
#include <complex>
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
typedef std::vector<double> V;
template<class T, int D> static inline boost::multi_array<T, D> arr(const int *n, const T *d) {
  std::array<size_t, D> s; size_t t = 1; for (int i = 0; i < D; i++) { s[i] = n[i]; t *= n[i]; }
  boost::multi_array<T, D> a(s); for (size_t i = 0; i < t; i++) a.data()[i] = d[i]; return a; }
template<class G, class R> static inline void axes(G &g, int D, const R *ax, const int *n) { for (int i = 0; i < D; i++) { g.AddCoord(std::vector<R>(ax, ax + n[i])); ax += n[i]; } }
template<class R, int D> static inline void grid(const R *ax, const int *n, const R *d, const R *q, int bound, int mode, R *o, R *acc, R *oc, R *oi) {
  RegularGridInterpolator<R, D> g; int v0 = g.IsValid(); axes(g, D, ax, n); int v1 = g.IsValid();
  { boost::multi_array<R, D> a = arr<R, D>(n, d); g.AddVar(a); for (size_t i = 0; i < a.num_elements(); i++) a.data()[i] = 0; }
  std::array<R, D> p; for (int i = 0; i < D; i++) p[i] = q[i];
  const RegularGridInterpolator<R, D> &c = g;
  if (mode == 0) { o[0] = bound < 0 ? c.Interp(p) : c.Interp(p, bound != 0); return; }
  acc[0] = (R) v0; acc[1] = (R) v1; acc[2] = (R) (int) c.IsValid(); acc[3] = (R) (int) c.GetDimension();
  for (int i = 0; i < D; i++) { acc[4 + 2 * i] = c.GetCoordMinVal(i); acc[5 + 2 * i] = c.GetCoordMaxVal(i); std::vector<R> x = c.GetCoord(i); if ((int) x.size() != n[i]) abort(); for (int k = 0; k < n[i]; k++) *oc++ = x[k]; }
  std::array<size_t, D> id; int t = 1; for (int i = 0; i < D; i++) t *= n[i];
  for (int k = 0; k < t; k++) { int r = k; for (int i = D - 1; i >= 0; i--) { id[i] = r % n[i]; r /= n[i]; } oi[k] = c.EvalAtIndice(id); } }
template<class T, int D> static inline void near(const double *ax, const int *n, const T *d, const double *q, int mode, size_t *oidx, double *oc, T *ov, double *acc) {
  RegularGridNearest<T, D> g; int v0 = g.IsValid(); axes(g, D, ax, n); int v1 = g.IsValid();
  { boost::multi_array<T, D> a = arr<T, D>(n, d); g.AddVar(a); for (size_t i = 0; i < a.num_elements(); i++) a.data()[i] = 0; }
  const RegularGridNearest<T, D> &c = g; std::array<double, D> p; for (int i = 0; i < D; i++) p[i] = q[i];
  auto put = [&](const GridNode<T, D> &x, int k) { auto a = x.indices(); auto b = x.coords(); for (int i = 0; i < D; i++) { oidx[k * D + i] = a[i]; oc[k * D + i] = b[i]; } ov[k] = x.val(); };
  if (mode == 0) { put(c.Nearest(p), 0); ov[1] = c.GetData(p); }
  else if (mode == 1) { auto s = c.GetSurroundingGridNodes(p); if ((int) s.size() != (1 << D)) abort(); for (int k = 0; k < (1 << D); k++) put(s[k], k); }
  else { acc[0] = v0; acc[1] = v1; acc[2] = (double) (int) c.IsValid(); acc[3] = (double) (int) c.GetDimension();
    for (int i = 0; i < D; i++) { acc[4 + 2 * i] = c.GetCoordMinVal(i); acc[5 + 2 * i] = c.GetCoordMaxVal(i); V x = c.GetCoord(i); if ((int) x.size() != n[i]) abort(); for (int k = 0; k < n[i]; k++) *oc++ = x[k]; } } }
template<class G, int D> static inline void bad(int what, const double *ax, const int *n, const int *m, const double *d) {
  G g; int k = what == 1 ? D + 1 : what == 2 ? D - 1 : D;
  for (int i = 0; i < k; i++) { g.AddCoord(V(ax, ax + n[i])); ax += n[i]; }
  if (what == 4) { g.GetCoord(D); return; } if (what == 5) { g.GetCoordMinVal(D); return; } if (what == 6) { g.GetCoordMaxVal(D + 3); return; }
  g.AddVar(arr<double, D>(m, d)); }
// copies: c copy-constructed, a assigned over an already filled grid, s changed and destroyed before evaluation
template<class G, int D, class F> static inline void copies(const double *ax, const int *n, const double *d, const double *ax2, const int *n2, const double *d2, int how, F ev) {
  G a; if (how & 1) { axes(a, D, ax2, n2); a.AddVar(arr<double, D>(n2, d2)); }
  G *c; { G s; axes(s, D, ax, n); s.AddVar(arr<double, D>(n, d)); c = new G(s); a = s; s.AddVar(arr<double, D>(n, d2)); ev(*c, 1); }
  if (how & 2) a = *&a;
  ev(a, 0); ev(*c, 2); delete c; }
// axes and data that are rejected between those that are accepted
template<class G, class F> static inline int rej(const double *ax, const int *n, const double *d, const double *e, double *o, F ev) { int r = 0; G g; V x(ax, ax + n[0]), y(ax + n[0], ax + n[0] + n[1]); const int m[2] = {n[0], n[1] + 1}, k[2] = {n[0] - 1, n[1]};
  try { g.AddCoord(V{1., 1.}); } catch (...) { r++; } g.AddCoord(x); try { g.AddCoord(V{0., 2., 1.}); } catch (...) { r++; } g.AddCoord(y);
  try { g.AddVar(arr<double, 2>(m, e)); } catch (...) { r++; } o[0] = (double) (int) g.IsValid(); g.AddVar(arr<double, 2>(n, d)); o[1] = ev(g);
  try { g.AddVar(arr<double, 2>(m, e)); } catch (...) { r++; } o[2] = ev(g); try { g.AddVar(arr<double, 2>(k, e)); } catch (...) { r++; } o[3] = ev(g); o[4] = g.GetCoordMaxVal(1); o[5] = (double) (int) g.GetCoord(0).size();
  G f; axes(f, 2, ax, n); f.AddVar(arr<double, 2>(n, d)); o[6] = ev(f); return r; }
extern "C" {
int vp_grej(double *ax, int *n, double *d, double *e, double *q, double *o) { return rej<RegularGridInterpolator<double, 2>>(ax, n, d, e, o, [&](const RegularGridInterpolator<double, 2> &g) { return g.Interp({q[0], q[1]}); }); }
int vp_nrej(double *ax, int *n, double *d, double *e, double *q, double *o) { return rej<RegularGridNearest<double, 2>>(ax, n, d, e, o, [&](const RegularGridNearest<double, 2> &g) { return g.GetData({q[0], q[1]}); }); }
void vp_g1(double *ax, int *n, double *d, double *q, int b, int mode, double *o, double *acc, double *oc, double *oi) { grid<double, 1>(ax, n, d, q, b, mode, o, acc, oc, oi); }
void vp_g2(double *ax, int *n, double *d, double *q, int b, int mode, double *o, double *acc, double *oc, double *oi) { grid<double, 2>(ax, n, d, q, b, mode, o, acc, oc, oi); }
void vp_g3(double *ax, int *n, double *d, double *q, int b, int mode, double *o, double *acc, double *oc, double *oi) { grid<double, 3>(ax, n, d, q, b, mode, o, acc, oc, oi); }
void vp_g4(double *ax, int *n, double *d, double *q, int b, int mode, double *o, double *acc, double *oc, double *oi) { grid<double, 4>(ax, n, d, q, b, mode, o, acc, oc, oi); }
void vp_g2f(float *ax, int *n, float *d, float *q, int b, int mode, float *o, float *acc, float *oc, float *oi) { grid<float, 2>(ax, n, d, q, b, mode, o, acc, oc, oi); }
void vp_n1(double *ax, int *n, double *d, double *q, int mode, size_t *oidx, double *oc, double *ov, double *acc) { near<double, 1>(ax, n, d, q, mode, oidx, oc, ov, acc); }
void vp_n2(double *ax, int *n, double *d, double *q, int mode, size_t *oidx, double *oc, double *ov, double *acc) { near<double, 2>(ax, n, d, q, mode, oidx, oc, ov, acc); }
void vp_n3(double *ax, int *n, double *d, double *q, int mode, size_t *oidx, double *oc, double *ov, double *acc) { near<double, 3>(ax, n, d, q, mode, oidx, oc, ov, acc); }
void vp_gbad1(int what, double *ax, int *n, int *m, double *d) { bad<RegularGridInterpolator<double, 1>, 1>(what, ax, n, m, d); }
void vp_gbad2(int what, double *ax, int *n, int *m, double *d) { bad<RegularGridInterpolator<double, 2>, 2>(what, ax, n, m, d); }
void vp_gbad3(int what, double *ax, int *n, int *m, double *d) { bad<RegularGridInterpolator<double, 3>, 3>(what, ax, n, m, d); }
void vp_nbad1(int what, double *ax, int *n, int *m, double *d) { bad<RegularGridNearest<double, 1>, 1>(what, ax, n, m, d); }
void vp_nbad2(int what, double *ax, int *n, int *m, double *d) { bad<RegularGridNearest<double, 2>, 2>(what, ax, n, m, d); }
void vp_nbad3(int what, double *ax, int *n, int *m, double *d) { bad<RegularGridNearest<double, 3>, 3>(what, ax, n, m, d); }
void vp_gcopy(double *ax, int *n, double *d, double *ax2, int *n2, double *d2, double *q, int how, double *o) { copies<RegularGridInterpolator<double, 2>, 2>(ax, n, d, ax2, n2, d2, how, [&](const RegularGridInterpolator<double, 2> &g, int k) { o[k] = g.Interp({q[0], q[1]}, true); o[k + 3] = g.GetCoordMaxVal(1); o[k + 6] = g.EvalAtIndice({1, 0}); }); }
void vp_ncopy(double *ax, int *n, double *d, double *ax2, int *n2, double *d2, double *q, int how, double *o) { copies<RegularGridNearest<double, 2>, 2>(ax, n, d, ax2, n2, d2, how, [&](const RegularGridNearest<double, 2> &g, int k) { o[k] = g.GetData({q[0], q[1]}); o[k + 3] = g.GetCoordMaxVal(1); o[k + 6] = g.GetSurroundingGridNodes({q[0], q[1]})[3].val(); }); }
// data given twice, with evaluations in between
void vp_gre(double *ax, int *n, double *d, double *d2, double *q, int before, double *o) { RegularGridInterpolator<double, 2> g; axes(g, 2, ax, n); g.AddVar(arr<double, 2>(n, d)); if (before) o[1] = g.Interp({q[0], q[1]}); g.AddVar(arr<double, 2>(n, d2)); o[0] = g.Interp({q[0], q[1]}); o[2] = g.Interp({q[0], q[1]}); }
void vp_nre(double *ax, int *n, double *d, double *d2, double *q, int before, double *o) { RegularGridNearest<double, 2> g; axes(g, 2, ax, n); g.AddVar(arr<double, 2>(n, d)); if (before) o[1] = g.GetData({q[0], q[1]}); g.AddVar(arr<double, 2>(n, d2)); o[0] = g.GetData({q[0], q[1]}); o[2] = g.GetData({q[0], q[1]}); }
// copies of grids not filled yet, then filled
void vp_gempty(double *ax, int *n, double *d, double *q, int k, double *o) { RegularGridInterpolator<double, 2> s; for (int i = 0; i < k; i++) { s.AddCoord(V(ax, ax + n[i])); ax += n[i]; } RegularGridInterpolator<double, 2> c(s); o[0] = (double) (int) c.IsValid(); for (int i = k; i < 2; i++) { c.AddCoord(V(ax, ax + n[i])); ax += n[i]; } c.AddVar(arr<double, 2>(n, d)); o[1] = c.Interp({q[0], q[1]}); o[2] = (double) (int) c.IsValid(); o[3] = (double) (int) s.IsValid(); }
// linterp: simplex and multilinear with owned data
double vp_ml2(double *x, int nx, double *y, int ny, double *f, double *q) { std::vector<double *> g{x, y}; std::array<int, 2> s{nx, ny}; NDInterpolator_2_ML m(g.begin(), s, f, f + nx * ny); return m.interp(q); }
double vp_sx1(double *x, int nx, double *f, double *q) { std::vector<double *> g{x}; std::array<int, 1> s{nx}; NDInterpolator_1_S m(g.begin(), s, f, f + nx); return m.interp(q); }
double vp_sx2(double *x, int nx, double *y, int ny, double *f, double *q) { std::vector<double *> g{x, y}; std::array<int, 2> s{nx, ny}; NDInterpolator_2_S m(g.begin(), s, f, f + nx * ny); return m.interp(q); }
}
