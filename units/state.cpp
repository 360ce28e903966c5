// Copies, moves, reuse.  Every entry writes the outputs of the object under test to o[0..n) and those of a fresh object holding the
// final data to o[n..2n); the two halves must agree.
#include <complex>
#include <memory>
#include <string>
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
typedef std::vector<double> V;
typedef std::complex<double> C;
typedef MatrixMN<double> MX;
extern "C" {
double vp_user1(double x); double vp_user2(double x, double y); double vp_user3(double x, double y, double z);
double vp_user1b(double x); double vp_user2b(double x, double y); double vp_user3b(double x, double y, double z);
}
struct F1 : public Function1d<double> { double Evaluate(const double &x) const override { return vp_user1(x); } };
struct F2 : public Function2d<double> { double Evaluate(const double &x, const double &y) const override { return vp_user2(x, y); } };
struct F3 : public Function3d<double> { double Evaluate(const double &x, const double &y, const double &z) const override { return vp_user3(x, y, z); } };
struct F1b : public Function1d<double> { double Evaluate(const double &x) const override { return vp_user1b(x); } };
struct F2b : public Function2d<double> { double Evaluate(const double &x, const double &y) const override { return vp_user2b(x, y); } };
struct F3b : public Function3d<double> { double Evaluate(const double &x, const double &y, const double &z) const override { return vp_user3b(x, y, z); } };
struct G : public Integrand<double> { double Evaluate(const Vector3d<double> &x) const override { return vp_user3(x[0], x[1], x[2]); } };
struct Gb : public Integrand<double> { double Evaluate(const Vector3d<double> &x) const override { return vp_user3b(x[0], x[1], x[2]); } };
template<class T> static inline std::shared_ptr<const std::vector<T>> sp(const T *a, int n) { return std::make_shared<const std::vector<T>>(a, a + n); }
static inline VectorN<double> mkv(const double *b, int n) { VectorN<double> v(n); for (int i = 0; i < n; i++) v(i) = b[i]; return v; }
static inline MX mkm(const double *b, int n, int m) { MX v(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) v(i, j) = b[i * m + j]; return v; }
static inline std::vector<MX> mkt(const double *b, int n) { std::vector<MX> c; for (int k = 0; k < n; k++) c.push_back(mkm(b + k * n * n, n, n)); return c; }
template<class T, int D> static inline boost::multi_array<T, D> arr(const int *n, const T *d) {
  std::array<size_t, D> s; size_t t = 1; for (int i = 0; i < D; i++) { s[i] = n[i]; t *= n[i]; }
  boost::multi_array<T, D> a(s); for (size_t i = 0; i < t; i++) a.data()[i] = d[i]; return a; }
template<class Gr> static inline void axes(Gr &g, int D, const double *ax, const int *n) { for (int i = 0; i < D; i++) { g.AddCoord(V(ax, ax + n[i])); ax += n[i]; } }
template<class P> static inline void c3(const P &p, const double *q, double *o) {
  o[0] = p.Evaluate(q[0], q[1], q[2]); o[1] = p.Evaluate_derivative_x(q[0], q[1], q[2]); o[2] = p.Evaluate_derivative_y(q[0], q[1], q[2]); o[3] = p.Evaluate_derivative_z(q[0], q[1], q[2]); }
template<class P> static inline void c2(const P &p, const double *q, double *o) { o[0] = p.Evaluate(q[0], q[1]); o[1] = p.Evaluate_derivative_x(q[0], q[1]); o[2] = p.Evaluate_derivative_y(q[0], q[1]); }
template<class P> static inline void c1(const P &p, const double *q, double *o) { o[0] = p.Evaluate(q[0]); o[1] = p.Evaluate_derivative_x(q[0]); }
template<class P> static inline void p3(const P &p, const double *q, double *o) { c3(p, q, o); MX c = p.Compute_cij(q[2]); o[4] = p.Evaluate_z_predefined(q[0], q[1], c); o[5] = p.Evaluate_derivative_y_z_predefined(q[0], q[1], c); }

template<class P> static inline void e1(P &p, const double *q, double *o) { c1(p, q, o); VectorN<double> b = p.Compute_bi(); o[2] = b(0); o[3] = b(b.size() - 1); }
template<class P> static inline void e2(P &p, const double *q, double *o) { c2(p, q, o); MX b = p.Compute_bij(); o[3] = b(0, b.cols() - 1); o[4] = b(b.rows() - 1, 0); }
template<class P> static inline void e3(P &p, const double *q, double *o) { c3(p, q, o); std::vector<MX> b = p.Compute_bijk(); o[4] = b.back()(b.back().rows() - 1, 0); }
// mk(k): a fresh object with data set k; chg(x): give x the data set 2 by its own mutators; ev(x, o): n outputs
template<class Mk, class Chg, class Ev> static inline void copies(int how, int n, double *o, Mk mk, Chg chg, Ev ev) {
  typedef decltype(mk(1)) T;
  if constexpr (std::is_copy_constructible<T>::value && std::is_copy_assignable<T>::value) {
    if (how == 0) { T s = mk(1); T c(s); ev(c, o); ev(s, o + n); return; }                                            // copy and source agree
    if (how == 1) { T s = mk(1); T c(s); chg(s); ev(c, o); }                                                             // source changed
    if (how == 2) { T *s = new T(mk(1)); T c(*s); chg(*s); delete s; ev(c, o); }                                    // source destroyed
    if (how == 3) { T a = mk(2); { T s = mk(1); a = s; chg(s); } ev(a, o); }                                       // assigned over other data
    if (how == 4) { T s = mk(1); s = *&s; ev(s, o); }                                                              // self assignment
    if (how == 7) { T s = mk(1); { T c(s); chg(c); } ev(s, o); }                                                   // copy changed and destroyed
  } else if (how <= 4 || how == 7) return;
  if constexpr (std::is_move_constructible<T>::value && std::is_move_assignable<T>::value) {
    if (how == 5) { T *s = new T(mk(1)); T c(std::move(*s)); delete s; ev(c, o); }                                  // moved from
    if (how == 6) { T a = mk(2); { T s = mk(1); a = std::move(s); } ev(a, o); }                                    // move assignment
    if (how == 8) { std::vector<T> v; v.push_back(mk(1)); v.push_back(mk(2)); v.push_back(mk(2)); ev(v[0], o); }   // kept in a growing container
    if (how == 9) { T s = mk(1), c = mk(2); std::swap(s, c); chg(s); ev(c, o); }                                   // swapped
  } else if (how > 4 && how != 7) return;
  T f = mk(1); ev(f, o + n); }
// the same on an object used before: data set 1, an evaluation or not, data set 2 by the mutators, compare with a fresh data set 2
template<class Mk, class Chg, class Ev> static inline void reuse(int how, int n, double *o, Mk mk, Chg chg, Ev ev) {
  typedef decltype(mk(1)) T; T s = mk(1);
  if (how & 1) ev(s, o);
  chg(s);
  if (how & 2) ev(s, o);
  if (how & 4) chg(s);
  ev(s, o);
  T f = mk(2); ev(f, o + n); }
template<class Mk, class Chg, class Ev> static inline void both(int how, int n, double *o, Mk mk, Chg chg, Ev ev) { if (how < 20) copies(how, n, o, mk, chg, ev); else reuse(how - 20, n, o, mk, chg, ev); }

template<class T> static inline void i1(int how, double *const *x, double *const *y, const int *n, double q, double *o) {
  both(how, 5, o, [&](int k) { T t; t.Initialize(sp(x[k], n[k]), sp(y[k], n[k])); return t; }, [&](T &t) { t.Initialize(sp(x[2], n[2]), sp(y[2], n[2])); },
    [&](const T &t, double *o) { o[0] = t.Eval(q); o[1] = t(q); o[2] = t.GetXmin(); o[3] = t.GetXmax(); o[4] = t.Eval(V{q, q})[1]; }); }
template<int D, class T> static inline void gr(int how, double *const *ax, int *const *n, double *const *d, const double *q, double *o) {
  both(how, 4, o, [&](int k) { T t; axes(t, D, ax[k], n[k]); t.AddVar(arr<double, D>(n[k], d[k])); return t; },
    [&](T &t) { if (how >= 20) t.AddVar(arr<double, D>(n[2], d[2])); else { T u; axes(u, D, ax[2], n[2]); u.AddVar(arr<double, D>(n[2], d[2])); t = u; } },
    [&](const T &t, double *o) { std::array<double, D> p; for (int i = 0; i < D; i++) p[i] = q[i];
      if constexpr (std::is_same<T, RegularGridInterpolator<double, D>>::value) { o[0] = t.Interp(p); std::array<size_t, D> id; for (int i = 0; i < D; i++) id[i] = i == 0; o[1] = t.EvalAtIndice(id); }
      else { o[0] = t.GetData(p); o[1] = t.GetSurroundingGridNodes(p)[1].val(); }
      o[2] = t.GetCoordMinVal(0); o[3] = t.GetCoordMaxVal(D - 1); }); }
template<class T> static inline void vec(int how, double *const *a, int n, double *o) {
  both(how, n, o, [&](int k) { T t; if constexpr (T::SizeAtCompileTime == Eigen::Dynamic) t.resize(n); for (int i = 0; i < n; i++) t(i) = a[k][i]; return t; }, [&](T &t) { for (int i = 0; i < n; i++) t(i) = a[2][i]; },
    [&](const T &t, double *o) { for (int i = 0; i < n; i++) o[i] = t(i); }); }
extern "C" {
void vp_k_i1(int how, int method, double **x, double **y, int *n, double q, double *o) {
  if (method == 0) i1<Interp1dLinear<double, double>>(how, x, y, n, q, o); else if (method == 1) i1<Interp1dLinearExtrapolate<double, double>>(how, x, y, n, q, o); else i1<Interp1dLinearSaturate<double, double>>(how, x, y, n, q, o); }
void vp_k_i2(int how, double **x, double **y, double **z, int *nx, int *ny, double *q, double *o) { typedef Interp2dLinear<double> T;
  both(how, 6, o, [&](int k) { T t; t.Initialize(sp(x[k], nx[k]), sp(y[k], ny[k]), sp(z[k], nx[k] * ny[k])); return t; }, [&](T &t) { t.Initialize(sp(x[2], nx[2]), sp(y[2], ny[2]), sp(z[2], nx[2] * ny[2])); },
    [&](const T &t, double *o) { o[0] = t.Eval(q[0], q[1]); o[1] = t(q[0], q[1]); o[2] = t.GetXmin(); o[3] = t.GetXmax(); o[4] = t.GetYmin(); o[5] = t.GetYmax(); }); }
void vp_k_g1(int how, double **ax, int **n, double **d, double *q, double *o) { gr<1, RegularGridInterpolator<double, 1>>(how, ax, n, d, q, o); }
void vp_k_g2(int how, double **ax, int **n, double **d, double *q, double *o) { gr<2, RegularGridInterpolator<double, 2>>(how, ax, n, d, q, o); }
void vp_k_g3(int how, double **ax, int **n, double **d, double *q, double *o) { gr<3, RegularGridInterpolator<double, 3>>(how, ax, n, d, q, o); }
void vp_k_n1(int how, double **ax, int **n, double **d, double *q, double *o) { gr<1, RegularGridNearest<double, 1>>(how, ax, n, d, q, o); }
void vp_k_n2(int how, double **ax, int **n, double **d, double *q, double *o) { gr<2, RegularGridNearest<double, 2>>(how, ax, n, d, q, o); }
void vp_k_v2(int how, double **a, double *o) { vec<Vector2d<double>>(how, a, 2, o); }
void vp_k_v3(int how, double **a, double *o) { vec<Vector3d<double>>(how, a, 3, o); }
void vp_k_v6(int how, double **a, double *o) { vec<Vector6d<double>>(how, a, 6, o); }
void vp_k_vn(int how, double **a, int n, double *o) { vec<VectorN<double>>(how, a, n, o); }
#define MAT(name, T, R, K, INIT) void name(int how, double **a, double *o) { both(how, R * K, o, [&](int k) { T t INIT; for (int i = 0; i < R; i++) for (int j = 0; j < K; j++) t.at(i, j) = a[k][i * K + j]; return t; }, \
  [&](T &t) { for (int i = 0; i < R; i++) for (int j = 0; j < K; j++) t(i, j) = a[2][i * K + j]; }, [&](const T &t, double *o) { for (int i = 0; i < R; i++) for (int j = 0; j < K; j++) o[i * K + j] = t.at(i, j); }); }
MAT(vp_k_m33, Matrix33<double>, 3, 3, )
MAT(vp_k_m66, Matrix66<double>, 6, 6, )
MAT(vp_k_mn, MX, 2, 3, (2, 3))
#define SER(T, n, e, ...) { typedef T<double> P; both(how, n, o, [&](int k) { const double *d = dd[k]; (void) d; return P(__VA_ARGS__); }, [&](P &t) { const int k = 2; const double *d = dd[k]; (void) d; t = P(__VA_ARGS__); }, [&](const P &t, double *o) { e(t, q, o); }); }
void vp_k_ps1(int how, int kind, double **b, int *n, double **dd, double *q, double *o) { if (kind == 0) SER(PowerSeries1dClosed, 2, c1, mkv(b[k], n[k]), d[0], d[1]) else SER(PowerSeries1dOpened, 2, c1, mkv(b[k], n[k]), d[0]) }
void vp_k_ps2(int how, int kind, double **b, int *n, double **dd, double *q, double *o) {
  if (kind == 0) SER(PowerSeries2dClosed, 3, c2, mkm(b[k], n[k], n[k]), d[0], d[1], d[2], d[3]) else if (kind == 1) SER(PowerSeries2dOpened, 3, c2, mkm(b[k], n[k], n[k]), d[0], d[2]) else SER(PowerSeries2dMixed, 3, c2, mkm(b[k], n[k], n[k]), d[0], d[1], d[2]) }
void vp_k_ps3(int how, int kind, double **b, int *n, double **dd, double *q, double *o) {
  if (kind == 0) SER(PowerSeries3dClosed, 6, p3, mkt(b[k], n[k]), d[0], d[1], d[2], d[3], d[4], d[5]) else if (kind == 1) SER(PowerSeries3dYZOpenedXClosed, 6, p3, mkt(b[k], n[k]), d[0], d[1], d[2], d[4]) else SER(PowerSeries3dZOpenedXYClosed, 6, p3, mkt(b[k], n[k]), d[0], d[1], d[2], d[3], d[4]) }
// Chebyshev series: the mutator is the computation itself, repeated; how >= 30: computed `how - 28` times, with evaluations between
#define CHE(T, n, e, comp, f1, f2, ...) { typedef T<double> P; auto mk = [&](int k) { const double *d = dd[k]; P p(k == 1 ? static_cast<decltype(&b1)>(&f1) : static_cast<decltype(&b1)>(&f2), __VA_ARGS__); p.comp(); return p; }; \
  if (how < 20) copies(how, n, o, mk, [&](P &t) { t = mk(2); }, [&](P &t, double *o) { e(t, q, o); }); \
  else if (how < 30) { P t = mk(1); e(t, q, o); t = mk(2); if (how & 1) t.comp(); e(t, q, o); P f = mk(2); e(f, q, o + n); } \
  else { P t = mk(1); for (int i = 0; i < how - 29; i++) { if (i & 1) e(t, q, o); t.comp(); } e(t, q, o); P f = mk(1); e(f, q, o + n); } }
void vp_k_cs1(int how, int kind, int *n, double **dd, double *q, double *o) { F1 f; F1b g; Function1d<double> &b1 = f; if (kind == 0) CHE(ChebyshevSeries1dClosed, 4, e1, Compute_ai, f, g, d[0], d[1], n[k]) else CHE(ChebyshevSeries1dOpened, 2, c1, Compute_ai, f, g, d[0], n[k]) }
void vp_k_cs2(int how, int kind, int *n, double **dd, double *q, double *o) { F2 f; F2b g; Function2d<double> &b1 = f;
  if (kind == 0) CHE(ChebyshevSeries2dClosed, 5, e2, Compute_aij, f, g, d[0], d[1], d[2], d[3], n[k], n[k]) else if (kind == 1) CHE(ChebyshevSeries2dOpened, 3, c2, Compute_aij, f, g, d[0], d[2], n[k], n[k]) else CHE(ChebyshevSeries2dMixed, 3, c2, Compute_aij, f, g, d[0], d[1], d[2], n[k], n[k]) }
void vp_k_cs3(int how, int kind, int *n, double **dd, double *q, double *o) { F3 f; F3b g; Function3d<double> &b1 = f;
  if (kind == 0) CHE(ChebyshevSeries3dClosed, 5, e3, Compute_aijk, f, g, d[0], d[1], d[2], d[3], d[4], d[5], n[k], n[k], n[k]) else if (kind == 1) CHE(ChebyshevSeries3dYZOpenedXClosed, 4, c3, Compute_aijk, f, g, d[0], d[1], d[2], d[4], n[k], n[k], n[k])
  else CHE(ChebyshevSeries3dZOpenedXYClosed, 4, c3, Compute_aijk, f, g, d[0], d[1], d[2], d[3], d[4], n[k], n[k], n[k]) }
void vp_k_int(int how, int src, int set, double **y, int *n, double **lim, double *o) { typedef Integrate1d<double> T;
  both(how, 3, o, [&](int k) { return src ? T(k == 1 || how >= 20 ? &vp_user1 : &vp_user1b, lim[k][0], lim[k][1], n[how >= 20 ? 1 : k]) : T(V(y[how >= 20 ? 1 : k], y[how >= 20 ? 1 : k] + n[how >= 20 ? 1 : k]), lim[k][0], lim[k][1], n[how >= 20 ? 1 : k]); },
    [&](T &t) { if (set == 1) t.SetXmin(lim[2][0]); else if (set == 2) t.SetXmax(lim[2][1]); else if (set == 3) { t.SetXmax(lim[2][1]); t.SetXmin(lim[2][0]); } else if (set == 4) { t.SetXmin(lim[2][0]); t.SetXmax(lim[2][1]); } else t.SetIntegrationMethod(TRAPEZOIDAL); }, [&](T &t, double *o) { o[0] = t.Get(); o[1] = t.GetXmin(); o[2] = t.GetXmax(); }); }
void vp_k_tri(int how, int *order, double **v, double *o) { G g; Gb h; typedef Integration2dTriangle<double> T;
  both(how, 1, o, [&](int k) { return T(k == 1 ? static_cast<Integrand<double> *>(&g) : &h, order[k]); }, [&](T &t) { if constexpr (std::is_move_assignable<T>::value) t = T(&h, order[2]); },
    [&](const T &t, double *o) { const double *a = v[1]; o[0] = t.Compute(Vector3d<double>(a[0], a[1], a[2]), Vector3d<double>(a[3], a[4], a[5]), Vector3d<double>(a[6], a[7], a[8])); }); }
// one integrator, two triangles in turn
void vp_k_tri2(int order, double **v, double *o) { G g; Integration2dTriangle<double> t(&g, order), u(&g, order); auto ev = [&](const Integration2dTriangle<double> &t, const double *a) { return t.Compute(Vector3d<double>(a[0], a[1], a[2]), Vector3d<double>(a[3], a[4], a[5]), Vector3d<double>(a[6], a[7], a[8])); };
  double z = ev(t, v[1]); o[0] = ev(t, v[2]); o[1] = ev(t, v[2]); o[2] = ev(t, v[1]); o[3] = ev(u, v[2]); o[4] = o[3]; o[5] = z; }
void vp_k_spl(int how, double **x, double **y, int *n, double q, double *o) { typedef Spline<double, 1, 3> T; both(how, 1, o, [&](int k) { V a(x[k], x[k] + n[k]), b(y[k], y[k] + n[k]); return T(a, b); }, [&](T &t) { V a(x[2], x[2] + n[2]), b(y[2], y[2] + n[2]); t = T(a, b); }, [&](const T &t, double *o) { o[0] = t(q); }); }
// grid nodes
void vp_k_node(int how, double **a, double *o) { typedef GridNode<double, 2> T; both(how, 5, o, [&](int k) { return T(std::array<size_t, 2>{(size_t) k, (size_t) (k + 1)}, std::array<double, 2>{a[k][0], a[k][1]}, a[k][2]); }, [&](T &t) { t = T(std::array<size_t, 2>{2, 3}, std::array<double, 2>{a[2][0], a[2][1]}, a[2][2]); },
    [&](const T &t, double *o) { o[0] = t.coords()[0]; o[1] = t.coords()[1]; o[2] = t.val(); o[3] = (double) (int) t.indices()[0]; o[4] = (double) (int) t.indices()[1]; }); }
// grids copied before they are filled
void vp_k_gpart(int near, int k, double *ax, int *n, double *d, double *q, double *o) {
  auto go = [&](auto g0, auto ev) { typedef decltype(g0) T; T s; const double *a = ax; for (int i = 0; i < k; i++) { s.AddCoord(V(a, a + n[i])); a += n[i]; } T c0(s), c1; if (near & 2) { axes(c1, 2, ax, n); c1.AddVar(arr<double, 2>(n, d)); double z = ev(c1); c1 = s; (void) z; } T &c = near & 2 ? c1 : c0; o[0] = (double) (int) c.IsValid(); for (int i = k; i < 2; i++) { c.AddCoord(V(a, a + n[i])); a += n[i]; } c.AddVar(arr<double, 2>(n, d)); o[1] = ev(c); o[2] = (double) (int) c.IsValid(); o[3] = (double) (int) s.IsValid();
    T f, e; axes(f, 2, ax, n); f.AddVar(arr<double, 2>(n, d)); o[4] = 0; o[5] = ev(f); o[6] = 1; o[7] = 0; };
  if (near & 1) go(RegularGridNearest<double, 2>(), [&](const RegularGridNearest<double, 2> &g) { return g.GetData({q[0], q[1]}); }); else go(RegularGridInterpolator<double, 2>(), [&](const RegularGridInterpolator<double, 2> &g) { return g.Interp({q[0], q[1]}); }); }
// lookup tables: moved (how 0: construction, 1: assignment over a filled one, 2: over one with another method, 3: moved twice, 4: to itself), then one more series
void vp_k_l1(int how, int method, double *x, int n, double *x2, int n2, double *y, double *y2, double *y3, double q, double *o) {
  static const INTERP_METHOD M[3] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE}; typedef LookupTable1D<double, double> T; static_assert(!std::is_copy_constructible<T>::value && !std::is_copy_assignable<T>::value, "shares its interpolators");
  auto fill = [&](T &t) { t.SetX(V(x, x + n)); t.AddY("a", V(y, y + n)); t.AddY("bb", V(y2, y2 + n)); };
  auto ev = [&](T &t, double *o) { o[0] = (double) (int) t.GetNbSeries(); o[1] = (double) (int) t.GetNbSample(); o[2] = (double) (int) t.AddY("cc", V(y3, y3 + n)); o[3] = t.Eval("a", q); o[4] = t.Eval("bb", q); o[5] = t.Eval("cc", q); o[6] = (double) (int) t.GetNbSeries(); o[7] = t.GetXmax("a"); o[8] = t.GetX()[0]; o[9] = (double) (int) t.AddY("a", V(y3, y3 + n)); };
  std::unique_ptr<T> s(new T(M[method])); fill(*s);
  if (how == 0) { T t(std::move(*s)); s.reset(); ev(t, o); }
  else if (how == 1 || how == 2) { T t(M[how == 1 ? method : (method + 1) % 3]); t.SetX(V(x2, x2 + n2)); t.AddY("zz", V(y3, y3 + n2)); t.AddY("a", V(y3, y3 + n2)); t = std::move(*s); s.reset(); ev(t, o); }
  else if (how == 3) { T t(std::move(*s)); s.reset(); T u(M[(method + 1) % 3]); u = std::move(t); ev(u, o); }
  else if (how == 4) { *s = std::move(*&*s); ev(*s, o); }
  else { T t(M[(method + 2) % 3]); t = std::move(*s); s.reset(); ev(t, o); }
  T f(M[method]); fill(f); ev(f, o + 10); }
// tables refilled: abscissae given again before and after the first series, evaluations between registrations
void vp_k_l1r(int how, int method, double *x, int n, double *x2, int n2, double *y, double *y2, double q, double *o) {
  static const INTERP_METHOD M[3] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE}; typedef LookupTable1D<double, double> T; T t(M[method]);
  auto ev = [&](const T &t, double *o) { o[0] = t.Eval("b", q); o[1] = t.Eval("b", V{q})[0]; o[2] = t.GetXmin("b"); o[3] = t.GetXmax("b"); };
  t.SetX(V(x2, x2 + n2)); if (how & 1) { t.AddY("a", V(y2, y2 + n2)); if (how & 2) o[0] = t.Eval("a", q); } t.SetX(V(x, x + n)); t.AddY("b", V(y, y + n)); if (how & 4) ev(t, o); if (how & 8) t.AddY("c", V(y, y + n)); if (how & 16) t.AddY("b", V(y2, y2 + n)); ev(t, o);
  T f(M[method]); f.SetX(V(x, x + n)); f.AddY("b", V(y, y + n)); ev(f, o + 4); }
void vp_k_l2r(int how, double *x, int nx, double *y, int ny, double *x2, int nx2, double *y2, int ny2, double *d, double *d2, double *q, double *o) { typedef LookupTable2d<double> T; T t;
  auto ev = [&](const T &t, double *o) { o[0] = t.Eval("b", q[0], q[1]); o[1] = (double) (int) t.HasSerie("b"); };
  t.SetX(V(x2, x2 + nx2)); t.SetY(V(y2, y2 + ny2)); if (how & 1) { t.AddData("a", V(d2, d2 + nx2 * ny2)); if (how & 2) o[0] = t.Eval("a", q[0], q[1]); }
  t.SetX(V(x, x + nx)); t.SetY(V(y, y + ny)); if (how & 32) t.SetInterpolationMethod(LINEAR); t.AddData("b", V(d, d + nx * ny)); if (how & 4) ev(t, o); if (how & 8) t.AddData("c", V(d, d + nx * ny)); if (how & 16) t.AddData("b", V(d2, d2 + nx * ny)); ev(t, o);
  T f; f.SetX(V(x, x + nx)); f.SetY(V(y, y + ny)); f.AddData("b", V(d, d + nx * ny)); ev(f, o + 2); }
}
// transforms: an object used on other data and switched, output vectors already holding something
template<class F> static inline void sw(F &f, const int *ops, int n) { for (int i = 0; i < n; i++) switch (ops[i]) { case 1: f.HalfSpectrumON(); break; case 2: f.HalfSpectrumOFF(); break; case 3: f.ScalingON(); break; case 4: f.ScalingOFF(); break; } }
extern "C" {
void vp_k_fft(int how, double *x, int n, double *y, int k, int *ops, int nops, int *fin, int nfin, double fs, double *o, int cap, int *sz) {
  FFT<double> f; std::vector<C> c; V w, fr; V u(y, y + k), v(x, x + n);
  sw(f, ops, nops); if (how & 1) { f.fft(c, fr, u, fs + 1.); f.ifft(w, c); } sw(f, fin, nfin); FFT<double> *p = &f, g; if (how & 2) { g = f; p = &g; } std::unique_ptr<FFT<double>> h; if (how & 4) { h.reset(new FFT<double>(f)); p = h.get(); }
  auto ev = [&](FFT<double> &f, std::vector<C> &c, V &fr, V &w, double *o, int *sz) { f.fft(c, fr, v, fs); f.ifft(w, c); sz[0] = (int) c.size(); sz[1] = (int) fr.size(); sz[2] = (int) w.size();
    for (int i = 0; i < (int) c.size() && i < cap; i++) { o[2 * i] = c[i].real(); o[2 * i + 1] = c[i].imag(); } for (int i = 0; i < (int) fr.size() && i < cap; i++) o[2 * cap + i] = fr[i]; for (int i = 0; i < (int) w.size() && i < cap; i++) o[3 * cap + i] = w[i]; };
  ev(*p, c, fr, w, o, sz);
  FFT<double> e; sw(e, fin, nfin); std::vector<C> c2; V fr2, w2; ev(e, c2, fr2, w2, o + 4 * cap, sz + 3); }
// output vectors that already hold something; results and arguments that are the same object
void vp_k_out(double *x, int n, int k, double *o, int *sz) { const V v(x, x + n); V a(k, 3.), b; V r;
  auto put = [&](const V &p, const V &q, int i) { sz[2 * i] = (int) p.size(); sz[2 * i + 1] = (int) q.size(); for (int j = 0; j < n && j < (int) p.size(); j++) o[i * 2 * n + j] = p[j]; for (int j = 0; j < n && j < (int) q.size(); j++) o[i * 2 * n + n + j] = q[j]; };
  deg2rad(v, a); b.clear(); deg2rad(v, b); put(a, b, 0);
  a.assign(k, 3.); b.clear(); rad2deg(v, a); rad2deg(v, b); put(a, b, 1);
  a.assign(k, 3.); b.clear(); kt2ms(v, a); kt2ms(v, b); put(a, b, 2);
  a = v; r = Add(a, a); a = Add(a, a); put(a, r, 3); a = v; r = Mult(a, a); a = Mult(a, a); put(a, r, 4); }
}
