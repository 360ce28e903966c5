// Evaluation through const objects.  go(f): after the objects are ready all memory existing at that point is frozen (see vp_freeze
// in the engine), then the evaluations run on two queries and once more on the first.
#include <complex>
#include <string>
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
typedef std::vector<double> V;
typedef std::complex<double> C;
typedef MatrixMN<double> MX;
extern "C" {
void vp_freeze(void *keep); void vp_thaw();
double vp_user1(double x); double vp_user2(double x, double y); double vp_user3(double x, double y, double z);
}
struct F1 : public Function1d<double> { double Evaluate(const double &x) const override { return vp_user1(x); } };
struct F2 : public Function2d<double> { double Evaluate(const double &x, const double &y) const override { return vp_user2(x, y); } };
struct F3 : public Function3d<double> { double Evaluate(const double &x, const double &y, const double &z) const override { return vp_user3(x, y, z); } };
struct G : public Integrand<double> { double Evaluate(const Vector3d<double> &x) const override { return vp_user3(x[0], x[1], x[2]); } };
template<class F> static __attribute__((noinline)) void go(const double *q, int k, double *o, int n, const F &f) {
  vp_freeze(o); f(q, o); vp_thaw(); vp_freeze(o); f(q + k, o + n); vp_thaw(); vp_freeze(o); f(q, o + 2 * n); vp_thaw(); }
template<class T> static inline std::shared_ptr<const std::vector<T>> sp(const T *a, int n) { return std::make_shared<const std::vector<T>>(a, a + n); }
static inline std::shared_ptr<const std::vector<C>> spc(const double *a, int n) { std::vector<C> v; for (int i = 0; i < n; i++) v.push_back(C(a[2 * i], a[2 * i + 1])); return std::make_shared<const std::vector<C>>(v); }
static const INTERP_METHOD M[3] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE};
static inline VectorN<double> mkv(const double *b, int n) { VectorN<double> v(n); for (int i = 0; i < n; i++) v(i) = b[i]; return v; }
static inline MX mkm(const double *b, int n, int m) { MX v(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) v(i, j) = b[i * m + j]; return v; }
template<class T, int D> static inline boost::multi_array<T, D> arr(const int *n, const T *d) {
  std::array<size_t, D> s; size_t t = 1; for (int i = 0; i < D; i++) { s[i] = n[i]; t *= n[i]; }
  boost::multi_array<T, D> a(s); for (size_t i = 0; i < t; i++) a.data()[i] = d[i]; return a; }
template<class Gr> static inline void axes(Gr &g, int D, const double *ax, const int *n) { for (int i = 0; i < D; i++) { g.AddCoord(V(ax, ax + n[i])); ax += n[i]; } }
template<class P> static inline void c3(const P &p, const double *q, double *o) {
  o[0] = p.Evaluate(q[0], q[1], q[2]); o[1] = p.Evaluate_derivative_x(q[0], q[1], q[2]); o[2] = p.Evaluate_derivative_y(q[0], q[1], q[2]); o[3] = p.Evaluate_derivative_z(q[0], q[1], q[2]); }
template<class P> static inline void c2(const P &p, const double *q, double *o) { o[0] = p.Evaluate(q[0], q[1]); o[1] = p.Evaluate_derivative_x(q[0], q[1]); o[2] = p.Evaluate_derivative_y(q[0], q[1]); }
template<class P> static inline void c1(const P &p, const double *q, double *o) { o[0] = p.Evaluate(q[0]); o[1] = p.Evaluate_derivative_x(q[0]); }
template<class P> static inline void ps3(const P &p, const double *q, double *o) {
  c3(p, q, o); p.Evaluate_f_dfdx_dfdy(q[0], q[1], q[2], o[4], o[5], o[6]); MX c = p.Compute_cij(q[2]);
  o[7] = p.Evaluate_z_predefined(q[0], q[1], c); o[8] = p.Evaluate_derivative_x_z_predefined(q[0], q[1], c); o[9] = p.Evaluate_derivative_y_z_predefined(q[0], q[1], c);
  p.Evaluate_f_dfdx_dfdy_z_predefined(q[0], q[1], c, o[10], o[11], o[12]); }
extern "C" {
void vp_c_i1(int method, int vec, double *x, double *y, int n, double *q, double *o) {
  Interp1d<double, double> *p = Interp1d<double, double>::MakeInterp1d(M[method]); p->Initialize(sp(x, n), sp(y, n)); const Interp1d<double, double> &c = *p;
  if (!vec) go(q, 1, o, 4, [&](const double *q, double *o) { o[0] = c.Eval(q[0]); o[1] = c(q[0]); o[2] = c.GetXmin(); o[3] = c.GetXmax(); });
  else { V v(2), w(2); go(q, 1, o, 4, [&](const double *q, double *o) { V v(2, q[0]); const V &cv = v; V r = c.Eval(cv), s = c(cv); o[0] = r[0]; o[1] = r[1]; o[2] = s[0]; o[3] = s[1]; }); }
  delete p; }
void vp_c_i1c(int method, double *x, double *y, int n, double *q, double *o) {
  Interp1d<double, C> *p = Interp1d<double, C>::MakeInterp1d(M[method]); p->Initialize(sp(x, n), spc(y, n)); const Interp1d<double, C> &c = *p;
  go(q, 1, o, 4, [&](const double *q, double *o) { C r = c.Eval(q[0]), s = c(q[0]); o[0] = r.real(); o[1] = r.imag(); o[2] = s.real(); o[3] = s.imag(); }); delete p; }
void vp_c_i2(double *x, int nx, double *y, int ny, double *d, double *q, double *o) {
  Interp2d<double> *p = Interp2d<double>::MakeInterp2d(LINEAR); p->Initialize(sp(x, nx), sp(y, ny), sp(d, nx * ny)); const Interp2d<double> &c = *p;
  go(q, 2, o, 8, [&](const double *q, double *o) { o[0] = c.Eval(q[0], q[1]); o[1] = c(q[0], q[1]); o[2] = c.GetXmin(); o[3] = c.GetXmax(); o[4] = c.GetYmin(); o[5] = c.GetYmax();
    std::vector<V> v; v.push_back({q[0], q[1]}); const std::vector<V> &cv = v; o[6] = c.Eval(cv)[0]; o[7] = c(cv)[0]; }); delete p; }
void vp_c_l1(int method, double *x, int n, double *y, double *q, double *o) {
  LookupTable1D<double, double> t(M[method]); t.SetX(V(x, x + n)); t.AddY("cx", V(y, y + n)); t.AddY("a rather long name of a series that needs the heap", V(y + n, y + 2 * n)); const LookupTable1D<double, double> &c = t;
  go(q, 1, o, 8, [&](const double *q, double *o) { o[0] = c.Eval("cx", q[0]); o[1] = c.Eval("a rather long name of a series that needs the heap", q[0]); o[2] = c.Eval("cx", V(1, q[0]))[0];
    auto m = c.template Eval<double, double>(q[0]); o[3] = m.at("cx"); o[4] = (double) (int) c.GetNbSeries(); o[5] = (double) (int) c.GetNbSample(); o[6] = c.GetXmin("cx"); o[7] = c.GetXmax("cx"); }); }
void vp_c_l2(double *x, int nx, double *y, int ny, double *d, double *q, double *o) {
  LookupTable2d<double> t; t.SetX(V(x, x + nx)); t.SetY(V(y, y + ny)); t.AddData("cx", V(d, d + nx * ny)); t.AddData("another", V(d, d + nx * ny)); const LookupTable2d<double> &c = t;
  go(q, 2, o, 6, [&](const double *q, double *o) { o[0] = c.Eval("cx", q[0], q[1]); o[1] = c.Eval("another", V{q[0], q[1]}); o[2] = c.Eval("cx", std::vector<V>(1, V{q[0], q[1]}))[0]; o[3] = (double) (int) c.HasSerie("nope"); o[4] = (double) (int) c.GetNbSeries(); o[5] = (double) (int) c.GetX().size(); }); }
}
template<int D> static inline void cg(const double *ax, const int *n, const double *d, const double *q, double *o) {
  RegularGridInterpolator<double, D> g; axes(g, D, ax, n); g.AddVar(arr<double, D>(n, d)); const RegularGridInterpolator<double, D> &c = g;
  go(q, D, o, 6, [&](const double *q, double *o) { std::array<double, D> p; for (int i = 0; i < D; i++) p[i] = q[i]; o[0] = c.Interp(p); o[1] = c.Interp(p, false); o[2] = c.GetCoordMinVal(0); o[3] = c.GetCoordMaxVal(D - 1); std::array<size_t, D> id; for (int i = 0; i < D; i++) id[i] = n[i] - 1; o[4] = c.EvalAtIndice(id); o[5] = (double) (int) (c.GetDimension() + c.IsValid() + (int) c.GetCoord(0).size()); }); }
template<int D> static inline void cn(const double *ax, const int *n, const double *d, const double *q, double *o) {
  RegularGridNearest<double, D> g; axes(g, D, ax, n); g.AddVar(arr<double, D>(n, d)); const RegularGridNearest<double, D> &c = g;
  go(q, D, o, 6, [&](const double *q, double *o) { std::array<double, D> p; for (int i = 0; i < D; i++) p[i] = q[i]; o[0] = c.GetData(p); o[1] = c.Nearest(p).coords()[0]; auto s = c.GetSurroundingGridNodes(p); o[2] = s[0].val(); o[3] = s.back().val(); o[4] = c.GetCoordMinVal(0); o[5] = c.GetCoordMaxVal(D - 1); }); }
extern "C" {
void vp_c_g1(double *ax, int *n, double *d, double *q, double *o) { cg<1>(ax, n, d, q, o); }
void vp_c_g2(double *ax, int *n, double *d, double *q, double *o) { cg<2>(ax, n, d, q, o); }
void vp_c_g3(double *ax, int *n, double *d, double *q, double *o) { cg<3>(ax, n, d, q, o); }
void vp_c_n1(double *ax, int *n, double *d, double *q, double *o) { cn<1>(ax, n, d, q, o); }
void vp_c_n2(double *ax, int *n, double *d, double *q, double *o) { cn<2>(ax, n, d, q, o); }
void vp_c_ps1(int kind, double *b, int n, double *d, double *q, double *o) {
  if (kind == 0) { const PowerSeries1dClosed<double> p(mkv(b, n), d[0], d[1]); go(q, 3, o, 2, [&](const double *q, double *o) { c1(p, q, o); }); }
  else { const PowerSeries1dOpened<double> p(mkv(b, n), d[0]); go(q, 3, o, 2, [&](const double *q, double *o) { c1(p, q, o); }); } }
void vp_c_ps2(int kind, double *b, int n, double *d, double *q, double *o) {
  if (kind == 0) { const PowerSeries2dClosed<double> p(mkm(b, n, n), d[0], d[1], d[2], d[3]); go(q, 3, o, 3, [&](const double *q, double *o) { c2(p, q, o); }); }
  else if (kind == 1) { const PowerSeries2dOpened<double> p(mkm(b, n, n), d[0], d[2]); go(q, 3, o, 3, [&](const double *q, double *o) { c2(p, q, o); }); }
  else { const PowerSeries2dMixed<double> p(mkm(b, n, n), d[0], d[1], d[2]); go(q, 3, o, 3, [&](const double *q, double *o) { c2(p, q, o); }); } }
void vp_c_ps3(int kind, double *b, int n, double *d, double *q, double *o) {
  std::vector<MX> c; for (int k = 0; k < n; k++) c.push_back(mkm(b + k * n * n, n, n));
  if (kind == 0) { const PowerSeries3dClosed<double> p(c, d[0], d[1], d[2], d[3], d[4], d[5]); go(q, 3, o, 13, [&](const double *q, double *o) { ps3(p, q, o); }); }
  else if (kind == 1) { const PowerSeries3dYZOpenedXClosed<double> p(c, d[0], d[1], d[2], d[4]); go(q, 3, o, 13, [&](const double *q, double *o) { ps3(p, q, o); }); }
  else { const PowerSeries3dZOpenedXYClosed<double> p(c, d[0], d[1], d[2], d[3], d[4]); go(q, 3, o, 13, [&](const double *q, double *o) { ps3(p, q, o); }); } }
void vp_c_cs1(int kind, int n, double *d, double *q, double *o) { F1 f;
  if (kind == 0) { ChebyshevSeries1dClosed<double> p(&f, d[0], d[1], n); p.Compute_ai(); const auto &c = p; go(q, 3, o, 4, [&](const double *q, double *o) { c1(c, q, o); VectorN<double> b = p.Compute_bi(); o[2] = b(0); o[3] = b(n); }); }
  else { ChebyshevSeries1dOpened<double> p(&f, d[0], n); p.Compute_ai(); const auto &c = p; go(q, 3, o, 4, [&](const double *q, double *o) { c1(c, q, o); o[2] = o[3] = 0; }); } }
void vp_c_cs2(int kind, int n, double *d, double *q, double *o) { F2 f;
  if (kind == 0) { ChebyshevSeries2dClosed<double> p(&f, d[0], d[1], d[2], d[3], n, n); p.Compute_aij(); const auto &c = p; go(q, 3, o, 5, [&](const double *q, double *o) { c2(c, q, o); MX b = p.Compute_bij(); o[3] = b(0, n); o[4] = b(n, n); }); }
  else if (kind == 1) { ChebyshevSeries2dOpened<double> p(&f, d[0], d[2], n, n); p.Compute_aij(); const auto &c = p; go(q, 3, o, 5, [&](const double *q, double *o) { c2(c, q, o); o[3] = o[4] = 0; }); }
  else { ChebyshevSeries2dMixed<double> p(&f, d[0], d[1], d[2], n, n); p.Compute_aij(); const auto &c = p; go(q, 3, o, 5, [&](const double *q, double *o) { c2(c, q, o); o[3] = o[4] = 0; }); } }
void vp_c_cs3(int kind, int n, double *d, double *q, double *o) { F3 f;
  if (kind == 0) { ChebyshevSeries3dClosed<double> p(&f, d[0], d[1], d[2], d[3], d[4], d[5], n, n, n); p.Compute_aijk(); const auto &c = p; go(q, 3, o, 5, [&](const double *q, double *o) { c3(c, q, o); o[4] = p.Compute_bijk()[n](n, 0); }); }
  else if (kind == 1) { ChebyshevSeries3dYZOpenedXClosed<double> p(&f, d[0], d[1], d[2], d[4], n, n, n); p.Compute_aijk(); const auto &c = p; go(q, 3, o, 5, [&](const double *q, double *o) { c3(c, q, o); o[4] = 0; }); }
  else { ChebyshevSeries3dZOpenedXYClosed<double> p(&f, d[0], d[1], d[2], d[3], d[4], n, n, n); p.Compute_aijk(); const auto &c = p; go(q, 3, o, 5, [&](const double *q, double *o) { c3(c, q, o); o[4] = 0; }); } }
void vp_c_tri(int order, double *q, double *o) { G g; const Integration2dTriangle<double> t(&g, order); go(q, 9, o, 1, [&](const double *q, double *o) { const Integration2d<double> &b = t; o[0] = b.Compute(Vector3d<double>(q[0], q[1], q[2]), Vector3d<double>(q[3], q[4], q[5]), Vector3d<double>(q[6], q[7], q[8])); }); }
void vp_c_poly(double *a, int n, double *q, double *o) { V c(a, a + n); go(q, 1, o, 4, [&](const double *q, double *o) { o[0] = Horner<double>(c, q[0]); o[1] = Horner_derivative<double>(c, q[0]); C r = Horner<C>(c, C(q[0], 1.)); o[2] = r.real(); o[3] = r.imag(); }); }
void vp_c_trapz(double *a, int n, double *q, double *o) { const V x(a, a + n), y(a + n, a + 2 * n); go(q, 1, o, 3, [&](const double *q, double *o) { o[0] = Trapz(y); o[1] = Trapz(y, q[0]); o[2] = Trapz(x, y); }); }
void vp_c_int(double *a, int n, double *q, double *o) { const V y(a, a + n); go(q, 2, o, 2, [&](const double *q, double *o) { Integrate1d<double> t(y, q[0], q[1], n); o[0] = t.Get(); Integrate1d<double> f(&vp_user1, q[0], q[1], 4); o[1] = f.Get(); }); }
void vp_c_units(int k, double *q, double *o) { go(q, 1, o, 6, [&](const double *q, double *o) {
    o[0] = convert_velocity_unit(q[0], MS, KNOT); o[1] = convert_velocity_unit(q[0], KNOT, KMH); o[2] = convert_frequency(q[0], HERTZ, RADS); o[3] = convert_frequency(q[0], RPM, DEGS); o[4] = DEG2RAD * q[0]; o[5] = (double) (q[0] < MU_PI); }); }
void vp_c_frq(int a, int b, double *q, double *o) { static const FREQUENCY_UNIT U[8] = {HERTZ, RADS, DEGS, DEGM, S, RPM, RADS, HERTZ}; go(q, 1, o, 1, [&](const double *q, double *o) { o[0] = convert_frequency(q[0], U[a], U[b]); }); }
void vp_c_seq(double *a, int n, double *q, double *o) { const V u(a, a + n), w(a + n, a + 2 * n); go(q, 1, o, 12, [&](const double *q, double *o) {
    o[0] = Add(u, w)[0]; o[1] = Minus(u, w)[n - 1]; o[2] = Mult(u, w)[0]; o[3] = AddScalar<double>(u, q[0])[n - 1]; o[4] = Sum(u); o[5] = Heaviside<double>(u, q[0])[0]; o[6] = linspace<double>(q[0], 7., 4)[2]; o[7] = Door<double>(u, q[0], 5.)[0]; o[8] = Sinc(u)[0];
    o[9] = Saturate<double>(q[0], -1., 1.); o[10] = SgnSqrt<double>(q[0]); o[11] = Ramp<double>(u, 0., 1., 0., q[0])[1]; }); }
void vp_c_geo(double *q, double *o) { go(q, 3, o, 12, [&](const double *q, double *o) { const Eigen::Vector3d e(q[0], q[1], q[2]); const Eigen::Matrix3d R = eulerAnglesZYXToRotationMatrix(e); const Eigen::Quaterniond Q = eulerAnglesZYXToQuaternion(e);
    for (int i = 0; i < 3; i++) o[i] = R(0, i); o[3] = Q.w(); o[4] = Q.x(); o[5] = quaternionToRotationMatrix(Q)(1, 2); Eigen::Vector3d b = quaternionToEulerAnglesZYX(Q); o[6] = b(0); o[7] = rotationMatrixToEulerAnglesZYX(R)(2); o[8] = RotationMatrixToQuaternion(R).w();
    o[9] = Normalize_0_2PI(q[0]); o[10] = Normalize__PI_PI(q[1]); o[11] = Normalize_0_360(q[2]); }); }
void vp_c_v2(double *a, double *q, double *o) { const Vector2d<double> u(a[0], a[1]), w(a[2], a[3]); go(q, 1, o, 6, [&](const double *q, double *o) {
    Vector2d<double> r = ProjectNEDOnLocal(u, q[0], RAD); o[0] = r.norm(); r = ProjectLocalOnNED(u, q[0], DEG); o[1] = r[0]; o[2] = u.dot(w); Vector2d<double> s = u + q[0] * w; o[3] = s[1]; o[4] = u.norm(); o[5] = (double) (u == w); }); }
void vp_c_m33(double *a, double *q, double *o) { Matrix33<double> A; for (int i = 0; i < 9; i++) A(i / 3, i % 3) = a[i]; const Matrix33<double> &M = A; const Vector3d<double> v(a[0], a[4], a[8]); go(q, 1, o, 8, [&](const double *q, double *o) {
    Matrix33<double> B = M * q[0]; o[0] = B(1, 2); Vector3d<double> r = M * v; o[1] = r[2]; o[2] = v.norm(); o[3] = M.transpose()(0, 1); o[4] = M.trace(); o[5] = M.at(1, 1); o[6] = v.cross(r)[0]; o[7] = v.at(2); }); }
void vp_c_spl(double *x, double *y, int n, double *q, double *o) { V a(x, x + n), b(y, y + n); const Spline<double, 1, 3> s(a, b); go(q, 1, o, 1, [&](const double *q, double *o) { o[0] = s(q[0]); }); }
}
