// 1-D and 2-D interpolators and lookup tables
#include <complex>
#include <string>
#include "MathUtils/MathUtils.h"
using namespace mathutils;
typedef std::vector<double> V;
typedef std::complex<double> C;
template<class T> static inline std::shared_ptr<const std::vector<T>> sp(const T *a, int n) { return std::make_shared<const std::vector<T>>(a, a + n); }
static inline std::shared_ptr<const std::vector<C>> spc(const double *a, int n) { std::vector<C> v; for (int i = 0; i < n; i++) v.push_back(C(a[2 * i], a[2 * i + 1])); return std::make_shared<const std::vector<C>>(v); }
static const INTERP_METHOD M[4] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE, BSPLINE};
template<class X, class Y> struct Own { Interp1d<X, Y> *p; Own(int how, int method) {
    if (how == 1) p = Interp1d<X, Y>::MakeInterp1d(M[method]);
    else if (method == 0) p = new Interp1dLinear<X, Y>; else if (method == 1) p = new Interp1dLinearExtrapolate<X, Y>; else p = new Interp1dLinearSaturate<X, Y>; }
  ~Own() { delete p; } };
template<class X, class Y> static inline void ev(const Interp1d<X, Y> &p, int form, const X *q, int k, Y *o) {
  if (form == 0) for (int i = 0; i < k; i++) o[i] = p.Eval(q[i]);
  else if (form == 1) for (int i = 0; i < k; i++) o[i] = p(q[i]);
  else { std::vector<X> v(q, q + k); std::vector<Y> r = form == 2 ? p.Eval(v) : p(v); for (int i = 0; i < k && i < (int) r.size(); i++) o[i] = r[i]; if ((int) r.size() != k) abort(); } }
extern "C" {
void vp_i1(int method, int how, int form, double *x, double *y, int n, double *q, int k, double *o, double *acc) {
  Own<double, double> w(how, method); w.p->Initialize(sp(x, n), sp(y, n)); ev(*w.p, form, q, k, o); acc[0] = w.p->GetXmin(); acc[1] = w.p->GetXmax(); }
void vp_i1f(int method, int how, int form, float *x, float *y, int n, float *q, int k, float *o, float *acc) {
  Own<float, float> w(how, method); w.p->Initialize(sp(x, n), sp(y, n)); ev(*w.p, form, q, k, o); acc[0] = w.p->GetXmin(); acc[1] = w.p->GetXmax(); }
void vp_i1c(int method, int how, int form, double *x, double *y, int n, double *q, int k, double *o, double *acc) {
  Own<double, C> w(how, method); w.p->Initialize(sp(x, n), spc(y, n)); std::vector<C> r(k); ev(*w.p, form, q, k, r.data()); for (int i = 0; i < k; i++) { o[2 * i] = r[i].real(); o[2 * i + 1] = r[i].imag(); } acc[0] = w.p->GetXmin(); acc[1] = w.p->GetXmax(); }
// one interpolator used on two data sets in turn, the first released before the second evaluation
void vp_i1_re(int method, double *x, double *y, int n, double *x2, double *y2, int n2, double q, int evalbefore, double *o, double *acc) {
  Own<double, double> w(0, method); w.p->Initialize(sp(x, n), sp(y, n)); if (evalbefore) o[1] = w.p->Eval(q); w.p->Initialize(sp(x2, n2), sp(y2, n2)); o[0] = w.p->Eval(q); o[2] = w.p->Eval(q); acc[0] = w.p->GetXmin(); acc[1] = w.p->GetXmax(); }
void vp_i1_len(int method, double *x, int n, double *y, int m) { Own<double, double> w(0, method); w.p->Initialize(sp(x, n), sp(y, m)); }
void vp_i1_make(int method) { Own<double, double> w(1, method); }
void vp_i1_copy(int method, double *x, double *y, int n, double *x2, double *y2, double q, double *o) {
  Interp1dLinear<double, double> a; Interp1dLinearSaturate<double, double> s; Interp1dLinearExtrapolate<double, double> e;
#define CP(T, a) { T b; { T src; src.Initialize(sp(x, n), sp(y, n)); b = src; T c(src); o[1] = c.Eval(q); src.Initialize(sp(x2, n), sp(y2, n)); o[2] = c.Eval(q); b = *&b; } o[0] = b.Eval(q); }
  if (method == 0) CP(decltype(a), a) else if (method == 1) CP(decltype(e), e) else CP(decltype(s), s) }

void vp_i2(int how, int form, double *x, int nx, double *y, int ny, double *d, int nd, double *q, int k, double *o, double *acc) {
  Interp2d<double> *p = how ? Interp2d<double>::MakeInterp2d(LINEAR) : new Interp2dLinear<double>;
  p->Initialize(sp(x, nx), sp(y, ny), sp(d, nd));
  const Interp2d<double> &c = *p;
  if (form == 0) for (int i = 0; i < k; i++) o[i] = c.Eval(q[2 * i], q[2 * i + 1]);
  else if (form == 1) for (int i = 0; i < k; i++) o[i] = c(q[2 * i], q[2 * i + 1]);
  else { std::vector<V> v; for (int i = 0; i < k; i++) v.push_back({q[2 * i], q[2 * i + 1]}); V r = form == 2 ? c.Eval(v) : c(v); for (int i = 0; i < k && i < (int) r.size(); i++) o[i] = r[i]; if ((int) r.size() != k) abort(); }
  acc[0] = c.GetXmin(); acc[1] = c.GetXmax(); acc[2] = c.GetYmin(); acc[3] = c.GetYmax();
  delete p; }
void vp_i2f(float *x, int nx, float *y, int ny, float *d, float qx, float qy, float *o) { Interp2dLinear<float> p; p.Initialize(sp(x, nx), sp(y, ny), sp(d, nx * ny)); o[0] = p.Eval(qx, qy); }
void vp_i2_re(double *x, int nx, double *y, int ny, double *d, double *x2, int nx2, double *y2, int ny2, double *d2, double qx, double qy, int before, double *o) {
  Interp2dLinear<double> p; p.Initialize(sp(x, nx), sp(y, ny), sp(d, nx * ny)); if (before) o[1] = p.Eval(qx, qy); p.Initialize(sp(x2, nx2), sp(y2, ny2), sp(d2, nx2 * ny2)); o[0] = p.Eval(qx, qy); o[2] = p.Eval(qx, qy); }
void vp_i2_copy(double *x, int nx, double *y, int ny, double *d, double *d2, double qx, double qy, double *o) {
  Interp2dLinear<double> b; { Interp2dLinear<double> s; s.Initialize(sp(x, nx), sp(y, ny), sp(d, nx * ny)); b = s; Interp2dLinear<double> c(s); o[1] = c.Eval(qx, qy); s.Initialize(sp(x, nx), sp(y, ny), sp(d2, nx * ny)); o[2] = c.Eval(qx, qy); b = *&b; } o[0] = b.Eval(qx, qy); }
void vp_i2_make(int method) { Interp2d<double> *p = Interp2d<double>::MakeInterp2d(M[method]); delete p; }
}
static const char *NAMES[40] = {"cx", "c", "", "a rather long name of a series that needs the heap", "cy", "C", "cx ", "cz", "t8", "t9", "t10", "t11", "t12", "t13", "t14", "t15", "t16", "t17", "t18", "t19", "t20", "t21", "t22", "t23", "t24", "t25", "t26", "t27", "t28", "t29", "t30", "t31", "t32", "t33", "t34", "t35", "t36", "t37", "t38", "t39"};
template<class Y> struct Get;
template<class L, class Y> static inline void putall(const L &t, const std::unordered_map<std::string, Y> &m, int S, const int *nm, Y *o) { for (int i = 0; i < S; i++) o[i] = m.at(NAMES[nm[i]]); }
extern "C" {
// register S series, then evaluate them all in every way
void vp_l1(int method, double *x, int n, double *y, int S, int *nm, double q, double *o, double *ov, double *oall, double *acc, double *ox) {
  LookupTable1D<double, double> t(M[method]); V X(x, x + n); t.SetX(X); X.clear();
  for (int s = 0; s < S; s++) { V Y(y + s * n, y + (s + 1) * n); if (!t.AddY(NAMES[nm[s]], Y)) abort(); Y[0] = 0; }
  for (int s = 0; s < S; s++) o[s] = t.Eval(NAMES[nm[s]], q);
  for (int s = 0; s < S; s++) { V r = t.Eval(NAMES[nm[s]], V{q, q}); if (r.size() != 2) abort(); ov[2 * s] = r[0]; ov[2 * s + 1] = r[1]; }
  std::unordered_map<std::string, double> m = t.template Eval<double, double>(q); acc[3] = (double) (int) m.size(); putall(t, m, S, nm, oall);
  acc[0] = (double) (int) t.GetNbSeries(); acc[1] = (double) (int) t.GetNbSample(); V g = t.GetX(); acc[2] = (double) (int) g.size(); for (int i = 0; i < n && i < (int) g.size(); i++) ox[i] = g[i];
  acc[4] = t.GetXmin(NAMES[nm[S - 1]]); acc[5] = t.GetXmax(NAMES[nm[0]]); }
void vp_l1c(int method, double *x, int n, double *y, int S, int *nm, double q, double *o, double *oall) {
  LookupTable1D<double, C> t(M[method]); t.SetX(V(x, x + n));
  for (int s = 0; s < S; s++) { std::vector<C> Y; for (int i = 0; i < n; i++) Y.push_back(C(y[2 * (s * n + i)], y[2 * (s * n + i) + 1])); if (!t.AddY(NAMES[nm[s]], Y)) abort(); }
  std::unordered_map<std::string, C> m = t.template Eval<double, C>(q);
  for (int s = 0; s < S; s++) { C r = t.Eval(NAMES[nm[s]], q); o[2 * s] = r.real(); o[2 * s + 1] = r.imag(); r = m.at(NAMES[nm[s]]); oall[2 * s] = r.real(); oall[2 * s + 1] = r.imag(); } }
// register S series, try to register series `dup` again with other data
int vp_l1_dup(int method, double *x, int n, double *y, int S, int *nm, int dup, double q, double *o, double *acc) {
  LookupTable1D<double, double> t(M[method]); t.SetX(V(x, x + n));
  for (int s = 0; s < S; s++) if (!t.AddY(NAMES[nm[s]], V(y + s * n, y + (s + 1) * n))) abort();
  int r = t.AddY(NAMES[nm[dup]], V(y + S * n, y + (S + 1) * n));
  for (int s = 0; s < S; s++) o[s] = t.Eval(NAMES[nm[s]], q);
  acc[0] = (double) (int) t.GetNbSeries(); acc[1] = (double) (int) t.template Eval<double, double>(q).size(); return r; }
double vp_l1_unknown(int method, double *x, int n, double *y, int S, int *nm, int unk, double q, int form) {
  LookupTable1D<double, double> t(M[method]); t.SetX(V(x, x + n));
  for (int s = 0; s < S; s++) if (!t.AddY(NAMES[nm[s]], V(y + s * n, y + (s + 1) * n))) abort();
  return form == 0 ? t.Eval(NAMES[unk], q) : form == 1 ? t.Eval(NAMES[unk], V{q})[0] : form == 2 ? t.GetXmin(NAMES[unk]) : t.GetXmax(NAMES[unk]); }
// a registration that throws (data of another length throws nothing here: it asserts)
void vp_l1_len(int method, double *x, int n, double *y, int m) { LookupTable1D<double, double> t(M[method]); t.SetX(V(x, x + n)); t.AddY("a", V(y, y + m)); }
// move construction or assignment, then one more series
void vp_l1_move(int method, int how, double *x, int n, double *y, double *y2, double *y3, double q, double *o, double *acc) {
  LookupTable1D<double, double> s(M[method]); s.SetX(V(x, x + n)); s.AddY("a", V(y, y + n)); s.AddY("bb", V(y2, y2 + n));
  LookupTable1D<double, double> *t;
  LookupTable1D<double, double> u(how == 2 ? M[(method + 1) % 3] : M[method]);
  if (how >= 1) { u.SetX(V(x, x + n)); u.AddY("zz", V(y3, y3 + n)); u = std::move(s); t = &u; } else t = new LookupTable1D<double, double>(std::move(s));
  if (how == 3) u = std::move(*&u);
  acc[0] = (double) (int) t->GetNbSeries(); acc[1] = (double) (int) t->GetNbSample();
  if (!t->AddY("cc", V(y3, y3 + n))) abort();
  o[0] = t->Eval("a", q); o[1] = t->Eval("bb", q); o[2] = t->Eval("cc", q); acc[2] = (double) (int) t->GetNbSeries();
  if (how == 0) delete t; }
void vp_l2(double *x, int nx, double *y, int ny, double *d, int S, int *nm, double qx, double qy, double *o, double *ov, double *ol, double *acc, double *ox, double *oy) {
  LookupTable2d<double> t; t.SetX(V(x, x + nx)); t.SetY(V(y, y + ny)); int n = nx * ny;
  for (int s = 0; s < S; s++) if (!t.AddData(NAMES[nm[s]], V(d + s * n, d + (s + 1) * n))) abort();
  for (int s = 0; s < S; s++) o[s] = t.Eval(NAMES[nm[s]], qx, qy);
  for (int s = 0; s < S; s++) ov[s] = t.Eval(NAMES[nm[s]], V{qx, qy});
  for (int s = 0; s < S; s++) { std::vector<V> l; l.push_back(V{qx, qy}); l.push_back(V{qx, qy}); V r = t.Eval(NAMES[nm[s]], l); if (r.size() != 2) abort(); ol[2 * s] = r[0]; ol[2 * s + 1] = r[1]; }
  acc[0] = (double) (int) t.GetNbSeries(); acc[1] = (double) (int) t.GetNbSample(); V g = t.GetX(), h = t.GetY(); acc[2] = (double) (int) g.size(); acc[3] = (double) (int) h.size();
  for (int i = 0; i < nx && i < (int) g.size(); i++) ox[i] = g[i]; for (int i = 0; i < ny && i < (int) h.size(); i++) oy[i] = h[i];
  for (int k = 0; k < 8; k++) acc[4 + k] = (double) (int) t.HasSerie(NAMES[k]); }
int vp_l2_dup(double *x, int nx, double *y, int ny, double *d, int S, int *nm, int dup, double qx, double qy, double *o, double *acc) {
  LookupTable2d<double> t; t.SetX(V(x, x + nx)); t.SetY(V(y, y + ny)); int n = nx * ny;
  for (int s = 0; s < S; s++) if (!t.AddData(NAMES[nm[s]], V(d + s * n, d + (s + 1) * n))) abort();
  int r = t.AddData(NAMES[nm[dup]], V(d + S * n, d + (S + 1) * n));
  for (int s = 0; s < S; s++) o[s] = t.Eval(NAMES[nm[s]], qx, qy); acc[0] = (double) (int) t.GetNbSeries(); return r; }
double vp_l2_unknown(double *x, int nx, double *y, int ny, double *d, int S, int *nm, int unk, double qx, double qy, int form) {
  LookupTable2d<double> t; t.SetX(V(x, x + nx)); t.SetY(V(y, y + ny)); int n = nx * ny;
  for (int s = 0; s < S; s++) if (!t.AddData(NAMES[nm[s]], V(d + s * n, d + (s + 1) * n))) abort();
  return form == 0 ? t.Eval(NAMES[unk], qx, qy) : form == 1 ? t.Eval(NAMES[unk], V{qx, qy}) : t.Eval(NAMES[unk], std::vector<V>(1, V{qx, qy}))[0]; }
// a registration that fails by exception (method not offered in 2-D, or data too short), then a good one under the same name
int vp_l2_fail(double *x, int nx, double *y, int ny, double *d, int S, int *nm, int why, int shortby, double qx, double qy, double *o, double *acc) {
  LookupTable2d<double> t; t.SetX(V(x, x + nx)); t.SetY(V(y, y + ny)); int n = nx * ny, failed = 0;
  for (int s = 0; s + 1 < S; s++) if (!t.AddData(NAMES[nm[s]], V(d + s * n, d + (s + 1) * n))) abort();
  try {
    if (why == 0) { t.SetInterpolationMethod(LINEAR_SATURATE); t.AddData(NAMES[nm[S - 1]], V(d + S * n, d + (S + 1) * n)); }
    else t.AddData(NAMES[nm[S - 1]], V(d + S * n, d + (S + 1) * n - shortby));
  } catch (...) { failed = 1; }
  acc[0] = (double) (int) t.GetNbSeries(); acc[1] = (double) (int) t.HasSerie(NAMES[nm[S - 1]]);
  t.SetInterpolationMethod(LINEAR);
  acc[2] = (double) (int) t.AddData(NAMES[nm[S - 1]], V(d + (S - 1) * n, d + S * n));
  for (int s = 0; s < S; s++) o[s] = t.Eval(NAMES[nm[s]], qx, qy);
  acc[3] = (double) (int) t.GetNbSeries(); return failed; }
// abscissae given again between two series: each keeps the abscissae it was registered with
void vp_l1_setx(int method, double *x, int n, double *x2, int n2, double *y, double *y2, int between, double q, double *o, double *acc) {
  LookupTable1D<double, double> t(M[method]); t.SetX(V(x, x + n)); if (!t.AddY("a", V(y, y + n))) abort(); if (between) o[2] = t.Eval("a", q); t.SetX(V(x2, x2 + n2)); o[0] = t.Eval("a", q);
  if (!t.AddY("bb", V(y2, y2 + n2))) abort(); o[1] = t.Eval("bb", q); o[2] = t.Eval("a", q); o[3] = t.template Eval<double, double>(q).at("a");
  acc[0] = t.GetXmin("a"); acc[1] = t.GetXmax("a"); acc[2] = t.GetXmin("bb"); acc[3] = t.GetXmax("bb"); acc[4] = (double) (int) t.GetNbSample(); acc[5] = t.GetX()[1]; }
void vp_l2_setx(double *x, int nx, double *y, int ny, double *d, double *x2, int nx2, double *y2, int ny2, double *d2, double qx, double qy, double *o, double *acc) {
  LookupTable2d<double> t; t.SetX(V(x, x + nx)); t.SetY(V(y, y + ny)); if (!t.AddData("a", V(d, d + nx * ny))) abort(); t.SetX(V(x2, x2 + nx2)); t.SetY(V(y2, y2 + ny2)); if (!t.AddData("bb", V(d2, d2 + nx2 * ny2))) abort();
  o[0] = t.Eval("a", qx, qy); o[1] = t.Eval("bb", qx, qy); acc[0] = (double) (int) t.GetNbSample(); acc[1] = t.GetX()[1]; acc[2] = t.GetY()[1]; }
// a registration that fails by exception (no abscissae), then a good one under the same name
int vp_l1_fail(int method, double *x, int n, double *y, double *y2, int before, double q, double *o, double *acc) {
  LookupTable1D<double, double> t(M[method]); int failed = 0; if (before) { t.SetX(V(x, x + n)); if (!t.AddY("c", V(y2, y2 + n))) abort(); }
  t.SetX(V()); try { t.AddY("a", V()); } catch (...) { failed = 1; }
  acc[0] = (double) (int) t.GetNbSeries(); acc[3] = (double) (int) t.template Eval<double, double>(q).size(); t.SetX(V(x, x + n)); acc[1] = (double) (int) t.AddY("a", V(y, y + n)); acc[2] = (double) (int) t.GetNbSeries(); o[0] = t.Eval("a", q); if (before) o[1] = t.Eval("c", q); return failed; }
// several different queries at once
void vp_l1_vec(int method, double *x, int n, double *y, double *q, int k, double *o, double *oa) {
  LookupTable1D<double, double> t(M[method]); t.SetX(V(x, x + n)); if (!t.AddY("c", V(y + n, y + 2 * n)) || !t.AddY("a", V(y, y + n))) abort();
  V r = t.Eval("a", V(q, q + k)); if ((int) r.size() != k) abort(); for (int i = 0; i < k; i++) o[i] = r[i];
  std::unordered_map<std::string, V> m = t.template Eval<V, V>(V(q, q + k)); V &s = m.at("a"); if ((int) s.size() != k || m.size() != 2) abort(); for (int i = 0; i < k; i++) oa[i] = s[i]; }
void vp_l2_vec(double *x, int nx, double *y, int ny, double *d, double *q, int k, double *o) {
  LookupTable2d<double> t; t.SetX(V(x, x + nx)); t.SetY(V(y, y + ny)); if (!t.AddData("a", V(d, d + nx * ny))) abort();
  std::vector<V> l; for (int i = 0; i < k; i++) l.push_back(V{q[2 * i], q[2 * i + 1]}); V r = t.Eval("a", l); if ((int) r.size() != k) abort(); for (int i = 0; i < k; i++) o[i] = r[i]; }
void vp_l2_move(double *x, int nx, double *y, int ny, double *d, double *d2, double qx, double qy, double *o) {
  LookupTable2d<double> s; s.SetX(V(x, x + nx)); s.SetY(V(y, y + ny)); int n = nx * ny; s.AddData("a", V(d, d + n));
  o[0] = s.Eval("a", qx, qy); }
}
