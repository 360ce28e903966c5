// entry points for planar vectors and angle units
#include <complex>
#include <cmath>
#include "MathUtils/MathUtils.h"
using namespace mathutils;
typedef Vector2d<double> V2;
static inline ANGLE_UNIT U(int u) { return u ? RAD : DEG; }
static const FREQUENCY_UNIT FU[6] = {HERTZ, RADS, DEGS, DEGM, S, RPM};
static const SPEED_UNIT SU[3] = {MS, KNOT, KMH};
extern "C" {
void vp_trigo(double a, int u, double *o) { _GetTrigo<double>(a, o[0], o[1], U(u)); }
void vp_trigo_def(double a, double *o) { _GetTrigo<double>(a, o[0], o[1]); }
void vp_trigof(float a, int u, float *o) { _GetTrigo<float>(a, o[0], o[1], U(u)); }
// form: which spelling, d: 0 local->NED, 1 NED->local
void vp_proj(double x, double y, double a, int u, int d, int form, double *o, double *keep) {
  V2 v(x, y), r(7, 8);
  if (form == 0) { r = v; if (d) r.ProjectNEDOnLocal(a, U(u)); else r.ProjectLocalOnNED(a, U(u)); }
  if (form == 1) { const V2 &cv = v; if (d) cv.ProjectNEDOnLocal(r, a, U(u)); else cv.ProjectLocalOnNED(r, a, U(u)); }
  if (form == 2) r = d ? ProjectNEDOnLocal(v, a, U(u)) : ProjectLocalOnNED(v, a, U(u));
  if (form == 3) { V2 w(v); const V2 &cw = w; if (d) cw.ProjectNEDOnLocal(w, a, U(u)); else cw.ProjectLocalOnNED(w, a, U(u)); r = w; }
  if (form == 4) { r = v; if (d) r.ProjectNEDOnLocal(a); else r.ProjectLocalOnNED(a); }
  if (form == 5) { if (d) v.ProjectNEDOnLocal(r, a); else v.ProjectLocalOnNED(r, a); }
  if (form == 6) r = d ? ProjectNEDOnLocal(v, a) : ProjectLocalOnNED(v, a);
  if (form == 7 && !d) r.SetNEDFromLocal(x, y, a, U(u));
  if (form == 8 && !d) r.SetNEDFromLocal(x, y, a);
  o[0] = r[0]; o[1] = r[1]; keep[0] = v[0]; keep[1] = v[1]; }
void vp_projf(float x, float y, float a, int u, int d, float *o) {
  Vector2d<float> v(x, y); if (d) v.ProjectNEDOnLocal(a, U(u)); else v.ProjectLocalOnNED(a, U(u)); o[0] = v[0]; o[1] = v[1]; }
double vp_comp(double x, double y, double a, int u, int which, int form, double *keep) {
  V2 v(x, y); const V2 &c = v; double r = 0;
  if (form == 0) r = which == 0 ? c.ProjectOnNorthAxis(a, U(u)) : which == 1 ? c.ProjectOnEastAxis(a, U(u)) : which == 2 ? c.ProjectOnLocalXAxis(a, U(u)) : c.ProjectOnLocalYAxis(a, U(u));
  if (form == 1) r = which == 0 ? ProjectOnNorthAxis(c, a, U(u)) : which == 1 ? ProjectOnEastAxis(c, a, U(u)) : which == 2 ? ProjectOnLocalXAxis(c, a, U(u)) : ProjectOnLocalYAxis(c, a, U(u));
  if (form == 2) r = which == 0 ? c.ProjectOnNorthAxis(a) : which == 1 ? c.ProjectOnEastAxis(a) : which == 2 ? c.ProjectOnLocalXAxis(a) : c.ProjectOnLocalYAxis(a);
  if (form == 3) r = which == 0 ? ProjectOnNorthAxis(c, a) : which == 1 ? ProjectOnEastAxis(c, a) : which == 2 ? ProjectOnLocalXAxis(c, a) : ProjectOnLocalYAxis(c, a);
  keep[0] = v[0]; keep[1] = v[1]; return r; }
void vp_round(double x, double y, double a, int u, int d, double *o) {
  V2 v(x, y);
  if (d) { v.ProjectNEDOnLocal(a, U(u)); v.ProjectLocalOnNED(a, U(u)); } else { v.ProjectLocalOnNED(a, U(u)); v.ProjectNEDOnLocal(a, U(u)); }
  o[0] = v[0]; o[1] = v[1]; }
void vp_transport(double x, double y, double px, double py, double w, int fu, int form, double *o, double *keep) {
  V2 v(x, y), p(px, py), r(7, 8); FREQUENCY_UNIT f = FU[fu];
  if (form == 0) { r = v; r.TransportAtPoint(p, w, f); }
  if (form == 1) { const V2 &cv = v; cv.TransportAtPoint(r, p, w, f); }
  if (form == 2) r = TransportAtPoint(v, p, w, f);
  if (form == 3) { r = v; r.TransportAtPoint(p, w); }
  if (form == 4) { v.TransportAtPoint(r, p, w); }
  if (form == 5) r = TransportAtPoint(v, p, w);
  o[0] = r[0]; o[1] = r[1]; keep[0] = v[0]; keep[1] = v[1]; keep[2] = p[0]; keep[3] = p[1]; }
// aliasing: 0 point is the vector itself (in place), 1 out is the vector, 2 out is the vector and so is the point, 3 free with the same vector twice
void vp_transport_alias(double x, double y, double px, double py, double w, int fu, int form, double *o) {
  V2 v(x, y), p(px, py); FREQUENCY_UNIT f = FU[fu];
  if (form == 0) v.TransportAtPoint(v, w, f);
  if (form == 1) { const V2 &cv = v; cv.TransportAtPoint(v, p, w, f); }
  if (form == 2) { const V2 &cv = v; cv.TransportAtPoint(v, v, w, f); }
  if (form == 3) v = TransportAtPoint(v, v, w, f);
  o[0] = v[0]; o[1] = v[1]; }
void vp_nedvel(double l, double t, double a, int u, int si, int so, int form, double *o) {
  V2 r;
  if (form == 0) r = GetNEDVelocityVector<double>(l, t, a, U(u), SU[si], SU[so]);
  if (form == 1) r = GetNEDVelocityVector<double>(l, t, a, U(u), SU[si]);
  if (form == 2) r = GetNEDVelocityVector<double>(l, t, a, U(u));
  if (form == 3) r = GetNEDVelocityVector<double>(l, t, a);
  o[0] = r[0]; o[1] = r[1]; }
double vp_ang3(double x, double y, double z, int which, int u) {
  const Vector3d<double> v(x, y, z);
  return which == 0 ? v.GetProjectedAngleAroundX(U(u)) : which == 1 ? v.GetProjectedAngleAroundY(U(u)) : v.GetProjectedAngleAroundZ(U(u)); }
void vp_phase(double *p, int n, int u, int dflt, double *o, double *keep) {
  std::vector<std::complex<double>> v(n); for (int i = 0; i < n; i++) v[i] = std::complex<double>(p[2 * i], p[2 * i + 1]);
  std::vector<double> r = dflt ? Phase(v) : Phase(v, U(u));
  for (int i = 0; i < n; i++) o[i] = r[i];
  for (int i = 0; i < n; i++) { keep[2 * i] = v[i].real(); keep[2 * i + 1] = v[i].imag(); } }
// d2r 1: deg2rad ; copy: out starts with no elements
int vp_conv(double *p, int n, int d2r, double *o) { std::vector<double> v(p, p + n); if (d2r) deg2rad(v); else rad2deg(v); for (int i = 0; i < (int) v.size() && i < n; i++) o[i] = v[i]; return (int) v.size(); }
int vp_conv_cp(double *p, int n, int d2r, double *o, double *keep, int no) {
  std::vector<double> v(p, p + n), out(no, 5.); const std::vector<double> &cv = v;
  if (d2r) deg2rad(cv, out); else rad2deg(cv, out);
  for (int i = 0; i < (int) out.size() && i < n; i++) o[i] = out[i];
  for (int i = 0; i < n; i++) keep[i] = v[i];
  return (int) out.size(); }
int vp_conv_self(double *p, int n, int d2r) { std::vector<double> v(p, p + n); const std::vector<double> &cv = v; if (d2r) deg2rad(cv, v); else rad2deg(cv, v); for (int i = 0; i < n && i < (int) v.size(); i++) p[i] = v[i]; return (int) v.size(); }
int vp_str(const char *s) { ANGLE_UNIT u = STRING2ANGLE(s); return u == DEG ? 0 : u == RAD ? 1 : 2; }
int vp_str_deg() { return vp_str("DEG"); }
int vp_str_rad() { return vp_str("RAD"); }
int vp_str_bad() { return vp_str("GRAD"); }
int vp_str_bad2() { return vp_str(""); }
int vp_str_bad3() { return vp_str("deg"); }
}
