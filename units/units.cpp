// entry points for the unit-conversion properties
#include <complex>
#include <cmath>
#include "MathUtils/MathUtils.h"
using namespace mathutils;
extern "C" {
double vp_speed(double v, int a, int b) { return convert_velocity_unit<double>(v, (SPEED_UNIT) a, (SPEED_UNIT) b); }
double vp_speed_def(double v, int a) { return convert_velocity_unit<double>(v, (SPEED_UNIT) a); }
float vp_speedf(float v, int a, int b) { return convert_velocity_unit<float>(v, (SPEED_UNIT) a, (SPEED_UNIT) b); }
double vp_freq(double v, int a, int b) { return convert_frequency<double>(v, (FREQUENCY_UNIT) a, (FREQUENCY_UNIT) b); }
float vp_freqf(float v, int a, int b) { return convert_frequency<float>(v, (FREQUENCY_UNIT) a, (FREQUENCY_UNIT) b); }
int vp_enum(int i) { switch (i) { case 0: return MS; case 1: return KNOT; case 2: return KMH; case 3: return HERTZ; case 4: return RADS; case 5: return DEGS; case 6: return DEGM; case 7: return S; case 8: return RPM; case 9: return DEG; case 10: return RAD; } return -1; }
#define F(n) double vp_f_##n(double x) { return n<double>(x); }
F(KNOT2MS) F(MS2KNOT) F(KMH2MS) F(MS2KMH) F(KMH2KNOT) F(KNOT2KMH)
F(DEGS2RADS) F(RADS2DEGS) F(HZ2RADS) F(RADS2HZ) F(HZ2S) F(S2HZ) F(RADS2S) F(S2RADS) F(RPM2RADS) F(RADS2RPM) F(DEGM2RADS) F(RADS2DEGM)
void vp_kt2ms_in(double *p, int n) { std::vector<double> v(p, p + n); kt2ms(v); for (int i = 0; i < n; i++) p[i] = v[i]; }
int vp_kt2ms_self(double *p, int n) { std::vector<double> v(p, p + n); kt2ms(static_cast<const std::vector<double> &>(v), v); for (int i = 0; i < n && i < (int) v.size(); i++) p[i] = v[i]; return (int) v.size(); }
// by-copy variants: result, unchanged input, size
int vp_kt2ms_cp(double *p, int n, double *o, double *in_after, int no) {
  std::vector<double> v(p, p + n), out(o, o + no); kt2ms(static_cast<const std::vector<double> &>(v), out);
  for (int i = 0; i < (int) out.size() && i < n; i++) o[i] = out[i];
  for (int i = 0; i < n; i++) in_after[i] = v[i];
  return (int) out.size(); }
double vp_const(int i) {
  switch (i) {
    case 0: return MU_KNOT; case 1: return MU_KMH; case 2: return MU_PI; case 3: return MU_PI_180; case 4: return DEG2RAD; case 5: return MU_180_PI; case 6: return RAD2DEG;
    case 7: return MU_2PI; case 8: return MU_PI_2; case 9: return MU_2_PI; case 10: return MU_4PI; case 11: return MU_PI_4; case 12: return MU_1_4PI; case 13: return MU_RPM2RADS;
    case 14: return MU_ONE_MINUTE; case 15: return MU_ONE_HOUR; case 16: return MU_ONE_DAY; case 17: return MU_ONE_MILE; case 18: return MU_ONE_KM; case 19: return MU_SQRT2; case 20: return MU_SQRT2_2; }
  return 0; }
}
