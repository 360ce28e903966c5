// entry points for angle normalisation
#include "MathUtils/Angles.h"
using namespace mathutils;
extern "C" {
double vp_n0360(double a) { return Normalize_0_360(a); }
double vp_n180(double a) { return Normalize__180_180(a); }
double vp_n02pi(double a) { return Normalize_0_2PI(a); }
double vp_npi(double a) { return Normalize__PI_PI(a); }
double vp_m360(double a) { return modulo360(a); }
double vp_m2pi(double a) { return modulo2pi(a); }
}
