// special functions
#include "MathUtils/BoostFunctions.h"
using namespace mathutils;
typedef std::complex<double> C;
#define W2(N, F) double vp_##N##_i(int k, double x) { return F<int, double, double>(k, x); } double vp_##N##_d(double k, double x) { return F<double, double, double>(k, x); }
extern "C" {
W2(j, Cyl_Bessel_first_kind)
W2(dj, Cyl_Bessel_first_kind_derivative)
W2(y, Cyl_Bessel_second_kind)
W2(dy, Cyl_Bessel_second_kind_derivative)
W2(i, Cyl_modified_Bessel_first_kind)
W2(di, Cyl_modified_Bessel_first_kind_derivative)
W2(k, Cyl_modified_Bessel_second_kind)
W2(dk, Cyl_modified_Bessel_second_kind_derivative)
void vp_h_i(int k, double x, double *o) { C r = Cyl_Hankel_first_kind<int, double>(k, x); o[0] = r.real(); o[1] = r.imag(); }
void vp_h_d(double k, double x, double *o) { C r = Cyl_Hankel_first_kind<double, double>(k, x); o[0] = r.real(); o[1] = r.imag(); }
void vp_dh_i(int k, double x, double *o) { C r = Cyl_Hankel_first_kind_derivative<int, double>(k, x); o[0] = r.real(); o[1] = r.imag(); }
void vp_dh_d(double k, double x, double *o) { C r = Cyl_Hankel_first_kind_derivative<double, double>(k, x); o[0] = r.real(); o[1] = r.imag(); }
double vp_leg(int k, double x) { return Legendre_polynomial<int, double>(k, x); }
double vp_dleg(int k, double x) { return Legendre_polynomial_derivative<int, double>(k, x); }
double vp_fact(int k) { return Factorial<int, double>(k); }
double vp_gamma(double x) { return Gamma<double>(x); }
double vp_tch(int k, double x) { return Chebyshev_polynomial<int, double>(k, x); }
double vp_tchs(int k, double x) { return Chebyshev_polynomial_shifted<int, double>(k, x); }
double vp_tchn(double x, double a, double b) { return Chebyshev_polynomial_next<double>(x, a, b); }
double vp_dtch(int k, double x) { return Chebyshev_polynomial_derivative<int, double>(k, x); }
double vp_s0(double x) { return Struve_zero_order<double>(x); }
double vp_s1(double x) { return Struve_first_order<double>(x); }
double vp_ds0(double x) { return Struve_zero_order_derivative<double>(x); }
double vp_ei(double x) { return Ei<double>(x); }
double vp_eia(double x) { return Ei_approximation<double>(x); }
double vp_expei(double x) { return expEi<double>(x); }
double vp_e1(double x) { return E1<double>(x); }
double vp_e1a(double x) { return E1_approximation<double>(x); }
}
