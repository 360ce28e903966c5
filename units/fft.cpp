// frequency axes, transforms, convolutions
#include "MathUtils/FFT.h"
#include "MathUtils/Convolution.h"
using namespace mathutils;
typedef std::vector<double> V;
typedef std::vector<std::complex<double>> VC;
// switches: 1 HalfSpectrumON, 2 HalfSpectrumOFF, 3 ScalingON, 4 ScalingOFF
template<class S> static void sw(FFT<S> &f, const int *ops, int n) {
  for (int i = 0; i < n; i++) switch (ops[i]) { case 1: f.HalfSpectrumON(); break; case 2: f.HalfSpectrumOFF(); break; case 3: f.ScalingON(); break; case 4: f.ScalingOFF(); break; } }
extern "C" {
int vp_freq(unsigned n, double fs, FREQUENCY_UNIT u, int dflt, int *ops, int nops, double *o, int cap) {
  FFT<double> f; sw(f, ops, nops); V r = dflt ? f.GetFrequencyVector(n, fs) : f.GetFrequencyVector(n, fs, u);
  for (int i = 0; i < (int) r.size() && i < cap; i++) o[i] = r[i]; return (int) r.size(); }
int vp_freqf(unsigned n, float fs, FREQUENCY_UNIT u, float *o, int cap) {
  FFT<float> f; std::vector<float> r = f.GetFrequencyVector(n, fs, u);
  for (int i = 0; i < (int) r.size() && i < cap; i++) o[i] = r[i]; return (int) r.size(); }
// forward transform; with = 1: together with the axis; sz: bins, axis entries
void vp_fft(double *x, int n, int *ops, int nops, double *o, int cap, int with, double fs, FREQUENCY_UNIT u, double *fr, int *sz) {
  FFT<double> f; sw(f, ops, nops); V v(x, x + n); const V &cv = v; VC c; V q;
  if (with == 0) f.fft(c, cv); else if (with == 1) f.fft(c, q, cv, fs, u); else f.fft(c, q, cv, fs);
  for (int i = 0; i < (int) c.size() && i < cap; i++) { o[2 * i] = c[i].real(); o[2 * i + 1] = c[i].imag(); }
  for (int i = 0; i < (int) q.size() && i < cap; i++) fr[i] = q[i];
  sz[0] = (int) c.size(); sz[1] = (int) q.size(); }
// forward and back; switches before each, same object, then repeated with other data
int vp_round(double *x, int n, int *ops, int nops, double *o, int cap) {
  FFT<double> f; sw(f, ops, nops); V v(x, x + n), w; VC c; f.fft(c, v); f.ifft(w, c);
  for (int i = 0; i < (int) w.size() && i < cap; i++) o[i] = w[i]; return (int) w.size(); }
int vp_round2(double *y, int k, double *x, int n, int *ops, int nops, double *o, int cap) {
  FFT<double> f; V v(y, y + k), w; VC c; f.fft(c, v); f.ifft(w, c); sw(f, ops, nops);
  v.assign(x, x + n); f.fft(c, v); f.ifft(w, c);
  for (int i = 0; i < (int) w.size() && i < cap; i++) o[i] = w[i]; return (int) w.size(); }
int vp_inv(double *re, int n, int *ops, int nops, double *o, int cap) {
  FFT<double> f; sw(f, ops, nops); VC c(n); for (int i = 0; i < n; i++) c[i] = std::complex<double>(re[2 * i], re[2 * i + 1]); V w; f.ifft(w, c);
  for (int i = 0; i < (int) w.size() && i < cap; i++) o[i] = w[i]; return (int) w.size(); }
int vp_conv(double *a, int na, double *b, int nb, double *o, int cap) { V u(a, a + na), w(b, b + nb); V r = ConvolveNaive<double>(u, w); for (int i = 0; i < (int) r.size() && i < cap; i++) o[i] = r[i]; return (int) r.size(); }
int vp_convi(int *a, int na, int *b, int nb, int *o, int cap) { std::vector<int> u(a, a + na), w(b, b + nb); std::vector<int> r = ConvolveNaive<int>(u, w); for (int i = 0; i < (int) r.size() && i < cap; i++) o[i] = r[i]; return (int) r.size(); }
unsigned vp_pow2(unsigned p) { return Pow2(p); }
double vp_nconv(double *k, int nk, double *s, int ns, int cap, int rot, double dt, int rev, double *keep) {
  V u(k, k + nk); boost::circular_buffer<double> b(cap); for (int i = 0; i < rot; i++) b.push_back(0.); for (int i = 0; i < ns; i++) b.push_back(s[i]);
  const boost::circular_buffer<double> &cb = b; double r = rev < 0 ? NaiveConvolution<double>(u, cb, dt) : NaiveConvolution<double>(u, cb, dt, rev != 0);
  for (int i = 0; i < (int) b.size(); i++) keep[i] = b[i]; return r; }
}
extern "C" unsigned vp_en_HERTZ() { return HERTZ; }
extern "C" unsigned vp_en_RADS() { return RADS; }
extern "C" unsigned vp_en_DEGS() { return DEGS; }
extern "C" unsigned vp_en_DEGM() { return DEGM; }
extern "C" unsigned vp_en_RPM() { return RPM; }
