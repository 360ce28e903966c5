// decompositions and solvers: wrappers around Eigen
#include <complex>
#include <Eigen/Dense>
#include <unsupported/Eigen/FFT>
// the iterative algorithms of Eigen are replaced by given results; vp_in records the matrix they were given
static double *vp_U, *vp_S, *vp_V, *vp_ER, *vp_EI, *vp_F, *vp_tau, *vp_L2, *vp_in; static int *vp_idx; static int vp_calls;
// vp_in: the matrices the kernels were given, 40 entries each: kernel, rows, columns, then the elements
namespace Eigen {
template<class M> static inline void vp_rec(int kernel, const M &m) { double *p = vp_in + 40 * vp_calls++; p[0] = kernel; p[1] = (double) m.rows(); p[2] = (double) m.cols();
  int k = 3; for (int i = 0; i < (int) m.rows(); i++) for (int j = 0; j < (int) m.cols(); j++) p[k++] = m(i, j); }
template<class M> static inline void vp_get(M &m, const double *f) { for (int i = 0; i < (int) m.rows(); i++) for (int j = 0; j < (int) m.cols(); j++) m(i, j) = f[i * 6 + j]; }
template<class X, class M> static inline void vp_fill(X &x, const M &m) {
  vp_rec(1, m);
  for (int i = 0; i < (int) x.m_singularValues.size(); i++) x.m_singularValues(i) = vp_S[i];
  for (int i = 0; i < (int) x.m_matrixU.rows(); i++) for (int j = 0; j < (int) x.m_matrixU.cols(); j++) x.m_matrixU(i, j) = vp_U[i * 6 + j];
  for (int i = 0; i < (int) x.m_matrixV.rows(); i++) for (int j = 0; j < (int) x.m_matrixV.cols(); j++) x.m_matrixV(i, j) = vp_V[i * 6 + j];
  x.m_nonzeroSingularValues = x.m_singularValues.size(); x.m_isInitialized = true; x.m_info = Success; x.m_usePrescribedThreshold = true; x.m_prescribedThreshold = 0; }
#define VP_SVD(K, M) template<> K<M> &K<M>::compute(const M &m, unsigned int o) { SVDBase<K<M>>::allocate(m.rows(), m.cols(), o); vp_fill(*this, m); return *this; }
typedef Matrix<double, 3, 3> M3; typedef Matrix<double, 6, 6> M6;
typedef Matrix<double, 3, 3, RowMajor> R3; typedef Matrix<double, 6, 6, RowMajor> R6; typedef Matrix<double, Dynamic, Dynamic, RowMajor> RX;
VP_SVD(JacobiSVD, MatrixXd) VP_SVD(JacobiSVD, M3) VP_SVD(JacobiSVD, M6) VP_SVD(BDCSVD, MatrixXd) VP_SVD(BDCSVD, M3) VP_SVD(BDCSVD, M6)
VP_SVD(JacobiSVD, RX) VP_SVD(JacobiSVD, R3) VP_SVD(JacobiSVD, R6) VP_SVD(BDCSVD, RX) VP_SVD(BDCSVD, R3) VP_SVD(BDCSVD, R6)
#define VP_EIG(M, I) template<> template<> EigenSolver<M> &EigenSolver<M>::compute<I>(const EigenBase<I> &e, bool) { const I &m = e.derived(); vp_rec(2, m); m_eivalues.resize(m.cols()); \
  for (int i = 0; i < (int) m_eivalues.size(); i++) m_eivalues(i) = std::complex<double>(vp_ER[i], vp_EI[i]); m_isInitialized = true; m_info = Success; return *this; }
VP_EIG(MatrixXd, MatrixXd) VP_EIG(M3, M3) VP_EIG(M6, M6) VP_EIG(MatrixXd, M3) VP_EIG(MatrixXd, M6) VP_EIG(RX, RX) VP_EIG(R3, R3) VP_EIG(R6, R6)
#define VP_FACT(M) \
template<> void HouseholderQR<M>::computeInPlace() { vp_rec(3, m_qr); vp_get(m_qr, vp_F); int n = (int) std::min(m_qr.rows(), m_qr.cols()); m_hCoeffs.resize(n); m_temp.resize(m_qr.cols()); for (int i = 0; i < n; i++) m_hCoeffs(i) = vp_tau[i]; m_isInitialized = true; } \
template<> void PartialPivLU<M>::compute() { vp_rec(4, m_lu); vp_get(m_lu, vp_F); int n = (int) m_lu.rows(); m_l1_norm = 0; m_rowsTranspositions.resize(n); m_p.resize(n); for (int i = 0; i < n; i++) { m_rowsTranspositions.coeffRef(i) = vp_idx[i]; } m_p = m_rowsTranspositions; m_det_p = 1; m_isInitialized = true; } \
template<> void FullPivLU<M>::computeInPlace() { vp_rec(5, m_lu); vp_get(m_lu, vp_L2); int r = (int) m_lu.rows(), c = (int) m_lu.cols(); m_p.resize(r); m_q.resize(c); for (int i = 0; i < r; i++) m_p.indices().coeffRef(i) = vp_idx[6 + i]; for (int i = 0; i < c; i++) m_q.indices().coeffRef(i) = vp_idx[12 + i]; \
  m_rowsTranspositions.resize(r); m_colsTranspositions.resize(c); m_nonzero_pivots = std::min(r, c); m_l1_norm = 0; m_maxpivot = 1; m_usePrescribedThreshold = true; m_prescribedThreshold = 0; m_det_pq = 1; m_isInitialized = true; } \
template<> void FullPivHouseholderQR<M>::computeInPlace() { vp_rec(6, m_qr); vp_get(m_qr, vp_F); int r = (int) m_qr.rows(), c = (int) m_qr.cols(), n = std::min(r, c); m_hCoeffs.resize(n); m_temp.resize(c); for (int i = 0; i < n; i++) m_hCoeffs(i) = vp_tau[i]; \
  m_rows_transpositions.resize(n); m_cols_transpositions.resize(n); m_cols_permutation.resize(c); for (int i = 0; i < n; i++) m_rows_transpositions.coeffRef(i) = vp_idx[i]; for (int i = 0; i < c; i++) m_cols_permutation.indices().coeffRef(i) = vp_idx[12 + i]; \
  m_nonzero_pivots = n; m_maxpivot = 1; m_usePrescribedThreshold = true; m_prescribedThreshold = 0; m_det_pq = 1; m_precision = 0; m_isInitialized = true; }
VP_FACT(MatrixXd) VP_FACT(M3) VP_FACT(M6) VP_FACT(RX) VP_FACT(R3) VP_FACT(R6)
namespace internal {
template<> struct llt_inplace<double, Lower> {
  template<class M> static Index unblocked(M &m) { return blocked(m); }
  template<class M> static Index blocked(M &m) { vp_rec(7, m); for (int i = 0; i < (int) m.rows(); i++) for (int j = 0; j <= i; j++) m(i, j) = vp_F[i * 6 + j]; return vp_idx[18] ? 0 : -1; }
  template<class M, class V> static Index rankUpdate(M &m, const V &v, const double &sigma) { vp_rec(8, v); vp_in[40 * (vp_calls - 1) + 39] = sigma; for (int i = 0; i < (int) m.rows(); i++) for (int j = 0; j <= i; j++) m(i, j) = vp_L2[i * 6 + j]; return -1; }
};
}
// as in Eigen, without the norm it keeps for its condition estimate
#define VP_LLT(M) template<> template<> LLT<M, Lower> &LLT<M, Lower>::compute<M>(const EigenBase<M> &a) { m_matrix = a.derived(); m_l1_norm = 0; m_isInitialized = true; m_info = internal::llt_inplace<double, Lower>::blocked(m_matrix) == -1 ? Success : NumericalIssue; return *this; }
VP_LLT(MatrixXd) VP_LLT(M3) VP_LLT(M6) VP_LLT(RX) VP_LLT(R3) VP_LLT(R6)
}
#include "MathUtils/MathUtils.h"
using namespace mathutils;
typedef MatrixMN<double> MN;
static inline MN mn(const double *a, int r, int c) { MN m(r, c); int k = 0; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = a[k++]; return m; }
template<class M, int N> static inline M mf(const double *a) { M m; int k = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) m(i, j) = a[k++]; return m; }
template<class M> static inline void putm(const M &m, double *&o, int *&sh) { *sh++ = (int) m.rows(); *sh++ = (int) m.cols(); for (int i = 0; i < (int) m.rows(); i++) for (int j = 0; j < (int) m.cols(); j++) *o++ = m(i, j); }
template<class M> static inline void dec(const M &c, int mode, double *o, int *sh) {
  M a, b, d;
  if (mode == 0) { c.GetLUDecomposition(a, b, d); putm(a, o, sh); putm(b, o, sh); putm(d, o, sh); }
  if (mode == 1) { c.GetCholeskyDecomposition(a); putm(a, o, sh); }
  if (mode == 2) { c.GetQRDecomposition(a, b); putm(a, o, sh); putm(b, o, sh); }
  if constexpr (std::is_same<M, MN>::value) { if (mode == 3) { c.GetFullQRDecomposition(a, b); putm(a, o, sh); putm(b, o, sh); } } }
static inline void given(double *g, int *idx, double *in) { vp_U = g; vp_V = g + 36; vp_S = g + 72; vp_ER = g + 78; vp_EI = g + 84; vp_F = g + 90; vp_tau = g + 126; vp_L2 = g + 132; vp_idx = idx; vp_in = in; vp_calls = 0; }
template<class M> static inline void svd(const M &c, int mode, double tol, double *o, int *sh) {
  if (mode == 0) { M U, S, V; c.GetSVDDecomposition(U, S, V); putm(U, o, sh); putm(S, o, sh); putm(V, o, sh); }
  if (mode == 1) { M X = c.GetPseudoInverse(tol); putm(X, o, sh); }
  if (mode == 2) { M X = c.GetPseudoInverse(); putm(X, o, sh); }
  if (mode == 3) { M X = Pinv(c, tol); putm(X, o, sh); }
  if (mode == 4) { M X = Pinv(c); putm(X, o, sh); }
  if (mode == 5) { auto e = c.Eigenvalues(); *sh++ = (int) e.rows(); *sh++ = (int) e.cols(); for (int i = 0; i < (int) e.size(); i++) { *o++ = e(i).real(); *o++ = e(i).imag(); } }
  if (mode == 6) o[0] = c.IsPositiveSemiDefinite(tol) ? 1 : 0;
  if (mode == 7) o[0] = c.IsPositiveSemiDefinite() ? 1 : 0;
  if (mode == 8) { M X = c; X.Inverse(); putm(X, o, sh); }
  if (mode == 9) { M X = c.GetInverse(); putm(X, o, sh); } }
template<class V> static inline V vec(const double *b, int n) { V v; for (int i = 0; i < n; i++) v[i] = b[i]; return v; }
template<class M, class V> static inline void slv(const M &m, const V &v, int mode, double *o, int *sh) {
  if (mode == 0) { V x = m.LUSolver(v); putm(x, o, sh); }
  if (mode == 1) { V x = m.QRSolver(v); putm(x, o, sh); }
  if (mode == 2) { V x = m.LeastSquareSolver(v); putm(x, o, sh); } }
#define G double *g, int *idx, double *in
extern "C" {
int vp_svd33(double *a, int mode, double tol, G, double *o, int *sh) { given(g, idx, in); svd<Matrix33<double>>(mf<Matrix33<double>, 3>(a), mode, tol, o, sh); return vp_calls; }
int vp_svd66(double *a, int mode, double tol, G, double *o, int *sh) { given(g, idx, in); svd<Matrix66<double>>(mf<Matrix66<double>, 6>(a), mode, tol, o, sh); return vp_calls; }
int vp_svdn(double *a, int r, int c, int mode, double tol, G, double *o, int *sh) { given(g, idx, in); svd<MN>(mn(a, r, c), mode, tol, o, sh); return vp_calls; }
int vp_dec33(double *a, int mode, G, double *o, int *sh) { given(g, idx, in); dec<Matrix33<double>>(mf<Matrix33<double>, 3>(a), mode, o, sh); return vp_calls; }
int vp_dec66(double *a, int mode, G, double *o, int *sh) { given(g, idx, in); dec<Matrix66<double>>(mf<Matrix66<double>, 6>(a), mode, o, sh); return vp_calls; }
int vp_decn(double *a, int r, int c, int mode, G, double *o, int *sh) { given(g, idx, in); dec<MN>(mn(a, r, c), mode, o, sh); return vp_calls; }
int vp_solve33(double *a, double *b, int mode, G, double *o, int *sh) { given(g, idx, in); slv(mf<Matrix33<double>, 3>(a), Vector3d<double>(b[0], b[1], b[2]), mode, o, sh); return vp_calls; }
int vp_solve66(double *a, double *b, int mode, G, double *o, int *sh) { given(g, idx, in); slv(mf<Matrix66<double>, 6>(a), Vector6d<double>(b[0], b[1], b[2], b[3], b[4], b[5]), mode, o, sh); return vp_calls; }
int vp_solven(double *a, int r, int c, double *b, int k, int mode, G, double *o, int *sh) { given(g, idx, in); slv(mn(a, r, c), mn(b, r, k), mode, o, sh); return vp_calls; }
int vp_lsc(double *a, int m_, int n, double *b, double *C, int p, double *d, G, double *o, int *sh) { given(g, idx, in); MN A = mn(a, m_, n); MN x = A.LeastSquareSolverConstraint(mn(b, m_, 1), mn(C, p, n), mn(d, p, 1)); putm(x, o, sh); return vp_calls; }
int vp_cholup(double *a, int n, double *v, double s, int inpl, G, double *o, int *sh) { given(g, idx, in); MN m = mn(a, n, n), w = mn(v, n, 1), L; if (inpl) { m.InPlaceCholeskyUpdate(w, s); putm(m, o, sh); } else { m.GetCholeskyUpdate(L, w, s); putm(L, o, sh); putm(m, o, sh); } putm(w, o, sh); return vp_calls; }
}
