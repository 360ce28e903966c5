"""Per header: a program text that uses the whole interface of that header, to be compiled after including that header alone.
Class templates are instantiated explicitly (every member is compiled); function templates are called; constructors with their
default arguments are used; derived classes of the abstract interfaces are declared."""
SC = ("double", "float")


def inst(fmt, types=SC):
    return "\n".join("template class " + fmt.replace("@", t) + ";" for t in types)


W = {}
W["Constants.h"] = """
inline void w_const(double *o) { o[0] = MU_SQRT2_2; o[1] = MU_ONE_DAY; o[2] = MU_KNOT + MU_KMH; o[3] = MU_PI + DEG2RAD + RAD2DEG; o[4] = MU_2PI + MU_PI_2 + MU_2_PI + MU_4PI + MU_PI_4 + MU_1_4PI; o[5] = MU_RPM2RADS; o[6] = (MU_JJ * 2.).imag(); }
"""
W["EigenDense.h"] = """
inline double w_eig() { Eigen::Matrix3d m; m.setIdentity(); return m.trace(); }
"""
W["Unit.h"] = """
template<class R> inline void w_unit_t(R *o) { using namespace mathutils;
  std::vector<R> v(3, R(1)), w; const std::vector<R> &c = v; deg2rad(v); deg2rad(c, w); rad2deg(v); rad2deg(c, w); kt2ms(v); kt2ms(c, w);
  R x = o[0]; o[0] = KNOT2MS(x) + MS2KNOT(x) + KMH2MS(x) + MS2KMH(x) + KMH2KNOT(x) + KNOT2KMH(x) + convert_velocity_unit(x, KNOT, KMH);
  o[1] = DEGS2RADS(x) + RADS2DEGS(x) + HZ2RADS(x) + RADS2HZ(x) + HZ2S(x) + S2HZ(x) + RADS2S(x) + S2RADS(x) + RPM2RADS(x) + RADS2RPM(x) + DEGM2RADS(x) + RADS2DEGM(x) + convert_frequency(x, HERTZ, RADS); }
inline void w_unit(double *o, float *f) { using namespace mathutils; w_unit_t(o); w_unit_t(f); o[3] = MS + DEGM + S + RPM + DEGS; o[4] = KNOT2MS(1.) + convert_frequency<>(2., S, RPM); }
"""
W["Angles.h"] = """
template<class R> inline void w_ang_t(R *o) { using namespace mathutils; R c, s, x = o[0]; _GetTrigo(x, c, s); _GetTrigo(x, c, s, DEG);
  o[0] = modulo2pi(x) + modulo360(x) + Normalize_0_360(x) + Normalize__180_180(x) + Normalize_0_2PI(x) + Normalize__PI_PI(x) + c + s; }
inline void w_ang(double *o, float *f) { w_ang_t(o); w_ang_t(f); o[1] = mathutils::STRING2ANGLE("DEG") == mathutils::DEG; o[2] = mathutils::STRING2ANGLE(std::string("RAD")) == mathutils::RAD; }
"""
W["Maths.h"] = """
inline void w_maths(double *o, float *f, int *i) { using namespace mathutils; o[0] = sgn(o[0]) + Saturate(o[0], -1., 1.) + SgnSqrt(o[0]); f[0] = sgn(f[0]) + Saturate(f[0], -1.f, 1.f) + SgnSqrt(f[0]); i[0] = sgn(i[0]) + Saturate(i[0], -1, 1); }
"""
W["Check.h"] = """
inline int w_check(double *o, float *f, std::vector<double> &v, std::vector<float> &w) { using namespace mathutils; AssertIsClose(o[0], o[1]); AssertIsClose(v, v); AssertIsClose(f[0], f[1], 1.f, 1.f); AssertIsClose(w, w);
  return IsClose(o[0], o[1]) + IsClose(o[0], o[1], 1e-3) + IsClose(o[0], o[1], 1e-3, 1e-3) + IsClose(f[0], f[1]) + IsClose(v, v) + IsClose(w, w, 1.f) + is_odd(3) + is_even(4u) + is_odd(5l); }
"""
W["VectorGeneration.h"] = """
template<class R> inline std::vector<R> w_gen_t(R a, R b) { using namespace mathutils; std::vector<R> v = linspace<R>(a, b, 5u), w = logspace<R>(a, b, 5u), x = logspace<R>(a, b, 5u, R(2)), y = arange<R>(a, b), z = arange<R>(a, b, R(0.5)); return v; }
inline void w_gen() { w_gen_t<double>(0, 1); w_gen_t<float>(0, 1); }
"""
W["StdVector.h"] = """
template<class R> inline void w_std_t(std::vector<R> &v) { using namespace mathutils; const std::vector<R> &c = v; std::vector<R> r = Add(c, c); r = Minus(c, c); r = Mult(c, c); r = Divide(c, c); r = AddScalar(c, R(2)); R s = Sum(c); Scale(v, s); Pow(v, s); Negate(v); }
inline void w_std(std::vector<double> &v, std::vector<float> &w) { w_std_t(v); w_std_t(w); }
"""
W["Complex.h"] = """
template<class R> inline void w_cpl_t(const std::vector<std::complex<R>> &v) { using namespace mathutils; std::vector<R> r = Real(v); r = Imag(v); r = Amplitude(v); r = Phase(v); r = Phase(v, DEG); }
inline void w_cpl(std::vector<std::complex<double>> &v, std::vector<std::complex<float>> &w) { w_cpl_t(v); w_cpl_t(w); }
"""
W["Functions.h"] = """
template<class R> inline void w_fun_t(const std::vector<R> &v) { using namespace mathutils; std::vector<R> r = Sinc(v); r = Sinc<R>(R(0), R(1), 5u); r = Heaviside(v, R(1)); r = Door(v, R(0), R(1)); r = Door(v, R(0), R(1), R(2)); r = Dirac(v, R(0)); r = Dirac(v, R(0), R(3)); r = Ramp(v, R(0), R(1), R(2), R(3)); }
inline void w_fun(std::vector<double> &v, std::vector<float> &w) { w_fun_t(v); w_fun_t(w); }
"""
W["Polynomial.h"] = """
inline double w_pol(std::vector<double> &a) { using namespace mathutils; return Horner<double>(a, 2.) + Horner_derivative<double>(a, 2.); }
"""
W["Vector2d.h"] = inst("mathutils::Vector2d<@>") + """
template<class R> inline void w_v2_t(R *o) { using namespace mathutils; Vector2d<R> a, b(o[0], o[1]), c(a + b), d = b * R(2); d = a - b; d += c; const Vector2d<R> e = -d; a.at(0) = e.at(1); a.SetNEDFromLocal(o[0], o[1], o[2]);
  a.ProjectLocalOnNED(b, o[0]); a.ProjectLocalOnNED(o[0]); a.ProjectNEDOnLocal(b, o[0]); a.ProjectNEDOnLocal(o[0], DEG); a.TransportAtPoint(b, c, o[0]); a.TransportAtPoint(b, o[0]);
  d = GetNEDVelocityVector(o[0], o[1], o[2]); d = GetNEDVelocityVector(o[0], o[1], o[2], DEG, KMH, MS); d = ProjectLocalOnNED(a, o[0]); d = ProjectNEDOnLocal(a, o[0], DEG); d = TransportAtPoint(a, b, o[0]); d = TransportAtPoint(a, b, o[0], DEGS);
  o[0] = ProjectOnNorthAxis(a, o[0]) + ProjectOnEastAxis(a, o[0]) + ProjectOnLocalXAxis(a, o[0]) + ProjectOnLocalYAxis(a, o[0], DEG) + a.ProjectOnNorthAxis(o[0]) + a.ProjectOnEastAxis(o[0]) + a.ProjectOnLocalXAxis(o[0]) + a.ProjectOnLocalYAxis(o[0]) + a.infNorm() + a.IsEqual(b); a.print("a"); }
inline void w_v2(double *o, float *f) { w_v2_t(o); w_v2_t(f); mathutils::Vector2d<> v; v.SetNull(); }
"""
W["Vector3d.h"] = inst("mathutils::Vector3d<@>") + """
template<class R> inline void w_v3_t(R *o) { using namespace mathutils; Vector3d<R> a, b(o[0], o[1], o[2]), c(a + b), d = b * R(2); d = a.cross(b); d += c; const Vector3d<R> e = -d; a.at(0) = e.at(1); a.Normalize(); a.Set(o[0], o[1], o[2]); a.print("a");
  o[0] = a.infNorm() + a.IsEqual(b) + a.IsUnit() + outer(a, b).trace() + outer(a).trace() + R(inner(a, b)) + R(a.GetProjectedAngleAroundX(DEG) + a.GetProjectedAngleAroundY(RAD) + a.GetProjectedAngleAroundZ(RAD)); }
inline void w_v3(double *o, float *f) { w_v3_t(o); w_v3_t(f); mathutils::Vector3d<> v; v.SetNull(); }
"""
W["Vector6d.h"] = inst("mathutils::Vector6d<@>") + """
template<class R> inline void w_v6_t(R *o) { using namespace mathutils; Vector6d<R> a, b(o[0], o[1], o[2], o[3], o[4], o[5]), c(a + b), d = b * R(2); d += c; const Vector6d<R> e = -d; a.at(0) = e.at(1); a.Set(o[0], o[1], o[2], o[3], o[4], o[5]); a.print("a"); o[0] = a.infNorm() + a.IsEqual(b) + outer(a, b).trace() + outer(a).trace() + inner(a, b); }
inline void w_v6(double *o, float *f) { w_v6_t(o); w_v6_t(f); mathutils::Vector6d<> v; v.SetNull(); }
"""
W["VectorN.h"] = inst("mathutils::VectorN<@>") + """
template<class R> inline void w_vn_t(R *o) { using namespace mathutils; VectorN<R> a(3), b, c(a + a); b = a - c; const VectorN<R> e = b; a.at(0) = e.at(1); a.Sort(); a.Sort(false); MatrixMN<R> m = GetMatrixSquare(a); m = GetDiagonalMatrix(a); m = Transpose(a); m = a.GetMatrixSquare(); m = a.GetDiagonalMatrix(); o[0] = a.IsEqual(b) + a.infNorm(); }
inline void w_vn(double *o, float *f) { w_vn_t(o); w_vn_t(f); }
"""
W["Matrix.h"] = inst("mathutils::MatrixMN<@>") + """
template<class R> inline void w_mm_t(R *o) { using namespace mathutils; MatrixMN<R> a(3, 3), b, c(a + a), U, S, V; b = a * c; const MatrixMN<R> e = b; a.at(0, 1) = e.at(1, 2); b = Transpose(a); b = Pinv(a); b = Pinv(a, R(1e-3)); b = MakeSymmetricFromUpper(a); b = MakeSymmetricFromLower(a); b = a.GetPseudoInverse();
  o[0] = a.IsPositiveSemiDefinite() + a.IsIdentity() + a.IsIdentity(R(1e-3)) + a.IsEqual(b); auto ev = a.Eigenvalues(); b = a.LUSolver(c); b = a.QRSolver(c); b = a.LeastSquareSolver(c); b = a.LeastSquareSolverConstraint(c, c, c); }
inline void w_mm(double *o, float *f) { w_mm_t(o); w_mm_t(f); }
"""
for _n in ("33", "66"):
    W["Matrix%s.h" % _n] = inst("mathutils::Matrix%s<@>" % _n) + """
template<class R> inline void w_m@_t(R *o) { using namespace mathutils; Matrix@<R> a, b, c(a + a); b = a * c; const Matrix@<R> e = b; a.at(0, 1) = e.at(1, 2); a.SetIdentity(); a.Transpose(); b = a.GetPseudoInverse();
  o[0] = a.IsPositiveSemiDefinite() + a.IsIdentity() + a.IsEqual(b) + a.IsSymmetric() + a.IsOrthogonal(); }
inline void w_m@(double *o, float *f) { w_m@_t(o); w_m@_t(f); }
""".replace("@", _n)
W["Interp.h"] = """
inline int w_int() { using namespace mathutils; return LINEAR + LINEAR_EXTRAPOLATE + LINEAR_SATURATE + BSPLINE; }
"""
_I1 = "".join("template class mathutils::%s<%s>;\n" % (k, a) for k in ("Interp1d", "Interp1dLinearBase", "Interp1dLinear", "Interp1dLinearExtrapolate", "Interp1dLinearSaturate") for a in ("double, double", "float, float", "double, std::complex<double>"))
W["Interp1d.h"] = "#include <complex>\n" + _I1 + """
template<class X, class Y> inline void w_i1_t(std::shared_ptr<const std::vector<X>> x, std::shared_ptr<const std::vector<Y>> y) { using namespace mathutils; Interp1d<X, Y> *p = Interp1d<X, Y>::MakeInterp1d(LINEAR); p->Initialize(x, y); const Interp1d<X, Y> &c = *p;
  Y r = c.Eval((*x)[0]) + c((*x)[0]); std::vector<Y> v = c.Eval(*x), w = c(*x); X a = c.GetXmin(), b = c.GetXmax(); delete p; Interp1dLinear<X, Y> l; Interp1dLinearExtrapolate<X, Y> e; Interp1dLinearSaturate<X, Y> s; l.Initialize(x, y); e.Initialize(x, y); s.Initialize(x, y); }
inline void w_i1() { w_i1_t<double, double>(nullptr, nullptr); w_i1_t<float, float>(nullptr, nullptr); w_i1_t<double, std::complex<double>>(nullptr, nullptr); }
"""
W["Interp2d.h"] = inst("mathutils::Interp2d<@>") + inst("mathutils::Interp2dLinear<@>") + """
template<class X> inline void w_i2_t(std::shared_ptr<const std::vector<X>> x) { using namespace mathutils; Interp2d<X> *p = Interp2d<X>::MakeInterp2d(LINEAR); p->Initialize(x, x, x); const Interp2d<X> &c = *p; X r = c.Eval(X(0), X(1)) + c(X(0), X(1)); std::vector<std::vector<X>> q; std::vector<X> v = c.Eval(q), w = c(q); r += c.GetXmin() + c.GetXmax() + c.GetYmin() + c.GetYmax(); delete p; }
inline void w_i2() { w_i2_t<double>(nullptr); w_i2_t<float>(nullptr); }
"""
W["LookupTable1D.h"] = "#include <complex>\ntemplate class mathutils::LookupTable1D<double, double>;\ntemplate class mathutils::LookupTable1D<float, float>;\ntemplate class mathutils::LookupTable1D<double, std::complex<double>>;\n" + """
template<class X, class Y> inline void w_l1_t(std::vector<X> x, std::vector<Y> y) { using namespace mathutils; LookupTable1D<X, Y> t(LINEAR_SATURATE), u(LINEAR); t.SetX(x); t.AddY("a", y); const LookupTable1D<X, Y> &c = t; Y r = c.Eval("a", x[0]); std::vector<Y> v = c.Eval("a", x); auto m = c.template Eval<X, Y>(x[0]); u = std::move(t); LookupTable1D<X, Y> w(std::move(u)); }
inline void w_l1() { w_l1_t<double, double>({}, {}); w_l1_t<float, float>({}, {}); w_l1_t<double, std::complex<double>>({}, {}); }
"""
W["LookupTable2D.h"] = inst("mathutils::LookupTable2d<@>") + """
template<class X> inline void w_l2_t(std::vector<X> x) { using namespace mathutils; LookupTable2d<X> t; t.SetX(x); t.SetY(x); t.AddData("a", x); const LookupTable2d<X> &c = t; X r = c.Eval("a", X(0), X(1)) + c.Eval("a", x); std::vector<X> v = c.Eval("a", std::vector<std::vector<X>>()); t.SetInterpolationMethod(LINEAR); }
inline void w_l2() { w_l2_t<double>({}); w_l2_t<float>({}); }
"""
W["Integration1d.h"] = inst("mathutils::Integrate1d<@>") + """
double w_id(double); float w_if(float);
template<class R> inline void w_i1d_t(const std::vector<R> &v, R (*f)(R)) { using namespace mathutils; Integrate1d<R> a(v, R(0), R(1), 5u), b(f, R(0), R(1), 5u); a.SetIntegrationMethod(TRAPEZOIDAL); R r = a.Get() + b.Get() + Trapz(v) + Trapz(v, R(1)) + Trapz(v, v); }
inline void w_i1d() { w_i1d_t<double>({}, nullptr); w_i1d_t<float>({}, nullptr); }
"""
W["Integrand.h"] = """
struct W_Ig : public mathutils::Integrand<double> { double Evaluate(const mathutils::Vector3d<double> &x) const override { return x[0]; } };
inline double w_ig() { W_Ig g; return g.Evaluate(mathutils::Vector3d<double>(0., 1., 2.)); }
"""
W["Integration2d.h"] = inst("mathutils::Integration2d<@>", ("double", "mathutils::Vector3d<double>")) + """
struct W_I2 : public mathutils::Integrand<double> { double Evaluate(const mathutils::Vector3d<double> &x) const override { return x[0]; } };
"""
W["Integration2dTriangle.h"] = "#include <complex>\n" + inst("mathutils::Integration2dTriangle<@>", ("double", "std::complex<double>", "mathutils::Vector3d<double>")) + """
struct W_It : public mathutils::Integrand<double> { double Evaluate(const mathutils::Vector3d<double> &x) const override { return x[0]; } };
inline double w_it() { using namespace mathutils; W_It g; Integration2dTriangle<double> q(&g, 3); const Integration2d<double> &b = q; Vector3d<double> v(0., 1., 2.); return q.Compute(v, v, v) + b.Compute(v, v, v); }
"""
W["QuadratureTables.h"] = """
inline int w_qt() { mathutils::QuadratureTables q; return sizeof(q); }
"""
W["FFT.h"] = inst("mathutils::FFT<@>") + """
template<class R> inline void w_fft_t(std::vector<R> v) { using namespace mathutils; FFT<R> f; std::vector<std::complex<R>> s; std::vector<R> w; f.fft(s, v); f.fft(s, w, v, R(1)); f.fft(s, w, v, R(1), RADS); f.ifft(v, s); w = f.GetFrequencyVector(3u, R(1)); w = ConvolveNaive(v, v); f.HalfSpectrumON(); f.HalfSpectrumOFF(); f.ScalingON(); f.ScalingOFF(); }
inline unsigned w_fft() { w_fft_t<double>({}); w_fft_t<float>({}); return mathutils::Pow2(3u); }
"""
W["Geometry.h"] = """
inline double w_geo() { using namespace mathutils; Eigen::Vector3d e(0., 0., 0.); Eigen::Matrix3d R = eulerAnglesZYXToRotationMatrix(e); Eigen::Quaterniond q = eulerAnglesZYXToQuaternion(e); R = quaternionToRotationMatrix(q); e = quaternionToEulerAnglesZYX(q); e = rotationMatrixToEulerAnglesZYX(R); return RotationMatrixToQuaternion(R).w(); }
"""
W["Spline.h"] = "template class mathutils::Spline<double, 1, 1>;\ntemplate class mathutils::Spline<double, 1, 3>;\n" + """
inline double w_spl(std::vector<double> &x, std::vector<double> &y) { const mathutils::Spline<double, 1, 3> s(x, y); Eigen::VectorXd u(4), v(4); mathutils::Spline<double, 1, 2> t(u, v); return s(1.) + t(2.); }
"""
W["Transform3d.h"] = """
inline int w_tr() { using namespace mathutils; return sizeof(Quaternion<double>) + sizeof(RotationMatrix<double>) + sizeof(EulerAngleSequence<double>) + sizeof(Rotation<double>) + sizeof(Transform3d<double>); }
"""
W["PowerSeries1d.h"] = inst("mathutils::PowerSeries1dClosed<@>") + inst("mathutils::PowerSeries1dOpened<@>") + """
inline double w_p1(const mathutils::VectorN<double> &c) { using namespace mathutils; PowerSeries1dClosed<double> a(c, 0., 1.); PowerSeries1dOpened<double> b(c, 1.); const PowerSeries1dBase<double> &p = a; return p.Evaluate(0.) + p.Evaluate_derivative_x(0.) + b.Evaluate(2.); }
"""
W["PowerSeries2d.h"] = "".join(inst("mathutils::PowerSeries2d%s<@>" % k) for k in ("Closed", "Opened", "Mixed")) + """
inline double w_p2(const mathutils::MatrixMN<double> &c) { using namespace mathutils; PowerSeries2dClosed<double> a(c, 0., 1., 0., 1.); PowerSeries2dOpened<double> b(c, 1., 1.); PowerSeries2dMixed<double> d(c, 0., 1., 1.); const PowerSeries2dBase<double> &p = a; return p.Evaluate(0., 0.) + p.Evaluate_derivative_x(0., 0.) + p.Evaluate_derivative_y(0., 0.) + b.Evaluate(2., 2.) + d.Evaluate(2., 2.); }
"""
W["PowerSeries3d.h"] = "".join(inst("mathutils::PowerSeries3d%s<@>" % k) for k in ("Closed", "YZOpenedXClosed", "ZOpenedXYClosed")) + """
inline double w_p3(const std::vector<mathutils::MatrixMN<double>> &c) { using namespace mathutils; PowerSeries3dClosed<double> a(c, 0., 1., 0., 1., 0., 1.); PowerSeries3dYZOpenedXClosed<double> b(c, 0., 1., 1., 1.); PowerSeries3dZOpenedXYClosed<double> d(c, 0., 1., 0., 1., 1.); const PowerSeries3dBase<double> &p = a; return p.Evaluate(0., 0., 0.) + b.Evaluate(2., 2., 2.) + d.Evaluate(2., 2., 2.); }
"""
for _d, _kinds in ((1, ("Closed", "Opened")), (2, ("Closed", "Opened", "Mixed")), (3, ("Closed", "YZOpenedXClosed", "ZOpenedXYClosed"))):
    _a = ", ".join(["const double &"] * _d)
    W["ChebyshevSeries%dd.h" % _d] = "".join(inst("mathutils::ChebyshevSeries%dd%s<@>" % (_d, k), ("double",)) for k in _kinds) + """
struct W_F@ : public mathutils::Function@d<double> { double Evaluate(%s) const override { return 1.; } };
""".replace("@", str(_d)) % _a
W["ChebyshevSeries1d.h"] += """
inline double w_c1() { using namespace mathutils; W_F1 f; ChebyshevSeries1dClosed<double> a(&f, 0., 1., 3); a.Compute_ai(); a.Compute_bi(); ChebyshevSeries1dOpened<double> b(&f, 1., 3); const ChebyshevSeries1dBase<double> &p = a; return p.Evaluate(0.) + p.Evaluate_derivative_x(0.) + b.Evaluate(2.); }
"""
W["ChebyshevSeries2d.h"] += """
inline double w_c2() { using namespace mathutils; W_F2 f; ChebyshevSeries2dClosed<double> a(&f, 0., 1., 0., 1., 3, 3); a.Compute_aij(); a.Compute_bij(); ChebyshevSeries2dOpened<double> b(&f, 1., 1., 3, 3); ChebyshevSeries2dMixed<double> d(&f, 0., 1., 1., 3, 3); return a.Evaluate(0., 0.) + b.Evaluate_derivative_x(2., 2.) + d.Evaluate_derivative_y(2., 2.); }
"""
W["ChebyshevSeries3d.h"] += """
inline double w_c3() { using namespace mathutils; W_F3 f; ChebyshevSeries3dClosed<double> a(&f, 0., 1., 0., 1., 0., 1., 3, 3, 3); a.Compute_aijk(); a.Compute_bijk(); ChebyshevSeries3dYZOpenedXClosed<double> b(&f, 0., 1., 1., 1., 3, 3, 3); ChebyshevSeries3dZOpenedXYClosed<double> d(&f, 0., 1., 0., 1., 1., 3, 3, 3); return a.Evaluate(0., 0., 0.) + b.Evaluate_derivative_x(2., 2., 2.) + d.Evaluate_derivative_z(2., 2., 2.); }
"""
W["BoostFunctions.h"] = """
inline double w_bf(double x, int n, double nu) { using namespace mathutils; std::complex<double> h = Cyl_Hankel_first_kind(n, x) + Cyl_Hankel_first_kind_derivative(n, x);
  return h.real() + Cyl_Bessel_first_kind<int, double, double>(n, x) + Cyl_Bessel_first_kind_derivative<int, double, double>(n, x) + Cyl_Bessel_second_kind<int, double, double>(n, x) + Cyl_Bessel_second_kind_derivative<int, double, double>(n, x)
    + Cyl_modified_Bessel_first_kind<int, double, double>(n, x) + Cyl_modified_Bessel_first_kind_derivative<int, double, double>(n, x) + Cyl_modified_Bessel_second_kind<int, double, double>(n, x) + Cyl_modified_Bessel_second_kind_derivative<int, double, double>(n, x)
    + Legendre_polynomial<int, double>(n, x) + Legendre_polynomial_derivative<int, double>(n, x) + Factorial<int, double>(n) + Gamma(x) + Struve_zero_order(x) + Struve_first_order(x) + Struve_zero_order_derivative(x)
    + Chebyshev_polynomial<int, double>(n, x) + Chebyshev_polynomial_shifted<int, double>(n, x) + Chebyshev_polynomial_next(x, x, x) + Chebyshev_polynomial_derivative<int, double>(n, x) + Ei(x) + Ei_approximation(x) + expEi(x) + E1(x) + E1_approximation(x); }
"""
W["Convolution.h"] = inst("mathutils::Convolution<@>") + """
inline double w_cv(std::vector<double> &v, boost::circular_buffer<double> &b) { mathutils::Convolution<double> c(1., v), d; d.SetKernel(1., v); return mathutils::NaiveConvolution(v, b, 1.) + mathutils::NaiveConvolution(v, b, 1., false); }
"""
W["RegularGridInterpolator.h"] = "".join("template class mathutils::RegularGridInterpolator<%s>;\n" % a for a in ("double, 1", "double, 2", "double, 3", "float, 2")) + """
inline double w_rg(boost::multi_array<double, 2> &m) { mathutils::RegularGridInterpolator<double, 2> g; g.AddCoord(std::vector<double>()); g.AddVar(m); const auto &c = g; return c.Interp({0., 0.}) + c.Interp({0., 0.}, false) + c.EvalAtIndice({0, 0}) + c.GetCoordMinVal(0) + c.GetCoord(0).size(); }
"""
W["RegularGridNearest.h"] = "".join("template class mathutils::RegularGridNearest<%s>;\n" % a for a in ("double, 1", "double, 2", "double, 3", "int, 2")) + """
inline double w_rn(boost::multi_array<double, 2> &m) { mathutils::RegularGridNearest<double, 2> g; g.AddCoord(std::vector<double>()); g.AddVar(m); const auto &c = g; auto n = c.Nearest({0., 0.}); auto s = c.GetSurroundingGridNodes({0., 0.}); return n.val() + n.coords()[0] + n.indices()[0] + s.size() + c.GetData({0., 0.}); }
"""
W["MathUtils.h"] = """
inline int w_all() { mathutils::Vector3d<double> v; mathutils::MatrixMN<double> m; mathutils::PowerSeries1dClosed<double> *p = nullptr; mathutils::Interp1dLinear<double, double> i; return sizeof(v) + sizeof(m) + (p == nullptr) + sizeof(i); }
"""
W["MathUtilsBoost.h"] = """
inline int w_allb() { mathutils::RegularGridInterpolator<double, 2> g; mathutils::ChebyshevSeries1dClosed<double> *p = nullptr; return sizeof(g) + (p == nullptr) + (int) mathutils::Gamma(2.); }
"""

for _h in W:
    W[_h] = W[_h].replace("\ninline ", "\n__attribute__((used)) inline ")


def double_only(t):
    """the same text without the float instantiations (for the queries whose answer does not depend on the scalar)"""
    import re
    t = re.sub(r"template class [^;]*float[^;]*;\n?", "", t)
    return re.sub(r" w_\w+_t\(f\);", "", t)
