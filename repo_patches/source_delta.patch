From 27a8d0cff8b0c1616c74fe023347f7692af0e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:05 +0000
Subject: [PATCH 01/47] fix: [0, 360[ and [0, 2*PI[ normalisations returned the
 excluded upper bound

Normalize_0_360(-1e-20) was 360 and Normalize_0_2PI(-1e-20) was 2*PI.
---
 src/MathUtils/Angles.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MathUtils/Angles.h b/src/MathUtils/Angles.h
index cc2af7e..30f2fb6 100644
--- a/src/MathUtils/Angles.h
+++ b/src/MathUtils/Angles.h
@@ -43,6 +43,7 @@ namespace mathutils {
     Real angle = modulo360(a);
     if (angle < 0) {
       angle += 360;
+      if (angle >= 360) angle = 0;  // a tiny negative angle rounds up to the excluded bound
     }
     return angle;
   }
@@ -63,6 +64,7 @@ namespace mathutils {
     Real angle = modulo2pi(a);
     if (angle < 0) {
       angle += MU_2PI;
+      if (angle >= (Real) MU_2PI) angle = 0;  // a tiny negative angle rounds up to the excluded bound
     }
     return angle;
   }
-- 
2.43.0


From 53642825929b6ee2a0c9c03d4370f01e69d7c903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:05 +0000
Subject: [PATCH 02/47] fix: rad2deg by copy did not compile and never
 converted its output

---
 src/MathUtils/Unit.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/Unit.h b/src/MathUtils/Unit.h
index 50f2dd9..b61776c 100644
--- a/src/MathUtils/Unit.h
+++ b/src/MathUtils/Unit.h
@@ -49,10 +49,9 @@ namespace mathutils {
 
   /// CONVERSION RAD->DEG by copy
   template<class T>
-  // TODO : faire la meme inplace...
-  inline std::vector<T> rad2deg(const std::vector<T> &vector, std::vector<T> &out) {
+  inline void rad2deg(const std::vector<T> &vector, std::vector<T> &out) {
     out = vector;
-    rad2deg(vector);
+    rad2deg(out);
   }
 
 
-- 
2.43.0


From accf667434f347f212f7306b736f5c5410c3c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:05 +0000
Subject: [PATCH 03/47] fix: Vector2d::infNorm ignored negative components

Vector2d(-5, 1).infNorm() was 1.
---
 src/MathUtils/Vector2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Vector2d.h b/src/MathUtils/Vector2d.h
index 0cfec94..882d4b2 100644
--- a/src/MathUtils/Vector2d.h
+++ b/src/MathUtils/Vector2d.h
@@ -220,7 +220,7 @@ namespace mathutils {
 
     template <class Scalar>
     Scalar Vector2d<Scalar>::infNorm() const {
-        return this->Eigen::Matrix<Scalar, 2, 1>::maxCoeff();
+        return this->Eigen::Matrix<Scalar, 2, 1>::cwiseAbs().maxCoeff();
     }
 
     template <class Scalar>
-- 
2.43.0


From 232f0f36f8fa79a3348c71fd1bef4d810cde9d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:05 +0000
Subject: [PATCH 04/47] fix: Vector2d::TransportAtPoint read a component it had
 already overwritten

v.TransportAtPoint(v, w), where the point is the transported vector itself, gave a wrong second component.
---
 src/MathUtils/Vector2d.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Vector2d.h b/src/MathUtils/Vector2d.h
index 882d4b2..12d82b1 100644
--- a/src/MathUtils/Vector2d.h
+++ b/src/MathUtils/Vector2d.h
@@ -238,8 +238,9 @@ namespace mathutils {
             w = convert_frequency(w, funit, RADS);
         }
 
-        at(0) = at(0) - point[1] * w;
+        auto x = at(0) - point[1] * w;
         at(1) = at(1) + point[0] * w;
+        at(0) = x;
     }
 
     template <class Scalar>
-- 
2.43.0


From e30504f755488fbd0dd471a82f92221b3d28bebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:33 +0000
Subject: [PATCH 05/47] fix: IsSymmetric always answered true

The comparison with the adjoint was computed and dropped, so GetCholeskyDecomposition also accepted
matrices that are not symmetric.
---
 src/MathUtils/Matrix.h   | 9 +--------
 src/MathUtils/Matrix33.h | 9 +--------
 src/MathUtils/Matrix66.h | 9 +--------
 3 files changed, 3 insertions(+), 24 deletions(-)

diff --git a/src/MathUtils/Matrix.h b/src/MathUtils/Matrix.h
index eb7821f..fe37d1a 100644
--- a/src/MathUtils/Matrix.h
+++ b/src/MathUtils/Matrix.h
@@ -286,14 +286,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool MatrixMN<Scalar>::IsSymmetric() const {
-        auto a = this->isApprox(this->adjoint());
-        // FIXME: finir implementation :::
-//        auto a = (this->adjoint() == this);
-//        return this
-//        if (this->adjoint() == this) {
-//            return true;
-//        }
-        return true;
+        return IsSquare() && this->isApprox(this->adjoint());
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index e0a5002..d636313 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -279,14 +279,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix33<Scalar>::IsSymmetric() const {
-        auto a = this->isApprox(this->adjoint());
-        // FIXME: finir implementation :::
-//        auto a = (this->adjoint() == this);
-//        return this
-//        if (this->adjoint() == this) {
-//            return true;
-//        }
-        return true;
+        return this->isApprox(this->adjoint());
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index 23f2b91..cee0ea8 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -272,14 +272,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix66<Scalar>::IsSymmetric() const {
-        auto a = this->isApprox(this->adjoint());
-        // FIXME: finir implementation :::
-//        auto a = (this->adjoint() == this);
-//        return this
-//        if (this->adjoint() == this) {
-//            return true;
-//        }
-        return true;
+        return this->isApprox(this->adjoint());
     }
 
     template <class Scalar>
-- 
2.43.0


From a7db121aee7ceb5f63b44cebf76bd40cd5512c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:33 +0000
Subject: [PATCH 06/47] fix: IsOrthogonal tested the matrix against itself as a
 vector and rejected every orthogonal matrix

Identity and rotation matrices were reported as not orthogonal.
---
 src/MathUtils/Matrix.h   | 2 +-
 src/MathUtils/Matrix33.h | 2 +-
 src/MathUtils/Matrix66.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/Matrix.h b/src/MathUtils/Matrix.h
index fe37d1a..e6ae19b 100644
--- a/src/MathUtils/Matrix.h
+++ b/src/MathUtils/Matrix.h
@@ -306,7 +306,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool MatrixMN<Scalar>::IsOrthogonal() const {
-        return this->isOrthogonal(*this);
+        return IsSquare() && this->isUnitary();
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index d636313..9c2e50a 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -294,7 +294,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix33<Scalar>::IsOrthogonal() const {
-        return this->isOrthogonal(*this);
+        return this->isUnitary();
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index cee0ea8..a2257df 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -287,7 +287,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix66<Scalar>::IsOrthogonal() const {
-        return this->isOrthogonal(*this);
+        return this->isUnitary();
     }
 
     template <class Scalar>
-- 
2.43.0


From ca311f0f563c3dfacbc2f17f08f1ef8194655190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:33 +0000
Subject: [PATCH 07/47] fix: the const element access of Matrix66 was declared
 and never defined (link error)

---
 src/MathUtils/Matrix66.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index a2257df..d3ede21 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -197,6 +197,11 @@ namespace mathutils {
     // =================================================================================================================
     // =================================================================================================================
 
+    template <class Scalar>
+    inline Scalar Matrix66<Scalar>::at(unsigned int irow, unsigned int icol) const {
+        return this->operator()(irow, icol);
+    }
+
     template <class Scalar>
     inline Scalar& Matrix66<Scalar>::at(unsigned int irow, unsigned int icol) {
         return this->operator()(irow, icol);
-- 
2.43.0


From 0696f805d0a20b33eda302449659155bdc2a82b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:33 +0000
Subject: [PATCH 08/47] fix: SVD and pseudo-inverse of the fixed-size matrices
 did not compile

The vector of singular values was assigned to a square matrix (it now fills its diagonal), and the thin
unitaries are only available for dynamic sizes in Eigen (full and thin are the same thing for a square matrix).
---
 src/MathUtils/Matrix33.h | 12 ++++++------
 src/MathUtils/Matrix66.h | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index 9c2e50a..e3cbc08 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -374,7 +374,7 @@ namespace mathutils {
     template <class Scalar>
     void Matrix33<Scalar>::GetSVDDecomposition(Matrix33<Scalar>& U, Matrix33<Scalar>& S, Matrix33<Scalar>& V) const {
 
-        auto SVD = this->jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV);
+        auto SVD = this->jacobiSvd(Eigen::ComputeFullU | Eigen::ComputeFullV);
 
         Eigen::Matrix<Scalar, 3, 3> Utmp, Stmp, Vtmp;
 
@@ -383,7 +383,7 @@ namespace mathutils {
         U = (Matrix33<Scalar>)(Utmp);
 
         // S
-        Stmp = SVD.singularValues();
+        Stmp = SVD.singularValues().asDiagonal();
         S = (Matrix33<Scalar>)(Stmp);
 
         // V
@@ -399,14 +399,14 @@ namespace mathutils {
         GetSVDDecomposition(U, S, V);
 
         for (unsigned int i=0; i < S.rows(); ++i) {
-            if (S(i) > tol) {
-                S(i) = 1. / S(i);
+            if (S(i, i) > tol) {
+                S(i, i) = 1. / S(i, i);
             } else {
-                S(i) = 0.;
+                S(i, i) = 0.;
             }
         }
 
-        return V * S.asDiagonal() * U.adjoint();
+        return V * S * U.adjoint();
     }
 
 
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index d3ede21..62e22c3 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -372,7 +372,7 @@ namespace mathutils {
     template <class Scalar>
     void Matrix66<Scalar>::GetSVDDecomposition(Matrix66<Scalar>& U, Matrix66<Scalar>& S, Matrix66<Scalar>& V) const {
 
-        auto SVD = this->jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV);
+        auto SVD = this->jacobiSvd(Eigen::ComputeFullU | Eigen::ComputeFullV);
 
         Eigen::Matrix<Scalar, 6, 6> Utmp, Stmp, Vtmp;
 
@@ -381,7 +381,7 @@ namespace mathutils {
         U = (Matrix66<Scalar>)(Utmp);
 
         // S
-        Stmp = SVD.singularValues();
+        Stmp = SVD.singularValues().asDiagonal();
         S = (Matrix66<Scalar>)(Stmp);
 
         // V
@@ -397,14 +397,14 @@ namespace mathutils {
         GetSVDDecomposition(U, S, V);
 
         for (unsigned int i=0; i < S.rows(); ++i) {
-            if (S(i) > tol) {
-                S(i) = 1. / S(i);
+            if (S(i, i) > tol) {
+                S(i, i) = 1. / S(i, i);
             } else {
-                S(i) = 0.;
+                S(i, i) = 0.;
             }
         }
 
-        return V * S.asDiagonal() * U.adjoint();
+        return V * S * U.adjoint();
     }
 
 
-- 
2.43.0


From de56d7cf385a9b4a4241c65f86e1495693f4dca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:01 +0000
Subject: [PATCH 09/47] fix: Eigenvalues of the fixed-size matrices always
 failed

The vector of eigenvalues was forced into a square fixed-size matrix, which aborts in Eigen.
---
 src/MathUtils/Matrix33.h | 6 +++---
 src/MathUtils/Matrix66.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index e3cbc08..0a85583 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -156,7 +156,7 @@ namespace mathutils {
       // =====================================================================
 
       // This method computes the eigenvalues only.
-      Matrix33<std::complex<double>> Eigenvalues() const;
+      Eigen::Matrix<std::complex<double>, 3, 1> Eigenvalues() const;
 
     };
 
@@ -411,7 +411,7 @@ namespace mathutils {
 
 
     template <class Scalar>
-    Matrix33<std::complex<double>> Matrix33<Scalar>::Eigenvalues() const{
+    Eigen::Matrix<std::complex<double>, 3, 1> Matrix33<Scalar>::Eigenvalues() const{
 
       // This method computes the eigenvalues only.
 
@@ -421,7 +421,7 @@ namespace mathutils {
       // Object to computing eigenvalues and eigenvectors.
       Eigen::EigenSolver<Eigen::MatrixXd> es(*this, false);
 
-      return Matrix33<std::complex<double>>(es.eigenvalues());
+      return Eigen::Matrix<std::complex<double>, 3, 1>(es.eigenvalues());
 
     }
 
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index 62e22c3..749bb59 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -154,7 +154,7 @@ namespace mathutils {
       // =====================================================================
 
       // This method computes the eigenvalues only.
-      Matrix66<std::complex<double>> Eigenvalues() const;
+      Eigen::Matrix<std::complex<double>, 6, 1> Eigenvalues() const;
 
     };
 
@@ -409,7 +409,7 @@ namespace mathutils {
 
 
   template <class Scalar>
-  Matrix66<std::complex<double>> Matrix66<Scalar>::Eigenvalues() const{
+  Eigen::Matrix<std::complex<double>, 6, 1> Matrix66<Scalar>::Eigenvalues() const{
 
     // This method computes the eigenvalues only.
 
@@ -419,7 +419,7 @@ namespace mathutils {
     // Object to computing eigenvalues and eigenvectors.
     Eigen::EigenSolver<Eigen::MatrixXd> es(*this, false);
 
-    return Matrix66<std::complex<double>>(es.eigenvalues());
+    return Eigen::Matrix<std::complex<double>, 6, 1>(es.eigenvalues());
 
   }
 
-- 
2.43.0


From 1375c6cdc4bf359246c2ee48bd63454cae07b855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:46 +0000
Subject: [PATCH 10/47] fix: LeastSquareSolver of the fixed-size matrices
 always aborted

Eigen only provides thin unitaries for dynamic sizes; full and thin are the same for a square matrix.
---
 src/MathUtils/Matrix33.h | 2 +-
 src/MathUtils/Matrix66.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index 0a85583..bb58161 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -145,7 +145,7 @@ namespace mathutils {
       // A typename has to be used because the rhs is not necessary a Matrix66.
       template<typename T>
       T LeastSquareSolver(const T& b) const {
-        return (this->bdcSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(b));
+        return (this->bdcSvd(Eigen::ComputeFullU | Eigen::ComputeFullV).solve(b));
       }
 
       // No LeastSquareSolverContraint because it requires the structure MatrixMN for C and d, which is not available here.
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index 749bb59..db677c9 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -143,7 +143,7 @@ namespace mathutils {
       // A typename has to be used because the rhs is not necessary a Matrix66.
       template<typename T>
       T LeastSquareSolver(const T& b) const {
-        return (this->bdcSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(b));
+        return (this->bdcSvd(Eigen::ComputeFullU | Eigen::ComputeFullV).solve(b));
       }
 
       // No LeastSquareSolverContraint because it requires the structure MatrixMN for C and d, which is not available here.
-- 
2.43.0


From 15681ac5035325d70a3baa70c248dc69c5f3968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:58 +0000
Subject: [PATCH 11/47] fix: y-derivative at a predefined z scaled with the x
 coordinate

On a half-open y domain Evaluate_derivative_y_z_predefined(x, y, cij) used dY/dy taken at x.
---
 src/MathUtils/PowerSeries3d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/PowerSeries3d.h b/src/MathUtils/PowerSeries3d.h
index d085734..c7ac335 100644
--- a/src/MathUtils/PowerSeries3d.h
+++ b/src/MathUtils/PowerSeries3d.h
@@ -436,7 +436,7 @@ namespace mathutils {
       double xunit = AffineTransformationSegmentToUnit_x(x);
       double yunit = AffineTransformationSegmentToUnit_y(y);
 
-      return Evaluate_derivative_y_unit_zunit_predefined(x, xunit, yunit, cij);
+      return Evaluate_derivative_y_unit_zunit_predefined(y, xunit, yunit, cij);
 
     }
 
-- 
2.43.0


From 6c26dedc65029b84f16691c74b5b4fdd02578747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:58 +0000
Subject: [PATCH 12/47] fix: moving a LookupTable1D lost its interpolation
 method

Series added after the move were built from an indeterminate (move construction) or the previous (move
assignment) method.
---
 src/MathUtils/LookupTable1D.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/LookupTable1D.h b/src/MathUtils/LookupTable1D.h
index 1837128..ba10efc 100644
--- a/src/MathUtils/LookupTable1D.h
+++ b/src/MathUtils/LookupTable1D.h
@@ -42,6 +42,7 @@ namespace mathutils {
     /// Move constructor allowing to move the interpolators vector storing unique_ptr instances
     LookupTable1D &operator=(LookupTable1D &&table) {
       if (this != &table) {
+        interp_method = table.interp_method;
         Xcoords = std::move(table.Xcoords);
         assoc = std::move(table.assoc);
         Ydata = std::move(table.Ydata);
@@ -52,7 +53,8 @@ namespace mathutils {
 
     /// Move operator allowing to move the interpolators vector storing unique_ptr instances
     LookupTable1D(LookupTable1D &&table)
-        : Xcoords(std::move(table.Xcoords)),
+        : interp_method(table.interp_method),
+          Xcoords(std::move(table.Xcoords)),
           assoc(std::move(table.assoc)),
           Ydata(std::move(table.Ydata)),
           interpolators(std::move(table.interpolators)) {};
-- 
2.43.0


From f99bd0eba4d8ff01b0720885dbd751f92feb31f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:58 +0000
Subject: [PATCH 13/47] fix: a failed registration left a lookup table with a
 name bound to no data

AddData with too few values (or an unsupported method) throws, but the name was already registered: the
serie was reported as present, could not be added again, evaluating it or the series added later failed,
and the interpolator leaked.
---
 src/MathUtils/LookupTable1D.h | 40 +++++++++++++----------------------
 src/MathUtils/LookupTable2D.h | 29 +++++++++++--------------
 2 files changed, 27 insertions(+), 42 deletions(-)

diff --git a/src/MathUtils/LookupTable1D.h b/src/MathUtils/LookupTable1D.h
index ba10efc..807e301 100644
--- a/src/MathUtils/LookupTable1D.h
+++ b/src/MathUtils/LookupTable1D.h
@@ -106,35 +106,25 @@ namespace mathutils {
   template<class Xscalar, class Yscalar>
   bool LookupTable1D<Xscalar, Yscalar>::AddY(const std::string name, const std::vector<Yscalar> Y) {
     // TODO: verifier qu'on a le meme nombre d'elt que dans X...
-    // Get the future position of the new Serie
-    auto i = GetNbSeries();
-
-    // Trying to insert the new name/index into the association map
-    auto res_pair = assoc.insert(std::pair<std::string, unsigned long>(name, i));
-
-    if (!res_pair.second) { // Name already exists into the map
+    if (assoc.find(name) != assoc.end()) { // Name already exists into the map
       std::cout << "Data have not been added to the LUT" << std::endl;
+      return false;
+    }
 
-    } else {
-      // We can add data
-      auto Y_shared = std::make_shared<std::vector<Yscalar>>(Y);
-      Ydata.push_back(Y_shared);
-
-      // Building the interpolator based on the global interpolation method of the LUT
-      auto interp_ptr = Interp1d<Xscalar, Yscalar>::MakeInterp1d(interp_method);
-      // FIXME: ICI, on ne recupere pas comme voulu un pointeur vers un objet FrInterp1dLinear
-      // Du coup, la methode Initialize appelee apres n'est que celle de
-
-      // Initializing the interpolator
-      interp_ptr->Initialize(Xcoords, Y_shared);
-
-      auto interp_unique = std::unique_ptr<Interp1d<Xscalar, Yscalar>>(interp_ptr);
-
-      interpolators.push_back(std::move(interp_unique));
+    // Building and initializing the interpolator based on the global interpolation method of the LUT. The LUT is only
+    // modified once this has succeeded.
+    auto Y_shared = std::make_shared<std::vector<Yscalar>>(Y);
+    auto interp_unique = std::unique_ptr<Interp1d<Xscalar, Yscalar>>(
+        Interp1d<Xscalar, Yscalar>::MakeInterp1d(interp_method));
+    interp_unique->Initialize(Xcoords, Y_shared);
 
-    }
+    // We can add data
+    auto i = GetNbSeries();
+    Ydata.push_back(Y_shared);
+    interpolators.push_back(std::move(interp_unique));
+    assoc.insert(std::pair<std::string, unsigned long>(name, i));
 
-    return res_pair.second;
+    return true;
   }
 
   template<class Xscalar, class Yscalar>
diff --git a/src/MathUtils/LookupTable2D.h b/src/MathUtils/LookupTable2D.h
index 2bc6d3a..262790c 100644
--- a/src/MathUtils/LookupTable2D.h
+++ b/src/MathUtils/LookupTable2D.h
@@ -106,27 +106,22 @@ namespace mathutils {
     template <class Real>
     bool LookupTable2d<Real>::AddData(const std::string name, const std::vector<Real> Data) {
 
-        auto i = GetNbSeries();
-
-        auto res_pair = assoc.insert(std::pair<std::string, unsigned long>(name, i));
-
-        if (!res_pair.second) {
+        if (assoc.find(name) != assoc.end()) {
             std::cout << "Data have not been added to the LUT" << std::endl;
-        } else {
-
-            auto Data_shared = std::make_shared<std::vector<Real>>(Data);
-            MData.push_back(Data_shared);
-
-            auto interp_ptr = Interp2d<Real>::MakeInterp2d(interp_method);
-
-            interp_ptr->Initialize(Xcoords, Ycoords, Data_shared);
+            return false;
+        }
 
-            auto interp_unique = std::unique_ptr<Interp2d< Real>>(interp_ptr);
+        // The LUT is only modified once the interpolator is built and initialized
+        auto Data_shared = std::make_shared<std::vector<Real>>(Data);
+        auto interp_unique = std::unique_ptr<Interp2d<Real>>(Interp2d<Real>::MakeInterp2d(interp_method));
+        interp_unique->Initialize(Xcoords, Ycoords, Data_shared);
 
-            interpolators.push_back(std::move(interp_unique));
-        }
+        auto i = GetNbSeries();
+        MData.push_back(Data_shared);
+        interpolators.push_back(std::move(interp_unique));
+        assoc.insert(std::pair<std::string, unsigned long>(name, i));
 
-        return res_pair.second;
+        return true;
     }
 
     template <class Real>
-- 
2.43.0


From a23ba502a0fedbe8cad31721cff2d6c8d6b8f5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:58 +0000
Subject: [PATCH 14/47] fix: LookupTable2d::Eval at a point given as a vector
 did not compile

---
 src/MathUtils/LookupTable2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/LookupTable2D.h b/src/MathUtils/LookupTable2D.h
index 262790c..6431d24 100644
--- a/src/MathUtils/LookupTable2D.h
+++ b/src/MathUtils/LookupTable2D.h
@@ -131,7 +131,7 @@ namespace mathutils {
 
     template <class Real>
     Real LookupTable2d<Real>::Eval(const std::string name, const std::vector<Real> coord) const {
-        return interpolators.at(GetIndex(name))->Eval(coord);
+        return interpolators.at(GetIndex(name))->Eval(coord.at(0), coord.at(1));
     }
 
     template <class Real>
-- 
2.43.0


From f377ab325d31421352e597a5dae50d839cc2137e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:58 +0000
Subject: [PATCH 15/47] fix: initializing a linear interpolator again kept the
 coefficients of the previous data

---
 src/MathUtils/Interp1d.h | 2 ++
 src/MathUtils/Interp2d.h | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index ef607cb..570f481 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -148,6 +148,8 @@ namespace mathutils {
 
     Interp1d<XReal, YScalar>::Initialize(x, y);
 
+    a.clear();
+    b.clear();
     a.reserve(this->ndata);
     b.reserve(this->ndata);
 
diff --git a/src/MathUtils/Interp2d.h b/src/MathUtils/Interp2d.h
index 74fc19c..337aefe 100644
--- a/src/MathUtils/Interp2d.h
+++ b/src/MathUtils/Interp2d.h
@@ -114,6 +114,11 @@ namespace mathutils {
 
         Interp2d<Real>::Initialize(x, y, data);
 
+        a1.clear();
+        a2.clear();
+        a3.clear();
+        a4.clear();
+
         a1.reserve(this->ndata);
         a2.reserve(this->ndata);
         a3.reserve(this->ndata);
-- 
2.43.0


From 251ab4d14ba834b089c3f2b4242e34d7500fa441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:58 +0000
Subject: [PATCH 16/47] fix: LINEAR_EXTRAPOLATE threw for every abscissa above
 the last one

Only the extrapolation below the first abscissa worked.
---
 src/MathUtils/Interp1d.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index 570f481..cd2e8d1 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -180,6 +180,7 @@ namespace mathutils {
     auto index = std::distance(this->xcoord->begin(), upper);
 
     if (index == 0) index = 1;  // Bug fix for x == xmin
+    if (upper == this->xcoord->end()) index = this->ndata - 1;  // Last segment beyond xmax
 
     YScalar a_ = a.at(index - 1);
     YScalar b_ = b.at(index - 1);
-- 
2.43.0


From 5e34085c604e4f1149204fe0196b438eba6e3582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:58 +0000
Subject: [PATCH 17/47] fix: interpolators were destroyed through a base class
 without virtual destructor

The lookup tables own them by base pointer: undefined behaviour, and the coefficients leaked.
---
 src/MathUtils/Interp1d.h | 2 ++
 src/MathUtils/Interp2d.h | 3 +--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index cd2e8d1..7243a06 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -28,6 +28,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~Interp1d() = default;
+
     YScalar Eval(XReal x) const {return PrivEval(x);};
 
     std::vector<YScalar> Eval(const std::vector<XReal> &xvector) const {
diff --git a/src/MathUtils/Interp2d.h b/src/MathUtils/Interp2d.h
index 337aefe..32341f0 100644
--- a/src/MathUtils/Interp2d.h
+++ b/src/MathUtils/Interp2d.h
@@ -27,8 +27,7 @@ namespace mathutils {
         unsigned long ndata = 0;
 
     public:
-//        Interp2d() {};
-//        ~Interp2d() {};
+        virtual ~Interp2d() = default;
 
         virtual void Initialize(std::shared_ptr<const std::vector<Real>> x,
                                 std::shared_ptr<const std::vector<Real>> y,
-- 
2.43.0


From b6e9c40c31be7f93be3dc8c19d2fb44f15ae78e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:29 +0000
Subject: [PATCH 18/47] fix: computing the Chebyshev coefficients again
 accumulated on the previous ones

A second Compute_ai/aij/aijk (for instance after the function parameters changed) gave wrong coefficients.
---
 src/MathUtils/ChebyshevSeries1d.h | 1 +
 src/MathUtils/ChebyshevSeries2d.h | 1 +
 src/MathUtils/ChebyshevSeries3d.h | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/MathUtils/ChebyshevSeries1d.h b/src/MathUtils/ChebyshevSeries1d.h
index 845bac6..084fdbb 100644
--- a/src/MathUtils/ChebyshevSeries1d.h
+++ b/src/MathUtils/ChebyshevSeries1d.h
@@ -55,6 +55,7 @@ namespace mathutils {
       }
 
       // aij.
+      m_ai.setZero();
       // The Clenshaw algorithm cannot be used as x_tilde and y_tilde depend on r and s.
       for (int i = 0; i <= m_order_x; ++i) {
         for (int r = 0; r <= m_order_x; ++r) {
diff --git a/src/MathUtils/ChebyshevSeries2d.h b/src/MathUtils/ChebyshevSeries2d.h
index eb3b21a..9a50ac7 100644
--- a/src/MathUtils/ChebyshevSeries2d.h
+++ b/src/MathUtils/ChebyshevSeries2d.h
@@ -67,6 +67,7 @@ namespace mathutils {
       }
 
       // aij.
+      m_aij.setZero();
       // The Clenshaw algorithm cannot be used as x_tilde and y_tilde depend on r and s.
       for (int i = 0; i <= m_order_x; ++i) {
         for (int j = 0; j <= m_order_y; ++j) {
diff --git a/src/MathUtils/ChebyshevSeries3d.h b/src/MathUtils/ChebyshevSeries3d.h
index 3369ba8..9dbc78b 100644
--- a/src/MathUtils/ChebyshevSeries3d.h
+++ b/src/MathUtils/ChebyshevSeries3d.h
@@ -83,6 +83,7 @@ namespace mathutils {
       for (int i = 0; i <= m_order_x; ++i) {
         for (int j = 0; j <= m_order_y; ++j) {
           for (int k = 0; k <= m_order_z; ++k) {
+            m_aijk.at(k)(i, j) = 0.;
             for (int r = 0; r <= m_order_x; ++r) {
               double xtilde = x_tilde.at(r);
               double Ti = Chebyshev_polynomial(i, xtilde);
-- 
2.43.0


From 8911692419428d8c64effb318b4163ad025c08d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:29 +0000
Subject: [PATCH 19/47] fix: errors terminated the program with the success
 status

Struve functions, Ei/E1 approximations, Chebyshev to power series conversion and triangle quadrature
called exit(0) on invalid arguments.
---
 src/MathUtils/BoostFunctions.h        | 8 ++++----
 src/MathUtils/ChebyshevSeries1d.h     | 2 +-
 src/MathUtils/ChebyshevSeries2d.h     | 2 +-
 src/MathUtils/ChebyshevSeries3d.h     | 2 +-
 src/MathUtils/Integration2dTriangle.h | 4 ++--
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index 98406a8..e7465c0 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -142,7 +142,7 @@ namespace mathutils {
     }
     else {
       std::cout << "Zero-order Struve function is only defined for a positive argument." << std::endl;
-      exit(0);
+      exit(EXIT_FAILURE);
     }
 
     return Struve;
@@ -173,7 +173,7 @@ namespace mathutils {
     }
     else {
       std::cout << "First-order Struve function is only defined for a positive argument." << std::endl;
-      exit(0);
+      exit(EXIT_FAILURE);
     }
 
     return Struve;
@@ -235,7 +235,7 @@ namespace mathutils {
 
     if(IsClose(x, 0.) || x < 0.) {
       std::cout << "Ei_Chebyshev_approximation: Ei is not defined for x = 0." << std::endl;
-      exit(0);
+      exit(EXIT_FAILURE);
     }
 
     if(x > 0. && x < 6.){
@@ -448,7 +448,7 @@ namespace mathutils {
 
     if(IsClose(x, 0.) || x < 0.) {
       std::cout << "E1_Chebyshev_approximation: E1 is not defined for x = 0." << std::endl;
-      exit(0);
+      exit(EXIT_FAILURE);
     }
 
     if(x > 0. && x < 1.){
diff --git a/src/MathUtils/ChebyshevSeries1d.h b/src/MathUtils/ChebyshevSeries1d.h
index 084fdbb..005ea8e 100644
--- a/src/MathUtils/ChebyshevSeries1d.h
+++ b/src/MathUtils/ChebyshevSeries1d.h
@@ -115,7 +115,7 @@ namespace mathutils {
         std::cout << "The conversion Chebyshev to power series have large numerical inaccuracies for important order." << std::endl;
         std::cout << "The maximum order in xis 18." << std::endl;
         std::cout << "Order in x: " << m_order_x << std::endl;
-        exit(0);
+        exit(EXIT_FAILURE);
       }
 
       // Initialization.
diff --git a/src/MathUtils/ChebyshevSeries2d.h b/src/MathUtils/ChebyshevSeries2d.h
index 9a50ac7..9d4334a 100644
--- a/src/MathUtils/ChebyshevSeries2d.h
+++ b/src/MathUtils/ChebyshevSeries2d.h
@@ -166,7 +166,7 @@ namespace mathutils {
         std::cout << "The maximum order in x and y is 18." << std::endl;
         std::cout << "Order in x: " << m_order_x << std::endl;
         std::cout << "Order in y: " << m_order_y << std::endl;
-        exit(0);
+        exit(EXIT_FAILURE);
       }
 
       // Initialization.
diff --git a/src/MathUtils/ChebyshevSeries3d.h b/src/MathUtils/ChebyshevSeries3d.h
index 9dbc78b..1409076 100644
--- a/src/MathUtils/ChebyshevSeries3d.h
+++ b/src/MathUtils/ChebyshevSeries3d.h
@@ -227,7 +227,7 @@ namespace mathutils {
         std::cout << "Order in x: " << m_order_x << std::endl;
         std::cout << "Order in y: " << m_order_y << std::endl;
         std::cout << "Order in z: " << m_order_z << std::endl;
-        exit(0);
+        exit(EXIT_FAILURE);
       }
 
       // Initialization.
diff --git a/src/MathUtils/Integration2dTriangle.h b/src/MathUtils/Integration2dTriangle.h
index 6b8156e..73f2934 100644
--- a/src/MathUtils/Integration2dTriangle.h
+++ b/src/MathUtils/Integration2dTriangle.h
@@ -105,11 +105,11 @@ namespace mathutils {
       // Warning.
       if (this->m_order > this->m_tables->get_size_tables()) {
         std::cout << "\nToo high order of quadrature for triangle. Use lower order." << std::endl;
-        exit(0);
+        exit(EXIT_FAILURE);
       }
       if (this->m_order < 1) {
         std::cout << "\nToo low order of quadrature for triangle. Use higher order." << std::endl;
-        exit(0);
+        exit(EXIT_FAILURE);
       }
 
     }
-- 
2.43.0


From 1a83d77b4a36c254336ba0bbc2b6ed7210073b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:29 +0000
Subject: [PATCH 20/47] fix: the version header defined non inline functions

Including it in two translation units of a program failed to link (multiple definitions).
---
 src/MathUtils/version.h.in | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/MathUtils/version.h.in b/src/MathUtils/version.h.in
index 388f87e..32a6617 100644
--- a/src/MathUtils/version.h.in
+++ b/src/MathUtils/version.h.in
@@ -18,48 +18,48 @@ namespace mathutils {
     // Is the metadata populated? We may not have metadata if
     // there wasn't a .git directory (e.g. downloaded source
     // code without revision history).
-    bool IsPopulated() {
+    inline bool IsPopulated() {
       return @GIT_RETRIEVED_STATE@;
     }
 
     // Were there any uncommitted changes that won't be reflected
     // in the CommitID?
-    bool AnyUncommittedChanges() {
+    inline bool AnyUncommittedChanges() {
       return @GIT_IS_DIRTY@;
     }
 
     // The commit author's name.
-    std::string AuthorName() {
+    inline std::string AuthorName() {
       return u8"@GIT_AUTHOR_NAME@";
     }
 
     // The commit author's email.
-    std::string AuthorEmail() {
+    inline std::string AuthorEmail() {
       return "@GIT_AUTHOR_EMAIL@";
     }
 
     // The commit SHA1.
-    std::string CommitSHA1() {
+    inline std::string CommitSHA1() {
       return "@GIT_HEAD_SHA1@";
     }
 
     // The ISO8601 commit date.
-    std::string CommitDate() {
+    inline std::string CommitDate() {
       return "@GIT_COMMIT_DATE_ISO8601@";
     }
 
     // The last tag past this commit
-    std::string LastTag() {
+    inline std::string LastTag() {
       return "@GIT_LAST_TAG@";
     }
 
     // The current branch where the current commit lies
-    std::string CurrentBranch() {
+    inline std::string CurrentBranch() {
       return "@GIT_CURRENT_BRANCH@";
     }
 
     // Get the normalized version string
-    std::string GetNormalizedVersionString() {
+    inline std::string GetNormalizedVersionString() {
       std::string version("@GIT_LAST_TAG@");
 
       auto cur_branch = CurrentBranch();
@@ -80,7 +80,7 @@ namespace mathutils {
     }
 
     // The project name as seen by CMake
-    std::string ProjectName() {
+    inline std::string ProjectName() {
       return "@PROJECT_NAME@";
     }
 
-- 
2.43.0


From e486b965dbe0c13331d18d96753eb51ea2c1314a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:29 +0000
Subject: [PATCH 21/47] fix: quaternionToEulerAnglesZYX returned a NaN pitch
 near +/- 90 degrees

The argument of asin exceeds 1 by rounding for some unit quaternions.
---
 src/MathUtils/Geometry.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Geometry.h b/src/MathUtils/Geometry.h
index 1ad4906..57c44e9 100644
--- a/src/MathUtils/Geometry.h
+++ b/src/MathUtils/Geometry.h
@@ -15,7 +15,8 @@ namespace mathutils {
     euler_angles(0) = atan2(
         2.0 * q.w() * q.x() + 2.0 * q.y() * q.z(),
         q.w() * q.w() - q.x() * q.x() - q.y() * q.y() + q.z() * q.z());
-    euler_angles(1) = -asin(2.0 * q.x() * q.z() - 2.0 * q.w() * q.y());
+    // Rounding may push the sine of the pitch out of [-1, 1] at +/- 90 degrees.
+    euler_angles(1) = -asin(std::max(-1.0, std::min(1.0, 2.0 * q.x() * q.z() - 2.0 * q.w() * q.y())));
     euler_angles(2) = atan2(
         2.0 * q.w() * q.z() + 2.0 * q.x() * q.y(),
         q.w() * q.w() + q.x() * q.x() - q.y() * q.y() - q.z() * q.z());
-- 
2.43.0


From 7fab5d5fabb2e550a4daa3aed5590e5c2fb2ed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:29 +0000
Subject: [PATCH 22/47] fix: ConvolveNaive did not compile and Pow2(31)
 overflowed a signed integer

---
 src/MathUtils/FFT.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/MathUtils/FFT.h b/src/MathUtils/FFT.h
index 57f5681..9eba7d8 100644
--- a/src/MathUtils/FFT.h
+++ b/src/MathUtils/FFT.h
@@ -87,11 +87,15 @@ namespace mathutils {
         auto nf = f.size();
         auto ng = g.size();
 
-        auto nc = nf + g -1;
-
-
-
+        if (nf == 0 || ng == 0) return {};
 
+        std::vector<Real> out(nf + ng - 1, Real(0));
+        for (unsigned long i = 0; i < nf; i++) {
+            for (unsigned long j = 0; j < ng; j++) {
+                out[i + j] += f[i] * g[j];
+            }
+        }
+        return out;
     }
 
 
@@ -115,7 +119,7 @@ namespace mathutils {
 //    }
 
     inline unsigned int Pow2(unsigned int p) {
-        return 1 << p;
+        return 1u << p;
     }
 
 
-- 
2.43.0


From f79171d9442e88687f0e71297538effde8797426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:30 +0000
Subject: [PATCH 23/47] fix: Negate only compiled for vectors of double

---
 src/MathUtils/StdVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/StdVector.h b/src/MathUtils/StdVector.h
index d82a3d4..d9e0354 100644
--- a/src/MathUtils/StdVector.h
+++ b/src/MathUtils/StdVector.h
@@ -95,7 +95,7 @@ namespace mathutils {
 
     template <class Scalar>
     inline void Negate(std::vector<Scalar>& v) {
-        Scale(v, -1.);
+        Scale<Scalar>(v, -1);
     }
 
 }
-- 
2.43.0


From f8d82d6dbad9e2bdaa9c24cfce0c5f9c67d96326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:30 +0000
Subject: [PATCH 24/47] fix: arange did not use the requested step

arange(0, 5, 1) was {0, 1.25, 2.5, 3.75, 5}, arange(10, 12, 1) aborted.
---
 src/MathUtils/VectorGeneration.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/VectorGeneration.h b/src/MathUtils/VectorGeneration.h
index 82a220a..af85533 100644
--- a/src/MathUtils/VectorGeneration.h
+++ b/src/MathUtils/VectorGeneration.h
@@ -46,10 +46,13 @@ namespace mathutils {
         assert (start < stop);
         assert (step > 0.);
 
-        auto num = floor((stop-start)/step);
-        auto final_stop = num * step;
+        auto num = (unsigned long) ceil((stop-start)/step);
 
-        return linspace(start, final_stop, (unsigned int)num);
+        std::vector<Real> out(num);
+        for (unsigned long i=0; i<num; ++i) {
+            out[i] = start + i*step;
+        }
+        return out;
     }
 
 
-- 
2.43.0


From 5891e0b30b7bd01feaaef68d76417d56a0c7c457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:30 +0000
Subject: [PATCH 25/47] fix: changing the integration method kept the result of
 the previous one

---
 src/MathUtils/Integration1d.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Integration1d.h b/src/MathUtils/Integration1d.h
index d1e8c83..dc46fa4 100644
--- a/src/MathUtils/Integration1d.h
+++ b/src/MathUtils/Integration1d.h
@@ -60,7 +60,10 @@ namespace mathutils {
             c_DataSource = VECTOR;
         }
 
-        void SetIntegrationMethod(INTEGRATION_METHOD method) { m_IntegrationMethod = method; }
+        void SetIntegrationMethod(INTEGRATION_METHOD method) {
+            m_IntegrationMethod = method;
+            c_Computed = false;
+        }
 
         INTEGRATION_METHOD GetIntegrationMethod() const { return m_IntegrationMethod; }
 
-- 
2.43.0


From e012cb2f7395c9b34b1db899bb76b445d69ef662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:30 +0000
Subject: [PATCH 26/47] fix: Trapz could not be called with its default or a
 temporary step, nor rejected too short samples

The default argument of a non const reference never compiled; an empty sample was read out of bounds.
---
 src/MathUtils/Integration1d.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Integration1d.h b/src/MathUtils/Integration1d.h
index dc46fa4..1f58fe5 100644
--- a/src/MathUtils/Integration1d.h
+++ b/src/MathUtils/Integration1d.h
@@ -152,12 +152,14 @@ namespace mathutils {
     // =================================================================================================================
 
     template <class Scalar>
-    Scalar Trapz(const std::vector<Scalar>& y, Scalar& dx=1.) { // TODO: voir a utiliser cette fonction dans la classe ci-dessus
+    Scalar Trapz(const std::vector<Scalar>& y, const Scalar dx=1.) { // TODO: voir a utiliser cette fonction dans la classe ci-dessus
         // This is the particular case where we have a constant step size between samples
         // Simplification is worth a new implementation
 
         unsigned long N = y.size();
 
+        assert(N > 1);
+
         Scalar sum = 0.;
         for (unsigned long i = 1; i<N-1; i++) {
             sum += y[i];
-- 
2.43.0


From 0ffb9e9f6c8747b54a5ccf60d32e647286c91faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:30 +0000
Subject: [PATCH 27/47] fix: Integrate1d read out of its samples when given
 another number of points

A number of points larger than the sample (or lower than two) read out of bounds.
---
 src/MathUtils/Integration1d.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MathUtils/Integration1d.h b/src/MathUtils/Integration1d.h
index 1f58fe5..3bd7a41 100644
--- a/src/MathUtils/Integration1d.h
+++ b/src/MathUtils/Integration1d.h
@@ -56,6 +56,8 @@ namespace mathutils {
                 m_NbPoints(nbPoints),
                 c_Computed(false) {  // FIXME: pas besoin de mettre nbPoints...
 
+            assert(Y.size() == nbPoints);
+
             m_Y = Y;
             c_DataSource = VECTOR;
         }
@@ -114,6 +116,8 @@ namespace mathutils {
     template <class Scalar>
     void Integrate1d<Scalar>::ComputeTrapz() {
 
+        assert(m_NbPoints > 1);
+
         Scalar dx = (m_Xmax-m_Xmin) / Scalar(m_NbPoints-1);
 
         if (c_DataSource == FUNCTION) {
-- 
2.43.0


From 7bec8d56087f2d9c408a5a90f56df715c978123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:30 +0000
Subject: [PATCH 28/47] fix: headers that could only be included after others

Each public header now includes what it uses.
---
 src/MathUtils/BoostFunctions.h    | 4 ++++
 src/MathUtils/ChebyshevSeries1d.h | 1 +
 src/MathUtils/Check.h             | 1 +
 src/MathUtils/Complex.h           | 5 +++++
 src/MathUtils/Convolution.h       | 3 +++
 src/MathUtils/Integrand.h         | 2 ++
 src/MathUtils/Integration1d.h     | 2 ++
 src/MathUtils/Maths.h             | 2 ++
 src/MathUtils/Polynomial.h        | 2 ++
 src/MathUtils/PowerSeries1d.h     | 1 +
 src/MathUtils/StdVector.h         | 4 ++++
 11 files changed, 27 insertions(+)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index e7465c0..03e7756 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -5,6 +5,10 @@
 #ifndef MATHUTILS_BOOSTFUNCTIONS_H
 #define MATHUTILS_BOOSTFUNCTIONS_H
 
+#include <cstdlib>
+#include <iostream>
+#include "Constants.h"
+#include "Check.h"
 #include "StdVector.h"
 #include <boost/math/special_functions/bessel.hpp>
 #include <boost/math/special_functions/hankel.hpp>
diff --git a/src/MathUtils/ChebyshevSeries1d.h b/src/MathUtils/ChebyshevSeries1d.h
index 005ea8e..6043ccb 100644
--- a/src/MathUtils/ChebyshevSeries1d.h
+++ b/src/MathUtils/ChebyshevSeries1d.h
@@ -7,6 +7,7 @@
 
 #include <memory>
 #include "Matrix.h"
+#include "VectorN.h"
 #include "BoostFunctions.h"
 
 namespace mathutils {
diff --git a/src/MathUtils/Check.h b/src/MathUtils/Check.h
index fa0a2ca..b51f646 100644
--- a/src/MathUtils/Check.h
+++ b/src/MathUtils/Check.h
@@ -5,6 +5,7 @@
 #ifndef MATHUTILS_CHECK_H
 #define MATHUTILS_CHECK_H
 
+#include <cassert>
 #include <cmath>
 #include <vector>
 
diff --git a/src/MathUtils/Complex.h b/src/MathUtils/Complex.h
index e92abbd..13bd557 100644
--- a/src/MathUtils/Complex.h
+++ b/src/MathUtils/Complex.h
@@ -5,6 +5,11 @@
 #ifndef MATHUTILS_COMPLEX_H
 #define MATHUTILS_COMPLEX_H
 
+#include <cassert>
+#include <complex>
+#include <vector>
+#include "Unit.h"
+
 namespace mathutils {
 
     template <class Real_t>
diff --git a/src/MathUtils/Convolution.h b/src/MathUtils/Convolution.h
index 2d7fbd9..3353344 100644
--- a/src/MathUtils/Convolution.h
+++ b/src/MathUtils/Convolution.h
@@ -5,7 +5,10 @@
 #ifndef MATHUTILS_CONVOLUTION_H
 #define MATHUTILS_CONVOLUTION_H
 
+#include <cassert>
+#include <vector>
 #include "boost/circular_buffer.hpp"
+#include "Integration1d.h"
 //#include "matplotlibcpp.h"
 
 namespace mathutils {
diff --git a/src/MathUtils/Integrand.h b/src/MathUtils/Integrand.h
index c37d7e4..2d151e0 100644
--- a/src/MathUtils/Integrand.h
+++ b/src/MathUtils/Integrand.h
@@ -5,6 +5,8 @@
 #ifndef MATHUTILS_INTEGRAND_H
 #define MATHUTILS_INTEGRAND_H
 
+#include "Vector3d.h"
+
 namespace mathutils {
 
   /**
diff --git a/src/MathUtils/Integration1d.h b/src/MathUtils/Integration1d.h
index 3bd7a41..3339e35 100644
--- a/src/MathUtils/Integration1d.h
+++ b/src/MathUtils/Integration1d.h
@@ -5,6 +5,8 @@
 #ifndef MATHUTILS_INTEGRATION1D_H
 #define MATHUTILS_INTEGRATION1D_H
 
+#include <cassert>
+#include <stdexcept>
 #include <vector>
 
 namespace mathutils {
diff --git a/src/MathUtils/Maths.h b/src/MathUtils/Maths.h
index d14ae07..69e10a1 100644
--- a/src/MathUtils/Maths.h
+++ b/src/MathUtils/Maths.h
@@ -5,6 +5,8 @@
 #ifndef MATHUTILS_MATHS_H
 #define MATHUTILS_MATHS_H
 
+#include <cmath>
+
 namespace mathutils {
 
     template <typename T>
diff --git a/src/MathUtils/Polynomial.h b/src/MathUtils/Polynomial.h
index 7b27f27..5646bb9 100644
--- a/src/MathUtils/Polynomial.h
+++ b/src/MathUtils/Polynomial.h
@@ -5,6 +5,8 @@
 #ifndef MATHUTILS_POLYNOMIAL_H
 #define MATHUTILS_POLYNOMIAL_H
 
+#include <vector>
+
 namespace mathutils {
 
   template<typename T>
diff --git a/src/MathUtils/PowerSeries1d.h b/src/MathUtils/PowerSeries1d.h
index f4c87a5..59861a9 100644
--- a/src/MathUtils/PowerSeries1d.h
+++ b/src/MathUtils/PowerSeries1d.h
@@ -6,6 +6,7 @@
 #define MATHUTILS_POWERSERIES1D_H
 
 #include "Matrix.h"
+#include "VectorN.h"
 #include "Polynomial.h"
 #include "Functions.h"
 
diff --git a/src/MathUtils/StdVector.h b/src/MathUtils/StdVector.h
index d9e0354..ec31c1e 100644
--- a/src/MathUtils/StdVector.h
+++ b/src/MathUtils/StdVector.h
@@ -5,6 +5,10 @@
 #ifndef MATHUTILS_STDVECTOR_H
 #define MATHUTILS_STDVECTOR_H
 
+#include <cassert>
+#include <cmath>
+#include <vector>
+
 namespace mathutils {
 
     // TODO: rappatrier la fonction ZeroPad...
-- 
2.43.0


From 7f522a9de51c89a1b562c661f31d01ef81e542db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:36 +0000
Subject: [PATCH 29/47] fix: the nodes surrounding a point below the grid were
 taken at the upper end of the grid

The -1 marking a coordinate below the first abscissa was compared as an unsigned number.
---
 src/MathUtils/RegularGridNearest.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index 2bab210..3c1fe31 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -239,7 +239,7 @@ namespace mathutils {
     for (unsigned int dim = 0; dim < _dim; ++dim) {
       auto xi = point[dim];
 
-      unsigned int icell;
+      size_t icell;
 
       // Looking for the cell in which the xi point lies
       const auto &coord = m_grid_list[dim];
@@ -290,7 +290,7 @@ namespace mathutils {
     for (unsigned int i = 0; i < _dim; ++i) {
       const auto &coord = m_grid_list[i];
 
-      if (cell_index[i] < 0) {
+      if (cell_index[i] == size_t(-1)) {  // below the grid
         indices[i] = 0;
       } else if (cell_index[i] >= coord.size() - 1) {
         indices[i] = m_grid_list[i].size() - 1;
-- 
2.43.0


From d031fdcf20b7e676336a36a5802bd4415c58a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:36 +0000
Subject: [PATCH 30/47] fix: RegularGridNearest::GetData returned no value

---
 src/MathUtils/RegularGridNearest.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index 3c1fe31..b2a56eb 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -179,7 +179,7 @@ namespace mathutils {
   template<typename Data_t, size_t _dim, typename Coord_t>
   Data_t
   RegularGridNearest<Data_t, _dim, Coord_t>::GetData(const std::array<Coord_t, _dim> &point) const {
-
+    return Nearest(point).val();
   }
 
 
-- 
2.43.0


From 49dbe3bfd46222db18345d4eea655d06c8c569c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:36 +0000
Subject: [PATCH 31/47] fix: RegularGridNearest::IsValid answered true before
 any data was given

---
 src/MathUtils/RegularGridNearest.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index b2a56eb..3258bd5 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -266,7 +266,7 @@ namespace mathutils {
 
   template<typename Data_t, size_t _dim, typename Coord_t>
   bool RegularGridNearest<Data_t, _dim, Coord_t>::IsValid() const {
-    return true;
+    return m_data.num_elements() != 0;
   }
 
   template<typename Data_t, size_t _dim, typename Coord_t>
-- 
2.43.0


From dd488d03da8b5729f264c5abc1b34728a0f8f6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:36 +0000
Subject: [PATCH 32/47] fix: RegularGridNearest accepted unordered coordinates,
 for which its searches are meaningless

Same check as RegularGridInterpolator.
---
 src/MathUtils/RegularGridNearest.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index 3258bd5..709d044 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -8,6 +8,8 @@
 #include <vector>
 #include <array>
 #include <memory>
+#include <algorithm>
+#include <stdexcept>
 #include <iostream>
 #include <boost/multi_array.hpp>
 
@@ -122,6 +124,14 @@ namespace mathutils {
       std::cerr << "Attempting to add too much dimension to the interpolator" << std::endl;
       exit(EXIT_FAILURE);
     }
+
+    // Check if coord is monoton increasing
+    for (size_t i = 1; i < vec.size(); ++i) {
+      if (vec[i] <= vec[i-1]) {
+        throw std::runtime_error("RegularGridNearest only accepts stricly monotonically increasing vectors as grid");
+      }
+    }
+
     m_grid_list.push_back(vec);
   }
 
-- 
2.43.0


From 2ba1ad6122d7ca74a56ffa8487bb380cb7c39f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:36 +0000
Subject: [PATCH 33/47] fix: the regular grids accepted data that does not have
 the shape of the grid

Nodes were then read out of the bounds of the data.
---
 src/MathUtils/RegularGridInterpolator.h | 9 +++++++++
 src/MathUtils/RegularGridNearest.h      | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/src/MathUtils/RegularGridInterpolator.h b/src/MathUtils/RegularGridInterpolator.h
index 9635b18..901885f 100644
--- a/src/MathUtils/RegularGridInterpolator.h
+++ b/src/MathUtils/RegularGridInterpolator.h
@@ -7,6 +7,8 @@
 
 #include <vector>
 #include <array>
+#include <iostream>
+#include <stdexcept>
 #include <memory>
 #include <utility>
 #include "thirdparty/linterp.h"
@@ -148,6 +150,13 @@ void RegularGridInterpolator<Real, _dim>::AddVar(const NDArray &ndarray) {
     exit(EXIT_FAILURE);
   }
 
+  // Verifying that the data matches the grid
+  for (size_t dim = 0; dim < _dim; ++dim) {
+    if (ndarray.shape()[dim] != m_grid_list[dim].size()) {
+      throw std::runtime_error("RegularGridInterpolator data does not have the shape of the grid");
+    }
+  }
+
   // Copying the multi_array
   std::vector<size_t> ex;
   const size_t *shape = ndarray.shape();
diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index 709d044..01ced63 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -143,6 +143,13 @@ namespace mathutils {
       exit(EXIT_FAILURE);
     }
 
+    // Verifying that the data matches the grid
+    for (size_t dim = 0; dim < _dim; ++dim) {
+      if (ndarray.shape()[dim] != m_grid_list[dim].size()) {
+        throw std::runtime_error("RegularGridNearest data does not have the shape of the grid");
+      }
+    }
+
     // Copying the multi_array
     std::vector<size_t> ex;
     const size_t *shape = ndarray.shape();
-- 
2.43.0


From 20281499823f6f406e390893546badba6fdf0325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:36 +0000
Subject: [PATCH 34/47] fix: copying a RegularGridInterpolator not filled yet
 read out of bounds

---
 src/MathUtils/RegularGridInterpolator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/RegularGridInterpolator.h b/src/MathUtils/RegularGridInterpolator.h
index 901885f..0f2bb85 100644
--- a/src/MathUtils/RegularGridInterpolator.h
+++ b/src/MathUtils/RegularGridInterpolator.h
@@ -120,7 +120,11 @@ RegularGridInterpolator<Real, _dim>::operator=(const RegularGridInterpolator &ot
   m_data.resize(ex);
   m_data = other.m_data;
 
-  _BuildInterpolator();
+  if (other.IsValid()) {
+    _BuildInterpolator();
+  } else {
+    c_interpolator.reset();
+  }
   return *this;
 }
 
-- 
2.43.0


From 41a35c181f3a62ee43a2023a4fe35b261ec7dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:33 +0000
Subject: [PATCH 35/47] fix: Dirac uses the floating-point absolute value

Unqualified abs resolved to the integer abs when Functions.h was included
without a header declaring the other overloads in the global namespace, so
every sample closer than one unit to the impulse was set.
---
 src/MathUtils/Functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Functions.h b/src/MathUtils/Functions.h
index c1e431c..9108b16 100644
--- a/src/MathUtils/Functions.h
+++ b/src/MathUtils/Functions.h
@@ -65,7 +65,7 @@ namespace mathutils {
 
       std::vector<Real> out(n);
       for (unsigned long i=0; i<n; i++) {
-          if (abs(x[i] - x_impulse) < dx_2) { // FIXME: le critere n'est pas robuste
+          if (std::abs(x[i] - x_impulse) < dx_2) { // FIXME: le critere n'est pas robuste
               out[i] = height;
           } else {
               out[i] = 0.;
-- 
2.43.0


From 1b1c01e56c1ba6ecafeb5b1c74f1273c1d1b7920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:54 +0000
Subject: [PATCH 36/47] fix: FFT of a single sample or an empty signal
 dereferenced a null pointer

---
 src/MathUtils/FFT.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/FFT.h b/src/MathUtils/FFT.h
index 9eba7d8..a652994 100644
--- a/src/MathUtils/FFT.h
+++ b/src/MathUtils/FFT.h
@@ -20,6 +20,10 @@ namespace mathutils {
         // TODO: voir pour un zero padding auto ?
         void fft(std::vector<std::complex<Scalar>>& freqVector, const std::vector<Scalar>& vector) {
             // TODO: voir le comportement si on ne donne pas vector en puissance de 2...
+            if (vector.size() < 2) { // Not handled by Eigen: the transform of a single sample is itself.
+                freqVector.assign(vector.begin(), vector.end());
+                return;
+            }
             this->fwd(freqVector, vector);
         }
 
@@ -27,11 +31,16 @@ namespace mathutils {
                  const std::vector<Scalar>& vector, const Scalar sampleFrequency, FREQUENCY_UNIT frequencyUnit=HERTZ) {
             // TODO: voir le comportement si on ne donne pas vector en puissance de 2...
             // TODO: fournir plutot le vecteur temps et e deduire directement la frequence d'echantilonnage
-            this->fwd(freqVector, vector);
+            fft(freqVector, vector);
             frequencies = GetFrequencyVector((unsigned int)vector.size(), sampleFrequency, frequencyUnit);
         }
 
         void ifft(std::vector<Scalar>& vector, const std::vector<std::complex<Scalar>>& freqVector) {
+            if (freqVector.size() < 2) { // Not handled by Eigen: the transform of a single sample is itself.
+                vector.resize(freqVector.size());
+                if (!freqVector.empty()) vector[0] = freqVector[0].real();
+                return;
+            }
             this->inv(vector, freqVector);
         }
 
-- 
2.43.0


From 83aa334b3ee7f3dad068e9ffa49e36fe26ec9f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:45 +0000
Subject: [PATCH 37/47] fix: a coefficient of Ei_approximation for 6 <= x < 12
 had a wrong digit

---
 src/MathUtils/BoostFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index 03e7756..f135cfd 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -293,7 +293,7 @@ namespace mathutils {
                                     1.052976392459015155422e1,
                                     -2.421106956980653511550e1,
                                     -2.378372882815725244124e0,
-                                    -2.645977793077147237806e0};
+                                    -2.645677793077147237806e0};
       std::vector<double> betaj = {1.249884822712447891440e0,
                                    -2.369210235636181001661e2,
                                    4.731097187816050252967e2,
-- 
2.43.0


From f767b13554b529fe929ad50a33a3337c76d9629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:45 +0000
Subject: [PATCH 38/47] fix: a coefficient of E1_approximation for 1 <= x < 4
 missed a digit

---
 src/MathUtils/BoostFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index f135cfd..269276f 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -492,7 +492,7 @@ namespace mathutils {
                                 1.698106763764238382705e2,
                                 1.700632978311516129328e2,
                                 7.246689782858597021199e1,
-                                1.10732662778631743809e1,
+                                1.107326627786831743809e1,
                                 3.828573121022477169108e-1};
       std::vector<double> qj = {1.000000000000000000000e0,
                                 1.587964570758947927903e1,
-- 
2.43.0


From 8bae5cdc26161c7d8dd333ace3d46b6bdd47b588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:45 +0000
Subject: [PATCH 39/47] fix: a coefficient of E1_approximation for x >= 4 had a
 wrong digit

---
 src/MathUtils/BoostFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index 269276f..f13bc85 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -538,7 +538,7 @@ namespace mathutils {
                                 2.7858134710520842139357e5,
                                 5.4616842050691155735758e5,
                                 5.5903756210022864003380e5,
-                                5.5989762083608489777411e5,
+                                2.5989762083608489777411e5,
                                 3.9147856245556345627078e4};
       assert (pj.size() == qj.size());
 
-- 
2.43.0


From 1653ac20635e1187295737a28afdc964f315ed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:29 +0000
Subject: [PATCH 40/47] fix: a coefficient of E1_approximation for 1 <= x < 4
 had transposed digits

---
 src/MathUtils/BoostFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index f13bc85..dadd159 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -488,7 +488,7 @@ namespace mathutils {
       std::vector<double> pj = {1.737331760720576030932e-8,
                                 9.999989642347613068437e-1,
                                 1.487967702840464066613e1,
-                                7.633628873405946890896e1,
+                                7.633628843705946890896e1,
                                 1.698106763764238382705e2,
                                 1.700632978311516129328e2,
                                 7.246689782858597021199e1,
-- 
2.43.0


From c2f627239d17d3fcd593ab1e70170bee5cd255a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:29 +0000
Subject: [PATCH 41/47] fix: another coefficient of E1_approximation for x >= 4
 had a wrong digit

---
 src/MathUtils/BoostFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index dadd159..1c29001 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -534,7 +534,7 @@ namespace mathutils {
                                 5.4199632588522559414924e1,
                                 1.1635769915320848035459e3,
                                 1.2842808586627297365998e4,
-                                7.9231787645279043698718e4,
+                                7.9231787945279043698718e4,
                                 2.7858134710520842139357e5,
                                 5.4616842050691155735758e5,
                                 5.5903756210022864003380e5,
-- 
2.43.0


From 58651b2fc003d4765fc1c54266e7c291ff660c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:59 +0000
Subject: [PATCH 42/47] fix: the derivatives of the Bessel functions J and I
 were not a number at zero

---
 src/MathUtils/BoostFunctions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index 1c29001..f359f63 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -35,7 +35,7 @@ namespace mathutils {
     if(order == 0) {
       return -boost::math::cyl_bessel_j(1, x); // J0' = -J1.
     } else {
-      return boost::math::cyl_bessel_j(order - 1, x) - (order / x) * boost::math::cyl_bessel_j(order, x);
+      return 0.5 * (boost::math::cyl_bessel_j(order - 1, x) - boost::math::cyl_bessel_j(order + 1, x)); // Also defined at x = 0.
     }
   }
 
@@ -67,7 +67,7 @@ namespace mathutils {
     if(order == 0) {
       return boost::math::cyl_bessel_i(1, x); // I0' = I1.
     } else {
-      return boost::math::cyl_bessel_i(order - 1, x) - (order / x) * boost::math::cyl_bessel_i(order, x);
+      return 0.5 * (boost::math::cyl_bessel_i(order - 1, x) + boost::math::cyl_bessel_i(order + 1, x)); // Also defined at x = 0.
     }
   }
 
-- 
2.43.0


From e1bb582560a7e23b93aaf1280c82049e30931564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:56 +0000
Subject: [PATCH 43/47] fix: Constants.h did not include <complex>, which MU_JJ
 needs

---
 src/MathUtils/Constants.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MathUtils/Constants.h b/src/MathUtils/Constants.h
index 1407388..f2a9048 100644
--- a/src/MathUtils/Constants.h
+++ b/src/MathUtils/Constants.h
@@ -6,6 +6,7 @@
 #define MATHUTILS_CONSTANTS_H
 
 #include <cmath>
+#include <complex>
 
 #ifndef M_PI
     #define M_PI       3.14159265358979323846
-- 
2.43.0


From 510852340dc3f8e86b8800050a1151e3bcf44656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:56 +0000
Subject: [PATCH 44/47] fix: Eigenvalues() of the matrix types did not compile
 for float matrices

---
 src/MathUtils/Matrix.h   | 2 +-
 src/MathUtils/Matrix33.h | 2 +-
 src/MathUtils/Matrix66.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/Matrix.h b/src/MathUtils/Matrix.h
index e6ae19b..259bac0 100644
--- a/src/MathUtils/Matrix.h
+++ b/src/MathUtils/Matrix.h
@@ -538,7 +538,7 @@ namespace mathutils {
         assert(this->GetNbRows() == this->GetNbCols());
 
         // Object to computing eigenvalues and eigenvectors.
-        Eigen::EigenSolver<Eigen::MatrixXd> es(*this, false);
+        Eigen::EigenSolver<Eigen::MatrixXd> es(this->template cast<double>(), false);
 
         return MatrixMN<std::complex<double>>(es.eigenvalues());
 
diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index bb58161..6da9ca9 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -419,7 +419,7 @@ namespace mathutils {
       assert(this->GetNbRows() == this->GetNbCols());
 
       // Object to computing eigenvalues and eigenvectors.
-      Eigen::EigenSolver<Eigen::MatrixXd> es(*this, false);
+      Eigen::EigenSolver<Eigen::MatrixXd> es(this->template cast<double>(), false);
 
       return Eigen::Matrix<std::complex<double>, 3, 1>(es.eigenvalues());
 
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index db677c9..c584c35 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -417,7 +417,7 @@ namespace mathutils {
     assert(this->GetNbRows() == this->GetNbCols());
 
     // Object to computing eigenvalues and eigenvectors.
-    Eigen::EigenSolver<Eigen::MatrixXd> es(*this, false);
+    Eigen::EigenSolver<Eigen::MatrixXd> es(this->template cast<double>(), false);
 
     return Eigen::Matrix<std::complex<double>, 6, 1>(es.eigenvalues());
 
-- 
2.43.0


From eaeee89c62028f802edfa9119cc9305027ac7cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:20 +0000
Subject: [PATCH 45/47] fix: Ramp read the first and last elements of an empty
 vector

---
 src/MathUtils/Functions.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MathUtils/Functions.h b/src/MathUtils/Functions.h
index 9108b16..25aadc0 100644
--- a/src/MathUtils/Functions.h
+++ b/src/MathUtils/Functions.h
@@ -81,6 +81,7 @@ namespace mathutils {
 
       unsigned long n = x.size();
 
+      assert(n > 0);
       assert(x_min <= x_max);
       assert(x_min >= x[0] && x_max <= x[n-1]);
 
-- 
2.43.0


From e9669f226e5a7c26678fe5d761bc6d9086eeb7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:20 +0000
Subject: [PATCH 46/47] fix: triangle quadrature read its result before setting
 it

---
 src/MathUtils/Integration2dTriangle.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/MathUtils/Integration2dTriangle.h b/src/MathUtils/Integration2dTriangle.h
index 73f2934..698f96f 100644
--- a/src/MathUtils/Integration2dTriangle.h
+++ b/src/MathUtils/Integration2dTriangle.h
@@ -145,8 +145,7 @@ namespace mathutils {
       std::vector<double> weight = this->m_tables->weight(this->m_order);
 
       // Computation of the 2d integration.
-      T result;
-      result *= 0; // This works for scalars, vectors and matrices.
+      T result; // Set by the first Gauss point, this works for scalars, vectors and matrices.
       for (unsigned int i = 0; i < weight.size(); i++) {
 
         // Position of the Gauss points.
-- 
2.43.0


From e3e2040459417ac849349472f69711f4c1c3ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:19 +0000
Subject: [PATCH 47/47] fix: Dirac read the second abscissa of a vector holding
 fewer than two

---
 src/MathUtils/Functions.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MathUtils/Functions.h b/src/MathUtils/Functions.h
index 25aadc0..592a466 100644
--- a/src/MathUtils/Functions.h
+++ b/src/MathUtils/Functions.h
@@ -61,6 +61,8 @@ namespace mathutils {
   std::vector<Real> Dirac(const std::vector<Real>& x, const Real x_impulse, const Real height=1.) {
       unsigned long n = x.size();
 
+      assert(n > 1);
+
       Real dx_2 = 0.5 * (x[1] - x[0]);
 
       std::vector<Real> out(n);
-- 
2.43.0

