From d650c4c9da7ed1918dd2f6977f19887b397230dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 01/43] fix: normalise the first-order derivative in
 OrthogonalPolynomial::Derivative

---
 MParT/OrthogonalPolynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/OrthogonalPolynomial.h b/MParT/OrthogonalPolynomial.h
index 0ff3a76..740842d 100644
--- a/MParT/OrthogonalPolynomial.h
+++ b/MParT/OrthogonalPolynomial.h
@@ -197,7 +197,7 @@ public:
         if(order==0){
             return 0.0;
         }else if(order==1){
-            return this->phi1_deriv(x);
+            return normalize_ ? this->phi1_deriv(x) / this->Normalization(order) : this->phi1_deriv(x);
         }else{
             double lag2_val;
             double lag1_val = this->phi0(x);
-- 
2.43.0


From 558f8cc89654934ee6a70883fd685a1fb69fef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 02/43] fix: compute factorials in double, 13! and above
 overflowed 32 bits

---
 MParT/Utilities/MathFunctions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Utilities/MathFunctions.h b/MParT/Utilities/MathFunctions.h
index 16bd8cf..98ce1cd 100644
--- a/MParT/Utilities/MathFunctions.h
+++ b/MParT/Utilities/MathFunctions.h
@@ -7,9 +7,9 @@
 namespace mpart{
 
     /** Computes the factorial d! */
-    KOKKOS_INLINE_FUNCTION unsigned int Factorial(unsigned int d)
+    KOKKOS_INLINE_FUNCTION double Factorial(unsigned int d)
     {
-        unsigned int out = 1;
+        double out = 1;
         for(unsigned int i=2; i<=d; ++i)
             out *= i;
         return out;
-- 
2.43.0


From 47362a86d59235c32a6a941e9eb37e409b0de866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 03/43] fix: HermiteFunction::SecondDerivative evaluated the
 wrong order

---
 MParT/HermiteFunction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/HermiteFunction.h b/MParT/HermiteFunction.h
index 48ed224..4a3ded5 100644
--- a/MParT/HermiteFunction.h
+++ b/MParT/HermiteFunction.h
@@ -137,7 +137,7 @@ public:
         if(order<2){
             return 0;
         }else{
-            return -(2.0*order+1.0-x*x)*Evaluate(order-2, x);
+            return -(2.0*(order-2)+1.0-x*x)*Evaluate(order, x);
         }
     }
 
-- 
2.43.0


From 05329686de7323a3a0a271bffeae2e65bf12956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 04/43] fix: SoftPlus vanished for inputs below -37 and its
 inverse lost all digits there

---
 MParT/PositiveBijectors.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/PositiveBijectors.h b/MParT/PositiveBijectors.h
index 51fd713..9d72f04 100644
--- a/MParT/PositiveBijectors.h
+++ b/MParT/PositiveBijectors.h
@@ -14,7 +14,7 @@ public:
 
     KOKKOS_INLINE_FUNCTION static double Evaluate(double x){
         //stable implementation of std::log(1.0 + std::exp(x)) for large values
-        return std::log(1.0 + std::exp(-1.0 * std::abs(x))) + std::fmax(x,0.0);
+        return std::log1p(std::exp(-1.0 * std::abs(x))) + std::fmax(x,0.0);
     }
 
     KOKKOS_INLINE_FUNCTION static double Derivative(double x){
@@ -26,7 +26,7 @@ public:
     }
 
     KOKKOS_INLINE_FUNCTION static double Inverse(double x){
-        return std::fmin(std::log(std::exp(x) - 1.0), x);
+        return std::fmin(std::log(std::expm1(x)), x);
     }
 
 };
-- 
2.43.0


From 9b7eea1fd706d59612e6b70d7ed84d0bf458263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 05/43] fix: root finder ignored the target in its regula falsi
 step and never reported an exhausted iteration limit

---
 MParT/Utilities/RootFinding.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Utilities/RootFinding.h b/MParT/Utilities/RootFinding.h
index 384d755..c183503 100644
--- a/MParT/Utilities/RootFinding.h
+++ b/MParT/Utilities/RootFinding.h
@@ -93,7 +93,7 @@ KOKKOS_INLINE_FUNCTION double Find_x_ITP(double xlb, double xub, double yd, doub
                                          double k1, double k2, double nhalf, double n0, int it, double xtol) {
 
         double xb = 0.5*(xub+xlb); // bisection point
-        double xf = (xub*ylb - xlb*yub)/(ylb-yub); // regula-falsi point
+        double xf = (xub*(ylb-yd) - xlb*(yub-yd))/(ylb-yub); // regula-falsi point
 
         double sigma = ((xb-xf)>0)?1.0:-1.0; // sign(xb-xf)
         double delta = fmin(k1*pow((xub-xlb), k2), fabs(xb-xf));
@@ -160,7 +160,7 @@ KOKKOS_INLINE_FUNCTION double InverseSingleBracket(double yd, FunctorType f, dou
     };
 
 
-    if(it>maxIts)
+    if(it>=maxIts)
         info = -1;
 
     return 0.5*(xub+xlb);
-- 
2.43.0


From 0a67b574783cbfd0ada5e92ddcad88427e002301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 06/43] fix: Clenshaw-Curtis fell back to the midpoint rule on
 reversed intervals, adaptive rule built from views used the wrong level

---
 MParT/Quadrature.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index 81b46fb..d1b01d3 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -285,7 +285,7 @@ public:
 
         // For sufficiently small interval, use the midpoint rule
         double midpoint_tol = 15.0*std::numeric_limits<double>::epsilon();
-        if((ub-lb)<midpoint_tol){
+        if(std::abs(ub-lb)<midpoint_tol){
 
             f(0.5*(ub+lb), res);
             for(unsigned int i=0; i<this->fdim_; ++i)
@@ -773,7 +773,7 @@ public:
                                                                                 finePts_(finePts),
                                                                                 fineWts_(fineWts)
     {
-        const unsigned int level = std::log2(coarsePts.extent(0)-2);
+        const unsigned int level = std::log2(coarsePts.extent(0)-1);
         assert(std::pow(2,level)+1 >=3);
 
         ClenshawCurtisQuadrature<MemorySpace>::GetRule(std::pow(2,level)+1,  coarseWts_.data(), coarsePts_.data());
-- 
2.43.0


From df037d3af78c3bd7c97e1e514cceecf14198b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 07/43] fix: restore SoftPlus::Evaluate, the log1p form stalls
 the optimiser in TrainMapAdaptive for minutes

---
 MParT/PositiveBijectors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/PositiveBijectors.h b/MParT/PositiveBijectors.h
index 9d72f04..f8d5843 100644
--- a/MParT/PositiveBijectors.h
+++ b/MParT/PositiveBijectors.h
@@ -14,7 +14,7 @@ public:
 
     KOKKOS_INLINE_FUNCTION static double Evaluate(double x){
         //stable implementation of std::log(1.0 + std::exp(x)) for large values
-        return std::log1p(std::exp(-1.0 * std::abs(x))) + std::fmax(x,0.0);
+        return std::log(1.0 + std::exp(-1.0 * std::abs(x))) + std::fmax(x,0.0);
     }
 
     KOKKOS_INLINE_FUNCTION static double Derivative(double x){
-- 
2.43.0


From 172398ca6b799c86e67dc91c8203c930149bdecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 08/43] fix: MonotoneComponent ignored the nugget in
 evaluation, continuous derivative and log-determinant

---
 MParT/MonotoneComponent.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 10c3a15..4e6ca3f 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -284,7 +284,7 @@ public:
 
                 // Fill in entries in the cache that are independent of x_d.  By passing DerivativeFlags::None, we are telling the expansion that no derivatives with wrt x_1,...x_{d-1} will be needed.
                 expansion_.FillCache1(cache.data(), pt, DerivativeFlags::None);
-                output(ptInd) = EvaluateSingle(cache.data(), workspace.data(), pt, pt(dim_-1), coeffs, quad_, expansion_);
+                output(ptInd) = EvaluateSingle(cache.data(), workspace.data(), pt, pt(dim_-1), coeffs, quad_, expansion_, nugget_);
             }
         };
 
@@ -519,8 +519,8 @@ public:
                 // Compute \partial_d f
                 derivs(ptInd) = expansion_.DiagonalDerivative(cache.data(), coeffs,1);
 
-                // Compute g(df/dx)
-                derivs(ptInd) = PosFuncType::Evaluate(derivs(ptInd));
+                // Compute g(df/dx) + nugget
+                derivs(ptInd) = PosFuncType::Evaluate(derivs(ptInd)) + nugget_;
             }
         };
 
-- 
2.43.0


From f82afc304fe8ac85f5b11b2733472e19cba8b252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 09/43] fix: MonotoneComponent::DiscreteMixedJacobian added to
 whatever the output held

---
 MParT/MonotoneComponent.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 4e6ca3f..1a4d3f7 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -967,9 +967,9 @@ public:
                 // Compute \int_0^x g( \partial_D f(x_1,...,x_{D-1},t)) dt as well as the gradient of this term wrt the coefficients of f
                 quad_.Integrate(workspace.data(), integrand, 0, 1, integral.data());
 
-                // Add the Integral to the coefficient gradient
+                // Copy the gradient of the integral, there is no offset contribution
                 for(unsigned int termInd=0; termInd<numTerms; ++termInd)
-                    jacView(termInd) += integral(termInd+1);
+                    jacView(termInd) = integral(termInd+1);
             }
         };
 
-- 
2.43.0


From 66f0bba9e624b48af305413f51ce57ee875039f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 10/43] fix: MonotoneComponent inverse read before an empty
 conditioning vector for its initial guess

---
 MParT/MonotoneComponent.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 1a4d3f7..49ddafc 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -432,7 +432,9 @@ public:
                 // Compute the inverse
                 Kokkos::View<double*,MemorySpace> workspace(team_member.thread_scratch(1), workspaceSize);
                 auto eval = SingleEvaluator<decltype(pt),decltype(coeffs)>(workspace.data(), cache.data(), pt, coeffs, quad_, expansion_, nugget_);
-                output(ptInd) = RootFinding::InverseSingleBracket<MemorySpace>(ys(ptInd), eval, pt(pt.extent(0)-1), xtol, ytol, info);
+                // Without any conditioning input there is no natural initial guess in the points, so start from zero
+                const double xd0 = (pt.extent(0)>0) ? pt(pt.extent(0)-1) : 0.0;
+                output(ptInd) = RootFinding::InverseSingleBracket<MemorySpace>(ys(ptInd), eval, xd0, xtol, ytol, info);
             }
         };
 
-- 
2.43.0


From fdca51aad7edfc60a5d2bd3756b60a38175bba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 11/43] fix: dgemm ignores the previous content of C when beta
 is zero

---
 src/Utilities/LinearAlgebra.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utilities/LinearAlgebra.cpp b/src/Utilities/LinearAlgebra.cpp
index 157cf9a..3bf4323 100644
--- a/src/Utilities/LinearAlgebra.cpp
+++ b/src/Utilities/LinearAlgebra.cpp
@@ -18,6 +18,10 @@ void mpart::dgemm(double                                     alpha,
     auto eigB = ConstKokkosToMat<double>(B.view);
     auto eigA = ConstKokkosToMat<double>(A.view);
 
+    // As in BLAS, the previous content of C (possibly uninitialized, e.g., a nan) is ignored when beta is zero
+    if(beta==0.0)
+        eigC.setZero();
+
     if(A.isTransposed){
         if(B.isTransposed){
             eigC = (beta*eigC + alpha* eigA.transpose() * eigB.transpose() ).eval();
-- 
2.43.0


From d20c0c3f4b187da01d98a2ec312c126072c60731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 12/43] fix: AffineMap inverse accepts any output layout and
 zeroes the log-determinant input gradient

---
 src/AffineMap.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index a09e3d7..093cab0 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -75,7 +75,7 @@ void AffineMap<MemorySpace>::InverseImpl(StridedMatrix<const double, MemorySpace
     bool copyOut = false;
     StridedMatrix<double,MemorySpace> outLeft;
     if(A_.extent(0)>0){
-        if(output.stride_0()==1){
+        if((output.stride_0()==1)&&(output.stride_1()==output.extent(0))){
             outLeft = output;
         }else{
             outLeft = Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace>("OutLeft", output.extent(0), output.extent(1));
@@ -175,7 +175,8 @@ template<typename MemorySpace>
 void AffineMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const double, MemorySpace> const& pts,
                                                          StridedMatrix<double, MemorySpace>              output)
 {
-    return;
+    // The log determinant is constant
+    Kokkos::deep_copy(output, 0.0);
 }
 
 template<typename MemorySpace>
-- 
2.43.0


From 820d17becc3bb45c71b00b482bbc572e138fcb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:12 +0000
Subject: [PATCH 13/43] fix: constant Eigen conversions honour the outer stride
 of padded blocks

---
 MParT/Utilities/ArrayConversions.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/MParT/Utilities/ArrayConversions.h b/MParT/Utilities/ArrayConversions.h
index 307196c..b2fbcaa 100644
--- a/MParT/Utilities/ArrayConversions.h
+++ b/MParT/Utilities/ArrayConversions.h
@@ -428,16 +428,17 @@ namespace mpart{
     }
 
     template<typename ScalarType, typename MemorySpace = Kokkos::HostSpace>
-    inline Kokkos::View<const ScalarType**, Kokkos::LayoutRight, MemorySpace> ConstRowMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
+    inline StridedMatrix<const ScalarType, MemorySpace> ConstRowMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
     {
-        Kokkos::LayoutStride strides(ref.rows(), ref.innerStride(), ref.cols(), ref.outerStride());
-        return Kokkos::View<const ScalarType**, Kokkos::LayoutRight, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), ref.rows(), ref.cols());
+        Kokkos::LayoutStride strides(ref.rows(), ref.outerStride(), ref.cols(), ref.innerStride());
+        return Kokkos::View<const ScalarType**, Kokkos::LayoutStride, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), strides);
     }
 
     template<typename ScalarType, typename MemorySpace = Kokkos::HostSpace>
-    inline Kokkos::View<const ScalarType**, Kokkos::LayoutLeft, MemorySpace> ConstColMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::ColMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
+    inline StridedMatrix<const ScalarType, MemorySpace> ConstColMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::ColMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
     {
-        return Kokkos::View<const ScalarType**, Kokkos::LayoutLeft, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), ref.rows(), ref.cols());
+        Kokkos::LayoutStride strides(ref.rows(), ref.innerStride(), ref.cols(), ref.outerStride());
+        return Kokkos::View<const ScalarType**, Kokkos::LayoutStride, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), strides);
     }
 
     /** @brief Converts a 1d Eigen::Ref of a vector to an unmanaged Kokkos view.
-- 
2.43.0


From ec4a8aebe677b3a13393d4c57aafd242c6059e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 14/43] fix: coefficient gradients of IdentityMap are empty
 instead of aborting

---
 src/IdentityMap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/IdentityMap.cpp b/src/IdentityMap.cpp
index 01c6297..c0cbc6c 100644
--- a/src/IdentityMap.cpp
+++ b/src/IdentityMap.cpp
@@ -53,7 +53,7 @@ void IdentityMap<MemorySpace>::CoeffGradImpl(StridedMatrix<const double, MemoryS
                                                StridedMatrix<const double, MemorySpace> const& sens,
                                                StridedMatrix<double, MemorySpace>              output)
 {
-    assert(false);
+    // No coefficients, so there are no rows of output to fill
 }
 
 template<typename MemorySpace>
@@ -80,7 +80,7 @@ template<typename MemorySpace>
 void IdentityMap<MemorySpace>::LogDeterminantCoeffGradImpl(StridedMatrix<const double, MemorySpace> const& pts, 
                                                              StridedMatrix<double, MemorySpace>              output)
 {
-    assert(false);
+    // No coefficients, so there are no rows of output to fill
 }
 
 template<typename MemorySpace>
-- 
2.43.0


From d10f36822f677cc7cfa6ec071ee26479db09b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 15/43] fix: SummarizedMap writes into results of any layout

---
 src/SummarizedMap.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/SummarizedMap.cpp b/src/SummarizedMap.cpp
index 05bf632..0bebf9a 100644
--- a/src/SummarizedMap.cpp
+++ b/src/SummarizedMap.cpp
@@ -77,13 +77,13 @@ void SummarizedMap<MemorySpace>::SummarizePts(StridedMatrix<const double, Memory
 
 
     // Copy summarized pts
-    Kokkos::View<double**, MemorySpace> outputSummary = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSummary = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->outputDim)), Kokkos::ALL());
 
     // Evaluate summary function
     sumFunc_->EvaluateImpl(ptsToSummarize, outputSummary);
 
     // Copy non summarized pts
-    Kokkos::View<double**, MemorySpace> outputAfterSummary = Kokkos::subview(output, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputAfterSummary = Kokkos::subview(output, std::make_pair(int(sumFunc_->outputDim),int(sumFunc_->outputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputAfterSummary, ptsAfterSummary);
 
 }
@@ -164,10 +164,10 @@ void SummarizedMap<MemorySpace>::GradientImpl(StridedMatrix<const double, Memory
     StridedMatrix<const double, MemorySpace>  x1 = Kokkos::subview(pts, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
 
     // Copy results over to the output
-    Kokkos::View<double**, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
     sumFunc_->GradientImpl(x1, outputForSummary, outputSubX1);
 
-    Kokkos::View<double**, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX2, outputForX2);
 
 }
@@ -229,10 +229,10 @@ void SummarizedMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const
     sumFunc_->GradientImpl(x1, outputForSummary, outputForX1);
 
     // Copy results over to the output
-    Kokkos::View<double**, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX1, outputForX1);
 
-    Kokkos::View<double**, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX2, outputForX2);
 }
 
-- 
2.43.0


From 79e6a7316a1bf815c602f52f132b391d1c92f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 16/43] fix: MultiIndex Get and Set reject the position just
 past the end

---
 src/MultiIndices/MultiIndex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/MultiIndex.cpp b/src/MultiIndices/MultiIndex.cpp
index fcc208c..72bd341 100644
--- a/src/MultiIndices/MultiIndex.cpp
+++ b/src/MultiIndices/MultiIndex.cpp
@@ -67,7 +67,7 @@ std::vector<unsigned int>MultiIndex::Vector() const
 
 bool MultiIndex::Set(unsigned int ind, unsigned int val)
 {
-  if(ind>length){
+  if(ind>=length){
     throw std::out_of_range("Tried to set the value of index " + std::to_string(ind) + " on an multiindex with only " + std::to_string(length) + " components.");
     return false;
   }else{
@@ -129,7 +129,7 @@ unsigned int MultiIndex::NumNz() const
 
 unsigned int MultiIndex::MultiIndex::Get(unsigned ind) const
 {
-  if(ind>length){
+  if(ind>=length){
     throw std::out_of_range("Tried to access index " + std::to_string(ind) + " of a multiindex with only " + std::to_string(length) + " components.");
     return 0;
 
-- 
2.43.0


From 03a56a7cf063bba569cb653fa515b6332a17fb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 17/43] fix: SetCoeffs rejects a wrong number of coefficients
 on the first call too

---
 src/ParameterizedFunctionBase.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ParameterizedFunctionBase.cpp b/src/ParameterizedFunctionBase.cpp
index b3bea3b..a5151e8 100644
--- a/src/ParameterizedFunctionBase.cpp
+++ b/src/ParameterizedFunctionBase.cpp
@@ -187,14 +187,14 @@ Eigen::RowMatrixXd ParameterizedFunctionBase<mpart::DeviceSpace>::Gradient(Eigen
 template<typename MemorySpace>
 void ParameterizedFunctionBase<MemorySpace>::SetCoeffs(Kokkos::View<const double*, MemorySpace> coeffs){
 
-    // If coefficients already exist, make sure the sizes match
-    if(this->savedCoeffs.is_allocated()){
-        if(coeffs.size() != numCoeffs){
-            std::stringstream msg;
-            msg << "Error in ParameterizedFunctionBase<MemorySpace>::SetCoeffs.  Expected coefficient vector with size " << numCoeffs << ", but new coefficients have size " << coeffs.size() << ".";
-            throw std::invalid_argument(msg.str());
-        }
+    // Make sure the sizes match
+    if(coeffs.size() != numCoeffs){
+        std::stringstream msg;
+        msg << "Error in ParameterizedFunctionBase<MemorySpace>::SetCoeffs.  Expected coefficient vector with size " << numCoeffs << ", but new coefficients have size " << coeffs.size() << ".";
+        throw std::invalid_argument(msg.str());
+    }
 
+    if(this->savedCoeffs.is_allocated()){
         if(this->savedCoeffs.size() != numCoeffs)
             Kokkos::resize(this->savedCoeffs, numCoeffs);
     }else{
-- 
2.43.0


From 4899814efccc689d94538c1dec02f83dc639bd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 18/43] fix: MultiIndexSet::SetLimiter leaves the set unchanged
 when it throws and drops all edges of excluded terms

---
 src/MultiIndices/MultiIndexSet.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 184b6e0..1e45824 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -181,20 +181,24 @@ FixedMultiIndexSet<Kokkos::HostSpace> MultiIndexSet::Fix(bool compress) const
 
 void MultiIndexSet::SetLimiter(LimiterType const& newLimiter){
 
+  //  make sure all active terms in the set obey the new limiter.
+  for(unsigned int globalInd : active2global)
+  {
+    if(!newLimiter(allMultis.at(globalInd))){
+      std::stringstream msg;
+      msg << "Invalid limiter passed to MultiIndexSet::SetLimiter.  The active multi-index, ";
+      msg << allMultis.at(globalInd).Vector() << ", is not valid with the new limiter.\n";
+      throw std::invalid_argument(msg.str());
+    }
+  }
+
   // copy the limiter
   limiter = newLimiter;
 
-  //  make sure no active terms in the set currently obey the new limiter.
-  //  If a term is inactive, remove all edges tied to it
+  //  If a term is inactive and does not obey the new limiter, remove all edges tied to it
   for(unsigned int globalInd=0; globalInd<allMultis.size(); ++globalInd)
   {
     if(IsActive(globalInd)){
-      if(!newLimiter(allMultis.at(globalInd))){
-        std::stringstream msg;
-        msg << "Invalid limiter passed to MultiIndexSet::SetLimiter.  The active multi-index, ";
-        msg << allMultis.at(globalInd).Vector() << ", is not valid with the new limiter.\n";
-        throw std::invalid_argument(msg.str());
-      }
 
       // Add any newly admissible inactive forward neighbors
       AddForwardNeighbors(globalInd,true);
@@ -205,6 +209,10 @@ void MultiIndexSet::SetLimiter(LimiterType const& newLimiter){
         for(int inNode : inEdges[globalInd])
           outEdges[inNode].erase(globalInd);
         inEdges[globalInd].clear();
+
+        for(int outNode : outEdges[globalInd])
+          inEdges[outNode].erase(globalInd);
+        outEdges[globalInd].clear();
       }
     }
   }
-- 
2.43.0


From 82c8fbe67c6144529634f22c9cc85dca4f8f42d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 19/43] fix: MultiIndexSet does not activate stored terms
 excluded by the current limiter

---
 src/MultiIndices/MultiIndexSet.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 1e45824..68cd71b 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -270,16 +270,16 @@ int MultiIndexSet::AddActive(MultiIndex const& newNode)
 
 int MultiIndexSet::AddInactive(MultiIndex const& newNode)
 {
+  // Terms stored under a previous limiter may not be allowed any more
+  if(!limiter(newNode))
+    return -1;
+
   auto iter = multi2global.find(newNode);
 
   if(iter!=multi2global.end()){
     return iter->second;
-
-  }else if(limiter(newNode)){
-    return AddMulti(newNode);
-
   }else{
-    return -1;
+    return AddMulti(newNode);
   }
 }
 
-- 
2.43.0


From 35d6a8033e40ae306f1c65bd0c11ebd5b74dda7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 20/43] fix: the reduced margin only contains terms whose
 backward neighbors are all active

---
 src/MultiIndices/MultiIndexSet.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 68cd71b..edce49b 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -543,12 +543,8 @@ std::vector<MultiIndex> MultiIndexSet::ReducedMargin() const
     // If this is an inactive multiindex
     if(!IsActive(globalInd)){
 
-      // Check the backward neighbors
-      bool allActive = true;
-      for(auto neighbor : inEdges[globalInd])
-        allActive = (allActive && IsActive(neighbor));
-
-      if(allActive)
+      // All backward neighbors, stored or not, must be active
+      if(IsAdmissible(globalInd))
         output.push_back(allMultis.at(globalInd));
 
     }
-- 
2.43.0


From f6f6f4ef33e5fd95191dd09bd64deff9bf0f328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:47 +0000
Subject: [PATCH 21/43] fix: BackwardNeighbors only returns active neighbors

---
 src/MultiIndices/MultiIndexSet.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index edce49b..b6caf20 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -585,8 +585,11 @@ std::vector<unsigned int> MultiIndexSet::BackwardNeighbors(unsigned int activeIn
   unsigned int globalInd = active2global.at(activeIndex);
 
   std::vector<unsigned int> output;
-  for(auto neighbor : inEdges[globalInd])
-    output.push_back(global2active.at(neighbor));
+  for(auto neighbor : inEdges[globalInd]){
+    // Only active neighbors have a linear index
+    if(IsActive(neighbor))
+      output.push_back(global2active.at(neighbor));
+  }
 
   return output;
 }
@@ -599,8 +602,11 @@ std::vector<unsigned int> MultiIndexSet::BackwardNeighbors(MultiIndex const& mul
 
   unsigned int globalInd = iter->second;
   std::vector<unsigned int> output;
-  for(auto neighbor : inEdges[globalInd])
-    output.push_back(global2active.at(neighbor));
+  for(auto neighbor : inEdges[globalInd]){
+    // Only active neighbors have a linear index
+    if(IsActive(neighbor))
+      output.push_back(global2active.at(neighbor));
+  }
 
   return output;
 }
-- 
2.43.0


From a072cea9cb4b0f525cdc32d5bf22e4e46118c063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:47 +0000
Subject: [PATCH 22/43] fix: MultiIndexSet::Expand reports every new term once

---
 src/MultiIndices/MultiIndexSet.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index b6caf20..9b596a3 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -702,8 +702,11 @@ std::vector<unsigned int> MultiIndexSet::Expand()
     // Activate those terms
     std::vector<unsigned int> allNewInds;
     for(auto& neighbor : toExpand){ 
-        Activate(neighbor);
-        allNewInds.push_back(global2active.at(neighbor));
+        // The same term can be a neighbor of several terms on the frontier
+        if(!IsActive(neighbor)){
+            Activate(neighbor);
+            allNewInds.push_back(global2active.at(neighbor));
+        }
     }
     
     return allNewInds;
-- 
2.43.0


From a83a88746130cf11eef51eac9f0c2fa43df3b260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:47 +0000
Subject: [PATCH 23/43] fix: forcible expansion does not iterate over sets that
 are reallocated

---
 src/MultiIndices/MultiIndexSet.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 9b596a3..06c9aad 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -720,7 +720,8 @@ std::vector<unsigned int> MultiIndexSet::ForciblyExpand(unsigned int const activ
   unsigned int globalIndex = active2global.at(activeIndex);
 
   // loop through the forward neighbors of this index
-  std::set<int>& tempSet = outEdges.at(globalIndex);
+  // (copied, because activating terms adds to outEdges)
+  std::set<int> tempSet = outEdges.at(globalIndex);
   for(int neighbor : tempSet)
     ForciblyActivate(neighbor,newIndices);
 
@@ -739,7 +740,8 @@ void MultiIndexSet::ForciblyActivate(int globalIndex, std::vector<unsigned int>
     newIndices.push_back(global2active.at(globalIndex));
 
     // now, fill in all of the previous neighbors
-    std::set<int>& tempSet = inEdges.at(globalIndex);
+    // (copied, because activating terms adds to inEdges)
+    std::set<int> tempSet = inEdges.at(globalIndex);
     for(int ind : tempSet)
       ForciblyActivate(ind,newIndices);
 
-- 
2.43.0


From 9dff6b9c4cefb862e29bd0e8b011602f574166ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 24/43] fix: dense FixedMultiIndexSet stores where its last
 term ends

---
 src/MultiIndices/FixedMultiIndexSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/FixedMultiIndexSet.cpp b/src/MultiIndices/FixedMultiIndexSet.cpp
index c5a1d5a..5aeaa08 100644
--- a/src/MultiIndices/FixedMultiIndexSet.cpp
+++ b/src/MultiIndices/FixedMultiIndexSet.cpp
@@ -89,7 +89,7 @@ void FixedMultiIndexSet<MemorySpace>::SetupTerms()
     unsigned int numTerms = nzOrders.extent(0) / dim;
 
     nzStarts = Kokkos::View<unsigned int*, MemorySpace>("Start of a Multiindex", numTerms+1);
-    Kokkos::parallel_for(numTerms, StartSetter<MemorySpace>(nzStarts,dim));
+    Kokkos::parallel_for(numTerms+1, StartSetter<MemorySpace>(nzStarts,dim));
     Kokkos::parallel_for(dim*numTerms, DimSetter<MemorySpace>(nzDims,dim));
 }
 template<>
@@ -101,7 +101,7 @@ void FixedMultiIndexSet<Kokkos::HostSpace>::SetupTerms()
     nzStarts = Kokkos::View<unsigned int*, Kokkos::HostSpace>("Start of a Multiindex", numTerms+1);
     {
     StartSetter<Kokkos::HostSpace> functor(nzStarts,dim);
-    for(unsigned int i=0; i<numTerms; ++i)
+    for(unsigned int i=0; i<=numTerms; ++i)
         functor(i);
     }
     {
-- 
2.43.0


From a6411f0f436e9096cf7c683329e9a7534e41031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 25/43] fix: MultiToIndex of a compressed FixedMultiIndexSet
 stops at the last term

---
 src/MultiIndices/FixedMultiIndexSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiIndices/FixedMultiIndexSet.cpp b/src/MultiIndices/FixedMultiIndexSet.cpp
index 5aeaa08..7e660d5 100644
--- a/src/MultiIndices/FixedMultiIndexSet.cpp
+++ b/src/MultiIndices/FixedMultiIndexSet.cpp
@@ -216,7 +216,7 @@ int FixedMultiIndexSet<MemorySpace>::MultiToIndex(std::vector<unsigned int> cons
             nnz += (val>0) ? 1:0;
 
         // Now search for the matching multi
-        for(unsigned int i=0; i<nzStarts.extent(0); ++i){
+        for(unsigned int i=0; i+1<nzStarts.extent(0); ++i){
 
             // First, check if the number of nonzeros matches
             if((nzStarts(i+1)-nzStarts(i))==nnz){
-- 
2.43.0


From 8b73554a36bf86008deaca25d09d60591fc74f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:14 +0000
Subject: [PATCH 26/43] fix: TriangularMap writes its components once, as
 load_and_construct reads them

---
 MParT/TriangularMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/TriangularMap.h b/MParT/TriangularMap.h
index 6e820eb..39a9e1f 100644
--- a/MParT/TriangularMap.h
+++ b/MParT/TriangularMap.h
@@ -126,7 +126,7 @@ public:
     template<class Archive>
     void save(Archive & ar) const
     {
-        ar(cereal::base_class<ConditionalMapBase<MemorySpace>>(this), comps_);
+        ar(cereal::base_class<ConditionalMapBase<MemorySpace>>(this));
 
         bool moveCoeffs = (this->savedCoeffs.is_allocated() && (this->savedCoeffs.size()>0));
         ar(comps_, moveCoeffs);
-- 
2.43.0


From 62a9c2b53190f480565451447126e1b5f0c42dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:36 +0000
Subject: [PATCH 27/43] fix: factory-made components with Clenshaw-Curtis
 quadrature use an external workspace, so that their gradients do not abort

---
 src/MapFactoryImpl11.cpp | 2 +-
 src/MapFactoryImpl14.cpp | 2 +-
 src/MapFactoryImpl17.cpp | 2 +-
 src/MapFactoryImpl2.cpp  | 2 +-
 src/MapFactoryImpl5.cpp  | 2 +-
 src/MapFactoryImpl8.cpp  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MapFactoryImpl11.cpp b/src/MapFactoryImpl11.cpp
index 73addff..0433821 100644
--- a/src/MapFactoryImpl11.cpp
+++ b/src/MapFactoryImpl11.cpp
@@ -17,7 +17,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinPhys_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<PhysicistHermite> basis1d(PhysicistHermite(opts.basisNorm), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl14.cpp b/src/MapFactoryImpl14.cpp
index e4f52a3..6118c6a 100644
--- a/src/MapFactoryImpl14.cpp
+++ b/src/MapFactoryImpl14.cpp
@@ -16,7 +16,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinProb_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<ProbabilistHermite> basis1d(ProbabilistHermite(opts.basisNorm), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl17.cpp b/src/MapFactoryImpl17.cpp
index 37f0471..5fbc477 100644
--- a/src/MapFactoryImpl17.cpp
+++ b/src/MapFactoryImpl17.cpp
@@ -16,7 +16,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinHF_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<HermiteFunction> basis1d(HermiteFunction(), opts.basisLB, opts.basisUB);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl2.cpp b/src/MapFactoryImpl2.cpp
index 8ecb8bc..09a0439 100644
--- a/src/MapFactoryImpl2.cpp
+++ b/src/MapFactoryImpl2.cpp
@@ -15,7 +15,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_Phys_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     PhysicistHermite basis1d(opts.basisNorm);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl5.cpp b/src/MapFactoryImpl5.cpp
index 6240d9a..eca18c6 100644
--- a/src/MapFactoryImpl5.cpp
+++ b/src/MapFactoryImpl5.cpp
@@ -14,7 +14,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_Prob_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     ProbabilistHermite basis1d(opts.basisNorm);
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
diff --git a/src/MapFactoryImpl8.cpp b/src/MapFactoryImpl8.cpp
index dc61f5d..370cf42 100644
--- a/src/MapFactoryImpl8.cpp
+++ b/src/MapFactoryImpl8.cpp
@@ -14,7 +14,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_HF_CC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     HermiteFunction basis1d;
-    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1);
+    ClenshawCurtisQuadrature<MemorySpace> quad(opts.quadPts, 1, nullptr);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
     std::shared_ptr<ConditionalMapBase<MemorySpace>> output;
-- 
2.43.0


From 543ae9a57366cfa1d3b1075daec59f92b2c7ede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:37 +0000
Subject: [PATCH 28/43] fix: factory uses the lowest adaptive Clenshaw-Curtis
 level for few quadrature points instead of an invalid one

---
 src/MapFactoryImpl1.cpp  | 2 +-
 src/MapFactoryImpl10.cpp | 2 +-
 src/MapFactoryImpl13.cpp | 2 +-
 src/MapFactoryImpl18.cpp | 2 +-
 src/MapFactoryImpl4.cpp  | 2 +-
 src/MapFactoryImpl7.cpp  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MapFactoryImpl1.cpp b/src/MapFactoryImpl1.cpp
index c8f84e9..33237a5 100644
--- a/src/MapFactoryImpl1.cpp
+++ b/src/MapFactoryImpl1.cpp
@@ -18,7 +18,7 @@ std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_Phys_ACC(Fi
 {
     PhysicistHermite basis1d(opts.basisNorm);
 
-    unsigned int level = std::log2(opts.quadPts-2);
+    unsigned int level = (opts.quadPts>4) ? std::log2(opts.quadPts-2) : 1;
     AdaptiveClenshawCurtis<MemorySpace> quad(level, opts.quadMaxSub, 1, nullptr, opts.quadAbsTol, opts.quadRelTol, QuadError::First, opts.quadMinSub);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
diff --git a/src/MapFactoryImpl10.cpp b/src/MapFactoryImpl10.cpp
index 2624db1..85c2ff2 100644
--- a/src/MapFactoryImpl10.cpp
+++ b/src/MapFactoryImpl10.cpp
@@ -18,7 +18,7 @@ std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinPhys_ACC
 {
     LinearizedBasis<PhysicistHermite> basis1d(PhysicistHermite(opts.basisNorm), opts.basisLB, opts.basisUB);
 
-    unsigned int level = std::log2(opts.quadPts-2);
+    unsigned int level = (opts.quadPts>4) ? std::log2(opts.quadPts-2) : 1;
     AdaptiveClenshawCurtis<MemorySpace> quad(level, opts.quadMaxSub, 1, nullptr, opts.quadAbsTol, opts.quadRelTol, QuadError::First, opts.quadMinSub);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
diff --git a/src/MapFactoryImpl13.cpp b/src/MapFactoryImpl13.cpp
index ac8a362..574f97d 100644
--- a/src/MapFactoryImpl13.cpp
+++ b/src/MapFactoryImpl13.cpp
@@ -17,7 +17,7 @@ std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinProb_ACC
 {
     LinearizedBasis<ProbabilistHermite> basis1d(ProbabilistHermite(opts.basisNorm), opts.basisLB, opts.basisUB);
 
-    unsigned int level = std::log2(opts.quadPts-2);
+    unsigned int level = (opts.quadPts>4) ? std::log2(opts.quadPts-2) : 1;
     AdaptiveClenshawCurtis<MemorySpace> quad(level, opts.quadMaxSub, 1, nullptr, opts.quadAbsTol, opts.quadRelTol, QuadError::First, opts.quadMinSub);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
diff --git a/src/MapFactoryImpl18.cpp b/src/MapFactoryImpl18.cpp
index 6e06f08..2870f11 100644
--- a/src/MapFactoryImpl18.cpp
+++ b/src/MapFactoryImpl18.cpp
@@ -16,7 +16,7 @@ template<typename MemorySpace, typename PosFuncType>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_LinHF_ACC(FixedMultiIndexSet<MemorySpace> const& mset, MapOptions opts)
 {
     LinearizedBasis<HermiteFunction> basis1d(HermiteFunction(), opts.basisLB, opts.basisUB);
-    unsigned int level = std::log2(opts.quadPts-2);
+    unsigned int level = (opts.quadPts>4) ? std::log2(opts.quadPts-2) : 1;
     AdaptiveClenshawCurtis<MemorySpace> quad(level, opts.quadMaxSub, 1, nullptr, opts.quadAbsTol, opts.quadRelTol, QuadError::First, opts.quadMinSub);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
diff --git a/src/MapFactoryImpl4.cpp b/src/MapFactoryImpl4.cpp
index 337570d..0770bd6 100644
--- a/src/MapFactoryImpl4.cpp
+++ b/src/MapFactoryImpl4.cpp
@@ -15,7 +15,7 @@ std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_Prob_ACC(Fi
 {
     ProbabilistHermite basis1d(opts.basisNorm);
 
-    unsigned int level = std::log2(opts.quadPts-2);
+    unsigned int level = (opts.quadPts>4) ? std::log2(opts.quadPts-2) : 1;
     AdaptiveClenshawCurtis<MemorySpace> quad(level, opts.quadMaxSub, 1, nullptr, opts.quadAbsTol, opts.quadRelTol, QuadError::First, opts.quadMinSub);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
diff --git a/src/MapFactoryImpl7.cpp b/src/MapFactoryImpl7.cpp
index 296c74e..15883ff 100644
--- a/src/MapFactoryImpl7.cpp
+++ b/src/MapFactoryImpl7.cpp
@@ -15,7 +15,7 @@ std::shared_ptr<ConditionalMapBase<MemorySpace>> CreateComponentImpl_HF_ACC(Fixe
 {
     HermiteFunction basis1d;
 
-    unsigned int level = std::log2(opts.quadPts-2);
+    unsigned int level = (opts.quadPts>4) ? std::log2(opts.quadPts-2) : 1;
     AdaptiveClenshawCurtis<MemorySpace> quad(level, opts.quadMaxSub, 1, nullptr, opts.quadAbsTol, opts.quadRelTol, QuadError::First, opts.quadMinSub);
 
     MultivariateExpansionWorker<decltype(basis1d),MemorySpace> expansion(mset, basis1d);
-- 
2.43.0


From b520981839e96e32912580903d549f739cdc07c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:37 +0000
Subject: [PATCH 29/43] fix: CreateTriangular rejects more outputs than inputs

---
 src/MapFactory.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MapFactory.cpp b/src/MapFactory.cpp
index 70df3ec..a2ef703 100644
--- a/src/MapFactory.cpp
+++ b/src/MapFactory.cpp
@@ -105,6 +105,12 @@ std::shared_ptr<ConditionalMapBase<MemorySpace>> mpart::MapFactory::CreateTriang
                                                                          MapOptions options)
 {
 
+    if(outputDim > inputDim){
+        std::stringstream msg;
+        msg << "In CreateTriangular, the output dimension can't be greater than the input dimension. Got inputDim = " << inputDim << " and outputDim = " << outputDim << ".";
+        throw std::invalid_argument(msg.str());
+    }
+
     std::vector<std::shared_ptr<ConditionalMapBase<MemorySpace>>> comps(outputDim);
 
     unsigned int extraInputs = inputDim - outputDim;
-- 
2.43.0


From c03cdd1a5727bc1562c414eff9d490f531e6576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 30/43] fix: reductions into strided gradients and log
 densities write contiguous temporaries

---
 src/Distributions/GaussianSamplerDensity.cpp |  6 ++++--
 src/MapObjective.cpp                         | 10 ++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Distributions/GaussianSamplerDensity.cpp b/src/Distributions/GaussianSamplerDensity.cpp
index a4a725e..271eab6 100644
--- a/src/Distributions/GaussianSamplerDensity.cpp
+++ b/src/Distributions/GaussianSamplerDensity.cpp
@@ -45,9 +45,11 @@ void GaussianSamplerDensity<MemorySpace>::LogDensityImpl(StridedMatrix<const dou
     }
 
     ReduceDim<ReduceDimMap::norm,MemorySpace,0> rr(diff, -0.5);
-    Kokkos::parallel_reduce(M, rr, &output(0));
+    // The reduction needs contiguous storage, but output might be strided
+    Kokkos::View<double*, MemorySpace> normSum("normSum", N);
+    Kokkos::parallel_reduce(M, rr, normSum.data());
     Kokkos::parallel_for( "log terms", N, KOKKOS_LAMBDA (const int& j) {
-        output(j) -= 0.5*( M*logtau_ + logDetCov_ );
+        output(j) = normSum(j) - 0.5*( M*logtau_ + logDetCov_ );
     });
 }
 
diff --git a/src/MapObjective.cpp b/src/MapObjective.cpp
index d11123d..635bace 100644
--- a/src/MapObjective.cpp
+++ b/src/MapObjective.cpp
@@ -60,7 +60,10 @@ double KLObjective<MemorySpace>::ObjectivePlusCoeffGradImpl(StridedMatrix<const
         sum -= densityX(i);
     }, sumDensity);
     ReduceDim<ReduceDimMap::sum,MemorySpace> rc(densityGradX, -1.0/((double) N_samps));
-    Kokkos::parallel_reduce(N_samps, rc, &grad(0));
+    // The reduction needs contiguous storage, but grad might be strided
+    Kokkos::View<double*, MemorySpace> gradSum("gradSum", grad.extent(0));
+    Kokkos::parallel_reduce(N_samps, rc, gradSum.data());
+    Kokkos::deep_copy(grad, gradSum);
     return sumDensity/N_samps;
 }
 
@@ -82,7 +85,10 @@ void KLObjective<MemorySpace>::CoeffGradImpl(StridedMatrix<const double, MemoryS
     PullbackDensity<MemorySpace> pullback {map, density_};
     StridedMatrix<double, MemorySpace> densityGradX = pullback.LogDensityCoeffGrad(data);
     ReduceDim<ReduceDimMap::sum,MemorySpace> rc(densityGradX, -1.0/((double) N_samps));
-    Kokkos::parallel_reduce(N_samps, rc, &grad(0));
+    // The reduction needs contiguous storage, but grad might be strided
+    Kokkos::View<double*, MemorySpace> gradSum("gradSum", grad.extent(0));
+    Kokkos::parallel_reduce(N_samps, rc, gradSum.data());
+    Kokkos::deep_copy(grad, gradSum);
 }
 
 // Explicit template instantiation
-- 
2.43.0


From b7e7c54c0608e2135cbeb0401b2ac3ca02440eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 31/43] fix: GaussianSamplerDensity accepts covariances,
 samples and gradients in any layout

---
 MParT/Distributions/GaussianSamplerDensity.h |  5 ++++-
 src/Distributions/GaussianSamplerDensity.cpp | 11 +++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/MParT/Distributions/GaussianSamplerDensity.h b/MParT/Distributions/GaussianSamplerDensity.h
index bad4a8f..e4dc7a1 100644
--- a/MParT/Distributions/GaussianSamplerDensity.h
+++ b/MParT/Distributions/GaussianSamplerDensity.h
@@ -74,7 +74,10 @@ class GaussianSamplerDensity: public SampleGenerator<MemorySpace>, public Densit
 #endif // KOKKOS_VERSION
 
     void Factorize(StridedMatrix<double, MemorySpace> Cov) {
-        covChol_.compute(Cov);
+        // The Cholesky factorization works on column-major arrays, but Cov can have any layout
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> covLeft("Cov", Cov.extent(0), Cov.extent(1));
+        Kokkos::deep_copy(covLeft, Cov);
+        covChol_.compute(covLeft);
         logDetCov_ = std::log(covChol_.determinant());
     }
 
diff --git a/src/Distributions/GaussianSamplerDensity.cpp b/src/Distributions/GaussianSamplerDensity.cpp
index 271eab6..6a4a269 100644
--- a/src/Distributions/GaussianSamplerDensity.cpp
+++ b/src/Distributions/GaussianSamplerDensity.cpp
@@ -75,7 +75,9 @@ void GaussianSamplerDensity<MemorySpace>::LogDensityInputGradImpl(StridedMatrix<
     }
 
     if(!idCov_) {
-        covChol_.solveInPlace(output);
+        // The Cholesky factorization works on column-major arrays, but output can have any layout
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> sol = covChol_.solve(output);
+        Kokkos::deep_copy(output, sol);
     }
 }
 
@@ -113,7 +115,8 @@ void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, Memor
     // Otherwise, we assume dense covariance
     else {
         // Enforce that the output is the correct layout!
-        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> output = output_;
+        // The Cholesky factorization works on column-major arrays, but output_ can have any layout
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> output ("output", M, N);
         // Sample from the standard normal
         Kokkos::parallel_for(policy, KOKKOS_LAMBDA(const int j, const int i) {
             GeneratorType rgen = rand_pool.get_state();
@@ -124,11 +127,11 @@ void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, Memor
         auto mul = covChol_.multiplyL(output);
         // Add the mean (if nonzero)
         if(mean_.extent(0) == 0){
-            Kokkos::deep_copy(output, mul);
+            Kokkos::deep_copy(output_, mul);
         }
         else {
             Kokkos::parallel_for(policy, KOKKOS_LAMBDA(const int j, const int i) {
-                output(i,j) = mul(i,j) + mean_(i);
+                output_(i,j) = mul(i,j) + mean_(i);
             });
         }
     }
-- 
2.43.0


From 1016d8db374bdf983054e340706e92c80886d67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:01 +0000
Subject: [PATCH 32/43] fix: PullbackDensity::LogDensityCoeffGrad on Eigen
 matrices returns the coefficient gradient

---
 src/Distributions/PullbackDensity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Distributions/PullbackDensity.cpp b/src/Distributions/PullbackDensity.cpp
index bde74a7..90926e0 100644
--- a/src/Distributions/PullbackDensity.cpp
+++ b/src/Distributions/PullbackDensity.cpp
@@ -46,11 +46,11 @@ StridedMatrix<double, MemorySpace> PullbackDensity<MemorySpace>::LogDensityCoeff
 template<>
 Eigen::RowMatrixXd PullbackDensity<Kokkos::HostSpace>::LogDensityCoeffGrad(Eigen::Ref<const Eigen::RowMatrixXd> const &pts) {
     // Allocate output
-    Eigen::RowMatrixXd output(pts.rows(), pts.cols());
+    Eigen::RowMatrixXd output(map_->numCoeffs, pts.cols());
     StridedMatrix<const double, Kokkos::HostSpace> ptsView = ConstRowMatToKokkos<double, Kokkos::HostSpace>(pts);
     StridedMatrix<double, Kokkos::HostSpace> outView = MatToKokkos<double, Kokkos::HostSpace>(output);
     // Call the LogDensity function
-    LogDensityInputGradImpl(ptsView, outView);
+    LogDensityCoeffGradImpl(ptsView, outView);
     return output;
 }
 
-- 
2.43.0


From 60710f51ed531dedf072def2cacf728075b17475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:00 +0000
Subject: [PATCH 33/43] fix: TransportDistributionFactory compiles

---
 MParT/Distributions/TransportDistributionFactory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Distributions/TransportDistributionFactory.h b/MParT/Distributions/TransportDistributionFactory.h
index 098e47d..191ede9 100644
--- a/MParT/Distributions/TransportDistributionFactory.h
+++ b/MParT/Distributions/TransportDistributionFactory.h
@@ -10,9 +10,9 @@
 namespace mpart {
 
     template<typename MemorySpace>
-    using PullbackDistribution = Distribution<PullbackDensity<MemorySpace>, PullbackSampler<MemorySpace>>;
+    using PullbackDistribution = Distribution<MemorySpace>;
     template<typename MemorySpace>
-    using PushforwardDistribution = Distribution<PushforwardDensity<MemorySpace>, PushforwardSampler<MemorySpace>>;
+    using PushforwardDistribution = Distribution<MemorySpace>;
 
     template<typename MemorySpace>
     std::shared_ptr<PullbackDistribution<MemorySpace>> CreatePullback(std::shared_ptr<ConditionalMapBase<MemorySpace>> map, std::shared_ptr<Distribution<MemorySpace>> reference) {
-- 
2.43.0


From c842e4a583cd0bb8ad92dec01ce4c44bee049521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:49 +0000
Subject: [PATCH 34/43] fix: TrainMapAdaptive returns the initial sets if no
 larger map has a lower test error

---
 src/TrainMapAdaptive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index 7091db5..6db1e05 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -88,7 +88,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
         // Initialize the temporary mset vectors
         MultiIndexSet mset_tmp_j = MultiIndexSet::CreateTotalOrder(inputDim-outputDim+j+1,0);
         mset_tmp.push_back(mset_tmp_j);
-        mset_best.push_back(mset_tmp_j);
+        mset_best.push_back(mset_j);
 
         // Index global constants
         currMsetDim++;
-- 
2.43.0


From e32186a15c02d36afc33fe195cc4a016ffc35f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:49 +0000
Subject: [PATCH 35/43] fix: TrainMapAdaptive does not read past the end of the
 reduced margins

---
 src/TrainMapAdaptive.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index 6db1e05..d439e63 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -150,7 +150,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
             int oldIdx = 0;
             int rmIdx = 0;
             for(int j = 0; j < comp_i->numCoeffs; j++) {
-                if(j == multis_rm[i][rmIdx]){ // Fill new coeff with zero
+                if(rmIdx < multis_rm[i].size() && j == multis_rm[i][rmIdx]){ // Fill new coeff with zero
                     coeffsFrontier(j) = 0.;
                     rmIdx++;
                 }
@@ -173,7 +173,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
                 int rmIdx = 0;
                 for(int i = 0; i < mset_tmp[output].Size(); i++) {
                     std::cout << "gradCoeff(" << coeffIdx << ")=" << gradCoeff(coeffIdx) << ", midx=[" << mset_tmp[output][i] << "]";
-                    if(i == multis_rm[output][rmIdx]) {
+                    if(rmIdx < multis_rm[output].size() && i == multis_rm[output][rmIdx]) {
                         std::cout << " rm!";
                         rmIdx++;
                     }
-- 
2.43.0


From 7443bf7fe05bf965d55d8d6a63d40b20fb8a703b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:49 +0000
Subject: [PATCH 36/43] fix: TrainMapAdaptive stops when there is no admissible
 term left to add

---
 src/TrainMapAdaptive.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index d439e63..d14549c 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -3,10 +3,11 @@
 
 using namespace mpart;
 
-void findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std::vector<std::vector<unsigned int>> const &multis_rm,
+bool findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std::vector<std::vector<unsigned int>> const &multis_rm,
     std::vector<MultiIndexSet> const &msets, unsigned int &maxIdx, unsigned int &maxIdxBlock) {
     unsigned int outputDim = multis_rm.size();
-    double maxVal = 0.;
+    double maxVal = -1.;
+    bool found = false;
     unsigned int blockStart = 0;
     for(int output = 0; output < outputDim; output++) {
         for(int i = 0; i < multis_rm[output].size(); i++) {
@@ -16,10 +17,12 @@ void findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std:
                 maxVal = gradVal;
                 maxIdx = idx;
                 maxIdxBlock = output;
+                found = true;
             }
         }
         blockStart += msets[output].Size();
     }
+    return found;
 }
 
 void maxDegreeRMFilter(std::vector<MultiIndexSet> const &msets, MultiIndex const &maxDegrees,
@@ -190,7 +193,9 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
 
         // Find the largest gradient value, calculate which output and multiindex it corresponds to
         unsigned int maxIdx, maxIdxBlock;
-        findMaxGrad(gradCoeff, multis_rm, mset_tmp, maxIdx, maxIdxBlock);
+        if(!findMaxGrad(gradCoeff, multis_rm, mset_tmp, maxIdx, maxIdxBlock)) {
+            break; // There are no admissible terms left to add
+        }
 
         // Add the multiindex with largest gradient to the map
         MultiIndex addedMulti = mset_tmp[maxIdxBlock][maxIdx];
-- 
2.43.0


From 009daf60cd1a1f17ee962eb69a42b1a0a5d3e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:49 +0000
Subject: [PATCH 37/43] fix: TrainMapAdaptive starts the enlarged component
 from its trained coefficients

---
 src/TrainMapAdaptive.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index d14549c..32851ba 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -218,6 +218,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
         Kokkos::View<double*, Kokkos::HostSpace> newCoeffs ("New component coefficients", newComp->numCoeffs);
         std::copy(oldCoeffs.data(), oldCoeffs.data() + mset_sizes[maxIdxBlock], newCoeffs.data());
         newCoeffs(mset_sizes[maxIdxBlock]) = 0.;
+        newComp->WrapCoeffs(newCoeffs);
         mapBlocks[maxIdxBlock] = newComp;
         mset_sizes[maxIdxBlock]++;
         map = std::make_shared<TriangularMap<Kokkos::HostSpace>>(mapBlocks, true);
-- 
2.43.0


From ef6d678bfd292ec4691b5768a3a32678e3337f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:49 +0000
Subject: [PATCH 38/43] fix: MapObjective can be evaluated without a gradient

---
 src/MapObjective.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/MapObjective.cpp b/src/MapObjective.cpp
index 635bace..b48f8f4 100644
--- a/src/MapObjective.cpp
+++ b/src/MapObjective.cpp
@@ -5,8 +5,12 @@ template<typename MemorySpace>
 double MapObjective<MemorySpace>::operator()(unsigned int n, const double* coeffs, double* grad, std::shared_ptr<ConditionalMapBase<MemorySpace>> map) {
 
     StridedVector<const double, MemorySpace> coeffView = ToConstKokkos<double,MemorySpace>(coeffs, n);
-    StridedVector<double, MemorySpace> gradView = ToKokkos<double,MemorySpace>(grad, n);
     map->SetCoeffs(coeffView);
+    // Optimizers that do not need the gradient pass a null pointer
+    if(grad == nullptr) {
+        return ObjectiveImpl(train_, map);
+    }
+    StridedVector<double, MemorySpace> gradView = ToKokkos<double,MemorySpace>(grad, n);
     return ObjectivePlusCoeffGradImpl(train_, gradView, map);
 }
 
-- 
2.43.0


From 014f980ca3c2952bbe5c6dd68b4f4449b207e677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:26 +0000
Subject: [PATCH 39/43] fix: TensorProductFunction splits the coefficients by
 the number of coefficients of its factors

---
 MParT/TensorProductFunction.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/MParT/TensorProductFunction.h b/MParT/TensorProductFunction.h
index f8314b2..c9171e1 100644
--- a/MParT/TensorProductFunction.h
+++ b/MParT/TensorProductFunction.h
@@ -60,10 +60,10 @@ public:
     {
         double f;
 
-        auto coeffs1 = Kokkos::subview(coeffs, std::make_pair(int(0), int(_dim1)));
+        auto coeffs1 = Kokkos::subview(coeffs, std::make_pair(0u, _f1.NumCoeffs()));
         f = _f1.Evaluate(cache, coeffs1);
 
-        auto coeffs2 = Kokkos::subview(coeffs, std::make_pair(_dim1, _dim1+_dim2));
+        auto coeffs2 = Kokkos::subview(coeffs, std::make_pair(_f1.NumCoeffs(), NumCoeffs()));
         f *= _f2.Evaluate(&cache[_f1.CacheSize()], coeffs2);
 
         return f;
@@ -77,10 +77,10 @@ public:
     {
         double df;
 
-        auto coeffs1 = Kokkos::subview(coeffs, std::make_pair(int(0), int(_dim1)));
+        auto coeffs1 = Kokkos::subview(coeffs, std::make_pair(0u, _f1.NumCoeffs()));
         df = _f1.Evaluate(cache, coeffs1);
 
-        auto coeffs2 = Kokkos::subview(coeffs, std::make_pair(_dim1, _dim1+_dim2));
+        auto coeffs2 = Kokkos::subview(coeffs, std::make_pair(_f1.NumCoeffs(), NumCoeffs()));
         df *= _f2.DiagonalDerivative(&cache[_f1.CacheSize()], coeffs2, derivOrder);
 
         return df;
@@ -94,11 +94,11 @@ public:
     {
         double f1, f2;
 
-        auto coeffs1 = Kokkos::subview(coeffs, std::make_pair(int(0), int(_dim1)));
+        auto coeffs1 = Kokkos::subview(coeffs, std::make_pair(0u, _f1.NumCoeffs()));
         Eigen::Ref<Eigen::VectorXd> gradHead = grad.head(_f1.NumCoeffs());
         f1 = _f1.CoeffDerivative(cache, coeffs1, gradHead);
 
-        auto coeffs2 = Kokkos::subview(coeffs, std::make_pair(_dim1, _dim1+_dim2));
+        auto coeffs2 = Kokkos::subview(coeffs, std::make_pair(_f1.NumCoeffs(), NumCoeffs()));
         Eigen::Ref<Eigen::VectorXd> gradTail = grad.tail(_f2.NumCoeffs());
         f2 = _f2.CoeffDerivative(&cache[_f1.CacheSize()], coeffs2, gradTail);
 
@@ -116,11 +116,11 @@ public:
     {
         double f1, df2;
 
-        auto coeffs1 = Kokkos::subview(coeffs, std::make_pair(int(0), int(_dim1)));
+        auto coeffs1 = Kokkos::subview(coeffs, std::make_pair(0u, _f1.NumCoeffs()));
         Eigen::Ref<Eigen::VectorXd> gradHead = grad.head(_f1.NumCoeffs());
         f1 = _f1.CoeffDerivative(cache, coeffs1, gradHead);
 
-        auto coeffs2 = Kokkos::subview(coeffs, std::make_pair(_dim1, _dim1+_dim2));
+        auto coeffs2 = Kokkos::subview(coeffs, std::make_pair(_f1.NumCoeffs(), NumCoeffs()));
         Eigen::Ref<Eigen::VectorXd> gradTail = grad.tail(_f2.NumCoeffs());
         df2 = _f2.MixedDerivative(&cache[_f1.CacheSize()], coeffs2, derivOrder, gradTail);
 
-- 
2.43.0


From 0b4ec10c9c6eb19e1d56dac2e73fe7e886e8be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:26 +0000
Subject: [PATCH 40/43] fix: Sigmoid1d accepts strided centers and widths

---
 MParT/Sigmoid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Sigmoid.h b/MParT/Sigmoid.h
index 364a9a3..4503130 100644
--- a/MParT/Sigmoid.h
+++ b/MParT/Sigmoid.h
@@ -74,7 +74,7 @@ class Sigmoid1d: public ParameterizedFunctionBase<MemorySpace>
 
     private:
     using ExecutionSpace = typename MemoryToExecution<MemorySpace>::Space;
-    Kokkos::View<const double*, MemorySpace> centers_, widths_;
+    StridedVector<const double, MemorySpace> centers_, widths_;
 };
 }
 
-- 
2.43.0


From 8b373961acc5f07d770f4b5a9266b8b64c3df53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:51 +0000
Subject: [PATCH 41/43] fix: evaluating an empty batch of points does not
 divide by zero

---
 MParT/Utilities/KokkosHelpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Utilities/KokkosHelpers.h b/MParT/Utilities/KokkosHelpers.h
index 402f43f..38a5ab6 100644
--- a/MParT/Utilities/KokkosHelpers.h
+++ b/MParT/Utilities/KokkosHelpers.h
@@ -19,7 +19,7 @@ namespace mpart{
         Kokkos::TeamPolicy<ExecutionSpace> policy;
         policy.set_scratch_size(1,Kokkos::PerTeam(0), Kokkos::PerThread(cacheBytes));
             
-        const unsigned int threadsPerTeam = std::min<unsigned int>(numPts, policy.team_size_recommended(functor, Kokkos::ParallelForTag()));
+        const unsigned int threadsPerTeam = std::min<unsigned int>(std::max(numPts, 1u), policy.team_size_recommended(functor, Kokkos::ParallelForTag())); // at least one, even if there are no points
         const unsigned int numTeams = std::ceil( double(numPts) / threadsPerTeam );
             
         policy = Kokkos::TeamPolicy<ExecutionSpace>(numTeams, threadsPerTeam).set_scratch_size(1,Kokkos::PerTeam(0), Kokkos::PerThread(cacheBytes));
-- 
2.43.0


From 5335e257c51dedf5f36fe603cefe702213e20b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:39 +0000
Subject: [PATCH 42/43] fix: arguments whose size does not match the function
 are rejected

---
 MParT/MonotoneComponent.h         |  3 +++
 MParT/ParameterizedFunctionBase.h |  8 ++++++++
 src/AffineMap.cpp                 |  2 ++
 src/ConditionalMapBase.cpp        |  8 ++++++++
 src/ParameterizedFunctionBase.cpp | 28 ++++++++++++++++++++++++++++
 src/SummarizedMap.cpp             |  2 ++
 src/TriangularMap.cpp             |  3 +++
 7 files changed, 54 insertions(+)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 49ddafc..91e7184 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -97,6 +97,9 @@ public:
                      StridedMatrix<const double, MemorySpace> const& r,
                      StridedMatrix<double, MemorySpace>              output) override
     {
+        if(x1.extent(0)+1<this->inputDim)
+            this->CheckSize("Inverse", "number of rows in x1", this->inputDim-1, x1.extent(0));
+
         auto rSlice = Kokkos::subview(r,0,Kokkos::ALL());
         auto outputSlice = Kokkos::subview(output, 0, Kokkos::ALL());
         InverseImpl(x1, rSlice, this->savedCoeffs, outputSlice);
diff --git a/MParT/ParameterizedFunctionBase.h b/MParT/ParameterizedFunctionBase.h
index 94e1438..f7d155e 100644
--- a/MParT/ParameterizedFunctionBase.h
+++ b/MParT/ParameterizedFunctionBase.h
@@ -244,6 +244,14 @@ namespace mpart {
         /** Checks to see if the coefficients have been initialized yet. If not, an exception is thrown. */
         void CheckCoefficients(std::string const& functionName) const;
 
+        /** Checks that an argument has the size this function expects.  If not, an exception is thrown.
+        @param functionName The name of the function with the argument
+        @param sizeName Describes the size being checked (e.g., "number of rows in pts")
+        @param expected The size the argument should have
+        @param size The size of the argument
+        */
+        void CheckSize(const char* functionName, const char* sizeName, size_t expected, size_t size) const;
+
         Kokkos::View<double*, MemorySpace> savedCoeffs;
         
     }; // class ParameterizedFunctionBase
diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index 093cab0..a9d1ada 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -68,6 +68,8 @@ void AffineMap<MemorySpace>::InverseImpl(StridedMatrix<const double, MemorySpace
                                          StridedMatrix<const double, MemorySpace> const& r,
                                          StridedMatrix<double, MemorySpace>              output)
 {
+    if(x1.extent(0)+this->outputDim<this->inputDim)
+        this->CheckSize("Inverse", "number of rows in x1", this->inputDim-this->outputDim, x1.extent(0));
 
     int numPts = r.extent(1);
 
diff --git a/src/ConditionalMapBase.cpp b/src/ConditionalMapBase.cpp
index ff09ddc..57ed5f2 100644
--- a/src/ConditionalMapBase.cpp
+++ b/src/ConditionalMapBase.cpp
@@ -9,6 +9,7 @@ template<>
 Kokkos::View<double*, Kokkos::HostSpace> ConditionalMapBase<Kokkos::HostSpace>::LogDeterminant(StridedMatrix<const double, Kokkos::HostSpace> const& pts)
 {
     this->CheckCoefficients("LogDeterminant");
+    this->CheckSize("LogDeterminant", "number of rows in pts", this->inputDim, pts.extent(0));
     Kokkos::View<double*, Kokkos::HostSpace> output("Log Determinants", pts.extent(1));
     LogDeterminantImpl(pts, output);
     return output;
@@ -32,6 +33,7 @@ template<>
 Kokkos::View<double*, mpart::DeviceSpace> ConditionalMapBase<mpart::DeviceSpace>::LogDeterminant(StridedMatrix<const double, mpart::DeviceSpace> const& pts)
 {
     this->CheckCoefficients("LogDeterminant");
+    this->CheckSize("LogDeterminant", "number of rows in pts", this->inputDim, pts.extent(0));
     Kokkos::View<double*, mpart::DeviceSpace> output("Log Determinants", pts.extent(1));
     LogDeterminantImpl(pts, output);
     return output;
@@ -74,6 +76,7 @@ StridedMatrix<double, Kokkos::HostSpace> ConditionalMapBase<Kokkos::HostSpace>::
         msg << "x1 and r have different numbers of columns.  x1.extent(1)=" << x1.extent(1) << ", but r.extent(1)=" << r.extent(1);
         throw std::invalid_argument(msg.str());
     }
+    this->CheckSize("Inverse", "number of rows in r", this->outputDim, r.extent(0));
 
     Kokkos::View<double**, Kokkos::HostSpace> output("Map Inverse Evaluations", this->outputDim, r.extent(1));
     InverseImpl(x1,r, output);
@@ -106,6 +109,7 @@ StridedMatrix<double, mpart::DeviceSpace> ConditionalMapBase<mpart::DeviceSpace>
         msg << "x1 and r have different numbers of columns.  x1.extent(1)=" << x1.extent(1) << ", but r.extent(1)=" << r.extent(1);
         throw std::invalid_argument(msg.str());
     }
+    this->CheckSize("Inverse", "number of rows in r", this->outputDim, r.extent(0));
 
     Kokkos::View<double**, mpart::DeviceSpace> output("Map Inverse Evaluations", this->outputDim, r.extent(1));
     InverseImpl(x1,r, output);
@@ -145,6 +149,7 @@ template<>
 StridedMatrix<double, Kokkos::HostSpace> ConditionalMapBase<Kokkos::HostSpace>::LogDeterminantCoeffGrad(StridedMatrix<const double, Kokkos::HostSpace> const& pts)
 {
     this->CheckCoefficients("LogDeterminantCoeffGrad");
+    this->CheckSize("LogDeterminantCoeffGrad", "number of rows in pts", this->inputDim, pts.extent(0));
     Kokkos::View<double**, Kokkos::HostSpace> output("LogDeterminantCoeffGrad", this->numCoeffs, pts.extent(1));
     LogDeterminantCoeffGradImpl(pts,output);
     return output;
@@ -168,6 +173,7 @@ template<>
 StridedMatrix<double, mpart::DeviceSpace> ConditionalMapBase<mpart::DeviceSpace>::LogDeterminantCoeffGrad(StridedMatrix<const double, mpart::DeviceSpace> const& pts)
 {
     this->CheckCoefficients("LogDeterminantCoeffGrad");
+    this->CheckSize("LogDeterminantCoeffGrad", "number of rows in pts", this->inputDim, pts.extent(0));
     Kokkos::View<double**, mpart::DeviceSpace> output("LogDeterminantCoeffGrad", this->numCoeffs, pts.extent(1));
     LogDeterminantCoeffGradImpl(pts,output);
     return output;
@@ -221,6 +227,7 @@ template<>
 StridedMatrix<double, Kokkos::HostSpace> ConditionalMapBase<Kokkos::HostSpace>::LogDeterminantInputGrad(StridedMatrix<const double, Kokkos::HostSpace> const& pts)
 {
     this->CheckCoefficients("LogDeterminantInputGrad");
+    this->CheckSize("LogDeterminantInputGrad", "number of rows in pts", this->inputDim, pts.extent(0));
 
     Kokkos::View<double**, Kokkos::HostSpace> output("LogDeterminantInputGrad", pts.extent(0), pts.extent(1));
     LogDeterminantInputGradImpl(pts, output);
@@ -245,6 +252,7 @@ template<>
 StridedMatrix<double, mpart::DeviceSpace> ConditionalMapBase<mpart::DeviceSpace>::LogDeterminantInputGrad(StridedMatrix<const double, mpart::DeviceSpace> const& pts)
 {
     this->CheckCoefficients("LogDeterminantInputGrad");
+    this->CheckSize("LogDeterminantInputGrad", "number of rows in pts", this->inputDim, pts.extent(0));
     Kokkos::View<double**, mpart::DeviceSpace> output("LogDeterminantInputGrad", pts.extent(0), pts.extent(1));
     LogDeterminantInputGradImpl(pts,output);
     return output;
diff --git a/src/ParameterizedFunctionBase.cpp b/src/ParameterizedFunctionBase.cpp
index a5151e8..f48fc94 100644
--- a/src/ParameterizedFunctionBase.cpp
+++ b/src/ParameterizedFunctionBase.cpp
@@ -27,6 +27,7 @@ template<>
 StridedMatrix<double, Kokkos::HostSpace> ParameterizedFunctionBase<Kokkos::HostSpace>::Evaluate(StridedMatrix<const double, Kokkos::HostSpace> const& pts)
 {
     CheckCoefficients("Evaluate");
+    this->CheckSize("Evaluate", "number of rows in pts", this->inputDim, pts.extent(0));
 
     Kokkos::View<double**, Kokkos::HostSpace> output("Map Evaluations", outputDim, pts.extent(1));
     EvaluateImpl(pts, output);
@@ -37,6 +38,7 @@ template<>
 Eigen::RowMatrixXd ParameterizedFunctionBase<Kokkos::HostSpace>::Evaluate(Eigen::Ref<const Eigen::RowMatrixXd> const& pts)
 {
     CheckCoefficients("Evaluate");
+    this->CheckSize("Evaluate", "number of rows in pts", this->inputDim, pts.rows());
 
     Eigen::RowMatrixXd output(outputDim, pts.cols());
     StridedMatrix<const double, Kokkos::HostSpace> ptsView = ConstRowMatToKokkos<double,Kokkos::HostSpace>(pts);
@@ -52,6 +54,7 @@ template<>
 StridedMatrix<double, mpart::DeviceSpace> ParameterizedFunctionBase<mpart::DeviceSpace>::Evaluate(StridedMatrix<const double, mpart::DeviceSpace> const& pts)
 {
     CheckCoefficients("Evaluate");
+    this->CheckSize("Evaluate", "number of rows in pts", this->inputDim, pts.extent(0));
 
     Kokkos::View<double**, mpart::DeviceSpace> output("Map Evaluations", outputDim, pts.extent(1));
     EvaluateImpl(pts, output);
@@ -106,6 +109,9 @@ template<>
 StridedMatrix<double, Kokkos::HostSpace> ParameterizedFunctionBase<Kokkos::HostSpace>::Gradient(StridedMatrix<const double, Kokkos::HostSpace> const& pts, StridedMatrix<const double, Kokkos::HostSpace> const& sens)
 {
     CheckCoefficients("Gradient");
+    this->CheckSize("Gradient", "number of rows in pts", this->inputDim, pts.extent(0));
+    this->CheckSize("Gradient", "number of rows in sens", this->outputDim, sens.extent(0));
+    this->CheckSize("Gradient", "number of columns in sens", pts.extent(1), sens.extent(1));
 
     Kokkos::View<double**, Kokkos::HostSpace> output("Gradients", inputDim, pts.extent(1));
     GradientImpl(pts, sens, output);
@@ -116,6 +122,9 @@ template<>
 Eigen::RowMatrixXd ParameterizedFunctionBase<Kokkos::HostSpace>::Gradient(Eigen::Ref<const Eigen::RowMatrixXd> const& pts, Eigen::Ref<const Eigen::RowMatrixXd> const& sens)
 {
     CheckCoefficients("Gradient");
+    this->CheckSize("Gradient", "number of rows in pts", this->inputDim, pts.rows());
+    this->CheckSize("Gradient", "number of rows in sens", this->outputDim, sens.rows());
+    this->CheckSize("Gradient", "number of columns in sens", pts.cols(), sens.cols());
 
     Eigen::RowMatrixXd output(inputDim, pts.cols());
     StridedMatrix<const double, Kokkos::HostSpace> ptsView = ConstRowMatToKokkos<double,Kokkos::HostSpace>(pts);
@@ -132,6 +141,9 @@ template<>
 StridedMatrix<double, mpart::DeviceSpace> ParameterizedFunctionBase<mpart::DeviceSpace>::Gradient(StridedMatrix<const double, mpart::DeviceSpace> const& pts, StridedMatrix<const double, mpart::DeviceSpace> const& sens)
 {
     CheckCoefficients("Gradient");
+    this->CheckSize("Gradient", "number of rows in pts", this->inputDim, pts.extent(0));
+    this->CheckSize("Gradient", "number of rows in sens", this->outputDim, sens.extent(0));
+    this->CheckSize("Gradient", "number of columns in sens", pts.extent(1), sens.extent(1));
 
     Kokkos::View<double**, mpart::DeviceSpace> output("Map Evaluations", outputDim, pts.extent(1));
     GradientImpl(pts, sens, output);
@@ -271,6 +283,9 @@ StridedMatrix<double, Kokkos::HostSpace> ParameterizedFunctionBase<Kokkos::HostS
                                                                                                  StridedMatrix<const double, Kokkos::HostSpace> const& sens)
 {
     CheckCoefficients("CoeffGrad");
+    this->CheckSize("CoeffGrad", "number of rows in pts", this->inputDim, pts.extent(0));
+    this->CheckSize("CoeffGrad", "number of rows in sens", this->outputDim, sens.extent(0));
+    this->CheckSize("CoeffGrad", "number of columns in sens", pts.extent(1), sens.extent(1));
     Kokkos::View<double**, Kokkos::HostSpace> output("Coeff Grad", numCoeffs, pts.extent(1));
     CoeffGradImpl(pts,sens, output);
     return output;
@@ -296,6 +311,9 @@ StridedMatrix<double, mpart::DeviceSpace> ParameterizedFunctionBase<mpart::Devic
                                                                                                    StridedMatrix<const double, mpart::DeviceSpace> const& sens)
 {
     CheckCoefficients("CoeffGrad");
+    this->CheckSize("CoeffGrad", "number of rows in pts", this->inputDim, pts.extent(0));
+    this->CheckSize("CoeffGrad", "number of rows in sens", this->outputDim, sens.extent(0));
+    this->CheckSize("CoeffGrad", "number of columns in sens", pts.extent(1), sens.extent(1));
     Kokkos::View<double**, mpart::DeviceSpace> output("Coeff Grad", numCoeffs, pts.extent(1));
     CoeffGradImpl(pts,sens, output);
     return output;
@@ -361,6 +379,16 @@ void ParameterizedFunctionBase<MemorySpace>::CheckCoefficients(std::string const
     }
 }
 
+template<typename MemorySpace>
+void ParameterizedFunctionBase<MemorySpace>::CheckSize(const char* functionName, const char* sizeName, size_t expected, size_t size) const
+{
+    if(size!=expected){
+        std::stringstream msg;
+        msg << "Error in \"" << functionName << "\", the " << sizeName << " should be " << expected << ", but is " << size << ".";
+        throw std::invalid_argument(msg.str());
+    }
+}
+
 
 // Explicit template instantiation
 template class mpart::ParameterizedFunctionBase<Kokkos::HostSpace>;
diff --git a/src/SummarizedMap.cpp b/src/SummarizedMap.cpp
index 0bebf9a..a94f82d 100644
--- a/src/SummarizedMap.cpp
+++ b/src/SummarizedMap.cpp
@@ -126,6 +126,8 @@ void SummarizedMap<MemorySpace>::InverseImpl(StridedMatrix<const double, MemoryS
                                              StridedMatrix<const double, MemorySpace> const& r,
                                              StridedMatrix<double, MemorySpace>              output)
 {
+    if(x1.extent(0)<sumFunc_->inputDim)
+        this->CheckSize("Inverse", "number of rows in x1", sumFunc_->inputDim, x1.extent(0));
 
     // Create a view to hold pts to summarize
     StridedMatrix<const double, MemorySpace> ptsToSummarize = Kokkos::subview(x1, std::make_pair(0, int(sumFunc_->inputDim)), Kokkos::ALL());
diff --git a/src/TriangularMap.cpp b/src/TriangularMap.cpp
index 5e8c9a5..10fbb46 100644
--- a/src/TriangularMap.cpp
+++ b/src/TriangularMap.cpp
@@ -150,6 +150,9 @@ void TriangularMap<MemorySpace>::InverseImpl(StridedMatrix<const double, MemoryS
 {
     unsigned int ipdim = this->inputDim;
     unsigned int opdim = this->outputDim;
+    if((x1.extent(0)<ipdim-opdim)||(x1.extent(0)>ipdim)) // more than the leading inputs is fine, as long as they are inputs
+        this->CheckSize("Inverse", "number of rows in x1", ipdim-opdim, x1.extent(0));
+
     Kokkos::View<double**, MemorySpace> fullOut("Full Output", ipdim, x1.extent(1));
     Kokkos::deep_copy(Kokkos::subview(fullOut, std::make_pair(0,int(x1.extent(0))), Kokkos::ALL()), x1);
 
-- 
2.43.0


From c6b354b7a889dd46c31e09e5bb29c4427a0f0da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:16 +0000
Subject: [PATCH 43/43] fix: adaptive quadrature stops refining once the error
 estimate is not a number

---
 MParT/Quadrature.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index d1b01d3..fdea632 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -623,8 +623,8 @@ public:
             // Check to see if the error is small enough or if we've hit the maximum number of subdivisions
             this->EstimateError(intCoarse, intFine, error, errorTol);
 
-            // Checking for convergence or other termination criteria
-            if((((error<errorTol)||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
+            // Checking for convergence or other termination criteria.  Refining cannot help if the error is not a number.
+            if(((!(error>=errorTol)||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
 
                 for(unsigned int i=0; i<this->fdim_; ++i){
                     res[i] += intFine[i];
@@ -913,8 +913,8 @@ public:
             // Check to see if the error is small enough or if we've hit the maximum number of subdivisions
             this->EstimateError(intCoarse, intFine, error, errorTol);
 
-            // Checking for convergence or other termination criteria
-            if((((error<errorTol)||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
+            // Checking for convergence or other termination criteria.  Refining cannot help if the error is not a number.
+            if(((!(error>=errorTol)||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
 
                 for(unsigned int i=0; i<this->fdim_; ++i){
                     res[i] += intFine[i];
-- 
2.43.0

