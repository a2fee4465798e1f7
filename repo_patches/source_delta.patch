From bc2e6c1a6c3a6885428301e2646c91ed428d1513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 01/63] fix: HaddRankone must not write into memory shared with
 other elements

---
 Manifolds/Element.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 40d25ab..855f3b2 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1616,8 +1616,9 @@ namespace ROPTLIB{
         integer m = Getrow(), n = Getcol();
         const realdp *uptr = u.ObtainReadData();
         const realdp *vptr = v.ObtainReadData();
+        realdp *thisptr = this->ObtainWritePartialData();
 
-        ger_(&m, &n, &scalar, const_cast<realdp *> (uptr), &GLOBAL::IONE, const_cast<realdp *> (vptr), &GLOBAL::IONE, Space, &m);
+        ger_(&m, &n, &scalar, const_cast<realdp *> (uptr), &GLOBAL::IONE, const_cast<realdp *> (vptr), &GLOBAL::IONE, thisptr, &m);
         
         return *this;
     };
@@ -1631,9 +1632,10 @@ namespace ROPTLIB{
         integer m = Getrow(), n = Getcol();
         const realdp *uptr = u.ObtainReadData();
         const realdp *vptr = v.ObtainReadData();
+        realdp *thisptr = this->ObtainWritePartialData();
 
         ger_(&m, &n, &scalar, const_cast<realdpcomplex *> ((realdpcomplex *) uptr), &GLOBAL::IONE, const_cast<realdpcomplex *> ((realdpcomplex *) vptr), &GLOBAL::IONE,
-                 (realdpcomplex *) Space, &m);
+                 (realdpcomplex *) thisptr, &m);
         
         return *this;
     };
-- 
2.43.0


From 3e15cd637112b32bab6a28552296ef86f94b4120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 02/63] fix: Conj must not write into memory shared with other
 elements

---
 Manifolds/Element.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 855f3b2..48ab634 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1950,7 +1950,8 @@ namespace ROPTLIB{
         assert(Space != nullptr);
         assert(iscomplex);
         integer num = length / 2;
-        scal_(&num, &GLOBAL::DNONE, Space + 1, &GLOBAL::ITWO);
+        realdp *thisptr = this->ObtainWritePartialData();
+        scal_(&num, &GLOBAL::DNONE, thisptr + 1, &GLOBAL::ITWO);
         return (*this);
     };
 
-- 
2.43.0


From 19da5cc62f578ce52f3a05ae846223d311fdf494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 03/63] fix: SubmatrixAssignment keeps the entries outside the
 assigned block when the memory is shared

---
 Manifolds/Element.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 48ab634..c1aa464 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2238,7 +2238,7 @@ namespace ROPTLIB{
         assert(rend - rstart + 1 == mat.Getrow() && cend - cstart + 1 == mat.Getcol() && mat.Getiscomplex() == iscomplex);
         const realdp *matptr = mat.ObtainReadData();
         integer matrow = mat.Getrow();
-        this->NewMemoryOnWrite();
+        this->ObtainWritePartialData();
         if(!iscomplex)
         {
             for(integer j = cstart; j <= cend; j++)
-- 
2.43.0


From d8fb4e6b610ec6dcdef74d3b3ea10e36274cb754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 04/63] fix: exponential map of the sphere at the zero tangent
 vector

---
 Manifolds/Sphere.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index a528d33..4f5dc84 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -58,7 +58,7 @@ namespace ROPTLIB{
 	Variable &Sphere::ExpRetraction(const Variable &x, const Vector &etax, Variable *result) const
 	{
 		realdp normetax = sqrt(Metric(x, etax, etax));
-		VectorLinearCombination(x, cos(normetax), x, sin(normetax) / normetax, etax, result);
+		VectorLinearCombination(x, cos(normetax), x, (normetax == 0) ? static_cast<realdp> (1) : sin(normetax) / normetax, etax, result);
 		realdp normresult = sqrt(Metric(x, *result, *result));
 		return ScalarTimesVector(x, static_cast<realdp> (1) / normresult, *result, result);
 	};
@@ -68,6 +68,8 @@ namespace ROPTLIB{
 		realdp xiytx = Metric(x, x, xiy);
 		realdp xiytetax = Metric(x, xiy, etax);
 		realdp normetax = sqrt(Metric(x, etax, etax));
+		if (normetax == 0)
+			return Projection(x, xiy, result);
 		realdp sinnormetax = sin(normetax);
 		realdp cosnormetax = cos(normetax);
 		VectorLinearCombination(x, sinnormetax / normetax, xiy, (xiytetax * cosnormetax / normetax
@@ -79,6 +81,11 @@ namespace ROPTLIB{
 	{
 		realdp etaxtxix = Metric(x, etax, xix);
 		realdp normetax = sqrt(Metric(x, etax, etax));
+		if (normetax == 0)
+		{
+			*result = xix;
+			return *result;
+		}
 		realdp sinnormetax = sin(normetax);
         VectorLinearCombination(x, -sinnormetax * etaxtxix / normetax, x, sinnormetax / normetax, xix, result);
         ScalarVectorAddVector(x, (cos(normetax) - sinnormetax / normetax) * etaxtxix / normetax / normetax, etax, *result, result);
-- 
2.43.0


From 366cbf284cf23ba7bbbf02e97d5d3b2f67a2246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 05/63] fix: dimensions of the rank one update in
 Sphere::ExpHInvTran

---
 Manifolds/Sphere.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index 4f5dc84..fbcf51e 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -147,7 +147,7 @@ namespace ROPTLIB{
 		realdp *resultL = result->ObtainWritePartialData();
 		/* resultL(:, start : start + length - 1) <- scalar * Hxpy * xv^T + resultL(:, start : start + length - 1),
 		details: www.netlib.org/lapack/explore-html/dc/da8/ger_8f.html */
-		ger_(&length, &ell, &scalar, Hxpy, &GLOBAL::IONE, const_cast<realdp *> (xv), &GLOBAL::IONE, resultL + start * ell, &ell);
+		ger_(&ell, &length, &scalar, Hxpy, &GLOBAL::IONE, const_cast<realdp *> (xv), &GLOBAL::IONE, resultL + start * ell, &ell);
 
 		delete[] Hxpy;
         return *result;
-- 
2.43.0


From 2ae61c46aaa85114915c3b8f437cabcba9d640db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 06/63] fix: Riemannian Hessian of the Stiefel manifold under
 the canonical metric

---
 Manifolds/Stiefel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index 6fbe5d5..57df275 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -358,10 +358,10 @@ namespace ROPTLIB{
         result->AlphaABaddBetaThis(-1, x, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x)*/
         tmp3 = (tmp - tmp.GetTranspose()) / 2;
         result->AlphaABaddBetaThis(-1, x, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2*/
-        tmp3.AlphaABaddBetaThis(1, EGrad, GLOBAL::T, x, GLOBAL::N, 0);
+        tmp3.AlphaABaddBetaThis(0.5, EGrad, GLOBAL::T, x, GLOBAL::N, 0);
         result->AlphaABaddBetaThis(-1, etax, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x)*/
         tmp3.AlphaABaddBetaThis(0.5, etax, GLOBAL::T, x, GLOBAL::N, 0);
-        result->AlphaABaddBetaThis(-1, EGrad, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2*/
+        result->AlphaABaddBetaThis(1, EGrad, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2*/
         result->AlphaABaddBetaThis(-0.5, etax, GLOBAL::N, tmp2, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2 - 0.5 * etax * tmp2*/
         tmp.AlphaABaddBetaThis(1, tmp3, GLOBAL::T, tmp2, GLOBAL::N, 0);
         result->AlphaABaddBetaThis(1, x, GLOBAL::N, tmp, GLOBAL::N, 1); /* exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2 - 0.5 * etax * tmp2 + 0.5 * x * (x.GetTranspose() * etax) * tmp2; */
-- 
2.43.0


From 59a2e8cfb7f3eb660cbe8b9a2a3f4dccfbd82c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 07/63] fix: LinearOPEEta for complex and three dimensional
 elements

---
 Manifolds/Manifold.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 7f2125b..9bbb8d8 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -27,10 +27,13 @@ namespace ROPTLIB{
         bool etaxiscomplex = etax.Getiscomplex();
         etax.Setiscomplex(false);
         Vector etaxreshape = etax; etaxreshape.Reshape(etax.Getlength());
-        result->AlphaABaddBetaThis(1, Hx, GLOBAL::N, etaxreshape, GLOBAL::N, 0);
         etax.Setiscomplex(etaxiscomplex);
+        integer row = etax.Getrow(), col = etax.Getcol(), num = etax.Getnum();
+        result->Setiscomplex(false);
+        result->Reshape(result->Getlength());
+        result->AlphaABaddBetaThis(1, Hx, GLOBAL::N, etaxreshape, GLOBAL::N, 0);
         result->Setiscomplex(etaxiscomplex);
-        result->Reshape(etax.Getrow(), etax.Getcol(), etax.Getnum());
+        result->Reshape(row, col, num);
         return *result;
 	};
 
-- 
2.43.0


From ab88ef47f24d6537a793ce8f7638bc4889538c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 08/63] fix: MultiManifolds::Beta must override Manifold::Beta
 and read the tangent vector

---
 Manifolds/MultiManifolds.cpp | 6 +++---
 Manifolds/MultiManifolds.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 4a53cd0..15fbfbc 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -266,7 +266,7 @@ namespace ROPTLIB{
         return *result;
 	};
 
-	realdp MultiManifolds::Beta(const Variable &x, Vector &etax) const
+	realdp MultiManifolds::Beta(const Variable &x, const Vector &etax) const
 	{
 		if (!HasHHR)
 			return 1;
@@ -283,9 +283,9 @@ namespace ROPTLIB{
 		{
 			for (integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
 			{
-				if (x.GetElement(j).FieldsExist("beta"))
+				if (etax.GetElement(j).FieldsExist("beta"))
 				{
-					betav = x.GetElement(j).Field("beta").ObtainReadData();
+					betav = etax.GetElement(j).Field("beta").ObtainReadData();
 					numerator += betav[1];
 					denominator += betav[2];
 				}
diff --git a/Manifolds/MultiManifolds.h b/Manifolds/MultiManifolds.h
index b10c763..0b0490e 100644
--- a/Manifolds/MultiManifolds.h
+++ b/Manifolds/MultiManifolds.h
@@ -121,7 +121,7 @@ namespace ROPTLIB{
 		/*computes beta = \|etax\| / \|\mathcal{T}_{R_etax} etax\|
 		Default: etax = (etax_1, dots, eta_n);
 		beta = \sqrt(sum \|eta_i\|_2^2) / \sqrt(sum \|\mathcal{T}_{R_{etax_i}} etax_i\|) */
-        virtual realdp Beta(const Variable &x, Vector &etax) const;
+        virtual realdp Beta(const Variable &x, const Vector &etax) const;
 
 		/*compute the distance between two points on the manifold.
 		Default: sqrt(dist_M1(x1_1, x2_2)^2 + dist_M2(x1_2, x2_2)^2 + ... + dist_M1(x1_n, x2_n)^2)
-- 
2.43.0


From 257b4de5154416113126a530e88076571484fa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 09/63] fix: Manifold::Beta returns the ratio computed by the
 differentiated retraction under the locking condition

---
 Manifolds/Manifold.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index 9bbb8d8..da4e38e 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -162,6 +162,11 @@ namespace ROPTLIB{
         #ifdef CHECKMANIFOLDOVERRIDDEN
                 printf("Manifold::Beta has not been overridden!\n");
         #endif
+		if (HasHHR && etax.FieldsExist("beta"))
+		{
+            Vector beta = etax.Field("beta");
+            return beta.ObtainReadData()[0];
+		}
 		return 1;
 	};
 
-- 
2.43.0


From c37a25749902d78224b36c5227a10e22eb3fe2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 10/63] fix: affine invariant distance of SPD matrices takes
 the logarithm of the eigenvalues

---
 Manifolds/SPDManifold.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index 776398c..8abc760 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -443,7 +443,10 @@ namespace ROPTLIB{
         Vector tmp = x2.Field("_L").TriangleLinSol(x1.Field("_L"));
         Vector tmp2(EMPTYEXTR); tmp2.AlphaABaddBetaThis(1, tmp, GLOBAL::N, tmp, GLOBAL::T, 0);
         tmp2.EigenDecomSym();
-        Vector EigVals = tmp2.Field("_EigVal");
+        Vector EigVals = tmp2.Field("_EigVal");
+        realdp *EigValsptr = EigVals.ObtainWritePartialData();
+        for (integer i = 0; i < n; i++)
+            EigValsptr[i] = log(EigValsptr[i]);
         return EigVals.Fnorm();
 	};
 
-- 
2.43.0


From 8f26e0a5ee6bae0615556ef0ef9a72784b0bb5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 11/63] fix: parallel translation of SPD matrices

---
 Manifolds/SPDManifold.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index 8abc760..fbb8e1c 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -506,7 +506,7 @@ namespace ROPTLIB{
         Vector LiELiThalf = LiE.GetTranspose().TriangleLinSol(x.Field("_L"));
         LiELiThalf.ScalarTimesThis(0.5);
         Vector tmp = x.Field("_L") * LiELiThalf.ExpSym().TriangleLinSol(x.Field("_L"), GLOBAL::T).GetTranspose();
-        LiE.AlphaABaddBetaThis(0, tmp, GLOBAL::N, exxix, GLOBAL::N, 0); /*LiE is for temporary storage*/
+        LiE.AlphaABaddBetaThis(1, tmp, GLOBAL::N, exxix, GLOBAL::N, 0); /*LiE is for temporary storage*/
         result->AlphaABaddBetaThis(1, LiE, GLOBAL::N, tmp, GLOBAL::T, 0); /* *result = tmp * exxix * tmp.GetTranspose(); */
         return *result;
     };
-- 
2.43.0


From 67e72735d9910d6d2c6e212037b572088fa858dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 12/63] fix: FixedRankE::ObtainNorVerIntr computes the
 decompositions of the factors when they are missing

---
 Manifolds/FixedRankE.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 84ca83b..07840a8 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -116,6 +116,16 @@ namespace ROPTLIB{
     Vector &FixedRankE::ObtainNorVerIntr(const Variable &x, const Vector &etax, Vector *result) const
     {
         Vector U = x.Field("U"), D = x.Field("D"), V = x.Field("V");
+        if(!(U.FieldsExist("_HHR")))
+        {
+            U.HHRDecom();
+            x.AddToFields("U", U);
+        }
+        if(!(V.FieldsExist("_HHR")))
+        {
+            V.HHRDecom();
+            x.AddToFields("V", V);
+        }
         Vector QUTetax = etax.HHRMtp(U.Field("_HHR"), U.Field("_tau"), GLOBAL::T, GLOBAL::L);
         Vector QUTetaxQV = QUTetax.HHRMtp(V.Field("_HHR"), V.Field("_tau"), GLOBAL::N, GLOBAL::R);
         const realdp *QUTetaxQVptr = QUTetaxQV.ObtainReadData();
-- 
2.43.0


From 7860b29e8297c0830a87923be07915b33c1b8cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 13/63] fix: inverse vector transport of FixedRankQ2F takes the
 coordinates at y

---
 Manifolds/FixedRankQ2F.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/FixedRankQ2F.cpp b/Manifolds/FixedRankQ2F.cpp
index 7691906..9c6b456 100644
--- a/Manifolds/FixedRankQ2F.cpp
+++ b/Manifolds/FixedRankQ2F.cpp
@@ -353,7 +353,7 @@ namespace ROPTLIB{
             return *result;
         }
         
-        Vector inxiy(EMPTYINTR); ObtainIntr(x, xiy, &inxiy);
+        Vector inxiy(EMPTYINTR); ObtainIntr(y, xiy, &inxiy);
         return ObtainExtr(x, inxiy, result);
     };
 
-- 
2.43.0


From e6bc3195c5a8b8eb04719aadc968a696e86c15e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 14/63] fix: intrinsic dimension of FixedRankQ2F

---
 Manifolds/FixedRankQ2F.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Manifolds/FixedRankQ2F.cpp b/Manifolds/FixedRankQ2F.cpp
index 9c6b456..21d2346 100644
--- a/Manifolds/FixedRankQ2F.cpp
+++ b/Manifolds/FixedRankQ2F.cpp
@@ -15,7 +15,8 @@ namespace ROPTLIB{
         Vector F1(m, r), F2(n, r);
         Vector Prod(2, &F1, 1, &F2, 1);
         EMPTYEXTR = Prod;
-		EMPTYINTR = Vector ((m + n - r) * r);
+		IntrinsicDim = (m + n - r) * r;
+		EMPTYINTR = Vector (IntrinsicDim);
 	};
 
     void FixedRankQ2F::CheckParams(void) const
-- 
2.43.0


From 0f9be7e108fecfd1d3dd737eb7158258298cf5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 15/63] fix: gradient and Hessian conversion of FixedRankQ2F
 allow the input and the result to be the same

---
 Manifolds/FixedRankQ2F.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Manifolds/FixedRankQ2F.cpp b/Manifolds/FixedRankQ2F.cpp
index 21d2346..13fff30 100644
--- a/Manifolds/FixedRankQ2F.cpp
+++ b/Manifolds/FixedRankQ2F.cpp
@@ -509,6 +509,8 @@ namespace ROPTLIB{
             x.AddToFields("EGrad", Sharedegf);
         }
         
+        /*egf and result may be the same. Store egf first then allocate memory for result.*/
+        Vector inegf = egf;
         result->NewMemoryOnWrite();
         
         Vector G = x.GetElement(0), H = x.GetElement(1);
@@ -525,7 +527,7 @@ namespace ROPTLIB{
             x.GetElement(1).AddToFields("_L", tmp.Field("_L"));
         }
         
-        Vector egfG = egf.GetElement(0), egfH = egf.GetElement(1);
+        Vector egfG = inegf.GetElement(0), egfH = inegf.GetElement(1);
         Vector LG = x.GetElement(0).Field("_L"), LH = x.GetElement(1).Field("_L");
         
         Vector tmpG = egfG.GetTranspose().TriangleLinSol(LH, GLOBAL::N).TriangleLinSol(LH, GLOBAL::T).GetTranspose();
@@ -543,7 +545,8 @@ namespace ROPTLIB{
         Vector dG = etax.GetElement(0), dH = etax.GetElement(1);
         Vector EGrad = x.Field("EGrad");
         Vector EG_dG = EGrad.GetElement(0), EG_dH = EGrad.GetElement(1);
-        Vector EH_dG = exix.GetElement(0), EH_dH = exix.GetElement(1);
+        Vector inexix = exix; /*exix and result may be the same*/
+        Vector EH_dG = inexix.GetElement(0), EH_dH = inexix.GetElement(1);
         
         result->NewMemoryOnWrite();
         
-- 
2.43.0


From f95648950613757419b7bfbb6e0ca4607321bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 16/63] fix: SphereTx::EucHvToHv allows exix and result to be
 the same

---
 Manifolds/SphereTx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/SphereTx.cpp b/Manifolds/SphereTx.cpp
index 4c61b58..8de9a4b 100644
--- a/Manifolds/SphereTx.cpp
+++ b/Manifolds/SphereTx.cpp
@@ -160,7 +160,7 @@ namespace ROPTLIB{
 	{
         Vector EGrad = x.Field("EGrad");
         
-        mani->VectorLinearCombination(root, 1, exix, - mani->Metric(root, EGrad, x), etax, result);
+        mani->VectorLinearCombination(root, - mani->Metric(root, EGrad, x), etax, 1, exix, result);
         return Projection(x, *result, result);
 	};
 }; /*end of ROPTLIB namespace*/
-- 
2.43.0


From 1c15411434d14069d8782fad21e74d7018f00c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 17/63] fix: SymFixedRankQ::ObtainExtrQEUC computes the basis
 when it is not available yet

---
 Manifolds/SymFixedRankQ.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index f2187ce..141069b 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -699,6 +699,12 @@ namespace ROPTLIB{
         }
         
         integer dim = p * (p + 1) / 2;
+        if(!x.FieldsExist("BL"))
+        { /*BL is computed in ObtainIntrQEUC*/
+            Vector exzero(EMPTYEXTR), inzero(EMPTYINTR);
+            exzero.SetToZeros();
+            ObtainIntrQEUC(x, exzero, &inzero);
+        }
         Vector BL = x.Field("BL");
         
         Vector tmp = BL.GetTranspose() % intretax.GetSubmatrix(0, dim - 1, 0, 0);
-- 
2.43.0


From 6471a2adf1b79c0d7c3eaec39d206bd9babe73e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 18/63] fix: inverse vector transport of the SPD manifold

---
 Manifolds/SPDManifold.cpp | 18 ++++++++++++++++++
 Manifolds/SPDManifold.h   |  3 +++
 2 files changed, 21 insertions(+)

diff --git a/Manifolds/SPDManifold.cpp b/Manifolds/SPDManifold.cpp
index fbb8e1c..391cf45 100644
--- a/Manifolds/SPDManifold.cpp
+++ b/Manifolds/SPDManifold.cpp
@@ -484,6 +484,24 @@ namespace ROPTLIB{
         return VectorTransportParallelization(x, etax, y, xix, result);
     };
 
+    Vector &SPDManifold::InverseVectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xiy, Vector *result) const
+    {
+        if (VecTran == SPDPARATRAN)
+        { /*the inverse of the translation along etax is the same linear map with -etax*/
+            Vector negetax(etax);
+            negetax.ScalarTimesThis(-1);
+            return ParallelTranslation(x, negetax, y, xiy, result);
+        }
+        
+        if(IsIntrApproach)
+        {
+            *result = xiy;
+            return *result;
+        }
+        Vector tmp(EMPTYINTR); ObtainIntr(y, xiy, &tmp);
+        return ObtainExtr(x, tmp, result);
+    };
+
     Vector &SPDManifold::ParallelTranslation(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
     {
         if (!x.FieldsExist("_L"))
diff --git a/Manifolds/SPDManifold.h b/Manifolds/SPDManifold.h
index 9de6fcb..92d5bc5 100644
--- a/Manifolds/SPDManifold.h
+++ b/Manifolds/SPDManifold.h
@@ -89,6 +89,9 @@ namespace ROPTLIB{
 
         /*Computes the vector transport, i.e., result = \mathcal{T}_etax (xix)*/
         virtual Vector &VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const;
+
+        /*the inverse of the vector transport*/
+        virtual Vector &InverseVectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xiy, Vector *result) const;
         
 	protected:
 		integer n; /*The size of the space, i.e., the number of row/column */
-- 
2.43.0


From d08e6950cb4f7d244b677576683f84004b065d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 19/63] fix: cotangent vector of the exponential map of the
 sphere allows xiy and result to be the same

---
 Manifolds/Sphere.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/Sphere.cpp b/Manifolds/Sphere.cpp
index fbcf51e..c4c37a8 100644
--- a/Manifolds/Sphere.cpp
+++ b/Manifolds/Sphere.cpp
@@ -72,8 +72,8 @@ namespace ROPTLIB{
 			return Projection(x, xiy, result);
 		realdp sinnormetax = sin(normetax);
 		realdp cosnormetax = cos(normetax);
-		VectorLinearCombination(x, sinnormetax / normetax, xiy, (xiytetax * cosnormetax / normetax
-			- xiytx * sinnormetax - xiytetax * sinnormetax / normetax / normetax) / normetax, etax, result);
+		VectorLinearCombination(x, (xiytetax * cosnormetax / normetax
+			- xiytx * sinnormetax - xiytetax * sinnormetax / normetax / normetax) / normetax, etax, sinnormetax / normetax, xiy, result);
 		return Projection(x, *result, result);
 	};
 
-- 
2.43.0


From 5857d84ab538fc811a42a2d508f0acffb8b1ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 20/63] fix: differentiated Cayley retraction along the step
 allows xix and result to be the same

---
 Manifolds/Stiefel.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Manifolds/Stiefel.cpp b/Manifolds/Stiefel.cpp
index 57df275..e001895 100644
--- a/Manifolds/Stiefel.cpp
+++ b/Manifolds/Stiefel.cpp
@@ -851,18 +851,20 @@ namespace ROPTLIB{
 			gemm_(GLOBAL::N, GLOBAL::N, &N, &P, &P2, &GLOBAL::DONE, const_cast<realdp *> (Uptr), &N, tmp, &P2, &GLOBAL::DZERO, exresultptr, &N);
 
 			delete[] Mk2Mk3;
+			/*xix and result can be a same argument*/
+			const realdp normxixsq = Metric(x, xix, xix);
             if(IsIntrApproach)
                 ObtainIntr(x, exresult, result);
             else
                 *result = exresult;
             
-			ScalarTimesVector(x, sqrt(Metric(x, xix, xix) / Metric(x, etax, etax)), *result, result);
+			ScalarTimesVector(x, sqrt(normxixsq / Metric(x, etax, etax)), *result, result);
 
             if (IsEtaXiSameDir && HasHHR)
             {
                 Vector beta(3);
                 realdp *betaptr = beta.ObtainWriteEntireData();
-                realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, xix, xix));
+                realdp EtatoXi = sqrt(Metric(x, etax, etax) / normxixsq);
                 betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
                 betaptr[1] = Metric(x, etax, etax);
                 betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
-- 
2.43.0


From 9c86de19ee5c9fdf964bba65e087bff873dbdb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 21/63] fix: FixedRankE initialises the locking condition
 option

---
 Manifolds/FixedRankE.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 07840a8..71477b5 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -10,6 +10,7 @@ namespace ROPTLIB{
 		n = inn;
 		r = inr;
 		name.assign("FixedRankEmbedded");
+        HasHHR = false;
         IsIntrApproach = false;
         ExtrinsicDim = n * m;
         IntrinsicDim = (m - r) * r + r * r + (n - r) * r;
-- 
2.43.0


From b8ac2d2bf247f8fd177ca105ec86f1fb469e9dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:11 +0000
Subject: [PATCH 22/63] fix: differentiated retraction of FixedRankE along a
 step that moves only some of the factors

---
 Manifolds/FixedRankE.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index 71477b5..b1e7661 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -215,19 +215,18 @@ namespace ROPTLIB{
             Vector Dx = x.Field("D"), Dy = y.Field("D");
             Vector Vx = x.Field("V"), dVeta = etax.Field("dV"), Vy = y.Field("V"), dVxix = xix.Field("dV");
             
-            realdp alpha1 = sqrt(dUxix.DotProduct(dUxix) / dUeta.DotProduct(dUeta));
+            realdp alpha = sqrt(Metric(x, xix, xix) / Metric(x, etax, etax)); /*dUeta or dVeta may be zero*/
             Vector Uy_Vt = Uy.Field("_Vt"), Uy_S = Uy.Field("_S");
             Vector tmp1 = dUeta * Uy_Vt.GetTranspose();
             Uy_S = 1 / Uy_S;
             tmp1 = Uy_S.GetDiagTimesM(tmp1, GLOBAL::R) * Uy_Vt;
-            Vector result1 = (tmp1 - Uy * (tmp1.GetTranspose() * tmp1)) * alpha1;
+            Vector result1 = (tmp1 - Uy * (tmp1.GetTranspose() * tmp1)) * alpha;
             
-            realdp alpha2 = sqrt(dVxix.DotProduct(dVxix) / dVeta.DotProduct(dVeta));
             Vector Vy_Vt = Vy.Field("_Vt"), Vy_S = Vy.Field("_S");
             Vector tmp2 = dVeta * Vy_Vt.GetTranspose();
             Vy_S = 1 / Vy_S;
             tmp2 = Vy_S.GetDiagTimesM(tmp2, GLOBAL::R) * Vy_Vt;
-            Vector result2 = (tmp2 - Vy * (tmp2.GetTranspose() * tmp2)) * alpha2;
+            Vector result2 = (tmp2 - Vy * (tmp2.GetTranspose() * tmp2)) * alpha;
             
             *result = Uy * Dy * result2.GetTranspose() + Uy * xix.Field("dD") * Vy.GetTranspose() + result1 * Dy * Vy.GetTranspose();
             result->AddToFields("dU", result1);
-- 
2.43.0


From 3e25a3e63ea4b2f77a8bfe6f0cb73e6bdcaa3b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 23/63] fix: Euclidean gradients kept for the Hessian do not
 share memory with products or the result

---
 Manifolds/Euclidean.cpp  | 5 ++++-
 Manifolds/FixedRankE.cpp | 8 +++++---
 Manifolds/SphereTx.cpp   | 5 ++++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/Manifolds/Euclidean.cpp b/Manifolds/Euclidean.cpp
index 9976f3f..75e0dae 100644
--- a/Manifolds/Euclidean.cpp
+++ b/Manifolds/Euclidean.cpp
@@ -140,7 +140,10 @@ namespace ROPTLIB{
 	{
         if(prob->GetUseHess())
         {
-            x.AddToFields("EGrad", egf);
+            /*The copy on write is necessary since egf may be a component in a product of elements, see Stiefel::EucGradToGrad.*/
+            Vector EGrad(egf);
+            EGrad.CopyOnWrite();
+            x.AddToFields("EGrad", EGrad);
         }
         *result = egf;
         return *result;
diff --git a/Manifolds/FixedRankE.cpp b/Manifolds/FixedRankE.cpp
index b1e7661..46b938a 100644
--- a/Manifolds/FixedRankE.cpp
+++ b/Manifolds/FixedRankE.cpp
@@ -285,12 +285,14 @@ namespace ROPTLIB{
 
 	Vector &FixedRankE::EucGradToGrad(const Variable &x, const Vector &egf, const Problem *prob, Vector *result)  const
 	{
-        Projection(x, egf, result);
         if(prob->GetUseHess())
         {
-            x.AddToFields("EGrad", egf);
+            /*The copy on write is necessary since egf may be a component in a product of elements, see Stiefel::EucGradToGrad.*/
+            Vector EGrad(egf);
+            EGrad.CopyOnWrite();
+            x.AddToFields("EGrad", EGrad);
         }
-        return *result;
+        return Projection(x, egf, result);
 	};
 
 	Vector &FixedRankE::EucHvToHv(const Variable &x, const Vector &etax, const Vector &exix, const Problem *prob, Vector *result) const
diff --git a/Manifolds/SphereTx.cpp b/Manifolds/SphereTx.cpp
index 8de9a4b..8810145 100644
--- a/Manifolds/SphereTx.cpp
+++ b/Manifolds/SphereTx.cpp
@@ -151,7 +151,10 @@ namespace ROPTLIB{
 	{
         if (prob->GetUseHess())
         {
-            x.AddToFields("EGrad", egf);
+            /*The copy on write is necessary since egf may be a component in a product of elements, see Stiefel::EucGradToGrad.*/
+            Vector EGrad(egf);
+            EGrad.CopyOnWrite();
+            x.AddToFields("EGrad", EGrad);
         }
         return Projection(x, egf, result);
 	};
-- 
2.43.0


From 0875bf4ddf82f89285bb445fc0affcfff4c1db91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 24/63] fix: TranHInvTran of a product of manifolds starts from
 Hx

---
 Manifolds/MultiManifolds.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 15fbfbc..ed558b2 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -387,6 +387,7 @@ namespace ROPTLIB{
 		if (HasHHR)
 			return LCTranHInvTran(x, etax, y, Hx, result);
 
+        *result = Hx;
         result->CopyOnWrite();
         
 		integer start, end = 0;
-- 
2.43.0


From 5704233d3ac7011fa1205756c01521bfc186805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 25/63] fix: products of manifolds in the extrinsic approach
 use it for every operation and restore the components

---
 Manifolds/MultiManifolds.cpp | 64 +++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index ed558b2..1a6eb68 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -3,6 +3,32 @@
 /*Define the namespace*/
 namespace ROPTLIB{
 
+    /*If the product uses the extrinsic approach, i.e., IsIntrApproach is false, then the component manifolds use the
+    extrinsic representation as long as an object of this class exists. Otherwise, the component manifolds are unchanged.*/
+    class ComponentsExtr{
+    public:
+        ComponentsExtr(bool IsIntr, integer innum, Manifold **inmanis) : num(IsIntr ? 0 : innum), manis(inmanis), flags(new bool[innum])
+        {
+            for(integer i = 0; i < num; i++)
+            {
+                flags[i] = manis[i]->GetIsIntrinsic();
+                manis[i]->SetIsIntrApproach(false);
+            }
+        };
+        ~ComponentsExtr(void)
+        {
+            for(integer i = num - 1; i >= 0; i--)
+                manis[i]->SetIsIntrApproach(flags[i]);
+            delete[] flags;
+        };
+    private:
+        ComponentsExtr(const ComponentsExtr &);
+        ComponentsExtr &operator=(const ComponentsExtr &);
+        integer num;
+        Manifold **manis;
+        bool *flags;
+    };
+
 	MultiManifolds::MultiManifolds(integer numberofmanifolds, ...)
 	{
 		numoftypes = numberofmanifolds;
@@ -128,6 +154,7 @@ namespace ROPTLIB{
 
 	realdp MultiManifolds::Metric(const Variable &x, const Vector &etax, const Vector &xix) const
 	{
+        ComponentsExtr extr(IsIntrApproach, numoftypes, manifolds);
         realdp result = 0;
         for(integer i = 0; i < numoftypes; i++)
         {
@@ -161,6 +188,7 @@ namespace ROPTLIB{
 
 	Vector &MultiManifolds::Projection(const Variable &x, const Vector &etax, Vector *result) const
 	{
+        ComponentsExtr extr(IsIntrApproach, numoftypes, manifolds);
         /*etax and result may be the same. Store etax first then new memory for result. Otherwise, the memory in etax is also changed.*/
         Vector inetax = etax;
         result->NewMemoryOnWrite();
@@ -195,28 +223,14 @@ namespace ROPTLIB{
 
 	Variable &MultiManifolds::Retraction(const Variable &x, const Vector &etax, Variable *result) const
 	{
+        ComponentsExtr extr(IsIntrApproach, numoftypes, manifolds);
         result->NewMemoryOnWrite();
         
-        if(IsIntrApproach)
-        {
-            for(integer i = 0; i < numoftypes; i++)
-            {
-                for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
-                {
-                    manifolds[i]->Retraction(x.GetElement(j), etax.GetElement(j), &(result->GetElement(j)));
-                }
-            }
-            return *result;
-        }
-        
-        /*if using extrinsic representation, then*/
         for(integer i = 0; i < numoftypes; i++)
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
-                manifolds[i]->SetIsIntrApproach(false);
                 manifolds[i]->Retraction(x.GetElement(j), etax.GetElement(j), &(result->GetElement(j)));
-                manifolds[i]->SetIsIntrApproach(true);
             }
         }
         return *result;
@@ -224,34 +238,21 @@ namespace ROPTLIB{
 
     Vector &MultiManifolds::InvRetraction(const Variable &x, const Variable &y, Vector *result) const
     {
+        ComponentsExtr extr(IsIntrApproach, numoftypes, manifolds);
         result->NewMemoryOnWrite();
-        if(IsIntrApproach)
-        {
-            for(integer i = 0; i < numoftypes; i++)
-            {
-                for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
-                {
-                    manifolds[i]->InvRetraction(x.GetElement(j), y.GetElement(j), &(result->GetElement(j)));
-                }
-            }
-            return *result;
-        }
-        
         for(integer i = 0; i < numoftypes; i++)
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
-                manifolds[i]->SetIsIntrApproach(false);
                 manifolds[i]->InvRetraction(x.GetElement(j), y.GetElement(j), &(result->GetElement(j)));
-                manifolds[i]->SetIsIntrApproach(true);
             }
         }
-        
         return *result;
     };
 
 	Vector &MultiManifolds::coTangentVector(const Variable &x, const Vector &etax, const Variable &y, const Vector &xiy, Vector *result) const
 	{
+        ComponentsExtr extr(IsIntrApproach, numoftypes, manifolds);
         /*xiy and result may be the same. Store xiy first then allocate memory for result. Otherwise, the memory in xiy may be also changed.*/
         Vector inxiy = xiy;
         result->NewMemoryOnWrite();
@@ -302,6 +303,7 @@ namespace ROPTLIB{
 
 	Vector &MultiManifolds::DiffRetraction(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result, bool IsEtaXiSameDir) const
 	{
+        ComponentsExtr extr(IsIntrApproach, numoftypes, manifolds);
         /*xix and result may be the same. Store xix first then allocate memory for result. Otherwise, the memory in xix may be also changed.*/
         Vector inxix = xix;
         result->NewMemoryOnWrite();
@@ -348,6 +350,7 @@ namespace ROPTLIB{
 
 	Vector &MultiManifolds::VectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xix, Vector *result) const
 	{
+        ComponentsExtr extr(IsIntrApproach, numoftypes, manifolds);
 		if (HasHHR)
 			return LCVectorTransport(x, etax, y, xix, result);
         
@@ -366,6 +369,7 @@ namespace ROPTLIB{
 
 	Vector &MultiManifolds::InverseVectorTransport(const Variable &x, const Vector &etax, const Variable &y, const Vector &xiy, Vector *result) const
 	{
+        ComponentsExtr extr(IsIntrApproach, numoftypes, manifolds);
 		if (HasHHR)
 			return LCInverseVectorTransport(x, etax, y, xiy, result);
         
-- 
2.43.0


From 16aa6ec422bf2c2dd1424834fcabd52a81afadde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:55 +0000
Subject: [PATCH 26/63] fix: the compound assignments of Element update their
 left operand

---
 Manifolds/Element.cpp | 4 ++--
 Manifolds/Element.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index c1aa464..a893ecd 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -214,7 +214,7 @@ namespace ROPTLIB{
         return result;
     };
 
-    Element operator+=(Element left, Element right)
+    Element &operator+=(Element &left, Element right)
     {
         assert(left.Getlength() == right.Getlength());
         realdp *leftptr = left.ObtainWritePartialData();
@@ -290,7 +290,7 @@ namespace ROPTLIB{
         return result;
     };
 
-    Element operator-=(Element left, Element right)
+    Element &operator-=(Element &left, Element right)
     {
         assert(left.Getlength() == right.Getlength());
         realdp *leftptr = left.ObtainWritePartialData();
diff --git a/Manifolds/Element.h b/Manifolds/Element.h
index b541cc1..1d99634 100644
--- a/Manifolds/Element.h
+++ b/Manifolds/Element.h
@@ -65,7 +65,7 @@ namespace ROPTLIB{
         friend Element operator+(realdpcomplex left, Element right);
         
         /*left = left + right*/
-        friend Element operator+=(Element left, Element right);
+        friend Element &operator+=(Element &left, Element right);
         
         /*substract an element from another. They have to be both real or complex*/
         friend Element operator-(Element left, Element right);
@@ -83,7 +83,7 @@ namespace ROPTLIB{
         friend Element operator-(realdpcomplex left, Element right);
         
         /*left = left - right*/
-        friend Element operator-=(Element left, Element right);
+        friend Element &operator-=(Element &left, Element right);
         
         /*a element times another, they have to be both real or complex
          This is matrix multiplication*/
-- 
2.43.0


From 0cb54f38f831596320ab7f9cb897c6aef7a5d619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:55 +0000
Subject: [PATCH 27/63] fix: ScaledIdOPE removes the data attached to the
 overwritten matrix

---
 Manifolds/Element.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index a893ecd..b4be899 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2861,7 +2861,7 @@ namespace ROPTLIB{
             printf("Warning: This is not a square matrix. It can not be assigned to be an identity matrix!\n");
             return;
         }
-        SmartSpace::NewMemoryOnWrite();
+        NewMemoryOnWrite();
         integer ell = size[0];
         for (integer i = 0; i < ell; i++)
         {
-- 
2.43.0


From 826b03da5d6984229b91eb1a07f1629f81aedd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:55 +0000
Subject: [PATCH 28/63] fix: reshaping an Element removes the decompositions of
 its former shape

---
 Manifolds/Element.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index b4be899..bcb6199 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -1811,6 +1811,7 @@ namespace ROPTLIB{
 
     Element &Element::Reshape(integer r, integer c, integer n)
     {
+        RemoveAllFromFields(); /*the decompositions depend on the shape*/
         if(!iscomplex)
         {
             assert(r * c * n == length);
-- 
2.43.0


From 0169ad05bc296f672c281bab42a682dd65ae2975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:55 +0000
Subject: [PATCH 29/63] fix: copying between Elements that share their data
 copies the shape

---
 Manifolds/SmartSpace.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Manifolds/SmartSpace.cpp b/Manifolds/SmartSpace.cpp
index 9d42f3d..978c9bf 100644
--- a/Manifolds/SmartSpace.cpp
+++ b/Manifolds/SmartSpace.cpp
@@ -85,9 +85,16 @@ namespace ROPTLIB{
 
 	void SmartSpace::CopyTo(SmartSpace &eta) const
 	{
-		if (this == &eta || (eta.Space == Space && !(eta.Space == nullptr && Space == nullptr)))
+		if (this == &eta)
 			return;
         
+		if (eta.Space == Space && Space != nullptr && eta.ls == ls && eta.length == length)
+		{ /*the data are shared already, the shapes may be different.*/
+			for (integer i = 0; i < ls; i++)
+				eta.size[i] = size[i];
+			return;
+		}
+        
 		bool IsSameSize = true;
         
 		if (eta.ls != ls)
-- 
2.43.0


From 7c48d62c94eeae8044ea9d033ea06868a8740beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:55 +0000
Subject: [PATCH 30/63] fix: copying a product of Elements copies the shapes of
 its components

---
 Manifolds/Element.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index bcb6199..c89f8ae 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2928,11 +2928,19 @@ namespace ROPTLIB{
         if(numoftypes != innumoftypes || numofelements != innumofelements)
             issamesize = false;
         
+        for(integer i = 0; issamesize && i <= innumoftypes; i++)
+        {
+            if(powsinterval[i] != inpowsinterval[i])
+                issamesize = false;
+        }
+        
         if(issamesize)
         {
             for(integer i = 0; i < innumofelements; i++)
             {
-                if(inelements[i].Getlength() != elements[i].Getlength())
+                if(inelements[i].Getlength() != elements[i].Getlength() || inelements[i].Getiscomplex() != elements[i].Getiscomplex()
+                   || inelements[i].Getsize()[0] != elements[i].Getsize()[0] || inelements[i].Getsize()[1] != elements[i].Getsize()[1]
+                   || inelements[i].Getsize()[2] != elements[i].Getsize()[2])
                 {
                     issamesize = false;
                     break;
-- 
2.43.0


From 072df9021ad9d636e4445de9a280d4fd0c1f9eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:55 +0000
Subject: [PATCH 31/63] fix: copying a product of Elements removes the data
 attached to the overwritten components

---
 Manifolds/Element.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index c89f8ae..7320a55 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2597,6 +2597,8 @@ namespace ROPTLIB{
         {
             for(integer j = powsinterval[i]; j < powsinterval[i + 1]; j++)
             {
+                if(this != &eta)
+                    eta.GetElement(j).RemoveAllFromFields();
                 elements[j].CopyFieldsTo(eta.GetElement(j));
             }
         }
-- 
2.43.0


From d4ead5f97491e6bbdf92f3cd1d2916c2349c8bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:55 +0000
Subject: [PATCH 32/63] fix: real and imaginary parts of a complex Element are
 real Elements

---
 Manifolds/Element.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index 7320a55..b031181 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2547,8 +2547,8 @@ namespace ROPTLIB{
     Element Element::GetRealInComplex(void) const
     {
         assert(iscomplex && Space != nullptr);
-        Element result(Getrow(), Getcol(), Getnum(), "complex");
-        realdp *resultptr = result.ObtainWritePartialData();
+        Element result(Getrow(), Getcol(), Getnum());
+        realdp *resultptr = result.ObtainWriteEntireData();
         for(integer i = 0; i < length / 2; i++)
         {
             resultptr[i] = Space[i * 2];
@@ -2559,8 +2559,8 @@ namespace ROPTLIB{
     Element Element::GetImagInComplex(void) const
     {
         assert(iscomplex && Space != nullptr);
-        Element result(Getrow(), Getcol(), Getnum(), "complex");
-        realdp *resultptr = result.ObtainWritePartialData();
+        Element result(Getrow(), Getcol(), Getnum());
+        realdp *resultptr = result.ObtainWriteEntireData();
         for(integer i = 0; i < length / 2; i++)
         {
             resultptr[i] = Space[i * 2 + 1];
-- 
2.43.0


From ee910095cc420aa22f25cab52ad346a0316efee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:55 +0000
Subject: [PATCH 33/63] fix: deleting a product of Elements deletes its
 components

---
 Manifolds/Element.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index b031181..d9d649b 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2880,6 +2880,9 @@ namespace ROPTLIB{
     void Element::Delete(void)
     {
         RemoveAllFromFields();
+        DeleteMultiElements();
+        powsinterval = nullptr;
+        elements = nullptr;
         SmartSpace::Delete();
     };
 
-- 
2.43.0


From fb62ab02a1f9253d5a88b80ab8b2a0ae35885d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:26 +0000
Subject: [PATCH 34/63] fix: scaled identity of complex matrices

---
 Manifolds/Element.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Manifolds/Element.cpp b/Manifolds/Element.cpp
index d9d649b..e0a4567 100644
--- a/Manifolds/Element.cpp
+++ b/Manifolds/Element.cpp
@@ -2859,11 +2859,17 @@ namespace ROPTLIB{
 
     void Element::ScaledIdOPE(realdp scalar)
     {
-        if(ls < 2 || size[0] != size[1])
+        if(ls < 2 || Getrow() != Getcol())
         {
             printf("Warning: This is not a square matrix. It can not be assigned to be an identity matrix!\n");
             return;
         }
+        if(iscomplex)
+        {
+            SetToIdentity();
+            ScalarTimesThis(scalar);
+            return;
+        }
         NewMemoryOnWrite();
         integer ell = size[0];
         for (integer i = 0; i < ell; i++)
-- 
2.43.0


From 4477d893bf7e1f491c4b2a30ea7f2977a7c458f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 35/63] fix: Armijo line search reports the step size of the
 returned iterate

When backtracking reached the minimum step size, the step size was already
reduced while x2, eta2 and f2 still belonged to the previous one.
---
 Solvers/SolversSMLS.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index e73b786..bc5db62 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -325,9 +325,10 @@ namespace ROPTLIB{
 		/* simple backtracking */
 		if (LS_ratio2 <= LS_ratio1)
 		{
-			realdp LS_ratio = LS_ratio1;
+			realdp LS_ratio = LS_ratio1, triedstepsize = stepsize;
 			while (maxpref - f2 < -LS_alpha * initialslope * stepsize)
 			{
+				triedstepsize = stepsize;
 				stepsize *= LS_ratio;
 				if (stepsize < Minstepsize)
 				{
@@ -335,6 +336,7 @@ namespace ROPTLIB{
 					{
 						printf("Warning: step size reaches the minimum: %3.2e!\n", Minstepsize);
 					}
+					stepsize = triedstepsize; /*x2, eta2 and f2 are those of the last step size tried*/
 					LSstatus = LSSM_MINSTEPSIZE;
 					break;
 				}
@@ -378,6 +380,7 @@ namespace ROPTLIB{
 				{
 					printf("Warning: step size reaches the minimum: %3.2e!\n", Minstepsize);
 				}
+				stepsize = prestepsize; /*x2, eta2 and f2 are those of the last step size tried*/
 				LSstatus = LSSM_MINSTEPSIZE;
 				break;
 			}
-- 
2.43.0


From 2716767c43a632d6661c879a0dfd99ce6d9cc9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 36/63] fix: Wolfe line search without curvature condition
 returns the step that decreases

The last trial step, which may violate the sufficient decrease condition, was
evaluated again and returned instead of the best step known to satisfy it.
---
 Solvers/SolversSMLS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index bc5db62..82b0a8c 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -765,6 +765,7 @@ namespace ROPTLIB{
 						}
 						if (newslope < LS_beta * initialslope)
 						{
+							stepsize = stepsizelo; /*the largest step size known to satisfy the first Wolfe condition*/
 							f2 = h();
 							newslope = dh();
 							LSstatus = LSSM_NOCURVATURE;
-- 
2.43.0


From 4a7b7b68d703cd517ac7f22347b6e0d5fa1361fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:28 +0000
Subject: [PATCH 37/63] fix: strong Wolfe line search evaluates the gradient at
 the iterate it returns when zooming fails

---
 Solvers/SolversSMLS.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index 82b0a8c..cdcac96 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -533,6 +533,8 @@ namespace ROPTLIB{
 			times++;
 			if (times >= 10)
 			{
+				f2 = h();
+				newslope = dh();
 				LSstatus = LSSM_LSERROR;
 				return;
 			}
@@ -560,6 +562,7 @@ namespace ROPTLIB{
 			}
 			if (stepsize <= Minstepsize)
 			{
+				newslope = dh();
 				LSstatus = LSSM_MINSTEPSIZE;
 				return;
 			}
-- 
2.43.0


From 141f944e07f1c94a05d2c9232cdce286c5435fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:56 +0000
Subject: [PATCH 38/63] fix: trust region solvers record the function value of
 the iterate after a rejected step

---
 Solvers/SolversSMTR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/SolversSMTR.cpp b/Solvers/SolversSMTR.cpp
index 47f9f72..e6be3d5 100644
--- a/Solvers/SolversSMTR.cpp
+++ b/Solvers/SolversSMTR.cpp
@@ -108,8 +108,8 @@ namespace ROPTLIB{
 			if (Verbose >= ITERRESULT)
 			{
 				timeSeriesptr[iter] = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
-				funSeriesptr[iter] = f2;
-                gradSeriesptr[iter] = ngf2;
+				funSeriesptr[iter] = f1;
+                gradSeriesptr[iter] = ngf1;
 			}
 		}
 		ComTime = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
-- 
2.43.0


From f970fb34ee507ff62331ef74d23df76e3a111804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 39/63] fix: RWRBFGS updates the inverse Hessian approximation
 at the iterate its vectors are tangent to

---
 Solvers/RWRBFGS.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Solvers/RWRBFGS.cpp b/Solvers/RWRBFGS.cpp
index 53eb0ff..1c4a074 100644
--- a/Solvers/RWRBFGS.cpp
+++ b/Solvers/RWRBFGS.cpp
@@ -145,11 +145,11 @@ namespace ROPTLIB{
         if (inpsy / inpss >= nu * pow(ngf2, mu) && (ngf2 / ngf0 < 1e-3 ||
         (inpss > std::numeric_limits<realdp>::epsilon() && inpsy > std::numeric_limits<realdp>::epsilon())))
         {
-            Vector Hy(y); Mani->LinearOPEEta(x2, H, y, &Hy); nH++;
-            Mani->HaddScaledRank1OPE(x2, H, static_cast<realdp> (-1) / inpsy, s, Hy, &H);
-            Mani->LinearOPEEta(x2, H, y, &Hy);
-            Mani->HaddScaledRank1OPE(x2, H, static_cast<realdp> (-1) / inpsy, Hy, s, &H);
-            Mani->HaddScaledRank1OPE(x2, H, static_cast<realdp> (1) / inpsy, s, s, &H);
+            Vector Hy(y); Mani->LinearOPEEta(x1, H, y, &Hy); nH++;
+            Mani->HaddScaledRank1OPE(x1, H, static_cast<realdp> (-1) / inpsy, s, Hy, &H);
+            Mani->LinearOPEEta(x1, H, y, &Hy);
+            Mani->HaddScaledRank1OPE(x1, H, static_cast<realdp> (-1) / inpsy, Hy, s, &H);
+            Mani->HaddScaledRank1OPE(x1, H, static_cast<realdp> (1) / inpsy, s, s, &H);
             Mani->TranHInvTran(x1, eta2, x2, H, &H);
             isupdated = true;
         }
-- 
2.43.0


From 8b973608902d9030bdb1bb3a183ff5cff33e19a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 40/63] fix: RTRSR1 rescales its Hessian approximation before
 updating it

---
 Solvers/RTRSR1.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Solvers/RTRSR1.cpp b/Solvers/RTRSR1.cpp
index d6b017f..2623641 100644
--- a/Solvers/RTRSR1.cpp
+++ b/Solvers/RTRSR1.cpp
@@ -81,12 +81,17 @@ namespace ROPTLIB{
         Mani->InverseVectorTransport(x1, eta2, x2, gf2, &y);  nV++;
         Mani->ScalarVectorAddVector(x1, -1, gf1, y, &y);
         s = eta2;
+        
+        realdp inpsy = Mani->Metric(x1, s, y);
+        if (iter == 1 && inpsy != 0)
+        {
+            B.ScaledIdOPE(Mani->Metric(x1, y, y) / inpsy);
+            HvRTRSR1(s, B, &Heta2);
+        }
+        
         Vector zeta(y); Mani->ScalarVectorAddVector(x1, -1, Heta2, y, &zeta);
         denorminator = Mani->Metric(x1, s, zeta);
         
-        if (iter == 1)
-            B.ScaledIdOPE(Mani->Metric(x1, y, y) / Mani->Metric(x1, s, y));
-        
         inpss = Mani->Metric(x1, s, s);
         norm2ymBs = Mani->Metric(x1, zeta, zeta);
         if (denorminator * denorminator >= mintolsq * inpss * norm2ymBs && (norm2ymBs >= mintolsq || ngf2 / ngf0 < 1e-3))
-- 
2.43.0


From 7422cfdc49d0de8bef2fcc9ea0ebf2f32f4fdb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:49 +0000
Subject: [PATCH 41/63] fix: LRTRSR1 keeps its scaling when the step and the
 gradient change are orthogonal

---
 Solvers/LRTRSR1.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index ef2c5f6..10d7af2 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -519,7 +519,8 @@ namespace ROPTLIB{
         {
             inpsy = Mani->Metric(x1, s, y);
             inpyy = Mani->Metric(x1, y, y);
-            gamma = inpyy / inpsy;
+            if(inpsy != 0)
+                gamma = inpyy / inpsy;
             Mani->ScalarTimesVector(x1, gamma, s, &Heta2);
         }
         Vector zeta(y); Mani->ScalarVectorAddVector(x1, -1, Heta2, y, &zeta);
@@ -533,7 +534,7 @@ namespace ROPTLIB{
              function is quadratic and its Hessian is identity everywhere. */
         {
             inpyy = Mani->Metric(x1, y, y);
-            if(isupdated == true)
+            if(isupdated == true && inpsy != 0)
                 gamma = inpyy / inpsy;
             
             if(LMrestart && Currentlength >= LengthSY)
-- 
2.43.0


From b79b9ef060cdf7c3578fb8af1802bfea01156b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:51 +0000
Subject: [PATCH 42/63] fix: RNewton keeps the Newton direction when the inner
 iteration converges in one step

---
 Solvers/RNewton.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Solvers/RNewton.cpp b/Solvers/RNewton.cpp
index 31b7b63..4d66053 100644
--- a/Solvers/RNewton.cpp
+++ b/Solvers/RNewton.cpp
@@ -165,7 +165,7 @@ namespace ROPTLIB{
             Mani->ScalarVectorAddVector(x2, -1, z, delta, &delta); /*delta =  - z + betatemp * delta*/
 		}
 		innerIter = j;
-		if (j == 0)
+		if (j == 0 && tCGLSSMstatus != LSSM_LCON && tCGLSSMstatus != LSSM_SCON)
             eta1 = delta;
 	};
 
-- 
2.43.0


From 28415a2b935dcb2230e0b516714fc075c156dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:58 +0000
Subject: [PATCH 43/63] fix: running a limited-memory or BB-step solver again
 starts from an empty history

---
 Solvers/LRBFGS.cpp      | 3 +++
 Solvers/LRTRSR1.cpp     | 4 ++++
 Solvers/SolversSMLS.cpp | 1 +
 3 files changed, 8 insertions(+)

diff --git a/Solvers/LRBFGS.cpp b/Solvers/LRBFGS.cpp
index 1782b5c..00e6d81 100644
--- a/Solvers/LRBFGS.cpp
+++ b/Solvers/LRBFGS.cpp
@@ -87,6 +87,9 @@ namespace ROPTLIB{
 		if (RHO != nullptr)
 			delete[] RHO;
 		RHO = new realdp[LengthSY];
+		Currentlength = 0;
+		beginidx = 0;
+		gamma = 1;
 		SolversSMLS::Run();
 	};
 
diff --git a/Solvers/LRTRSR1.cpp b/Solvers/LRTRSR1.cpp
index 10d7af2..2923b59 100644
--- a/Solvers/LRTRSR1.cpp
+++ b/Solvers/LRTRSR1.cpp
@@ -85,6 +85,10 @@ namespace ROPTLIB{
 		if (SY != nullptr)
 			delete[] SY;
 		SY = new realdp[LengthSY * LengthSY];
+		Currentlength = 0;
+		beginidx = 0;
+		gamma = 1;
+		isupdated = false;
 		SolversSMTR::Run();
 	};
 
diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index cdcac96..d68ced8 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -10,6 +10,7 @@ namespace ROPTLIB{
         Variable xTemp(x1);
         Vector gfTemp = Prob->GetDomain()->GetEMPTY();
 		pre_funs.clear();
+		pre_BBs.clear();
 
 		SolversSM::Run();
 
-- 
2.43.0


From 5fc8699362846736615dd2f040589c9564cc3030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 44/63] fix: BB step sizes use the metric at the iterate their
 vectors are tangent to

---
 Solvers/SolversSMLS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/SolversSMLS.cpp b/Solvers/SolversSMLS.cpp
index d68ced8..0608901 100644
--- a/Solvers/SolversSMLS.cpp
+++ b/Solvers/SolversSMLS.cpp
@@ -218,8 +218,8 @@ namespace ROPTLIB{
                 Mani->VectorTransport(x2, eta2, x1, eta2, &s);
                 Mani->VectorTransport(x2, eta2, x1, gf2, &y);
                 Mani->VectorLinearCombination(x1, 1, gf1, -1, y, &y);
-				BB1 = Mani->Metric(x2, s, s) / Mani->Metric(x2, s, y);
-				BB2 = Mani->Metric(x2, s, y) / Mani->Metric(x2, y, y);
+				BB1 = Mani->Metric(x1, s, s) / Mani->Metric(x1, s, y);
+				BB2 = Mani->Metric(x1, s, y) / Mani->Metric(x1, y, y);
 				pre_BBs.push_front((BB2 < std::numeric_limits<realdp>::epsilon()) ? Initstepsize / ngf1 : BB2);
 				if (pre_BBs.size() > Num_pre_BB)
 					pre_BBs.pop_back();
-- 
2.43.0


From adb38ad55b9d0903400304563671ef4ccd3f1cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:51 +0000
Subject: [PATCH 45/63] fix: proximal gradient parameters given by name keep
 their real values

---
 Solvers/SolversNSMPGLS.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Solvers/SolversNSMPGLS.cpp b/Solvers/SolversNSMPGLS.cpp
index cf6e767..e8fddf0 100644
--- a/Solvers/SolversNSMPGLS.cpp
+++ b/Solvers/SolversNSMPGLS.cpp
@@ -115,17 +115,17 @@ namespace ROPTLIB{
             else
             if (iter->first == static_cast<std::string> ("LS_ratio"))
             {
-                LS_ratio = static_cast<integer> (iter->second);
+                LS_ratio = static_cast<realdp> (iter->second);
             }
             else
             if (iter->first == static_cast<std::string> ("LS_alpha"))
             {
-                LS_alpha = static_cast<integer> (iter->second);
+                LS_alpha = static_cast<realdp> (iter->second);
             }
             else
             if (iter->first == static_cast<std::string> ("Minstepsize"))
             {
-                Minstepsize = static_cast<integer> (iter->second);
+                Minstepsize = static_cast<realdp> (iter->second);
             }
         }
     };
-- 
2.43.0


From e29683a38614904c2967c961d45e9f048ecda30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:30 +0000
Subject: [PATCH 46/63] fix: the tangent space proximal map is evaluated at the
 multiplier it returns

---
 Manifolds/Manifold.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index da4e38e..c124b01 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -932,6 +932,10 @@ namespace ROPTLIB{
             nFz = nFu;
             (*outSMiter)++;
         }
+        if(earlytermination)
+        { /*the last trial point SMu has been rejected*/
+            ComputeBLambda(x, SMz, Weight, etax, prob, &BLambda);
+        }
         *inoutinitD = SMz;
         prob->ProxW(BLambda, Weight, result); result->AlphaXaddThis(-1, x); /*result = prob->ProxW(BLambda, Weight) - x*/
         Projection(x, *result, result);
-- 
2.43.0


From 7c8d25721adea0cba28b1238b27283a7e15565b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:43 +0000
Subject: [PATCH 47/63] fix: the subgradient solvers report the length of a
 short minimum norm vector

---
 Solvers/SolversNSMSubLS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 808097d..72fe266 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -251,6 +251,7 @@ namespace ROPTLIB{
 			}
 			if (nminPv <= Del)
 			{
+				ndir1 = nminPv;
 				return;
 			}
             /*end the stopping criterion*/
-- 
2.43.0


From 6665a0b5bfee016b9a229f563f54ae27b9c1a373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:43 +0000
Subject: [PATCH 48/63] fix: the relative function change of the subgradient
 solvers compares consecutive iterates

---
 Solvers/SolversNSMSubLS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 72fe266..58d1f25 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -40,10 +40,12 @@ namespace ROPTLIB{
 		/*Start the loop*/
 		while ( iter < Max_Iteration && ((!isstop) || iter < Min_Iteration || Eps > Min_Eps) && (LSstatus == LSNSM_SUCCESS || LSstatus == LSNSM_MAXSTEPSIZE) )
 		{
+			ftmp = f2; /* GetSearchDir evaluates trial points and overwrites f2 */
 			GetSearchDir(); /* Obtain search direction eta1, the minimum length vector minPv, and ndir1 = \|minPv\|_P */
 
 			/*Call the function to check whether the stopping criterion is satisfied or not.
 			The default function is written in Solvers.h and Solvers.cpp*/
+			f2 = ftmp;
 			isstop = IsStopped();
 			if (fabs(ndir1) <= Del || fabs(ndir1) <= Tolerance)
 			{
-- 
2.43.0


From 4c843202c2d671c78549fdce244e4e5b04a47f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:43 +0000
Subject: [PATCH 49/63] fix: the last entry of the series of directions is set
 by the subgradient solvers

---
 Solvers/SolversNSMSubLS.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 58d1f25..6721426 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -111,7 +111,10 @@ namespace ROPTLIB{
 		}
 		ComTime = static_cast<realdp>(getTickCount() - starttime) / CLK_PS;
 		if (Verbose >= ITERRESULT)
+		{
 			lengthSeries = iter + 1;
+			dirSeriesptr[iter] = ndir1;
+		}
         PrintFinalInfo();
 	};
 
-- 
2.43.0


From aba07b1b1740f47aeccf950946fe96713f4591cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:43 +0000
Subject: [PATCH 50/63] fix: a second run of LRBFGSSub starts without the pairs
 of the first one

---
 Solvers/LRBFGSSub.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Solvers/LRBFGSSub.cpp b/Solvers/LRBFGSSub.cpp
index 8c70bac..77d4134 100644
--- a/Solvers/LRBFGSSub.cpp
+++ b/Solvers/LRBFGSSub.cpp
@@ -13,6 +13,9 @@ namespace ROPTLIB{
         if (RHO != nullptr)
             delete[] RHO;
         RHO = new realdp[LengthSY];
+        Currentlength = 0;
+        beginidx = 0;
+        gamma = 1;
         SolversNSMSubLS::Run();
 	};
 
-- 
2.43.0


From 2269525062bb859391095c0607bc9d82e89ad9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:43 +0000
Subject: [PATCH 51/63] fix: the subgradient solvers end when the direction is
 below the tolerance in the smallest neighborhood

---
 Solvers/SolversNSMSubLS.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Solvers/SolversNSMSubLS.cpp b/Solvers/SolversNSMSubLS.cpp
index 6721426..d713a4e 100644
--- a/Solvers/SolversNSMSubLS.cpp
+++ b/Solvers/SolversNSMSubLS.cpp
@@ -49,6 +49,9 @@ namespace ROPTLIB{
 			isstop = IsStopped();
 			if (fabs(ndir1) <= Del || fabs(ndir1) <= Tolerance)
 			{
+				/*The neighborhood cannot shrink further and no iteration is taken: the search direction would be the same again*/
+				if (fabs(ndir1) <= Tolerance && Eps <= Min_Eps)
+					break;
 				Eps *= Theta_eps;
 				Eps = (Eps > Min_Eps) ? Eps : Min_Eps;
 				if (Eps > Min_Eps)
-- 
2.43.0


From a3e9541f6a66e89c675c8d074bd289bfe6dd47b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:17 +0000
Subject: [PATCH 52/63] fix: the proximal gradient solvers measure the
 direction in the metric at its base point

---
 Solvers/AManPG.cpp | 2 +-
 Solvers/ManPG.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/AManPG.cpp b/Solvers/AManPG.cpp
index 93045c1..8c57016 100644
--- a/Solvers/AManPG.cpp
+++ b/Solvers/AManPG.cpp
@@ -136,7 +136,7 @@ namespace ROPTLIB{
                 Mani->TangentSpaceProximalMap(x1, gf1, adavalue, SMtol, SMlambda, Prob, &initD, &SMiter, &SMCGiter, &eta1);
                 totalSMiter += SMiter;
                 totalSMCGiter += SMCGiter;
-                ndir1 = sqrt(Mani->Metric(x2, eta1, eta1));
+                ndir1 = sqrt(Mani->Metric(x1, eta1, eta1));
                 if(ndir0 == 0)
                 { /*initialize ndir0*/
                     ndir0 = ndir1;
diff --git a/Solvers/ManPG.cpp b/Solvers/ManPG.cpp
index 8f959af..f5a1c09 100644
--- a/Solvers/ManPG.cpp
+++ b/Solvers/ManPG.cpp
@@ -61,7 +61,7 @@ namespace ROPTLIB{
             totalSMiter += SMiter;
             totalSMCGiter += SMCGiter;
             
-            ndir1 = sqrt(Mani->Metric(x2, eta1, eta1));
+            ndir1 = sqrt(Mani->Metric(x1, eta1, eta1));
             if(ndir0 == 0)
             { /*initialize ndir0*/
                 ndir0 = ndir1;
-- 
2.43.0


From 6bf42656d8226c3a0549b884ba5460bab2a22e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:17 +0000
Subject: [PATCH 53/63] fix: AManPG counts the evaluations of the accelerated
 steps

---
 Solvers/AManPG.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Solvers/AManPG.cpp b/Solvers/AManPG.cpp
index 8c57016..4ce6d9d 100644
--- a/Solvers/AManPG.cpp
+++ b/Solvers/AManPG.cpp
@@ -203,16 +203,16 @@ namespace ROPTLIB{
             totalSMiter += SMiter;
             totalSMCGiter += SMCGiter;
             
-            Mani->Retraction(y1, eta1, &z2);
-            fz2 = Prob->f(z2);
+            Mani->Retraction(y1, eta1, &z2); nR++;
+            fz2 = Prob->f(z2); nf++;
             s2 = (1.0 + std::sqrt(1.0 + 4.0 * s1 * s1)) / 2.0;
             Vector zeta(gf1); Mani->InvRetraction(z2, z1, &zeta);
             Mani->ScalarTimesVector(z2, -(s1 - 1) / s2, zeta, &zeta);
             
-            Mani->Retraction(z2, zeta, &y2);
+            Mani->Retraction(z2, zeta, &y2); nR++;
             
-            fy2 = Prob->f(y2);
-            Prob->Grad(y2, &gfy2);
+            fy2 = Prob->f(y2); nf++;
+            Prob->Grad(y2, &gfy2); ng++;
             
             /*Call the function to check whether the stopping criterion is satisfied or not.
             The default function is written in Solvers.h and Solvers.cpp*/
-- 
2.43.0


From 4883d5a7c2e1421a7c6236c63e1682e364088949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 54/63] fix: RCG applies the preconditioner in every search
 direction

---
 Solvers/RCG.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Solvers/RCG.cpp b/Solvers/RCG.cpp
index 70d174d..dbf2d74 100644
--- a/Solvers/RCG.cpp
+++ b/Solvers/RCG.cpp
@@ -141,9 +141,9 @@ namespace ROPTLIB{
         }
         Pgf1 = Pgf2;
         if(sigma == 0)
-            Mani->ScalarTimesVector(x2, -1, gf2, &eta1);
+            Mani->ScalarTimesVector(x2, -1, Pgf2, &eta1);
         else
-            Mani->VectorLinearCombination(x2, -1, gf2, sigma, Teta1, &eta1);
+            Mani->VectorLinearCombination(x2, -1, Pgf2, sigma, Teta1, &eta1);
 	};
 
 	void RCG::SetParams(PARAMSMAP params)
-- 
2.43.0


From f2cdc0783c71f05ea5bf7ee761c7b8b3b9239e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:21 +0000
Subject: [PATCH 55/63] fix: the locking condition of products measures the
 transported direction at the new point

---
 Manifolds/Manifold.cpp       | 4 ++--
 Manifolds/MultiManifolds.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Manifolds/Manifold.cpp b/Manifolds/Manifold.cpp
index c124b01..88099ff 100644
--- a/Manifolds/Manifold.cpp
+++ b/Manifolds/Manifold.cpp
@@ -143,9 +143,9 @@ namespace ROPTLIB{
             Vector beta(3);
             realdp *betaptr = beta.ObtainWriteEntireData();
             realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, xix, xix));
-            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(x, *result, *result)) / EtatoXi;
+            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
             betaptr[1] = Metric(x, etax, etax);
-            betaptr[2] = Metric(x, *result, *result) * EtatoXi * EtatoXi;
+            betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
             etax.AddToFields("beta", beta);
             
             if (HasHHR)
diff --git a/Manifolds/MultiManifolds.cpp b/Manifolds/MultiManifolds.cpp
index 1a6eb68..be6f8f7 100644
--- a/Manifolds/MultiManifolds.cpp
+++ b/Manifolds/MultiManifolds.cpp
@@ -320,9 +320,9 @@ namespace ROPTLIB{
             Vector beta(3);
             realdp *betaptr = beta.ObtainWriteEntireData();
             realdp EtatoXi = sqrt(Metric(x, etax, etax) / Metric(x, xix, xix));
-            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(x, *result, *result)) / EtatoXi;
+            betaptr[0] = std::sqrt(Metric(x, etax, etax) / Metric(y, *result, *result)) / EtatoXi;
             betaptr[1] = Metric(x, etax, etax);
-            betaptr[2] = Metric(x, *result, *result) * EtatoXi * EtatoXi;
+            betaptr[2] = Metric(y, *result, *result) * EtatoXi * EtatoXi;
             etax.AddToFields("beta", beta);
             
             if (HasHHR)
-- 
2.43.0


From 1bd13be97f025f46b170f4538c0e91b8b011b8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:09 +0000
Subject: [PATCH 56/63] fix: canonical-metric Hessian conversion of CStiefel
 uses complex storage and the right coefficients

---
 Manifolds/CStiefel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index be3044d..0be0aef 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -311,16 +311,16 @@ namespace ROPTLIB{
 
         /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2
         - 0.5 * ( etax * tmp2 - x * (x.GetTranspose() * etax) * tmp2 )*/
-        Vector tmp3(p, p);
+        Vector tmp3(p, p, "complex");
         *result = exix;
         tmp3.AlphaABaddBetaThis(1, exix, GLOBAL::C, x, GLOBAL::N, 0);
         result->AlphaABaddBetaThis(-1, x, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x)*/
         tmp3 = (tmp - tmp.GetTranspose()) / 2;
         result->AlphaABaddBetaThis(-1, x, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2*/
-        tmp3.AlphaABaddBetaThis(1, EGrad, GLOBAL::C, x, GLOBAL::N, 0);
+        tmp3.AlphaABaddBetaThis(0.5, EGrad, GLOBAL::C, x, GLOBAL::N, 0);
         result->AlphaABaddBetaThis(-1, etax, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x)*/
         tmp3.AlphaABaddBetaThis(0.5, etax, GLOBAL::C, x, GLOBAL::N, 0);
-        result->AlphaABaddBetaThis(-1, EGrad, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2*/
+        result->AlphaABaddBetaThis(1, EGrad, GLOBAL::N, tmp3, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2*/
         result->AlphaABaddBetaThis(-0.5, etax, GLOBAL::N, tmp2, GLOBAL::N, 1); /*exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2 - 0.5 * etax * tmp2*/
         tmp.AlphaABaddBetaThis(1, tmp3, GLOBAL::C, tmp2, GLOBAL::N, 0);
         result->AlphaABaddBetaThis(1, x, GLOBAL::N, tmp, GLOBAL::N, 1); /* exix - x * (exix.GetTranspose() * x) - x * (tmp - tmp.GetTranspose()) / 2 - (etax * (EGrad.Transpose() * x) - EGrad * (etax.GetTranspose() * x)) / 2 - 0.5 * etax * tmp2 + 0.5 * x * (x.GetTranspose() * etax) * tmp2; */
-- 
2.43.0


From 16f523c6ebb93debdddf25fcbbd5cf76113e766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:09 +0000
Subject: [PATCH 57/63] fix: inverse polar retraction of CStiefel uses complex
 matrices

---
 Manifolds/CStiefel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index 0be0aef..29e5243 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -525,9 +525,9 @@ namespace ROPTLIB{
 
     Vector &CStiefel::InvPolarRetraction(const Variable &x, const Variable &y, Vector *result) const
     {
-        Vector A(p, p); A.AlphaABaddBetaThis(1, x, GLOBAL::C, y, GLOBAL::N, 0); /* A = x.GetTranspose() * y; */
+        Vector A(p, p, "complex"); A.AlphaABaddBetaThis(1, x, GLOBAL::C, y, GLOBAL::N, 0); /* A = x.GetTranspose() * y; */
 
-        Vector tIp(p, p); tIp.SetToIdentity(); tIp = 2 * tIp;
+        Vector tIp(p, p, "complex"); tIp.SetToIdentity(); tIp = 2 * tIp;
         Vector soln = tIp.SYL(A, A.GetTranspose());
         *result = x; result->AlphaABaddBetaThis(1, y, GLOBAL::N, soln, GLOBAL::N, -1); /* y * tIp.SYL(A, A.GetTranspose()) - x; */
 
-- 
2.43.0


From 94bb923f20e0b0081d98ec05973fda59fb29c956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:09 +0000
Subject: [PATCH 58/63] fix: normal vectors of CStiefel have a real diagonal in
 their Hermitian factor

---
 Manifolds/CStiefel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Manifolds/CStiefel.cpp b/Manifolds/CStiefel.cpp
index 29e5243..d4ae3df 100644
--- a/Manifolds/CStiefel.cpp
+++ b/Manifolds/CStiefel.cpp
@@ -389,6 +389,7 @@ namespace ROPTLIB{
         for(integer i = 0; i < p; i++)
         {
             xTetaxptr[i + i * p].r = intretaxptr[idx];
+            xTetaxptr[i + i * p].i = 0;
             idx++;
         }
         for(integer i = 0; i < p; i++)
-- 
2.43.0


From 5f40f5fe0353b82951ac5ec9f5b055910f71767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:09 +0000
Subject: [PATCH 59/63] fix: gradient and Hessian conversion of CFixedRankQ2F
 allow the input and the result to be the same

---
 Manifolds/CFixedRankQ2F.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CFixedRankQ2F.cpp b/Manifolds/CFixedRankQ2F.cpp
index 9842671..212b73d 100644
--- a/Manifolds/CFixedRankQ2F.cpp
+++ b/Manifolds/CFixedRankQ2F.cpp
@@ -535,6 +535,8 @@ namespace ROPTLIB{
             Sharedegf.CopyOnWrite();
             x.AddToFields("EGrad", Sharedegf);
         }
+        /*egf and result may be the same. Store egf first then allocate memory for result.*/
+        Vector inegf = egf;
         result->NewMemoryOnWrite();
         
         Vector G = x.GetElement(0), H = x.GetElement(1);
@@ -551,7 +553,7 @@ namespace ROPTLIB{
             x.GetElement(1).AddToFields("_L", tmp.Field("_L"));
         }
         
-        Vector egfG = egf.GetElement(0), egfH = egf.GetElement(1);
+        Vector egfG = inegf.GetElement(0), egfH = inegf.GetElement(1);
         Vector LG = x.GetElement(0).Field("_L"), LH = x.GetElement(1).Field("_L");
         Vector tmpG = egfG.GetTranspose().TriangleLinSol(LH, GLOBAL::N).TriangleLinSol(LH, GLOBAL::C).GetTranspose();
         realdpcomplex coef = {0.5, 0};
@@ -569,7 +571,9 @@ namespace ROPTLIB{
         Vector dG = etax.GetElement(0), dH = etax.GetElement(1);
         Vector EGrad = x.Field("EGrad");
         Vector EG_dG = EGrad.GetElement(0), EG_dH = EGrad.GetElement(1);
-        Vector EH_dG = exix.GetElement(0), EH_dH = exix.GetElement(1);
+        /*exix and result may be the same. Store exix first then allocate memory for result.*/
+        Vector inexix = exix;
+        Vector EH_dG = inexix.GetElement(0), EH_dH = inexix.GetElement(1);
 
         result->NewMemoryOnWrite();
         
-- 
2.43.0


From 32c3d2da9bc14a260a9ada7b6bec76f1e234d6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:09 +0000
Subject: [PATCH 60/63] fix: inverse vector transport of CFixedRankQ2F takes
 the coordinates at y

---
 Manifolds/CFixedRankQ2F.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Manifolds/CFixedRankQ2F.cpp b/Manifolds/CFixedRankQ2F.cpp
index 212b73d..9a8dc9e 100644
--- a/Manifolds/CFixedRankQ2F.cpp
+++ b/Manifolds/CFixedRankQ2F.cpp
@@ -381,7 +381,7 @@ namespace ROPTLIB{
             return *result;
         }
         
-        Vector inxiy(EMPTYINTR); ObtainIntr(x, xiy, &inxiy);
+        Vector inxiy(EMPTYINTR); ObtainIntr(y, xiy, &inxiy);
         return ObtainExtr(x, inxiy, result);
     };
 
-- 
2.43.0


From b8d9e24da0cc24b0d11a9a67e5835fc9d8a96e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:09 +0000
Subject: [PATCH 61/63] fix: SymFixedRankQ and CSymFixedRankQ transport linear
 operators under the locking condition

---
 Manifolds/CSymFixedRankQ.cpp | 2 +-
 Manifolds/SymFixedRankQ.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Manifolds/CSymFixedRankQ.cpp b/Manifolds/CSymFixedRankQ.cpp
index 25e9b52..5351e91 100644
--- a/Manifolds/CSymFixedRankQ.cpp
+++ b/Manifolds/CSymFixedRankQ.cpp
@@ -236,7 +236,7 @@ namespace ROPTLIB{
         }
 
         if (HasHHR)
-            return LCVectorTransport(x, etax, y, Hx, result);
+            return LCTranHInvTran(x, etax, y, Hx, result);
 
         printf("Error: CSymFixedRankQ::TranHInvTran has not been done!\n");
         return Manifold::TranHInvTran(x, etax, y, Hx, result);
diff --git a/Manifolds/SymFixedRankQ.cpp b/Manifolds/SymFixedRankQ.cpp
index 141069b..6e1efdc 100644
--- a/Manifolds/SymFixedRankQ.cpp
+++ b/Manifolds/SymFixedRankQ.cpp
@@ -287,7 +287,7 @@ namespace ROPTLIB{
         }
 
         if (HasHHR)
-            return LCVectorTransport(x, etax, y, Hx, result);
+            return LCTranHInvTran(x, etax, y, Hx, result);
 
         printf("Error: TranHInvTran has not been done!\n");
         return Manifold::TranHInvTran(x, etax, y, Hx, result);
-- 
2.43.0


From 9b8cbf82f1cf17d41d55111a487537d04703257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:09 +0000
Subject: [PATCH 62/63] fix: the arrays of the periodic spline systems do not
 overlap

---
 Others/Spline.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Others/Spline.cpp b/Others/Spline.cpp
index 885c9ec..49fd9ae 100644
--- a/Others/Spline.cpp
+++ b/Others/Spline.cpp
@@ -9,10 +9,10 @@ namespace ROPTLIB{
 		int i, nn;
 		realdp *d, *ud, *ld, *vec, *s;
 		nn = n - 1;
-		d = new realdp[5 * nn - 1];
+		d = new realdp[5 * nn + 1];
 		ud = d + nn;
-		ld = ud + (nn - 1);
-		vec = ld + (nn - 1);
+		ld = ud + nn;
+		vec = ld + nn;
 		s = vec + nn;
 		if (fabs(Y[0] - Y[nn]) > sqrt(std::numeric_limits<realdp>::epsilon()))
 		{
@@ -54,10 +54,10 @@ namespace ROPTLIB{
 		realdp *d, *ud, *ld, *vec, *s;
 		realdp hi;
 		nn = n - 1;
-		d = new realdp[5 * nn - 1];
+		d = new realdp[5 * nn + 1];
 		ud = d + nn;
-		ld = ud + (nn - 1);
-		vec = ld + (nn - 1);
+		ld = ud + nn;
+		vec = ld + nn;
 		s = vec + nn;
 		if (fabs(Y[0] - Y[nn]) > sqrt(std::numeric_limits<realdp>::epsilon()))
 		{
-- 
2.43.0


From 246085e9e956ec8c82b6f811d0d3babf721c3dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:09 +0000
Subject: [PATCH 63/63] fix: splines whose knots do not start at zero are
 evaluated on the right piece

---
 Others/Spline.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Others/Spline.cpp b/Others/Spline.cpp
index 49fd9ae..2eb1cce 100644
--- a/Others/Spline.cpp
+++ b/Others/Spline.cpp
@@ -293,7 +293,7 @@ namespace ROPTLIB{
 		realdp output;
 		nn = N - 1;
 		i = 0;
-		while (i < N && t - (breaks[i] - breaks[0]) >= -std::numeric_limits<realdp>::epsilon())
+		while (i < N && t - breaks[i] >= -std::numeric_limits<realdp>::epsilon())
 			i++;
 		i--;
 		i = (i < 0) ? 0 : i;
@@ -352,7 +352,7 @@ namespace ROPTLIB{
 		nn = N - 1;
 		i = 0;
 
-		while (i < N && t - (breaks[i] - breaks[0]) >= -std::numeric_limits<realdp>::epsilon())
+		while (i < N && t - breaks[i] >= -std::numeric_limits<realdp>::epsilon())
 			i++;
 		i--;
 		i = (i < 0) ? 0 : i;
@@ -393,7 +393,7 @@ namespace ROPTLIB{
 		realdp output;
 		nn = N - 1;
 		i = 0;
-		while (i < N && t - (breaks[i] - breaks[0]) >= -std::numeric_limits<realdp>::epsilon())
+		while (i < N && t - breaks[i] >= -std::numeric_limits<realdp>::epsilon())
 			i++;
 		i--;
 		i = (i < 0) ? 0 : i;
-- 
2.43.0

