From 2e1e3083f01398c20daa60c721839c7502c261fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:34 +0000
Subject: [PATCH 01/71] fix: multiprecision fgemm must scale C by beta when the
 product is empty or zero

---
 .../fflas/fflas_fgemm/fgemm_classical_mp.inl    | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
index 14a2ac3..7d6d309 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
@@ -332,7 +332,10 @@ namespace FFLAS {
             return C;
         }
 
-        if (k==0) return C;
+        if (k==0){
+            fscalin(F,m,n,beta,C,ldc);
+            return C;
+        }
         // compute bit size of feasible prime for FFLAS
         size_t _k=k,lk=0;
         while ( _k ) {_k>>=1; ++lk;}
@@ -352,8 +355,11 @@ namespace FFLAS {
 
         mC = 2*uint64_t(k)*H.normA*H.normB*abs(alpha); // need to use 2x bound to reach both positive and negative
 
-        // A or B is zero, no need to modify C
-        if (mC == 0) return C;
+        // A or B is zero, only scale C
+        if (mC == 0){
+            fscalin(F,m,n,beta,C,ldc);
+            return C;
+        }
 
         // construct an RNS structure and its associated Domain
         FFPACK::rns_double RNS(mC, prime_bitsize);
@@ -600,7 +606,10 @@ namespace FFLAS {
             return C;
         }
 
-        if (k==0) return C;
+        if (k==0){
+            fscalin(F,m,n,beta,C,ldc);
+            return C;
+        }
         // compute bit size of feasible prime for FFLAS
         size_t _k=k,lk=0;
         while ( _k ) {_k>>=1; ++lk;}
-- 
2.43.0


From 7ab9e19028155762ae3719c2877fb486a9a978a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:39 +0000
Subject: [PATCH 02/71] fix: generic fsquare overflowed in double arithmetic;
 use the exact product

---
 fflas-ffpack/fflas/fflas_fgemm.inl | 54 +++++++-----------------------
 1 file changed, 12 insertions(+), 42 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemm.inl b/fflas-ffpack/fflas/fflas_fgemm.inl
index 49cb7b4..16f6575 100644
--- a/fflas-ffpack/fflas/fflas_fgemm.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm.inl
@@ -445,50 +445,8 @@ namespace FFLAS {
 
 // fsquare
 namespace FFLAS {
-    template < class Field >
-    inline typename Field::Element_ptr
-    fsquare (const Field& F,
-             const FFLAS_TRANSPOSE ta,
-             const size_t n, const typename Field::Element alpha,
-             typename Field::ConstElement_ptr A, const size_t lda,
-             const typename Field::Element beta,
-             typename Field::Element_ptr C, const size_t ldc)
-    {
-
-        double alphad, betad;
-        F.convert (alphad, alpha);
-        if (F.isMOne (beta))
-            betad = -1.0;
-        else
-            F.convert (betad, beta);
-
-        //! @bug why double ?
-        // Double  matrices initialisation
-        Givaro::DoubleDomain::Element_ptr Ad = fflas_new (Givaro::DoubleDomain(),n,n);
-        Givaro::DoubleDomain::Element_ptr Cd = fflas_new (Givaro::DoubleDomain(),n,n);
-        // Conversion finite Field = >  double
-        fconvert (F, n, n, Ad, n, A, lda);
-        if (!F.isZero(beta)) fconvert(F, n, n, Cd, n, C, ldc);
-
-        // Call to the blas Multiplication
-        FFLASFFPACK_check(n);
-#if defined(__FFLASFFPACK_OPENBLAS_NUM_THREADS) and not defined (__FFLASFFPACK_OPENBLAS_NT_ALREADY_SET)
-        openblas_set_num_threads(__FFLASFFPACK_OPENBLAS_NUM_THREADS);
-#endif
-        cblas_dgemm (CblasRowMajor, (CBLAS_TRANSPOSE)ta,
-                     (CBLAS_TRANSPOSE)ta, (int)n, (int)n, (int)n,
-                     (Givaro::DoubleDomain::Element) alphad, Ad, (int)n, Ad, (int)n,
-                     (Givaro::DoubleDomain::Element) betad, Cd, (int)n);
-        // Conversion double = >  Finite Field
-        fflas_delete (Ad);
-        finit (F,n,n, Cd, n, C, ldc);
-        fflas_delete (Cd);
-        return C;
-    }
-
     namespace Protected {
 
-        // F is Modular(Balanced)<float/double>
         template < class Field >
         inline typename Field::Element_ptr
         fsquareCommon (const Field& F,
@@ -512,6 +470,18 @@ namespace FFLAS {
 
     } // Protected
 
+    template < class Field >
+    inline typename Field::Element_ptr
+    fsquare (const Field& F,
+             const FFLAS_TRANSPOSE ta,
+             const size_t n, const typename Field::Element alpha,
+             typename Field::ConstElement_ptr A, const size_t lda,
+             const typename Field::Element beta,
+             typename Field::Element_ptr C, const size_t ldc)
+    {
+        return Protected::fsquareCommon(F,ta,n,alpha,A,lda,beta,C,ldc);
+    }
+
     template <>
     inline double* fsquare (const  Givaro::ModularBalanced<double> & F,
                             const FFLAS_TRANSPOSE ta,
-- 
2.43.0


From 92e8ec1fac3d63965bd75eeeccf5da6d167b322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:34 +0000
Subject: [PATCH 03/71] fix: fmove copied A over B instead of B into A

---
 fflas-ffpack/fflas/fflas_level2.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_level2.inl b/fflas-ffpack/fflas/fflas_level2.inl
index 7910050..0ffb6f2 100644
--- a/fflas-ffpack/fflas/fflas_level2.inl
+++ b/fflas-ffpack/fflas/fflas_level2.inl
@@ -414,7 +414,7 @@ namespace FFLAS {
            typename Field::Element_ptr A, const size_t lda,
            typename Field::Element_ptr B, const size_t ldb )
     {
-        fassign(F,m,n,A,lda,B,ldb);
+        fassign(F,m,n,B,ldb,A,lda);
         fzero(F,m,n,B,ldb);
     }
 
-- 
2.43.0


From 5e71c9273fd998233adbf69e52f5f06d14a5873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:34 +0000
Subject: [PATCH 04/71] fix: fzero of an empty unit triangular matrix wrote out
 of bounds

---
 fflas-ffpack/fflas/fflas_level2.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fflas-ffpack/fflas/fflas_level2.inl b/fflas-ffpack/fflas/fflas_level2.inl
index 0ffb6f2..c78419f 100644
--- a/fflas-ffpack/fflas/fflas_level2.inl
+++ b/fflas-ffpack/fflas/fflas_level2.inl
@@ -94,6 +94,7 @@ namespace FFLAS {
     fzero (const Field& F, const FFLAS_UPLO shape, const FFLAS_DIAG diag,
            const size_t n, typename Field::Element_ptr A, const size_t lda)
     {
+        if (!n) return;
         ptrdiff_t inc_row;
         typename Field::Element_ptr Ai;
         size_t size = n;
-- 
2.43.0


From dffe5d26f1d45e2ee4a793f7adfa2bd88f9ce6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:34 +0000
Subject: [PATCH 05/71] fix: fscal over ZRing<double/float> ignored the stride
 of its input

---
 fflas-ffpack/fflas/fflas_fscal.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fscal.inl b/fflas-ffpack/fflas/fflas_fscal.inl
index 133eab8..5565d5e 100644
--- a/fflas-ffpack/fflas/fflas_fscal.inl
+++ b/fflas-ffpack/fflas/fflas_fscal.inl
@@ -368,7 +368,7 @@ namespace FFLAS {
 #if defined(__FFLASFFPACK_OPENBLAS_NUM_THREADS) and not defined (__FFLASFFPACK_OPENBLAS_NT_ALREADY_SET)
         openblas_set_num_threads(__FFLASFFPACK_OPENBLAS_NUM_THREADS);
 #endif
-        cblas_dcopy( (int)N, x, (int)incy, y, (int)incy);
+        cblas_dcopy( (int)N, x, (int)incx, y, (int)incy);
         cblas_dscal( (int)N, a, y, (int)incy);
     }
 
@@ -382,7 +382,7 @@ namespace FFLAS {
 #if defined(__FFLASFFPACK_OPENBLAS_NUM_THREADS) and not defined (__FFLASFFPACK_OPENBLAS_NT_ALREADY_SET)
         openblas_set_num_threads(__FFLASFFPACK_OPENBLAS_NUM_THREADS);
 #endif
-        cblas_scopy( (int)N, x, (int)incy, y, (int)incy);
+        cblas_scopy( (int)N, x, (int)incx, y, (int)incy);
         cblas_sscal( (int)N, a, y, (int)incy);
     }
 
-- 
2.43.0


From 3616dba44e2456deee592c2938d95832dec7df05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:34 +0000
Subject: [PATCH 06/71] fix: strided fsub over a generic field added instead of
 subtracting

---
 fflas-ffpack/fflas/fflas_fadd.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fadd.inl b/fflas-ffpack/fflas/fflas_fadd.inl
index 917cb02..719d4c7 100644
--- a/fflas-ffpack/fflas/fflas_fadd.inl
+++ b/fflas-ffpack/fflas/fflas_fadd.inl
@@ -367,7 +367,7 @@ namespace FFLAS { namespace details {
                 if (ADD)
                     F.add (*Ci, *Ai, *Bi);
                 else
-                    F.add (*Ci, *Ai, *Bi);
+                    F.sub (*Ci, *Ai, *Bi);
         }
     }
 
-- 
2.43.0


From 10539e339f9663797e1a2c9d51702434223d5c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:57 +0000
Subject: [PATCH 07/71] fix: fgemv must scale Y by beta when the inner
 dimension is zero

---
 fflas-ffpack/fflas/fflas_fgemv.inl | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index 2a03984..94d2a68 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -127,8 +127,8 @@ namespace FFLAS {
            MMHelper<Field, MMHelperAlgo::Classic, ModeCategories::DelayedTag> & H)
     {
 
-        if (!M) {return Y;}
         size_t Ydim = (ta == FflasNoTrans)?M:N;
+        if (!Ydim) {return Y;}
         size_t Xdim = (ta == FflasNoTrans)?N:M;
         if (!Xdim || F.isZero (alpha)){
             if (F.isZero (beta))
@@ -344,8 +344,8 @@ namespace FFLAS{
            const typename Field::Element beta,
            typename Field::Element_ptr Y, const size_t incY)
     {
-        if (!M) {return Y;}
         size_t Ydim = (ta == FflasNoTrans)?M:N;
+        if (!Ydim) {return Y;}
         size_t Xdim = (ta == FflasNoTrans)?N:M;
         if (!Xdim || F.isZero (alpha)){
             if (F.isZero (beta))
@@ -491,8 +491,7 @@ namespace FFLAS{
            const typename Field::Element beta,
            typename Field::Element_ptr Y, const size_t incY,
            ParSeqHelper::Sequential& seqH ){
-        MMHelper<Field, MMHelperAlgo::Classic> pH(F,m,n,1,seqH);
-        return fgemv(F, ta, m, n, alpha, A, lda, X, incX, beta, Y, incY, pH);
+        return fgemv(F, ta, m, n, alpha, A, lda, X, incX, beta, Y, incY);
     }
 }
 
-- 
2.43.0


From 2355e303d60af775c777e42209b300ab4fd74e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:57 +0000
Subject: [PATCH 08/71] fix: fgemv over GF(2) with a converting field left Y
 untouched

---
 fflas-ffpack/fflas/fflas_fgemv.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index 94d2a68..95ae736 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -98,7 +98,7 @@ namespace FFLAS {
     {
         if (F.cardinality() < DOUBLE_TO_FLOAT_CROSSOVER && F.cardinality() > 2)
             return Protected::fgemv_convert<float,Field>(F,ta,M,N,alpha,A,lda,X, incX, beta,Y,incY);
-        else if (16*F.cardinality() < Givaro::ModularBalanced<double>::maxCardinality() && F.cardinality() > 2)
+        else if (16*F.cardinality() < Givaro::ModularBalanced<double>::maxCardinality())
             return Protected::fgemv_convert<double,Field>(F,ta,M,N,alpha,A,lda,X, incX, beta,Y,incY);
         else {
             FFPACK::failure()(__func__,__LINE__,"Invalid ConvertTo Mode for this field");
-- 
2.43.0


From b881a16528ddc0f396ccbc762be0251b2a0082a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:57 +0000
Subject: [PATCH 09/71] fix: scalar floating point freduce lost a bit near the
 mantissa limit

---
 fflas-ffpack/fflas/fflas_freduce.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_freduce.inl b/fflas-ffpack/fflas/fflas_freduce.inl
index 09460a5..0974b4a 100644
--- a/fflas-ffpack/fflas/fflas_freduce.inl
+++ b/fflas-ffpack/fflas/fflas_freduce.inl
@@ -61,7 +61,7 @@ namespace FFLAS { namespace vectorised { /*  for casts (?) */
     inline float reduce(float A, float B, float invB, float min, float max)
     {
         float Q = A * invB;
-        Q = floorf(Q);
+        Q = truncf(Q); // |Q*B| <= |A|: stays exactly representable
         A = A - Q*B;
         A = A < min ? A + B : A;
         A = A > max ? A - B : A;
@@ -72,7 +72,7 @@ namespace FFLAS { namespace vectorised { /*  for casts (?) */
     {
         //std::cerr<<"fmod"<<std::endl;
         double Q = A * invB;
-        Q = floor(Q);
+        Q = trunc(Q);
         A = A - Q*B;
         A = A < min ? A + B : A;
         A = A > max ? A - B : A;
-- 
2.43.0


From 64dde2170676fb1f438f7198155b4a1d013a36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:15 +0000
Subject: [PATCH 10/71] fix: 3-operand ftrmm over generic fields ignored beta =
 0

---
 fflas-ffpack/fflas/fflas_ftrmm_src.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_ftrmm_src.inl b/fflas-ffpack/fflas/fflas_ftrmm_src.inl
index 736f7ba..0e109c2 100644
--- a/fflas-ffpack/fflas/fflas_ftrmm_src.inl
+++ b/fflas-ffpack/fflas/fflas_ftrmm_src.inl
@@ -356,8 +356,7 @@ public:
     {
 
         if (__FFLAS__Na == 1){
-            if (!F.isZero(beta))
-                fscalin (F, __FFLAS__Bdim, beta, C, __FFLAS__Cnorminc);
+            fscalin (F, __FFLAS__Bdim, beta, C, __FFLAS__Cnorminc);
 #ifdef __FFLAS__NONUNIT
             //TODO: replace by faxpby when available
             faxpy (F, __FFLAS__Bdim, *A, B, __FFLAS__Bnorminc, C, __FFLAS__Cnorminc);
-- 
2.43.0


From d75db3a5a49c7d8ef273e1dd89e5016103094cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:15 +0000
Subject: [PATCH 11/71] fix: 3-operand ftrmm divided by alpha = 0

---
 fflas-ffpack/fflas/fflas_ftrmm.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_ftrmm.inl b/fflas-ffpack/fflas/fflas_ftrmm.inl
index 8bc2161..d2ce6f5 100644
--- a/fflas-ffpack/fflas/fflas_ftrmm.inl
+++ b/fflas-ffpack/fflas/fflas_ftrmm.inl
@@ -119,6 +119,10 @@ namespace FFLAS {
            typename Field::Element_ptr C, const size_t ldc)
     {
         if (!M || !N ) return;
+        if (F.isZero(alpha)) {
+            fscalin(F,M,N,beta,C,ldc);
+            return;
+        }
         typename Field::Element bet;
         F.init(bet);
         F.assign(bet,beta);
-- 
2.43.0


From 620b2836af7d09c33d1c84a91953ef74b4fb8e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:02 +0000
Subject: [PATCH 12/71] fix: fsyrk over converting fields did not compile
 (wrong freduce arity)

---
 fflas-ffpack/fflas/fflas_fsyrk.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyrk.inl b/fflas-ffpack/fflas/fflas_fsyrk.inl
index dd5aab4..3727e6c 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk.inl
@@ -62,7 +62,7 @@ namespace FFLAS{namespace Protected{
 
         if (!F.isZero(beta)){
             fconvert(F, N, N, Cf, N, C, ldc); // @todo: take advantage of the symmetry
-            freduce (G, UpLo, N, N, Cf, N);
+            freduce (G, UpLo, N, Cf, N);
         }
         MMHelper<NewField, MMHelperAlgo::Classic> HG(G,H.recLevel, ParSeqHelper::Sequential());
         fsyrk (G, UpLo, trans, N, K, alphaf, Af, ka, betaf, Cf, N, HG);
-- 
2.43.0


From 36884dcf0a02929b539dec26b0077e8571a9f3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:02 +0000
Subject: [PATCH 13/71] fix: fsyr2k with an empty inner dimension applied beta
 twice

---
 fflas-ffpack/fflas/fflas_fsyr2k.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyr2k.inl b/fflas-ffpack/fflas/fflas_fsyr2k.inl
index 618624d..b2dd5ac 100644
--- a/fflas-ffpack/fflas/fflas_fsyr2k.inl
+++ b/fflas-ffpack/fflas/fflas_fsyr2k.inl
@@ -42,7 +42,10 @@ namespace FFLAS {
             typename Field::Element_ptr C, const size_t ldc){
 
         if (!N) return C;
-        if (!K) fscalin(F, N,N, beta, C, ldc);
+        if (!K) {
+            fscalin(F, N,N, beta, C, ldc);
+            return C;
+        }
 
         typename Field::Element_ptr diagC(nullptr);
 
-- 
2.43.0


From 9a51c42329f34271e6aee241ff2a0abce247d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:10 +0000
Subject: [PATCH 14/71] fix: fsytrf ignored the stride of Dinv in its recursive
 calls

---
 fflas-ffpack/ffpack/ffpack_fsytrf.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_fsytrf.inl b/fflas-ffpack/ffpack/ffpack_fsytrf.inl
index 0dc6389..74a2280 100644
--- a/fflas-ffpack/ffpack/ffpack_fsytrf.inl
+++ b/fflas-ffpack/ffpack/ffpack_fsytrf.inl
@@ -427,7 +427,7 @@ namespace FFPACK {
 
         // H3 = P3^T [ U3^T ] D3 [ U3 V3 ] P3
         //           [ V3^T ]
-        R3 = fsytrf_UP_RPM (Fi, N2-R2, H3, lda, Dinv+R1+2*R2, incDinv, P3, BCThreshold);
+        R3 = fsytrf_UP_RPM (Fi, N2-R2, H3, lda, Dinv+(R1+2*R2)*incDinv, incDinv, P3, BCThreshold);
 
         // locate the 2x2 blocks
         for (size_t j=R1; j<R1+2*R2; j+=2)
@@ -621,7 +621,7 @@ namespace FFPACK {
             FFLAS::fsyrk (F, UpLo, trans, N2, N1, F.mOne, A12, lda, A, lda+1, F.one, A22, lda);
 
             // A22 = U2^T x D2^-1 x U2
-            if (!fsytrf_nonunit (F, UpLo, N2, A22, lda, Dinv+N1, incDinv, seq, threshold)) return false;
+            if (!fsytrf_nonunit (F, UpLo, N2, A22, lda, Dinv+N1*incDinv, incDinv, seq, threshold)) return false;
             return true;
         }
     }
@@ -673,7 +673,7 @@ namespace FFPACK {
             FFLAS::fsyrk (F, UpLo, trans, N2, N1, F.mOne, A12, lda, A, lda+1, F.one, A22, lda, par);
 
             // A22 = U2^T x D2^-1 x U2
-            if (!fsytrf_nonunit (F, UpLo, N2, A22, lda, Dinv+N1, incDinv, par, threshold)) return false;
+            if (!fsytrf_nonunit (F, UpLo, N2, A22, lda, Dinv+N1*incDinv, incDinv, par, threshold)) return false;
             return true;
         }
     }
-- 
2.43.0


From e6aaaeea0ec032b239ab3b983a6e04b73750b609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:37 +0000
Subject: [PATCH 15/71] fix: Strassen fsyrk with no block to recurse on
 accessed memory out of bounds or dropped beta

---
 fflas-ffpack/fflas/fflas_fsyrk_strassen.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl b/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
index 3eb1f86..4629142 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
@@ -384,16 +384,16 @@ namespace FFLAS {
            typename Field::Element_ptr C, const size_t ldc,
            MMHelper<Field, MMHelperAlgo::Winograd, Mode> & H){
 
-        if (!H.recLevel){
+        size_t q = 1 << (H.recLevel+1);
+        size_t Ns = (N/q)*q;
+        size_t Ks = (K/q)*q;
+        if (!H.recLevel || !Ns || !Ks){ // no block to apply Strassen's recursion on
             MMHelper<Field, MMHelperAlgo::Classic, Mode>  H2 (H);
             fsyrk (F, UpLo, trans, N, K, alpha, A, lda, beta, C, ldc, H2);
             H.Outmin = H2.Outmin;
             H.Outmax = H2.Outmax;
             return C;
         }
-        size_t q = 1 << (H.recLevel+1);
-        size_t Ns = (N/q)*q;
-        size_t Ks = (K/q)*q;
         
             // find a, b such that a^2 + b^2 = -1 mod p
         Givaro::Integer a,b;
-- 
2.43.0


From 760e865c7b0002d530ef924350fd19d887b1cbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:22 +0000
Subject: [PATCH 16/71] fix: max3 returned the smaller of its last two
 arguments (delayed reduction bounds underestimated)

---
 fflas-ffpack/fflas/fflas_enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_enum.h b/fflas-ffpack/fflas/fflas_enum.h
index 8d82a3a..f75a690 100644
--- a/fflas-ffpack/fflas/fflas_enum.h
+++ b/fflas-ffpack/fflas/fflas_enum.h
@@ -86,7 +86,7 @@ namespace FFLAS {
 
     template <class T> const T &min3(const T &m, const T &n, const T &k) { return std::min(m, std::min(n, k)); }
 
-    template <class T> const T &max3(const T &m, const T &n, const T &k) { return std::max(m, std::min(n, k)); }
+    template <class T> const T &max3(const T &m, const T &n, const T &k) { return std::max(m, std::max(n, k)); }
 
     template <class T> const T &min4(const T &m, const T &n, const T &k, const T &l) {
         return std::min(std::min(m, n), std::min(k, l));
-- 
2.43.0


From 37b4edbe9eab4790bb68cc98affae44ac885fcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:41 +0000
Subject: [PATCH 17/71] fix: Strassen fsyrk lost the bounds of its second
 accumulation, overflowing when scaling by alpha

---
 fflas-ffpack/fflas/fflas_fsyrk_strassen.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl b/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
index 4629142..e38ca4e 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk_strassen.inl
@@ -421,6 +421,9 @@ namespace FFLAS {
         H2.Cmin = H.Outmin;
         H2.Cmax = H.Outmax;
         fsyrk (F, UpLo, trans, Ns, K-Ks, alpha, A12, lda, F.one, C, ldc, H2);
+            // bounds on C11; the blocks C21 and C22 computed next are reduced
+        H.Outmin = std::min (H2.Outmin, H.FieldMin);
+        H.Outmax = std::max (H2.Outmax, H.FieldMax);
 
             // C22 = [A21 A22] x [A21 A22]^T
         fsyrk (F, UpLo, trans, N-Ns, K, alpha, A21, lda, beta, C+Ns*(ldc+1), ldc);
-- 
2.43.0


From 747b8dadbb5a381630e84fd82f727fc68b48de42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:50 +0000
Subject: [PATCH 18/71] fix: block diagonal fsyrk read the block pattern of the
 inner dimension at an index of the outer one

---
 fflas-ffpack/fflas/fflas_fsyrk.inl | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fflas-ffpack/fflas/fflas_fsyrk.inl b/fflas-ffpack/fflas/fflas_fsyrk.inl
index 3727e6c..c41dec9 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk.inl
@@ -723,7 +723,6 @@ namespace FFLAS {
 
         }else {
             size_t N1 = N>>1;
-            if (twoBlocks[N1-1]) N1++; // don't split a 2x2 block
             size_t N2 = N - N1;
             // Comments written for the case UpLo==FflasUpper, trans==FflasNoTrans
 
-- 
2.43.0


From 26e096e0acbb23557dd8bcdd09f70d6c210571cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:46 +0000
Subject: [PATCH 19/71] fix: delayed products with beta=0 forgot the reduced
 accumulator of the following blocks in their bound (fgemm, fgemv, fsyrk)

---
 fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl |  4 ++--
 fflas-ffpack/fflas/fflas_fgemv.inl                 |  4 ++--
 fflas-ffpack/fflas/fflas_fsyrk.inl                 |  4 ++--
 fflas-ffpack/fflas/fflas_helpers.inl               | 13 +++++++++++++
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl
index db1d792..b9c9327 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical.inl
@@ -79,7 +79,7 @@ namespace FFLAS {
 
         if (F.isMOne(betadf)) betadf = -F.one;
 
-        size_t kmax = H.MaxDelayedDim (betadf);
+        size_t kmax = H.MaxDelayedDim (betadf, k);
         H.checkA(F,ta, m,k,A,lda);
         H.checkB(F,tb, k,n,B,ldb);
         if (kmax <=  k/2 || H.Aunfit() || H.Bunfit() ){
@@ -96,7 +96,7 @@ namespace FFLAS {
                 H.initC();
                 freduce (F, m, n, C, ldc);
             }
-            kmax = H.MaxDelayedDim (betadf);
+            kmax = H.MaxDelayedDim (betadf, k);
         }
 
         if (!kmax){
diff --git a/fflas-ffpack/fflas/fflas_fgemv.inl b/fflas-ffpack/fflas/fflas_fgemv.inl
index 95ae736..4566944 100644
--- a/fflas-ffpack/fflas/fflas_fgemv.inl
+++ b/fflas-ffpack/fflas/fflas_fgemv.inl
@@ -254,7 +254,7 @@ namespace FFLAS{
         }
         if (F.isMOne(betadf)) betadf = -F.one;
 
-        size_t kmax = H.MaxDelayedDim (betadf);
+        size_t kmax = H.MaxDelayedDim (betadf, Xdim);
 
         if (kmax <=  Xdim/2 ){
             // Might as well reduce inputs
@@ -270,7 +270,7 @@ namespace FFLAS{
                 H.initC();
                 freduce (F, Ydim, Y, incY);
             }
-            kmax = H.MaxDelayedDim (betadf);
+            kmax = H.MaxDelayedDim (betadf, Xdim);
         }
 
         if (!kmax){
diff --git a/fflas-ffpack/fflas/fflas_fsyrk.inl b/fflas-ffpack/fflas/fflas_fsyrk.inl
index c41dec9..ca35855 100644
--- a/fflas-ffpack/fflas/fflas_fsyrk.inl
+++ b/fflas-ffpack/fflas/fflas_fsyrk.inl
@@ -310,7 +310,7 @@ namespace FFLAS {
 
         if (F.isMOne(betadf)) betadf = -F.one;
 
-        size_t kmax = H.MaxDelayedDim (betadf);
+        size_t kmax = H.MaxDelayedDim (betadf, K);
         H.checkA(F, trans, N, K, A, lda);
         if (kmax <=  K/2 || H.Aunfit() ){
             // Might as well reduce inputs
@@ -323,7 +323,7 @@ namespace FFLAS {
                 H.initC();
                 freduce (F, UpLo, N, C, ldc);
             }
-            kmax = H.MaxDelayedDim (betadf);
+            kmax = H.MaxDelayedDim (betadf, K);
         }
 
         if (!kmax){
diff --git a/fflas-ffpack/fflas/fflas_helpers.inl b/fflas-ffpack/fflas/fflas_helpers.inl
index 85478d4..69d1b62 100644
--- a/fflas-ffpack/fflas/fflas_helpers.inl
+++ b/fflas-ffpack/fflas/fflas_helpers.inl
@@ -193,6 +193,19 @@ namespace FFLAS {
             // else
             // 	return kmax;
         }
+        // Block size for accumulating a product of inner dimension k on beta.C: when k has to be split,
+        // every block but the first one accumulates on a reduced C (even if beta is zero).
+        size_t MaxDelayedDim(DFElt beta, const size_t k)
+        {
+            size_t kmax = MaxDelayedDim (beta);
+            if (kmax < k){
+                const DFElt Cmin_=Cmin, Cmax_=Cmax;
+                initC();
+                kmax = std::min (kmax, MaxDelayedDim (delayedField.one));
+                Cmin=Cmin_; Cmax=Cmax_;
+            }
+            return kmax;
+        }
         bool Aunfit(){ return Protected::unfit(std::max(static_cast<const DFElt&>(-Amin),Amax));}
         bool Bunfit(){ return Protected::unfit(std::max(static_cast<const DFElt&>(-Bmin),Bmax));}
         void setOutBounds(const size_t k, const DFElt alpha, const DFElt beta)
-- 
2.43.0


From 07da61c05124a493b55a8795341e48275c57800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:19 +0000
Subject: [PATCH 20/71] fix: LUdivine with FflasTrans used a base case that
 ignores the transposition

---
 fflas-ffpack/ffpack/ffpack_ludivine.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_ludivine.inl b/fflas-ffpack/ffpack/ffpack_ludivine.inl
index 4d3aea3..38f5517 100644
--- a/fflas-ffpack/ffpack/ffpack_ludivine.inl
+++ b/fflas-ffpack/ffpack/ffpack_ludivine.inl
@@ -432,7 +432,8 @@ namespace FFPACK {
             rowDim = M;
         }
 
-        if ((rowDim < cutoff) && (colDim < 2*cutoff)) { // the coeff 2 is experimentally determined!
+        // the base case only implements the CUP elimination (trans == FflasNoTrans)
+        if ((trans == FFLAS::FflasNoTrans) && (rowDim < cutoff) && (colDim < 2*cutoff)) { // the coeff 2 is experimentally determined!
             return LUdivine_small (F, Diag, trans, M, N, A, lda, P, Q, LuTag);
         }
         else { // recursively :
-- 
2.43.0


From a80aef212bee814367ef64cdbdc7cf8eacb54335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:19 +0000
Subject: [PATCH 21/71] fix: fger left the product element uninitialised (crash
 over multiprecision modular fields)

---
 fflas-ffpack/fflas/fflas_fger.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fflas-ffpack/fflas/fflas_fger.inl b/fflas-ffpack/fflas/fflas_fger.inl
index 2b06c83..9b3bd52 100644
--- a/fflas-ffpack/fflas/fflas_fger.inl
+++ b/fflas-ffpack/fflas/fflas_fger.inl
@@ -114,6 +114,7 @@ namespace FFLAS{
              if (F.isZero(alpha)) { return ; }
 
              typename Field::Element tmp;
+             F.init(tmp);
              typename Field::ConstElement_ptr xi=x, yj=y;
              typename Field::Element_ptr Ai=A;
 
-- 
2.43.0


From 6a1de3ae069b133a2c7cd8e91180eceb8dc1b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:19 +0000
Subject: [PATCH 22/71] fix: ColRankProfileSubmatrixIndices filled the row
 indices up to the column dimension

---
 fflas-ffpack/ffpack/ffpack_rankprofiles.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
index 97d5d35..8095d79 100644
--- a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
+++ b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
@@ -216,7 +216,7 @@ namespace FFPACK{
         for (size_t i=0; i<R; ++i)
             colindices [i] = Q [i];
 
-        for (size_t i=0; i<N; ++i)
+        for (size_t i=0; i<M; ++i)
             rowindices [i] = i;
 
         size_t tmp;
-- 
2.43.0


From d13d2df4c83fec2ea803a45f30cd57c5b3da1e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:19 +0000
Subject: [PATCH 23/71] fix: LQUPtoInverseOfFullRankMinor copied the upper
 factor into the inverse of the lower one

---
 fflas-ffpack/ffpack/ffpack_rankprofiles.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
index 8095d79..15b61e9 100644
--- a/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
+++ b/fflas-ffpack/ffpack/ffpack_rankprofiles.inl
@@ -302,7 +302,7 @@ namespace FFPACK{
         // X <- (Qt.L.Q)^(-1)
         //invL( F, rank, A_factors, lda, X, ldx);
         ftrtri (F, FFLAS::FflasLower, FFLAS::FflasUnit, rank, A_factors, lda);
-        FFLAS::fassign(F,rank,rank,A_factors,lda,X,ldx);
+        getTriangular (F, FFLAS::FflasLower, FFLAS::FflasUnit, rank, rank, rank, A_factors, lda, X, ldx);
 
         // X = U^-1.X
         ftrsm( F, FFLAS::FflasLeft, FFLAS::FflasUpper, FFLAS::FflasNoTrans,
-- 
2.43.0


From aa650bf2ae1ba7433c623538771160a576005da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:19 +0000
Subject: [PATCH 24/71] fix: Invert forgot the column permutation of the
 factorization

---
 fflas-ffpack/ffpack/ffpack_invert.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fflas-ffpack/ffpack/ffpack_invert.inl b/fflas-ffpack/ffpack/ffpack_invert.inl
index 96058c0..2955015 100644
--- a/fflas-ffpack/ffpack/ffpack_invert.inl
+++ b/fflas-ffpack/ffpack/ffpack_invert.inl
@@ -49,6 +49,7 @@ namespace FFPACK {
         size_t R =  ReducedRowEchelonForm (F, M, M, A, lda, P, Q, true, FfpackGaussJordanTile);
         nullity = (int)(M - R);
         applyP (F, FFLAS::FflasRight, FFLAS::FflasNoTrans, M, 0, (int)R, A, lda, P);
+        applyP (F, FFLAS::FflasLeft, FFLAS::FflasTrans, M, 0, (int)R, A, lda, Q);
         FFLAS::fflas_delete(P);
         FFLAS::fflas_delete(Q);
 
-- 
2.43.0


From fb7c037d98f974845ffe21dc3367bf25b09b2bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:19 +0000
Subject: [PATCH 25/71] fix: IsSingular answered false for every nonzero matrix
 of deficient rank

---
 fflas-ffpack/ffpack/ffpack.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack.inl b/fflas-ffpack/ffpack/ffpack.inl
index 0e4cdcc..8296535 100755
--- a/fflas-ffpack/ffpack/ffpack.inl
+++ b/fflas-ffpack/ffpack/ffpack.inl
@@ -82,7 +82,7 @@ namespace FFPACK {
 
         size_t *P = FFLAS::fflas_new<size_t>(N);
         size_t *Q = FFLAS::fflas_new<size_t>(M);
-        bool singular = !LUdivine (F, FFLAS::FflasNonUnit, FFLAS::FflasNoTrans, M, N, A, lda, P, Q, FfpackSingular);
+        bool singular = LUdivine (F, FFLAS::FflasNonUnit, FFLAS::FflasNoTrans, M, N, A, lda, P, Q, FfpackSingular) < M;
 
         FFLAS::fflas_delete( P);
         FFLAS::fflas_delete( Q);
-- 
2.43.0


From 64cc2dd45f456177c0f8b5cf0b3f821cbf9c96ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:19 +0000
Subject: [PATCH 26/71] fix: RandomNullSpaceVector permuted a strided vector as
 if it were contiguous

---
 fflas-ffpack/ffpack/ffpack.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack.inl b/fflas-ffpack/ffpack/ffpack.inl
index 8296535..0650d59 100755
--- a/fflas-ffpack/ffpack/ffpack.inl
+++ b/fflas-ffpack/ffpack/ffpack.inl
@@ -248,7 +248,7 @@ namespace FFPACK {
             FFLAS::ftrsv(F, FFLAS::FflasUpper, FFLAS::FflasNoTrans, FFLAS::FflasNonUnit, R,
                          A, lda, X, (int)incX);
 
-            applyP(F, FFLAS::FflasLeft, FFLAS::FflasTrans, 1u, 0u, (int) N, X, 1u, Q);
+            applyP(F, FFLAS::FflasLeft, FFLAS::FflasTrans, 1u, 0u, (int) N, X, incX, Q);
 
             FFLAS::fflas_delete(Q);
         }
@@ -289,7 +289,7 @@ namespace FFPACK {
             FFLAS::ftrsv(F, FFLAS::FflasLower, FFLAS::FflasTrans, FFLAS::FflasUnit, R,
                          A, lda, X, (int)incX);
 
-            applyP(F, FFLAS::FflasRight, FFLAS::FflasNoTrans, 1u, 0u, (int) M, X, 1u, P);
+            applyP(F, FFLAS::FflasLeft, FFLAS::FflasTrans, 1u, 0u, (int) M, X, incX, P);
 
             FFLAS::fflas_delete(P);
         }
-- 
2.43.0


From e4bff2f799f0b4bf52144130b0cf8f54e20c2107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:36 +0000
Subject: [PATCH 27/71] fix: CharPoly of an empty matrix (factor list,
 integers) crashed

---
 fflas-ffpack/ffpack/ffpack_charpoly.inl    | 3 +++
 fflas-ffpack/ffpack/ffpack_charpoly_mp.inl | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/fflas-ffpack/ffpack/ffpack_charpoly.inl b/fflas-ffpack/ffpack/ffpack_charpoly.inl
index a821028..6acb318 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly.inl
@@ -63,6 +63,9 @@ namespace FFPACK {
         typedef typename PolRing::Domain_t Field;
         const Field& F = R.getdomain();
 
+        if (N == 0) // empty product
+            return charp;
+
         FFPACK_CHARPOLY_TAG tag = CharpTag;
         if (tag == FfpackAuto){
             if (N < degree)
diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl b/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
index 54b6808..dced291 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
@@ -66,6 +66,11 @@ namespace FFPACK {
              Givaro::ZRing<Givaro::Integer>::RandIter& G, const FFPACK_CHARPOLY_TAG CharpTag, size_t degree){
 
         const Givaro::ZRing<Givaro::Integer>& F = R.getdomain();
+        if (N == 0){
+            charp.resize(1);
+            F.assign (charp[0], F.one);
+            return charp;
+        }
         size_t Abs = FFLAS::bitsize(F,N,N,A,lda);
         // See [Dumas Pernet Wang ISSAC'05] for the following bound on the bitsize
         // of the coefficients of the characteristic polynomial
-- 
2.43.0


From 886ec11f0179c566e2872e16719199d5e15d0a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:36 +0000
Subject: [PATCH 28/71] fix: the Krylov preconditioning of CharPoly accepted
 blocks that are not invariant, returning a wrong polynomial

---
 fflas-ffpack/ffpack/ffpack_frobenius.inl | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_frobenius.inl b/fflas-ffpack/ffpack/ffpack_frobenius.inl
index a42fb54..c5daa4a 100644
--- a/fflas-ffpack/ffpack/ffpack_frobenius.inl
+++ b/fflas-ffpack/ffpack/ffpack_frobenius.inl
@@ -200,7 +200,7 @@ namespace FFPACK { namespace Protected {
         size_t offset = Ncurr-1;
         for (size_t i=Mk-1; i>=nb_full_blocks+1;  --i){
             if (dK[i] >= 1){
-                for (size_t j = offset+1; j<R; ++j)
+                for (size_t j = offset+1; j<N; ++j)
                     if (!F.isZero(*(K4 + i*ldk + j))){
                         //std::cerr<<"FAIL C != 0 in preconditionning"<<std::endl;
                         FFLAS::fflas_delete (K,K3,K4,Pk,Qk,dA,dK);
@@ -217,6 +217,11 @@ namespace FFPACK { namespace Protected {
             }
         }
         Mk = Ma;
+            // The remaining blocks must not depend on the completed ones, nor on the complementary subspace
+        if (! FFLAS::fiszero (F, nb_full_blocks+1, N-Ncurr, K4+Ncurr, ldk)){
+            FFLAS::fflas_delete (K3, K4, K, Pk, Qk, dA, dK);
+            throw CharpolyFailed();
+        }
 
 #ifdef __FFLASFFPACK_ARITHPROG_PROFILING
         timsimilar.stop();
@@ -226,15 +231,6 @@ namespace FFPACK { namespace Protected {
         if (R<N){
                 // The Krylov basis did not span the whole space
                 // Recurse on the complementary subspace
-            if (! FFLAS::fiszero (F, nb_full_blocks+1, N-R, K4+R, ldk)){
-                
-            // for (size_t i=0; i<nb_full_blocks + 1; ++i)
-            //     for (size_t j=R; j<N; ++j){
-            //         if (!F.isZero( *(K4+i*ldk+j) )){
-                        FFLAS::fflas_delete (K3, K4, K, Pk, Qk, dA, dK);
-                        throw CharpolyFailed();
-            }
-
             size_t Nrest = N-R;
             typename Field::Element_ptr K21 = K + R*ldk;
             typename Field::Element_ptr K22 = K21 + R;
-- 
2.43.0


From 18e35c92677f8a45fc1f53817c8e01226413f233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:36 +0000
Subject: [PATCH 29/71] fix: ArithProg went on with a singular change of basis,
 reading uninitialised permutations

---
 fflas-ffpack/ffpack/ffpack_frobenius.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_frobenius.inl b/fflas-ffpack/ffpack/ffpack_frobenius.inl
index c5daa4a..3fa9870 100644
--- a/fflas-ffpack/ffpack/ffpack_frobenius.inl
+++ b/fflas-ffpack/ffpack/ffpack_frobenius.inl
@@ -442,9 +442,9 @@ namespace FFPACK { namespace Protected {
             size_t *P=FFLAS::fflas_new<size_t>(Mk);
             size_t *Q=FFLAS::fflas_new<size_t>(Mk);
             if (LUdivine (F, FFLAS::FflasNonUnit, FFLAS::FflasNoTrans, Mk, Mk , K3 + (Ncurr-Mk)*ldk, ldk, P, Q) < Mk){
-                // should never happen (not a LAS VEGAS check)
                 //std::cerr<<"FAIL R2 < MK"<<std::endl;
-                //			exit(-1);
+                FFLAS::fflas_delete (rp, Arp, Ac, K, K3, dA, dK, P, Q);
+                throw CharpolyFailed();
             }
             ftrsm (F, FFLAS::FflasLeft, FFLAS::FflasLower, FFLAS::FflasNoTrans, FFLAS::FflasUnit, Mk, Mk,F.one,
                    K3 + (Ncurr-Mk)*ldk, ldk, K+(Ncurr-Mk)*ldk, ldk);
-- 
2.43.0


From 9fb078a4644d78f643aa2ed68e005c2cf314d214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:36 +0000
Subject: [PATCH 30/71] fix: MatVecMinPoly of an empty matrix recursed for ever

---
 fflas-ffpack/ffpack/ffpack_minpoly.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fflas-ffpack/ffpack/ffpack_minpoly.inl b/fflas-ffpack/ffpack/ffpack_minpoly.inl
index d59b4c0..d0aa6ba 100644
--- a/fflas-ffpack/ffpack/ffpack_minpoly.inl
+++ b/fflas-ffpack/ffpack/ffpack_minpoly.inl
@@ -64,6 +64,11 @@ namespace FFPACK {
                    typename Field::ConstElement_ptr A, const size_t lda,
                    typename Field::ConstElement_ptr v, const size_t incv){
 
+        if (N==0){
+            minP.resize(1);
+            F.assign(minP[0],F.one);
+            return minP;
+        }
         // Construct the Krylov matrix K and eliminate it online
         typename Field::Element_ptr K = FFLAS::fflas_new(F, N+1, N);
         const size_t ldk = N;
-- 
2.43.0


From 103871c51f1cd894156645278a748ac5f8405fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:36 +0000
Subject: [PATCH 31/71] fix: cyclic_shift_row_col did not compile, and smeared
 the first entry of a single row

---
 fflas-ffpack/ffpack/ffpack_permutation.inl | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_permutation.inl b/fflas-ffpack/ffpack/ffpack_permutation.inl
index 1ee8142..baeedb2 100644
--- a/fflas-ffpack/ffpack/ffpack_permutation.inl
+++ b/fflas-ffpack/ffpack/ffpack_permutation.inl
@@ -654,7 +654,7 @@ namespace FFPACK {
                 FFLAS::fflas_delete(b);
             } else if (n != 0) {
                 Element_ptr Ai=A+mun*lda;
-                Element_ptr d = *Ai;
+                Element d = *Ai;
                 for(; Ai != A; Ai-=lda) *Ai= *(Ai-lda);
                 *A=d;
             }
@@ -662,8 +662,7 @@ namespace FFPACK {
             if ((m!=0) && (n > 1)) {
                 const size_t nun(n-1);
                 Element d = A[nun];
-                FFLAS::fassign(F,nun,A,1,A+1,1);
-                //std::copy(A,A+nun,A+1);
+                std::copy_backward(A, A+nun, A+n);
                 *A=d;
             }
         }
-- 
2.43.0


From 112777b0ce899bf81492078d0f71959017ec2ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:12 +0000
Subject: [PATCH 32/71] fix: 2D cutting with a grain or fixed block size left
 part of the space uncovered

---
 fflas-ffpack/paladin/blockcuts.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fflas-ffpack/paladin/blockcuts.inl b/fflas-ffpack/paladin/blockcuts.inl
index c67650b..c85cc2a 100644
--- a/fflas-ffpack/paladin/blockcuts.inl
+++ b/fflas-ffpack/paladin/blockcuts.inl
@@ -287,6 +287,10 @@ namespace FFLAS {
         numRowBlock = m/rowBlockSize;
         numColBlock = n/colBlockSize;
 
+        // the remainder is spread over the blocks, possibly by more than one row (column) each
+        if (numRowBlock) rowBlockSize = m/numRowBlock;
+        if (numColBlock) colBlockSize = n/numColBlock;
+
         changeRBS = m-rowBlockSize*numRowBlock;
         lastRBS = rowBlockSize;
         if (changeRBS) ++rowBlockSize;
-- 
2.43.0


From 9b521c2789c737fd70b179cc321c7b15bd055a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:07 +0000
Subject: [PATCH 33/71] fix: Krylov preconditioner took the iterates of a
 dependent block for those of the next one

---
 fflas-ffpack/ffpack/ffpack_frobenius.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_frobenius.inl b/fflas-ffpack/ffpack/ffpack_frobenius.inl
index 3fa9870..4da8de6 100644
--- a/fflas-ffpack/ffpack/ffpack_frobenius.inl
+++ b/fflas-ffpack/ffpack/ffpack_frobenius.inl
@@ -144,20 +144,20 @@ namespace FFPACK { namespace Protected {
         // Determining the degree sequence dK
         for (size_t k = 0; k<noc; ++k){
             size_t d = 0;
+            ii = k*degree;
             while ( (d<degree) && (row_idx<R) && (Qk[row_idx] == ii)) {ii++; row_idx++; d++;}
-            if (d > dold){
+            if (d > dold || (row_idx < R && Qk[row_idx] < (k+1)*degree)){
                 // std::cerr << "FAIL in preconditionning phase:"
                 //           << " degree sequence is not monotonically not increasing"
+                //           << " or the iterates kept from a block are not its first ones"
                 // 	     << std::endl;
-                FFLAS::fflas_delete (K, Pk, Qk, dA, dK);
+                FFLAS::fflas_delete (K, K2, Pk, Qk, dA, dK);
                 throw CharpolyFailed();
             }
             dK[k] = dold = d;
             Mk++;
             if (d == degree)
                 nb_full_blocks++;
-            if (row_idx < N)
-                ii = Qk[row_idx];
         }
 #ifdef __FFLASFFPACK_ARITHPROG_PROFILING
         timelim.stop();
-- 
2.43.0


From ec4d417509a3a285fc00ebbf31323b49e83ac30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:47 +0000
Subject: [PATCH 34/71] fix: sparse products scaled the result block with
 leading dimension 1 instead of ldy

---
 fflas-ffpack/fflas/fflas_sparse.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 1aaf816..4561fb3 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -53,9 +53,9 @@ namespace FFLAS {
                 if (F.isZero(b)) {
                     fzero(F, m, n, y, ldy);
                 } else if (F.isMOne(b)) {
-                    fnegin(F, m, n, y, 1);
+                    fnegin(F, m, n, y, ldy);
                 } else {
-                    fscalin(F, m, n, b, y, 1);
+                    fscalin(F, m, n, b, y, ldy);
                 }
             }
         }
-- 
2.43.0


From 2f8b41ae93d85b2413b8d53711c379619b93c1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:47 +0000
Subject: [PATCH 35/71] fix: sparse 0/c matrices ignored the constant c, and
 reduced the transposed block

---
 fflas-ffpack/fflas/fflas_sparse.inl   | 54 +++++++++++++--------------
 fflas-ffpack/fflas/fflas_sparse/csr.h |  2 +-
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 4561fb3..df694f8 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -164,7 +164,7 @@ namespace FFLAS {
             } else {
                 auto x1 = fflas_new(F, A.n, Alignment::CACHE_LINE);
                 fscal(F, A.n, A.cst, x, 1, x1, 1);
-                sparse_details_impl::fspmv_one(F, A, x, y, FieldCategories::GenericTag());
+                sparse_details_impl::fspmv_one(F, A, x1, y, FieldCategories::GenericTag());
                 fflas_delete(x1);
             }
         }
@@ -180,7 +180,7 @@ namespace FFLAS {
             } else {
                 auto x1 = fflas_new(F, A.n, Alignment::CACHE_LINE);
                 fscal(F, A.n, A.cst, x, 1, x1, 1);
-                sparse_details_impl::fspmv_one(F, A, x, y, FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmv_one(F, A, x1, y, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
         }
@@ -199,7 +199,7 @@ namespace FFLAS {
             } else {
                 auto x1 = fflas_new(F, A.n, Alignment::CACHE_LINE);
                 fscal(F, A.n, A.cst, x, 1, x1, 1);
-                sparse_details_impl::fspmv_one_simd(F, A, x, y, FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmv_one_simd(F, A, x1, y, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
             // #else
@@ -315,9 +315,9 @@ namespace FFLAS {
             } else if (F.isMOne(A.cst)) {
                 sparse_details_impl::fspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                sparse_details_impl::fspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                sparse_details_impl::fspmm_one(F, A, blockSize, x1, blockSize, y, ldy, FieldCategories::GenericTag());
                 fflas_delete(x1);
             }
         }
@@ -344,13 +344,13 @@ namespace FFLAS {
                                                                    FieldCategories::UnparametricTag());
                 }
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
-                    sparse_details_impl::fspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                if (simd::valid(x1) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldy)) {
+                    sparse_details_impl::fspmm_one_simd_aligned(F, A, blockSize, x1, blockSize, y, ldy,
                                                                 FieldCategories::UnparametricTag());
                 } else {
-                    sparse_details_impl::fspmm_one_simd_unaligned(F, A, blockSize, x, ldx, y, ldy,
+                    sparse_details_impl::fspmm_one_simd_unaligned(F, A, blockSize, x1, blockSize, y, ldy,
                                                                   FieldCategories::UnparametricTag());
                 }
                 fflas_delete(x1);
@@ -366,9 +366,9 @@ namespace FFLAS {
             } else if (F.isMOne(A.cst)) {
                 sparse_details_impl::fspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                sparse_details_impl::fspmm_one(F, A, blockSize, x1, ldx, y, ldy, FieldCategories::UnparametricTag());
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                sparse_details_impl::fspmm_one(F, A, blockSize, x1, blockSize, y, ldy, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
         }
@@ -379,7 +379,7 @@ namespace FFLAS {
               typename Field::Element_ptr y, int ldy, FieldCategories::ModularTag, ZOSparseMatrix) {
             sparse_details::fspmm(F, A, blockSize, x, ldx, y, ldy, typename FieldCategories::UnparametricTag(),
                                   ZOSparseMatrix());
-            freduce(F, blockSize, A.m, y, ldy);
+            freduce(F, A.m, blockSize, y, ldy);
         }
 
 #if defined(__FFLASFFPACK_USE_OPENMP)
@@ -478,9 +478,9 @@ namespace FFLAS {
             } else if (F.isMOne(A.cst)) {
                 sparse_details_impl::pfspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                sparse_details_impl::pfspmm_one(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                sparse_details_impl::pfspmm_one(F, A, blockSize, x1, blockSize, y, ldy, FieldCategories::GenericTag());
                 fflas_delete(x1);
             }
         }
@@ -509,13 +509,13 @@ namespace FFLAS {
                                                                     FieldCategories::UnparametricTag());
                 }
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
-                    sparse_details_impl::pfspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                if (simd::valid(x1) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldy)) {
+                    sparse_details_impl::pfspmm_one_simd_aligned(F, A, blockSize, x1, blockSize, y, ldy,
                                                                  FieldCategories::UnparametricTag());
                 } else {
-                    sparse_details_impl::pfspmm_one_simd_unaligned(F, A, blockSize, x, ldx, y, ldy,
+                    sparse_details_impl::pfspmm_one_simd_unaligned(F, A, blockSize, x1, blockSize, y, ldy,
                                                                    FieldCategories::UnparametricTag());
                 }
                 fflas_delete(x1);
@@ -531,9 +531,9 @@ namespace FFLAS {
             } else if (F.isMOne(A.cst)) {
                 sparse_details_impl::pfspmm_mone(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
-                auto x1 = fflas_new(F, A.m, blockSize, Alignment::CACHE_LINE);
-                fscal(F, A.m, blockSize, A.cst, x, ldx, x1, 1);
-                sparse_details_impl::pfspmm_one(F, A, blockSize, x1, ldx, y, ldy, FieldCategories::UnparametricTag());
+                auto x1 = fflas_new(F, A.n, blockSize, Alignment::CACHE_LINE);
+                fscal(F, A.n, blockSize, A.cst, x, ldx, x1, blockSize);
+                sparse_details_impl::pfspmm_one(F, A, blockSize, x1, blockSize, y, ldy, FieldCategories::UnparametricTag());
                 fflas_delete(x1);
             }
         }
@@ -544,7 +544,7 @@ namespace FFLAS {
                typename Field::Element_ptr y, int ldy, FieldCategories::ModularTag, ZOSparseMatrix) {
             sparse_details::pfspmm(F, A, blockSize, x, ldx, y, ldy, typename FieldCategories::UnparametricTag(),
                                    ZOSparseMatrix());
-            freduce(F, blockSize, A.m, y, ldy);
+            freduce(F, A.m, blockSize, y, ldy);
         }
 
 #endif // __FFLASFFPACK_HAVE_SSE4_1_INSTRUCTIONS
diff --git a/fflas-ffpack/fflas/fflas_sparse/csr.h b/fflas-ffpack/fflas/fflas_sparse/csr.h
index 54afd04..b195963 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr.h
+++ b/fflas-ffpack/fflas/fflas_sparse/csr.h
@@ -52,7 +52,7 @@ namespace FFLAS { /*  CSR */
     struct Sparse<_Field, SparseMatrix_t::CSR_ZO>
     : public Sparse<_Field, SparseMatrix_t::CSR> {
         using Field = _Field;
-        int64_t cst = 1;
+        typename _Field::Element cst = 1;
         bool delayed = false;
     };
 
-- 
2.43.0


From 5ba44b97d9155f34d78479daebe98f4f71bd9936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:47 +0000
Subject: [PATCH 36/71] fix: sparse products of a modulus too large to delay
 one product overflowed

---
 fflas-ffpack/fflas/fflas_sparse.inl | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index df694f8..57efe77 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -124,6 +124,8 @@ namespace FFLAS {
             if (A.delayed) {
                 sparse_details::fspmv(F, A, x, y, FieldCategories::UnparametricTag(), std::false_type());
                 freduce(F, A.m, y, 1);
+            } else if (A.kmax <= 1) { // not even one product can be delayed
+                sparse_details_impl::fspmv(F, A, x, y, FieldCategories::GenericTag());
             } else {
                 sparse_details_impl::fspmv(F, A, x, y, A.kmax);
             }
@@ -283,9 +285,11 @@ namespace FFLAS {
                 sparse_details::fspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag(),
                                       typename std::false_type());
                 freduce(F, A.m, blockSize, y, ldy);
+            } else if (A.kmax <= 1) { // not even one product can be delayed
+                sparse_details_impl::fspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
                 using simd = Simd<typename Field::Element>;
-                if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize)) {
+                if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_simd_aligned(F, A, blockSize, x, ldx, y, ldy, A.kmax);
                 } else {
                     sparse_details_impl::fspmm_simd_unaligned(F, A, blockSize, x, ldx, y, ldy, A.kmax);
@@ -300,6 +304,8 @@ namespace FFLAS {
             if (A.delayed) {
                 sparse_details::fspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag(), NotZOSparseMatrix());
                 freduce(F, A.m, blockSize, y, ldy);
+            } else if (A.kmax <= 1) { // not even one product can be delayed
+                sparse_details_impl::fspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
                 sparse_details_impl::fspmm(F, A, blockSize, x, ldx, y, ldy, A.kmax);
             }
@@ -444,9 +450,11 @@ namespace FFLAS {
                 sparse_details::pfspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag(),
                                        typename std::false_type());
                 freduce(F, A.m, blockSize, y, ldy);
+            } else if (A.kmax <= 1) { // not even one product can be delayed
+                sparse_details_impl::pfspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
                 using simd = Simd<typename Field::Element>;
-                if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize)) {
+                if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_simd_aligned(F, A, blockSize, x, ldx, y, ldy, A.kmax);
                 } else {
                     sparse_details_impl::pfspmm_simd_unaligned(F, A, blockSize, x, ldx, y, ldy, A.kmax);
@@ -461,6 +469,8 @@ namespace FFLAS {
             if (A.delayed) {
                 sparse_details::pfspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag(), NotZOSparseMatrix());
                 freduce(F, A.m, blockSize, y, ldy);
+            } else if (A.kmax <= 1) { // not even one product can be delayed
+                sparse_details_impl::pfspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             } else {
                 sparse_details_impl::pfspmm(F, A, blockSize, x, ldx, y, ldy, A.kmax);
             }
-- 
2.43.0


From 809f94826471ff52a90a9d0e7fd5a5d896315545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:47 +0000
Subject: [PATCH 37/71] fix: aligned sparse block products assumed leading
 dimensions of whole SIMD vectors

---
 fflas-ffpack/fflas/fflas_sparse.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse.inl b/fflas-ffpack/fflas/fflas_sparse.inl
index 57efe77..e1be0c3 100644
--- a/fflas-ffpack/fflas/fflas_sparse.inl
+++ b/fflas-ffpack/fflas/fflas_sparse.inl
@@ -263,7 +263,7 @@ namespace FFLAS {
         fspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
               typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, NotZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
-            if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize)) {
+            if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                 sparse_details_impl::fspmm_simd_aligned(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
                 sparse_details_impl::fspmm_simd_unaligned(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
@@ -334,7 +334,7 @@ namespace FFLAS {
               typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, ZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
             if (F.isOne(A.cst)) {
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                 FieldCategories::UnparametricTag());
                 } else {
@@ -342,7 +342,7 @@ namespace FFLAS {
                                                                   FieldCategories::UnparametricTag());
                 }
             } else if (F.isMOne(A.cst)) {
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::fspmm_mone_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                  FieldCategories::UnparametricTag());
                 } else {
@@ -428,7 +428,7 @@ namespace FFLAS {
         pfspmm(const Field &F, const SM &A, size_t blockSize, typename Field::ConstElement_ptr x, int ldx,
                typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, NotZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
-            if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize)) {
+            if (simd::valid(y) && simd::valid(x) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                 sparse_details_impl::pfspmm_simd_aligned(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             } else {
                 sparse_details_impl::pfspmm_simd_unaligned(F, A, blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
@@ -503,7 +503,7 @@ namespace FFLAS {
                typename Field::Element_ptr y, int ldy, FieldCategories::UnparametricTag, ZOSparseMatrix) {
             using simd = Simd<typename Field::Element>;
             if (F.isOne(A.cst)) {
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_one_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                  FieldCategories::UnparametricTag());
                 } else {
@@ -511,7 +511,7 @@ namespace FFLAS {
                                                                    FieldCategories::UnparametricTag());
                 }
             } else if (F.isMOne(A.cst)) {
-                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize)) {
+                if (simd::valid(x) && simd::valid(y) && simd::compliant(blockSize) && simd::compliant(ldx) && simd::compliant(ldy)) {
                     sparse_details_impl::pfspmm_mone_simd_aligned(F, A, blockSize, x, ldx, y, ldy,
                                                                   FieldCategories::UnparametricTag());
                 } else {
-- 
2.43.0


From 72cbe9511155db5ff43b3f33af514af1be305589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:47 +0000
Subject: [PATCH 38/71] fix: COO products did nothing or left the result
 unreduced when the reductions cannot be delayed

---
 fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl |  6 +++---
 fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl | 11 +++++------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl
index 3a200ea..0494ce9 100644
--- a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmm.inl
@@ -174,21 +174,21 @@ namespace FFLAS {
         inline void fspmm(const Field &F, const Sparse<Field, SparseMatrix_t::COO> &A, size_t blockSize,
                           typename Field::ConstElement_ptr x_, int ldx, typename Field::Element_ptr y_, int ldy,
                           const int64_t kmax) {
-            // TODO
+            fspmm(F, A, blockSize, x_, ldx, y_, ldy, FieldCategories::GenericTag());
         }
 
         template <class Field>
         inline void fspmm_simd_aligned(const Field &F, const Sparse<Field, SparseMatrix_t::COO> &A, size_t blockSize,
                                        typename Field::ConstElement_ptr x_, int ldx, typename Field::Element_ptr y_, int ldy,
                                        const int64_t kmax) {
-            // TODO
+            fspmm(F, A, blockSize, x_, ldx, y_, ldy, FieldCategories::GenericTag());
         }
 
         template <class Field>
         inline void fspmm_simd_unaligned(const Field &F, const Sparse<Field, SparseMatrix_t::COO> &A, size_t blockSize,
                                          typename Field::ConstElement_ptr x_, int ldx, typename Field::Element_ptr y_, int ldy,
                                          const int64_t kmax) {
-            // TODO
+            fspmm(F, A, blockSize, x_, ldx, y_, ldy, FieldCategories::GenericTag());
         }
 
         template <class Field>
diff --git a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl
index 18977ad..0ebb3b8 100644
--- a/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/coo/coo_spmv.inl
@@ -128,12 +128,12 @@ namespace FFLAS {
                         e += dat[w] * x[col[w]];
                         accu += 1;
                     } else {
-                        F.axpyin(e, dat[w], x[col[w]]);
-                        accu = 0;
+                        F.reduce(e);
+                        e += dat[w] * x[col[w]];
+                        accu = 1;
                     }
                 } else { // new line
-                    F.init(y[larow_i]);
-                    F.assign(y[larow_i], e);
+                    F.reduce(y[larow_i], e);
                     larow_i = row[w];
                     F.init(e);
                     F.assign(e, y[larow_i]);
@@ -142,8 +142,7 @@ namespace FFLAS {
                 }
                 ++w;
             }
-            F.init(y[larow_i]);
-            F.assign(y[larow_i], e);
+            F.reduce(y[larow_i], e);
         }
 
         template <class Field>
-- 
2.43.0


From cd456db371b65568c1417a32cb8c9de6d3ca11c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:47 +0000
Subject: [PATCH 39/71] fix: CSR_ZO products over generic fields added an
 unreduced sum

---
 fflas-ffpack/fflas/fflas_sparse/csr/csr_spmv.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr/csr_spmv.inl b/fflas-ffpack/fflas/fflas_sparse/csr/csr_spmv.inl
index c50fe9f..d0de5cb 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr/csr_spmv.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr/csr_spmv.inl
@@ -239,7 +239,10 @@ namespace FFLAS {
                 for (; j < diff; ++j) {
                     F.addin(y1, x[col[start + j]]);
                 }
-                F.addin(y[i], y1 + y2 + y3 + y4);
+                F.addin(y1, y2);
+                F.addin(y3, y4);
+                F.addin(y1, y3);
+                F.addin(y[i], y1);
             }
         }
 
@@ -265,7 +268,10 @@ namespace FFLAS {
                 for (; j < diff; ++j) {
                     F.addin(y1, x[col[start + j]]);
                 }
-                F.subin(y[i], y1 + y2 + y3 + y4);
+                F.addin(y1, y2);
+                F.addin(y3, y4);
+                F.addin(y1, y3);
+                F.subin(y[i], y1);
             }
         }
 
-- 
2.43.0


From aa26f1372b46be8a1d85da2aac07583c8fd553a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:47 +0000
Subject: [PATCH 40/71] fix: CSR_HYB block products read the wrong operand and
 coefficients, and undelayed products did nothing

---
 .../fflas_sparse/csr_hyb/csr_hyb_spmm.inl     | 69 ++++++++++---------
 .../fflas_sparse/csr_hyb/csr_hyb_spmv.inl     |  2 +-
 2 files changed, 37 insertions(+), 34 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl
index 495aebc..13faca7 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmm.inl
@@ -69,13 +69,13 @@ namespace FFLAS {
                 for (uint64_t j = start; j < stop; ++j) {
                     size_t k = 0;
                     for (; k < ROUND_DOWN(blockSize, 4); k += 4) {
-                        F.axpyin(y[i * ldy + k], dat[startDat + k], x[col[j] * ldx + k]);
-                        F.axpyin(y[i * ldy + k + 1], dat[startDat + k], x[col[j] * ldx + k + 1]);
-                        F.axpyin(y[i * ldy + k + 2], dat[startDat + k], x[col[j] * ldx + k + 2]);
-                        F.axpyin(y[i * ldy + k + 3], dat[startDat + k], x[col[j] * ldx + k + 3]);
+                        F.axpyin(y[i * ldy + k], dat[startDat + j - start], x[col[j] * ldx + k]);
+                        F.axpyin(y[i * ldy + k + 1], dat[startDat + j - start], x[col[j] * ldx + k + 1]);
+                        F.axpyin(y[i * ldy + k + 2], dat[startDat + j - start], x[col[j] * ldx + k + 2]);
+                        F.axpyin(y[i * ldy + k + 3], dat[startDat + j - start], x[col[j] * ldx + k + 3]);
                     }
                     for (; k < blockSize; ++k)
-                        F.axpyin(y[i * ldy + k], dat[startDat + k], x[col[j] * ldx + k]);
+                        F.axpyin(y[i * ldy + k], dat[startDat + j - start], x[col[j] * ldx + k]);
                 }
             }
         }
@@ -119,13 +119,13 @@ namespace FFLAS {
                 for (uint64_t j = start; j < stop; ++j) {
                     size_t k = 0;
                     for (; k < ROUND_DOWN(blockSize, 4); k += 4) {
-                        y[i * ldy + k] += dat[startDat + j] * x[col[j] * ldx + k];
-                        y[i * ldy + k + 1] += dat[startDat + j] * x[col[j] * ldx + k + 1];
-                        y[i * ldy + k + 2] += dat[startDat + j] * x[col[j] * ldx + k + 2];
-                        y[i * ldy + k + 3] += dat[startDat + j] * x[col[j] * ldx + k + 3];
+                        y[i * ldy + k] += dat[startDat + j - start] * x[col[j] * ldx + k];
+                        y[i * ldy + k + 1] += dat[startDat + j - start] * x[col[j] * ldx + k + 1];
+                        y[i * ldy + k + 2] += dat[startDat + j - start] * x[col[j] * ldx + k + 2];
+                        y[i * ldy + k + 3] += dat[startDat + j - start] * x[col[j] * ldx + k + 3];
                     }
                     for (; k < blockSize; ++k)
-                        y[i * ldy + k] += dat[startDat + j] * x[col[j] * ldx + k];
+                        y[i * ldy + k] += dat[startDat + j - start] * x[col[j] * ldx + k];
                 }
             }
         }
@@ -151,14 +151,14 @@ namespace FFLAS {
                     for (; k < ROUND_DOWN(blockSize, 2 * simd::vect_size); k += 2 * simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
                         vy2 = simd::load(y + i * ldy + k + simd::vect_size);
-                        vx1 = simd::load(y + col[j] * ldx + k);
-                        vx2 = simd::load(y + col[j] * ldx + k + simd::vect_size);
+                        vx1 = simd::load(x + col[j] * ldx + k);
+                        vx2 = simd::load(x + col[j] * ldx + k + simd::vect_size);
                         simd::store(y + i * ldy + k, simd::sub(vy1, vx1));
                         simd::store(y + i * ldy + k + simd::vect_size, simd::sub(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
-                        vx1 = simd::load(y + col[j] * ldx + k);
+                        vx1 = simd::load(x + col[j] * ldx + k);
                         simd::store(y + i * ldy + k, simd::sub(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
@@ -170,14 +170,14 @@ namespace FFLAS {
                     for (; k < ROUND_DOWN(blockSize, 2 * simd::vect_size); k += 2 * simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
                         vy2 = simd::load(y + i * ldy + k + simd::vect_size);
-                        vx1 = simd::load(y + col[j] * ldx + k);
-                        vx2 = simd::load(y + col[j] * ldx + k + simd::vect_size);
+                        vx1 = simd::load(x + col[j] * ldx + k);
+                        vx2 = simd::load(x + col[j] * ldx + k + simd::vect_size);
                         simd::store(y + i * ldy + k, simd::add(vy1, vx1));
                         simd::store(y + i * ldy + k + simd::vect_size, simd::add(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
-                        vx1 = simd::load(y + col[j] * ldx + k);
+                        vx1 = simd::load(x + col[j] * ldx + k);
                         simd::store(y + i * ldy + k, simd::add(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
@@ -187,22 +187,22 @@ namespace FFLAS {
                 index_t startDat = st[4 * i + 3];
                 for (uint64_t j = start; j < stop; ++j) {
                     size_t k = 0;
-                    vdat = simd::set1(dat[startDat + j]);
+                    vdat = simd::set1(dat[startDat + j - start]);
                     for (; k < ROUND_DOWN(blockSize, 2 * simd::vect_size); k += 2 * simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
                         vy2 = simd::load(y + i * ldy + k + simd::vect_size);
-                        vx1 = simd::load(y + col[j] * ldx + k);
-                        vx2 = simd::load(y + col[j] * ldx + k + simd::vect_size);
+                        vx1 = simd::load(x + col[j] * ldx + k);
+                        vx2 = simd::load(x + col[j] * ldx + k + simd::vect_size);
                         simd::store(y + i * ldy + k, simd::fmadd(vy1, vdat, vx1));
                         simd::store(y + i * ldy + k + simd::vect_size, simd::fmadd(vy2, vdat, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
-                        vx1 = simd::load(y + col[j] * ldx + k);
+                        vx1 = simd::load(x + col[j] * ldx + k);
                         simd::store(y + i * ldy + k, simd::fmadd(vy1, vdat, vx1));
                     }
                     for (; k < blockSize; ++k)
-                        y[i * ldy + k] -= dat[startDat + j] * x[col[j] * ldx + k];
+                        y[i * ldy + k] += dat[startDat + j - start] * x[col[j] * ldx + k];
                 }
             }
         }
@@ -226,14 +226,14 @@ namespace FFLAS {
                     for (; k < ROUND_DOWN(blockSize, 2 * simd::vect_size); k += 2 * simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
                         vy2 = simd::loadu(y + i * ldy + k + simd::vect_size);
-                        vx1 = simd::loadu(y + col[j] * ldx + k);
-                        vx2 = simd::loadu(y + col[j] * ldx + k + simd::vect_size);
+                        vx1 = simd::loadu(x + col[j] * ldx + k);
+                        vx2 = simd::loadu(x + col[j] * ldx + k + simd::vect_size);
                         simd::storeu(y + i * ldy + k, simd::sub(vy1, vx1));
                         simd::storeu(y + i * ldy + k + simd::vect_size, simd::sub(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
-                        vx1 = simd::loadu(y + col[j] * ldx + k);
+                        vx1 = simd::loadu(x + col[j] * ldx + k);
                         simd::storeu(y + i * ldy + k, simd::sub(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
@@ -245,14 +245,14 @@ namespace FFLAS {
                     for (; k < ROUND_DOWN(blockSize, 2 * simd::vect_size); k += 2 * simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
                         vy2 = simd::loadu(y + i * ldy + k + simd::vect_size);
-                        vx1 = simd::loadu(y + col[j] * ldx + k);
-                        vx2 = simd::loadu(y + col[j] * ldx + k + simd::vect_size);
+                        vx1 = simd::loadu(x + col[j] * ldx + k);
+                        vx2 = simd::loadu(x + col[j] * ldx + k + simd::vect_size);
                         simd::storeu(y + i * ldy + k, simd::add(vy1, vx1));
                         simd::storeu(y + i * ldy + k + simd::vect_size, simd::add(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
-                        vx1 = simd::loadu(y + col[j] * ldx + k);
+                        vx1 = simd::loadu(x + col[j] * ldx + k);
                         simd::storeu(y + i * ldy + k, simd::add(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
@@ -262,22 +262,22 @@ namespace FFLAS {
                 index_t startDat = st[4 * i + 3];
                 for (uint64_t j = start; j < stop; ++j) {
                     size_t k = 0;
-                    vdat = simd::set1(dat[startDat + j]);
+                    vdat = simd::set1(dat[startDat + j - start]);
                     for (; k < ROUND_DOWN(blockSize, 2 * simd::vect_size); k += 2 * simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
                         vy2 = simd::loadu(y + i * ldy + k + simd::vect_size);
-                        vx1 = simd::loadu(y + col[j] * ldx + k);
-                        vx2 = simd::loadu(y + col[j] * ldx + k + simd::vect_size);
+                        vx1 = simd::loadu(x + col[j] * ldx + k);
+                        vx2 = simd::loadu(x + col[j] * ldx + k + simd::vect_size);
                         simd::storeu(y + i * ldy + k, simd::fmadd(vy1, vdat, vx1));
                         simd::storeu(y + i * ldy + k + simd::vect_size, simd::fmadd(vy2, vdat, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
-                        vx1 = simd::loadu(y + col[j] * ldx + k);
+                        vx1 = simd::loadu(x + col[j] * ldx + k);
                         simd::storeu(y + i * ldy + k, simd::fmadd(vy1, vdat, vx1));
                     }
                     for (; k < blockSize; ++k)
-                        y[i * ldy + k] -= dat[startDat + j] * x[col[j] * ldx + k];
+                        y[i * ldy + k] += dat[startDat + j - start] * x[col[j] * ldx + k];
                 }
             }
         }
@@ -285,9 +285,10 @@ namespace FFLAS {
 
         template <class Field>
         inline void fspmm(const Field &F, const Sparse<Field, SparseMatrix_t::CSR_HYB> &A, size_t blockSize,
-                          typename Field::ConstElement_ptr x_, int ldx, typename Field::Element_ptr y_, int ldy,
+                          typename Field::ConstElement_ptr x, int ldx, typename Field::Element_ptr y, int ldy,
                           const int64_t kmax) {
             // TODO
+            fspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
         }
 
 #ifdef __FFLASFFPACK_HAVE_SSE4_1_INSTRUCTIONS
@@ -297,6 +298,7 @@ namespace FFLAS {
                                        typename Field::ConstElement_ptr x, int ldx, typename Field::Element_ptr y, int ldy,
                                        uint64_t kmax) {
             // TODO
+            fspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
         }
 
         template <class Field>
@@ -304,6 +306,7 @@ namespace FFLAS {
                                          typename Field::ConstElement_ptr x, int ldx, typename Field::Element_ptr y, int ldy,
                                          uint64_t kmax) {
             // TODO
+            fspmm(F, A, blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
         }
 
 #endif
diff --git a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmv.inl b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmv.inl
index 6b91d6b..7f0bf0e 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmv.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_spmv.inl
@@ -118,8 +118,8 @@ namespace FFLAS {
         template <class Field>
         inline void fspmv(const Field &F, const Sparse<Field, SparseMatrix_t::CSR_HYB> &A, typename Field::ConstElement_ptr x_,
                           typename Field::Element_ptr y_, const uint64_t kmax) {
-            return;
             // TODO
+            fspmv(F, A, x_, y_, FieldCategories::GenericTag());
         }
 
     } // CSR_HYB_details
-- 
2.43.0


From d37423377710dc622da827a908e0040a5bc2b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:47 +0000
Subject: [PATCH 41/71] fix: CSR_HYB took the columns in the order before its
 sort

---
 fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl
index 8372dd2..7c55af3 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr_hyb/csr_hyb_utils.inl
@@ -124,10 +124,6 @@ namespace FFLAS {
         for (uint64_t i = 0; i < 4 * (rowdim + 1); ++i)
             A.st[i] = 0;
 
-        for (size_t i = 0; i < nnz; ++i) {
-            A.col[i] = static_cast<index_t>(data[i].col);
-        }
-
         data.shrink_to_fit();
 
         // sort nnz by row with order -1 1 L
@@ -148,6 +144,10 @@ namespace FFLAS {
         cout << endl;
 #endif
 
+        for (size_t i = 0; i < nnz; ++i) {
+            A.col[i] = static_cast<index_t>(data[i].col);
+        }
+
         uint64_t it = 0;
         for (size_t i = 0; i < data.size(); ++i) {
             if (!F.isOne(data[i].val) && !F.isMOne(data[i].val)) {
-- 
2.43.0


From b972a16c58f5c9dca7126d0a86aa83455a373c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:47 +0000
Subject: [PATCH 42/71] fix: ELL of a matrix without entries read the first row
 index

---
 fflas-ffpack/fflas/fflas_sparse/ell/ell_utils.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/ell/ell_utils.inl b/fflas-ffpack/fflas/fflas_sparse/ell/ell_utils.inl
index 92090dc..5f07ad8 100644
--- a/fflas-ffpack/fflas/fflas_sparse/ell/ell_utils.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/ell/ell_utils.inl
@@ -65,7 +65,7 @@ namespace FFLAS {
             F.assign(A.dat[i], F.zero);
         }
 
-        size_t currow = row[0], it = 0;
+        size_t currow = (nnz ? row[0] : 0), it = 0;
         for (size_t i = 0; i < nnz; ++i) {
             if (row[i] != currow) {
                 it = 0;
@@ -98,7 +98,7 @@ namespace FFLAS {
             A.col[i] = 0;
         }
 
-        size_t currow = row[0], it = 0;
+        size_t currow = (nnz ? row[0] : 0), it = 0;
 
         for (size_t i = 0; i < nnz; ++i) {
             if (row[i] != currow) {
-- 
2.43.0


From 9e24339429a0945be676925aacfbf7592867fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:47 +0000
Subject: [PATCH 43/71] fix: HYB_ZO always delayed the reductions

---
 .../fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl  | 18 +++++++-----------
 .../fflas/fflas_sparse/hyb_zo/hyb_zo_spmv.inl  |  4 ++--
 .../fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl |  7 ++++++-
 3 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl
index c859447..3000da0 100644
--- a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmm.inl
@@ -49,7 +49,7 @@ namespace FFLAS {
             if (A.one != nullptr)
                 sparse_details_impl::fspmm_one(F, *(A.one), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             if (A.mone != nullptr)
-                sparse_details_impl::fspmm_mone(F, *(A.mone), blockSize, x, ldx, y, FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmm_mone(F, *(A.mone), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
             if (A.dat != nullptr)
                 sparse_details_impl::fspmm(F, *(A.dat), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
         }
@@ -92,9 +92,9 @@ namespace FFLAS {
         inline void fspmm(const Field &F, const Sparse<Field, SparseMatrix_t::HYB_ZO> &A, size_t blockSize,
                           typename Field::ConstElement_ptr x, int ldx, typename Field::Element_ptr y, int ldy, uint64_t kmax) {
             if (A.one != nullptr)
-                sparse_details_impl::fspmm_one(F, *(A.one), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmm_one(F, *(A.one), blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             if (A.mone != nullptr)
-                sparse_details_impl::fspmm_mone(F, *(A.mone), blockSize, x, ldx, y, ldy, FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmm_mone(F, *(A.mone), blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             if (A.dat != nullptr)
                 sparse_details_impl::fspmm(F, *(A.dat), blockSize, x, ldx, y, ldy, kmax);
         }
@@ -106,11 +106,9 @@ namespace FFLAS {
                                        typename Field::ConstElement_ptr x, int ldx, typename Field::Element_ptr y, int ldy,
                                        uint64_t kmax) {
             if (A.one != nullptr)
-                sparse_details_impl::fspmm_one_simd_aligned(F, *(A.one), blockSize, x, ldx, y, ldy,
-                                                            FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmm_one(F, *(A.one), blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             if (A.mone != nullptr)
-                sparse_details_impl::fspmm_mone_simd_aligned(F, *(A.mone), blockSize, x, ldx, y, ldy,
-                                                             FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmm_mone(F, *(A.mone), blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             if (A.dat != nullptr)
                 sparse_details_impl::fspmm_simd_aligned(F, *(A.dat), blockSize, x, ldx, y, ldy, kmax);
         }
@@ -120,11 +118,9 @@ namespace FFLAS {
                                          typename Field::ConstElement_ptr x, int ldx, typename Field::Element_ptr y, int ldy,
                                          uint64_t kmax) {
             if (A.one != nullptr)
-                sparse_details_impl::fspmm_one_simd_unaligned(F, *(A.one), blockSize, x, ldx, y, ldy,
-                                                              FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmm_one(F, *(A.one), blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             if (A.mone != nullptr)
-                sparse_details_impl::fspmm_mone_simd_unaligned(F, *(A.mone), blockSize, x, ldx, y, ldy,
-                                                               FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmm_mone(F, *(A.mone), blockSize, x, ldx, y, ldy, FieldCategories::GenericTag());
             if (A.dat != nullptr)
                 sparse_details_impl::fspmm_simd_unaligned(F, *(A.dat), blockSize, x, ldx, y, ldy, kmax);
         }
diff --git a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmv.inl b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmv.inl
index e80fcd0..479cbbf 100644
--- a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmv.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_spmv.inl
@@ -56,9 +56,9 @@ namespace FFLAS {
         inline void fspmv(const Field &F, const Sparse<Field, SparseMatrix_t::HYB_ZO> &A, typename Field::ConstElement_ptr x,
                           typename Field::Element_ptr y, uint64_t kmax) {
             if (A.one != nullptr)
-                sparse_details_impl::fspmv_one(F, *(A.one), x, y, FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmv_one(F, *(A.one), x, y, FieldCategories::GenericTag());
             if (A.mone != nullptr)
-                sparse_details_impl::fspmv_mone(F, *(A.mone), x, y, FieldCategories::UnparametricTag());
+                sparse_details_impl::fspmv_mone(F, *(A.mone), x, y, FieldCategories::GenericTag());
             if (A.dat != nullptr)
                 sparse_details_impl::fspmv(F, *(A.dat), x, y, kmax);
         }
diff --git a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl
index fa775ee..08151fc 100644
--- a/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/hyb_zo/hyb_zo_utils.inl
@@ -47,8 +47,13 @@ namespace FFLAS {
         A.m = rowdim;
         A.n = coldim;
         A.nnz = nnz;
-        A.delayed = true;
+        A.kmax = Protected::DotProdBoundClassic(F, F.one);
         A.nElements = nnz;
+        std::vector<uint64_t> rows(rowdim, 0);
+        for (uint64_t i = 0; i < nnz; ++i)
+            rows[row[i]]++;
+        A.maxrow = *(std::max_element(rows.begin(), rows.end()));
+        A.delayed = (A.kmax > A.maxrow);
         uint64_t nOnes = 0, nMOnes = 0, nOthers = 0;
         for (uint64_t i = 0; i < nnz; ++i) {
             if (F.isOne(dat[i]))
-- 
2.43.0


From e86a02e0fb3dc41bab8b7f601f8247fc426bde61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:13 +0000
Subject: [PATCH 44/71] fix: the integer determinant did not reserve a bit for
 its sign in the residue basis

---
 fflas-ffpack/ffpack/ffpack_det_mp.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_det_mp.inl b/fflas-ffpack/ffpack/ffpack_det_mp.inl
index 9a026c1..30c75b4 100644
--- a/fflas-ffpack/ffpack/ffpack_det_mp.inl
+++ b/fflas-ffpack/ffpack/ffpack_det_mp.inl
@@ -61,8 +61,8 @@ namespace FFPACK {
             return  F.assign(det,F.one);
 
         size_t Abs = FFLAS::bitsize(F,N,N,A,lda);
-        // Hadamard's bound on the bitsize of the determinant over Z
-        int64_t Detbs = (int64_t) ceil (N * (log(double(N))/(log(2.0)*2.0) + Abs));
+        // Hadamard's bound on the bitsize of the determinant over Z, plus one bit for its sign
+        int64_t Detbs = 1 + (int64_t) ceil (N * (log(double(N))/(log(2.0)*2.0) + Abs));
         Givaro::Integer Detbound = Givaro::Integer(1) << Detbs;
         FFPACK::rns_double RNS(Detbound, 23);
         typedef FFPACK::RNSInteger<FFPACK::rns_double> RnsDomain;
-- 
2.43.0


From 20720dd2b8ada5ddee3d6835854ba0d6423644c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:30 +0000
Subject: [PATCH 45/71] fix: integer determinant overwrites its output instead
 of adding to what it contained

---
 fflas-ffpack/ffpack/ffpack_det_mp.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_det_mp.inl b/fflas-ffpack/ffpack/ffpack_det_mp.inl
index 30c75b4..7c4c7ab 100644
--- a/fflas-ffpack/ffpack/ffpack_det_mp.inl
+++ b/fflas-ffpack/ffpack/ffpack_det_mp.inl
@@ -73,7 +73,7 @@ namespace FFPACK {
 
         FFLAS::finit_rns(Zrns,N,N,(Abs/16)+((Abs%16)?1:0),A,lda,Arns);
         Det(Zrns, Detrns, N, Arns, N, psH);
-        FFLAS::fconvert_rns (Zrns,1,1, Givaro::Integer(1),&det, 1, Detrns);
+        FFLAS::fconvert_rns (Zrns,1,1, Givaro::Integer(0),&det, 1, Detrns);
 
         FFLAS::fflas_delete(Arns);
         FFLAS::fflas_delete(Detrns);
-- 
2.43.0


From fecc90ed2aa5296b0ee499fa79aad76ce3ec9d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:30 +0000
Subject: [PATCH 46/71] fix: integer characteristic polynomial overwrites its
 output instead of adding to what it contained

---
 fflas-ffpack/ffpack/ffpack_charpoly_mp.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl b/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
index dced291..dee0a20 100644
--- a/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
+++ b/fflas-ffpack/ffpack/ffpack_charpoly_mp.inl
@@ -93,7 +93,7 @@ namespace FFPACK {
 
         //std::cerr<<"fconvert...";
         charp.resize(N+1);
-        FFLAS::fconvert_rns (Zrns,1,N+1, Givaro::Integer(1),&(charp[0]), N+1, CPrns);
+        FFLAS::fconvert_rns (Zrns,1,N+1, Givaro::Integer(0),&(charp[0]), N+1, CPrns);
         //std::cerr<<"...done"<<std::endl;
 
         FFLAS::fflas_delete(Arns);
-- 
2.43.0


From b659827effd4bd3e81d10b98867662cf302b4ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:30 +0000
Subject: [PATCH 47/71] fix: RNS basis built from a number of primes never
 repeats a prime

---
 fflas-ffpack/field/rns-double.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fflas-ffpack/field/rns-double.h b/fflas-ffpack/field/rns-double.h
index 8286c87..db4800c 100644
--- a/fflas-ffpack/field/rns-double.h
+++ b/fflas-ffpack/field/rns-double.h
@@ -114,8 +114,10 @@ namespace FFPACK {
             _negbasis.resize(size);
             _basisMax.resize(size);
             for(size_t i = 0 ; i < _size ; ++i){
-                integer::random_exact_2exp(prime, _pbits-1);
-                IPD.nextprimein(prime);
+                do {
+                    integer::random_exact_2exp(prime, _pbits-1);
+                    IPD.nextprimein(prime);
+                } while (_M%prime == 0);
                 _basis[i]=prime;
                 _basisMax[i] = prime-1;
                 _negbasis[i] = 0-prime;
@@ -291,8 +293,10 @@ namespace FFPACK {
             _negbasis.resize(size);
             _basisMax.resize(size);
             for(size_t i = 0 ; i < _size ; ++i){
-                integer::random_exact_2exp(prime, _pbits-1);
-                IPD.nextprimein(prime);
+                do {
+                    integer::random_exact_2exp(prime, _pbits-1);
+                    IPD.nextprimein(prime);
+                } while (_M%prime == 0);
                 _basis[i]=prime;
                 _basisMax[i] = prime-1;
                 _negbasis[i] = 0-prime;
-- 
2.43.0


From 403b8d2f2a92bea836706fb474311e66f2b3c2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:30 +0000
Subject: [PATCH 48/71] fix: rns_double_extended::init of negative integers

---
 fflas-ffpack/field/rns-double.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/field/rns-double.inl b/fflas-ffpack/field/rns-double.inl
index 7713129..552940a 100644
--- a/fflas-ffpack/field/rns-double.inl
+++ b/fflas-ffpack/field/rns-double.inl
@@ -540,7 +540,9 @@ namespace FFPACK {
     inline void rns_double_extended::init(size_t m, double* Arns, const integer* A, size_t lda) const{
         for(size_t i = 0 ; i < m ; ++i){
             for(size_t j = 0 ; j < _size ; ++j){
-                Arns[i*_size+j] = (double)((A[i*lda]%integer(_basis[j]))[0]);
+                integer r = A[i*lda]%integer(_basis[j]);
+                if (r < 0) r += integer(_basis[j]);
+                Arns[i*_size+j] = (double)r;
             }
         }
     }
-- 
2.43.0


From 4db71160193c57f6ba1610fc8059594cb26cf050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:26 +0000
Subject: [PATCH 49/71] fix: binary matrix files honour the leading dimension
 and the storage order

---
 fflas-ffpack/utils/fflas_io.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/utils/fflas_io.h b/fflas-ffpack/utils/fflas_io.h
index e879867..274db2d 100644
--- a/fflas-ffpack/utils/fflas_io.h
+++ b/fflas-ffpack/utils/fflas_io.h
@@ -253,7 +253,13 @@ namespace FFLAS{
                              c<<std::endl;
                              c.write ( reinterpret_cast<char*> (&m), sizeof (size_t));
                              c.write ( reinterpret_cast<char*> (&n), sizeof (size_t));
-                             c.write ( reinterpret_cast<const char*> (A), sizeof(typename Field::Element)*m*n);
+                             for (size_t i = 0; i<m; ++i){
+                                 if (column_major)
+                                     for (size_t j=0; j<n; ++j)
+                                         c.write ( reinterpret_cast<const char*> (A+j*lda+i), sizeof(typename Field::Element));
+                                 else
+                                     c.write ( reinterpret_cast<const char*> (A+i*lda), sizeof(typename Field::Element)*n);
+                             }
                              break;
                          }
         default:{ // format == FflasMath
-- 
2.43.0


From de2ca5957607e94db19417449721901f8d277b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:26 +0000
Subject: [PATCH 50/71] fix: WriteMatrix writes all the digits of elements
 stored in floating point

---
 fflas-ffpack/utils/fflas_io.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fflas-ffpack/utils/fflas_io.h b/fflas-ffpack/utils/fflas_io.h
index 274db2d..cecbd4c 100644
--- a/fflas-ffpack/utils/fflas_io.h
+++ b/fflas-ffpack/utils/fflas_io.h
@@ -185,6 +185,8 @@ namespace FFLAS{
     inline std::ostream& WriteMatrix (std::ostream& c, const Field& F, size_t m, size_t n,
                                       typename Field::ConstElement_ptr A, size_t lda,
                                       FFLAS_FORMAT format, bool column_major) {
+        // all the digits of the elements stored in floating point
+        std::streamsize prec = c.precision (std::numeric_limits<double>::max_digits10);
         switch (format){
         case FflasSageMath:
             c << "Matrix (";
@@ -277,6 +279,7 @@ namespace FFLAS{
                     }
                 }
         }
+        c.precision (prec);
         return c ;
     }
 
-- 
2.43.0


From 09743ff59e5ee9b99c21ea3b97fe83be45f22602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:46 +0000
Subject: [PATCH 51/71] fix: the residue basis of the multiprecision ftrsm is
 large enough for its own checker

---
 fflas-ffpack/fflas/fflas_ftrsm_mp.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_ftrsm_mp.inl b/fflas-ffpack/fflas/fflas_ftrsm_mp.inl
index 53ef407..9eb7d9f 100644
--- a/fflas-ffpack/fflas/fflas_ftrsm_mp.inl
+++ b/fflas-ffpack/fflas/fflas_ftrsm_mp.inl
@@ -68,13 +68,19 @@ namespace FFLAS {
 
         if (K==0) return;
 
+        // largest dimension of the products computed in the rns basis
+        size_t Kmax=K;
+#ifdef ENABLE_CHECKER_ftrsm
+        Kmax=std::max(M,N); // the checker multiplies the whole solution by a vector
+#endif
+
         // compute bit size of feasible prime
-        size_t _k=std::max(K,logp/20), lk=0;
+        size_t _k=std::max(Kmax,logp/20), lk=0;
         while ( _k ) {_k>>=1; ++lk;}
         size_t prime_bitsize= (53-lk)>>1;
 
         // construct rns basis
-        Givaro::Integer maxC= 4*p*p*uint64_t(K);
+        Givaro::Integer maxC= 4*p*p*uint64_t(Kmax);
         FFPACK::rns_double RNS(maxC, prime_bitsize, true);
         FFPACK::RNSIntegerMod<FFPACK::rns_double> Zp(p, RNS);
 #ifdef BENCH_PERF_TRSM_MP
-- 
2.43.0


From 1ccebebc72e6399337768413f2a26a181da15bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:52 +0000
Subject: [PATCH 52/71] fix: getLTBruhatGen clears the T matrix with its own
 leading dimension

---
 fflas-ffpack/ffpack/ffpack_bruhatgen.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
index 3d6f924..a657fb4 100644
--- a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
+++ b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
@@ -117,7 +117,7 @@ inline void getLTBruhatGen(const Field& Fi, const FFLAS::FFLAS_UPLO Uplo,const F
                            typename Field::ConstElement_ptr A, const size_t lda,
                            typename Field::Element_ptr T, const size_t ldt)
 
-{   FFLAS::fzero(Fi, N, N, T, N);
+{   FFLAS::fzero(Fi, N, N, T, ldt);
     if (Uplo==FFLAS::FflasUpper) {     //U
         if(diag==FFLAS::FflasNonUnit){
             for(size_t i=0; i<r;i++){
-- 
2.43.0


From b7f3d0cdd62b4f38b5fe338b4a28d897e82715f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:52 +0000
Subject: [PATCH 53/71] fix: CompressToBlockBiDiagonal permutes its result with
 its own leading dimension

---
 fflas-ffpack/ffpack/ffpack_bruhatgen.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
index a657fb4..f575a76 100644
--- a/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
+++ b/fflas-ffpack/ffpack/ffpack_bruhatgen.inl
@@ -225,7 +225,7 @@ inline size_t CompressToBlockBiDiagonal(const Field&Fi, const FFLAS::FFLAS_UPLO
    Bruhat2EchelonPermutation (N,r,outer,inner,M);
     size_t * MLap = FFLAS::fflas_new<size_t>(N);
     MathPerm2LAPACKPerm(MLap, M, N);
-    applyP (Fi, Side, Trans, N, size_t(0), N, C, lda, MLap);
+    applyP (Fi, Side, Trans, N, size_t(0), N, C, ldc, MLap);
     size_t * pivot_outer_pos = FFLAS::fflas_new<size_t>(r);
   size_t * last_coeff = FFLAS::fflas_new<size_t>(r);
   for (size_t i=0;i<r;i++)
-- 
2.43.0


From c60701014233e202075a4cd2e01a53521d36d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:52 +0000
Subject: [PATCH 54/71] fix: productSSSxTS does not read beyond V when there is
 a single block

---
 fflas-ffpack/ffpack/ffpack_sss.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/ffpack/ffpack_sss.inl b/fflas-ffpack/ffpack/ffpack_sss.inl
index 09536ba..b1cbc22 100644
--- a/fflas-ffpack/ffpack/ffpack_sss.inl
+++ b/fflas-ffpack/ffpack/ffpack_sss.inl
@@ -152,7 +152,7 @@ namespace FFPACK{
                 /* Copy, but the other way: partial blocks are taken care of first*/
         
                 /* Temp1 <- alpha * V_lastv * B_lastb */
-                if (kf > 1 || rs){
+                if (k > 1){
                     fgemm (Fi, FFLAS::FflasNoTrans, FFLAS::FflasNoTrans, s, t, ls, alpha,
                            V + (k - 2) * s * ldv, ldv, B + (k - 1) * s * ldb, ldb, Fi.zero, Temp1, t);
                 }
-- 
2.43.0


From 1c70770cbed8fa4b724122376ee17cfd27b04045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:52 +0000
Subject: [PATCH 55/71] fix: the routines declared by ffpack_c.h are defined
 with C linkage and the declared argument lists

---
 fflas-ffpack/interfaces/libs/ffpack.C   | 64 ++++++++++++-------------
 fflas-ffpack/interfaces/libs/ffpack_c.h |  8 ++--
 2 files changed, 37 insertions(+), 35 deletions(-)

diff --git a/fflas-ffpack/interfaces/libs/ffpack.C b/fflas-ffpack/interfaces/libs/ffpack.C
index b16de46..7e15c80 100644
--- a/fflas-ffpack/interfaces/libs/ffpack.C
+++ b/fflas-ffpack/interfaces/libs/ffpack.C
@@ -171,8 +171,8 @@ void cyclic_shift_col_modular_double(const double p, double * A, size_t m, size_
 
 void
 applyP_modular_double( const double p,
-                       const enum FFLAS::FFLAS_SIDE Side,
-                       const enum FFLAS::FFLAS_TRANSPOSE Trans,
+                       const enum FFLAS_C_SIDE Side,
+                       const enum FFLAS_C_TRANSPOSE Trans,
                        const size_t M, const size_t ibeg, const size_t iend,
                        double * A, const size_t lda, const size_t * P
                        , bool positive)
@@ -190,7 +190,7 @@ applyP_modular_double( const double p,
 
 void
 fgetrsin_modular_double (const double p,
-                         const enum FFLAS::FFLAS_SIDE Side,
+                         const enum FFLAS_C_SIDE Side,
                          const size_t M, const size_t N, const size_t R,
                          double * A, const size_t lda,
                          const size_t *P, const size_t *Q,
@@ -209,8 +209,8 @@ fgetrsin_modular_double (const double p,
 
 
 double *
-fgetrsv_modular_double (const double p,
-                        const enum FFLAS::FFLAS_SIDE Side,
+fgetrs_modular_double (const double p,
+                        const enum FFLAS_C_SIDE Side,
                         const size_t M, const size_t N, const size_t NRHS, const size_t R,
                         double * A, const size_t lda,
                         const size_t *P, const size_t *Q,
@@ -232,7 +232,7 @@ fgetrsv_modular_double (const double p,
 
 size_t
 fgesvin_modular_double (const double p,
-                        const enum FFLAS::FFLAS_SIDE Side,
+                        const enum FFLAS_C_SIDE Side,
                         const size_t M, const size_t N,
                         double * A, const size_t lda,
                         double * B, const size_t ldb,
@@ -252,7 +252,7 @@ fgesvin_modular_double (const double p,
 
 size_t
 fgesv_modular_double (const double p,
-                      const enum FFLAS::FFLAS_SIDE Side,
+                      const enum FFLAS_C_SIDE Side,
                       const size_t M, const size_t N, const size_t NRHS,
                       double * A, const size_t lda,
                       double * X, const size_t ldx,
@@ -273,7 +273,7 @@ fgesv_modular_double (const double p,
 
 
 void
-ftrtri_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo, const enum FFLAS::FFLAS_DIAG Diag,
+ftrtri_modular_double (const double p, const enum FFLAS_C_UPLO Uplo, const enum FFLAS_C_DIAG Diag,
                        const size_t N, double * A, const size_t lda
                        , bool positive)
 {
@@ -301,15 +301,15 @@ void trinv_left_modular_double( const double p, const size_t N, const double * L
 }
 
 void
-ftrtrm_modular_double (const double p, const FFLAS::FFLAS_SIDE side, const enum FFLAS::FFLAS_DIAG Diag,
+ftrtrm_modular_double (const double p, const enum FFLAS_C_SIDE side, const enum FFLAS_C_DIAG Diag,
                        const size_t N, double * A, const size_t lda, bool positive)
 {
     if (positive) {
         Modular<double> F(p);
-        ftrtrm(F,side,Diag,N,A,lda);
+        ftrtrm(F,(enum FFLAS::FFLAS_SIDE)side,(enum FFLAS::FFLAS_DIAG)Diag,N,A,lda);
     } else {
         ModularBalanced<double> F(p);
-        ftrtrm(F,side,Diag,N,A,lda);
+        ftrtrm(F,(enum FFLAS::FFLAS_SIDE)side,(enum FFLAS::FFLAS_DIAG)Diag,N,A,lda);
     }
 }
 
@@ -318,7 +318,7 @@ ftrtrm_modular_double (const double p, const FFLAS::FFLAS_SIDE side, const enum
 /* PLUQ */
 
 size_t
-PLUQ_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,
+PLUQ_modular_double (const double p, const enum FFLAS_C_DIAG Diag,
                      const size_t M, const size_t N,
                      double * A, const size_t lda,
                      size_t*P, size_t *Q
@@ -334,7 +334,7 @@ PLUQ_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,
 }
 
 size_t
-LUdivine_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,  const enum FFLAS::FFLAS_TRANSPOSE Trans,
+LUdivine_modular_double (const double p, const enum FFLAS_C_DIAG Diag,  const enum FFLAS_C_TRANSPOSE Trans,
                          const size_t M, const size_t N,
                          double * A, const size_t lda,
                          size_t* P, size_t* Qt,
@@ -355,7 +355,7 @@ LUdivine_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,  con
 #if 0 /*  UTILE ?? */
 
 size_t
-LUdivine_small_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,  const enum FFLAS::FFLAS_TRANSPOSE Trans,
+LUdivine_small_modular_double (const double p, const enum FFLAS_C_DIAG Diag,  const enum FFLAS_C_TRANSPOSE Trans,
                                const size_t M, const size_t N,
                                double * A, const size_t lda,
                                size_t* P, size_t* Q,
@@ -363,7 +363,7 @@ LUdivine_small_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag
 
 
 size_t
-LUdivine_gauss_modular_double (const double p, const enum FFLAS::FFLAS_DIAG Diag,
+LUdivine_gauss_modular_double (const double p, const enum FFLAS_C_DIAG Diag,
                                const size_t M, const size_t N,
                                double * A, const size_t lda,
                                size_t* P, size_t* Q,
@@ -1014,7 +1014,7 @@ Solve_modular_double( const double p, const size_t M,
 
 
 void
-solveLB_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
+solveLB_modular_double( const double p, const enum FFLAS_C_SIDE Side,
                         const size_t M, const size_t N, const size_t R,
                         double * L, const size_t ldl,
                         const size_t * Q,
@@ -1033,7 +1033,7 @@ solveLB_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
 
 
 void
-solveLB2_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
+solveLB2_modular_double( const double p, const enum FFLAS_C_SIDE Side,
                          const size_t M, const size_t N, const size_t R,
                          double * L, const size_t ldl,
                          const size_t * Q,
@@ -1056,7 +1056,7 @@ solveLB2_modular_double( const double p, const enum FFLAS::FFLAS_SIDE Side,
 /*************/
 
 
-void RandomNullSpaceVector_modular_double (const double p, const enum FFLAS::FFLAS_SIDE Side,
+void RandomNullSpaceVector_modular_double (const double p, const enum FFLAS_C_SIDE Side,
                                            const size_t M, const size_t N,
                                            double * A, const size_t lda,
                                            double * X, const size_t incX
@@ -1073,7 +1073,7 @@ void RandomNullSpaceVector_modular_double (const double p, const enum FFLAS::FFL
 
 
 
-size_t NullSpaceBasis_modular_double (const double p, const enum FFLAS::FFLAS_SIDE Side,
+size_t NullSpaceBasis_modular_double (const double p, const enum FFLAS_C_SIDE Side,
                                       const size_t M, const size_t N,
                                       double * A, const size_t lda,
                                       double ** NS, size_t* ldn,
@@ -1223,8 +1223,8 @@ size_t ColRankProfileSubmatrix_modular_double (const double p, const size_t M, c
 
 
 void
-getTriangular_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                              const enum FFLAS::FFLAS_DIAG Diag,
+getTriangular_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                              const enum FFLAS_C_DIAG Diag,
                               const size_t M, const size_t N, const size_t R,
                               const double * A, const size_t lda,
                               double * T, const size_t ldt,
@@ -1243,8 +1243,8 @@ getTriangular_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
 
 
 void
-getTriangularin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                                const enum FFLAS::FFLAS_DIAG Diag,
+getTriangularin_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                                const enum FFLAS_C_DIAG Diag,
                                 const size_t M, const size_t N, const size_t R,
                                 double * A, const size_t lda
                                 , bool positive)
@@ -1261,8 +1261,8 @@ getTriangularin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Upl
 
 
 void
-getEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                               const enum FFLAS::FFLAS_DIAG Diag,
+getEchelonForm_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                               const enum FFLAS_C_DIAG Diag,
                                const size_t M, const size_t N, const size_t R, const size_t* P,
                                const double * A, const size_t lda,
                                double * T, const size_t ldt,
@@ -1282,8 +1282,8 @@ getEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo
 
 
 void
-getEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                                 const enum FFLAS::FFLAS_DIAG Diag,
+getEchelonFormin_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                                 const enum FFLAS_C_DIAG Diag,
                                  const size_t M, const size_t N, const size_t R, const size_t* P,
                                  double * A, const size_t lda,
                                  const enum FFPACK_C_LU_TAG LuTag
@@ -1300,8 +1300,8 @@ getEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Up
 
 
 void
-getEchelonTransform_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
-                                    const enum FFLAS::FFLAS_DIAG Diag,
+getEchelonTransform_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
+                                    const enum FFLAS_C_DIAG Diag,
                                     const size_t M, const size_t N, const size_t R, const size_t* P, const size_t* Q,
                                     const double * A, const size_t lda,
                                     double * T, const size_t ldt,
@@ -1321,7 +1321,7 @@ getEchelonTransform_modular_double (const double p, const enum FFLAS::FFLAS_UPLO
 
 
 void
-getReducedEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
+getReducedEchelonForm_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
                                       const size_t M, const size_t N, const size_t R, const size_t* P,
                                       const double * A, const size_t lda,
                                       double * T, const size_t ldt,
@@ -1341,7 +1341,7 @@ getReducedEchelonForm_modular_double (const double p, const enum FFLAS::FFLAS_UP
 
 
 void
-getReducedEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
+getReducedEchelonFormin_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
                                         const size_t M, const size_t N, const size_t R, const size_t* P,
                                         double * A, const size_t lda,
                                         const enum FFPACK_C_LU_TAG LuTag
@@ -1359,7 +1359,7 @@ getReducedEchelonFormin_modular_double (const double p, const enum FFLAS::FFLAS_
 
 
 void
-getReducedEchelonTransform_modular_double (const double p, const enum FFLAS::FFLAS_UPLO Uplo,
+getReducedEchelonTransform_modular_double (const double p, const enum FFLAS_C_UPLO Uplo,
                                            const size_t M, const size_t N, const size_t R, const size_t* P, const size_t* Q,
                                            const double * A, const size_t lda,
                                            double * T, const size_t ldt,
diff --git a/fflas-ffpack/interfaces/libs/ffpack_c.h b/fflas-ffpack/interfaces/libs/ffpack_c.h
index 191e98a..9a98867 100644
--- a/fflas-ffpack/interfaces/libs/ffpack_c.h
+++ b/fflas-ffpack/interfaces/libs/ffpack_c.h
@@ -217,7 +217,8 @@ extern "C" {
                           double * A, const size_t lda,
                           double * X, const size_t ldx,
                           const double * B, const size_t ldb,
-                          int * info);
+                          int * info
+                          , bool positive );
 
     /* ftrtr */
 
@@ -234,7 +235,7 @@ extern "C" {
 
 
     void
-    ftrtrm_modular_double (const double p, const enum FFLAS_C_DIAG diag, const size_t N,
+    ftrtrm_modular_double (const double p, const enum FFLAS_C_SIDE side, const enum FFLAS_C_DIAG diag, const size_t N,
                            double * A, const size_t lda
                            , bool positive );
 
@@ -522,7 +523,8 @@ extern "C" {
                             const size_t M, const size_t N, const size_t R,
                             double * L, const size_t ldl,
                             const size_t * Q,
-                            double * B, const size_t ldb );
+                            double * B, const size_t ldb
+                            , bool positive  );
 
 
     void
-- 
2.43.0


From b726ed0f9ee87327ffeb0e1a66df9f7c60571eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:52 +0000
Subject: [PATCH 56/71] fix: RandomTriangularMatrix stays inside lower
 triangular matrices with more rows than columns

---
 fflas-ffpack/utils/fflas_randommatrix.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 968f304..47f6b73 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -140,9 +140,10 @@ namespace FFPACK {
             }
         } else { // FflasLower
             for (size_t i=0 ; i<m ; ++i){
-                for (size_t j=0; j<=i ;++j)
+                for (size_t j=0; j<std::min(i+1,n) ;++j)
                     G.random (A[i*lda+j]);
-                FFLAS::fzero (F, n-1-std::min(i,n-1), A + i*lda + i+1, 1);
+                if (i+1<n)
+                    FFLAS::fzero (F, n-1-i, A + i*lda + i+1, 1);
             }
         }
         if (Diag == FFLAS::FflasUnit){
-- 
2.43.0


From b3f2fc18a4335c1aa57ecfcd6358bfc035b56862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:52 +0000
Subject: [PATCH 57/71] fix: RandomSymmetricMatrix is symmetric when a diagonal
 element is zero

---
 fflas-ffpack/utils/fflas_randommatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 47f6b73..4d3420a 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -209,7 +209,8 @@ namespace FFPACK {
                 F.init(inv);
                 F.inv(inv, A[i*(lda+1)]);
                 FFLAS::fscal(F, n-i-1, inv, A+i*(lda+1)+1, 1, A+i*(lda+1)+lda, lda);
-            }
+            } else
+                FFLAS::fzero(F, n-i-1, A+i*(lda+1)+1, 1);
         }
         ftrtrm (F, FFLAS::FflasRight, FFLAS::FflasNonUnit, n, A, lda);
         return A;
-- 
2.43.0


From e2d87aae2908ccf4a30605b562105b9f940cbe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:52 +0000
Subject: [PATCH 58/71] fix: RandomMatrixWithRank returns a matrix of the
 requested rank

---
 fflas-ffpack/utils/fflas_randommatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 4d3420a..5f4bde7 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -252,6 +252,7 @@ namespace FFPACK{
         RandomTriangularMatrix (F, m, m, FFLAS::FflasLower, FFLAS::FflasNonUnit, true, L, m, G);
         /*  Create U, upper or rank r */
         RandomTriangularMatrix (F, m, n, FFLAS::FflasUpper, FFLAS::FflasNonUnit, true, U, n, G);
+        FFLAS::fzero (F, m-r, n, U+r*n, n);
 
         /*  Create a random P,Q */
         for (size_t i = 0 ; i < n ; ++i)
-- 
2.43.0


From ecc72bc3f73683b6b2d949ef0747894b6d4ec80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:53 +0000
Subject: [PATCH 59/71] fix: RandomSymmetricRankProfileMatrix terminates when
 its last off-diagonal candidate is discarded

---
 fflas-ffpack/utils/fflas_randommatrix.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 5f4bde7..c1a2525 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -375,6 +375,10 @@ namespace FFPACK{
                 // - or we just added a diagonal pivot. We need to pick another one so
                 //   that they appear with the same probability 2/N^2 as off-diagonal pivots
                 if (k<R-1) k++; //
+                else { // the off-diagonal candidate is discarded
+                    rr[i] = rows[k];
+                    cc[j] = cols[k];
+                }
                 size_t l, co;
                 int found =-1;
                 do{
-- 
2.43.0


From e7605664b7c1284892867ba664e7ba8d1ae9205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:53 +0000
Subject: [PATCH 60/71] fix: the non template generators of
 fflas_randommatrix.h are inline

---
 fflas-ffpack/utils/fflas_randommatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index c1a2525..5de1f48 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -501,7 +501,7 @@ namespace FFPACK{
 
     // O(1)
     // estimate what rank a submatrix is able to reach given the current configuration of the algorithm
-    size_t valuate(int ti, int r, int n, int i, int Is_pivot_not_moved,int nb_pivot_after_i, int nb_pivot_bf_i, int nb_pivot_after_i_not_moved, int nb_pivot_before_i_not_moved) {
+    inline size_t valuate(int ti, int r, int n, int i, int Is_pivot_not_moved,int nb_pivot_after_i, int nb_pivot_bf_i, int nb_pivot_after_i_not_moved, int nb_pivot_before_i_not_moved) {
         // Compute the valuation of a given leading submatrix ti
             return ti + std::min(i + 1 - nb_pivot_bf_i, nb_pivot_after_i_not_moved - Is_pivot_not_moved) +
                         std::min(n - (i + 1) - nb_pivot_after_i, nb_pivot_before_i_not_moved - Is_pivot_not_moved);
@@ -514,7 +514,7 @@ namespace FFPACK{
      * @param [out] rows
      * @param [out] cols
     */
-    void RandomLTQSRankProfileMatrix (size_t n, size_t r, size_t t, size_t* rows, size_t* cols) {
+    inline void RandomLTQSRankProfileMatrix (size_t n, size_t r, size_t t, size_t* rows, size_t* cols) {
 
         // if (r <= 0 || n <= 0 || t <= 0) {
         //     std::cout << "care, all the arguments must be positive" << std::endl;
-- 
2.43.0


From b0c4326ffa166706a52a8f0395090313d67e066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:53 +0000
Subject: [PATCH 61/71] fix: RandomLTQSRankProfileMatrix restores its counters
 when it undoes a move

---
 fflas-ffpack/utils/fflas_randommatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fflas-ffpack/utils/fflas_randommatrix.h b/fflas-ffpack/utils/fflas_randommatrix.h
index 5de1f48..fe88e5c 100644
--- a/fflas-ffpack/utils/fflas_randommatrix.h
+++ b/fflas-ffpack/utils/fflas_randommatrix.h
@@ -694,14 +694,14 @@ namespace FFPACK{
                 // O(n)
                 for (size_t k = 0; k<n-1; k++){
                     if (k <= prev_i) {
-                        nb_pivot_after_index_not_moved[k]--;
+                        nb_pivot_after_index_not_moved[k]++;
                     }
                     if (k >= prev_i) {
-                        nb_pivot_before_index_not_moved[k]--;
+                        nb_pivot_before_index_not_moved[k]++;
                     }
                 }
 
-                H[prev_i] = 0;
+                H[prev_i] = 1;
 
                 ++loop;
                 if (prev_h != h) {
-- 
2.43.0


From c04e3147f9a94f4a23f0949d26fef927916ceb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:49 +0000
Subject: [PATCH 62/71] hook: the parallel granularity thresholds can be set
 from the command line

---
 fflas-ffpack/fflas/fflas_pfgemm.inl | 2 ++
 fflas-ffpack/fflas/fflas_pftrsm.inl | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_pfgemm.inl b/fflas-ffpack/fflas/fflas_pfgemm.inl
index f34d204..0153776 100644
--- a/fflas-ffpack/fflas/fflas_pfgemm.inl
+++ b/fflas-ffpack/fflas/fflas_pfgemm.inl
@@ -27,7 +27,9 @@
 #ifndef __FFLASFFPACK_fflas_pfgemm_INL
 #define __FFLASFFPACK_fflas_pfgemm_INL
 
+#ifndef __FFLASFFPACK_SEQPARTHRESHOLD
 #define __FFLASFFPACK_SEQPARTHRESHOLD 220
+#endif
 #define __FFLASFFPACK_DIMKPENALTY 1
 
 #ifdef __FFLASFFPACK_USE_KAAPI
diff --git a/fflas-ffpack/fflas/fflas_pftrsm.inl b/fflas-ffpack/fflas/fflas_pftrsm.inl
index 8b8d2fd..5d13a68 100644
--- a/fflas-ffpack/fflas/fflas_pftrsm.inl
+++ b/fflas-ffpack/fflas/fflas_pftrsm.inl
@@ -28,7 +28,9 @@
 #ifndef __FFLASFFPACK_fflas_pftrsm_INL
 #define __FFLASFFPACK_fflas_pftrsm_INL
 
+#ifndef PTRSM_HYBRID_THRESHOLD
 #define PTRSM_HYBRID_THRESHOLD 256
+#endif
 
 #include "fflas-ffpack/paladin/parallel.h"
 
-- 
2.43.0


From 5f9c6b1d01a93dbf2de03d75b6aeeebcbcaa05ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:33 +0000
Subject: [PATCH 63/71] fix: parallel RNS fgemm waits for its tasks before
 using or returning their results

---
 fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
index 7d6d309..a25fef7 100644
--- a/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
+++ b/fflas-ffpack/fflas/fflas_fgemm/fgemm_classical_mp.inl
@@ -210,6 +210,7 @@ namespace FFLAS {
 #endif
         size_t rns_size = F.size();
         typedef MMHelper<typename RNS::ModField, MMHelperAlgo::Winograd, typename ModeTraits<typename RNS::ModField>::value, ParSeqTrait> SubHelper;
+        SYNCH_GROUP(
         FORBLOCK1D(iter, rns_size, H.parseq.first_component(),
                    TASK(MODE(CONSTREFERENCE(F,H)),
                         {
@@ -225,6 +226,7 @@ namespace FFLAS {
                         }
                         })
                   );
+        ); // SYNCH_GROUP
 #ifdef PROFILE_FGEMM_MP
         t.stop();
         std::cerr<<"=========================================="<<std::endl
@@ -268,6 +270,7 @@ namespace FFLAS {
                 typename ModeTraits<typename RNS::ModField>::value,
                 ParSeqHelper::Sequential> SubSeq;
 
+        SYNCH_GROUP(
         FORBLOCK1D(iter, rns_size, Hloop,
                    TASK(MODE(CONSTREFERENCE(F,H)),
                         {
@@ -297,6 +300,7 @@ namespace FFLAS {
                         }
                         }); // TASK
         ); // FLORBLOCK1D
+        ); // SYNCH_GROUP
 
 #ifdef PROFILE_FGEMM_MP
         t.stop();
-- 
2.43.0


From 9ac9cf9c7dc0f6299bdbc05d3eeab9a2909490f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:33 +0000
Subject: [PATCH 64/71] fix: parallel hybrid ftrsm terminates and uses at least
 one thread per block for empty or narrow right-hand sides

---
 fflas-ffpack/fflas/fflas_pftrsm.inl | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_pftrsm.inl b/fflas-ffpack/fflas/fflas_pftrsm.inl
index 5d13a68..e2e50be 100644
--- a/fflas-ffpack/fflas/fflas_pftrsm.inl
+++ b/fflas-ffpack/fflas/fflas_pftrsm.inl
@@ -100,7 +100,7 @@ namespace FFLAS {
             size_t nt = H.parseq.numthreads();
             size_t nt_it,nt_rec;
             if (m/PTRSM_HYBRID_THRESHOLD < nt){
-                nt_it = (int)ceil(double(m)/PTRSM_HYBRID_THRESHOLD);
+                nt_it = std::max((int)ceil(double(m)/PTRSM_HYBRID_THRESHOLD),1);
                 nt_rec = (int)ceil(double(nt)/double(nt_it));
             } else { nt_it = nt; nt_rec = 1;}
             //			ForStrategy1D<size_t> iter(m, ParSeqHelper::Parallel((size_t)nt_it,H.parseq.method));
@@ -122,15 +122,9 @@ namespace FFLAS {
             size_t nt = H.parseq.numthreads();
             size_t nt_it=nt;
             size_t nt_rec=1;
-            if (nt_it*PTRSM_HYBRID_THRESHOLD >= n){
+            while(nt_it > 1 && (nt_it>>1)*PTRSM_HYBRID_THRESHOLD >= n){
                 nt_it>>=1;
                 nt_rec<<=1;
-                while(nt_it*PTRSM_HYBRID_THRESHOLD >= n){
-                    nt_it>>=1;
-                    nt_rec<<=1;
-                }
-                nt_it<<=1;
-                nt_rec>>=1;
             }
 
             // if ((int)n/PTRSM_HYBRID_THRESHOLD < nt){
-- 
2.43.0


From 00bd7d9067bc7188fcb56e8ca70a4194855366dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:33 +0000
Subject: [PATCH 65/71] fix: parallel csr_zo sparse-dense product subtracts the
 tail columns for -1 entries

---
 fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl b/fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl
index f52b7b3..34f5ff3 100644
--- a/fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/csr/csr_pspmm.inl
@@ -821,7 +821,7 @@ inline void pfspmm_mone_simd_aligned(const Field &F, const Sparse<Field, SparseM
                                 simd::store(y + i * ldy + k, simd::sub(y1, x1));
                                 }
                                 for (; k < blockSize; ++k) {
-                                y[i * ldy + k] += x[col[j] * ldx + k];
+                                y[i * ldy + k] -= x[col[j] * ldx + k];
                                 }
                                 }
                                 }
@@ -893,7 +893,7 @@ inline void pfspmm_mone_simd_unaligned(const Field &F, const Sparse<Field, Spars
                                 simd::storeu(y + i * ldy + k, simd::sub(y1, x1));
                                 }
                                 for (; k < blockSize; ++k) {
-                                y[i * ldy + k] += x[col[j] * ldx + k];
+                                y[i * ldy + k] -= x[col[j] * ldx + k];
                                 }
                                 }
                                 }
-- 
2.43.0


From 9dd52d664fbb9f0c0fb31e8125603bd15c2f9ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:33 +0000
Subject: [PATCH 66/71] fix: parallel PLUQ base cases use a cyclic shift so
 that the rank profile matrix is revealed

---
 fflas-ffpack/ffpack/ffpack_ppluq.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fflas-ffpack/ffpack/ffpack_ppluq.inl b/fflas-ffpack/ffpack/ffpack_ppluq.inl
index 6540fab..c104169 100644
--- a/fflas-ffpack/ffpack/ffpack_ppluq.inl
+++ b/fflas-ffpack/ffpack/ffpack_ppluq.inl
@@ -95,7 +95,8 @@ namespace FFPACK {
             if (piv == N)
                 return 0;
             if (piv){
-                Q[0] = piv;
+                // cyclic shift: the order of the non pivot columns has to be preserved
+                for (size_t i=0; i<piv; ++i) Q[i] = piv;
                 Fi.assign (*A, A[piv]);
                 Fi.assign (A[piv], Fi.zero);
             }
@@ -114,7 +115,8 @@ namespace FFPACK {
             if (piv == M)
                 return 0;
             if (piv){
-                P[0] = piv;
+                // cyclic shift: the order of the non pivot rows has to be preserved
+                for (size_t i=0; i<piv; ++i) P[i] = piv;
                 Fi.assign (*A, *(A+piv*lda));
                 Fi.assign (*(A+piv*lda), Fi.zero);
             }
-- 
2.43.0


From 134dc257f93634c8d0907997350489a500f7502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:33 +0000
Subject: [PATCH 67/71] fix: 3D adaptive parallel fgemm adds the m x n
 temporary with its own dimensions

---
 fflas-ffpack/paladin/pfgemm_variants.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/paladin/pfgemm_variants.inl b/fflas-ffpack/paladin/pfgemm_variants.inl
index 224bf34..3615195 100644
--- a/fflas-ffpack/paladin/pfgemm_variants.inl
+++ b/fflas-ffpack/paladin/pfgemm_variants.inl
@@ -149,7 +149,7 @@ namespace FFLAS
                         TASK(MODE(CONSTREFERENCE(F,H2) READ(A2,B2) READWRITE(C2)), pfgemm(F, ta, tb, m, n, k-K2, a, A2, lda, B2, ldb, F.zero, C2, n, H2));
                         CHECK_DEPENDENCIES;
 
-                        TASK(MODE(CONSTREFERENCE(F) READ(C2) READWRITE(C)),faddin(F, n, m, C2, n, C, ldc));
+                        TASK(MODE(CONSTREFERENCE(F) READ(C2) READWRITE(C)),faddin(F, m, n, C2, n, C, ldc));
 
                        );
             fflas_delete(C2);
-- 
2.43.0


From d90db44c8d3cde4172de01320304c4b013007b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:33 +0000
Subject: [PATCH 68/71] fix: parallel transposed fgemv offsets A by columns

---
 fflas-ffpack/paladin/pfgemv.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fflas-ffpack/paladin/pfgemv.inl b/fflas-ffpack/paladin/pfgemv.inl
index c6f0234..2c7962f 100644
--- a/fflas-ffpack/paladin/pfgemv.inl
+++ b/fflas-ffpack/paladin/pfgemv.inl
@@ -52,7 +52,7 @@ namespace FFLAS
                         H1.parseq.set_numthreads(H.parseq.numthreads() >> 1);
                         H2.parseq.set_numthreads(H.parseq.numthreads() - H1.parseq.numthreads());
                         typename Field::ConstElement_ptr A1 = A;
-                        typename Field::ConstElement_ptr A2 = A + ((ta==FflasNoTrans) ? Ydim2*lda : Ydim);
+                        typename Field::ConstElement_ptr A2 = A + ((ta==FflasNoTrans) ? Ydim2*lda : Ydim2);
                         typename Field::Element_ptr C1 = Y;
                         typename Field::Element_ptr C2 = Y + Ydim2*incY;
                         if (ta==FflasNoTrans){
-- 
2.43.0


From 8d35668617c6fa8d488f4f60d681bad31c51f083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:33 +0000
Subject: [PATCH 69/71] fix: emulated 16 and 32 bit shuffles decode the odd
 selectors

---
 fflas-ffpack/fflas/fflas_simd/simd128_int16.inl |  8 ++++----
 fflas-ffpack/fflas/fflas_simd/simd256_int16.inl | 16 ++++++++--------
 fflas-ffpack/fflas/fflas_simd/simd256_int32.inl |  8 ++++----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_simd/simd128_int16.inl b/fflas-ffpack/fflas/fflas_simd/simd128_int16.inl
index 080f0e1..92ddaec 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd128_int16.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd128_int16.inl
@@ -198,10 +198,10 @@ template <> struct Simd128_impl<true, true, true, 2> : public Simd128i_base {
         //#pragma warning "The simd shuffle function is emulated, it may impact the performances.";
         Converter conv;
         conv.v = a;
-        return set (conv.t[( s      & 0x0000000F)], conv.t[( s      & 0x000000F0)],
-                    conv.t[((s>> 8) & 0x0000000F)], conv.t[((s>> 8) & 0x000000F0)],
-                    conv.t[((s>>16) & 0x0000000F)], conv.t[((s>>16) & 0x000000F0)],
-                    conv.t[((s>>24) & 0x0000000F)], conv.t[((s>>24) & 0x000000F0)]);
+        return set (conv.t[( s      & 0x0000000F)], conv.t[((s>> 4) & 0x0000000F)],
+                    conv.t[((s>> 8) & 0x0000000F)], conv.t[((s>>12) & 0x0000000F)],
+                    conv.t[((s>>16) & 0x0000000F)], conv.t[((s>>20) & 0x0000000F)],
+                    conv.t[((s>>24) & 0x0000000F)], conv.t[((s>>28) & 0x0000000F)]);
     }
 
     /*
diff --git a/fflas-ffpack/fflas/fflas_simd/simd256_int16.inl b/fflas-ffpack/fflas/fflas_simd/simd256_int16.inl
index 68ed9c4..3116ad6 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd256_int16.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd256_int16.inl
@@ -216,14 +216,14 @@ template <> struct Simd256_impl<true, true, true, 2> : public Simd256i_base {
         //#pragma warning "The simd shuffle function is emulated, it may impact the performances.";
         Converter conv;
         conv.v = a;
-        return set (conv.t[( s      & 0x000000000000000F)], conv.t[( s      & 0x00000000000000F0)],
-                    conv.t[((s>> 8) & 0x000000000000000F)], conv.t[((s>> 8) & 0x00000000000000F0)],
-                    conv.t[((s>>16) & 0x000000000000000F)], conv.t[((s>>16) & 0x00000000000000F0)],
-                    conv.t[((s>>24) & 0x000000000000000F)], conv.t[((s>>24) & 0x00000000000000F0)],
-                    conv.t[((s>>32) & 0x000000000000000F)], conv.t[((s>>32) & 0x00000000000000F0)],
-                    conv.t[((s>>40) & 0x000000000000000F)], conv.t[((s>>40) & 0x00000000000000F0)],
-                    conv.t[((s>>48) & 0x000000000000000F)], conv.t[((s>>48) & 0x00000000000000F0)],
-                    conv.t[((s>>56) & 0x000000000000000F)], conv.t[((s>>56) & 0x00000000000000F0)]);
+        return set (conv.t[( s      & 0x000000000000000F)], conv.t[((s>> 4) & 0x000000000000000F)],
+                    conv.t[((s>> 8) & 0x000000000000000F)], conv.t[((s>>12) & 0x000000000000000F)],
+                    conv.t[((s>>16) & 0x000000000000000F)], conv.t[((s>>20) & 0x000000000000000F)],
+                    conv.t[((s>>24) & 0x000000000000000F)], conv.t[((s>>28) & 0x000000000000000F)],
+                    conv.t[((s>>32) & 0x000000000000000F)], conv.t[((s>>36) & 0x000000000000000F)],
+                    conv.t[((s>>40) & 0x000000000000000F)], conv.t[((s>>44) & 0x000000000000000F)],
+                    conv.t[((s>>48) & 0x000000000000000F)], conv.t[((s>>52) & 0x000000000000000F)],
+                    conv.t[((s>>56) & 0x000000000000000F)], conv.t[((s>>60) & 0x000000000000000F)]);
     }
 
     /*
diff --git a/fflas-ffpack/fflas/fflas_simd/simd256_int32.inl b/fflas-ffpack/fflas/fflas_simd/simd256_int32.inl
index 3d96675..320d327 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd256_int32.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd256_int32.inl
@@ -222,10 +222,10 @@ template <> struct Simd256_impl<true, true, true, 4> : public Simd256i_base {
         //#pragma warning "The simd shuffle function is emulated, it may impact the performances."
         Converter conv;
         conv.v = a;
-        return set (conv.t[( s      & 0x0000000F)], conv.t[( s      & 0x000000F0)],
-                    conv.t[((s>> 8) & 0x0000000F)], conv.t[((s>> 8) & 0x000000F0)],
-                    conv.t[((s>>16) & 0x0000000F)], conv.t[((s>>16) & 0x000000F0)],
-                    conv.t[((s>>24) & 0x0000000F)], conv.t[((s>>24) & 0x000000F0)]);
+        return set (conv.t[( s      & 0x0000000F)], conv.t[((s>> 4) & 0x0000000F)],
+                    conv.t[((s>> 8) & 0x0000000F)], conv.t[((s>>12) & 0x0000000F)],
+                    conv.t[((s>>16) & 0x0000000F)], conv.t[((s>>20) & 0x0000000F)],
+                    conv.t[((s>>24) & 0x0000000F)], conv.t[((s>>28) & 0x0000000F)]);
     }
 
     /*
-- 
2.43.0


From 1048a759730c5c3c71a7a32f5ba6b08aa6991da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:33 +0000
Subject: [PATCH 70/71] fix: mulhi_fast takes the sign bit of 64 bit integers

---
 fflas-ffpack/fflas/fflas_simd/simd128_int64.inl | 2 +-
 fflas-ffpack/fflas/fflas_simd/simd256_int64.inl | 2 +-
 fflas-ffpack/fflas/fflas_simd/simd512_int64.inl | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_simd/simd128_int64.inl b/fflas-ffpack/fflas/fflas_simd/simd128_int64.inl
index 0345843..0f16263 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd128_int64.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd128_int64.inl
@@ -573,7 +573,7 @@ template <> struct Simd128_impl<true, true, true, 8> : public Simd128i_base {
 protected:
     /* return the sign where vect_t is seen as four int32_t */
     static INLINE CONST vect_t signbits(const vect_t x) {
-        vect_t signBits = sub(zero(), srl< 4*sizeof(scalar_t)-1>(x));
+        vect_t signBits = sub(zero(), srl< 8*sizeof(scalar_t)-1>(x));
         return signBits;
     }
 }; // Simd128_impl<true, true, true, 8>
diff --git a/fflas-ffpack/fflas/fflas_simd/simd256_int64.inl b/fflas-ffpack/fflas/fflas_simd/simd256_int64.inl
index 660f965..63b8da3 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd256_int64.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd256_int64.inl
@@ -600,7 +600,7 @@ template <> struct Simd256_impl<true, true, true, 8> : public Simd256i_base {
 protected:
     /* return the sign where vect_t is seen as eight int32_t */
     static INLINE CONST vect_t signbits(const vect_t x) {
-        vect_t signBits = sub(zero(), srl< 4*sizeof(scalar_t)-1>(x));
+        vect_t signBits = sub(zero(), srl< 8*sizeof(scalar_t)-1>(x));
         return signBits;
     }
 }; // Simd256_impl<true, true, true, 8>
diff --git a/fflas-ffpack/fflas/fflas_simd/simd512_int64.inl b/fflas-ffpack/fflas/fflas_simd/simd512_int64.inl
index a51a740..390ee2c 100644
--- a/fflas-ffpack/fflas/fflas_simd/simd512_int64.inl
+++ b/fflas-ffpack/fflas/fflas_simd/simd512_int64.inl
@@ -651,7 +651,7 @@ template <> struct Simd512_impl<true, true, true, 8> : public Simd512i_base {
 protected:
     /* return the sign where vect_t is seen as sixteen int32_t */
     static INLINE CONST vect_t signbits(const vect_t x) {
-        vect_t signBits = sub(zero(), srl<4*sizeof(scalar_t)-1>(x));
+        vect_t signBits = sub(zero(), srl<8*sizeof(scalar_t)-1>(x));
         return signBits;
     }
 }; // Simd512_impl<true, true, true, 8>
-- 
2.43.0


From 2fc2420297022edbea345ae1ca82743531a48536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:33 +0000
Subject: [PATCH 71/71] fix: ELL_ZO sparse-dense products use the leading
 dimension of each operand

---
 .../fflas/fflas_sparse/ell/ell_spmm.inl       | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/fflas-ffpack/fflas/fflas_sparse/ell/ell_spmm.inl b/fflas-ffpack/fflas/fflas_sparse/ell/ell_spmm.inl
index c9a424b..741c014 100644
--- a/fflas-ffpack/fflas/fflas_sparse/ell/ell_spmm.inl
+++ b/fflas-ffpack/fflas/fflas_sparse/ell/ell_spmm.inl
@@ -446,13 +446,13 @@ namespace FFLAS {
                         vy2 = simd::load(y + i * ldy + k + simd::vect_size);
                         vx1 = simd::load(x + col[i * A.ld + j] * ldx + k);
                         vx2 = simd::load(x + col[i * A.ld + j] * ldx + k + simd::vect_size);
-                        simd::store(y + i * ldx + k, simd::add(vy1, vx1));
-                        simd::store(y + i * ldx + k + simd::vect_size, simd::add(vy2, vx2));
+                        simd::store(y + i * ldy + k, simd::add(vy1, vx1));
+                        simd::store(y + i * ldy + k + simd::vect_size, simd::add(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
-                        vx1 = simd::load(x + col[i * A.ld + j] * ldy + k);
-                        simd::store(y + i * ldx + k, simd::add(vy1, vx1));
+                        vx1 = simd::load(x + col[i * A.ld + j] * ldx + k);
+                        simd::store(y + i * ldy + k, simd::add(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
                         y[i * ldy + k] += x[col[i * A.ld + j] * ldx + k];
@@ -478,13 +478,13 @@ namespace FFLAS {
                         vy2 = simd::loadu(y + i * ldy + k + simd::vect_size);
                         vx1 = simd::loadu(x + col[i * A.ld + j] * ldx + k);
                         vx2 = simd::loadu(x + col[i * A.ld + j] * ldx + k + simd::vect_size);
-                        simd::storeu(y + i * ldx + k, simd::add(vy1, vx1));
-                        simd::storeu(y + i * ldx + k + simd::vect_size, simd::add(vy2, vx2));
+                        simd::storeu(y + i * ldy + k, simd::add(vy1, vx1));
+                        simd::storeu(y + i * ldy + k + simd::vect_size, simd::add(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
-                        vx1 = simd::loadu(x + col[i * A.ld + j] * ldy + k);
-                        simd::storeu(y + i * ldx + k, simd::add(vy1, vx1));
+                        vx1 = simd::loadu(x + col[i * A.ld + j] * ldx + k);
+                        simd::storeu(y + i * ldy + k, simd::add(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
                         y[i * ldy + k] += x[col[i * A.ld + j] * ldx + k];
@@ -510,13 +510,13 @@ namespace FFLAS {
                         vy2 = simd::load(y + i * ldy + k + simd::vect_size);
                         vx1 = simd::load(x + col[i * A.ld + j] * ldx + k);
                         vx2 = simd::load(x + col[i * A.ld + j] * ldx + k + simd::vect_size);
-                        simd::store(y + i * ldx + k, simd::sub(vy1, vx1));
-                        simd::store(y + i * ldx + k + simd::vect_size, simd::sub(vy2, vx2));
+                        simd::store(y + i * ldy + k, simd::sub(vy1, vx1));
+                        simd::store(y + i * ldy + k + simd::vect_size, simd::sub(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::load(y + i * ldy + k);
-                        vx1 = simd::load(x + col[i * A.ld + j] * ldy + k);
-                        simd::store(y + i * ldx + k, simd::sub(vy1, vx1));
+                        vx1 = simd::load(x + col[i * A.ld + j] * ldx + k);
+                        simd::store(y + i * ldy + k, simd::sub(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
                         y[i * ldy + k] -= x[col[i * A.ld + j] * ldx + k];
@@ -542,13 +542,13 @@ namespace FFLAS {
                         vy2 = simd::loadu(y + i * ldy + k + simd::vect_size);
                         vx1 = simd::loadu(x + col[i * A.ld + j] * ldx + k);
                         vx2 = simd::loadu(x + col[i * A.ld + j] * ldx + k + simd::vect_size);
-                        simd::storeu(y + i * ldx + k, simd::sub(vy1, vx1));
-                        simd::storeu(y + i * ldx + k + simd::vect_size, simd::sub(vy2, vx2));
+                        simd::storeu(y + i * ldy + k, simd::sub(vy1, vx1));
+                        simd::storeu(y + i * ldy + k + simd::vect_size, simd::sub(vy2, vx2));
                     }
                     for (; k < ROUND_DOWN(blockSize, simd::vect_size); k += simd::vect_size) {
                         vy1 = simd::loadu(y + i * ldy + k);
-                        vx1 = simd::loadu(x + col[i * A.ld + j] * ldy + k);
-                        simd::storeu(y + i * ldx + k, simd::sub(vy1, vx1));
+                        vx1 = simd::loadu(x + col[i * A.ld + j] * ldx + k);
+                        simd::storeu(y + i * ldy + k, simd::sub(vy1, vx1));
                     }
                     for (; k < blockSize; ++k)
                         y[i * ldy + k] -= x[col[i * A.ld + j] * ldx + k];
-- 
2.43.0

