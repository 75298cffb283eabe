From ea66a56b37d217939d631f927a5c9dd5a637a184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 01/18] fix: x86-64 rawSwap stored rbx instead of the saved
 word, losing one operand

---
 src/copy.asm.ejs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/copy.asm.ejs b/src/copy.asm.ejs
index 989e927..a780cbe 100644
--- a/src/copy.asm.ejs
+++ b/src/copy.asm.ejs
@@ -69,7 +69,7 @@
         mov     rax, [rsi + <%= i*8 %>]
         mov     rcx, [rdi + <%= i*8 %>]
         mov     [rdi + <%= i*8 %>], rax
-        mov     [rsi + <%= i*8 %>], rbx
+        mov     [rsi + <%= i*8 %>], rcx
 <% } %>
         ret
 
-- 
2.43.0


From b2d4303202c95d7e750d9199d3943c55bb10587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 02/18] fix: toMontgomery of a short element left the short
 value of the result unset

---
 src/fr_generic.cpp.ejs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index 2cd5a6d..a692a57 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -310,6 +310,8 @@ void <%=name%>_toMontgomery(P<%=name%>Element r, P<%=name%>Element a)
     else if (a->shortVal < 0)
     {
         int64_t a_shortVal = a->shortVal;
+        r->shortVal = a->shortVal;
+
        <%=name%>_rawMMul1(r->longVal, <%=name%>_R2.longVal, -a_shortVal);
        <%=name%>_rawNeg(r->longVal, r->longVal);
 
@@ -317,6 +319,8 @@ void <%=name%>_toMontgomery(P<%=name%>Element r, P<%=name%>Element a)
     }
     else
     {
+        r->shortVal = a->shortVal;
+
         <%=name%>_rawMMul1(r->longVal, <%=name%>_R2.longVal, a->shortVal);
 
         r->type = <%=name%>_SHORTMONTGOMERY;
-- 
2.43.0


From a9e8a454bf7192cc3b2f1b00dce310dd33a05da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 03/18] fix: F2Field::square for a non-residue other than -1

---
 c/f2field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/f2field.cpp b/c/f2field.cpp
index 3a250ed..7a4aff0 100644
--- a/c/f2field.cpp
+++ b/c/f2field.cpp
@@ -162,7 +162,7 @@ void F2Field<BaseField>::square(Element &r, Element &e1) {
 
         F.add(tmp1, e1.a, e1.b);
         mulByNr(tmp2, e1.b);
-        F.add(tmp2, e1.a, tmp1);
+        F.add(tmp2, e1.a, tmp2);
 
         F.mul(tmp1, tmp1, tmp2);
 
-- 
2.43.0


From cd37046bd59e4a5304db661ab05b26d7ae7046f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 04/18] fix: curve eq must tell a point from any representation
 of infinity

---
 c/curve.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/curve.cpp b/c/curve.cpp
index af35ebf..338de24 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -462,6 +462,7 @@ bool Curve<BaseField>::eq(Point &p1, Point &p2) {
 #endif // COUNT_OPS
 
     if (isZero(p1)) return  isZero(p2);
+    if (isZero(p2)) return false;
 
     // U1 = X1*ZZ2
     typename BaseField::Element U1;
@@ -498,6 +499,7 @@ bool Curve<BaseField>::eq(Point &p1, PointAffine &p2) {
 #endif // COUNT_OPS
 
     if (isZero(p1)) return  isZero(p2);
+    if (isZero(p2)) return false;
 
     typename BaseField::Element tmp;
 
-- 
2.43.0


From af258d7d944403a6ec0f5ed9c92e047c9192cfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 05/18] fix: negating the affine point at infinity into an
 extended point

---
 c/curve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/curve.cpp b/c/curve.cpp
index 338de24..2b8abd3 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -591,6 +591,10 @@ void Curve<BaseField>::neg(Point &r, Point &a) {
 
 template <typename BaseField>
 void Curve<BaseField>::neg(Point &r, PointAffine &a) {
+    if (isZero(a)) {
+        copy(r, fzero);
+        return;
+    }
     F.copy(r.x, a.x);
     F.neg(r.y, a.y);
     F.copy(r.zz, F.one());
-- 
2.43.0


From 30ee09abcec16b78cb56cbb2c83747def322be1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 06/18] fix: parallelFor over an empty range aborted (ifft of
 size 1 and 2)

---
 c/misc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/misc.hpp b/c/misc.hpp
index 2fbe004..e4abce9 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -146,6 +146,8 @@ public:
     template<typename Func>
     void parallelFor(int begin, int end, Func&& func) {
 
+        if (begin >= end) return;
+
         const int  elementCount = end - begin;
         const auto jobs = divideWork(elementCount, nThreads);
         int jobBegin = begin;
-- 
2.43.0


From ad02fd58f6f151b57bf1c89a9069609441690bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 07/18] fix: MSM lost the carry out of the top chunk for large
 scalars

---
 c/msm.cpp | 2 +-
 c/msm.hpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/msm.cpp b/c/msm.cpp
index 204e2cd..519cbfd 100644
--- a/c/msm.cpp
+++ b/c/msm.cpp
@@ -50,7 +50,7 @@ void MSM<Curve, BaseField>::run(typename Curve::Point &r,
             for (int j = 0; j < nChunks; j++) {
                 int bucketIndex = getBucketIndex(i, j) + carry;
 
-                if (bucketIndex >= nBuckets) {
+                if (bucketIndex > nBuckets) {
                     bucketIndex -= nBuckets*2;
                     carry = 1;
                 } else {
diff --git a/c/msm.hpp b/c/msm.hpp
index bdfdb69..b892889 100644
--- a/c/msm.hpp
+++ b/c/msm.hpp
@@ -35,7 +35,8 @@ private:
     }
 
     uint64_t calcChunkCount(uint64_t scalarSize, uint64_t bitsPerChunk) const {
-        return ((scalarSize * 8 - 1 ) / bitsPerChunk) + 1;
+        // one bit more than the scalar, so that the carry of the signed digits has a place
+        return ((scalarSize * 8) / bitsPerChunk) + 1;
     }
 
     uint64_t calcBucketCount(uint64_t bitsPerChunk) const {
@@ -44,6 +45,7 @@ private:
 
     uint64_t getBucketIndex(uint64_t scalarIdx, uint64_t chunkIdx) const {
         uint64_t bitStart = chunkIdx*bitsPerChunk;
+        if (bitStart >= scalarSize*8) return 0;
         uint64_t byteStart = bitStart/8;
         uint64_t efectiveBitsPerChunk = bitsPerChunk;
 
-- 
2.43.0


From 5851b66140e075a53ba80747207621c2ca8e3f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 08/18] fix: multiexp with column sizes ignored empty columns

---
 c/multiexp.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/multiexp.cpp b/c/multiexp.cpp
index 4db20f2..c8cfcd8 100644
--- a/c/multiexp.cpp
+++ b/c/multiexp.cpp
@@ -60,8 +60,7 @@ void ParallelMultiexp<Curve>::processChunk(uint64_t idChunk, uint64_t nX, uint64
     #pragma omp parallel for
     for(uint64_t i=0; i<n; i++) {
         uint mod = i % nX;
-        uint len = size[mod] - 1;
-        if (i < 0 || i > len * nX + mod) continue;
+        if (i / nX >= size[mod]) continue;
         if (g.isZero(bases[i])) continue;
 #ifdef _OPENMP
         int idThread = omp_get_thread_num();
@@ -209,6 +208,10 @@ void ParallelMultiexp<Curve>::multiexp(typename Curve::Point &r,
         return;
     }
     if (n == 1) {
+        if (x[0] == 0) {
+            g.copy(r, g.zero());
+            return;
+        }
         g.mulByScalar(r, bases[0], scalars, scalarSize);
         return;
     }
-- 
2.43.0


From 5cfb6cf90d6083d2aa2d5f824f76c28d838c605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 09/18] fix: removePars must scan the whole text between the
 outer parentheses

---
 c/splitparstr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/splitparstr.cpp b/c/splitparstr.cpp
index c081969..eb347c1 100644
--- a/c/splitparstr.cpp
+++ b/c/splitparstr.cpp
@@ -7,7 +7,7 @@ void removePars(std::string &s) {
 
     int ins = 0;
     int minIns = 0;
-    for (unsigned int i=ns; i<s.length()-ns*2; i++) {
+    for (unsigned int i=ns; i<s.length()-ns; i++) {
         if (s[i] == '(') ins ++; 
         if (s[i] == ')') ins --; 
         if (ins < minIns) minIns = ins;
-- 
2.43.0


From 561c1ba0c6c24a734460c521cc5a7fcd7d6b26d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 10/18] fix: splitParStr of a text without separators recursed
 for ever

---
 c/splitparstr.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/splitparstr.cpp b/c/splitparstr.cpp
index eb347c1..8fb733f 100644
--- a/c/splitparstr.cpp
+++ b/c/splitparstr.cpp
@@ -47,6 +47,7 @@ std::vector<std::string> splitParStr(std::string s) {
     res.push_back(accS);
     if (res.size()==1) {
         removePars(res[0]);
+        if (res[0] == s) return res;
         return splitParStr(res[0]);
     } else {
         return res;
-- 
2.43.0


From 5b84d14884aad945f3d62d5a5e4b9b3817e85d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 11/18] fix: toRprBE left the buffer of zero unwritten and
 depended on the buffer capacity

---
 src/fr.cpp.ejs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index 9d3f1e2..e9e5c77 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -300,7 +300,8 @@ int Raw<%=name%>::toRprBE(const Element &element, uint8_t *data, int bytes)
 
     toMpz(r, element);
    
-    mpz_export(data, NULL, 1, bytes, 1, 0, r);
+    for (int i=0; i<<%=name%>_N64 * 8; i++) data[i] = 0;
+    mpz_export(data, NULL, 1, <%=name%>_N64 * 8, 1, 0, r);
 
     return <%=name%>_N64 * 8;
 }
-- 
2.43.0


From f93afc60246cb2b1f3cae00799ee326eb8de6535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 12/18] fix: AArch64 rawNegLS tests the borrow of its
 subtractions, not its absence

---
 src/armbuilder.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 57ad918..c7bf60b 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1010,7 +1010,7 @@ class Gen_rawNegLS extends GenBase {
         }
         if (this.width % 2) this.op_empty();
 
-        this.op("cset", "x2", "cs");
+        this.op("cset", "x2", "cc");
     }
 
     genSubtractionOpA() {
@@ -1021,7 +1021,7 @@ class Gen_rawNegLS extends GenBase {
         }
         if (this.width % 2) this.op_empty();
 
-        this.op("cset", "x3", "cs");
+        this.op("cset", "x3", "cc");
         this.op("orr",  "x3", "x3", "x2");
         this.op_empty();
         this.op("cbz", "x3", this.makeLabel("done"));
-- 
2.43.0


From 81ee304b783f54015eb2f53e73fd38ad3628b709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 13/18] fix: AArch64 rawFromMontgomery reads past an operand
 with an odd number of limbs

---
 src/armbuilder.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index c7bf60b..2065b80 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1516,7 +1516,7 @@ class Gen_rawMul1 extends GenBase {
                 this.genLoadVar(this.b1, 1);
             }
         } else {
-            this.genLoadVar(this.r1, 1);
+            this.genLoadVar(this.r1.slice(0, this.width), 1);
 
             let lastR = this.r1[this.width];
             this.op("mov", lastR, "xzr");
-- 
2.43.0


From b56d442ac241b55fdfb447b5f3259671042ea1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:28 +0000
Subject: [PATCH 14/18] fix: AArch64 rawShl left one-limb results unmasked and
 unreduced

---
 src/armbuilder.js | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 2065b80..ed70316 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1173,22 +1173,19 @@ class Gen_rawShl extends GenBase {
     }
 
     generate() {
-        if (this.width === 1) {
-            this.op("ldr", "x3", "[x1]");
-            this.op("lsl", "x3", "x3", "x2");
-            this.op("str", "x3", "[x0]");
-            this.op("ret");
-            return;
-        }
-
         this.pushRegs();
         this.genLoadVar(this.r1, 1);
         this.op_empty();
 
-        this.genCalcShift();
-        this.genCalcJump();
+        if (this.width === 1) {
+            this.op("lsl", this.r1[0], this.r1[0], "x2");
+            this.op_empty();
+        } else {
+            this.genCalcShift();
+            this.genCalcJump();
 
-        this.genShift();
+            this.genShift();
+        }
 
         this.op_label(this.makeLabel("sub"));
         this.genLboMask(this.r1[this.width-1], new Reg(6));
-- 
2.43.0


From 0a5decae70da94578587138f693480a9592553de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 15/18] fix: an FFT worker recomputed roots[1] while the others
 were reading it

---
 c/fft.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/fft.cpp b/c/fft.cpp
index 9411fb8..ab80c5c 100644
--- a/c/fft.cpp
+++ b/c/fft.cpp
@@ -93,6 +93,7 @@ FFT<Field>::FFT(u_int64_t maxDomainSize, uint32_t _nThreads)
         uint64_t increment = nRoots / nThreads;
         uint64_t start = idThread==0 ? 2 : idThread * increment;
         uint64_t end   = idThread==nThreads-1 ? nRoots : (idThread+1) * increment;
+        if (start < 2) start = 2;   // roots[0] and roots[1] are set, and every worker reads roots[1]
         if (end>start) {
             f.exp(roots[start], roots[1], (uint8_t *)(&start), sizeof(start));
         }
-- 
2.43.0


From 222474b6ebb5b0e8fd54f849e98ca328aeaf8124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 16/18] fix: x86-64 toInt rejected small negative values when
 the prime's low word is small

---
 src/copy.asm.ejs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/copy.asm.ejs b/src/copy.asm.ejs
index a780cbe..5c10ec4 100644
--- a/src/copy.asm.ejs
+++ b/src/copy.asm.ejs
@@ -183,12 +183,13 @@ u64toLong_adjust_neg:
 <%=name%>_longNeg:
         mov     rax, [rdi + 8]
         sub     rax, [q]
-        jnc     <%=name%>_longErr
 <% for (let i=1; i<n64; i++) { %>
         mov     rcx, [rdi + <%= i*8+8 %>]
         sbb     rcx, [q + <%= i*8 %>]
-        jnc     <%=name%>_longErr
+        inc     rcx                             ; the upper words of a small negative are all ones (inc keeps the borrow)
+        jnz     <%=name%>_longErr
 <% } %>
+        jnc     <%=name%>_longErr
         mov     rcx, rax
         sar     rcx, 31
         add     rcx, 1
-- 
2.43.0


From fb156594cf2b349573c90110d0eb80ca9cfd1809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 17/18] fix: copyn in the assembly build reads its int count as
 32 bits

---
 src/copy.asm.ejs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/copy.asm.ejs b/src/copy.asm.ejs
index 5c10ec4..6d599e7 100644
--- a/src/copy.asm.ejs
+++ b/src/copy.asm.ejs
@@ -90,6 +90,7 @@
 <%=name%>_copyn_loop:
         mov     r8, rsi
         mov     r9, rdi
+        mov     edx, edx        ; the count is a 32-bit int: the upper half of rdx is undefined
         mov     rax, <%= n64+1 %>
         mul     rdx
         mov     rcx, rax
-- 
2.43.0


From a7ff7b6738324e245acb2654dec797aa52de68b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 18/18] fix: portable toInt rejects values whose distance to
 the prime reaches the upper words

---
 src/fr_generic.cpp.ejs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index a692a57..1d2d037 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -750,6 +750,15 @@ int <%=name%>_longNeg(P<%=name%>Element pE)
 
     int64_t is_long = (result >> 31) + 1;
 
+    // the distance to the prime must not reach into the upper words
+    <%=name%>RawElement distance;
+    <%=name%>_rawSubRegular(distance, <%=name%>_q.longVal, pE->longVal);
+
+    for (int i = 1; i < <%=name%>_N64; i++)
+    {
+        is_long |= distance[i];
+    }
+
     if(is_long)
     {
        <%=name%>_longErr();
-- 
2.43.0

