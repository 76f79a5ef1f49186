From d5aabc2e1f71035bb445602e3754199e41bd9a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 1/7] fix: FpDbl::neg(0) must be 0 (the zero test skipped two
 words)

---
 src/zm2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 0371043..6628703 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -1550,12 +1550,12 @@ L("@@");
 		mov(rdx, gt4);
 		or_(rdx, gt3);
 		or_(rdx, gt2);
-		or_(rdx, gp1);
+		or_(rdx, gt1);
 		load_rm(gt4, gt3, gt2, gt1, mx + 32);
 		or_(rdx, gt4);
 		or_(rdx, gt3);
 		or_(rdx, gt2);
-		or_(rdx, gp1);
+		or_(rdx, gt1);
 #ifdef DEBUG_COUNT
 		jnz(".neg", T_NEAR);
 #else
-- 
2.43.0


From a9c9de80960d85e9723796147b90a1dcfe30986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 2/7] fix: Fp2::squareC must multiply (a - b) by (a + b)

---
 include/bn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bn.h b/include/bn.h
index a0b6c22..27447b5 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -493,7 +493,7 @@ struct Fp2T : public mie::local::addsubmul<Fp2T<T>
 		Fp::addNC(t, x.b_, x.b_); // 2b
 		t *= x.a_; // 2ab
 		Fp::sub(tt, x.a_, x.b_); // a - b
-		Fp::addNC(z.a_, x.a_, x.a_); // a + b
+		Fp::addNC(z.a_, x.a_, x.b_); // a + b
 		z.a_ *= tt; // (a - b)(a + b)
 		z.b_ = t;
 #endif
-- 
2.43.0


From b7941eee71c39c46a7930bbf6a2242e1b3d47c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:23 +0000
Subject: [PATCH 3/7] fix: Fp6 product coefficient could exceed p*2^256 in
 SNARK builds

---
 include/bn.h | 5 +++++
 src/zm2.cpp  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/bn.h b/include/bn.h
index 27447b5..d163af0 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -1323,7 +1323,12 @@ struct Fp6T : public mie::local::addsubmul<Fp6T<T>,
 			// # 21
 			FpDbl::subNC(z.c_.b_, z.c_.b_, T2.b_);
 			// # 23
+#ifdef BN_SUPPORT_SNARK
+			// the sum may reach 6p^2 > p * 2^256
+			FpDbl::add(z.c_.b_, z.c_.b_, T1.b_);
+#else
 			FpDbl::addNC(z.c_.b_, z.c_.b_, T1.b_);
+#endif
 		}
 		static void mod(Fp6T& z, const Dbl& x)
 		{
diff --git a/src/zm2.cpp b/src/zm2.cpp
index 6628703..0f49f74 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -2252,8 +2252,13 @@ L("@@");
 		// FpDbl::subNC(z.c_.b_, z.c_.b_, T2.b_);
 		in_FpDbl_subNC(z.c_.b_, z.c_.b_, T2.b_);
 
+#ifdef BN_SUPPORT_SNARK
+		// the sum may reach 6p^2 > p * 2^256
+		in_FpDbl_add(z.c_.b_, z.c_.b_, T1.b_);
+#else
 		// FpDbl::addNC(z.c_.b_, z.c_.b_, T1.b_);
 		in_FpDbl_addNC(z.c_.b_, z.c_.b_, T1.b_);
+#endif
 #endif
 		add(rsp, SS);
 		ret();
-- 
2.43.0


From 893c794afc048ea54d13891941ef36ae38065ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 4/7] fix: fast_modp quotient estimate for the SNARK moduli

---
 include/zm2.h | 4 ++++
 src/zm2.cpp   | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/include/zm2.h b/include/zm2.h
index 90e9ec6..b971fb5 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -231,6 +231,10 @@ public:
 	static inline void fast_modp(Fp &z)
 	{
 		uint64_t t = z.v_[3] >> 61;
+#ifdef BN_SUPPORT_SNARK
+		// p is about 1.5 * 2^253
+		t = (t * 2 + 2) / 3;
+#endif
 		z -= getDirectP((int)t);
 	}
 
diff --git a/src/zm2.cpp b/src/zm2.cpp
index 0f49f74..456c45f 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -1690,6 +1690,12 @@ L("@@");
 		const Reg64& a = rax;
 		mov(rdx, x3);
 		shr(rdx, 61); // rdx = [0:x3_63:x3_62:x3_61]
+#ifdef BN_SUPPORT_SNARK
+		// p is about 1.5 * 2^253 : quotient = (rdx * 2 + 2) / 3
+		lea(rdx, ptr [rdx + rdx + 2]);
+		imul(rdx, rdx, 86);
+		shr(rdx, 8);
+#endif
 
 		shl(rdx, 5); // sizeof(Fp) = 32
 		mov(a, (uint64_t)&s_pTbl[0]);
-- 
2.43.0


From 136c23f2212ac7543135f51cd4096d2d02a7ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 5/7] fix: Fp::_3z_add_2xC must compute 3z + 2x (it computed 2z
 + 3x)

---
 include/zm2.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/zm2.h b/include/zm2.h
index b971fb5..b81af11 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -97,9 +97,10 @@ public:
 	*/
 	static inline void _3z_add_2xC(Fp& z, const Fp& x)
 	{
-		addNC(z, z, x);
-		addNC(z, z, z);
-		addNC(z, z, x);
+		Fp t;
+		addNC(t, z, x);
+		addNC(t, t, t);
+		addNC(z, z, t);
 		fast_modp(z);
 	}
 	/*
-- 
2.43.0


From fd001a50d1706443b49151c66bb18dfa7d6b8f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:23 +0000
Subject: [PATCH 6/7] fix: scalar multiplication by a negative int or mpz_class
 gives -|m|P

---
 include/bn.h  |  7 ++++++-
 include/zm.h  | 17 +++++++++++++++--
 include/zm2.h |  4 ++++
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index d163af0..92598c9 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -45,7 +45,11 @@ struct IntTag<mpz_class> {
 	}
 	static inline size_t getBlockSize(const mpz_class& x)
 	{
-		return M_blockSize(x);
+		return mpz_size(x.get_mpz_t());
+	}
+	static inline bool isNegative(const mpz_class& x)
+	{
+		return mpz_sgn(x.get_mpz_t()) < 0;
 	}
 };
 } } // mie::util
@@ -2649,6 +2653,7 @@ inline void ScalarMult(FF* out, const FF* in, const INT& m)
 			}
 		}
 	}
+	if (Tag::isNegative(m)) FF::neg(out[1], out[1]);
 }
 
 template<class Fp>
diff --git a/include/zm.h b/include/zm.h
index 3763b45..466b790 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1353,19 +1353,28 @@ struct IntTag {
 	{
 		return x.size();
 	}
+	static inline bool isNegative(const T&)
+	{
+		return false;
+	}
 };
 
+// blocks are those of the absolute value
 template<>
 struct IntTag<int> {
-	typedef int value_type;
+	typedef unsigned int value_type;
 	static inline value_type getBlock(const int& x, size_t)
 	{
-		return x;
+		return x < 0 ? 0u - (unsigned int)x : (unsigned int)x;
 	}
 	static inline size_t getBlockSize(const int&)
 	{
 		return 1;
 	}
+	static inline bool isNegative(const int& x)
+	{
+		return x < 0;
+	}
 };
 template<>
 struct IntTag<size_t> {
@@ -1378,6 +1387,10 @@ struct IntTag<size_t> {
 	{
 		return 1;
 	}
+	static inline bool isNegative(const size_t&)
+	{
+		return false;
+	}
 };
 
 } // util
diff --git a/include/zm2.h b/include/zm2.h
index b81af11..15de3f8 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -425,6 +425,10 @@ struct IntTag<mie::Fp> {
 		err();
 		return 0;
 	}
+	static inline bool isNegative(const mie::Fp&)
+	{
+		return false;
+	}
 	static inline void err()
 	{
 		printf("Use mie::Vuint intead of Fp for the 3rd parameter for ScalarMulti\n");
-- 
2.43.0


From 4cc21de2c5e94e638771c0c568e0b0ee542e7a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 7/7] fix: generate the code again when Param::init is called
 with another curve or other options

setModulo returned at once on every call after the first, so after
init(CurveSNARK2) a later init(CurveSNARK1) kept line evaluation code with the
twist coefficient of the first curve.
---
 src/zm2.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 456c45f..659b9a2 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -3614,9 +3614,18 @@ void Fp::setModulo(const mie::Vuint& p, int mode, bool useMulx, bool definedBN_S
 		fprintf(stderr, "use -DBN_SUPPORT_SNARK for all sources\n");
 		exit(1);
 	}
+	// the generated code depends on the curve coefficient b and on the options,
+	// so generate it again if they differ from those of the previous call
 	static bool init = false;
-	if (init) return;
+	static int prevB = 0;
+	static int prevMode = 0;
+	static bool prevUseMulx = false;
+	const int b = ParamT<Fp2>::b;
+	if (init && p_ == p && prevB == b && prevMode == mode && prevUseMulx == useMulx) return;
 	init = true;
+	prevB = b;
+	prevMode = mode;
+	prevUseMulx = useMulx;
 	if (p.size() != Fp::N) {
 		mie::local::errExit("not support p for Fp::setModulo");
 	}
@@ -3685,6 +3694,7 @@ void Fp::setModulo(const mie::Vuint& p, int mode, bool useMulx, bool definedBN_S
 
 		// setup code
 		static PairingCode code(codeSize, codeAddr);
+		code.reset();
 		code.init(p_, mode, useMulx);
 		{
 			Fp t(2);
-- 
2.43.0

