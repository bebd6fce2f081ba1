From 6d08149353e68156c80aff1c15e4394ca6078ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:01 +0000
Subject: [PATCH 1/3] fix: fprand keeps the NBITS_FIELD low bits instead of
 dropping that many

---
 c-impl/PQCrypto-SIDH/src/poik.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index cc88941..94d8719 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -109,7 +109,7 @@ static void fprand(felm_t el)
 {
     randombytes_strict((void *) el, sizeof(felm_t));
     _Static_assert(NBITS_FIELD >= RADIX * (NWORDS_FIELD - 1), "");
-    el[NWORDS_FIELD-1] &= (digit_t) -1 >> NBITS_FIELD % RADIX;  //FIXME not uniform
+    el[NWORDS_FIELD-1] &= (digit_t) -1 >> (RADIX*NWORDS_FIELD - NBITS_FIELD);  //FIXME not uniform
 }
 
 static void fp2div(const f2elm_t X, const f2elm_t Z, f2elm_t x)
-- 
2.43.0


From 59a9a0484431b29a11adc8d9534d7bde688920e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:01 +0000
Subject: [PATCH 2/3] fix: Dump reports a failure to write a response tag

---
 c-impl/PQCrypto-SIDH/src/poik.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index 94d8719..7e0b75b 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -1549,7 +1549,8 @@ bool Dump(FILE *file, struct proof const *prf) {
     for (size_t i = 0; i < POIK_REPS; ++i) {
         struct response const *const r = &prf->resp[i];
 
-        fprintf(file, "%d\n", r->tag);
+        if (0 > fprintf(file, "%d\n", r->tag))
+            return false;
 
         switch (r->tag) {
         case RESP_LEFT:
-- 
2.43.0


From 041afb83c98505b5b9432de5b2430aec8d22c49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:01 +0000
Subject: [PATCH 3/3] fix: prove and verify report output that could not be
 flushed

---
 c-impl/prove.c  | 2 +-
 c-impl/verify.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/c-impl/prove.c b/c-impl/prove.c
index 00d17dd..77f5d46 100644
--- a/c-impl/prove.c
+++ b/c-impl/prove.c
@@ -32,7 +32,7 @@ int main(int argc, char **argv)
 
     Prove(&sec, prf);
 
-    if (!Dump(stdout, prf)) {
+    if (!Dump(stdout, prf) || fflush(stdout)) {
         fputs("could not write proof to output file\n", stderr);
         free(prf);
         return 3;
diff --git a/c-impl/verify.c b/c-impl/verify.c
index 669e2d0..7da4188 100644
--- a/c-impl/verify.c
+++ b/c-impl/verify.c
@@ -27,7 +27,8 @@ int main()
     }
 
     if (!Dump_Fp2(stdout, &prf->E0) \
-     || !Dump_Fp2(stdout, &prf->E1)) {
+     || !Dump_Fp2(stdout, &prf->E1) \
+     || fflush(stdout)) {
         fputs("could not write curve to output file\n", stderr);
         free(prf);
         return 3;
-- 
2.43.0

