From 9c8321c77c36f28bedb3095f3360433f124fa082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:23 +0000
Subject: [PATCH 1/6] fix: report cfg_no_atomic_cas on x86 built with
 atomic_maybe_uninit_no_cmpxchg

AtomicCompareExchange is not implemented for 8/16/32-bit and pointer-sized
types there, but cfg_has_atomic_cas! kept its contents.
---
 src/arch/cfgs/x86.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/arch/cfgs/x86.rs b/src/arch/cfgs/x86.rs
index bb374de..3c89a77 100644
--- a/src/arch/cfgs/x86.rs
+++ b/src/arch/cfgs/x86.rs
@@ -78,11 +78,23 @@ macro_rules! cfg_has_atomic_128 {
 macro_rules! cfg_no_atomic_128 {
     ($($tt:tt)*) => {};
 }
+#[cfg(not(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg)))]
 #[macro_export]
 macro_rules! cfg_has_atomic_cas {
     ($($tt:tt)*) => { $($tt)* };
 }
+#[cfg(not(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg)))]
 #[macro_export]
 macro_rules! cfg_no_atomic_cas {
     ($($tt:tt)*) => {};
 }
+#[cfg(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg))]
+#[macro_export]
+macro_rules! cfg_has_atomic_cas {
+    ($($tt:tt)*) => {};
+}
+#[cfg(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg))]
+#[macro_export]
+macro_rules! cfg_no_atomic_cas {
+    ($($tt:tt)*) => { $($tt)* };
+}
-- 
2.43.0


From 6ef872925714be2b801e81ce7ed382849ad194bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:48 +0000
Subject: [PATCH 2/6] fix: sign-extend the expected value of 32-bit
 compare_exchange on riscv64

lr.w sign-extends what it reads, but the upper 32 bits of a register that
holds a 32-bit asm operand are unspecified: bne then sees a difference where
there is none, and compare_exchange fails forever although the contents equal
the expected value (e.g. when the expected value is a truncated u64).
---
 src/arch/riscv.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/arch/riscv.rs b/src/arch/riscv.rs
index a7392e2..508aa68 100644
--- a/src/arch/riscv.rs
+++ b/src/arch/riscv.rs
@@ -204,7 +204,9 @@ macro_rules! atomic_swap {
 
 #[rustfmt::skip]
 macro_rules! atomic {
-    ($ty:ident, $size:tt) => {
+    // $sext sign-extends {old} where lr.$size does: the upper bits of a register that holds a value
+    // narrower than the register are unspecified, and bne compares the whole register.
+    ($ty:ident, $size:tt, $sext:tt) => {
         atomic_load_store!($ty, $size);
         atomic_swap!($ty, $size);
         #[cfg(any(target_feature = "a", atomic_maybe_uninit_target_feature = "a"))]
@@ -227,6 +229,7 @@ macro_rules! atomic {
                     macro_rules! cmpxchg {
                         ($acquire:tt, $release:tt) => {
                             asm!(
+                                $sext,                                                        // old = sign_extend(old)
                                 "2:", // 'retry:
                                     concat!("lr.", $size, $acquire, " {out}, 0({dst})"),      // atomic { out = *dst; RS = dst }
                                     "bne {out}, {old}, 3f",                                   // if out != old { jump 'cmp-fail }
@@ -236,7 +239,7 @@ macro_rules! atomic {
                                 "xor {r}, {out}, {old}",                                      // r = out ^ old
                                 "seqz {r}, {r}",                                              // if r == 0 { r = 1 } else { r = 0 }
                                 dst = in(reg) ptr_reg!(dst),
-                                old = in(reg) old,
+                                old = inout(reg) old => _,
                                 new = in(reg) new,
                                 out = out(reg) out,
                                 r = out(reg) r,
@@ -370,17 +373,23 @@ atomic_sub_word!(i8, "b");
 atomic_sub_word!(u8, "b");
 atomic_sub_word!(i16, "h");
 atomic_sub_word!(u16, "h");
-atomic!(i32, "w");
-atomic!(u32, "w");
+#[cfg(target_arch = "riscv32")]
+atomic!(i32, "w", "");
+#[cfg(target_arch = "riscv32")]
+atomic!(u32, "w", "");
+#[cfg(target_arch = "riscv64")]
+atomic!(i32, "w", "sext.w {old}, {old}");
+#[cfg(target_arch = "riscv64")]
+atomic!(u32, "w", "sext.w {old}, {old}");
 #[cfg(target_arch = "riscv64")]
-atomic!(i64, "d");
+atomic!(i64, "d", "");
 #[cfg(target_arch = "riscv64")]
-atomic!(u64, "d");
+atomic!(u64, "d", "");
 #[cfg(target_pointer_width = "32")]
-atomic!(isize, "w");
+atomic!(isize, "w", "");
 #[cfg(target_pointer_width = "32")]
-atomic!(usize, "w");
+atomic!(usize, "w", "");
 #[cfg(target_pointer_width = "64")]
-atomic!(isize, "d");
+atomic!(isize, "d", "");
 #[cfg(target_pointer_width = "64")]
-atomic!(usize, "d");
+atomic!(usize, "d", "");
-- 
2.43.0


From 17bbfe10401d9f6d94ee6c4f12bdbf1a916099cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:06 +0000
Subject: [PATCH 3/6] fix: sign-extend the expected value of 32-bit
 compare_exchange on loongarch64

ll.w sign-extends what it reads, but the upper 32 bits of a register that
holds a 32-bit asm operand are unspecified: bne then sees a difference where
there is none, and compare_exchange fails forever although the contents equal
the expected value (e.g. when the expected value is a truncated u64).
---
 src/arch/loongarch.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/arch/loongarch.rs b/src/arch/loongarch.rs
index e8fe47f..712edf7 100644
--- a/src/arch/loongarch.rs
+++ b/src/arch/loongarch.rs
@@ -60,7 +60,9 @@ macro_rules! atomic_load {
 }
 
 macro_rules! atomic {
-    ($ty:ident, $size:tt) => {
+    // $sext sign-extends {old} where ll.$size does: the upper bits of a register that holds a value
+    // narrower than the register are unspecified, and bne compares the whole register.
+    ($ty:ident, $size:tt, $sext:tt) => {
         atomic_load!($ty, $size);
         impl AtomicStore for $ty {
             #[inline]
@@ -137,6 +139,7 @@ macro_rules! atomic {
                     macro_rules! cmpxchg {
                         ($failure_fence:tt) => {
                             asm!(
+                                $sext,                                         // old = sign_extend(old)
                                 "2:", // 'retry:
                                     concat!("ll.", $size, " {out}, {dst}, 0"), // atomic { out = *dst; LL = dst }
                                     "bne {out}, {old}, 3f",                    // if out != old { jump 'cmp-fail }
@@ -149,7 +152,7 @@ macro_rules! atomic {
                                     "move {tmp}, $zero",                       // tmp = 0
                                 "4:", // 'success:
                                 dst = in(reg) ptr_reg!(dst),
-                                old = in(reg) old,
+                                old = inout(reg) old => _,
                                 new = in(reg) new,
                                 out = out(reg) out,
                                 tmp = out(reg) r,
@@ -314,17 +317,23 @@ atomic_sub_word!(i8, "b");
 atomic_sub_word!(u8, "b");
 atomic_sub_word!(i16, "h");
 atomic_sub_word!(u16, "h");
-atomic!(i32, "w");
-atomic!(u32, "w");
+#[cfg(not(target_arch = "loongarch64"))]
+atomic!(i32, "w", "");
+#[cfg(not(target_arch = "loongarch64"))]
+atomic!(u32, "w", "");
+#[cfg(target_arch = "loongarch64")]
+atomic!(i32, "w", "slli.w {old}, {old}, 0");
+#[cfg(target_arch = "loongarch64")]
+atomic!(u32, "w", "slli.w {old}, {old}, 0");
 #[cfg(target_arch = "loongarch64")]
-atomic!(i64, "d");
+atomic!(i64, "d", "");
 #[cfg(target_arch = "loongarch64")]
-atomic!(u64, "d");
+atomic!(u64, "d", "");
 #[cfg(target_pointer_width = "32")]
-atomic!(isize, "w");
+atomic!(isize, "w", "");
 #[cfg(target_pointer_width = "32")]
-atomic!(usize, "w");
+atomic!(usize, "w", "");
 #[cfg(target_pointer_width = "64")]
-atomic!(isize, "d");
+atomic!(isize, "d", "");
 #[cfg(target_pointer_width = "64")]
-atomic!(usize, "d");
+atomic!(usize, "d", "");
-- 
2.43.0


From c3b197124ab98df18f7829da94a5b491e484c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:31 +0000
Subject: [PATCH 4/6] fix: read the halves in the right order in the initial
 load of the s390x 128-bit swap

---
 src/arch/s390x.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/s390x.rs b/src/arch/s390x.rs
index 1d6b5ef..0aca271 100644
--- a/src/arch/s390x.rs
+++ b/src/arch/s390x.rs
@@ -357,8 +357,8 @@ macro_rules! atomic128 {
                 unsafe {
                     // atomic swap is always SeqCst.
                     asm!(
-                        "lg %r0, 8({dst})",             // atomic { r0 = *dst.add(8) }
-                        "lg %r1, 0({dst})",             // atomic { r1 = *dst }
+                        "lg %r0, 0({dst})",             // atomic { r0 = *dst }
+                        "lg %r1, 8({dst})",             // atomic { r1 = *dst.add(8) }
                         "2:", // 'retry:
                             "cdsg %r0, %r12, 0({dst})", // atomic { if *dst == r0:r1 { cc = 0; *dst = r12:r13 } else { cc = 1; r0:r1 = *dst } }
                             "jl 2b",                    // if cc == 1 { jump 'retry }
-- 
2.43.0


From 9052b716ba7fd6b596d8b3ac55acd47ce0373583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:06 +0000
Subject: [PATCH 5/6] fix: do not select the Armv8 back end for Armv7 where
 rustc reports v8m

---
 src/arch/mod.rs        | 2 --
 src/arch_legacy/mod.rs | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/arch/mod.rs b/src/arch/mod.rs
index 7ad4b26..71bb18d 100644
--- a/src/arch/mod.rs
+++ b/src/arch/mod.rs
@@ -64,7 +64,6 @@ mod aarch64;
     not(any(
         target_feature = "v8",
         atomic_maybe_uninit_target_feature = "v8",
-        target_feature = "v8m",
         atomic_maybe_uninit_target_feature = "v8m",
     )),
 ))]
@@ -79,7 +78,6 @@ mod arm_linux;
 #[cfg(any(
     target_feature = "v8",
     atomic_maybe_uninit_target_feature = "v8",
-    target_feature = "v8m",
     atomic_maybe_uninit_target_feature = "v8m",
 ))]
 mod armv8;
diff --git a/src/arch_legacy/mod.rs b/src/arch_legacy/mod.rs
index 7713b0e..1a91e3d 100644
--- a/src/arch_legacy/mod.rs
+++ b/src/arch_legacy/mod.rs
@@ -32,7 +32,6 @@ mod aarch64;
     not(any(
         target_feature = "v8",
         atomic_maybe_uninit_target_feature = "v8",
-        target_feature = "v8m",
         atomic_maybe_uninit_target_feature = "v8m",
     )),
 ))]
@@ -47,7 +46,6 @@ mod arm_linux;
 #[cfg(any(
     target_feature = "v8",
     atomic_maybe_uninit_target_feature = "v8",
-    target_feature = "v8m",
     atomic_maybe_uninit_target_feature = "v8m",
 ))]
 mod armv8;
-- 
2.43.0


From 3bc5090f2b95e4233e86453f9babd788ae5d0e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:10 +0000
Subject: [PATCH 6/6] fix: SEQ sets all bits on m68k

---
 src/arch/m68k.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/m68k.rs b/src/arch/m68k.rs
index 23511d5..f29cbd2 100644
--- a/src/arch/m68k.rs
+++ b/src/arch/m68k.rs
@@ -109,7 +109,7 @@ macro_rules! atomic {
                     let r: u8;
                     asm!(
                         concat!("cas.", $size, " {out}, {new}, ({dst})"), // atomic { if *dst == out { cc.Z = 1; *dst = new } else { cc.Z = 0; out = *dst } }
-                        "seq {r}",                                        // r = cc.Z
+                        "seq {r}",                                        // if cc.Z { r = !0 } else { r = 0 }
                         dst = in(reg_addr) ptr_reg!(dst),
                         new = in(reg_data) new,
                         out = inout(reg_data) old => out,
@@ -117,7 +117,7 @@ macro_rules! atomic {
                         // Do not use `preserves_flags` because CAS modifies N, Z, V, and C bits in the condition codes.
                         options(nostack),
                     );
-                    crate::utils::assert_unchecked(r == 0 || r == 1); // may help remove extra test
+                    crate::utils::assert_unchecked(r == 0 || r == !0); // may help remove extra test
                     (out, r != 0)
                 }
             }
-- 
2.43.0

