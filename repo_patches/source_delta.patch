From caae629061dc992123c0dbe014deca8f96fbe097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:41 +0000
Subject: [PATCH 01/20] fix: query CPUID leaf 0x24 only when the processor
 implements it

The AVX10 version leaf was read whenever leaf 7 existed. Intel processors
answer an unimplemented basic leaf with the data of the highest implemented
one, so AVX10.2 could be reported from unrelated bits.
---
 src/x86/isa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/isa.c b/src/x86/isa.c
index 222bd23..c6ab41c 100644
--- a/src/x86/isa.c
+++ b/src/x86/isa.c
@@ -47,7 +47,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	const struct cpuid_regs structured_feature_info1 =
 		(max_base_index >= 7) ? cpuidex(7, 1) : (struct cpuid_regs){0, 0, 0, 0};
 	const struct cpuid_regs structured_feature_info2 =
-		(max_base_index >= 7) ? cpuidex(0x24, 0) : (struct cpuid_regs){0, 0, 0, 0};
+		(max_base_index >= 0x24) ? cpuidex(0x24, 0) : (struct cpuid_regs){0, 0, 0, 0};
 
 	const uint32_t processor_capacity_info_index = UINT32_C(0x80000008);
 	const struct cpuid_regs processor_capacity_info = (max_extended_index >= processor_capacity_info_index)
-- 
2.43.0


From c87817ed2c046328de5201405062d0c99f513cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:41 +0000
Subject: [PATCH 02/20] fix: report VAES and VPCLMULQDQ only when the OS
 enabled AVX state

Both extensions are VEX/EVEX encoded and fault unless the operating system
enabled the YMM state in XCR0, like every other AVX extension.
---
 src/x86/isa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x86/isa.c b/src/x86/isa.c
index c6ab41c..b5b40ab 100644
--- a/src/x86/isa.c
+++ b/src/x86/isa.c
@@ -713,7 +713,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	 * VAES instructions:
 	 * - Intel: ecx[bit 9] in structured feature info (ecx = 0).
 	 */
-	isa.vaes = !!(structured_feature_info0.ecx & UINT32_C(0x00000200));
+	isa.vaes = avx_regs && !!(structured_feature_info0.ecx & UINT32_C(0x00000200));
 
 	/*
 	 * PCLMULQDQ instruction:
@@ -725,7 +725,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	 * VPCLMULQDQ instruction:
 	 * - Intel: ecx[bit 10] in structured feature info (ecx = 0).
 	 */
-	isa.vpclmulqdq = !!(structured_feature_info0.ecx & UINT32_C(0x00000400));
+	isa.vpclmulqdq = avx_regs && !!(structured_feature_info0.ecx & UINT32_C(0x00000400));
 
 	/*
 	 * GFNI instructions:
-- 
2.43.0


From 03c1972138982df935bbc0a549c799c6993022de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:52 +0000
Subject: [PATCH 03/20] fix: report AMX only when the OS enabled the tile state

AMX instructions need the XTILECFG and XTILEDATA components of XCR0 (bits 17
and 18). The check used the AVX-512 components, so AMX was reported on systems
whose kernel enables AVX-512 but not the tile registers.
---
 src/x86/isa.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/x86/isa.c b/src/x86/isa.c
index b5b40ab..cf1c76a 100644
--- a/src/x86/isa.c
+++ b/src/x86/isa.c
@@ -54,7 +54,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 		? cpuid(processor_capacity_info_index)
 		: (struct cpuid_regs){0, 0, 0, 0};
 
-	bool avx_regs = false, avx512_regs = false, mpx_regs = false;
+	bool avx_regs = false, avx512_regs = false, mpx_regs = false, amx_regs = false;
 	/*
 	 * OSXSAVE: Operating system enabled XSAVE instructions for application
 	 * use:
@@ -112,6 +112,16 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 		if ((xcr0_valid_bits & mpx_regs_mask) == mpx_regs_mask) {
 			mpx_regs = (xfeature_enabled_mask & mpx_regs_mask) == mpx_regs_mask;
 		}
+
+		/*
+		 * AMX tile registers:
+		 * - Intel: XFEATURE_ENABLED_MASK[bit 17] for XTILECFG
+		 * - Intel: XFEATURE_ENABLED_MASK[bit 18] for XTILEDATA
+		 */
+		const uint64_t amx_regs_mask = UINT64_C(0x0000000000060000);
+		if ((xcr0_valid_bits & amx_regs_mask) == amx_regs_mask) {
+			amx_regs = (xfeature_enabled_mask & amx_regs_mask) == amx_regs_mask;
+		}
 	}
 
 #if CPUINFO_ARCH_X86
@@ -555,25 +565,25 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	 * AMX_BF16 instructions:
 	 * - Intel: edx[bit 22] in structured feature info (ecx = 0).
 	 */
-	isa.amx_bf16 = avx512_regs && !!(structured_feature_info0.edx & UINT32_C(0x00400000));
+	isa.amx_bf16 = amx_regs && !!(structured_feature_info0.edx & UINT32_C(0x00400000));
 
 	/*
 	 * AMX_TILE instructions:
 	 * - Intel: edx[bit 24] in structured feature info (ecx = 0).
 	 */
-	isa.amx_tile = avx512_regs && !!(structured_feature_info0.edx & UINT32_C(0x01000000));
+	isa.amx_tile = amx_regs && !!(structured_feature_info0.edx & UINT32_C(0x01000000));
 
 	/*
 	 * AMX_INT8 instructions:
 	 * - Intel: edx[bit 25] in structured feature info (ecx = 0).
 	 */
-	isa.amx_int8 = avx512_regs && !!(structured_feature_info0.edx & UINT32_C(0x02000000));
+	isa.amx_int8 = amx_regs && !!(structured_feature_info0.edx & UINT32_C(0x02000000));
 
 	/*
 	 * AMX_FP16 instructions:
 	 * - Intel: eax[bit 21] in structured feature info (ecx = 1).
 	 */
-	isa.amx_fp16 = avx512_regs && !!(structured_feature_info1.eax & UINT32_C(0x00200000));
+	isa.amx_fp16 = amx_regs && !!(structured_feature_info1.eax & UINT32_C(0x00200000));
 
 	/*
 	 * AVX_VNNI_INT8 instructions:
-- 
2.43.0


From 27f98321b3430c35d1fc07c5b7c94d23ab4149a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:19 +0000
Subject: [PATCH 04/20] fix: recognize the microarchitecture of Sapphire Rapids
 and Emerald Rapids

---
 include/cpuinfo.h | 2 ++
 src/x86/uarch.c   | 3 +++
 tools/cpu-info.c  | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/include/cpuinfo.h b/include/cpuinfo.h
index 5f93819..f27b061 100644
--- a/include/cpuinfo.h
+++ b/include/cpuinfo.h
@@ -353,6 +353,8 @@ enum cpuinfo_uarch {
 	cpuinfo_uarch_palm_cove = 0x0010020B,
 	/** Intel Sunny Cove microarchitecture (10 nm, Ice Lake). */
 	cpuinfo_uarch_sunny_cove = 0x0010020C,
+	/** Intel Golden Cove microarchitecture (Intel 7, Sapphire/Emerald Rapids). */
+	cpuinfo_uarch_golden_cove = 0x0010020D,
 
 	/** Pentium 4 with Willamette, Northwood, or Foster cores. */
 	cpuinfo_uarch_willamette = 0x00100300,
diff --git a/src/x86/uarch.c b/src/x86/uarch.c
index a21eabb..f03ff62 100644
--- a/src/x86/uarch.c
+++ b/src/x86/uarch.c
@@ -167,6 +167,9 @@ enum cpuinfo_uarch cpuinfo_x86_decode_uarch(
 						case 0x7D: // Ice Lake-Y
 						case 0x7E: // Ice Lake-U
 							return cpuinfo_uarch_sunny_cove;
+						case 0x8F: // Sapphire Rapids
+						case 0xCF: // Emerald Rapids
+							return cpuinfo_uarch_golden_cove;
 
 						/* Low-power cores */
 						case 0x1C: // Diamondville,
diff --git a/tools/cpu-info.c b/tools/cpu-info.c
index ca3ebfa..13fe278 100644
--- a/tools/cpu-info.c
+++ b/tools/cpu-info.c
@@ -80,6 +80,8 @@ static const char* uarch_to_string(enum cpuinfo_uarch uarch) {
 			return "Palm Cove";
 		case cpuinfo_uarch_sunny_cove:
 			return "Sunny Cove";
+		case cpuinfo_uarch_golden_cove:
+			return "Golden Cove";
 		case cpuinfo_uarch_willamette:
 			return "Willamette";
 		case cpuinfo_uarch_prescott:
-- 
2.43.0


From 2249ff9e39b61209bd2f58d7198d0a420a45eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:06 +0000
Subject: [PATCH 05/20] fix: release the processor descriptions when
 /proc/cpuinfo cannot be parsed

---
 src/arm/linux/init.c | 2 +-
 src/x86/linux/init.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 1eab69d..daed986 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -185,7 +185,7 @@ void cpuinfo_arm_linux_init(void) {
 		    arm_linux_processors_count,
 		    arm_linux_processors)) {
 		cpuinfo_log_error("failed to parse processor information from /proc/cpuinfo");
-		return;
+		goto cleanup;
 	}
 
 	for (uint32_t i = 0; i < arm_linux_processors_count; i++) {
diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index d2b2d47..688bb2e 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -207,7 +207,7 @@ void cpuinfo_x86_linux_init(void) {
 
 	if (!cpuinfo_x86_linux_parse_proc_cpuinfo(x86_linux_processors_count, x86_linux_processors)) {
 		cpuinfo_log_error("failed to parse processor information from /proc/cpuinfo");
-		return;
+		goto cleanup;
 	}
 
 	for (uint32_t i = 0; i < x86_linux_processors_count; i++) {
-- 
2.43.0


From 99f43c03c4aad1400f3a209f83146bda5d3ba5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:23 +0000
Subject: [PATCH 06/20] fix: recognize Hygon Dhyana by its family 0x18

---
 src/x86/uarch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/uarch.c b/src/x86/uarch.c
index f03ff62..96a0bcb 100644
--- a/src/x86/uarch.c
+++ b/src/x86/uarch.c
@@ -396,7 +396,7 @@ enum cpuinfo_uarch cpuinfo_x86_decode_uarch(
 			break;
 		case cpuinfo_vendor_hygon:
 			switch (model_info->family) {
-				case 0x00:
+				case 0x18:
 					return cpuinfo_uarch_dhyana;
 			}
 			break;
-- 
2.43.0


From 883fcbe2fa6151e0fbad1b1787f65163f0fc1efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:32 +0000
Subject: [PATCH 07/20] fix: keep the processor range of L1 caches overridden
 from /proc/cpuinfo

On 32-bit ARM the cache sizes reported by /proc/cpuinfo replace the whole cache
descriptor, including the processor range that was already filled in. Set the
range after the override.
---
 src/arm/linux/init.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index daed986..365605a 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -670,8 +670,6 @@ void cpuinfo_arm_linux_init(void) {
 			&l1d[i],
 			&temp_l2,
 			&temp_l3);
-		l1i[i].processor_start = l1d[i].processor_start = i;
-		l1i[i].processor_count = l1d[i].processor_count = 1;
 #if CPUINFO_ARCH_ARM
 		/* L1I reported in /proc/cpuinfo overrides defaults */
 		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_ARM_LINUX_VALID_ICACHE)) {
@@ -692,6 +690,8 @@ void cpuinfo_arm_linux_init(void) {
 				.line_size = arm_linux_processors[i].proc_cpuinfo_cache.d_line_length};
 		}
 #endif
+		l1i[i].processor_start = l1d[i].processor_start = i;
+		l1i[i].processor_count = l1d[i].processor_count = 1;
 
 		if (temp_l3.size != 0) {
 			/*
-- 
2.43.0


From 2b9a0a0f256a6ec1d9f53c839160b38e5a2db872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:59 +0000
Subject: [PATCH 08/20] fix: count the same ARM processors that the topology is
 built from

The number of logical processors excluded those not listed in
/proc/cpuinfo, while clusters, caches and microarchitectures were still
built from all present and possible processors. With offline cores the
processor ranges of clusters and caches reached beyond the list of
processors.
---
 src/arm/linux/init.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 365605a..96895bd 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -203,14 +203,8 @@ void cpuinfo_arm_linux_init(void) {
 	for (uint32_t i = 0; i < arm_linux_processors_count; i++) {
 		arm_linux_processors[i].system_processor_id = i;
 		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {
-			if (arm_linux_processors[i].flags & CPUINFO_ARM_LINUX_VALID_PROCESSOR) {
-				/*
-				 * Processor is in possible and present lists,
-				 * and also reported in /proc/cpuinfo. This
-				 * processor is availble for compute.
-				 */
-				valid_processors += 1;
-			} else {
+			valid_processors += 1;
+			if (!(arm_linux_processors[i].flags & CPUINFO_ARM_LINUX_VALID_PROCESSOR)) {
 				/*
 				 * Processor is in possible and present lists,
 				 * but not reported in /proc/cpuinfo. This is
-- 
2.43.0


From cc39587b75a6b691298b6c3c47154e805186a944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:24 +0000
Subject: [PATCH 09/20] fix: size of the level 3 cache of descriptor 0xD2

The descriptor stands for a 2 MB cache, but the size was written as
2 * 1024 * 2014, which is not associativity * sets * line size either.
---
 src/x86/cache/descriptor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/cache/descriptor.c b/src/x86/cache/descriptor.c
index 93d855a..06cd20e 100644
--- a/src/x86/cache/descriptor.c
+++ b/src/x86/cache/descriptor.c
@@ -1593,7 +1593,7 @@ void cpuinfo_x86_decode_cache_descriptor(
 			 * size"
 			 */
 			cache->l3 = (struct cpuinfo_x86_cache){
-				.size = 2 * 1024 * 2014,
+				.size = 2 * 1024 * 1024,
 				.associativity = 4,
 				.sets = 8192,
 				.partitions = 1,
-- 
2.43.0


From c7836f61377c3817ff78e7e4e5c1324e02321396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:24 +0000
Subject: [PATCH 10/20] fix: associativity of the level 2 cache of descriptor
 0x82

The descriptor stands for a 256 KB, 8-way cache with 32-byte lines, but it
was decoded as a 4-way cache with twice as many sets.
---
 src/x86/cache/descriptor.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x86/cache/descriptor.c b/src/x86/cache/descriptor.c
index 06cd20e..9caa7f4 100644
--- a/src/x86/cache/descriptor.c
+++ b/src/x86/cache/descriptor.c
@@ -1255,8 +1255,8 @@ void cpuinfo_x86_decode_cache_descriptor(
 			 */
 			cache->l2 = (struct cpuinfo_x86_cache){
 				.size = 256 * 1024,
-				.associativity = 4,
-				.sets = 2048,
+				.associativity = 8,
+				.sets = 1024,
 				.partitions = 1,
 				.line_size = 32,
 				.flags = CPUINFO_CACHE_INCLUSIVE,
-- 
2.43.0


From 5a70b91976516ee438424535087c184eba18e929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:33 +0000
Subject: [PATCH 11/20] fix: length of the core field of the x2APIC ID

Leaf 0xB reports, for each level, the shift to the ID of the next level,
which includes the bits of the lower levels. It was used as the length of
the core field, so on processors with SMT that field reached into the
package number and systems with several packages were reported as one.
---
 src/x86/topology.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/x86/topology.c b/src/x86/topology.c
index 5253089..f8d7133 100644
--- a/src/x86/topology.c
+++ b/src/x86/topology.c
@@ -132,7 +132,9 @@ void cpuinfo_x86_detect_topology(
 						level_shift,
 						total_shift);
 					topology->core_bits_offset = total_shift;
-					topology->core_bits_length = level_shift;
+					/* Shift includes the bits of the lower levels */
+					topology->core_bits_length =
+						level_shift > total_shift ? level_shift - total_shift : 0;
 					break;
 				default:
 					cpuinfo_log_warning(
@@ -145,7 +147,7 @@ void cpuinfo_x86_detect_topology(
 						level_shift);
 					break;
 			}
-			total_shift += level_shift;
+			total_shift = level_shift;
 			level += 1;
 		} while (type != 0);
 		cpuinfo_log_debug(
-- 
2.43.0


From c3238652e2f7d69a454e3b34ff7e61460a44818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:33 +0000
Subject: [PATCH 12/20] fix: no thread bits in the APIC ID when the core bits
 take all of them

Without leaf 0xB, the number of thread bits is the difference of what
leaf 1 and leaf 4 report. When leaf 4 reports more core IDs than leaf 1
reports logical processors, as under some hypervisors, the difference
wrapped around and was later used as a shift distance.
---
 src/x86/topology.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x86/topology.c b/src/x86/topology.c
index f8d7133..466ea20 100644
--- a/src/x86/topology.c
+++ b/src/x86/topology.c
@@ -79,7 +79,9 @@ void cpuinfo_x86_detect_topology(
 			if (logical_processors != 0) {
 				const uint32_t log2_max_logical_processors = bit_length(logical_processors);
 				const uint32_t log2_max_threads_per_core =
-					log2_max_logical_processors - topology->core_bits_length;
+					log2_max_logical_processors > topology->core_bits_length
+					? log2_max_logical_processors - topology->core_bits_length
+					: 0;
 				topology->core_bits_offset = log2_max_threads_per_core;
 				topology->thread_bits_length = log2_max_threads_per_core;
 			}
-- 
2.43.0


From 0ff3e3745b7634fd9f8d49544b17abbd7b3a5716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:50 +0000
Subject: [PATCH 13/20] fix: upper bound on the cache size of ARM processors

The bound was a constant of the microarchitecture, at most 8 MB. The caches
detected for ThunderX (16 MB), TaiShan and unknown ARMv8 server processors
are larger than it.
---
 src/arm/cache.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/arm/cache.c b/src/arm/cache.c
index 97740c4..349057a 100644
--- a/src/arm/cache.c
+++ b/src/arm/cache.c
@@ -1650,7 +1650,7 @@ void cpuinfo_arm_decode_cache(
 	}
 }
 
-uint32_t cpuinfo_arm_compute_max_cache_size(const struct cpuinfo_processor* processor) {
+static uint32_t compute_uarch_max_cache_size(const struct cpuinfo_processor* processor) {
 	/*
 	 * There is no precise way to detect cache size on ARM/ARM64, and cache
 	 * size reported by cpuinfo may underestimate the actual cache size.
@@ -1784,3 +1784,10 @@ uint32_t cpuinfo_arm_compute_max_cache_size(const struct cpuinfo_processor* proc
 			return 4 * 1024 * 1024;
 	}
 }
+
+uint32_t cpuinfo_arm_compute_max_cache_size(const struct cpuinfo_processor* processor) {
+	/* Server processors have larger caches than assumed for their uarch */
+	const uint32_t detected_cache_size = cpuinfo_compute_max_cache_size(processor);
+	const uint32_t uarch_max_cache_size = compute_uarch_max_cache_size(processor);
+	return detected_cache_size > uarch_max_cache_size ? detected_cache_size : uarch_max_cache_size;
+}
-- 
2.43.0


From df9840afcbcedfa592e486330ecef77928d910ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:29 +0000
Subject: [PATCH 14/20] fix: CPU list entry without range end read beyond the
 text

---
 src/linux/cpulist.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/linux/cpulist.c b/src/linux/cpulist.c
index f6c4c29..e6883ae 100644
--- a/src/linux/cpulist.c
+++ b/src/linux/cpulist.c
@@ -115,8 +115,7 @@ inline static bool parse_entry(
 	if (number_end == number_start) {
 		/* Failed to parse the second number; ignore the entry */
 		cpuinfo_log_warning(
-			"invalid character '%c' in the cpu list entry \"%.*s\": entry is ignored",
-			*number_start,
+			"missing end of the range in the cpu list entry \"%.*s\": entry is ignored",
 			(int)entry_length,
 			entry_start);
 		return false;
-- 
2.43.0


From 7545e958df3708b1df0ff65c6102401f8df01cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:34 +0000
Subject: [PATCH 15/20] fix: Hardware or Revision text of exactly the maximum
 length overflowed

The terminating zero was written one byte past the buffer when the value in
/proc/cpuinfo was exactly as long as the buffer. The users of the texts limit
their length with strnlen, so a text that fills the buffer needs no terminator.
---
 src/arm/linux/cpuinfo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index 081d9aa..0ab328b 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -879,7 +879,7 @@ static bool parse_line(
 						value_start,
 						CPUINFO_HARDWARE_VALUE_MAX);
 					value_length = CPUINFO_HARDWARE_VALUE_MAX;
-				} else {
+				} else if (value_length < CPUINFO_HARDWARE_VALUE_MAX) {
 					state->hardware[value_length] = '\0';
 				}
 				memcpy(state->hardware, value_start, value_length);
@@ -894,7 +894,7 @@ static bool parse_line(
 						value_start,
 						CPUINFO_REVISION_VALUE_MAX);
 					value_length = CPUINFO_REVISION_VALUE_MAX;
-				} else {
+				} else if (value_length < CPUINFO_REVISION_VALUE_MAX) {
 					state->revision[value_length] = '\0';
 				}
 				memcpy(state->revision, value_start, value_length);
-- 
2.43.0


From 5a968e1a72b4f12bf461378c9c73f6e8657020cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:34 +0000
Subject: [PATCH 16/20] fix: board revision text was left uninitialised without
 a Revision line

The Raspberry Pi chipset fixup reads the text even if /proc/cpuinfo has no
Revision line. Start with an empty text, as for Hardware.
---
 src/arm/linux/cpuinfo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index 0ab328b..f950544 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -1011,6 +1011,7 @@ bool cpuinfo_arm_linux_parse_proc_cpuinfo(
 	uint32_t max_processors_count,
 	struct cpuinfo_arm_linux_processor processors[restrict static max_processors_count]) {
 	hardware[0] = '\0';
+	revision[0] = '\0';
 	struct proc_cpuinfo_parser_state state = {
 		.hardware = hardware,
 		.revision = revision,
-- 
2.43.0


From 7d689427827feb58377efdb6119d73182948105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:34 +0000
Subject: [PATCH 17/20] fix: colon was accepted as a digit of the processor
 number

---
 src/arm/linux/cpuinfo.c | 2 +-
 src/x86/linux/cpuinfo.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index f950544..20846ff 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -26,7 +26,7 @@ static uint32_t parse_processor_number(const char* processor_start, const char*
 	uint32_t processor_number = 0;
 	for (const char* digit_ptr = processor_start; digit_ptr != processor_end; digit_ptr++) {
 		const uint32_t digit = (uint32_t)(*digit_ptr - '0');
-		if (digit > 10) {
+		if (digit >= 10) {
 			cpuinfo_log_warning(
 				"non-decimal suffix %.*s in /proc/cpuinfo processor number is ignored",
 				(int)(processor_end - digit_ptr),
diff --git a/src/x86/linux/cpuinfo.c b/src/x86/linux/cpuinfo.c
index 8f038b0..f5c42a2 100644
--- a/src/x86/linux/cpuinfo.c
+++ b/src/x86/linux/cpuinfo.c
@@ -25,7 +25,7 @@ static uint32_t parse_processor_number(const char* processor_start, const char*
 	uint32_t processor_number = 0;
 	for (const char* digit_ptr = processor_start; digit_ptr != processor_end; digit_ptr++) {
 		const uint32_t digit = (uint32_t)(*digit_ptr - '0');
-		if (digit > 10) {
+		if (digit >= 10) {
 			cpuinfo_log_warning(
 				"non-decimal suffix %.*s in /proc/cpuinfo processor number is ignored",
 				(int)(processor_end - digit_ptr),
-- 
2.43.0


From 7620e5c8457cf297ad4c4a6d2af493054f74ef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:21 +0000
Subject: [PATCH 18/20] fix: last character of a log message of 1023 characters
 was lost

The text was formatted into the stack buffer less one byte for the line end and
one for the terminator, although the line end replaces the terminator. A message
that fills the buffer exactly was cut by one character and not formatted again.
---
 src/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log.c b/src/log.c
index 2f85128..873ab51 100644
--- a/src/log.c
+++ b/src/log.c
@@ -67,7 +67,7 @@ static void cpuinfo_vlog(
 
 	const int format_chars = vsnprintf(
 		&stack_buffer[prefix_length],
-		CPUINFO_LOG_STACK_BUFFER_SIZE - (prefix_length + CPUINFO_LOG_NEWLINE_LENGTH) * sizeof(char),
+		CPUINFO_LOG_STACK_BUFFER_SIZE - prefix_length * sizeof(char),
 		format,
 		args);
 	if (format_chars < 0) {
-- 
2.43.0


From 4bc3682f3069a1d22f26f6c489ac8d8133ab8430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:21 +0000
Subject: [PATCH 19/20] fix: clog lost a character of messages that fill the
 stack buffer

The last character of the text was replaced by a zero if prefix, text and line
end together have 1024 characters. The same happened to the last character of a
prefix of exactly 1024 characters.
---
 deps/clog/src/clog.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/deps/clog/src/clog.c b/deps/clog/src/clog.c
index 27658f9..1b36f6b 100644
--- a/deps/clog/src/clog.c
+++ b/deps/clog/src/clog.c
@@ -79,7 +79,7 @@ void clog_vlog_fatal(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -94,7 +94,7 @@ void clog_vlog_fatal(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_FATAL_PREFIX_FORMAT, module);
 			} else {
@@ -157,7 +157,7 @@ void clog_vlog_error(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -172,7 +172,7 @@ void clog_vlog_error(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_ERROR_PREFIX_FORMAT, module);
 			} else {
@@ -235,7 +235,7 @@ void clog_vlog_warning(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -250,7 +250,7 @@ void clog_vlog_warning(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_WARNING_PREFIX_FORMAT, module);
 			} else {
@@ -313,7 +313,7 @@ void clog_vlog_info(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -328,7 +328,7 @@ void clog_vlog_info(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_INFO_PREFIX_FORMAT, module);
 			} else {
@@ -391,7 +391,7 @@ void clog_vlog_debug(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars,
 					format,
 					args);
 		}
@@ -406,7 +406,7 @@ void clog_vlog_debug(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_DEBUG_PREFIX_FORMAT, module);
 			} else {
-- 
2.43.0


From b6b6bdfd79983d6a970ad8899bc572d427a8d455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:53 +0000
Subject: [PATCH 20/20] fix: invalid cache numbers in /proc/cpuinfo were stored
 after all

A cache size, set count or associativity of zero and an impossible line size are
reported as ignored, but they were stored and marked as valid.
---
 src/arm/linux/cpuinfo.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index 20846ff..0b6dbe4 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -669,6 +669,7 @@ static void parse_cache_number(
 			number_name,
 			(int)(number_end - number_start),
 			number_start);
+		return;
 	}
 
 	/* If the number specifies a cache line size, verify that is a
@@ -686,6 +687,7 @@ static void parse_cache_number(
 					number_name,
 					(int)(number_end - number_start),
 					number_start);
+				return;
 		}
 	}
 
-- 
2.43.0

