def m(ck, want, *subs):
    M.append((ck, want, list(subs)))


X = "src/x86/linux/init.c"
A = "src/arm/linux/init.c"
R = "src/riscv/linux/init.c"
# leaks and wrong releases
m("I03", 1, (X, "	free(l3);\n", ""))
m("I03", 1, (X, "	free(x86_linux_processors);\n", ""))
m("I03", 1, (A, "	clusters = NULL;\n	cores", "	cores") if False else (X, "	clusters = NULL;\n", ""))
m("I03", 1, ("src/linux/multiline.c", "		close(file);\n", ""))
m("I03", 1, ("src/linux/smallfile.c", "		close(file);\n", ""))
m("I04", 1, (X, "	if (cores == NULL) {", "	if (processors == NULL && cores == NULL) {"))
m("I04", 0, (X, "	if (cores == NULL) {", "	if (!cores) {"))
m("I03", 0, (X, "	free(l4);\n", "	if (l4_is_set != 0 || l4 != NULL) { free(l4); }\n"), (X, "	struct cpuinfo_cache* l4 = NULL;\n", "	struct cpuinfo_cache* l4 = NULL;\n	int l4_is_set = 0;\n"))
m("I03", 0, (X, "cleanup:\n", "cleanup:\n	(void)0;\n"))

IN = "src/init.c"
m("I01", 1, (IN, "pthread_once(&init_guard, &cpuinfo_x86_linux_init);", "cpuinfo_x86_linux_init();"))
m("I01", 1, (IN, "static pthread_once_t init_guard", "static __thread pthread_once_t init_guard"))
m("I01", 1, (IN, "bool CPUINFO_ABI cpuinfo_initialize(void) {", "bool CPUINFO_ABI cpuinfo_initialize(void) {\n\tif (cpuinfo_is_initialized) return true;"))
m("I01", 0, (IN, "bool CPUINFO_ABI cpuinfo_initialize(void) {", "bool CPUINFO_ABI cpuinfo_initialize(void) {\n\tif (__atomic_load_n(&cpuinfo_is_initialized, __ATOMIC_ACQUIRE)) return true;"))
m("I01", 1, (IN, "return cpuinfo_is_initialized;", "return true;"))
m("I01", 1, (IN, "return cpuinfo_is_initialized;", "return !cpuinfo_is_initialized;"))
m("I01", 1, (IN, "void CPUINFO_ABI cpuinfo_deinitialize(void) {}", "void CPUINFO_ABI cpuinfo_deinitialize(void) { cpuinfo_is_initialized = false; }"))
m("I01", 1, (IN, "void CPUINFO_ABI cpuinfo_deinitialize(void) {}", "void CPUINFO_ABI cpuinfo_deinitialize(void) { init_guard = (pthread_once_t)PTHREAD_ONCE_INIT; }"))
m("I01", 1, (IN, "bool CPUINFO_ABI cpuinfo_initialize(void) {", "bool CPUINFO_ABI cpuinfo_initialize(void) {\n\tconst bool done = cpuinfo_is_initialized;"), (IN, "return cpuinfo_is_initialized;", "return done;"))
m("I01", 0, (IN, "bool CPUINFO_ABI cpuinfo_initialize(void) {", "static bool finished(void) { return cpuinfo_is_initialized; }\nbool CPUINFO_ABI cpuinfo_initialize(void) {"), (IN, "return cpuinfo_is_initialized;", "if (finished()) { return true; }\n\treturn false;"))
m("I01", 1, (IN, "	return cpuinfo_is_initialized;", "	if (!cpuinfo_is_initialized) { init_guard = (pthread_once_t)PTHREAD_ONCE_INIT; }\n	return cpuinfo_is_initialized;"))

# publication
m("I02", 1, (X, "	__sync_synchronize();\n\n	cpuinfo_is_initialized = true;", "	cpuinfo_is_initialized = true;"))
m("I02", 1, (A, "	cpuinfo_max_cache_size = cpuinfo_arm_compute_max_cache_size(&processors[0]);\n", ""), (A, "	__sync_synchronize();\n\n	cpuinfo_is_initialized = true;", "	__sync_synchronize();\n\n	cpuinfo_is_initialized = true;\n	cpuinfo_max_cache_size = cpuinfo_arm_compute_max_cache_size(&processors[0]);\n"))
m("I02", 1, (A, "	cpuinfo_linux_cpu_to_core_map = linux_cpu_to_core_map;\n", ""))
m("I02", 1, (X, "	cpuinfo_cache_count[cpuinfo_cache_level_4] = l4_count;\n", ""))
m("I02", 1, (X, "	cpuinfo_cache_count[cpuinfo_cache_level_4] = l4_count;\n", "	if (l4_count > 1) cpuinfo_cache_count[cpuinfo_cache_level_4] = l4_count;\n"))
m("I02", 1, (X, "		.core_count = cores_count,\n	};", "		.core_count = cores_count,\n	};\n	cpuinfo_is_initialized = true;"), (X, "	__sync_synchronize();\n\n	cpuinfo_is_initialized = true;", "	__sync_synchronize();"))
m("I02", 0, (X, "	__sync_synchronize();\n\n	cpuinfo_is_initialized = true;", "	__atomic_store_n(&cpuinfo_is_initialized, true, __ATOMIC_RELEASE);"))
m("I02", 0, (X, "	cpuinfo_processors = processors;\n	cpuinfo_cores = cores;\n", "	cpuinfo_cores = cores;\n	cpuinfo_processors = processors;\n"))
m("I02", 1, (X, "	__sync_synchronize();\n\n	cpuinfo_is_initialized = true;", "	__sync_synchronize();\n\n	cpuinfo_is_initialized = true;\n	cpuinfo_processors[0].smt_id = 0;\n"))
m("I02", 1, (R, "	cpuinfo_uarchs_count = valid_uarchs_count;\n", ""))
m("I02", 0, ("src/cpuinfo/internal-api.h", "extern CPUINFO_INTERNAL bool cpuinfo_is_initialized;", "extern CPUINFO_INTERNAL bool cpuinfo_is_initialized;\nstatic inline void publish_done(void) { __sync_synchronize(); cpuinfo_is_initialized = true; }"), (X, "	__sync_synchronize();\n\n	cpuinfo_is_initialized = true;", "	publish_done();"))
m("I02", 1, (X, '''				l3_count);
			goto cleanup;''', '''				l3_count);'''))

HELP = """static bool alloc_caches(uint32_t n, struct cpuinfo_cache** out, const char* what) {
	if (n == 0) {
		return true;
	}
	*out = calloc(n, sizeof(struct cpuinfo_cache));
	if (*out == NULL) {
		cpuinfo_log_error("failed to allocate %s caches", what);
		return false;
	}
	return true;
}

void cpuinfo_x86_linux_init(void) {"""
L3OLD = """	if (l3_count != 0) {
		l3 = calloc(l3_count, sizeof(struct cpuinfo_cache));
		if (l3 == NULL) {
			cpuinfo_log_error(
				"failed to allocate %zu bytes for descriptions of %" PRIu32 " L3 caches",
				l3_count * sizeof(struct cpuinfo_cache),
				l3_count);
			goto cleanup;
		}
	}"""
L4OLD = L3OLD.replace("l3", "l4").replace("L3", "L4")
for c in ("I02", "I03", "I04", "I05"):
    m(c, 0, (X, "void cpuinfo_x86_linux_init(void) {", HELP), (X, L3OLD, "	if (!alloc_caches(l3_count, &l3, \"L3\") || !alloc_caches(l4_count, &l4, \"L4\")) { goto cleanup; }"), (X, L4OLD, ""))
m("I05", 1, (X, "void cpuinfo_x86_linux_init(void) {", HELP), (X, L3OLD, "	if (!alloc_caches(l3_count, &l3, \"L3\") || !alloc_caches(l3_count, &l4, \"L4\")) { goto cleanup; }"), (X, L4OLD, ""))
m("I05", 1, (X, "l3 = calloc(l3_count,", "l3 = calloc(l4_count,"))
m("I05", 1, (X, "	if (l4_count != 0) {", "	if (l3_count != 0) {"))
m("I05", 1, (X, "	if (l4_count != 0) {", "	if (l4_count > 1) {"))
m("I05", 0, (X, "	if (l4_count != 0) {", "	if (l4_count >= 1) {"))
m("I05", 1, (X, "	cpuinfo_cores_count = cores_count;", "	cpuinfo_cores_count = processors_count;"))
m("I05", 1, (X, "clusters = calloc(clusters_count, sizeof(struct cpuinfo_cluster));", "clusters = calloc(clusters_count, sizeof(struct cpuinfo_core));"))
m("I05", 1, (A, "	cpuinfo_packages_count = 1;", "	cpuinfo_packages_count = cluster_count;"))
m("I05", 1, (A, "	cpuinfo_linux_cpu_max = arm_linux_processors_count;", "	cpuinfo_linux_cpu_max = arm_linux_processors_count + 1;"))
m("I05", 1, (A, "calloc(arm_linux_processors_count, sizeof(uint32_t))", "calloc(valid_processors, sizeof(uint32_t))"))
m("I05", 1, (A, "	cpuinfo_uarchs_count = uarchs_count;", "	cpuinfo_uarchs_count = cluster_count;"))
m("I05", 0, (A, "clusters = calloc(cluster_count, sizeof(struct cpuinfo_cluster));", "clusters = calloc(cluster_count + 1, sizeof(struct cpuinfo_cluster));"))
m("I05", 1, (R, "	cpuinfo_uarchs_count = valid_uarchs_count;", "	cpuinfo_uarchs_count = valid_cores_count;"))

VEN = "src/x86/vendor.c"
UA = "src/x86/uarch.c"
XI = "src/x86/init.c"
m("D01", 1, (VEN, "edx == aurH && ecx == auls", "edx == aurH || ecx == auls"))
m("D01", 1, (VEN, "if (edx == nGen && ecx == uine) {", "if (edx == nGen) {"))
m("D01", 1, (VEN, "#define tead UINT32_C(0x64616574)", "#define tead UINT32_C(0x64616554)"))
m("D01", 1, (XI, "cpuinfo_x86_decode_vendor(leaf0.ebx, leaf0.ecx, leaf0.edx);", "cpuinfo_x86_decode_vendor(leaf0.ebx, leaf0.edx, leaf0.ecx);"))
VT = """static const struct { char name[13]; enum cpuinfo_vendor vendor; } vendor_names[] = {
	{"GenuineIntel", cpuinfo_vendor_intel}, {"AuthenticAMD", cpuinfo_vendor_amd}, {"CentaurHauls", cpuinfo_vendor_via},
	{"HygonGenuine", cpuinfo_vendor_hygon},
#if CPUINFO_ARCH_X86
	{"GenuineTMx86", cpuinfo_vendor_transmeta}, {"Genuine  RDC", cpuinfo_vendor_rdc}, {"AMDisbetter!", cpuinfo_vendor_amd},
	{"AMD ISBETTER", cpuinfo_vendor_amd}, {"VIA VIA VIA ", cpuinfo_vendor_via}, {"TransmetaCPU", cpuinfo_vendor_transmeta},
	{"CyrixInstead", cpuinfo_vendor_cyrix}, {"RiseRiseRise", cpuinfo_vendor_rise}, {"Geode by NSC", cpuinfo_vendor_nsc},
	{"SiS SiS SiS ", cpuinfo_vendor_sis}, {"NexGenDriven", cpuinfo_vendor_nexgen}, {"UMC UMC UMC ", cpuinfo_vendor_umc},
	{"Vortex86 SoC", cpuinfo_vendor_dmp},
#endif
};
#include <string.h>
enum cpuinfo_vendor cpuinfo_x86_decode_vendor(uint32_t ebx, uint32_t ecx, uint32_t edx) {
	const uint32_t words[3] = {ebx, edx, ecx};
	for (size_t i = 0; i < sizeof(vendor_names) / sizeof(vendor_names[0]); i++) {
		if (memcmp(vendor_names[i].name, words, 12) == 0) { return vendor_names[i].vendor; }
	}
	return cpuinfo_vendor_unknown;
}
static enum cpuinfo_vendor __attribute__((unused)) old(uint32_t ebx, uint32_t ecx, uint32_t edx) {"""
VO = "enum cpuinfo_vendor cpuinfo_x86_decode_vendor(uint32_t ebx, uint32_t ecx, uint32_t edx) {"
m("D01", 0, (VEN, VO, VT))
m("D02", 0, (VEN, VO, VT))
m("D01", 1, (VEN, VO, VT.replace("words, 12", "words, 11")))
m("D02", 1, ("src/x86/info.c", "(model_info.extended_model << 4)", "(model_info.extended_model << 3)"))
m("D02", 1, ("src/x86/info.c", "(eax >> 20) & 0xFF", "(eax >> 20) & 0xF"))
m("D02", 1, ("src/x86/info.c", "(eax >> 20) & 0xFF", "(eax >> 20) & 0x7F"))
m("D02", 1, (XI, "processor->cpuid = leaf1.eax;", "processor->cpuid = leaf1.eax & 0x0FFFFFFF;"))
m("D02", 1, (UA, "case 0x18:", "case 0x19:"))
m("D02", 0, ("src/x86/info.c", "model_info.base_family + model_info.extended_family", "model_info.base_family == 0xF ? 0xF + model_info.extended_family : model_info.base_family"))

AU = "src/arm/uarch.c"
m("D03", 1, (AU, "case 0xD4D: /* Cortex-A715 */", "case 0xD4C: /* Cortex-A715 */"))
m("D03", 1, (AU, "*uarch = (midr & CPUINFO_ARM_MIDR_VARIANT_MASK) == 0", "*uarch = (midr & CPUINFO_ARM_MIDR_REVISION_MASK) == 0"))
m("D03", 1, (AU, "*vendor = cpuinfo_vendor_cavium;\n					*uarch = cpuinfo_uarch_thunderx2;", "*uarch = cpuinfo_uarch_thunderx2;"))
m("D03", 1, (AU, "if (has_vfpv4) {", "if (!has_vfpv4) {"))
m("D03", 1, (AU, "switch (midr & (CPUINFO_ARM_MIDR_VARIANT_MASK | CPUINFO_ARM_MIDR_PART_MASK)) {", "switch (midr & (CPUINFO_ARM_MIDR_VARIANT_MASK | CPUINFO_ARM_MIDR_PART_MASK | CPUINFO_ARM_MIDR_REVISION_MASK)) {"))
m("D03", 1, ("src/arm/midr.h", "#define CPUINFO_ARM_MIDR_PART_MASK UINT32_C(0x0000FFF0)", "#define CPUINFO_ARM_MIDR_PART_MASK UINT32_C(0x0000FFE0)"))
m("D03", 1, (A, "					&arm_linux_processors[cluster_leader].vendor,\n					&arm_linux_processors[cluster_leader].uarch);", "					(enum cpuinfo_vendor*)&arm_linux_processors[cluster_leader].uarch,\n					(enum cpuinfo_uarch*)&arm_linux_processors[cluster_leader].vendor);"))
m("D03", 0, (AU, "	switch (midr_get_implementer(midr)) {\n		case 'A':", "	const uint32_t who = midr >> 24;\n	switch (who) {\n		case 'A':"))
m("D03", 0, (A, "const uint32_t cluster_leader = arm_linux_processors[i].package_leader_id;", "struct cpuinfo_arm_linux_processor* const me = &arm_linux_processors[i]; const uint32_t cluster_leader = me->package_leader_id;"), (A, "					&arm_linux_processors[cluster_leader].vendor,\n					&arm_linux_processors[cluster_leader].uarch);", "					&me->vendor,\n					&me->uarch);"))

m("T01", 1, (X, "				cores[core_index].processor_count++;", "				;"))
m("T01", 1, (X, "				cores[core_index].processor_count++;", "				cores[processor_index].processor_count++;"))
m("T01", 1, (X, "				clusters[cluster_index].processor_start = processor_index;", "				clusters[cluster_index].processor_start = core_index;"))
m("T01", 1, (X, "				packages[package_index].processor_start = processor_index;", ""))
m("T01", 1, (X, "			processors[processor_index].cluster = clusters + cluster_index;", "			processors[processor_index].cluster = clusters + package_index;"))
m("T01", 1, (X, "				processors[i].cache.l3 = &l3[l3_index];\n			} else {", "			} else {"))
m("T01", 1, (X, "				processors[i].cache.l3 = &l3[l3_index];\n			} else {", "				processors[i].cache.l3 = l2 + l2_index;\n			} else {"))
m("T01", 1, (X, "					l2[l2_index].processor_count += 1;", "					l2[l2_index].processor_count = 2;"))
m("T01", 1, (X, "				package_index++;\n", "				package_index++;\n				cluster_index++;\n"))
m("T01", 0, (X, "			processor_index++;\n", "			processor_index = i;\n"))
m("T01", 0, (X, "				clusters[cluster_index].processor_start = processor_index;\n				clusters[cluster_index].processor_count = 1;", "				struct cpuinfo_cluster* cl = &clusters[cluster_index]; cl->processor_count = 1; cl->processor_start = processor_index;"))
m("T01", 0, (X, "					l2[l2_index].processor_count += 1;\n				}\n				processors[i].cache.l2 = &l2[l2_index];", "					l2[l2_index].processor_count = l2[l2_index].processor_count + 1;\n				}\n				processors[processor_index].cache.l2 = &l2[l2_index];"))
m("T01", 0, (X, "	uint32_t processor_index = UINT32_MAX, core_index", "	uint32_t processor_index = 0, core_index"), (X, "			processor_index++;\n", ""), (X, "				/* reset cache id */\n				last_l4_id = UINT32_MAX;\n			}\n", "				/* reset cache id */\n				last_l4_id = UINT32_MAX;\n			}\n			processor_index++;\n"))
m("T01", 1, (A, "				.processor_start = i,\n				.processor_count = arm_linux_processors[i].package_processor_count,", "				.processor_start = cluster_id,\n				.processor_count = arm_linux_processors[i].package_processor_count,"))
m("T01", 1, (A, "		processors[i].cluster = clusters + cluster_id;", "		processors[i].cluster = clusters;"))
m("T01", 1, (A, "		processors[i].cache.l1d = l1d + i;", "		processors[i].cache.l1d = l1i + i;"))
m("T01", 1, (A, "							? valid_processors\n							: arm_linux_processors[i].package_processor_count,", "							? arm_linux_processors[i].package_processor_count\n							: valid_processors,"))
m("T01", 1, (A, "		cores[i].processor_count = 1;", "		cores[i].processor_count = arm_linux_processors[i].package_processor_count;"))
m("T01", 1, (A, "	package.processor_count = valid_processors;", "	package.processor_count = arm_linux_processors_count;"))
m("T01", 1, (A, "	package.cluster_count = cluster_count;", "	package.cluster_count = valid_processors;"))
m("T01", 0, (A, "			cluster_id += 1;\n			clusters[cluster_id] = (struct", "			struct cpuinfo_cluster* cl = clusters + ++cluster_id;\n			*cl = (struct"))

m("T02", 1, (X, "				smt_id = 0;\n", ""))
m("T02", 1, (X, "				core_id = 0;\n", ""))
m("T02", 1, (X, "				core_id++;\n", ""))
m("T02", 1, (X, "				cluster_id = 0;\n", "				cluster_id = package_index;\n"))
m("T02", 1, (X, "				clusters[cluster_index].core_count += 1;\n", ""))
m("T02", 1, (X, "				packages[package_index].core_count += 1;\n				last", "				last"), (X, "				packages[package_index].processor_count++;\n", "				packages[package_index].processor_count++;\n				packages[package_index].core_count += 1;\n"))
m("T02", 1, (X, "				clusters[cluster_index].core_start = core_index;", "				clusters[cluster_index].core_start = processor_index;"))
m("T02", 1, (X, "				packages[package_index].cluster_start = cluster_index;", "				packages[package_index].cluster_start = core_index;"))
m("T02", 1, (X, "					.cluster = clusters + cluster_index,\n", "					.cluster = clusters + package_index,\n"))
m("T02", 1, (X, "				clusters[cluster_index].package = packages + package_index;", "				clusters[cluster_index].package = packages + cluster_index;"))
m("T02", 1, (X, "				packages[package_index].cluster_count += 1;\n", "				packages[cluster_index].cluster_count += 1;\n"))
m("T02", 0, (X, "				clusters[cluster_index].core_count += 1;\n				packages[package_index].core_count += 1;\n", "				cores[core_index].cluster = processors[processor_index].cluster;\n				struct cpuinfo_package* pk = packages + package_index; pk->core_count++;\n				clusters[cluster_index].core_count = clusters[cluster_index].core_count + 1;\n"))
m("T02", 1, (A, "				.core_start = i,", "				.core_start = cluster_id,"))
m("T02", 1, (A, "		cores[i].cluster = clusters + cluster_id;", "		cores[i].cluster = clusters + i;"))
m("T02", 1, (A, "				.cluster_id = cluster_id,", "				.cluster_id = i,"))
m("T02", 1, (A, "		processors[i].smt_id = 0;", "		processors[i].smt_id = i;"))
m("T02", 1, (A, "		cores[i].package = &package;\n", ""))
m("T02", 0, (A, "		cores[i].cluster = clusters + cluster_id;", "		cores[i].cluster = processors[i].cluster;"))

m("T03", 1, (X, "						.sets = x86_processor.cache.l2.sets,", "						.sets = x86_processor.cache.l3.sets,"))
m("T03", 1, (X, "						.line_size = x86_processor.cache.l1i.line_size,", "						.line_size = x86_processor.cache.l1d.line_size,"))
m("T03", 1, (X, "						.flags = x86_processor.cache.l3.flags,\n", ""))
m("T03", 1, (X, "				clusters[cluster_index].cpuid = x86_processor.cpuid;\n", ""))
m("T03", 1, (X, "					.uarch = x86_processor.uarch,\n", ""))
m("T03", 1, (X, "linux_cpu_to_core_map[x86_linux_processors[i].linux_id] = cores + core_index;", "linux_cpu_to_core_map[x86_linux_processors[i].linux_id] = cores + processor_index;"))
m("T03", 1, (X, "linux_cpu_to_core_map[x86_linux_processors[i].linux_id] = cores + core_index;", "linux_cpu_to_core_map[i] = cores + core_index;"))
m("T03", 1, (X, "linux_cpu_to_processor_map[x86_linux_processors[i].linux_id] =", "linux_cpu_to_processor_map[x86_linux_processors[i].apic_id] ="))
m("T03", 1, (X, "		.core_count = cores_count,", "		.core_count = processors_count,"))
m("T03", 0, (X, "linux_cpu_to_core_map[x86_linux_processors[i].linux_id] = cores + core_index;", "linux_cpu_to_core_map[processors[processor_index].linux_id] = processors[processor_index].core;"))
m("T03", 0, (X, "				clusters[cluster_index].cpuid = x86_processor.cpuid;\n", "				clusters[cluster_index].cpuid = cores[core_index].cpuid;\n"))
m("T03", 1, (A, "		cores[i].midr = arm_linux_processors[i].midr;\n", "		cores[i].midr = last_midr;\n"))
m("T03", 1, (A, "				.uarch = arm_linux_processors[i].uarch,\n				.midr = arm_linux_processors[i].midr,\n			};", "				.uarch = arm_linux_processors[0].uarch,\n				.midr = arm_linux_processors[i].midr,\n			};"))
m("T03", 1, (A, "linux_cpu_to_core_map[arm_linux_processors[i].system_processor_id] = &cores[i];", "linux_cpu_to_core_map[i] = &cores[i];"))
m("T03", 1, (A, "				arm_linux_processors[i].uarch_index;\n", "				cluster_id;\n"))
m("T03", 1, (A, "				.sets = temp_l2.sets,\n				.partitions = 1,", "				.sets = temp_l3.sets,\n				.partitions = 1,"))
m("T03", 1, (A, "			uarchs[uarchs_index - 1].core_count += 1;\n", ""))
m("T03", 1, (A, "				.size = arm_linux_processors[i].proc_cpuinfo_cache.d_size,", "				.size = arm_linux_processors[i].proc_cpuinfo_cache.i_size,"))
m("T03", 1, (A, "			arm_linux_processors[i].midr,\n			&chipset,\n			cluster_id,\n			arm_linux_processors[i].architecture_version,\n			&l1i[i],\n			&l1d[i],", "			arm_linux_processors[0].midr,\n			&chipset,\n			cluster_id,\n			arm_linux_processors[i].architecture_version,\n			&l1i[i],\n			&l1d[i],"))
m("T03", 1, (A, "			&l1i[i],\n			&l1d[i],", "			&l1d[i],\n			&l1i[i],"))

MH = "src/arm/midr.h"
m("T04", 1, (X, "return (int)usable_b - (int)usable_a;", "return (int)usable_a - (int)usable_b;"))
m("T04", 1, (X, "	const uint32_t id_b = processor_b->apic_id;\n	return cmp(id_a, id_b);", "	const uint32_t id_b = processor_b->apic_id;\n	return (int)(id_a - id_b);"))
m("T04", 1, (X, "	const uint32_t id_a = processor_a->apic_id;\n	const uint32_t id_b = processor_b->apic_id;", "	const uint32_t id_a = processor_a->linux_id;\n	const uint32_t id_b = processor_b->linux_id;"))
m("T04", 0, (X, "	return cmp(id_a, id_b);", "	if (id_a == id_b) { return 0; }\n	return id_a < id_b ? -1 : 1;"))
m("T04", 1, (A, "		return frequency_a > frequency_b ? -1 : 1;", "		return frequency_a > frequency_b ? 1 : -1;"))
m("T04", 1, (A, "		return cluster_a > cluster_b ? -1 : 1;", "		return -1;"))
m("T04", 1, (A, "	if (cluster_a != cluster_b) {", "	if (midr_a == midr_b && cluster_a != cluster_b) {"))
m("T04", 1, (A, "	if (cluster_a != cluster_b) {\n		return cluster_a > cluster_b ? -1 : 1;\n	}", ""))
m("T04", 0, (A, "		return cluster_a > cluster_b ? -1 : 1;", "		return cluster_a < cluster_b ? -1 : 1;"))
m("T04", 1, (A, "	return cmp(id_a, id_b);", "	return cmp(id_b, id_a);"))
m("T04", 0, (A, "	if (midr_a != midr_b) {\n", "	{\n"))
m("T04", 1, (MH, "case UINT32_C(0x4100D0A0): /* Cortex-A75 */\n		case UINT32_C(0x4100D0B0): /* Cortex-A76 */", "case UINT32_C(0x4100D0B0): /* Cortex-A76 */"))

CM = "	const uint32_t core_apic_mask =\n		~(bit_mask(processor->topology.thread_bits_length) << processor->topology.thread_bits_offset);"
m("T05", 1, (X, CM, CM.replace("thread_bits_offset", "core_bits_offset")))
m("T05", 1, (X, CM, CM.replace("thread_bits_length", "core_bits_length")))
m("T05", 1, (X, "	const uint32_t cluster_apic_mask = package_apic_mask | llc_apic_mask;\n\n	uint32_t cores_count", "	const uint32_t cluster_apic_mask = llc_apic_mask;\n\n	uint32_t cores_count"))
m("T05", 1, (X, "				last_core_id = core_id;\n", ""))
m("T05", 1, (X, "			if (core_id != last_core_id) {", "			if (core_id >= last_core_id) {"))
m("T05", 1, (X, "~bit_mask(processor->cache.l2.apic_bits);", "~bit_mask(processor->cache.l3.apic_bits);"))
m("T05", 1, (X, "			if (processor->cache.l3.size != 0) {", "			if (processor->cache.l2.size != 0) {"))
m("T05", 1, (X, "			if (processor->cache.l4.size != 0) {\n				const", "			{\n				const"))
m("T05", 1, (X, "		valid_processor_mask,\n		llc_apic_bits,", "		CPUINFO_LINUX_FLAG_PRESENT,\n		llc_apic_bits,"))
m("T05", 1, (X, "				if (l2_id != last_l2_id) {\n					/* new cache */\n					last_l2_id = l2_id;", "				if (l2_id != last_l2_id) {\n					/* new cache */\n					last_l3_id = l2_id;"))
m("T05", 0, (X, "			if (core_id != last_core_id) {\n				last_core_id = core_id;\n				cores_count++;\n			}", "			cores_count += (core_id ^ last_core_id) != 0;\n			last_core_id = core_id;"))
m("T05", 0, (X, "		valid_processor_mask,\n		llc_apic_bits,", "		CPUINFO_LINUX_FLAG_VALID,\n		llc_apic_bits,"))
m("T05", 0, (X, CM, "	const uint32_t thread_mask = bit_mask(processor->topology.thread_bits_length);\n	const uint32_t core_apic_mask = UINT32_MAX ^ (thread_mask << processor->topology.thread_bits_offset);"))
m("T05", 0, (X, "const uint32_t l1i_id = apic_id & ~bit_mask(processor->cache.l1i.apic_bits);", "const uint32_t l1i_id = (apic_id >> processor->cache.l1i.apic_bits) << processor->cache.l1i.apic_bits;"))
m("T05", 0, (X, "const uint32_t l1i_id = apic_id & ~bit_mask(processor->cache.l1i.apic_bits);", "const uint32_t l1i_id = apic_id >> processor->cache.l1i.apic_bits;"))
m("T05", 1, (A, "			if (uarchs_index == 0 || arm_linux_processors[i].uarch != last_uarch) {", "			if (uarchs_index == 0 || arm_linux_processors[i].midr != last_uarch) {"))
m("T05", 1, (A, "			if (uarchs_count == 0 || arm_linux_processors[i].uarch != last_uarch) {\n				last_uarch = arm_linux_processors[i].uarch;\n				uarchs_count += 1;\n			}", "			if (uarchs_count == 0 || arm_linux_processors[i].uarch != last_uarch) {\n				uarchs_count += 1;\n			}\n				last_uarch = arm_linux_processors[0].uarch;\n"))
m("T05", 1, (A, "			arm_linux_processors[i].uarch_index = uarchs_count - 1;", "			arm_linux_processors[i].uarch_index = uarchs_count;"))
m("T05", 1, (A, "	for (uint32_t i = 0; i < arm_linux_processors_count; i++) {\n		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {\n			if (uarchs_index == 0", "	for (uint32_t i = 0; i < arm_linux_processors_count; i++) {\n		{\n			if (uarchs_index == 0"))
m("T05", 0, (A, "			if (uarchs_count == 0 || arm_linux_processors[i].uarch != last_uarch) {\n				last_uarch = arm_linux_processors[i].uarch;\n				uarchs_count += 1;\n			}", "			const bool same = uarchs_count != 0 && arm_linux_processors[i].uarch == last_uarch;\n			last_uarch = arm_linux_processors[i].uarch;\n			if (!same) {\n				uarchs_count++;\n			}"))
m("T06", 1, (X, "		llc_apic_bits = x86_processor.cache.l3.apic_bits;", "		llc_apic_bits = x86_processor.cache.l2.apic_bits;"))
m("T06", 1, (X, "	if (x86_processor.cache.l4.size != 0) {\n		llc_apic_bits", "	if (x86_processor.cache.l4.size != 0 && x86_processor.cache.l3.size == 0) {\n		llc_apic_bits"))
m("T06", 1, (X, "	const uint32_t core_apic_mask =\n		~(bit_mask(x86_processor.topology.thread_bits_length) << x86_processor.topology.thread_bits_offset);", "	const uint32_t core_apic_mask = ~bit_mask(x86_processor.topology.thread_bits_length);"))
m("T06", 1, (X, "	const uint32_t cluster_apic_mask = package_apic_mask | llc_apic_mask;\n\n	uint32_t processor_index", "	const uint32_t cluster_apic_mask = package_apic_mask & llc_apic_mask;\n\n	uint32_t processor_index"))
m("T06", 0, (X, "	if (x86_processor.cache.l4.size != 0) {\n		llc_apic_bits = x86_processor.cache.l4.apic_bits;\n	} else if", "	llc_apic_bits = x86_processor.cache.l4.apic_bits;\n	if (x86_processor.cache.l4.size != 0) {\n	} else if"))
DS, DT, CI = "src/x86/cache/descriptor.c", "src/x86/cache/deterministic.c", "src/x86/cache/init.c"
m("C01", 1, (DS, ".size = 24 * 1024,", ".size = 32 * 1024,"))
m("C01", 1, (DS, "case 0x4A:", "case 0x88:"))
m("C01", 1, (DS, "(model_info->family == 0x0F)) {", "(model_info->family >= 0x0F)) {"))
m("C01", 1, (CI, "i = 1 /* note: not 0 */; i < 16", "i = 1 /* note: not 0 */; i < 15"))
m("C01", 1, (CI, "i = 1 /* note: not 0 */; i < 16", "i = 2 /* note: not 0 */; i < 16"))
m("C01", 1, (CI, "max_base_index >= 2", "max_base_index >= 3"))
m("C01", 1, (CI, "if (descriptor != 0) {", "if (descriptor != 0 && descriptor < 0xF0) {"))
m("C01", 0, (CI, "if (descriptor != 0) {", "{"))
m("C01", 0, (CI, "			for (uint32_t i = 1 /* note: not 0 */; i < 16; i++) {\n				const uint8_t descriptor = descriptors.as_bytes[i];", "			for (uint32_t i = 15; i > 0; i--) {\n				const uint8_t descriptor = descriptors.as_bytes[i];"))
m("C01", 0, (DS, "void cpuinfo_x86_decode_cache_descriptor(\n	uint8_t descriptor,", "static struct cpuinfo_x86_cache mk(uint32_t size, uint32_t ways, uint32_t line) {\n	struct cpuinfo_x86_cache c = {0};\n	c.size = size; c.associativity = ways; c.line_size = line; c.partitions = 1; c.sets = size / (ways * line);\n	return c;\n}\nvoid cpuinfo_x86_decode_cache_descriptor(\n	uint8_t descriptor,"),
  (DS, "			cache->l1i = (struct cpuinfo_x86_cache){\n				.size = 8 * 1024,\n				.associativity = 4,\n				.sets = 64,\n				.partitions = 1,\n				.line_size = 32,\n			};", "			cache->l1i = mk(8 * 1024, 4, 32);"))
m("C02", 1, (DT, "1 + (regs.ebx & UINT32_C(0x00000FFF));", "1 + (regs.ebx & UINT32_C(0x000000FF));"))
m("C02", 1, (DT, "1 + ((regs.eax >> 14) & UINT32_C(0x00000FFF));", "1 + ((regs.eax >> 14) & UINT32_C(0x000003FF));"))
m("C02", 1, (DT, ".size = associativity * partitions * line_size * sets,", ".size = associativity * line_size * sets,"))
m("C02", 1, (DT, "					flags |= CPUINFO_CACHE_UNIFIED;\n				case cache_type_data:\n					cache->l3", "				case cache_type_data:\n					cache->l3"))
m("C02", 1, (DT, "regs.edx & UINT32_C(0x00000004)", "regs.edx & UINT32_C(0x00000008)"))
m("C02", 1, (CI, "vendor != cpuinfo_vendor_amd && vendor != cpuinfo_vendor_hygon && max_base_index >= 4", "vendor != cpuinfo_vendor_amd && max_base_index >= 4"))
m("C02", 1, (CI, "cpuidex(UINT32_C(0x8000001D), input_ecx++)", "cpuidex(UINT32_C(0x8000001D), ++input_ecx)"))
m("C02", 1, (CI, "max_extended_index >= UINT32_C(0x8000001D)", "max_extended_index > UINT32_C(0x8000001D)"))
m("C02", 1, (DT, "if (type == cache_type_none) {", "if (type == cache_type_none || type > 3) {"))
m("C02", 1, ("src/cpuinfo/utils.h", "return 32 - __builtin_clz(n_minus_1);", "return 32 - __builtin_clz(n);"))
m("C02", 0, ("src/cpuinfo/utils.h", "return 32 - __builtin_clz(n_minus_1);", "return 1 + (31 ^ __builtin_clz(n_minus_1));"))
m("C02", 0, (DT, ".size = associativity * partitions * line_size * sets,", ".size = sets * line_size * (partitions * associativity),"))
m("C02", 0, (CI, "			do {\n				leaf4 = cpuidex(4, input_ecx++);\n			} while (cpuinfo_x86_decode_deterministic_cache_parameters(leaf4, cache, &package_cores_max));", "			for (;; input_ecx++) {\n				leaf4 = cpuidex(4, input_ecx);\n				if (!cpuinfo_x86_decode_deterministic_cache_parameters(leaf4, cache, &package_cores_max)) {\n					break;\n				}\n			}"))
m("C02", 0, (DT, "				case cache_type_unified:\n					cache->l1d = cache->l1i = (struct cpuinfo_x86_cache){\n						.size = associativity * partitions * line_size * sets,\n						.associativity = associativity,\n						.sets = sets,\n						.partitions = partitions,\n						.line_size = line_size,\n						.flags = flags | CPUINFO_CACHE_UNIFIED,\n						.apic_bits = apic_bits};\n					break;\n				case cache_type_data:", "				case cache_type_unified:\n					cache->l1i = (struct cpuinfo_x86_cache){\n						.size = associativity * partitions * line_size * sets,\n						.associativity = associativity,\n						.sets = sets,\n						.partitions = partitions,\n						.line_size = line_size,\n						.flags = flags | CPUINFO_CACHE_UNIFIED,\n						.apic_bits = apic_bits};\n					cache->l1d = cache->l1i;\n					break;\n				case cache_type_data:"))
TP = "src/x86/topology.c"
m("T07", 1, (TP, "apic_id = leaf1.ebx >> 24;", "apic_id = leaf1.ebx >> 25;"))
m("T07", 1, (TP, "leafB.eax & UINT32_C(0x0000001F)", "leafB.eax & UINT32_C(0x0000000F)"))
m("T07", 1, (TP, "leaf1.ecx & UINT32_C(0x00200000)", "leaf1.ecx & UINT32_C(0x00400000)"))
m("T07", 1, (TP, "max_base_index >= UINT32_C(0xB)", "max_base_index > UINT32_C(0xB)"))
m("T07", 1, (TP, "total_shift = level_shift;", "total_shift += level_shift;"), (TP, "topology->core_bits_offset = total_shift;", "topology->core_bits_offset = total_shift + level;"))
m("T07", 1, (TP, "		topology->core_bits_offset = topology->core_bits_length = 0;\n", ""))
m("T07", 1, (TP, "1 + (leaf0x80000008.ecx & UINT32_C(0x000000FF))", "(leaf0x80000008.ecx & UINT32_C(0x000000FF))"))
m("T07", 1, (TP, "leaf0x80000001.ecx & UINT32_C(0x00000002)", "leaf0x80000001.ecx & UINT32_C(0x00000004)"))
m("T07", 1, (TP, "				topology->core_bits_offset = log2_max_threads_per_core;\n", ""))
m("T07", 0, (TP, "			apic_id = x2apic_id;\n			switch (type) {", "			if (type != topology_type_invalid) {\n				apic_id = x2apic_id;\n			}\n			switch (type) {"))
m("T07", 0, (TP, "			level += 1;\n		} while (type != 0);", "			level += 1;\n			if (type == topology_type_invalid) {\n				break;\n			}\n		} while (true);"))
AC = "src/arm/cache.c"
m("C03", 1, (AC, "l3->sets = l3->size / (l3->associativity * l3->line_size);", "l3->sets = l3->size / (l2->associativity * l3->line_size);"))
m("C03", 1, (AC, "	l1d->partitions = 1;\n", ""))
m("C03", 1, (AC, ".associativity = (l1d_size >> 12)", ".associativity = 8"))
m("C03", 1, (AC, "return detected_cache_size > uarch_max_cache_size ? detected_cache_size : uarch_max_cache_size;", "return uarch_max_cache_size;"))
m("C03", 1, ("src/cache.c", "	if (processor->cache.l4 != NULL) {\n		return processor->cache.l4->size;\n	} else if", "	if"))
m("C03", 1, (AC, "*l1i = (struct cpuinfo_cache){.size = 48 * 1024, .associativity = 3, .line_size = 64};", "*l1i = (struct cpuinfo_cache){.size = 32 * 1024, .associativity = 3, .line_size = 64};"))
m("C03", 1, (AC, "				.size = cluster_cores * 512 * 1024, .associativity = 16, .line_size = 64};", "				.size = cluster_cores * 512 * 1023, .associativity = 16, .line_size = 64};"))
m("C03", 0, (AC, "	l1d->sets = l1d->size / (l1d->associativity * l1d->line_size);", "	l1d->sets = l1d->size / l1d->associativity / l1d->line_size;"))
m("C03", 0, (AC, "		if (l3->size != 0) {\n			l3->sets", "		}\n	{\n		if (l3->size != 0) {\n			l3->sets"))
m("C03", 0, (AC, "	return detected_cache_size > uarch_max_cache_size ? detected_cache_size : uarch_max_cache_size;", "	if (uarch_max_cache_size >= detected_cache_size) {\n		return uarch_max_cache_size;\n	}\n	return detected_cache_size;"))
CL = "src/linux/cpulist.c"
LP = "src/linux/processors.c"
ML = "src/linux/multiline.c"
SF = "src/linux/smallfile.c"
AP = "src/arm/linux/cpuinfo.c"
XP = "src/x86/linux/cpuinfo.c"
m("P01", 1, (CL, "	return callback(first_cpu, last_cpu + 1, context);", "	return callback(first_cpu, last_cpu, context);"))
m("P01", 1, (CL, "status &= entry_status;\n		} else {", "status = entry_status;\n		} else {"))
m("P01", 1, (CL, "if (last_cpu < first_cpu) {", "if (last_cpu <= first_cpu) {"))
m("P01", 1, (CL, "			memmove(buffer, entry_start, entry_length);\n", "			memmove(buffer, entry_start, entry_length & 3);\n"))
m("P01", 1, (CL, "data_start = &buffer[entry_length];", "data_start = buffer;"))
m("P01", 1, (CL, "const char* buffer_end = &buffer[BUFFER_SIZE];", "const char* buffer_end = &buffer[BUFFER_SIZE + 1];"))
m("P01", 1, (LP, "		if (processor >= max_processors_count) {\n			break;", "		if (processor > max_processors_count) {\n			break;"))
m("P01", 1, (LP, "	const uint32_t processor_list_last = processor_list_end - 1;", "	const uint32_t processor_list_last = processor_list_end;"))
m("P01", 1, (LP, "	if (max_present_processor >= max_processors_count) {", "	if (max_present_processor > max_processors_count) {"))
m("P01", 1, (LP, "		sibling_list_end = max_processors_count;\n", "		sibling_list_end = max_processors_count - 1;\n"))
m("P01", 1, (LP, "	if (*processor_number_ptr < processor_list_last) {\n", "	{\n"))
m("P01", 1, (LP, '"/sys/devices/system/cpu/cpu%" PRIu32 "/topology/core_siblings_list"', '"/sys/devices/system/cpu/cpu%" PRIu32 "/topology/core_cpus_list"'))
m("P01", 1, (LP, "	const uint32_t processor = context->processor;\n", "	const uint32_t processor = (uint8_t)context->processor;\n"))
m("P01", 0, (CL, "	uint32_t number = 0;\n	while (string != end) {\n		const uint32_t digit = (uint32_t)(*string) - (uint32_t)'0';\n		if (digit >= 10) {\n			break;\n		}\n		number = number * UINT32_C(10) + digit;\n		string += 1;\n	}", "	uint32_t number = 0;\n	for (; string != end && *string >= '0' && *string <= '9'; string++) {\n		number = (number << 3) + (number << 1) + (uint32_t)(*string - '0');\n	}"))
m("P01", 0, (CL, "				for (entry_end = entry_start; entry_end != data_end; entry_end++) {\n					if (*entry_end == ',') {\n						break;\n					}\n				}", "				entry_end = memchr(entry_start, ',', (size_t)(data_end - entry_start));\n				if (entry_end == NULL) {\n					entry_end = data_end;\n				}"))
m("P01", 0, (LP, "	for (uint32_t processor = processor_list_start; processor < processor_list_end; processor++) {\n		if (processor >= max_processors_count) {\n			break;\n		}\n", "	if (processor_list_end > max_processors_count) {\n		processor_list_end = max_processors_count;\n	}\n	for (uint32_t processor = processor_list_start; processor < processor_list_end; processor++) {\n"))
m("P01", 0, (CL, "	switch (c) {\n		case ' ':\n		case '\\t':\n		case '\\n':\n		case '\\r':\n			return true;\n		default:\n			return false;\n	}", "	return c == ' ' || c == '\\t' || c == '\\r' || c == '\\n';"))
m("P02", 1, (LP, "		return kernel_max + 1;", "		return kernel_max;"))
m("P02", 1, (LP, "		number = number * UINT32_C(10) + digit;", "		number = (uint16_t)(number * UINT32_C(10)) + digit;"))
m("P02", 1, (SF, "#else\n		bytes_read = read(file, &buffer[buffer_position], buffer_size - buffer_position", "#else\n		bytes_read = read(file, &buffer[buffer_position], buffer_size"))
m("P02", 1, (SF, "buffer_position += (size_t)bytes_read;", "buffer_position = (size_t)bytes_read;"))
m("P02", 1, (LP, 'CUR_FREQUENCY_FILENAME_FORMAT "/sys/devices/system/cpu/cpu%" PRIu32 "/cpufreq/cpuinfo_cur_freq"', 'CUR_FREQUENCY_FILENAME_FORMAT "/sys/devices/system/cpu/cpu%" PRIu32 "/cpufreq/cpuinfo_max_freq"'))
m("P02", 1, (LP, "			processor,\n			core_id_filename);\n		*core_id_ptr = core_id;", "			processor,\n			core_id_filename);\n		*core_id_ptr = core_id & 0xFFF;"))
m("P02", 1, (LP, 'core_id of' if False else "failed to parse core id for processor %\" PRIu32 \" from %s\", processor, core_id_filename);\n		return false;", "failed to parse core id for processor %\" PRIu32 \" from %s\", processor, core_id_filename);\n		return true;"))
m("P02", 0, (SF, "	do {\n#if CPUINFO_MOCK", "	for (;;) {\n#if CPUINFO_MOCK"), (SF, "	} while (bytes_read != 0);", "		if (bytes_read == 0) {\n			break;\n		}\n	}"))
m("P02", 0, (LP, "	if (cpuinfo_linux_parse_small_file(cur_frequency_filename, FREQUENCY_FILESIZE, uint32_parser, &cur_frequency)) {", "	const bool ok = cpuinfo_linux_parse_small_file(cur_frequency_filename, FREQUENCY_FILESIZE, uint32_parser, &cur_frequency);\n	if (ok) {"))
m("P02", 0, (LP, "		for (const char* char_ptr = parsed_end; char_ptr != text_end; char_ptr++) {\n			if (!is_whitespace(*char_ptr)) {", "		const char* char_ptr = parsed_end;\n		while (char_ptr != text_end && is_whitespace(*char_ptr)) {\n			char_ptr++;\n		}\n		{\n			if (char_ptr != text_end) {"), (LP, "					char_ptr,\n					filename);\n				break;\n", "					char_ptr,\n					filename);\n"))
m("P03", 1, (AP, "memcmp(line_start, \"CPU part\", key_length)", "memcmp(line_start, \"CPU part\", 4)"))
m("P03", 1, (AP, "	if (processor_index < max_processors_count) {\n		processor = &processors[processor_index];", "	if (processor_index <= max_processors_count) {\n		processor = &processors[processor_index];"))
m("P03", 1, (AP, "				if (new_processor_index < max_processors_count) {", "				if (new_processor_index <= max_processors_count) {"))
m("P03", 1, (AP, "	processor->midr = midr_set_variant(processor->midr, cpu_variant);", "	processor->midr = midr_set_revision(processor->midr, cpu_variant);"))
m("P03", 1, ("src/arm/midr.h", "return (midr & ~CPUINFO_ARM_MIDR_PART_MASK) |", "return midr |"))
m("P03", 1, (AP, "			midr_architecture = UINT32_C(0x7); /* ARMv6 */", "			midr_architecture = UINT32_C(0x6); /* ARMv6 */"))
m("P03", 1, (AP, "processor->features2 |= CPUINFO_ARM_LINUX_FEATURE2_SHA2;", "processor->features2 |= CPUINFO_ARM_LINUX_FEATURE2_SHA1;"))
m("P03", 1, (AP, "processor->features |= CPUINFO_ARM_LINUX_FEATURE_LRCPC;", "processor->features = CPUINFO_ARM_LINUX_FEATURE_LRCPC;"))
m("P03", 1, (AP, "&processor->proc_cpuinfo_cache.d_sets,", "&processor->proc_cpuinfo_cache.i_sets,"))
m("P03", 1, (AP, "if (value_length > CPUINFO_HARDWARE_VALUE_MAX) {", "if (value_length > CPUINFO_HARDWARE_VALUE_MAX + 1) {"))
m("P03", 1, (ML, "&buffer[line_length]", "&buffer[line_length + 1]"))
m("P03", 1, (AP, "				state->processor_index = new_processor_index;\n				return true;", "				if (new_processor_index < max_processors_count) {\n					state->processor_index = new_processor_index;\n				}\n				return true;"))
m("P03", 1, (AP, "	processor->midr = midr_set_part(processor->midr, cpu_part);\n	processor->flags |= CPUINFO_ARM_LINUX_VALID_PART | CPUINFO_ARM_LINUX_VALID_PROCESSOR;", "	processor->midr = midr_set_part(processor->midr, cpu_part);\n	processor->flags |= CPUINFO_ARM_LINUX_VALID_PROCESSOR;"))
m("P03", 0, (AP, "	const char* separator = line_start;\n	for (; separator != line_end; separator++) {\n		if (*separator == ':') {\n			break;\n		}\n	}", "	const char* separator = line_start;\n	while (separator != line_end && *separator != ':') {\n		separator++;\n	}"))
m("P03", 0, (AP, "		if (digit_char >= '0' && digit_char <= '9') {\n			digit = digit_char - '0';\n		} else if ((uint32_t)(digit_char - 'A') < 6) {\n			digit = 10 + (digit_char - 'A');\n		} else if ((uint32_t)(digit_char - 'a') < 6) {\n			digit = 10 + (digit_char - 'a');\n		} else {\n			cpuinfo_log_warning(\n				\"CPU implementer", "		if ((uint32_t)((digit_char | 0x20) - 'a') < 6) {\n			digit = 10 + ((digit_char | 0x20) - 'a');\n		} else if (digit_char >= '0' && digit_char <= '9') {\n			digit = digit_char - '0';\n		} else {\n			cpuinfo_log_warning(\n				\"CPU implementer"))
m("P03", 0, ("src/arm/midr.h", "return (midr & ~CPUINFO_ARM_MIDR_PART_MASK) |", "return (midr - (midr & CPUINFO_ARM_MIDR_PART_MASK)) |"))
m("P03", 0, (AP, "memcmp(line_start, \"CPU part\", key_length) == 0", "strncmp(line_start, \"CPU part\", key_length) == 0"))
m("P04", 1, (XP, "memcmp(line_start, \"apicid\", key_length)", "memcmp(line_start, \"apicid\", 4)"))
m("P04", 1, (XP, "				if (new_processor_index >= max_processors_count) {", "				if (new_processor_index > max_processors_count) {"))
m("P04", 1, (XP, "	if (processor_index < max_processors_count) {", "	if (processor_index < max_processors_count - 1) {"))
m("P04", 1, (XP, "	processor->apic_id = apic_id;", "	processor->apic_id = (uint8_t)apic_id;"))
m("P04", 1, (XP, "	processor->flags |= CPUINFO_LINUX_FLAG_APIC_ID;\n", ""))
m("P04", 1, (XP, "				state->processor_index = new_processor_index;", "				state->processor_index += 1;"))
m("P03", 1, (ML, "memmove(buffer, line_start, line_length);", "memcpy(buffer, line_start, line_length & 31);"))
m("P04", 1, (ML, "const char* buffer_end = &buffer[buffer_size];", "const char* buffer_end = &buffer[buffer_size + 1];"))
m("P04", 0, (XP, "	switch (key_length) {\n		case 6:\n			if (memcmp(line_start, \"apicid\", key_length) == 0) {", "	switch (key_length) {\n		case 6:\n			if (strncmp(\"apicid\", line_start, 6) == 0) {"))
m("P04", 0, (ML, "				for (line_end = line_start; line_end != data_end; line_end++) {\n					if (*line_end == '\\n') {\n						break;\n					}\n				}", "				line_end = line_start;\n				while (line_end != data_end && *line_end != '\\n') {\n					++line_end;\n				}"))
LG = "src/log.c"
CG = "deps/clog/src/clog.c"
CH = "deps/clog/include/clog.h"
m("L01", 1, (LG, "			format,\n			args_copy);", "			format,\n			args);"))
m("L01", 1, (LG, "(format_length + CPUINFO_LOG_NEWLINE_LENGTH) * sizeof(char),", "format_length * sizeof(char),"))
m("L01", 1, (LG, "cpuinfo_vlog(CPUINFO_LOG_STDERR, warning_prefix, 20, format, args);", "cpuinfo_vlog(CPUINFO_LOG_STDERR, warning_prefix, 19, format, args);"))
m("L01", 1, (LG, "		memcpy(heap_buffer, prefix, prefix_length * sizeof(char));\n", ""))
m("L01", 1, (LG, "		out_buffer = heap_buffer;\n", ""))
m("L01", 1, (LG, "	    CPUINFO_LOG_STACK_BUFFER_SIZE) {", "	    CPUINFO_LOG_STACK_BUFFER_SIZE + 1) {"))
m("L01", 1, (LG, "	if (format_chars < 0) {", "	if (format_chars < -1) {"))
m("L01", 1, (CG, "CLOG_INFO_PREFIX_LENGTH 6", "CLOG_INFO_PREFIX_LENGTH 7"))
m("L01", 1, (CG, '"Debug (%s): "', '"Debug in %s: "'))
m("L01", 1, (CG, "vsnprintf(heap_buffer + prefix_chars, format_chars + CLOG_SUFFIX_LENGTH, format, args_copy);", "vsnprintf(heap_buffer + prefix_chars, format_chars, format, args_copy);"))
m("L01", 1, (CG, "				memcpy(heap_buffer, stack_buffer, prefix_chars);", "				memcpy(heap_buffer, stack_buffer, CLOG_FATAL_PREFIX_LENGTH);"))
m("L01", 1, (CG, "if (prefix_chars + CLOG_SUFFIX_LENGTH >= CLOG_STACK_BUFFER_SIZE) {", "if (prefix_chars > 2 * CLOG_STACK_BUFFER_SIZE) {"))
m("L01", 1, (CG, "heap_buffer = malloc(prefix_chars + format_chars + CLOG_SUFFIX_LENGTH);", "heap_buffer = malloc(prefix_chars + format_chars);"))
m("L01", 1, (CH, "if (level >= CLOG_WARNING) {", "if (level > CLOG_WARNING) {"))
m("L01", 1, (CH, "		abort(); \\\n", ""))
m("L01", 0, (LG, "		memcpy(heap_buffer, prefix, prefix_length * sizeof(char));\n", "		memcpy(heap_buffer, stack_buffer, prefix_length * sizeof(char));\n"))
m("L01", 0, (LG, "heap_buffer_size =\n			(prefix_length + format_length + CPUINFO_LOG_NEWLINE_LENGTH) * sizeof(char);", "heap_buffer_size =\n			(prefix_length + format_length + CPUINFO_LOG_NEWLINE_LENGTH + 16) * sizeof(char);"))
m("L01", 1, (CG, "if (prefix_chars + CLOG_SUFFIX_LENGTH >= CLOG_STACK_BUFFER_SIZE) {", "if (prefix_chars + CLOG_SUFFIX_LENGTH >= CLOG_STACK_BUFFER_SIZE - 8) {"))
m("L01", 0, (CH, "if (level >= CLOG_WARNING) {", "if (CLOG_WARNING <= level) {"))
m("L01", 0, (LG, "	assert((prefix_length + CPUINFO_LOG_NEWLINE_LENGTH) * sizeof(char) <= CPUINFO_LOG_STACK_BUFFER_SIZE);\n", ""))
m("L01", 1, (CG, "		va_copy(args_copy, args);\n", ""))
CA = "src/cache.c"
m("C04", 1, (CA, "l4->size", "l4->sets"))
m("C04", 1, (CA, "processor->cache.l2 != NULL) {\n		return processor->cache.l2->size;", "processor->cache.l2 != NULL) {\n		return processor->cache.l1d->size;"))
m("C04", 1, ("src/x86/linux/init.c", "cpuinfo_compute_max_cache_size(&processors[0])", "cpuinfo_compute_max_cache_size(&processors[1])"))
m("C04", 1, ("src/x86/linux/init.c", "	cpuinfo_max_cache_size = cpuinfo_compute_max_cache_size(&processors[0]);\n", ""))
m("C04", 0, ("src/x86/linux/init.c", "cpuinfo_compute_max_cache_size(&processors[0])", "cpuinfo_compute_max_cache_size(cpuinfo_processors)"))
m("C04", 0, (CA, "	if (processor->cache.l4 != NULL) {\n		return processor->cache.l4->size;\n	} else if (", "	const struct cpuinfo_cache* top = processor->cache.l4;\n	if (top) {\n		return top->size;\n	} else if ("))
m("I02", 1, ("src/riscv/linux/init.c", "if (!cpuinfo_linux_detect_present_processors", "if (cpuinfo_linux_detect_present_processors"))
AC = "src/arm/linux/clusters.c"
AI = "src/arm/linux/init.c"
AM = "src/arm/linux/midr.c"
ADD1 = "		if (bitmask_all(processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {\n			const uint32_t package_leader_id = processors[i].package_leader_id;\n			processors[package_leader_id].package_processor_count += 1;\n		}\n"
COPY1 = "			processors[i].package_processor_count = processors[package_leader_id].package_processor_count;\n"
m("T01", 1, (AC, ADD1, "		const uint32_t package_leader_id = processors[i].package_leader_id;\n		processors[package_leader_id].package_processor_count += 1;\n"))
m("T01", 1, (AC, "processors[package_leader_id].package_processor_count += 1;", "processors[i].package_processor_count += 1;"))
m("T01", 1, (AC, "processors[package_leader_id].package_processor_count += 1;", "processors[package_leader_id].package_processor_count += package_leader_id == i ? 2 : 1;"))
m("T02", 1, (AC, ADD1, ADD1.replace("CPUINFO_LINUX_FLAG_VALID)", "CPUINFO_LINUX_FLAG_VALID | CPUINFO_LINUX_FLAG_PACKAGE_CLUSTER)")))
m("T01", 1, (AC, COPY1, "			if (processors[i].flags & CPUINFO_LINUX_FLAG_PACKAGE_CLUSTER) {\n	" + COPY1 + "			}\n"))
m("T01", 1, (AI, "		if (!bitmask_all(processors[sibling].flags, CPUINFO_LINUX_FLAG_VALID)) {", "		if (processors[sibling].flags == 0) {"))
m("T02", 1, (AI, "		if (sibling_package_leader_id < package_leader_id) {", "		if (sibling_package_leader_id > package_leader_id) {"))
m("T01", 1, (AI, "		if (sibling_package_leader_id < package_leader_id) {\n			package_leader_id = sibling_package_leader_id;\n		}\n", ""))
m("T01", 1, (AI, "	uint32_t package_leader_id = processors[processor].package_leader_id;\n", "	uint32_t package_leader_id = siblings_start;\n"))
m("T01", 1, (AC, "		if ((processors[i].flags & (CPUINFO_LINUX_FLAG_VALID | CPUINFO_LINUX_FLAG_PACKAGE_CLUSTER)) ==\n		    CPUINFO_LINUX_FLAG_VALID) {", "		if ((processors[i].flags & CPUINFO_LINUX_FLAG_PACKAGE_CLUSTER) == 0) {"))
m("T01", 0, (AC, "			cluster_start = i;\n			processors[i].package_leader_id = i;", "			cluster_start = i;"))
m("T01", 1, (AC, "			if (cluster_processors == 0) {\n				goto new_cluster;\n			}\n", ""))
m("T01", 1, (AC, "				if (expected_cluster_exists) {\n					if (processors[i].package_leader_id != i) {", "				if (expected_cluster_exists) {\n					if (processors[i].package_leader_id > i) {"))
m("T01", 1, (AC, "	expected_cluster_processors = 0;\n	for (uint32_t i = 0; i < max_processors; i++) {\n		if (bitmask_all(processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {", "	expected_cluster_processors = 0;\n	for (uint32_t i = 0; i < max_processors; i++) {\n		if (processors[i].flags & (CPUINFO_LINUX_FLAG_POSSIBLE | CPUINFO_LINUX_FLAG_PRESENT)) {"))
m("T01", 1, (AI, "		arm_linux_processors[i].package_leader_id = i;\n	}", "		if (arm_linux_processors[i].flags & CPUINFO_ARM_LINUX_VALID_PROCESSOR) {\n			arm_linux_processors[i].package_leader_id = i;\n		}\n	}"))
m("T05", 1, (AM, "			if (group_leader == i) {\n				if", "			if (group_leader == i && (processors[i].flags & CPUINFO_ARM_LINUX_VALID_PROCESSOR)) {\n				if"))
m("T05", 1, (AM, "				if (clusters_count < CLUSTERS_MAX) {\n					cluster_leaders[clusters_count] = i;\n				}\n				clusters_count += 1;", "				if (clusters_count < CLUSTERS_MAX) {\n					cluster_leaders[clusters_count] = i;\n					clusters_count += 1;\n				}"))
m("T05", 1, (AM, "			const uint32_t group_leader = processors[i].package_leader_id;\n			if (group_leader == i) {", "			const uint32_t group_leader = processors[i].package_leader_id;\n			if (group_leader <= i) {"))
m("T05", 1, (AI, "		arm_linux_processors[i].system_processor_id = i;\n		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {", "		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {\n			arm_linux_processors[i].system_processor_id = valid_processors;"))
m("T05", 1, (AI, "				l3_index += 1;\n				if (l3_index < l3_count) {", "				l3_index += 1;\n				if (l3_index <= l3_count) {"))
m("T05", 1, (AI, "				l3_index += 1;\n				if (l3_index < l3_count) {", "				l3_index += 1;\n				{"))
m("T05", 1, (AI, "					shared_l3 = false;\n					l3_count += 1;", "					shared_l3 = false;\n					l3_count += 2;"))
m("T01", 0, (AC, "processors[package_leader_id].package_processor_count += 1;", "processors[package_leader_id].package_processor_count++;"))
m("T01", 0, (AI, "		if (sibling_package_leader_id < package_leader_id) {\n			package_leader_id = sibling_package_leader_id;\n		}\n", "		package_leader_id = min(package_leader_id, sibling_package_leader_id);\n"))
m("T05", 0, (AM, "			if (group_leader == i) {\n				if", "			if (i == processors[i].package_leader_id) {\n				if"))
AA = "src/api.c"
GC = "	if CPUINFO_UNLIKELY (syscall(__NR_getcpu, &cpu, NULL, NULL) != 0) {\n		return 0;\n	}\n"
m("A03", 1, (AA, "(uint32_t)cpu >= cpuinfo_linux_cpu_max", "(uint32_t)cpu > cpuinfo_linux_cpu_max"))
m("A03", 1, (AA, GC, "	syscall(__NR_getcpu, &cpu, NULL, NULL);\n"))
m("A03", 1, (AA, "syscall(__NR_getcpu, &cpu, NULL, NULL) != 0", "syscall(__NR_getcpu, &cpu, NULL, NULL) > 0"))
m("A03", 1, (AA, "(uint32_t)cpu >= cpuinfo_linux_cpu_max", "(uint32_t)cpu >= cpuinfo_processors_count"))
m("A03", 1, (AA, "return cpuinfo_linux_cpu_to_uarch_index_map[cpu];\n#else\n	/* Fallback: no", "return cpuinfo_linux_cpu_to_uarch_index_map[cpu & 63];\n#else\n	/* Fallback: no"), (AA, "return default_uarch_index;", "return 0;"))
m("A03", 1, (AA, "return default_uarch_index;", "return 0;"))
m("A03", 1, (AA, "syscall(__NR_getcpu", "syscall(__NR_getpid"))
m("A03", 1, (AA, "return cpuinfo_linux_cpu_to_processor_map[cpu];", "return cpuinfo_linux_cpu_to_processor_map[cpu] ? cpuinfo_linux_cpu_to_processor_map[cpu] : &cpuinfo_processors[0];"))
m("A03", 1, (AA, "	if (cpuinfo_linux_cpu_to_uarch_index_map == NULL) {", "	if (cpuinfo_uarchs_count == 1) {"))
m("A03", 0, (AA, "(uint32_t)cpu >= cpuinfo_linux_cpu_max", "!(cpuinfo_linux_cpu_max > cpu)"))

# written against the statements
X = "src/x86/linux/init.c"; A = "src/arm/linux/init.c"; API = "src/api.c"; IN = "src/init.c"
PR = "src/linux/processors.c"; CL = "src/linux/cpulist.c"; SF = "src/linux/smallfile.c"; ML = "src/linux/multiline.c"
# A01
m("A01", 1, (API, "	if CPUINFO_UNLIKELY (!cpuinfo_is_initialized) {\n		cpuinfo_log_fatal(\"cpuinfo_get_%s called before cpuinfo is initialized\", \"max_cache_size\");", "	if CPUINFO_UNLIKELY (!cpuinfo_is_initialized && cpuinfo_max_cache_size == 0) {\n		cpuinfo_log_fatal(\"cpuinfo_get_%s called before cpuinfo is initialized\", \"max_cache_size\");"))
m("A01", 1, (API, "	if CPUINFO_UNLIKELY (!cpuinfo_is_initialized) {\n		cpuinfo_log_fatal(\"cpuinfo_get_%s called before cpuinfo is initialized\", \"current_uarch_index\");\n	}\n", ""), (API, "		return 0;\n	}\n\n	/* General case */", "		return 0;\n	}\n	if CPUINFO_UNLIKELY (!cpuinfo_is_initialized) {\n		cpuinfo_log_fatal(\"cpuinfo_get_%s called before cpuinfo is initialized\", \"current_uarch_index\");\n	}\n\n	/* General case */"))
m("A01", 1, (API, "	if CPUINFO_UNLIKELY (!cpuinfo_is_initialized) {\n		cpuinfo_log_fatal(\"cpuinfo_get_%s called before cpuinfo is initialized\", \"processors\");\n	}", "#ifndef NDEBUG\n	if CPUINFO_UNLIKELY (!cpuinfo_is_initialized) {\n		cpuinfo_log_fatal(\"cpuinfo_get_%s called before cpuinfo is initialized\", \"processors\");\n	}\n#endif"))
m("A01", 1, ("src/cpuinfo/log.h", "	abort();\n}", "#if CPUINFO_LOG_LEVEL >= CPUINFO_LOG_ERROR\n	abort();\n#endif\n}"))
# A04
m("A04", 1, (API, "	return cpuinfo_max_cache_size;", "	cpuinfo_log_debug(\"max cache size is %\" PRIu32, cpuinfo_max_cache_size);\n	return cpuinfo_max_cache_size;"))
m("A04", 1, (API, "	return cpuinfo_linux_cpu_to_processor_map[cpu];", "	static unsigned last_cpu;\n	if (cpu != last_cpu) {\n		last_cpu = cpu;\n	}\n	return cpuinfo_linux_cpu_to_processor_map[last_cpu];"))
m("A04", 1, (API, "	return cpuinfo_cores;", "	if (cpuinfo_cores == NULL) cpuinfo_cores_count = 0;\n	return cpuinfo_cores;"))
m("A04", 1, (API, "	if CPUINFO_UNLIKELY ((uint32_t)cpu >= cpuinfo_linux_cpu_max) {\n		return 0;\n	}\n	return cpuinfo_linux_cpu_to_core_map[cpu];", "	if CPUINFO_UNLIKELY ((uint32_t)cpu >= cpuinfo_linux_cpu_max) {\n		cpuinfo_log_warning(\"unknown cpu %u\", cpu);\n		return 0;\n	}\n	return cpuinfo_linux_cpu_to_core_map[cpu];"))
# I01
m("I01", 1, (IN, "	return cpuinfo_is_initialized;\n", "	return cpuinfo_is_initialized && cpuinfo_processors_count != 1;\n"))
m("I01", 1, (IN, "	pthread_once(&init_guard, &cpuinfo_x86_linux_init);", "	if (pthread_once(&init_guard, &cpuinfo_x86_linux_init) == 0 && !cpuinfo_is_initialized) {\n		init_guard = (pthread_once_t)PTHREAD_ONCE_INIT;\n	}"))
m("I01", 1, (IN, "bool CPUINFO_ABI cpuinfo_initialize(void) {\n", "bool CPUINFO_ABI cpuinfo_initialize(void) {\n	if (cpuinfo_processors != NULL) {\n		return cpuinfo_is_initialized;\n	}\n"))
m("I01", 1, (IN, "bool CPUINFO_ABI cpuinfo_initialize(void) {\n", "static bool init_done = false;\nbool CPUINFO_ABI cpuinfo_initialize(void) {\n	if (init_done) {\n		return cpuinfo_is_initialized;\n	}\n	init_done = true;\n"))
# I02
m("I02", 1, (X, "	cpuinfo_max_cache_size = cpuinfo_compute_max_cache_size(&processors[0]);\n", ""), (X, "	cpuinfo_is_initialized = true;\n", "	cpuinfo_is_initialized = true;\n	cpuinfo_max_cache_size = cpuinfo_compute_max_cache_size(&processors[0]);\n"))
m("I02", 1, (X, "	__sync_synchronize();\n\n	cpuinfo_is_initialized = true;\n", "	cpuinfo_is_initialized = true;\n\n	__sync_synchronize();\n"))
m("I02", 1, (X, "	__sync_synchronize();\n", "	__asm__ __volatile__(\"\");\n"))
m("I02", 1, (A, "	cpuinfo_linux_cpu_to_uarch_index_map = linux_cpu_to_uarch_index_map;\n", "	if (cluster_count > 1) {\n		cpuinfo_linux_cpu_to_uarch_index_map = linux_cpu_to_uarch_index_map;\n	}\n"))
m("I02", 1, (A, "	cpuinfo_cache_count[cpuinfo_cache_level_3] = l3_count;\n", "	if (!shared_l3) {\n		cpuinfo_cache_count[cpuinfo_cache_level_3] = l3_count;\n	}\n"))
m("I02", 1, (X, "		cpuinfo_log_error(\"failed to parse processor information from /proc/cpuinfo\");\n		goto cleanup;", "		cpuinfo_log_error(\"failed to parse processor information from /proc/cpuinfo\");\n		if (max_present_processors_count == 0)\n			goto cleanup;"))
m("I02", 1, (A, "	__sync_synchronize();\n\n	cpuinfo_is_initialized = true;\n", "	__sync_synchronize();\n\n	cpuinfo_is_initialized = true;\n	cpuinfo_uarchs_count = uarchs_index;\n"))
# I03
m("I03", 1, (X, "	linux_cpu_to_core_map = calloc(x86_linux_processors_count, sizeof(struct cpuinfo_core*));\n	if (linux_cpu_to_core_map == NULL) {", "	linux_cpu_to_core_map = calloc(x86_linux_processors_count, sizeof(struct cpuinfo_core*));\n	if (linux_cpu_to_core_map == NULL) {\n		free(linux_cpu_to_processor_map);"))
m("I03", 1, (A, "	linux_cpu_to_uarch_index_map = NULL;\n\ncleanup", "\ncleanup"))
m("I03", 1, (A, "	free(linux_cpu_to_uarch_index_map);\n", "	if (uarchs_count_done) free(linux_cpu_to_uarch_index_map);\n"), (A, "	uint32_t* linux_cpu_to_uarch_index_map = NULL;\n", "	uint32_t* linux_cpu_to_uarch_index_map = NULL;\n	bool uarchs_count_done = false;\n"), (A, "	uint32_t uarchs_index = 0;\n", "	uint32_t uarchs_index = 0;\n	uarchs_count_done = true;\n"))
m("I03", 1, (SF, "		if (bytes_read < 0) {", "		if (bytes_read < 0) {\n			file = -1;"))
m("I03", 1, (CL, "	if (file != -1) {\n", "	if (file > 0 && status) {\n"))
m("I03", 1, (X, "		cpuinfo_log_error(\"failed to parse processor information from /proc/cpuinfo\");\n		goto cleanup;", "		cpuinfo_log_error(\"failed to parse processor information from /proc/cpuinfo\");\n		return;"))
# I04
m("I04", 1, (SF, "	if (file == -1) {\n", "	if (file == -1 && errno != EACCES) {\n"))
m("I04", 1, (A, "	if (l1d == NULL) {", "	if (l1i == NULL) {"))
m("I04", 1, (A, "			if (l3 == NULL) {", "			if (l3 == NULL && !shared_l3) {"))
# I05
m("I05", 1, (X, "	cpuinfo_linux_cpu_max = x86_linux_processors_count;", "	cpuinfo_linux_cpu_max = max_processors_count;"))
m("I05", 1, (A, "	cpuinfo_linux_cpu_max = arm_linux_processors_count;", "	cpuinfo_linux_cpu_max = max_possible_processors_count;"))
m("I05", 1, (A, "		linux_cpu_to_uarch_index_map = calloc(arm_linux_processors_count, sizeof(uint32_t));", "		linux_cpu_to_uarch_index_map = calloc(valid_processors, sizeof(uint32_t));"))
m("I05", 1, (X, "	cores = calloc(cores_count, sizeof(struct cpuinfo_core));", "	cores = calloc(min(cores_count, processors_count / 2 + 1), sizeof(struct cpuinfo_core));"))
m("I05", 1, (X, "	linux_cpu_to_core_map = calloc(x86_linux_processors_count, sizeof(struct cpuinfo_core*));", "	linux_cpu_to_core_map = calloc(processors_count, sizeof(struct cpuinfo_core*));"))
m("I05", 1, (X, "	if (l4_count != 0) {\n", "	if (l4_count > 1) {\n"))
m("I05", 1, (A, "	cpuinfo_packages_count = 1;", "	cpuinfo_packages_count = cluster_count;"))
# P01
m("P01", 1, (CL, "	return callback(first_cpu, last_cpu + 1, context);", "	return callback(first_cpu, last_cpu, context);"))
m("P01", 1, (CL, "			status &= entry_status;\n		} else {", "			status = entry_status;\n		} else {"))
m("P01", 1, (CL, "			data_start = &buffer[entry_length];", "			data_start = &buffer[entry_length];\n			buffer_end = data_start + BUFFER_SIZE / 2 > buffer_end ? buffer_end + 1 : buffer_end;"))
m("P01", 1, (CL, "#define BUFFER_SIZE 256", "#define BUFFER_SIZE 255"), (CL, "	char buffer[BUFFER_SIZE];", "	char buffer[BUFFER_SIZE - 1];"))
m("P01", 1, (CL, "			memmove(buffer, entry_start, entry_length);", "			memcpy(buffer, entry_start, entry_length > 16 ? 16 : entry_length);"))
m("P01", 1, (PR, "	if (*processor_number_ptr < processor_list_last) {", "	if (*processor_number_ptr < processor_list_start) {"))
m("P01", 1, (CL, "	if (last_cpu < first_cpu) {", "	if (last_cpu <= first_cpu) {"))
m("P01", 1, (CL, "		case '\\r':\n			return true;", "			return true;"))
# P02
m("P02", 1, (PR, "		return cur_frequency;", "		return cur_frequency / 1000 * 1000;"))
m("P02", 1, (SF, "		buffer_position += (size_t)bytes_read;", "		buffer_position = (size_t)bytes_read;"))
m("P02", 1, (PR, "		return kernel_max + 1;", "		return kernel_max >= default_max_processors_count ? default_max_processors_count : kernel_max + 1;"))
m("P02", 1, (PR, "#define CORE_ID_FILENAME_FORMAT \"/sys/devices/system/cpu/cpu%\" PRIu32 \"/topology/core_id\"", "#define CORE_ID_FILENAME_FORMAT \"/sys/devices/system/cpu/cpu%\" PRIu32 \"/topology/die_id\""))
m("P02", 1, (PR, "#define MIN_FREQUENCY_FILENAME_FORMAT \"/sys/devices/system/cpu/cpu%\" PRIu32", "#define MIN_FREQUENCY_FILENAME_FORMAT \"/sys/devices/system/cpu/cpu%\" PRIx32"))
m("P02", 1, (PR, "CUR_FREQUENCY_FILENAME_FORMAT, processor);", "CUR_FREQUENCY_FILENAME_FORMAT, processor & 0xFF);"))
m("P02", 1, (PR, "		*package_id_ptr = package_id;\n		return true;", "		*package_id_ptr = package_id;\n		return package_id != 0;"))
m("P02", 1, (PR, "uint32_t kernel_max;\n	if (cpu", "uint32_t kernel_max = 0;\n	if (cpu"), (PR, "	uint32_t* kernel_max_ptr = (uint32_t*)context;\n	*kernel_max_ptr = kernel_max;", "	uint32_t* kernel_max_ptr = (uint32_t*)context;\n	if (parsed_end != text_end)\n		*kernel_max_ptr = kernel_max;"))
m("P02", 1, (PR, "#define PACKAGE_ID_FILESIZE 32", "#define PACKAGE_ID_FILESIZE 2"))
# C04
m("C04", 1, (X, "cpuinfo_compute_max_cache_size(&processors[0]);", "cpuinfo_compute_max_cache_size(&processors[processors_count - 1]);"))
# T
m("T02", 1, (X, "				packages[package_index].core_start = core_index;", "				packages[package_index].core_start = processor_index;"))
m("T02", 1, (X, "				package_index++;\n				core_id = 0;", "				package_index++;\n				core_id = cluster_id ? core_id : 0;"))
m("T03", 1, (X, "						.associativity = x86_processor.cache.l3.associativity,", "						.associativity = x86_processor.cache.l2.associativity,"))
m("T03", 1, (A, "	cpuinfo_linux_cpu_to_core_map = linux_cpu_to_core_map;", "	cpuinfo_linux_cpu_to_core_map = (const struct cpuinfo_core**)linux_cpu_to_processor_map;"))
m("T04", 1, (X, "	return cmp(id_a, id_b);", "	return cmp(id_a & UINT32_C(0xFFFF), id_b & UINT32_C(0xFFFF));"))
m("T04", 1, (X, "	return cmp(id_a, id_b);", "	return (int)(id_a - id_b);"))
m("T06", 1, (X, "				const uint32_t l3_id = apic_id & ~bit_mask(x86_processor.cache.l3.apic_bits);\n				processors", "				const uint32_t l3_id = apic_id & ~bit_mask(x86_processor.cache.l2.apic_bits);\n				processors"))
m("T03", 1, (A, "	if (uarchs_count > 1) {\n		linux_cpu_to_uarch_index_map = calloc", "	if (uarchs_count > 2) {\n		linux_cpu_to_uarch_index_map = calloc"), (A, "		if (linux_cpu_to_uarch_index_map != NULL) {\n", "		if (uarchs_count > 1) {\n"))
m("T03", 1, (A, "	if (uarchs_count > 1) {\n		linux_cpu_to_uarch_index_map = calloc", "	if (uarchs_count > 2) {\n		linux_cpu_to_uarch_index_map = calloc"))
# CPUID leaves
I="src/x86/isa.c"; XI="src/x86/init.c"; T="src/x86/topology.c"; C="src/x86/cache/init.c"
m("S02",1,(XI,"max_extended_index >= UINT32_C(0x80000001)","max_extended_index >= UINT32_C(0x80000000)"))
m("S02",1,(XI,"if (max_extended_index >= UINT32_C(0x80000004)) {","if (max_extended_index >= UINT32_C(0x80000003)) {"))
m("S02",1,(XI,"UINT32_C(0x80000002) + i","UINT32_C(0x80000003) + i"))
m("S02",1,(I,"(max_base_index >= 7) ? cpuidex(7, 1)","(max_base_index >= 6) ? cpuidex(7, 1)"))
m("S02",1,(I,"(max_base_index >= 0x24)","(max_base_index >= 24)"))
m("S02",1,(I,"		if (max_base_index >= 0xD) {","		if (max_base_index >= 0xB) {"))
m("S02",1,(T,"if (x2apic && (max_base_index >= UINT32_C(0xB)))","if (x2apic)"))
m("S02",1,(T,"			if (max_extended_index >= UINT32_C(0x80000008)) {","			if (max_extended_index >= UINT32_C(0x80000007)) {"))
m("S02",1,(C,"if (max_base_index >= 2) {","if (max_base_index >= 1) {"))
m("S02",1,(C,"vendor != cpuinfo_vendor_hygon && max_base_index >= 4","vendor != cpuinfo_vendor_hygon"))
m("S02",1,(C,"if (amd_topology_extensions && max_extended_index >= UINT32_C(0x8000001D)) {","if (amd_topology_extensions) {"))
m("S02",1,(I,"		if (isa.sse && isa.fxsave) {","		if (isa.sse || isa.fxsave) {"))
m("S02",1,(I,"	if (vendor == cpuinfo_vendor_via) {\n		const struct cpuid_regs padlock_meta","	if (vendor == cpuinfo_vendor_via || vendor == cpuinfo_vendor_intel) {\n		const struct cpuid_regs padlock_meta"))
m("S02",1,(I,"max_padlock_index >= padlock_info_index","max_padlock_index != 0"))
# second list written against the statements
ML="src/linux/multiline.c"; AP="src/arm/linux/cpuinfo.c"; XP="src/x86/linux/cpuinfo.c"
A32="src/arm/linux/aarch32-isa.c"; A64="src/arm/linux/aarch64-isa.c"; HW="src/arm/linux/hwcap.c"; MH="src/arm/midr.h"
A="src/arm/linux/init.c"; X="src/x86/linux/init.c"; T="src/x86/topology.c"; LG="src/log.c"; CG="deps/clog/src/clog.c"
# multiline
m("P03",1,(ML,"memmove(buffer, line_start, line_length);","memcpy(buffer, line_start, line_length < 64 ? line_length : 64);"))
m("P04",1,(ML,"(size_t)(buffer_end - data_start)","buffer_size"),(ML,"bytes_read = read(file, data_start, (size_t)(buffer_end - data_start));","bytes_read = read(file, data_start, buffer_size);"))
m("P04",1,(ML,"			data_start = &buffer[line_length];","			data_start = line_length >= buffer_size / 2 ? buffer : &buffer[line_length];"))
m("P03",1,(ML,"			data_start = &buffer[line_length];","			data_start = line_length >= buffer_size / 2 ? buffer : &buffer[line_length];"))
m("P04",1,(ML,"			if (!callback(line_start, line_end, context, line_number)) {","			if (position != 0 && line_start != line_end && line_end[-1] == ' ' && !callback(line_start, line_end, context, line_number)) {"))
m("P04",1,(ML,"	} while (bytes_read != 0);","	} while (bytes_read == (ssize_t)(buffer_end - data_start) || bytes_read != 0 && data_start != buffer);"))
m("P03",1,(ML,"					line_start = line_end + 1;","					line_start = line_end + 1;\n					if (line_start != data_end && *line_start == ' ') line_start++;"))
m("P03",1,(ML,"const char* line_start = buffer;","const char* line_start = data_start;"))
# x86 lines
m("P04",1,(XP,"		if (*value_start != ' ') {","		if (*value_start != ' ' && *value_start != '0') {"))
m("P04",1,(XP,"		if (key_end[-1] != ' ' && key_end[-1] != '\\t') {","		if (key_end[-1] != '\\t') {"))
m("P04",1,(XP,"	uint32_t apic_id = 0;","	uint32_t apic_id = processor->apic_id;"))
m("P04",1,(XP,"		if (digit >= 10) {\n			cpuinfo_log_warning(\n				\"APIC","		if (digit > 10) {\n			cpuinfo_log_warning(\n				\"APIC"))
m("P04",1,(XP,"	uint32_t apic_id = 0;\n","	uint32_t apic_id = 0;\n	if (apic_end - apic_start > 4) {\n		return;\n	}\n"))
# ARM lines
m("P03",1,(AP,"if (cpu_part_length < 3 || cpu_part_length > 5) {","if (cpu_part_length < 3 || cpu_part_length > 6) {"))
m("P03",1,(AP,"if (cpu_part_length < 3 || cpu_part_length > 5) {","if (cpu_part_length < 4 || cpu_part_length > 5) {"))
m("P03",1,(AP,"	if (cpu_variant_length != 3) {","	if (cpu_variant_length < 3) {"))
m("P03",1,(AP,"if (cpu_part_start[0] != '0' || cpu_part_start[1] != 'x') {","if (cpu_part_start[0] != '0' && cpu_part_start[1] != 'x') {"))
m("P03",1,(AP,"		} else if ((uint32_t)(digit_char - 'A') < 6) {\n			digit = 10 + (digit_char - 'A');","		} else if ((uint32_t)(digit_char - 'A') < 5) {\n			digit = 10 + (digit_char - 'A');"))
m("P03",1,(AP,"		case 3:\n		case 4:\n			break;","		case 4:\n			break;"))
m("P03",1,(AP,"	processor->midr = midr_set_revision(processor->midr, cpu_revision);","	processor->midr = (processor->midr & ~CPUINFO_ARM_MIDR_REVISION_MASK) | cpu_revision;"))
m("P03",1,(AP,"		cpu_revision = cpu_revision * 10 + digit;","		cpu_revision = cpu_revision * 16 + digit;"))
m("P03",1,(AP,"		architecture = architecture * 10 + digit;","		architecture = digit;"))
m("P03",1,(AP,"		if (architecture != 0) {","		if (architecture > 4) {"))
m("P03",1,(AP,"			} else if (\n				(processor->architecture_flags & CPUINFO_ARM_LINUX_ARCH_TE) ==\n				CPUINFO_ARM_LINUX_ARCH_TE) {","			} else if (\n				(processor->architecture_flags & CPUINFO_ARM_LINUX_ARCH_TE) != 0) {"))
m("P03",1,(AP,"			case 128:\n				break;","				break;"))
m("P03",1,(AP,"	if (number == 0) {\n		cpuinfo_log_warning(\n			\"%s","	if (number == 0 && number_end - number_start == 1) {\n		cpuinfo_log_warning(\n			\"%s"))
# A32
m("S04",1,(A32,"	if (features & CPUINFO_ARM_LINUX_FEATURE_VFPV4) {\n			isa->fma","	if (features & (CPUINFO_ARM_LINUX_FEATURE_VFPV4 | CPUINFO_ARM_LINUX_FEATURE_NEON)) {\n			isa->fma") if False else (A32,"		if (features & CPUINFO_ARM_LINUX_FEATURE_VFPV4) {\n			isa->fma","		if (isa->fp16) {\n			isa->fma"))
m("S04",1,(A32,"(features & CPUINFO_ARM_LINUX_FEATURE_IDIV) == CPUINFO_ARM_LINUX_FEATURE_IDIV ||\n		    midr_is_krait(midr)","(features & CPUINFO_ARM_LINUX_FEATURE_IDIV) ||\n		    midr_is_krait(midr)"))
m("S04",1,(A32,"				if (features & d32_mask) {","				if ((features & d32_mask) || !(features & CPUINFO_ARM_LINUX_FEATURE_VFPV3D16)) {"))
m("S04",1,(A32,"		if (architecture_version == 7 && midr_is_arm11(midr)) {","		if (architecture_version >= 7 && midr_is_arm1156(midr)) {"))
m("S04",1,(A32,"chipset->series == cpuinfo_arm_chipset_series_unisoc_t && chipset->model == 310","chipset->series == cpuinfo_arm_chipset_series_unisoc_t && chipset->model == 312"))
m("S04",1,(A32,"CPUINFO_ARM_LINUX_FEATURE2_SHA2 | CPUINFO_ARM_LINUX_FEATURE2_CRC32;","CPUINFO_ARM_LINUX_FEATURE2_SHA2;"))
m("S04",1,(A32,"			if (coprocessor_type >= 0x10) {","			if (coprocessor_type > 0x10) {"))
m("S04",1,(A32,"if (architecture_version >= 7 || midr_is_arm1156(midr)) {","if (architecture_version >= 7 || midr_is_arm11(midr)) {"))
m("S04",1,(A32,"isa->dot = !!(midr_get_variant(midr) >= 2);","isa->dot = !!(midr_get_variant(midr) > 2);"))
m("S04",1,(MH,"midr_is_krait(uint32_t midr) {\n	switch (midr & (CPUINFO_ARM_MIDR_IMPLEMENTER_MASK | CPUINFO_ARM_MIDR_PART_MASK)) {","midr_is_krait(uint32_t midr) {\n	switch (midr & (CPUINFO_ARM_MIDR_IMPLEMENTER_MASK | CPUINFO_ARM_MIDR_PART_MASK | CPUINFO_ARM_MIDR_VARIANT_MASK)) {"))
m("S04",1,(HW,"	*hwcap2 = getauxval(AT_HWCAP2);\n	return true;","	*hwcap2 = getauxval(AT_HWCAP);\n	return true;"))
# A64
m("S03",1,(A64,"((features & fp16arith_mask) == fp16arith_mask)","((features & fp16arith_mask) != 0)"))
m("S03",1,(A64,"CPUINFO_ARM_LINUX_FEATURE2_BF16 | CPUINFO_ARM_LINUX_FEATURE2_SVEBF16","CPUINFO_ARM_LINUX_FEATURE2_BF16"))
m("S03",1,(A64,"	if (ret < 0) {","	if (ret <= 0 || !isa->sve) {"))
m("S03",1,(A64,"isa->svelen = ret & PR_SVE_VL_LEN_MASK;","isa->svelen = ret;"))
m("S03",1,(HW,"(uint64_t)getauxval(AT_HWCAP2)","(uint32_t)getauxval(AT_HWCAP2)"))
m("S03",1,(A64,"	if (features2 & CPUINFO_ARM_LINUX_FEATURE2_SME2P1) {","	if ((uint32_t)features2 & CPUINFO_ARM_LINUX_FEATURE2_SME2P1) {"))
m("S03",1,(A64,"				isa->rdm = true;\n				break;\n			default:","				isa->rdm = !!(features & CPUINFO_ARM_LINUX_FEATURE_ASIMDRDM);\n				break;\n			default:"))
m("S03",1,(A,"	cpuinfo_arm64_linux_decode_isa_from_proc_cpuinfo(\n		isa_features, isa_features2, last_midr, &chipset, &cpuinfo_isa);","	cpuinfo_arm64_linux_decode_isa_from_proc_cpuinfo(\n		isa_features, isa_features2, arm_linux_processors[0].midr, &chipset, &cpuinfo_isa);"))
# S05
R="src/riscv/linux/riscv-isa.c"
m("S05",1,(R,"getauxval(AT_HWCAP)","getauxval(AT_HWCAP2)"))
# topology
m("T07",1,(T,"log2_max_logical_processors > topology->core_bits_length","log2_max_logical_processors >= 1"))
m("T07",1,(T,"					topology->thread_bits_offset = total_shift;","					topology->thread_bits_offset = level_shift;"))
m("T07",1,(T,"	const bool htt = !!(leaf1.edx & UINT32_C(0x10000000));","	const bool htt = !!(leaf1.edx & UINT32_C(0x10000000)) && max_base_index >= 4;"))
m("T07",1,(T,"if (cores_per_processor != 0) {","if (cores_per_processor > 2) {"))
# logs
m("L01",1,(LG,"CPUINFO_LOG_STACK_BUFFER_SIZE - prefix_length * sizeof(char),","CPUINFO_LOG_STACK_BUFFER_SIZE,"))
m("I03",1,(LG,"	free(heap_buffer);\n#endif\n	va_end","	if (heap_buffer != out_buffer) free(heap_buffer);\n#endif\n	va_end"))
m("L01",1,(LG,"#define CPUINFO_LOG_STACK_BUFFER_SIZE 1024","#define CPUINFO_LOG_STACK_BUFFER_SIZE 20"))
m("L01",1,("src/cpuinfo/log.h","	cpuinfo_vlog_warning(format, args);","	cpuinfo_vlog_error(format, args);"))
m("L01",1,(CG,"		if (prefix_chars + format_chars + CLOG_SUFFIX_LENGTH > CLOG_STACK_BUFFER_SIZE) {","		if (format_chars + CLOG_SUFFIX_LENGTH > CLOG_STACK_BUFFER_SIZE) {"))
m("L01",1,(CG,"		write(STDERR_FILENO, out_buffer, prefix_chars + format_chars + CLOG_SUFFIX_LENGTH);","		write(STDERR_FILENO, out_buffer, prefix_chars + format_chars);"))

# ---- third list written against the statements
API="src/api.c"; I="src/x86/isa.c"; UA="src/x86/uarch.c"; VN="src/x86/vendor.c"; INF="src/x86/info.c"; CI="src/x86/cache/init.c"; DT="src/x86/cache/deterministic.c"; DS="src/x86/cache/descriptor.c"
AU="src/arm/uarch.c"; AC="src/arm/cache.c"; H="include/cpuinfo.h"; XI="src/x86/init.c"; X="src/x86/linux/init.c"; A="src/arm/linux/init.c"; IN="src/init.c"; R="src/riscv/linux/riscv-isa.c"; CH="src/cache.c"
# A02
m("A02",1,(API,"	if CPUINFO_UNLIKELY (index >= cpuinfo_cores_count) {","	if CPUINFO_UNLIKELY ((int32_t)index >= (int32_t)cpuinfo_cores_count) {"))
m("A02",1,(API,"	if CPUINFO_UNLIKELY (index >= cpuinfo_clusters_count) {","	if CPUINFO_UNLIKELY (index >= cpuinfo_packages_count) {"))
m("A02",1,(API,"	return &cpuinfo_packages[index];","	return cpuinfo_packages + (uint8_t)index;"))
m("A02",1,(API,"	return cpuinfo_cache[cpuinfo_cache_level_1i];","	return cpuinfo_cache[cpuinfo_cache_level_1d];"))
m("A02",1,(API,"	if CPUINFO_UNLIKELY (index >= cpuinfo_processors_count) {\n		return NULL;\n	}\n	return &cpuinfo_processors[index];","	if CPUINFO_UNLIKELY (index > cpuinfo_processors_count - 1) {\n		return NULL;\n	}\n	return &cpuinfo_processors[index];"))
m("A02",1,(API,"	if CPUINFO_UNLIKELY (index >= cpuinfo_cache_count[cpuinfo_cache_level_4]) {","	if CPUINFO_UNLIKELY (index >= cpuinfo_cache_count[cpuinfo_cache_level_max - 2]) {"))
m("A02",1,("src/cpuinfo/internal-api.h","	cpuinfo_cache_level_3 = 3,","	cpuinfo_cache_level_3 = 2,"))
# A03
m("A03",1,(API,"	if CPUINFO_UNLIKELY ((uint32_t)cpu >= cpuinfo_linux_cpu_max) {\n		return default_uarch_index;","	if CPUINFO_UNLIKELY ((uint32_t)cpu >= cpuinfo_linux_cpu_max) {\n		return 0;"))
m("A03",1,(API,"	if CPUINFO_UNLIKELY (syscall(__NR_getcpu, &cpu, NULL, NULL) != 0) {\n		return default_uarch_index;","	if CPUINFO_UNLIKELY (syscall(__NR_getcpu, &cpu, NULL, NULL) < -1) {\n		return default_uarch_index;"))
m("A03",1,(API,"	return cpuinfo_linux_cpu_to_core_map[cpu];","	return cpuinfo_linux_cpu_to_processor_map[cpu]->core + 0 * cpu;") if 0 else (API,"syscall(__NR_getcpu, &cpu, NULL, NULL)","syscall(__NR_getcpu, NULL, &cpu, NULL)"))
m("A03",1,(API,"	if CPUINFO_UNLIKELY ((uint32_t)cpu >= cpuinfo_linux_cpu_max) {\n		return 0;\n	}\n	return cpuinfo_linux_cpu_to_core_map[cpu];","	if CPUINFO_UNLIKELY ((uint32_t)cpu >= cpuinfo_processors_count) {\n		return 0;\n	}\n	return cpuinfo_linux_cpu_to_core_map[cpu];"))
m("A03",1,(API,"	return cpuinfo_linux_cpu_to_core_map[cpu];","	return cpuinfo_linux_cpu_to_core_map[cpu % cpuinfo_cores_count];"))
# A05
m("A05",1,(H,"	return cpuinfo_isa.avx512vnni;","	return cpuinfo_isa.avx512vnni || cpuinfo_isa.avxvnni;"))
m("A05",1,(H,"	return cpuinfo_isa.avx10_2 && cpuinfo_isa.avx512f;","	return cpuinfo_isa.avx10_2;") if 0 else (H,"	return cpuinfo_isa.sha;","	return cpuinfo_isa.sha && cpuinfo_isa.sse4_1;"))
m("A05",1,(H,"	return cpuinfo_isa.fma3;","	return cpuinfo_isa.avx2;"))
m("A05",1,(H,"	return cpuinfo_isa.sme_bi32i32;","	return cpuinfo_isa.sme_i16i32;"))
m("A05",1,(H,"	return cpuinfo_isa.bf16 && cpuinfo_isa.sve;","	return cpuinfo_isa.bf16;") if 0 else (H,"	return cpuinfo_isa.rdseed;","	return cpuinfo_isa.rdrand;"))
m("A05",1,(H,"	return cpuinfo_isa.jscvt;","	return cpuinfo_isa.fcma;"))
# C01
m("C01",1,(CI,"const uint8_t descriptor = descriptors.as_bytes[i];","const uint8_t descriptor = descriptors.as_bytes[i] & 0x7F;"))
m("C01",1,(CI,"const uint8_t descriptor = descriptors.as_bytes[i];\n				if (descriptor != 0) {","const uint8_t descriptor = descriptors.as_bytes[i];\n				if (descriptor == 0) {\n					break;\n				}\n				{"))
# C02
m("C02",1,(CI,"input_ecx++);\n			} while","input_ecx++ & 3);\n			} while"))
m("C02",1,(DT,"const uint32_t associativity = 1 + (regs.ebx >> 22);","const uint32_t associativity = 1 + ((regs.ebx >> 22) & UINT32_C(0xFF));"))
m("C02",1,(DT,"const uint32_t level = (regs.eax >> 5) & UINT32_C(0x7);","const uint32_t level = (regs.eax >> 5) & UINT32_C(0x3);"))
m("C02",1,(CI,"	if (amd_topology_extensions && max_extended_index","	if (amd_topology_extensions && cache->l1d.size == 0 && max_extended_index"))
m("C02",1,(XI,"\t\t\tamd_topology_extensions,","\t\t\tamd_topology_extensions && vendor == cpuinfo_vendor_amd,"))
m("C02",1,(CI,"max_base_index >= 4) {","max_base_index >= 4 && cache->l2.size == 0) {"))
# C03
m("C03",1,(AC,"	if (l2->size != 0) {","	if (l3->size != 0) {"))
m("C03",1,(AC,".line_size = 64 /* assumption */","	.line_size = 48 /* assumption */"))
m("C03",1,(CH,"	} else if (processor->cache.l3 != NULL) {\n		return processor->cache.l3->size;","	} else if (processor->cache.l3 != NULL) {\n		return processor->cache.l2->size;"))
# D01
m("D01",1,(VN,"#define VIA UINT32_C(0x20414956)","#define VIA UINT32_C(0x00414956)"))
m("D01",1,(VN,"#define TTER UINT32_C(0x52455454)","#define TTER UINT32_C(0x52455474)"))
# D02
m("D02",1,(INF,"model_info.base_family + model_info.extended_family;","model_info.base_family == 0xF ? model_info.base_family + model_info.extended_family : model_info.base_family & 7;"))
m("D02",1,(INF,"(model_info.extended_model << 4)","(model_info.base_family >= 6 && model_info.base_family != 0xF ? model_info.extended_model << 4 : 0)"))
m("D02",1,(UA,"						case 0x1D: // Xeon (Dunnington)\n							return cpuinfo_uarch_penryn;","							return cpuinfo_uarch_penryn;"))
m("D02",1,(UA,"		case cpuinfo_vendor_hygon:","		case cpuinfo_vendor_rise:"))
m("D02",1,(UA,"							return cpuinfo_uarch_conroe;","							return model_info->stepping > 11 ? cpuinfo_uarch_penryn : cpuinfo_uarch_conroe;"))
# D03
m("D03",1,(AU,"			*vendor = cpuinfo_vendor_nvidia;","			*vendor = cpuinfo_vendor_unknown;"))
m("D03",1,("src/arm/midr.h","	return (midr & CPUINFO_ARM_MIDR_PART_MASK) >> CPUINFO_ARM_MIDR_PART_OFFSET;","	return (midr & (CPUINFO_ARM_MIDR_PART_MASK >> 1)) >> CPUINFO_ARM_MIDR_PART_OFFSET;"))
# S01
m("S01",1,(I,"UINT64_C(0x00000000000000E6)","UINT64_C(0x0000000000000066)"))
m("S01",1,(I,"avx512_regs = (xfeature_enabled_mask & avx512_regs_mask) == avx512_regs_mask;","avx512_regs = (xfeature_enabled_mask & avx512_regs_mask) != 0;"))
m("S01",1,(I,"const uint32_t osxsave_mask = UINT32_C(0x0C000000);","const uint32_t osxsave_mask = UINT32_C(0x04000000);"))
m("S01",1,(I,"isa.sysenter = !!(basic_info.edx & UINT32_C(0x00000800));","isa.sysenter = !!((basic_info.edx | extended_info.edx) & UINT32_C(0x00000800));"))
m("S01",1,(I,"isa.clzero = !!(processor_capacity_info.ebx & UINT32_C(0x00000001));","isa.clzero = vendor == cpuinfo_vendor_amd && !!(processor_capacity_info.ebx & UINT32_C(0x00000001));"))
m("S01",1,(I,"		case cpuinfo_vendor_amd:\n		case cpuinfo_vendor_hygon:\n			isa.prefetch =","		case cpuinfo_vendor_amd:\n			isa.prefetch ="))
m("S01",1,(XI,"cpuinfo_isa = cpuinfo_x86_detect_isa(","cpuinfo_isa = cpuinfo_x86_detect_isa("),(XI,"leaf1, leaf0x80000001, max_base_index, max_extended_index, vendor, uarch","leaf1, leaf0x80000001, max_extended_index, max_base_index, vendor, uarch"))
m("S01",1,(I,"const uint64_t amx_regs_mask = UINT64_C(0x0000000000060000);","const uint64_t amx_regs_mask = UINT64_C(0x0000000000020000);"))
# S05
m("S05",1,(R,"const unsigned long hwcap","const uint16_t hwcap"))
m("S05",1,(R,"(1 << ('D' - 'A'))","(1 << ('D' - 'A') | 1 << ('F' - 'A'))"))
# I
m("I02",1,(IN,"	return cpuinfo_is_initialized;","	return cpuinfo_processors != NULL;"))
m("I02",1,(X,"	cpuinfo_linux_cpu_to_core_map = linux_cpu_to_core_map;\n",""),(X,"	__sync_synchronize();","	__sync_synchronize();") )
m("C03",1,(A,"	cpuinfo_max_cache_size = cpuinfo_arm_compute_max_cache_size(&processors[0]);","	cpuinfo_max_cache_size = processors[0].cache.l3 ? cpuinfo_arm_compute_max_cache_size(&processors[0]) : 0;"))
m("I03",1,(A,"	free(arm_linux_processors);\n","	if (processors == NULL) free(arm_linux_processors);\n"))
m("I03",1,(A,"	free(arm_linux_processors);\n","	free(arm_linux_processors);\n	free(processors == NULL ? NULL : arm_linux_processors);\n"))

# ---- maximum cache size
A="src/arm/linux/init.c"; X="src/x86/linux/init.c"
L="	cpuinfo_max_cache_size = cpuinfo_arm_compute_max_cache_size(&processors[0]);\n"
m("C03",1,(A,L,""),(A,"	uint32_t l2_index = UINT32_MAX, l3","	\n"+L+"	uint32_t l2_index = UINT32_MAX, l3"))
m("C03",1,(A,L,L.replace("[0]","[processors_count - 1]") if 0 else L.replace("[0]","[valid_processors - 1]")))
m("C03",1,(A,L,""))
L="	cpuinfo_max_cache_size = cpuinfo_compute_max_cache_size(&processors[0]);\n"
m("C04",1,(X,L,""),(X,"	uint32_t processor_index = UINT32_MAX",L+"	uint32_t processor_index = UINT32_MAX"))

# fourth list written against the statements
X="src/x86/linux/init.c"; A="src/arm/linux/init.c"; CL="src/linux/cpulist.c"; SF="src/linux/smallfile.c"; IN="src/init.c"; API="src/api.c"; PR="src/linux/processors.c"; ML="src/linux/multiline.c"
# T01
m("T05",1,(X,"	uint32_t last_l2_id = UINT32_MAX, last_l3_id = UINT32_MAX, last_l4_id = UINT32_MAX;\n	for (","	uint32_t last_l2_id = UINT32_MAX, last_l3_id = 0, last_l4_id = UINT32_MAX;\n	for ("))
m("T01",1,(X,"				processors[i].cache.l3 = &l3[l3_index];\n			} else {","			} else {"))
m("T01",1,(A,"						.processor_count = shared_l3\n							? valid_processors\n							: arm_linux_processors[i].package_processor_count,","						.processor_count = shared_l3\n							? arm_linux_processors_count\n							: arm_linux_processors[i].package_processor_count,"))
m("T01",1,(A,"		processors[i].cache.l1d = l1d + i;","		processors[i].cache.l1d = l1d + arm_linux_processors[i].system_processor_id;"))
m("T01",1,(A,"		l1i[i].processor_start = l1d[i].processor_start = i;","		l1i[i].processor_start = l1d[i].processor_start = arm_linux_processors[i].system_processor_id;"))
# T02
m("T02",1,(X,"				packages[package_index].cluster_count += 1;\n",""))
m("T02",1,(X,"				core_id = 0;\n				cluster_id = 0;","				core_id = 0;"))
m("T02",1,(X,"				core_id++;\n				smt_id = 0;","				core_id++;\n				if (apid_core_id > last_apic_core_id) {\n					smt_id = 0;\n				}"))
m("T02",1,(A,"		cores[i].core_id = i;","		cores[i].core_id = i - processors[i].cluster->core_start;"))
m("T02",1,(X,"				packages[package_index].cluster_start = cluster_index;","				packages[package_index].cluster_start = core_index;"))
m("T02",1,(X,"				clusters[cluster_index].core_start = core_index;","				clusters[cluster_index].core_start = processor_index;"))
# T03
m("T03",1,(X,"			processors[processor_index].apic_id = x86_linux_processors[i].apic_id;","			processors[processor_index].apic_id = x86_linux_processors[i].apic_id & UINT32_C(0xFF);"))
m("T03",1,(A,"				.partitions = 1,\n				.line_size = temp_l2.line_size,\n				.flags = temp_l2.flags,\n				.processor_start = i,\n				.processor_count = 1,","				.partitions = 1,\n				.line_size = temp_l2.line_size,\n				.flags = temp_l3.flags,\n				.processor_start = i,\n				.processor_count = 1,"))
m("T03",1,(A,"				.sets = arm_linux_processors[i].proc_cpuinfo_cache.d_sets,","				.sets = arm_linux_processors[i].proc_cpuinfo_cache.i_sets,"))
m("T03",1,(X,"			linux_cpu_to_core_map[x86_linux_processors[i].linux_id] = cores + core_index;","			linux_cpu_to_core_map[x86_linux_processors[i].linux_id] = cores + core_id;"))
m("T03",1,(X,"			x86_linux_processors[i].linux_id = i;\n			processors_count++;","			x86_linux_processors[i].linux_id = processors_count;\n			processors_count++;"))
# T05
m("T05",1,(A,"					shared_l3 = false;\n					l3_count += 1;","					shared_l3 = false;\n					l3_count = 2;"))
m("T05",1,(A,"	for (uint32_t i = 0; i < arm_linux_processors_count; i++) {\n		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {\n			if (uarchs_count == 0","	for (uint32_t i = 0; i < arm_linux_processors_count; i++) {\n		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_LINUX_FLAG_PRESENT)) {\n			if (uarchs_count == 0"))
m("T05",1,(X,"			x86_linux_processors[i].linux_id = i;\n			processors_count++;","			x86_linux_processors[i].linux_id = i;\n		}\n		if (x86_linux_processors[i].flags & CPUINFO_LINUX_FLAG_PRESENT) {\n			processors_count++;"))
# T04
m("T04",1,(X,"	const bool usable_b = bitmask_all(processor_b->flags, CPUINFO_LINUX_FLAG_VALID);","	const bool usable_b = bitmask_all(processor_b->flags, CPUINFO_LINUX_FLAG_PRESENT);"))
m("T04",1,(A,"	qsort(arm_linux_processors,\n	      arm_linux_processors_count,","	qsort(arm_linux_processors,\n	      valid_processors,"))
m("T04",1,(X,"	qsort(x86_linux_processors,\n	      x86_linux_processors_count,","	qsort(x86_linux_processors,\n	      processors_count,"))
# I01/I02
m("I01",1,(IN,"	pthread_once(&init_guard, &cpuinfo_x86_linux_init);","	if (!cpuinfo_is_initialized) {\n		pthread_once(&init_guard, &cpuinfo_x86_linux_init);\n	}"))
m("I01",1,(IN,"	pthread_once(&init_guard, &cpuinfo_arm_linux_init);","	static bool started = false;\n	if (!__sync_lock_test_and_set(&started, true)) {\n		cpuinfo_arm_linux_init();\n	}"))
m("I01",1,(IN,"void CPUINFO_ABI cpuinfo_deinitialize(void) {}","void CPUINFO_ABI cpuinfo_deinitialize(void) {\n	const pthread_once_t fresh = PTHREAD_ONCE_INIT;\n	init_guard = fresh;\n}"))
m("I02",1,(A,"	cpuinfo_cache_count[cpuinfo_cache_level_3] = l3_count;\n","	if (l3 != NULL && !shared_l3) {\n		cpuinfo_cache_count[cpuinfo_cache_level_3] = l3_count;\n	}\n"))
m("I02",1,(X,"	__sync_synchronize();\n\n	cpuinfo_is_initialized = true;","	cpuinfo_is_initialized = true;\n\n	__sync_synchronize();"),(X,"	cpuinfo_linux_cpu_max = x86_linux_processors_count;\n",""),(X,"	packages = NULL;\n	l1i","	cpuinfo_linux_cpu_max = x86_linux_processors_count;\n	packages = NULL;\n	l1i"))
m("I02",1,(API,"bool cpuinfo_is_initialized = false;","bool cpuinfo_is_initialized = true;"))
# I03
m("I03",1,(A,"	l1i = l1d = l2 = l3 = NULL;","	l1i = l1d = l2 = NULL;"))
m("I03",1,(SF,"			goto cleanup;\n		}\n		buffer_position += (size_t)bytes_read;","			return false;\n		}\n		buffer_position += (size_t)bytes_read;"))
m("I03",1,(CL,"			status = false;\n			goto cleanup;\n		}\n\n		position","			return false;\n		}\n\n		position"))
# I04
m("I04",1,(X,"		if (l4 == NULL) {\n			cpuinfo_log_error(\n				\"failed to allocate %zu bytes for descriptions of %\" PRIu32 \" L4 caches\",\n				l4_count * sizeof(struct cpuinfo_cache),\n				l4_count);\n			goto cleanup;\n		}\n",""))
m("I04",1,(CL,"		status = false;\n		goto cleanup;\n	}\n\n	size_t position","		status = false;\n	}\n\n	size_t position"))
m("I04",1,(X,"	if (cores == NULL) {","	if (cores == NULL && cores_count > 1) {"))
# I05
m("I05",1,(X,"	cpuinfo_cores_count = cores_count;","	cpuinfo_cores_count = processors_count;"))
m("I05",1,(A,"	cpuinfo_linux_cpu_max = arm_linux_processors_count;","	cpuinfo_linux_cpu_max = max_processors_count;"))
m("I05",1,(X,"linux_cpu_to_core_map = calloc(x86_linux_processors_count, sizeof(struct cpuinfo_core*));","linux_cpu_to_core_map = calloc(processors_count, sizeof(struct cpuinfo_core*));"))
m("I05",1,(A,"	cpuinfo_clusters_count = cluster_count;","	cpuinfo_clusters_count = cluster_id + 2;"))
# P01 P02
m("P01",1,(CL,"	if (last_cpu < first_cpu) {","	if (last_cpu <= first_cpu) {"))
m("P01",1,(CL,"			const bool entry_status = parse_entry(entry_start, entry_end, callback, context);\n			status &= entry_status;\n		} else","			status = parse_entry(entry_start, entry_end, callback, context);\n		} else"))
m("P01",1,(CL,"	for (; entry_end != entry_start; entry_end--) {\n		if (!is_whitespace(entry_end[-1])) {\n			break;\n		}\n	}","	if (entry_end != entry_start && is_whitespace(entry_end[-1])) {\n		entry_end--;\n	}"))
m("P01",1,(CL,"			data_start = &buffer[entry_length];","			data_start = &buffer[entry_length];\n			if (bytes_read < 2) {\n				break;\n			}"))
m("P02",1,(SF,"		buffer_position += (size_t)bytes_read;","		buffer_position = (size_t)bytes_read;"))
# A01 A02 A04
m("A01",1,(API,"const struct cpuinfo_core* CPUINFO_ABI cpuinfo_get_current_core(void) {\n	if CPUINFO_UNLIKELY (!cpuinfo_is_initialized) {","const struct cpuinfo_core* CPUINFO_ABI cpuinfo_get_current_core(void) {\n	if CPUINFO_UNLIKELY (!cpuinfo_is_initialized && cpuinfo_cores_count == 0) {"))
