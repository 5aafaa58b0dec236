import re
X = "src/x86/linux/init.c"
A = "src/arm/linux/init.c"


def sub(f, pat, rep, n=0, flags=re.S):
    def go(d):
        s = open(d + "/" + f).read()
        t, k = re.subn(pat, rep, s, n, flags)
        assert k, (f, pat)
        open(d + "/" + f, "w").write(t)
    return go


# ---- x86 initialization
CACHE = r'''			if \(x86_processor\.cache\.(l\w+)\.size != 0\) \{
				const uint32_t l\w+_id = .*?(?=\n\t\t\t\} else \{)'''
R("x86-cache-helper",
  sub(X, CACHE, r'''			if (x86_processor.cache.\1.size != 0) {
				processors[i].cache.\1 = add_to_cache(&x86_processor.cache.\1, \1, &\1_index, &last_\1_id, apic_id, processor_index);'''),
  (X, "void cpuinfo_x86_linux_init(void) {", '''static struct cpuinfo_cache* add_to_cache(
	const struct cpuinfo_x86_cache* detected,
	struct cpuinfo_cache* list,
	uint32_t* index,
	uint32_t* last_id,
	uint32_t apic_id,
	uint32_t processor_index) {
	const uint32_t id = apic_id & ~bit_mask(detected->apic_bits);
	if (id == *last_id) {
		list[*index].processor_count += 1;
		return &list[*index];
	}
	*last_id = id;
	*index += 1;
	struct cpuinfo_cache* cache = &list[*index];
	cache->size = detected->size;
	cache->associativity = detected->associativity;
	cache->sets = detected->sets;
	cache->partitions = detected->partitions;
	cache->line_size = detected->line_size;
	cache->flags = detected->flags;
	cache->processor_start = processor_index;
	cache->processor_count = 1;
	return cache;
}

void cpuinfo_x86_linux_init(void) {'''))
R("x86-count-helper",
  sub(X, r'''const uint32_t (l\w+)_id = apic_id & ~bit_mask\(processor->cache\.\w+\.apic_bits\);
				if \(\w+ != last_\w+\) \{
					last_\w+ = \w+;
					\w+\+\+;
				\}''', r'''count_new(apic_id & ~bit_mask(processor->cache.\1.apic_bits), &last_\1_id, &\1_count);'''),
  sub(X, r'''const uint32_t (core|cluster|package)_id = apic_id & \w+_apic_mask;
			if \(\w+ != last_\w+\) \{
				last_\w+ = \w+;
				\w+\+\+;
			\}''', r'''count_new(apic_id & \1_apic_mask, &last_\1_id, &\1s_count);'''),
  (X, "static void cpuinfo_x86_count_objects(", '''static void count_new(uint32_t id, uint32_t* last, uint32_t* count) {
	if (id != *last) {
		*last = id;
		(*count)++;
	}
}

static void cpuinfo_x86_count_objects('''))
R("x86-sorted-prefix",
  (X, '''	for (uint32_t i = 0; i < x86_linux_processors_count; i++) {
		if (bitmask_all(x86_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {
			const uint32_t apic_id = x86_linux_processors[i].apic_id;
			processor_index++;''', '''	for (uint32_t i = 0; i < processors_count; i++) {
		{
			const uint32_t apic_id = x86_linux_processors[i].apic_id;
			processor_index = i;'''))
R("x86-early-continue",
  (X, '''		if (bitmask_all(x86_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {
			const uint32_t apic_id = x86_linux_processors[i].apic_id;
			processor_index++;''', '''		if (!bitmask_all(x86_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {
			continue;
		}
		{
			const uint32_t apic_id = x86_linux_processors[i].apic_id;
			processor_index++;'''))
R("x86-while",
  (X, '''	for (uint32_t i = 0; i < linux_processors_count; i++) {
		if (bitmask_all(linux_processors[i].flags, valid_processor_mask)) {
			const uint32_t apic_id = linux_processors[i].apic_id;''', '''	const struct cpuinfo_x86_linux_processor* current = linux_processors;
	const struct cpuinfo_x86_linux_processor* const last = linux_processors + linux_processors_count;
	for (; current != last; current++) {
		if (bitmask_all(current->flags, valid_processor_mask)) {
			const uint32_t apic_id = current->apic_id;'''),
  (X, '''				linux_processors[i].linux_id);

			/* All''', '''				current->linux_id);

			/* All'''))
R("x86-two-loops",
  (X, '''			if (x86_processor.cache.l1i.size != 0) {
				const uint32_t l1i_id = apic_id & ~bit_mask(x86_processor''', '''		}
	}

	processor_index = UINT32_MAX;
	for (uint32_t i = 0; i < x86_linux_processors_count; i++) {
		if (bitmask_all(x86_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {
			const uint32_t apic_id = x86_linux_processors[i].apic_id;
			processor_index++;

			if (x86_processor.cache.l1i.size != 0) {
				const uint32_t l1i_id = apic_id & ~bit_mask(x86_processor'''))
R("x86-new-flags",
  (X, "			if (apid_core_id != last_apic_core_id) {\n				core_index++;", "			const bool new_core = apid_core_id != last_apic_core_id;\n			if (new_core) {\n				core_index++;"),
  (X, "			if (apid_core_id != last_apic_core_id) {\n				/* new core */", "			if (new_core) {\n				/* new core */"),
  (X, "			if (apic_cluster_id != last_apic_cluster_id) {\n				cluster_index++;", "			const bool new_cluster = apic_cluster_id != last_apic_cluster_id;\n			if (new_cluster) {\n				cluster_index++;"),
  (X, "			if (apic_cluster_id != last_apic_cluster_id) {\n				/* new", "			if (new_cluster) {\n				/* new"),
  (X, "			if (apic_package_id != last_apic_package_id) {\n				package_index++;", "			const bool new_package = apic_package_id != last_apic_package_id;\n			if (new_package) {\n				package_index++;"),
  (X, "			if (apic_package_id != last_apic_package_id) {\n				/* new", "			if (new_package) {\n				/* new"),
  (X, "				last_apic_core_id = apid_core_id;\n", ""), (X, "				last_apic_cluster_id = apic_cluster_id;\n", ""), (X, "				last_apic_package_id = apic_package_id;\n", ""),
  (X, "			linux_cpu_to_processor_map[x86_linux_processors[i].linux_id] =", "			last_apic_core_id = apid_core_id;\n			last_apic_cluster_id = apic_cluster_id;\n			last_apic_package_id = apic_package_id;\n			linux_cpu_to_processor_map[x86_linux_processors[i].linux_id] ="))
R("x86-pointers",
  (X, "			/* Initialize logical processor object */", "			struct cpuinfo_processor* const proc = processors + processor_index;\n			struct cpuinfo_core* const core = cores + core_index;\n			struct cpuinfo_cluster* const cluster = clusters + cluster_index;\n			struct cpuinfo_package* const package = packages + package_index;"),
  sub(X, r"processors\[processor_index\]\.", "proc->"), sub(X, r"cores\[core_index\]\.", "core->"), sub(X, r"cores\[core_index\] =", "*core ="),
  sub(X, r"clusters\[cluster_index\]\.", "cluster->"), sub(X, r"packages\[package_index\]\.", "package->"),
  sub(X, r"= cores \+ core_index;\n\t\t\tproc", "= core;\n\t\t\tproc"), sub(X, r"processors\[i\]\.cache", "proc->cache"))
R("x86-context",
  sub(X, r"(?s)(void cpuinfo_x86_linux_init\(void\) \{\n)(.*)\ncleanup:\n.*\Z", lambda m: '''struct context {
	struct cpuinfo_x86_linux_processor* x86_linux_processors;
	struct cpuinfo_processor* processors;
	struct cpuinfo_core* cores;
	struct cpuinfo_cluster* clusters;
	struct cpuinfo_package* packages;
	const struct cpuinfo_processor** linux_cpu_to_processor_map;
	const struct cpuinfo_core** linux_cpu_to_core_map;
	struct cpuinfo_cache* level[5];
};

static void release(struct context* c) {
	free(c->x86_linux_processors);
	free(c->processors);
	free(c->cores);
	free(c->clusters);
	free(c->packages);
	for (int k = 0; k < 5; k++) {
		free(c->level[k]);
	}
	free(c->linux_cpu_to_processor_map);
	free(c->linux_cpu_to_core_map);
}

''' + m.group(1) + m.group(2) + '''
cleanup:;
	struct context c = {
		.x86_linux_processors = x86_linux_processors, .processors = processors, .cores = cores, .clusters = clusters, .packages = packages,
		.linux_cpu_to_processor_map = linux_cpu_to_processor_map, .linux_cpu_to_core_map = linux_cpu_to_core_map, .level = {l1i, l1d, l2, l3, l4}};
	release(&c);
}
'''))
R("x86-llc-helper",
  sub(X, r"	uint32_t llc_apic_bits = 0;\n.*?\n	uint32_t packages_count = 0", "	const uint32_t llc_apic_bits = last_level_bits(&x86_processor);\n	uint32_t packages_count = 0"),
  (X, "void cpuinfo_x86_linux_init(void) {", '''static uint32_t last_level_bits(const struct cpuinfo_x86_processor* p) {
	const struct cpuinfo_x86_cache* const levels[] = {&p->cache.l4, &p->cache.l3, &p->cache.l2, &p->cache.l1d};
	for (size_t k = 0; k < 4; k++) {
		if (levels[k]->size != 0) {
			return levels[k]->apic_bits;
		}
	}
	return 0;
}

void cpuinfo_x86_linux_init(void) {'''))
R("x86-publish-helper",
  sub(X, r"	/\* Commit changes \*/\n.*?(?=	cpuinfo_processors_count = )", "	publish_lists(processors, cores, clusters, packages, l1i, l1d, l2, l3, l4);\n\n"),
  (X, "void cpuinfo_x86_linux_init(void) {", '''static void publish_lists(
	struct cpuinfo_processor* processors, struct cpuinfo_core* cores, struct cpuinfo_cluster* clusters, struct cpuinfo_package* packages,
	struct cpuinfo_cache* l1i, struct cpuinfo_cache* l1d, struct cpuinfo_cache* l2, struct cpuinfo_cache* l3, struct cpuinfo_cache* l4) {
	struct cpuinfo_cache* const levels[cpuinfo_cache_level_max] = {l1i, l1d, l2, l3, l4};
	for (int k = 0; k < cpuinfo_cache_level_max; k++) {
		cpuinfo_cache[k] = levels[k];
	}
	cpuinfo_packages = packages;
	cpuinfo_clusters = clusters;
	cpuinfo_cores = cores;
	cpuinfo_processors = processors;
}

void cpuinfo_x86_linux_init(void) {'''))
R("x86-alloc-helper",
  sub(X, r"(\w+) = calloc\((\w+), sizeof\((struct \w+\*?)\)\);\n(\t+)if \(\w+ == NULL\) \{\n\t+cpuinfo_log_error\(.*?\);\n(.*?)\n\t+\}", r'''\1 = allocate(\2, sizeof(\3), "\1");\n\4if (\1 == NULL) {\n\5\n\4}'''),
  (X, "void cpuinfo_x86_linux_init(void) {", '''static void* allocate(uint32_t count, size_t size, const char* what) {
	void* block = calloc(count, size);
	if (block == NULL) {
		cpuinfo_log_error("failed to allocate %zu bytes for %s", count * size, what);
	}
	return block;
}

void cpuinfo_x86_linux_init(void) {'''))
R("x86-valid-merge",
  sub(X, r"	for \(uint32_t i = 0; i < x86_linux_processors_count; i\+\+\) \{\n\t\tif \(bitmask_all\(x86_linux_processors\[i\]\.flags, valid_processor_mask\)\) \{\n.*?\n\t\}\n\n", "", 1),
  (X, '''		if (bitmask_all(x86_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {
			x86_linux_processors[i].linux_id = i;''', '''		if (bitmask_all(x86_linux_processors[i].flags, valid_processor_mask)) {
			x86_linux_processors[i].flags |= CPUINFO_LINUX_FLAG_VALID;
			x86_linux_processors[i].linux_id = i;'''))
R("x86-malloc-memset",
  (X, "	cores = calloc(cores_count, sizeof(struct cpuinfo_core));", "	cores = malloc(cores_count * sizeof(struct cpuinfo_core));\n	if (cores != NULL) {\n		memset(cores, 0, cores_count * sizeof(struct cpuinfo_core));\n	}"))

# ---- ARM initialization
VALIDIF = "if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {"


def each(f, fn):
    def go(d):
        s = open(d + "/" + f).read()
        t = fn(s)
        assert t != s, f
        open(d + "/" + f, "w").write(t)
    return go


R("arm-leader-helper",
  sub(A, r"arm_linux_processors\[i\]\.package_leader_id ==\s+arm_linux_processors\[i\]\.system_processor_id", "is_leader(arm_linux_processors, i)"),
  (A, "void cpuinfo_arm_linux_init(void) {", '''static inline bool is_leader(const struct cpuinfo_arm_linux_processor* list, uint32_t index) {
	return list[index].system_processor_id == list[index].package_leader_id;
}

void cpuinfo_arm_linux_init(void) {'''))

R("arm-valid-helper",
  sub(A, r"bitmask_all\(arm_linux_processors\[i\]\.flags, CPUINFO_LINUX_FLAG_VALID\)", "is_valid(&arm_linux_processors[i])"),
  (A, "void cpuinfo_arm_linux_init(void) {", '''static bool is_valid(const struct cpuinfo_arm_linux_processor* p) {
	return (p->flags & CPUINFO_LINUX_FLAG_VALID) != 0;
}

void cpuinfo_arm_linux_init(void) {'''))

R("arm-alloc-helper",
  sub(A, r"\b((?!arm_linux_processors\b)\w+) = calloc\((valid_processors|cluster_count|uarchs_count|l2_count|l3_count|arm_linux_processors_count), (sizeof\([^;]*?\))\);\n(\t+)if \(\w+ == NULL\) \{\n\t+cpuinfo_log_error\(.*?\n\t+\"failed to allocate %zu bytes for ([^\"]*)\" PRIu32 \"([^\"]*)\"(?:(?!return;).)*?goto cleanup;",
      r'''\1 = allocate_list(\2, \3, "\6");
\4if (\1 == NULL) {
\4	goto cleanup;'''),
  (A, "void cpuinfo_arm_linux_init(void) {", '''static void* allocate_list(uint32_t count, size_t size, const char* what) {
	void* list = calloc(count, size);
	if (list == NULL) {
		cpuinfo_log_error("failed to allocate %zu bytes for %" PRIu32 "%s", count * size, count, what);
	}
	return list;
}

void cpuinfo_arm_linux_init(void) {'''))

R("arm-fill-helper",
  (A, "		processors[i].smt_id = 0;\n", "		fill_core(&cores[i], &arm_linux_processors[i], i, clusters + cluster_id);\n		processors[i].smt_id = 0;\n"),
  sub(A, r"\t\tcores\[i\]\.processor_start = i;.*?cores\[i\]\.midr = [^;]*;\n", ""),
  (A, "void cpuinfo_arm_linux_init(void) {", '''static void fill_core(
	struct cpuinfo_core* core,
	const struct cpuinfo_arm_linux_processor* processor,
	uint32_t index,
	const struct cpuinfo_cluster* cluster) {
	core->midr = processor->midr;
	core->uarch = processor->uarch;
	core->vendor = processor->vendor;
	core->package = &package;
	core->cluster = cluster;
	core->core_id = index;
	core->processor_count = 1;
	core->processor_start = index;
}

void cpuinfo_arm_linux_init(void) {'''))

R("arm-fill-literal",
  sub(A, r"\t\tcores\[i\]\.processor_start = i;.*?cores\[i\]\.midr = [^;]*;\n", '''		cores[i] = (struct cpuinfo_core){
			.processor_start = i,
			.processor_count = 1,
			.core_id = i,
			.cluster = clusters + cluster_id,
			.package = &package,
			.vendor = arm_linux_processors[i].vendor,
			.uarch = arm_linux_processors[i].uarch,
			.midr = arm_linux_processors[i].midr,
		};
'''),
  sub(A, r"\t\tprocessors\[i\]\.smt_id = 0;.*?processors\[i\]\.cache\.l1d = l1d \+ i;\n", '''		processors[i] = (struct cpuinfo_processor){
			.core = &cores[i],
			.cluster = &clusters[cluster_id],
			.package = &package,
			.linux_id = (int)arm_linux_processors[i].system_processor_id,
			.cache = {.l1i = &l1i[i], .l1d = &l1d[i]},
		};
'''))

R("arm-element-pointer",
  each(A, lambda s: s[:s.index("	uint32_t l2_count = 0, l3_count")] +
       s[s.index("	uint32_t l2_count = 0, l3_count"):]
       .replace("	for (uint32_t i = 0; i < valid_processors; i++) {\n",
                "	for (uint32_t i = 0; i < valid_processors; i++) {\n		const struct cpuinfo_arm_linux_processor* p = &arm_linux_processors[i];\n")
       .replace("arm_linux_processors[i].", "p->")))

R("arm-three-loops",
  (A, "		struct cpuinfo_cache temp_l2 = {0}, temp_l3 = {0};\n		cpuinfo_arm_decode_cache(\n			arm_linux_processors[i].uarch,",
      '''	}

	cluster_id = UINT32_MAX;
	for (uint32_t i = 0; i < valid_processors; i++) {
		if (arm_linux_processors[i].package_leader_id == arm_linux_processors[i].system_processor_id) {
			cluster_id += 1;
		}

		struct cpuinfo_cache temp_l2 = {0}, temp_l3 = {0};
		cpuinfo_arm_decode_cache(
			arm_linux_processors[i].uarch,'''))

R("arm-count-minus-one",
  sub(A, r"cluster_id = UINT32_MAX;\n\t/\* Indication", r"clusters_seen = 0, cluster_id = 0;\n\t/* Indication"),
  (A, '''			cluster_id += 1;
			clusters[cluster_id] =''', '''			cluster_id = clusters_seen++;
			clusters[cluster_id] ='''),
  ("src/arm/linux/init.c", '''	cluster_id = UINT32_MAX;
	uint32_t l2_index''', '''	clusters_seen = 0;
	uint32_t l2_index'''),
  (A, "			cluster_id++;\n", "			cluster_id = clusters_seen++;\n"))

R("arm-loop-merge",
  # the marking loop joins the counting loop
  sub(A, r"\tfor \(uint32_t i = 0; i < arm_linux_processors_count; i\+\+\) \{\n\t\tif \(bitmask_all\(arm_linux_processors\[i\]\.flags, valid_processor_mask\)\) \{.*?\n\t\}\n\n", "", 1),
  (A, "		arm_linux_processors[i].system_processor_id = i;\n		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {",
      "		arm_linux_processors[i].system_processor_id = i;\n		if (bitmask_all(arm_linux_processors[i].flags, valid_processor_mask)) {\n			arm_linux_processors[i].flags |= CPUINFO_LINUX_FLAG_VALID;"))

R("arm-loop-merge-2",
  # the initialization of the groups joins the frequency loop; logging loops removed
  sub(A, r"\t/\* Initialize topology group IDs \*/\n.*?\n\t\}\n", "", 1),
  (A, "		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {\n			const uint32_t max_frequency",
      "		arm_linux_processors[i].package_leader_id = i;\n		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {\n			const uint32_t max_frequency"))

R("arm-continue",
  sub(A, r"(for \(uint32_t i = 0; i < arm_linux_processors_count; i\+\+\) \{\n)\t\tif \(bitmask_all\(arm_linux_processors\[i\]\.flags, CPUINFO_LINUX_FLAG_VALID\)\) \{\n(.*?)\n\t\t\}\n\t\}\n",
      r"\1\t\tif (!bitmask_all(arm_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {\n\t\t\tcontinue;\n\t\t}\n\2\n\t}\n"))

R("arm-while",
  sub(A, r"\tfor \(uint32_t i = 0; i < valid_processors; i\+\+\) \{\n(.*?)\n\t\}\n\n", r"\t{\n\tuint32_t i = 0;\n\twhile (i < valid_processors) {\n\1\n\t\ti++;\n\t}\n\t}\n\n"))

R("arm-uarch-one-loop",
  # the index of the microarchitecture is that of the filled list
  (A, "			arm_linux_processors[i].uarch_index = uarchs_count - 1;\n", ""),
  (A, "			uarchs[uarchs_index - 1].processor_count += 1;", "			arm_linux_processors[i].uarch_index = uarchs_index - 1;\n			uarchs[uarchs_index - 1].processor_count += 1;"))

R("arm-publish-helper",
  sub(A, r"\tcpuinfo_processors_count = valid_processors;\n.*?cpuinfo_cache_count\[cpuinfo_cache_level_3\] = l3_count;\n",
      "	publish_counts(valid_processors, cluster_count, uarchs_count, l2_count, l3_count);\n"),
  (A, "void cpuinfo_arm_linux_init(void) {", '''static void publish_counts(uint32_t n, uint32_t nclusters, uint32_t nuarchs, uint32_t l2_count, uint32_t l3_count) {
	cpuinfo_uarchs_count = nuarchs;
	cpuinfo_packages_count = 1;
	cpuinfo_clusters_count = nclusters;
	cpuinfo_processors_count = cpuinfo_cores_count = n;
	const uint32_t counts[cpuinfo_cache_level_max] = {n, n, l2_count, l3_count, 0};
	for (int level = 0; level < cpuinfo_cache_level_max; level++) {
		cpuinfo_cache_count[level] = counts[level];
	}
}

void cpuinfo_arm_linux_init(void) {'''))

R("arm-comparator",
  each(A, lambda s: s.replace("	const uint32_t id_a = processor_a->system_processor_id;\n	const uint32_t id_b = processor_b->system_processor_id;\n	return cmp(id_a, id_b);",
                              "	return (processor_a->system_processor_id > processor_b->system_processor_id) -\n		(processor_a->system_processor_id < processor_b->system_processor_id);")
       .replace("		return cluster_a > cluster_b ? -1 : 1;", "		return cluster_a < cluster_b ? 1 : -1;")))

R("arm-l2-helper",
  sub(A, r"l2\[l2_index\] = \(struct cpuinfo_cache\)\{\n\t+\.size = temp_l2\.size,.*?\.processor_start = i,\n\t+\.processor_count = (.*?),\n\t+\};", r"l2[l2_index] = sized_cache(&temp_l2, i, \1);"),
  sub(A, r"l3\[l3_index\] = \(struct cpuinfo_cache\)\{\n\t+\.size = temp_l3\.size,.*?\.processor_start = i,\n\t+\.processor_count = (.*?),\n\t+\};", r"l3[l3_index] = sized_cache(&temp_l3, i, \1);"),
  (A, "void cpuinfo_arm_linux_init(void) {", '''static struct cpuinfo_cache sized_cache(const struct cpuinfo_cache* from, uint32_t start, uint32_t count) {
	struct cpuinfo_cache cache = *from;
	cache.partitions = 1;
	cache.processor_start = start;
	cache.processor_count = count;
	return cache;
}

void cpuinfo_arm_linux_init(void) {'''))

R("arm-l3-early",
  # the two branches of the counting loop in the other order
  (A, '''		if (temp_l3.size != 0) {
			/*
			 * Assumptions:
			 * - L2 is private to each core
			 * - L3 is shared by cores in the same cluster
			 * - If cores in different clusters report the same L3,
			 * it is shared between all cores.
			 */
			l2_count += 1;''', '''		const bool leader = arm_linux_processors[i].package_leader_id == arm_linux_processors[i].system_processor_id;
		if (temp_l3.size == 0) {
			shared_l3 = false;
			if (leader && temp_l2.size != 0) {
				l2_count += 1;
			}
			continue;
		}
		{
			l2_count += 1;'''),
  sub(A, r"\t\t\} else \{\n\t\t\t/\* If some cores don't have L3 cache, L3 is not shared\n.*?\n\t\t\t\}\n\t\t\}\n", "\t\t}\n"),
  )

R("arm-swap-order",
  # independent statements in another order: tables allocated in the reverse order, detection of present before possible
  each(A, lambda s: s.replace(s[s.index("	if (max_possible_processors_count) {"):s.index("#if defined(__ANDROID__)\n	struct cpuinfo_android_properties android")], '''	if (max_present_processors_count != 0) {
		cpuinfo_linux_detect_present_processors(
			arm_linux_processors_count,
			&arm_linux_processors->flags,
			sizeof(struct cpuinfo_arm_linux_processor),
			CPUINFO_LINUX_FLAG_PRESENT);
	}
	if (max_possible_processors_count != 0) {
		cpuinfo_linux_detect_possible_processors(
			arm_linux_processors_count,
			&arm_linux_processors[0].flags,
			sizeof(arm_linux_processors[0]),
			CPUINFO_LINUX_FLAG_POSSIBLE);
	}

''')),
  sub(A, r"(\tl1i = calloc\(valid_processors.*?\n\t\}\n\n)(\tl1d = calloc\(valid_processors.*?\n\t\}\n\n)", r"\2\1"),
  sub(A, r"\tfree\(l1i\);\n\tfree\(l1d\);\n\tfree\(l2\);\n\tfree\(l3\);\n", "	struct cpuinfo_cache* const lists[] = {l3, l2, l1d, l1i};\n	for (size_t k = 0; k < 4; k++) {\n		free(lists[k]);\n	}\n"))

R("arm-split-init",
  # the analysis of the processors moved to a function of its own
  sub(A, r"\t/\* Detect min/max frequency and package ID \*/\n(\tfor .*?\n\t\}\n)\n", r"\tdetect_frequencies(arm_linux_processors_count, arm_linux_processors);\n\n", 1),
  (A, "void cpuinfo_arm_linux_init(void) {", '''static void detect_frequencies(uint32_t count, struct cpuinfo_arm_linux_processor* list) {
	for (uint32_t i = 0; i < count; i++) {
		struct cpuinfo_arm_linux_processor* p = list + i;
		if ((p->flags & CPUINFO_LINUX_FLAG_VALID) == 0) {
			continue;
		}
		if (cpuinfo_linux_get_processor_package_id(i, &p->package_id)) {
			p->flags |= CPUINFO_LINUX_FLAG_PACKAGE_ID;
		}
		const uint32_t max_frequency = cpuinfo_linux_get_processor_max_frequency(i);
		if (max_frequency != 0) {
			p->flags |= CPUINFO_LINUX_FLAG_MAX_FREQUENCY;
			p->max_frequency = max_frequency;
		}
		const uint32_t min_frequency = cpuinfo_linux_get_processor_min_frequency(i);
		if (min_frequency != 0) {
			p->flags |= CPUINFO_LINUX_FLAG_MIN_FREQUENCY;
			p->min_frequency = min_frequency;
		}
	}
}

void cpuinfo_arm_linux_init(void) {'''))

R("arm-copy-helper",
  sub(A, r"\t\t\t\tarm_linux_processors\[i\]\.flags \|= arm_linux_processors\[cluster_leader\]\.flags &.*?max_frequency;\n", "				copy_from_leader(&arm_linux_processors[i], &arm_linux_processors[cluster_leader]);\n", 1),
  (A, "void cpuinfo_arm_linux_init(void) {", '''static void copy_from_leader(
	struct cpuinfo_arm_linux_processor* processor,
	const struct cpuinfo_arm_linux_processor* leader) {
	processor->max_frequency = leader->max_frequency;
	processor->uarch = leader->uarch;
	processor->vendor = leader->vendor;
	processor->midr = leader->midr;
	processor->flags |= leader->flags & (CPUINFO_LINUX_FLAG_MAX_FREQUENCY | CPUINFO_ARM_LINUX_VALID_MIDR);
}

void cpuinfo_arm_linux_init(void) {'''))

# ---- API
AP = "src/api.c"
R("api-check-helper",
  sub(AP, r"\tif(?: CPUINFO_UNLIKELY)? \(!cpuinfo_is_initialized\) \{\n\t\tcpuinfo_log_fatal\(\s*\"cpuinfo_get_%s called before cpuinfo is initialized\", (\"\w+\")\);\n\t\}\n", r"\trequire_initialized(\1);\n"),
  (AP, "bool cpuinfo_is_initialized = false;\n", '''bool cpuinfo_is_initialized = false;

static inline void require_initialized(const char* what) {
	if CPUINFO_UNLIKELY (!cpuinfo_is_initialized) {
		cpuinfo_log_fatal("cpuinfo_get_%s called before cpuinfo is initialized", what);
	}
}
'''))
R("api-ternary",
  sub(AP, r"\tif CPUINFO_UNLIKELY \(index >= (cpuinfo_\w+)\) \{\n\t\treturn NULL;\n\t\}\n\treturn &(\w+)\[index\];", r"\treturn index < \1 ? \2 + index : NULL;"))
R("api-current-cpu-helper",
  sub(AP, r"\tunsigned cpu = 0;\n\tif CPUINFO_UNLIKELY \(syscall\(__NR_getcpu, &cpu, NULL, NULL\) != 0\) \{\n\t\treturn (\w+);\n\t\}\n\tif CPUINFO_UNLIKELY \(\(uint32_t\)cpu >= cpuinfo_linux_cpu_max\) \{\n\t\treturn \w+;\n\t\}\n",
      r"\tconst uint32_t cpu = current_cpu();\n\tif (cpu >= cpuinfo_linux_cpu_max) {\n\t\treturn \1;\n\t}\n"),
  (AP, "const struct cpuinfo_processor* cpuinfo_get_processors(void) {", '''#ifdef __linux__
static uint32_t current_cpu(void) {
	unsigned cpu = 0;
	if (syscall(__NR_getcpu, &cpu, NULL, NULL) == 0) {
		return (uint32_t)cpu;
	}
	return UINT32_MAX;
}
#endif

const struct cpuinfo_processor* cpuinfo_get_processors(void) {'''))
R("api-current-nested",
  sub(AP, r"\tif CPUINFO_UNLIKELY \(syscall\(__NR_getcpu, &cpu, NULL, NULL\) != 0\) \{\n\t\treturn (\w+);\n\t\}\n\tif CPUINFO_UNLIKELY \(\(uint32_t\)cpu >= cpuinfo_linux_cpu_max\) \{\n\t\treturn \w+;\n\t\}\n\treturn (\w+)\[cpu\];",
      r"\tif (syscall(__NR_getcpu, &cpu, NULL, NULL) == 0 && cpu < cpuinfo_linux_cpu_max) {\n\t\treturn \2[cpu];\n\t}\n\treturn \1;"))
R("api-default-delegates",
  each(AP, lambda s: s[:s.index("uint32_t CPUINFO_ABI cpuinfo_get_current_uarch_index(void) {")] +
       s[s.index("uint32_t CPUINFO_ABI cpuinfo_get_current_uarch_index_with_default("):] + '''
uint32_t CPUINFO_ABI cpuinfo_get_current_uarch_index(void) {
	if CPUINFO_UNLIKELY (!cpuinfo_is_initialized) {
		cpuinfo_log_fatal("cpuinfo_get_%s called before cpuinfo is initialized", "current_uarch_index");
	}
	return cpuinfo_get_current_uarch_index_with_default(0);
}
'''))
R("api-cache-helper",
  sub(AP, r"return cpuinfo_cache\[(\w+)\];", r"return caches_of_level(\1);"),
  sub(AP, r"\tif CPUINFO_UNLIKELY \(index >= cpuinfo_cache_count\[(\w+)\]\) \{\n\t\treturn NULL;\n\t\}\n\treturn &cpuinfo_cache\[\w+\]\[index\];", r"\treturn cache_of_level(\1, index);"),
  (AP, "const struct cpuinfo_processor* cpuinfo_get_processors(void) {", '''static const struct cpuinfo_cache* caches_of_level(enum cpuinfo_cache_level level) {
	return cpuinfo_cache[level];
}

static const struct cpuinfo_cache* cache_of_level(enum cpuinfo_cache_level level, uint32_t index) {
	const struct cpuinfo_cache* list = caches_of_level(level);
	return index < cpuinfo_cache_count[level] ? &list[index] : NULL;
}

const struct cpuinfo_processor* cpuinfo_get_processors(void) {'''))

IN = "src/init.c"
R("init-wrapper",
  sub(IN, r"pthread_once\(&init_guard, &(\w+)\);", r"run_once(\1);"),
  (IN, "bool CPUINFO_ABI cpuinfo_initialize(void) {", '''static void run_once(void (*routine)(void)) {
	(void)pthread_once(&init_guard, routine);
}

bool CPUINFO_ABI cpuinfo_initialize(void) {'''))
R("init-status",
  (IN, "	return cpuinfo_is_initialized;\n}", "	const bool status = cpuinfo_is_initialized;\n	if (!status) {\n		return false;\n	}\n	return true;\n}"))

# ---- x86 decoding
XI = "src/x86/isa.c"
R("isa-bit-helper",
  sub(XI, r"!!\((\w+)\.(e[abcd]x) & UINT32_C\((0x[0-9A-Fa-f]+)\)\)", r"has_any(\1.\2, UINT32_C(\3))"),
  (XI, "struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(", '''static inline bool has_any(uint32_t value, uint32_t mask) {
	return (value & mask) != 0;
}

struct cpuinfo_x86_isa cpuinfo_x86_detect_isa('''))
R("isa-xcr0-helper",
  sub(XI, r"\t\tif \(\(xcr0_valid_bits & (\w+)\) == \w+\) \{\n\t\t\t(\w+) = \(xfeature_enabled_mask & \w+\) == \w+;\n\t\t\}", r"\t\t\2 = enabled(xcr0_valid_bits, xfeature_enabled_mask, \1);"),
  (XI, "struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(", '''static bool enabled(uint64_t valid, uint64_t active, uint64_t mask) {
	return (valid & active & mask) == mask;
}

struct cpuinfo_x86_isa cpuinfo_x86_detect_isa('''))
R("isa-shift",
  sub(XI, r"!!\(basic_info\.(e[abcd]x) & UINT32_C\((0x[0-9A-Fa-f]+)\)\)", lambda m: f"(basic_info.{m[1]} >> {int(m[2], 16).bit_length() - 1}) & 1" if bin(int(m[2], 16)).count("1") == 1 else m[0]))
R("isa-zero-regs",
  sub(XI, r"const struct cpuid_regs (\w+) =\s+\((max_base_index >= \w+)\) \? cpuidex\((\w+), (\d)\) : \(struct cpuid_regs\)\{0, 0, 0, 0\};",
      r"struct cpuid_regs \1 = {0};\n\tif (\2) {\n\t\t\1 = cpuidex(\3, \4);\n\t}"))
R("isa-if",
  sub(XI, r"(\tisa\.\w+) = !!\((\w+)\.(e[abcd]x) & UINT32_C\((0x[0-9A-Fa-f]+)\)\);", r"\tif ((\2.\3 & UINT32_C(\4)) != 0) {\n\t\1 = true;\n\t}"))

DT = "src/x86/cache/deterministic.c"
R("det-helper",
  sub(DT, r"\(struct cpuinfo_x86_cache\)\{\n\s+\.size = associativity \* partitions \* line_size \* sets,\n\s+\.associativity = associativity,\n\s+\.sets = sets,\n\s+\.partitions = partitions,\n\s+\.line_size = line_size,\n\s+\.flags = ([^,]*),\n\s+\.apic_bits = apic_bits\};",
      r"make_cache(associativity, sets, partitions, line_size, \1, apic_bits);"),
  (DT, "bool cpuinfo_x86_decode_deterministic_cache_parameters(", '''static struct cpuinfo_x86_cache make_cache(
	uint32_t ways,
	uint32_t sets,
	uint32_t partitions,
	uint32_t line_size,
	uint32_t flags,
	uint32_t apic_bits) {
	struct cpuinfo_x86_cache cache = {0};
	cache.line_size = line_size;
	cache.partitions = partitions;
	cache.sets = sets;
	cache.associativity = ways;
	cache.size = line_size * sets * ways * partitions;
	cache.apic_bits = apic_bits;
	cache.flags = flags;
	return cache;
}

bool cpuinfo_x86_decode_deterministic_cache_parameters('''))
R("det-fields-first",
  (DT, "	const uint32_t sets = 1 + regs.ecx;\n	const uint32_t line_size = 1 + (regs.ebx & UINT32_C(0x00000FFF));\n	const uint32_t partitions = 1 + ((regs.ebx >> 12) & UINT32_C(0x000003FF));\n	const uint32_t associativity = 1 + (regs.ebx >> 22);",
   "	const uint32_t associativity = ((regs.ebx & UINT32_C(0xFFC00000)) >> 22) + 1;\n	const uint32_t partitions = ((regs.ebx & UINT32_C(0x003FF000)) >> 12) + 1;\n	const uint32_t line_size = regs.ebx % 4096 + 1;\n	const uint32_t sets = regs.ecx + 1;"),
  (DT, "	uint32_t flags = 0;\n	if (regs.edx & UINT32_C(0x00000002)) {\n		flags |= CPUINFO_CACHE_INCLUSIVE;\n	}\n	if (regs.edx & UINT32_C(0x00000004)) {\n		flags |= CPUINFO_CACHE_COMPLEX_INDEXING;\n	}\n",
   "	uint32_t flags = (regs.edx & 4 ? CPUINFO_CACHE_COMPLEX_INDEXING : 0) | (regs.edx & 2 ? CPUINFO_CACHE_INCLUSIVE : 0);\n", 1))

VD = "src/x86/vendor.c"


def vendortable(d):
    s = open(d + "/" + VD).read()
    i = s.index("enum cpuinfo_vendor cpuinfo_x86_decode_vendor(")
    s = s[:i] + '''static const struct {
	uint32_t ebx, edx, ecx;
	enum cpuinfo_vendor vendor;
} vendors[] = {
	{Genu, ineI, ntel, cpuinfo_vendor_intel},
	{Auth, enti, cAMD, cpuinfo_vendor_amd},
	{Cent, aurH, auls, cpuinfo_vendor_via},
	{Hygo, nGen, uine, cpuinfo_vendor_hygon},
#if CPUINFO_ARCH_X86
	{Genu, ineT, Mx86, cpuinfo_vendor_transmeta},
	{Genu, ine, RDC, cpuinfo_vendor_rdc},
	{AMDi, sbet, ter, cpuinfo_vendor_amd},
	{AMD, ISBE, TTER, cpuinfo_vendor_amd},
	{VIA, VIA, VIA, cpuinfo_vendor_via},
	{Tran, smet, aCPU, cpuinfo_vendor_transmeta},
	{Cyri, xIns, tead, cpuinfo_vendor_cyrix},
	{Rise, Rise, Rise, cpuinfo_vendor_rise},
	{Geod, e_by, NSC, cpuinfo_vendor_nsc},
	{SiS, SiS, SiS, cpuinfo_vendor_sis},
	{NexG, enDr, iven, cpuinfo_vendor_nexgen},
	{UMC, UMC, UMC, cpuinfo_vendor_umc},
	{Vort, ex86, SoC, cpuinfo_vendor_dmp},
#endif
};

enum cpuinfo_vendor cpuinfo_x86_decode_vendor(uint32_t ebx, uint32_t ecx, uint32_t edx) {
	for (uint32_t i = 0; i < sizeof(vendors) / sizeof(vendors[0]); i++) {
		if (vendors[i].ebx == ebx && vendors[i].edx == edx && vendors[i].ecx == ecx) {
			return vendors[i].vendor;
		}
	}
	return cpuinfo_vendor_unknown;
}
'''
    open(d + "/" + VD, "w").write(s)


R("vendor-table", vendortable)
XC = "src/x86/cache/init.c"
R("cache-while",
  sub(XC, r"\t\tif \(iterations != 0\) \{\n\t\titerate_descriptors:\n", "\t\twhile (iterations != 0) {\n"),
  (XC, "			if (--iterations != 0) {\n				descriptors.regs = cpuid(2);\n				goto iterate_descriptors;\n			}\n", "			iterations--;\n			if (iterations != 0) {\n				descriptors.regs = cpuid(2);\n			}\n"))
R("cache-for-subleaf",
  sub(XC, r"\t\t\tstruct cpuid_regs leaf4;\n\t\t\tuint32_t input_ecx = 0;\n", ""),
  sub(XC, r"\t\t\tdo \{\n\t\t\t\tleaf4 = cpuidex\(4, input_ecx\+\+\);\n\t\t\t\} while \((.*?)\);\n",
      "\t\t\tfor (uint32_t subleaf = 0;; subleaf++) {\n\t\t\t\tif (!cpuinfo_x86_decode_deterministic_cache_parameters(\n\t\t\t\t\t    cpuidex(4, subleaf), cache, &package_cores_max)) {\n\t\t\t\t\tbreak;\n\t\t\t\t}\n\t\t\t}\n"))
R("topology-helpers",
  sub("src/x86/topology.c", r"\(leafB\.ecx >> 8\) & UINT32_C\(0x000000FF\)", "(uint8_t)(leafB.ecx >> 8)"),
  sub("src/x86/topology.c", r"\t\t\tconst uint32_t x2apic_id = leafB\.edx;\n\t\t\tapic_id = x2apic_id;\n", "\t\t\tapic_id = leafB.edx;\n"),
  sub("src/x86/topology.c", r"\t\t\t\tcase topology_type_invalid:\n\t\t\t\t\tbreak;\n", ""),
  sub("src/x86/topology.c", r"\t\t\t\tdefault:\n", "\t\t\t\tcase topology_type_invalid:\n\t\t\t\t\tbreak;\n\t\t\t\tdefault:\n"))
R("topology-for",
  each("src/x86/topology.c", lambda s: s.replace("		uint32_t level = 0;\n", "").replace("		do {\n", "		for (uint32_t level = 0;; level++) {\n")
       .replace("			level += 1;\n		} while (type != 0);\n", "			if (type == topology_type_invalid) {\n				break;\n			}\n		}\n")))
R("init-processor-regs",
  each("src/x86/init.c", lambda s: s.replace("	const struct cpuid_regs leaf0x80000001 = max_extended_index >= UINT32_C(0x80000001)\n		? cpuid(UINT32_C(0x80000001))\n		: (struct cpuid_regs){0, 0, 0, 0};\n",
       "	struct cpuid_regs leaf0x80000001 = {0};\n	if (max_extended_index > UINT32_C(0x80000000)) {\n		leaf0x80000001 = cpuid(UINT32_C(0x80000001));\n	}\n")
       .replace("max_base_index >= 1", "max_base_index != 0")))
R("model-info",
  each("src/x86/info.c", lambda s: s[:s.index("	struct cpuinfo_x86_model_info model_info;")] + '''	const uint32_t base_model = (eax >> 4) % 16, base_family = (eax >> 8) % 16;
	const uint32_t extended_model = (eax & UINT32_C(0x000F0000)) >> 16;
	const uint32_t extended_family = (uint8_t)(eax >> 20);
	return (struct cpuinfo_x86_model_info){
		.stepping = eax & 0xF,
		.base_model = base_model,
		.base_family = base_family,
		.processor_type = (eax >> 12) & 0x3,
		.extended_model = extended_model,
		.extended_family = extended_family,
		.family = base_family + extended_family,
		.model = extended_model * 16 + base_model,
	};
}
'''))

# ---- ARM decoding
A64 = "src/arm/linux/aarch64-isa.c"
R("a64-assign",
  sub(A64, r"\tif \((features2?) & (CPUINFO_\w+)\) \{\n\t\t(isa->\w+) = true;\n\t\}", r"\t\3 = (\1 & \2) != 0;"))
R("a64-helper",
  sub(A64, r"\tif \((features2?) & (CPUINFO_\w+)\) \{\n\t\t(isa->\w+) = true;\n\t\}", r"\tset_if(&\3, \1, \2);"),
  (A64, "void cpuinfo_arm64_linux_decode_isa_from_proc_cpuinfo(", '''static inline void set_if(bool* feature, uint64_t value, uint64_t mask) {
	if (value & mask) {
		*feature = true;
	}
}

void cpuinfo_arm64_linux_decode_isa_from_proc_cpuinfo('''))


def dotfn(d):
    p = d + "/" + A64
    s = open(p).read()
    i = s.index("	switch (midr & (CPUINFO_ARM_MIDR_IMPLEMENTER_MASK | CPUINFO_ARM_MIDR_PART_MASK)) {\n		case UINT32_C(0x4100D060)")
    j = s.index("	if (features & CPUINFO_ARM_LINUX_FEATURE_JSCVT) {")
    sw = s[i:j]
    body = sw.replace("			isa->dot = true;\n			break;\n		case UINT32_C(0x4100D050)", "			return true;\n		case UINT32_C(0x4100D050)")
    body = re.sub(r"isa->dot = !!\((.*?)\);\n\t\t\tbreak;", r"return \1;", body)
    body = re.sub(r"\t\t\tif \(features & CPUINFO_ARM_LINUX_FEATURE_ASIMDDP\) \{\n\t\t\t\tisa->dot = true;\n\t\t\t\}\n\t\t\tbreak;\n", "\t\t\treturn !!(features & CPUINFO_ARM_LINUX_FEATURE_ASIMDDP);\n", body)
    s = s[:i] + "	isa->dot = supports_dot(midr, features);\n" + s[j:]
    s = s.replace("void cpuinfo_arm64_linux_decode_isa_from_proc_cpuinfo(", "static bool supports_dot(uint32_t midr, uint32_t features) {\n" + body + "}\n\nvoid cpuinfo_arm64_linux_decode_isa_from_proc_cpuinfo(")
    open(p, "w").write(s)


R("a64-dot-fn", dotfn)
UA = "src/arm/uarch.c"


def uarchfn(d):
    p = d + "/" + UA
    s = open(p).read()
    i = s.index("			switch (midr_get_part(midr)) {\n#if CPUINFO_ARCH_ARM\n				case 0xC05:")
    j = s.index("		case 'B':")
    body = s[i:j]
    k = body.rindex("			break;\n")
    body = body[:k]
    s = s[:i] + "			decode_arm(midr, uarch);\n			break;\n" + s[j:]
    s = s.replace("void cpuinfo_arm_decode_vendor_uarch(", "static void decode_arm(uint32_t midr, enum cpuinfo_uarch* uarch) {\n" + body + "}\n\nvoid cpuinfo_arm_decode_vendor_uarch(", 1)
    open(p, "w").write(s)


R("uarch-fn", uarchfn)
R("uarch-part-var", sub(UA, r"switch \(midr_get_part\(midr\)\)", "switch (part)"), (UA, "	switch (midr_get_implementer(midr)) {", "	const uint32_t part = midr_get_part(midr);\n	switch ((midr >> 24) & 0xFF) {"))
AC = "src/arm/cache.c"
R("armcache-tail-helper",
  sub(AC, r"\tl1i->sets = l1i->size / \(l1i->associativity \* l1i->line_size\);", "\tset_geometry(l1i);"),
  sub(AC, r"\tl1i->partitions = 1;\n", ""),
  (AC, "void cpuinfo_arm_decode_cache(", '''static void set_geometry(struct cpuinfo_cache* cache) {
	cache->partitions = 1;
	cache->sets = cache->size / cache->associativity / cache->line_size;
}

void cpuinfo_arm_decode_cache('''))
R("armcache-if-order", sub(AC, r"return detected_cache_size > uarch_max_cache_size \? detected_cache_size : uarch_max_cache_size;",
  "if (detected_cache_size < uarch_max_cache_size) {\n\t\treturn uarch_max_cache_size;\n\t}\n\treturn detected_cache_size;"))

# ---- parsers
CL = "src/linux/cpulist.c"
R("cpulist-number-for",
  sub(CL, r"\tuint32_t number = 0;\n\twhile \(string != end\) \{.*?\n\t\}\n\t\*number_ptr = number;\n\treturn string;", '''	uint32_t number = 0;
	for (; string < end && *string >= '0' && *string <= '9'; string++) {
		number = 10 * number + (uint32_t)(*string - '0');
	}
	*number_ptr = number;
	return string;'''))
R("cpulist-whitespace",
  sub(CL, r"inline static bool is_whitespace\(char c\) \{.*?\n\}\n", r"inline static bool is_whitespace(char c) {\n\treturn c == ' ' || c == '\\t' || c == '\\n' || c == '\\r';\n}\n"),
  sub(CL, r"\tfor \(; entry_start != entry_end; entry_start\+\+\) \{\n\t\tif \(!is_whitespace\(\*entry_start\)\) \{\n\t\t\tbreak;\n\t\t\}\n\t\}", "\twhile (entry_start != entry_end && is_whitespace(*entry_start)) {\n\t\tentry_start++;\n\t}"),
  sub(CL, r"\tfor \(; entry_end != entry_start; entry_end--\) \{\n\t\tif \(!is_whitespace\(entry_end\[-1\]\)\) \{\n\t\t\tbreak;\n\t\t\}\n\t\}", "\twhile (entry_end != entry_start && is_whitespace(entry_end[-1])) {\n\t\tentry_end -= 1;\n\t}"))
R("cpulist-memchr",
  sub(CL, r"\t\t\t\tfor \(entry_end = entry_start; entry_end != data_end; entry_end\+\+\) \{\n\t\t\t\t\tif \(\*entry_end == ','\) \{\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t\}\n\t\t\t\t\}",
      "\t\t\t\tentry_end = memchr(entry_start, ',', (size_t)(data_end - entry_start));\n\t\t\t\tif (entry_end == NULL) {\n\t\t\t\t\tentry_end = data_end;\n\t\t\t\t}"))
R("cpulist-find-helper",
  sub(CL, r"\t\t\t\tfor \(entry_end = entry_start; entry_end != data_end; entry_end\+\+\) \{\n\t\t\t\t\tif \(\*entry_end == ','\) \{\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t\}\n\t\t\t\t\}",
      "\t\t\t\tentry_end = find_comma(entry_start, data_end);"),
  (CL, "inline static bool parse_entry(", '''static const char* find_comma(const char* begin, const char* end) {
	while (begin != end && *begin != ',') {
		begin++;
	}
	return begin;
}

inline static bool parse_entry('''))
R("cpulist-count-in-one",
  sub(CL, r"\t\} else if \(number_end == entry_end\) \{(.*?)\n\t\treturn callback\(first_cpu, first_cpu \+ 1, context\);\n\t\}", r"\t}\n\tif (number_end == entry_end) {\1\n\t\tlast_cpu = first_cpu;\n\t\treturn callback(first_cpu, last_cpu + 1, context);\n\t}"))
R("cpulist-cleanup-if",
  sub(CL, r"\t\tstatus = false;\n\t\tgoto cleanup;\n\t\}\n\n\tsize_t position", "\t\treturn false;\n\t}\n\n\tsize_t position"),
  sub(CL, r"cleanup:\n\tif \(file != -1\) \{\n(.*?)\n\t\tfile = -1;\n\t\}", r"cleanup:\n\1"))
R("cpulist-read-helper",
  sub(CL, r"#if CPUINFO_MOCK\n\t\tbytes_read = cpuinfo_mock_read\(file, data_start, \(size_t\)\(buffer_end - data_start\)\);\n#else\n\t\tbytes_read = read\(file, data_start, \(size_t\)\(buffer_end - data_start\)\);\n#endif\n",
      "\t\tbytes_read = read_some(file, data_start, buffer_end);\n"),
  (CL, "bool cpuinfo_linux_parse_cpulist(", '''static ssize_t read_some(int file, char* start, const char* end) {
	const size_t capacity = (size_t)(end - start);
#if CPUINFO_MOCK
	return cpuinfo_mock_read(file, start, capacity);
#else
	return read(file, start, capacity);
#endif
}

bool cpuinfo_linux_parse_cpulist('''))
R("cpulist-for-ever",
  sub(CL, r"\tdo \{\n#if CPUINFO_MOCK", "\tfor (;;) {\n#if CPUINFO_MOCK", 1),
  sub(CL, r"\t\t\tstatus &= entry_status;\n\t\t\} else \{", "\t\t\tstatus &= entry_status;\n\t\t\tbreak;\n\t\t} else {", 1),
  sub(CL, r"\t\} while \(bytes_read != 0\);", "\t}"))
SF = "src/linux/smallfile.c"
R("smallfile-open-helper",
  sub(SF, r"#if CPUINFO_MOCK\n\tfile = cpuinfo_mock_open\(filename, O_RDONLY\);\n#else\n\tfile = open\(filename, O_RDONLY\);\n#endif\n", "\tfile = open_file(filename);\n"),
  sub(SF, r"#if CPUINFO_MOCK\n\t\tcpuinfo_mock_close\(file\);\n#else\n\t\tclose\(file\);\n#endif\n", "\t\tclose_file(file);\n"),
  (SF, "bool cpuinfo_linux_parse_small_file(", '''static int open_file(const char* filename) {
#if CPUINFO_MOCK
	return cpuinfo_mock_open(filename, O_RDONLY);
#else
	return open(filename, O_RDONLY);
#endif
}

static void close_file(int file) {
#if CPUINFO_MOCK
	cpuinfo_mock_close(file);
#else
	close(file);
#endif
}

bool cpuinfo_linux_parse_small_file('''))
R("smallfile-while",
  sub(SF, r"\tdo \{\n#if", "\twhile (true) {\n#if"), sub(SF, r"\t\} while \(bytes_read != 0\);\n", "\t\tif (bytes_read == 0) {\n\t\t\tbreak;\n\t\t}\n\t}\n"))
R("smallfile-remaining",
  sub(SF, r"buffer_size - buffer_position\);", "remaining);"),
  (SF, "	do {\n#if CPUINFO_MOCK", "	do {\n		const size_t remaining = buffer_size - buffer_position;\n#if CPUINFO_MOCK"),
  (SF, "		if (buffer_position >= buffer_size) {", "		if ((size_t)bytes_read >= remaining) {"))
ML = "src/linux/multiline.c"
R("multiline-memchr",
  sub(ML, r"\t\t\t\tfor \(line_end = line_start; line_end != data_end; line_end\+\+\) \{\n\t\t\t\t\tif \(\*line_end == '\\n'\) \{\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t\}\n\t\t\t\t\}",
      r"\t\t\t\tline_end = memchr(line_start, '\\n', (size_t)(data_end - line_start));\n\t\t\t\tif (line_end == NULL) {\n\t\t\t\t\tline_end = data_end;\n\t\t\t\t}"))
R("multiline-while",
  sub(ML, r"\t\t\t\tfor \(line_end = line_start; line_end != data_end; line_end\+\+\) \{\n\t\t\t\t\tif \(\*line_end == '\\n'\) \{\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t\}\n\t\t\t\t\}",
      r"\t\t\t\tline_end = line_start;\n\t\t\t\twhile (line_end != data_end && *line_end != '\\n') {\n\t\t\t\t\tline_end += 1;\n\t\t\t\t}"))
PR = "src/linux/processors.c"
R("processors-freq-helper",
  sub(PR, r"\tuint32_t (cur|max|min)_frequency;\n\tif \(cpuinfo_linux_parse_small_file\((\w+), FREQUENCY_FILESIZE, uint32_parser, &\w+\)\) \{", r"\tuint32_t \1_frequency;\n\tif (parse_uint32(\2, FREQUENCY_FILESIZE, &\1_frequency)) {"),
  (PR, "uint32_t cpuinfo_linux_get_max_processors_count(void) {", '''static bool parse_uint32(const char* filename, size_t size, uint32_t* value) {
	return cpuinfo_linux_parse_small_file(filename, size, uint32_parser, value);
}

uint32_t cpuinfo_linux_get_max_processors_count(void) {'''))
R("processors-detect-min",
  sub(PR, r"\tfor \(uint32_t processor = processor_list_start; processor < processor_list_end; processor\+\+\) \{\n\t\tif \(processor >= max_processors_count\) \{\n\t\t\tbreak;\n\t\t\}\n",
      "\tif (processor_list_end > max_processors_count) {\n\t\tprocessor_list_end = max_processors_count;\n\t}\n\tfor (uint32_t processor = processor_list_start; processor < processor_list_end; processor++) {\n"))
R("processors-list-helper",
  sub(PR, r"(bool cpuinfo_linux_detect_(possible|present)_processors\([^{]*\{)\n\tstruct detect_processors_context context = \{.*?\n\t\};\n\tif \(cpuinfo_linux_parse_cpulist\((\w+), detect_processor_parser, &context\)\) \{",
      r"\1\n\tif (detect_processors(\3, max_processors_count, processor0_flags, processor_struct_size, \2_flag)) {"),
  (PR, "bool cpuinfo_linux_detect_possible_processors(", '''static bool detect_processors(const char* filename, uint32_t count, uint32_t* flags, uint32_t stride, uint32_t flag) {
	struct detect_processors_context context = {
		.detected_flag = flag,
		.processor_struct_size = stride,
		.processor0_flags = flags,
		.max_processors_count = count,
	};
	return cpuinfo_linux_parse_cpulist(filename, detect_processor_parser, &context);
}

bool cpuinfo_linux_detect_possible_processors('''))
R("processors-max-helper",
  sub(PR, r"\tconst uint32_t processor_list_last = processor_list_end - 1;\n\tif \(\*processor_number_ptr < processor_list_last\) \{\n\t\t\*processor_number_ptr = processor_list_last;\n\t\}", "\tconst uint32_t last = processor_list_end - 1;\n\tconst uint32_t current = *processor_number_ptr;\n\t*processor_number_ptr = last > current ? last : current;"))
for nm, f in (("arm", "src/arm/linux/cpuinfo.c"), ("x86", "src/x86/linux/cpuinfo.c")):
    R(nm + "-line-while",
      sub(f, r"\tfor \(; separator != line_end; separator\+\+\) \{\n\t\tif \(\*separator == ':'\) \{\n\t\t\tbreak;\n\t\t\}\n\t\}", "\twhile (separator != line_end && *separator != ':') {\n\t\tseparator++;\n\t}"),
      sub(f, r"\tfor \(; key_end != line_start; key_end--\) \{\n\t\tif \(key_end\[-1\] != ' ' && key_end\[-1\] != '\\t'\) \{\n\t\t\tbreak;\n\t\t\}\n\t\}", r"\twhile (key_end != line_start && (key_end[-1] == ' ' || key_end[-1] == '\\t')) {\n\t\tkey_end--;\n\t}"),
      sub(f, r"\tfor \(; value_end != value_start; value_end--\) \{\n\t\tif \(value_end\[-1\] != ' '\) \{\n\t\t\tbreak;\n\t\t\}\n\t\}", "\twhile (value_end != value_start && value_end[-1] == ' ') {\n\t\tvalue_end--;\n\t}"))
    R(nm + "-line-memchr",
      sub(f, r"\tconst char\* separator = line_start;\n\tfor \(; separator != line_end; separator\+\+\) \{\n\t\tif \(\*separator == ':'\) \{\n\t\t\tbreak;\n\t\t\}\n\t\}", "\tconst char* separator = memchr(line_start, ':', (size_t)(line_end - line_start));"),
      sub(f, r"\tif \(separator == line_end\) \{", "\tif (separator == NULL) {"))
    R(nm + "-line-keys",
      sub(f, r"memcmp\(line_start, (\"[^\"]*\"), key_length\) == 0", r"key_is(line_start, key_length, \1)"),
      sub(f, r"(static bool parse_line\()", r'''static inline bool key_is(const char* key, size_t length, const char* name) {
	return strlen(name) == length && memcmp(key, name, length) == 0;
}

\1'''))
    R(nm + "-line-number-helper",
      sub(f, r"\tuint32_t processor_number = 0;\n\tfor \(const char\* digit_ptr = processor_start; digit_ptr != processor_end; digit_ptr\+\+\) \{.*?\n\t\}\n\n\treturn processor_number;", '''	uint32_t processor_number = 0;
	const char* p = processor_start;
	while (p < processor_end && (unsigned char)(*p - '0') <= 9) {
		processor_number = processor_number * 10 + (uint32_t)(*p++ - '0');
	}
	if (p != processor_end) {
		cpuinfo_log_warning(
			"non-decimal suffix %.*s in /proc/cpuinfo processor number is ignored", (int)(processor_end - p), p);
	}
	return processor_number;'''))
    R(nm + "-line-index",
      # the current processor looked up by a helper
      sub(f, r"\tstruct cpuinfo_(arm|x86)_linux_processor\* processor = &state->dummy_processor;\n\tif \(processor_index < max_processors_count\) \{\n\t\tprocessor = &processors\[processor_index\];\n\t\}",
          r"\tstruct cpuinfo_\1_linux_processor* processor =\n\t\tprocessor_index >= max_processors_count ? &state->dummy_processor : processors + processor_index;"))
F = "src/arm/linux/cpuinfo.c"
HEX = r"\t\tconst char digit_char = \*digit_ptr;\n\t\tuint32_t digit;\n\t\tif \(digit_char >= '0' && digit_char <= '9'\) \{.*?\t\t\} else \{\n"
R("arm-line-hex-helper",
  sub(F, HEX, "\t\tconst char digit_char = *digit_ptr;\n\t\tconst uint32_t digit = hex_digit(digit_char);\n\t\tif (digit >= 16) {\n"),
  (F, "static void parse_cpu_part(", '''static uint32_t hex_digit(char c) {
	if (c >= '0' && c <= '9') {
		return (uint32_t)(c - '0');
	}
	if (c >= 'a' && c <= 'f') {
		return (uint32_t)(c - 'a') + 10;
	}
	if (c >= 'A' && c <= 'F') {
		return (uint32_t)(c - 'A') + 10;
	}
	return UINT32_MAX;
}

static void parse_cpu_part('''))
R("arm-line-flag-helper",
  sub(F, r"\tprocessor->midr = (midr_set_\w+)\(processor->midr, (\w+)\);\n\tprocessor->flags \|= (CPUINFO_ARM_LINUX_VALID_(?:PART|IMPLEMENTER|VARIANT|REVISION)) \| CPUINFO_ARM_LINUX_VALID_PROCESSOR;",
      r"\tset_midr(processor, \1(processor->midr, \2), \3);"),
  (F, "static void parse_cpu_part(", '''static void set_midr(struct cpuinfo_arm_linux_processor* processor, uint32_t midr, uint32_t flag) {
	processor->flags |= CPUINFO_ARM_LINUX_VALID_PROCESSOR;
	processor->flags |= flag;
	processor->midr = midr;
}

static void parse_cpu_part('''))
R("arm-features-string",
  sub(F, r"memcmp\(feature_start, (\"[^\"]*\"), feature_length\) == 0", r"!memcmp(feature_start, \1, sizeof(\1) - 1)"))
R("arm-features-while",
  sub(F, r"\t\tfor \(; feature_end != features_end; feature_end\+\+\) \{\n\t\t\tif \(\*feature_end == ' '\) \{\n\t\t\t\tbreak;\n\t\t\t\}\n\t\t\}", "\t\twhile (feature_end != features_end && *feature_end != ' ') {\n\t\t\t++feature_end;\n\t\t}"),
  sub(F, r"\t\tfor \(; feature_start != features_end; feature_start\+\+\) \{\n\t\t\tif \(\*feature_start != ' '\) \{\n\t\t\t\tbreak;\n\t\t\t\}\n\t\t\}", "\t\twhile (feature_start != features_end && *feature_start == ' ') {\n\t\t\t++feature_start;\n\t\t}"))
R("arm-hardware-helper",
  sub(F, r"size_t value_length = value_end - value_start;\n\t+if \(value_length > (CPUINFO_\w+_VALUE_MAX)\) \{.*?memcpy\(state->(\w+), value_start, value_length\);", r"const size_t value_length = copy_value(state->\2, \1, value_start, value_end);"),
  sub(F, r"(static bool parse_line\()", r'''static size_t copy_value(char* to, size_t limit, const char* start, const char* end) {
	size_t length = (size_t)(end - start);
	if (length > limit) {
		cpuinfo_log_warning("value \\"%.*s\\" in /proc/cpuinfo exceeds limit (%zu): truncating", (int)length, start, limit);
		length = limit;
	}
	memcpy(to, start, length);
	if (length < limit) {
		to[length] = '\\0';
	}
	return length;
}

\1'''))

# ---- clusters
CC = "src/arm/linux/clusters.c"
R("clusters-flag-helper",
  sub(CC, r"bitmask_all\(processors\[i\]\.flags, CPUINFO_LINUX_FLAG_VALID\)", "(processors[i].flags & CPUINFO_LINUX_FLAG_VALID) != 0"))
R("clusters-table",
  sub(CC, r"\tuint32_t cluster_processors\[3\];\n\tswitch \(usable_processors\) \{\n\t\tcase 10:.*?\t\t\tcluster_processors\[1\] = 2;\n\t\t\tbreak;\n", '''	uint32_t cluster_processors[3] = {4, 4, 2};
	switch (usable_processors) {
		case 10:
		case 8:
			break;
		case 6:
			cluster_processors[1] = 2;
			break;
''', 1))
R("clusters-pointer",
  each(CC, lambda s: s.replace("	for (uint32_t i = 0; i < max_processors; i++) {\n", "	for (uint32_t i = 0; i < max_processors; i++) {\n		struct cpuinfo_arm_linux_processor* p = processors + i;\n		(void)p;\n")
       .replace("processors[i].flags", "p->flags")))
R("midr-helper",
  sub("src/arm/linux/midr.c", r"bitmask_all\(processors\[i\]\.flags, CPUINFO_LINUX_FLAG_VALID\)", "!!(processors[i].flags & CPUINFO_LINUX_FLAG_VALID)"))


# ---- log, clog, RISC-V, 32-bit ARM, leaf 2
LG="src/log.c"; CG="deps/clog/src/clog.c"; RI="src/riscv/linux/init.c"; RA="src/riscv/linux/riscv-isa.c"; HW="src/arm/linux/hwcap.c"
A32="src/arm/linux/aarch32-isa.c"; UA="src/x86/uarch.c"; CI="src/x86/cache/init.c"; DS="src/x86/cache/descriptor.c"
# log: total length computed once
R("log-total",
  (LG,"	const size_t format_length = (size_t)format_chars;\n	if ((prefix_length + format_length + CPUINFO_LOG_NEWLINE_LENGTH) * sizeof(char) >\n	    CPUINFO_LOG_STACK_BUFFER_SIZE) {",
      "	const size_t format_length = (size_t)format_chars;\n	const size_t total = prefix_length + format_length + CPUINFO_LOG_NEWLINE_LENGTH;\n	if (total > sizeof(stack_buffer)) {"),
  (LG,"		const size_t heap_buffer_size =\n			(prefix_length + format_length + CPUINFO_LOG_NEWLINE_LENGTH) * sizeof(char);","		const size_t heap_buffer_size = total;"),
  (LG,"	ssize_t bytes_written = write(\n		output_handle, out_buffer, (prefix_length + format_length + CPUINFO_LOG_NEWLINE_LENGTH) * sizeof(char));\n	(void)bytes_written;",
      "	if (write(output_handle, out_buffer, total) < 0) {\n		/* nothing to be done */\n	}"))
# log: heap part as a helper
R("log-heap-helper",
  (LG,"#if CPUINFO_LOG_TO_STDIO\nstatic void cpuinfo_vlog(",'''#if CPUINFO_LOG_TO_STDIO
static char* format_on_heap(const char* prefix, size_t prefix_length, size_t format_length, const char* format, va_list args) {
	char* buffer = malloc(prefix_length + format_length + CPUINFO_LOG_NEWLINE_LENGTH);
	if (buffer != NULL) {
		memcpy(buffer, prefix, prefix_length);
		vsnprintf(buffer + prefix_length, format_length + 1, format, args);
	}
	return buffer;
}

static void cpuinfo_vlog('''),
  sub(LG, r"		const size_t heap_buffer_size =.*?		out_buffer = heap_buffer;\n", '''		heap_buffer = format_on_heap(prefix, prefix_length, format_length, format, args_copy);
		if (heap_buffer == NULL) {
			goto cleanup;
		}
		out_buffer = heap_buffer;
'''))
# log: no goto
R("log-no-goto",
  sub(LG, r"	if \(format_chars < 0\) \{.*?goto cleanup;\n	\}\n", "	if (format_chars < 0) {\n		va_end(args_copy);\n		return;\n	}\n", 1),
  sub(LG, r"		if \(heap_buffer == NULL\) \{\n			goto cleanup;\n		\}", "		if (heap_buffer == NULL) {\n			va_end(args_copy);\n			return;\n		}", 1),
  sub(LG, r"\ncleanup:\n#ifdef _WIN32.*?#endif\n", "\n	if (heap_buffer != NULL) {\n		free(heap_buffer);\n	}\n", 1))
# prefix as a string
R("log-prefix-strings",
  sub(LG, r"static const char (\w+)_prefix\[(\d+)\] = \{[^}]*\};", lambda m: 'static const char %s_prefix[] = "%s";' % (m.group(1), {"debug":"Debug (cpuinfo): ","info":"Note (cpuinfo): ","warning":"Warning in cpuinfo: ","error":"Error in cpuinfo: ","fatal":"Fatal error in cpuinfo: "}[m.group(1)])),
  sub(LG, r"(\w+)_prefix, (\d+), format", r"\1_prefix, sizeof(\1_prefix) - 1, format"))
# clog: common function
def clogfn(d):
    p = d + "/" + CG
    s = open(p).read()
    st = s.index("void clog_vlog_fatal(")
    fns = {}
    for lv in ("fatal", "error", "warning", "info", "debug"):
        a = s.index("void clog_vlog_%s(" % lv)
        nx = s.find("\nvoid clog_vlog_", a + 5)
        fns[lv] = (a, nx + 1 if nx > 0 else len(s))
    body = s[fns["fatal"][0]:fns["fatal"][1]]
    body = body.replace("void clog_vlog_fatal(const char* module, const char* format, va_list args) {", "static void clog_emit(int level, int handle, const char* plain, int plain_length, const char* prefix, const char* module, const char* format, va_list args) {")
    body = body.replace("CLOG_FATAL_PREFIX_LENGTH", "plain_length").replace("CLOG_FATAL_PREFIX_FORMAT", "prefix").replace("CLOG_FATAL_PREFIX", "plain").replace("STDERR_FILENO", "handle")
    out = body
    for lv in ("fatal", "error", "warning", "info", "debug"):
        U = lv.upper()
        out += '''void clog_vlog_%s(const char* module, const char* format, va_list args) {
	clog_emit(0, %s, CLOG_%s_PREFIX, CLOG_%s_PREFIX_LENGTH, CLOG_%s_PREFIX_FORMAT, module, format, args);
}

''' % (lv, "STDERR_FILENO" if lv in ("fatal", "error", "warning") else "STDOUT_FILENO", U, U, U)
    open(p, "w").write(s[:st] + out)
R("clog-common", clogfn)
R("clog-total",
  sub(CG, r"if \(prefix_chars \+ format_chars \+ CLOG_SUFFIX_LENGTH > CLOG_STACK_BUFFER_SIZE\)", "const int total_chars = prefix_chars + format_chars + CLOG_SUFFIX_LENGTH;\n		if (CLOG_STACK_BUFFER_SIZE < total_chars)"),
  sub(CG, r"malloc\(prefix_chars \+ format_chars \+ CLOG_SUFFIX_LENGTH\)", "malloc((size_t)total_chars)"),
  sub(CG, r"write\((\w+), out_buffer, prefix_chars \+ format_chars \+ CLOG_SUFFIX_LENGTH\)", r"write(\1, out_buffer, total_chars)"))
# riscv
R("riscv-isa-assign", sub(RA, r"	if \(hwcap & (COMPAT_HWCAP_ISA_\w)\) \{\n		isa->(\w) = true;\n	\}", r"	isa->\2 = (hwcap & \1) != 0;"))
R("riscv-isa-table", sub(RA, r"	if \(hwcap & COMPAT_HWCAP_ISA_I.*\n\}\n", '''	static const char letters[] = "IMAFDCV";
	bool* flags[] = {&isa->i, &isa->m, &isa->a, &isa->f, &isa->d, &isa->c, &isa->v};
	for (size_t k = 0; k < sizeof(flags) / sizeof(flags[0]); k++) {
		if ((hwcap >> (letters[k] - 'A')) & 1) {
			*flags[k] = true;
		}
	}
}
'''), only=["S05"])
R("riscv-isa-helper", (RA,"void cpuinfo_riscv_linux_decode_isa_from_hwcap",'''static inline bool has_letter(unsigned long hwcap, char letter) {
	return (hwcap >> (letter - 'A')) & 1;
}

void cpuinfo_riscv_linux_decode_isa_from_hwcap'''), sub(RA, r"if \(hwcap & COMPAT_HWCAP_ISA_(\w)\)", r"if (has_letter(hwcap, '\1'))"))
R("riscv-leader-vars",
  sub(RI, r"		uint32_t linux_id = riscv_linux_processors\[processor\]\.processor\.linux_id;\n", '''		const struct cpuinfo_riscv_linux_processor* const current = &riscv_linux_processors[processor];
		const uint32_t linux_id = current->processor.linux_id;
'''),
  sub(RI, r"if \(riscv_linux_processors\[processor\]\.(\w+)_leader_id == linux_id\)", r"if (linux_id == current->\1_leader_id)"))
R("riscv-struct-assign",
  sub(RI, r"memcpy\(&(\w+)\[(\w+)\+\+\],\s*&riscv_linux_processors\[processor\]\.(\w+),\s*sizeof\(struct \w+\)\);", r"\1[\2] = riscv_linux_processors[processor].\3;\n			\2 += 1;"))
R("riscv-last-pointers",
  sub(RI, r"		/\* Commit pointers on the final structures\. \*/.*?\n	\}\n\n	/\* Commit \*/", '''		/* Commit pointers on the final structures. */
		struct cpuinfo_processor* last_processor = processors + (valid_processors_index - 1);
		struct cpuinfo_core* last_core = cores + (valid_cores_index - 1);
		struct cpuinfo_cluster* last_cluster = clusters + (valid_clusters_index - 1);
		struct cpuinfo_package* last_package = packages + (valid_packages_index - 1);
		last_processor->core = last_core;
		last_processor->cluster = last_cluster;
		last_processor->package = last_package;
		last_core->cluster = last_cluster;
		last_core->package = last_package;
		last_cluster->package = last_package;

		linux_cpu_to_uarch_index_map[linux_id] = valid_uarchs_index - 1;
		linux_cpu_to_core_map[linux_id] = last_core;
		linux_cpu_to_processor_map[linux_id] = last_processor;
	}

	/* Commit */'''))
R("riscv-valid-helper",
  (RI,"/* Initialization for the RISC-V Linux system. */",'''static inline bool is_valid(const struct cpuinfo_riscv_linux_processor* processor) {
	return (processor->flags & CPUINFO_LINUX_FLAG_VALID) == CPUINFO_LINUX_FLAG_VALID;
}

/* Initialization for the RISC-V Linux system. */'''),
  sub(RI, r"!bitmask_all\(riscv_linux_processors\[processor\]\.flags, CPUINFO_LINUX_FLAG_VALID\)", "!is_valid(&riscv_linux_processors[processor])"))
R("riscv-alloc-helper",
  (RI,"/* Initialization for the RISC-V Linux system. */",'''static void* allocate(size_t count, size_t size, const char* what) {
	void* memory = calloc(count, size);
	if (memory == NULL) {
		cpuinfo_log_error("failed to allocate %zu bytes for %zu %s.", count * size, count, what);
	}
	return memory;
}

/* Initialization for the RISC-V Linux system. */'''),
  sub(RI, r"	(\w+) = calloc\((\w+), (sizeof\([^)]*\))\);\n	if \(\1 == NULL\) \{\n		cpuinfo_log_error\(.*?\);\n		goto cleanup;\n	\}", r'	\1 = allocate(\2, \3, "\1");\n	if (\1 == NULL) {\n		goto cleanup;\n	}'))
R("riscv-merge-fill",
  sub(RI, r"	/\* Populate processor information\. \*/\n.*?	/\* Populate core information\. \*/", "	/* Populate processor and core information. */"),
  (RI,"		/* Populate processor start and count information. */\n","		riscv_linux_processors[processor].processor.linux_id = processor;\n		/* Populate processor start and count information. */\n"))
R("riscv-core-before",
  sub(RI, r"(		/\* Create uarch entry if this.*?\n		\}\n\n)(		/\* Copy cpuinfo_processor information\. \*/\n.*?;\n\n)", r"\2\1"))
# hwcap
R("hwcap-vars", sub(HW, r"	\*hwcap = \(uint32_t\)getauxval\(AT_HWCAP\);\n	\*hwcap2 = \(uint64_t\)getauxval\(AT_HWCAP2\);", "	const unsigned long second = getauxval(AT_HWCAP2);\n	const unsigned long first = getauxval(AT_HWCAP);\n	*hwcap2 = second;\n	*hwcap = (uint32_t)(first & UINT32_MAX);"))
# aarch32
R("a32-set-v8", sub(A32, r"		isa->armv5e = true;\n		isa->armv6 = true;.*?		isa->neon = true;\n", lambda m: "		assume_armv8(isa);\n", 1),
  (A32,"void cpuinfo_arm_linux_decode_isa_from_proc_cpuinfo(",'''static void assume_armv8(struct cpuinfo_arm_isa* isa) {
	isa->neon = isa->fma = isa->fp16 = isa->d32 = isa->vfpv3 = true;
	isa->idiv = true;
	isa->thumb = isa->thumb2 = true;
	isa->armv5e = isa->armv6 = isa->armv6k = true;
	isa->armv7 = isa->armv7mp = isa->armv8 = true;
}

void cpuinfo_arm_linux_decode_isa_from_proc_cpuinfo('''))
R("a32-arch-const", (A32,"	if (architecture_version < 8) {\n		const uint32_t armv8","	if (!(architecture_version >= 8)) {\n		const uint32_t armv8"),
  sub(A32, r"if \(features & (CPUINFO_ARM_LINUX_FEATURE_\w+)\) \{", r"if ((features & \1) != 0) {"))
# leaf 2
R("leaf2-loop", sub(CI, r"		uint32_t iterations = .*?		if \(vendor != cpuinfo_vendor_amd", '''		for (uint32_t iterations = descriptors.as_bytes[0]; iterations != 0; iterations--) {
			for (uint32_t i = 1; i < 16; i++) {
				const uint8_t descriptor = descriptors.as_bytes[i];
				if (descriptor == 0) {
					continue;
				}
				cpuinfo_x86_decode_cache_descriptor(
						descriptor,
						vendor,
						model_info,
						cache,
						itlb_4KB,
						itlb_2MB,
						itlb_4MB,
						dtlb0_4KB,
						dtlb0_2MB,
						dtlb0_4MB,
						dtlb_4KB,
						dtlb_2MB,
						dtlb_4MB,
						dtlb_1GB,
						stlb2_4KB,
						stlb2_2MB,
						stlb2_1GB,
						&cache->prefetch_size);
			}
			if (iterations > 1) {
				descriptors.regs = cpuid(2);
			}
		}

		if (vendor != cpuinfo_vendor_amd'''))
R("cache-split", (CI,"void cpuinfo_x86_detect_cache(",'''static uint32_t read_leaf4(struct cpuinfo_x86_caches* cache) {
	uint32_t cores = 0;
	for (uint32_t index = 0;; index++) {
		const struct cpuid_regs regs = cpuidex(4, index);
		if (!cpuinfo_x86_decode_deterministic_cache_parameters(regs, cache, &cores)) {
			return cores;
		}
	}
}

void cpuinfo_x86_detect_cache('''),
  sub(CI, r"			struct cpuid_regs leaf4;.*?			if \(package_cores_max != 0\)", "			const uint32_t package_cores_max = read_leaf4(cache);\n			if (package_cores_max != 0)"))
R("desc-literal-reorder", sub(DS, r"\(struct cpuinfo_x86_cache\)\s*\{\n(\s*)\.size = ([^,]+),\n\s*\.associativity = ([^,]+),\n", r"(struct cpuinfo_x86_cache){\n\1.associativity = \3,\n\1.size = \2,\n"))


# ---- elements are created for the first processor and for each with another key
L = "last_l2_id = UINT32_MAX, last_l3_id = UINT32_MAX, last_l4_id"
R("xcount-flag", sub(X, L, "last_l2_id = UINT32_MAX, last_l3_id = 0, last_l4_id", 1),
  sub(X, r"(\tuint32_t last_l2_id = UINT32_MAX)", r"\tbool have_l3 = false;\n\1", 1),
  sub(X, r"if \(l3_id != last_l3_id\) \{", "if (!have_l3 || l3_id != last_l3_id) {\n\t\t\t\t\thave_l3 = true;", 1))
R("xcount-empty", sub(X, L, "last_l2_id = UINT32_MAX, last_l3_id = 0, last_l4_id", 1),
  sub(X, r"if \(l3_id != last_l3_id\) \{", "if (l3_count == 0 || l3_id != last_l3_id) {", 1))
R("xcount-first", sub(X, r"last_core_id = UINT32_MAX", "last_core_id = 0", 1),
  sub(X, r"if \(core_id != last_core_id\) \{", "if (i == 0 || core_id != last_core_id) {", 1))
R("xcount-all-first", sub(X, r"last_core_id = UINT32_MAX", "last_core_id = 0", 1), sub(X, r"last_package_id = UINT32_MAX", "last_package_id = 0", 1),
  sub(X, r"if \(package_id != last_package_id\) \{", "if (packages_count == 0 || package_id != last_package_id) {", 1),
  sub(X, r"if \(core_id != last_core_id\) \{", "if (cores_count == 0 || core_id != last_core_id) {", 1))
R("xid-pointer", sub(X, r"\t\tif \(bitmask_all\(x86_linux_processors\[i\]\.flags, CPUINFO_LINUX_FLAG_VALID\)\) \{\n\t\t\tx86_linux_processors\[i\]\.linux_id = i;",
  "\t\tstruct cpuinfo_x86_linux_processor* record = &x86_linux_processors[i];\n\t\tif (bitmask_all(record->flags, CPUINFO_LINUX_FLAG_VALID)) {\n\t\t\trecord->linux_id = (int)(record - x86_linux_processors);"))
R("xid-walk", sub(X, r"\tfor \(uint32_t i = 0; i < x86_linux_processors_count; i\+\+\) \{\n\t\tif \(bitmask_all\(x86_linux_processors\[i\]\.flags, CPUINFO_LINUX_FLAG_VALID\)\) \{\n\t\t\tx86_linux_processors\[i\]\.linux_id = i;\n",
  "\tuint32_t number = 0;\n\tfor (struct cpuinfo_x86_linux_processor* record = x86_linux_processors; record != x86_linux_processors + x86_linux_processors_count; record++, number++) {\n\t\tif (bitmask_all(record->flags, CPUINFO_LINUX_FLAG_VALID)) {\n\t\t\trecord->linux_id = number;\n"))
R("xid-apart", sub(X, r"\t\t\tx86_linux_processors\[i\]\.linux_id = i;\n\t\t\tprocessors_count\+\+;\n\t\t\}\n\t\}",
  "\t\t\tprocessors_count++;\n\t\t}\n\t}\n\tfor (uint32_t i = x86_linux_processors_count; i != 0; i--) {\n\t\tx86_linux_processors[i - 1].linux_id = i - 1;\n\t}"))
R("xid-down", sub(X, r"\tfor \(uint32_t i = 0; i < x86_linux_processors_count; i\+\+\) \{\n\t\tif \(bitmask_all\(x86_linux_processors\[i\]\.flags, CPUINFO_LINUX_FLAG_VALID\)\) \{\n\t\t\tx86_linux_processors\[i\]\.linux_id = i;\n",
  "\tfor (uint32_t i = x86_linux_processors_count; i-- != 0;) {\n\t\tif (bitmask_all(x86_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {\n\t\t\tx86_linux_processors[i].linux_id = i;\n"))
R("xsort-some", sub(X, r"\tqsort\(x86_linux_processors,\n", "\tif (x86_linux_processors_count > 1)\n\t\tqsort(x86_linux_processors,\n"))
R("xsort-size", sub(X, r"\tqsort\(x86_linux_processors,\n\t      x86_linux_processors_count,", "\tconst size_t records_count = x86_linux_processors_count;\n\tqsort(x86_linux_processors,\n\t      records_count,"))
R("xapic-mask", sub(X, r"\.apic_id = x86_linux_processors\[i\]\.apic_id;", ".apic_id = x86_linux_processors[i].apic_id & UINT32_MAX;"))
R("xfill-empty", sub(X, "(last_l1d_id = UINT32_MAX;\n\tuint32_t last_l2_id = UINT32_MAX, last_l3_id = )UINT32_MAX(.*?\n\tuint32_t l1i_index)?", lambda m: m.group(0)),
  sub(X, r"if \(l3_id != last_l3_id\) \{(\n\t\t\t\t\t/\* new cache)", r"if (l3_index == UINT32_MAX || l3_id != last_l3_id) {\1"))
R("xfill-first", sub(X, r"if \(l3_id != last_l3_id\) \{(\n\t\t\t\t\t/\* new cache)", r"if (i == 0 || l3_id != last_l3_id) {\1"))
R("xfill-core-first", sub(X, r"if \(apid_core_id != last_apic_core_id\) \{", r"if (processor_index == 0 || apid_core_id != last_apic_core_id) {"))
R("xfill-core-bool", sub(X, r"\t\t\tif \(apid_core_id != last_apic_core_id\) \{", "\t\t\tconst bool new_core = apid_core_id != last_apic_core_id;\n\t\t\tif (new_core) {", 1),
  sub(X, r"\t\t\tif \(apid_core_id != last_apic_core_id\) \{", "\t\t\tif (new_core) {"))
R("xfill-pkg-reorder", sub(X, r"(\t\t\tif \(x86_processor\.cache\.l3\.size != 0\) \{\n\t\t\t\tconst uint32_t l3_id = apic_id & ~bit_mask\(x86_processor\.cache\.l3\.apic_bits\);\n\t\t\t\tprocessors\[i\].*?\n\t\t\t\})(\n\t\t\tif \(x86_processor\.cache\.l4\.size != 0\) \{\n\t\t\t\tconst uint32_t l4_id.*?\n\t\t\t\} else \{.*?\n\t\t\t\})", r"\2\n\1"))
R("xfill-start-zero", sub(X, r"uint32_t l1i_index = UINT32_MAX, l1d_index = UINT32_MAX, l2_index = UINT32_MAX, l3_index = UINT32_MAX,", "uint32_t l1i_index = UINT32_MAX, l1d_index = UINT32_MAX, l2_index = UINT32_MAX, l3_next = 0,"),
  sub(X, r"&l3\[l3_index\]", "&l3[l3_next - 1]"), sub(X, r"l3\[\+\+l3_index\]", "l3[l3_next++]"), sub(X, r"l3\[l3_index\]\.", "l3[l3_next - 1]."))
R("afill-uarch-flag", sub(A, r"\tuint32_t uarchs_index = 0;\n", "\tuint32_t uarchs_index = 0;\n\tbool first_uarch = true;\n"),
  sub(A, r"if \(uarchs_index == 0 \|\| (arm_linux_processors\[i\]\.uarch != last_uarch\) \{)", r"if (first_uarch || \1\n\t\t\t\tfirst_uarch = false;"))
R("afill-uarch-first", sub(A, r"if \(uarchs_index == 0 \|\| (arm_linux_processors\[i\]\.uarch != last_uarch\) \{)", r"if (i == 0 || \1"))
R("acount-uarch-first", sub(A, r"if \(uarchs_count == 0 \|\| (arm_linux_processors\[i\]\.uarch != last_uarch\) \{)", r"if (i == 0 || \1"))
R("afill-uarch-prev", sub(A, r"if \(uarchs_index == 0 \|\| arm_linux_processors\[i\]\.uarch != last_uarch\) \{\n\t\t\t\tlast_uarch = arm_linux_processors\[i\]\.uarch;", r"if (i == 0 || arm_linux_processors[i].uarch != arm_linux_processors[i - 1].uarch) {"))
R("acopy-leader-pointer", sub(A, r"arm_linux_processors\[cluster_leader\]\.(midr|vendor|uarch|max_frequency|flags)", r"leader->\1"),
  sub(A, r"(const uint32_t cluster_leader = arm_linux_processors\[i\]\.package_leader_id;)", r"\1\n\t\t\tstruct cpuinfo_arm_linux_processor* leader = &arm_linux_processors[cluster_leader];"))
R("acount-uarch-prev", sub(A, r"if \(uarchs_count == 0 \|\| arm_linux_processors\[i\]\.uarch != last_uarch\) \{\n\t\t\t\tlast_uarch = arm_linux_processors\[i\]\.uarch;", r"if (i == 0 || arm_linux_processors[i].uarch != arm_linux_processors[i - 1].uarch) {"))
R("xcount-prev", sub(X, r"if \(core_id != last_core_id\) \{\n\t\t\t\tlast_core_id = core_id;", r"if (i == 0 || core_id != (linux_processors[i - 1].apic_id & core_apic_mask)) {"), sub(X, "last_core_id = UINT32_MAX, ", ""))
LEAD = r"if \(arm_linux_processors\[i\]\.package_leader_id == arm_linux_processors\[i\]\.system_processor_id\) \{"
R("afill-links-later", sub(A, r"\t\tcores\[i\]\.cluster = clusters \+ cluster_id;\n\t\tcores\[i\]\.package = &package;\n", ""),
  sub(A, r"\n\t/\* Commit \*/", "\n\tfor (uint32_t i = 0; i < valid_processors; i++) {\n\t\tcores[i].cluster = processors[i].cluster;\n\t\tcores[i].package = processors[i].package;\n\t}\n\n\t/* Commit */", 1))
R("afill-links-own", sub(A, r"cores\[i\]\.cluster = clusters \+ cluster_id;\n\t\tcores\[i\]\.package = &package;", "cores[i].cluster = processors[i].cluster;\n\t\tcores[i].package = processors[i].package;"))
R("afill-map-own", sub(A, r"= &cores\[i\];", "= processors[i].core;"))
R("afill-cluster-pointer", sub(A, r"\tbool shared_l3 = true;\n", "\tbool shared_l3 = true;\n\tstruct cpuinfo_cluster* cluster = NULL;\n"),
  sub(A, r"\t\t\tclusters\[cluster_id\] = \(struct", "\t\t\tcluster = &clusters[cluster_id];\n\t\t\t*cluster = (struct"),
  sub(A, r"(processors|cores)\[i\]\.cluster = clusters \+ cluster_id;", r"\1[i].cluster = cluster;"))
R("afill-cluster-counts", sub(A, r"\.processor_count = arm_linux_processors\[i\]\.package_processor_count,\n(\t\t\t\t\.core_start = i,\n)\t\t\t\t\.core_count = arm_linux_processors\[i\]\.package_processor_count,", r"\n\1"),
  sub(A, r"\t\tprocessors\[i\]\.smt_id = 0;", "\t\tclusters[cluster_id].processor_count += 1;\n\t\tclusters[cluster_id].core_count += 1;\n\t\tprocessors[i].smt_id = 0;"))
R("afill-l2-from-cluster", sub(A, r"(\.processor_start = )i(,\n\t\t\t\t\t\.processor_count = )arm_linux_processors\[i\]\.package_processor_count,", r"\1clusters[cluster_id].processor_start\2clusters[cluster_id].processor_count,"))
R("afill-leader-bool", sub(A, LEAD + r"\n\t\t\tcluster_id\+\+;", "const bool leads = arm_linux_processors[i].package_leader_id == arm_linux_processors[i].system_processor_id;\n\t\tif (leads) {\n\t\t\tcluster_id++;"),
  sub(A, r"(\n\t\t\tprocessors\[i\]\.cache\.l2 = l2 \+ l2_index;\n\t\t\t)" + LEAD, r"\1if (leads) {"))
R("afill-record-pointer", sub(A, r"(for \(uint32_t i = 0; i < valid_processors; i\+\+\) \{\n)(\t\t" + LEAD + r"\n\t\t\tcluster_id \+= 1;)(.*?)(?=\n\t\tstruct cpuinfo_cache temp_l2)",
  lambda m: m.group(1) + "\t\tconst struct cpuinfo_arm_linux_processor* record = &arm_linux_processors[i];\n" + (m.group(2) + m.group(3)).replace("arm_linux_processors[i].", "record->")))
R("afill-core-pointer", sub(A, r"\t\tcores\[i\]\.processor_start = i;", "\t\tstruct cpuinfo_core* core = processors[i].core;\n\t\tcore->processor_start = i;"), sub(A, r"\t\tcores\[i\]\.", "\t\tcore->"))
R("afill-l3-range", sub(A, r"\.processor_start = i,\n(\t\t\t\t\t\t\.processor_count = shared_l3)", r".processor_start = shared_l3 ? 0 : i,\n\1"))
R("afill-l1-helper", sub(A, r"\t\tl1i\[i\]\.processor_start = l1d\[i\]\.processor_start = i;\n\t\tl1i\[i\]\.processor_count = l1d\[i\]\.processor_count = 1;", "\t\town_cache(&l1i[i], i);\n\t\town_cache(&l1d[i], i);"),
  sub(A, r"void cpuinfo_arm_linux_init\(void\) \{", "static void own_cache(struct cpuinfo_cache* cache, uint32_t processor) {\n\tcache->processor_start = processor;\n\tcache->processor_count = 1;\n}\n\nvoid cpuinfo_arm_linux_init(void) {"))
R("afill-l3-from-cluster", sub(A, r"(\? valid_processors\n\t\t\t\t\t\t\t: )arm_linux_processors\[i\]\.package_processor_count", r"\1clusters[cluster_id].processor_count"))
R("afill-l3-link-leader", sub(A, r"processors\[i\]\.cache\.l3 = l3 \+ l3_index;", r"processors[i].cache.l3 = &l3[l3_index];"))
R("xfill-core-own", sub(X, r"\t\t\t\t\t\.cluster = clusters \+ cluster_index,\n\t\t\t\t\t\.package = packages \+ package_index,", "\t\t\t\t\t.cluster = processors[processor_index].cluster,\n\t\t\t\t\t.package = processors[processor_index].package,", 1))
R("xfill-count-zero", sub(X, r"\.processor_start = processor_index,\n\t\t\t\t\t\.processor_count = 1,\n\t\t\t\t\t\.core_id", ".processor_start = processor_index,\n\t\t\t\t\t.core_id"),
  sub(X, r"\} else \{\n\t\t\t\t/\* another logical processor on the same core \*/\n\t\t\t\tcores\[core_index\]\.processor_count\+\+;\n\t\t\t\}", "}\n\t\t\tcores[core_index].processor_count++;"))
R("xfill-count-range", sub(X, r"cores\[core_index\]\.processor_count\+\+;", "cores[core_index].processor_count = processor_index - cores[core_index].processor_start + 1;"))
R("xfill-smt-range", sub(X, r"processors\[processor_index\]\.smt_id = smt_id;", "", 1), sub(X, r"(\t\t\tif \(apic_cluster_id != last_apic_cluster_id\) \{\n\t\t\t\t/\* new cluster)", r"\t\t\tprocessors[processor_index].smt_id = processor_index - cores[core_index].processor_start;\n\1"))
