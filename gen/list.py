LINUXALL = "all Linux/Android builds (x86_64, i686, arm64, arm, riscv64; Android arm64/arm), every log level"

P("A01", "Every query before successful initialization aborts",
  "A query of the detection results (any list, count, index or current-CPU query of the public API) returns to its caller "
  "only if initialization has succeeded before; otherwise the process terminates abnormally inside the query, in every "
  "build configuration. After a successful initialization no query terminates the process.",
  ["histories", "configurations"], "every order of calls to the public API, in " + LINUXALL,
  "The tests initialize first and then query; calling queries before initialization kills the test process, and log levels "
  "that compile the logging out are never built.",
  ["src/api.c", "include/cpuinfo.h", "src/cpuinfo/log.h"], [("initialization guard of each query", "src/api.c")],
  "Boolean-function data-flow analysis of each public query in 49 build configurations",
  "All paths of all exported queries: reachability of a normal return is proved equivalent to the initialization flag.")

P("A02", "List, count and index queries of each topology level agree",
  "For each kind of object (processors, cores, clusters, packages, microarchitectures and every cache level), the index "
  "query with index i returns the address of element i of the array the list query returns when i is below the value of the "
  "count query of the same kind, and a null pointer otherwise. This holds for every 32-bit index, and no kind shares its "
  "array or count with another kind.",
  ["inputs", "configurations"], "every index value and every detected system, in " + LINUXALL,
  "Tests compare a few in-range indices on the machine at hand and never pass out-of-range or huge indices for all kinds.",
  ["src/api.c", "include/cpuinfo.h"], [("list/count/index accessors", "src/api.c")],
  "Boolean-function data-flow analysis and cross-check of sibling accessors",
  "All 2^32 indices of all accessors in 7 configurations.")

P("A03", "Current-CPU queries never read outside the per-CPU tables",
  "A query about the CPU the caller runs on looks up the per-CPU tables only with a CPU number that the operating system "
  "reported successfully and that is inside those tables. In all other cases it returns the documented fallback (null, "
  "zero, or the default that the caller passed), and a successful lookup returns the entry of exactly that CPU.",
  ["inputs", "fault_sequences", "configurations"],
  "every CPU number the kernel can report, failure of the system call, every table size, in " + LINUXALL,
  "The tests run on one host whose CPU numbers are always inside the tables and whose getcpu call never fails.",
  ["src/api.c"], [("per-CPU lookup tables and their bound", "src/api.c")],
  "Boolean-function data-flow analysis with an abstract getcpu",
  "All CPU numbers and outcomes of the system call, all configurations.")

P("A04", "Queries only read: they never modify, allocate, lock or do I/O",
  "No query of the public API modifies any library state, allocates memory, takes a lock, performs I/O or makes a system "
  "call other than asking for the current CPU, on any path that returns to the caller. Queries from any number of threads "
  "therefore never interfere with each other, and the same query always gives the same answer.",
  ["schedules", "histories", "configurations"], "every interleaving of queries from any threads, in " + LINUXALL,
  "Data races between queries and hidden state changes do not show up in single-threaded unit tests.",
  ["src/api.c", "include/cpuinfo.h"], [("exported queries and inline accessors", "src/api.c, include/cpuinfo.h")],
  "interprocedural effect analysis of all exported queries and inline accessors",
  "Every instruction reachable from a query on a returning path is classified; calls are resolved through the whole program.")

P("A05", "Each ISA accessor reports exactly its own feature",
  "Every feature accessor of the public header returns exactly the detected flag of the feature it is named after (or the "
  "constant that the target architecture implies) on the architecture of that feature, and false on all other "
  "architectures. No accessor depends on the flag of a different feature, except for the documented combinations.",
  ["inputs", "configurations"], "every combination of detected flags, on x86-64, x86, arm64, arm and riscv64 targets",
  "Mock tests read the accessors for a few dozen recorded processors, so two flags that coincide on all of them can be "
  "swapped without any test noticing; RISC-V accessors are never run at all.",
  ["include/cpuinfo.h"], [("inline feature accessors", "include/cpuinfo.h")],
  "Boolean-function data-flow analysis of each inline accessor on each architecture",
  "Exact: all combinations of flags for all accessors on five architectures.")

P("S01", "x86 ISA flags are exact functions of CPUID and XCR0",
  "On x86 and x86-64, each instruction-set flag is reported exactly when the processor enumerates the feature in the "
  "documented CPUID bit (of a leaf it implements) and, for features with extended register state (AVX, AVX-512, AMX), the "
  "operating system has enabled that state. No other CPUID content, vendor or model changes the answer except where the "
  "vendor documentation assigns the bit a different meaning.",
  ["inputs", "configurations"], "every possible content of all CPUID leaves and XCR0, x86 and x86-64 builds",
  "Mock tests replay CPUID dumps of a few dozen real processors under one OS state; features without an enumerating dump, "
  "bits that coincide on all dumps and a disabled OS state are never exercised.",
  ["src/x86/isa.c", "src/x86/init.c", "src/x86/cpuid.h"], [("CPUID feature decoding", "src/x86/isa.c")],
  "Boolean-function data-flow analysis compared with a table of documented CPUID bits",
  "Exact equivalence for all CPUID/XCR0 contents; the CPUID bit table in spec/x86_isa.py is the oracle.")

P("S02", "CPUID leaves and privileged probes are used only when available",
  "On x86 and x86-64, detection reads a CPUID leaf only if the processor reports that it implements that leaf (maximum "
  "basic or extended leaf, and vendor for vendor-specific ranges), because otherwise the values are garbage. XGETBV and "
  "FXSAVE are executed only if the processor and OS report them enabled, so detection never faults.",
  ["inputs", "configurations"], "every CPUID content (every vendor string and every maximum leaf), x86 and x86-64 builds",
  "Mock CPUID returns zeros for missing leaves, real processors return unrelated data or fault; no test has a processor "
  "with a small maximum leaf for each probe.",
  ["src/x86/isa.c", "src/x86/init.c", "src/x86/topology.c", "src/x86/cache/init.c"],
  [("maximum leaf checks", "src/x86/init.c, src/x86/isa.c, src/x86/topology.c, src/x86/cache/init.c")],
  "Boolean-function data-flow analysis of the reachability of each probe",
  "Every CPUID/XGETBV/FXSAVE site: its reachability condition implies availability for all inputs.")

P("S03", "arm64 ISA flags are exact functions of kernel-reported features",
  "On arm64 Linux, each instruction-set flag is reported exactly when the kernel reports the matching hardware capability "
  "in the auxiliary vector; FP16 arithmetic, rounding multiply-accumulate and dot product are additionally reported on the "
  "cores known to implement them (dot product on Cortex-A55 from r1 and Cortex-A75 from r2), and the first two are never "
  "reported on Exynos 9810. The reported SVE vector length is the one the kernel returns, and zero if it cannot tell.",
  ["inputs"], "every value of both capability words, every core identification, every chipset",
  "Mock tests replay a few phones; most capability bits (SVE, SME, BF16, I8MM) are set on none of them.",
  ["src/arm/linux/aarch64-isa.c", "src/arm/linux/hwcap.c", "src/arm/linux/init.c"],
  [("capability decoding", "src/arm/linux/aarch64-isa.c")],
  "Boolean-function data-flow analysis compared with the kernel's HWCAP numbering",
  "Exact equivalence for all inputs; HWCAP numbers cross-checked with the installed kernel headers.")

P("S04", "32-bit ARM ISA flags are exact functions of kernel-reported features",
  "On 32-bit ARM Linux, each instruction-set flag is reported exactly when the kernel-reported hardware capabilities, the "
  "architecture version and the identified core imply it. All ARMv7 baseline features are reported on ARMv8 processors even "
  "if the kernel omits them; FP16 arithmetic, rounding multiply-accumulate and dot product are reported only on ARMv8 cores "
  "known to implement them, and never on the chipsets known to be faulty (Exynos 9810; SC9863A, T310 and UMS312 for dot "
  "product).",
  ["inputs"], "every value of both capability words, architecture version and flags, core identification, chipset",
  "Mock tests replay a few phones and cover only a handful of combinations of capability bits and cores.",
  ["src/arm/linux/aarch32-isa.c", "src/arm/linux/hwcap.c", "src/arm/linux/init.c"],
  [("capability decoding", "src/arm/linux/aarch32-isa.c")],
  "Boolean-function data-flow analysis compared with the kernel's HWCAP numbering",
  "Exact equivalence for all inputs, for builds targeting ARMv6K, ARMv7 and ARMv8.")

P("S05", "RISC-V ISA flags are exactly the kernel-reported extension letters",
  "On RISC-V Linux, each single-letter extension flag (I, M, A, F, D, C, V) is reported exactly when the kernel sets that "
  "letter's bit in the hardware capabilities.",
  ["inputs"], "every value of the capability word",
  "The RISC-V build is compiled but never run by the tests.",
  ["src/riscv/linux/riscv-isa.c", "src/riscv/linux/init.c"], [("capability decoding", "src/riscv/linux/riscv-isa.c")],
  "Boolean-function data-flow analysis",
  "Exact equivalence for all inputs.")

P("I03", "Initialization releases everything it does not publish",
  "On every path through initialization, successful or failing at any point, every memory block, file descriptor and handle "
  "it acquired is either part of the published results or released exactly once. Nothing is used after it was released, and "
  "nothing that was published is ever released.",
  ["fault_sequences", "inputs", "configurations"],
  "failure of every allocation and file operation at every point of initialization, every file content, in " + LINUXALL,
  "The tests run initialization once on a healthy host; a failing allocation or a malformed system file never happens there, "
  "and leaks or late releases are not observed.",
  ["src/x86/linux/init.c", "src/arm/linux/init.c", "src/riscv/linux/init.c", "src/linux/multiline.c", "src/linux/cpulist.c",
   "src/linux/smallfile.c", "src/arm/linux/hwcap.c"],
  [("cleanup paths of initialization", "src/*/linux/init.c"), ("file readers", "src/linux/*.c")],
  "typestate analysis of every acquisition site over the inlined initialization",
  "Every acquisition site on all control-flow paths of the inlined initialization, 7 configurations.")

P("I04", "A failed allocation or file open is never used",
  "If an allocation or an attempt to open a file or handle fails anywhere in initialization, initialization never reads or "
  "writes memory through the missing block and never passes the invalid handle on. It therefore never crashes because "
  "memory is short or a system file is absent.",
  ["fault_sequences", "configurations"], "failure of any allocation or open at any point of initialization, in " + LINUXALL,
  "Allocation never fails and the system files always exist where the tests run.",
  ["src/x86/linux/init.c", "src/arm/linux/init.c", "src/riscv/linux/init.c", "src/linux/multiline.c", "src/linux/cpulist.c",
   "src/linux/smallfile.c"],
  [("null and error checks after each acquisition", "src/*/linux/init.c, src/linux/*.c")],
  "typestate analysis with the failed outcome of each acquisition tracked separately",
  "Every acquisition site on all control-flow paths of the inlined initialization, 7 configurations.")

P("I01", "Detection runs at most once and every caller waits for it",
  "However many threads call the initialization function, and however often, the detection runs at most once per process; "
  "every call returns only after it has finished, and every call returns whether it succeeded. Deinitialization does not "
  "invalidate results or allow the detection to run again.",
  ["schedules", "histories", "configurations"],
  "every interleaving and order of initialization and deinitialization calls from any threads, in " + LINUXALL,
  "Tests initialize once from one thread; a second concurrent detection or an early return shows only under rare schedules.",
  ["src/init.c", "src/cpuinfo/internal-api.h"], [("once-guard", "src/init.c")],
  "whole-program use analysis of the once-guard, path coverage and data flow of the initialization function",
  "All uses of guard, detection function and flag; all paths of the initialization function; 7 configurations.")

P("I02", "Success is announced only after all results are complete",
  "Initialization reports success only on paths where every result that a query can return has been stored, every array "
  "that is published was allocated, and the list of processors could be read. The success indication becomes visible to "
  "other threads only after those results, and no published result changes afterwards.",
  ["schedules", "fault_sequences", "configurations"],
  "all paths of initialization including every failing allocation, all interleavings with readers, in " + LINUXALL,
  "On the test host every step succeeds and no other thread reads during initialization.",
  ["src/x86/linux/init.c", "src/arm/linux/init.c", "src/riscv/linux/init.c", "src/api.c"],
  [("commit of the results", "src/*/linux/init.c")],
  "must-store and barrier data-flow analysis, typestate of published allocations",
  "All paths of the inlined detection in 7 configurations.")

P("I05", "Published counts never exceed the objects that exist",
  "For each kind of object (processors, cores, clusters, packages, microarchitectures, every cache level) and for the "
  "per-CPU tables, the number that initialization publishes never exceeds the number of elements it allocated for them, and "
  "a list is left unallocated only if its published count is zero. A query within the reported count therefore never "
  "returns memory outside the array.",
  ["inputs", "configurations"], "every system topology that can be detected, in " + LINUXALL,
  "Tests see the few topologies of recorded phones and the host; a count taken from the wrong level often coincides there.",
  ["src/x86/linux/init.c", "src/arm/linux/init.c", "src/riscv/linux/init.c", "src/api.c"],
  [("allocation sizes and published counts", "src/*/linux/init.c")],
  "value-numbered SSA comparison of allocation sizes and published counts",
  "Every list and table in 7 configurations; relations hold for all topologies.")

P("D01", "The x86 vendor is an exact function of the CPUID identification string",
  "On x86, for every 12-byte identification string that the processor can report, the vendor is the one documented for that "
  "exact string, and any other string, including one that differs in a single character, gives the unknown vendor.",
  ["inputs", "configurations"], "all 2^96 identification strings, 32-bit and 64-bit x86",
  "Tests run on one vendor; the mock strings are a handful.",
  ["src/x86/vendor.c", "src/x86/init.c"], [("vendor decoding", "src/x86/vendor.c")],
  "Boolean-function data-flow analysis from CPUID to the decoded vendor",
  "Exact equality of Boolean functions over all identification strings.")

P("D02", "The x86 microarchitecture is an exact function of vendor, family and model",
  "On x86, for every vendor, family and model that CPUID can encode, the reported microarchitecture is the documented one, "
  "and an undocumented family or model gives the unknown microarchitecture; extended family and extended model take part "
  "as the vendor manuals define. The reported CPUID signature is the unmodified leaf 1 EAX.",
  ["inputs", "configurations"], "all vendors and all values of the CPUID signature, 32-bit and 64-bit x86",
  "Tests see one signature; a wrong row of the tables or wrong combination of extended fields shows only on other processors.",
  ["src/x86/uarch.c", "src/x86/info.c", "src/x86/init.c"], [("family and model decoding", "src/x86/info.c, src/x86/uarch.c")],
  "Boolean-function data-flow analysis from CPUID to the decoded microarchitecture",
  "Exact equality of Boolean functions over all signatures.")

P("D03", "The ARM vendor and microarchitecture are exact functions of the MIDR",
  "On ARM, for every main ID register value, the vendor and the microarchitecture are the documented ones for its implementer, "
  "part number and, where it distinguishes designs, variant; all other bits are ignored. An undocumented part gives the "
  "unknown microarchitecture with the implementer's vendor, an undocumented implementer gives unknown for both.",
  ["inputs", "configurations"], "all 2^32 MIDR values (and VFPv4 presence on 32-bit), 32-bit and 64-bit ARM",
  "Tests cover the parts in recorded phones; other parts, revisions and variants never occur in them.",
  ["src/arm/uarch.c", "src/arm/midr.h", "src/arm/linux/init.c"], [("MIDR decoding", "src/arm/uarch.c")],
  "Boolean-function data-flow analysis from the MIDR to the decoded vendor and microarchitecture",
  "Exact equality of Boolean functions over all register values; the use of the decoder in initialization.")

TOPO = "every processor topology, Linux on x86 (32 and 64-bit) and ARM (32 and 64-bit)"
P("T01", "Cores, clusters, packages and caches cover exactly the processors linked to them",
  "On x86 and ARM Linux, each logical processor's core, cluster, package and cache links point to elements of the respective "
  "published lists, and the processor range that such an element declares (first processor and count) consists of exactly "
  "the consecutive processors that link to it. The totals of a single package equal the published totals.",
  ["inputs", "configurations"], TOPO,
  "Recorded phones and the host have few cache and cluster shapes; hyper-threading, several packages, shared L2 or L4 are not "
  "among them.",
  ["src/x86/linux/init.c", "src/arm/linux/init.c"], [("loops that fill the lists", "src/x86/linux/init.c, src/arm/linux/init.c")],
  "loop summarisation with guarded linear forms, inductive step of the filling loops",
  "All loops that fill the lists, for all record contents; ordering of the records is a separate property.")

P("T02", "Cores, clusters and packages are nested and numbered consistently",
  "On x86 and ARM Linux, a core and a cluster refer to the same cluster and package as their processors, the first core, core "
  "count, first cluster and cluster count of a cluster or package describe exactly the cores and clusters created within it, "
  "and SMT, core and cluster identifiers restart from zero in each new core or package and grow by one.",
  ["inputs", "configurations"], TOPO,
  "Needs several packages, clusters and SMT threads at once, which no test machine has.",
  ["src/x86/linux/init.c", "src/arm/linux/init.c"], [("loops that fill the lists", "src/x86/linux/init.c, src/arm/linux/init.c")],
  "loop summarisation with guarded linear forms, inductive step of the filling loops",
  "All loops that fill the lists, for all record contents.")

P("T03", "Objects carry the identification and geometry of their own processor and level",
  "On x86 and ARM Linux, the vendor, microarchitecture and CPUID or MIDR of each core, cluster and microarchitecture entry, the "
  "operating system and APIC identifiers of each processor, and the size, associativity, sets, partitions, line size and flags "
  "of each cache are those detected for that processor and that cache level. Looking up a CPU number gives the processor, "
  "core and microarchitecture of that CPU.",
  ["inputs", "configurations"], TOPO,
  "Values of different fields or levels coincide on the machines that tests see; big.LITTLE CPU numbering varies.",
  ["src/x86/linux/init.c", "src/arm/linux/init.c"], [("loops that fill the lists", "src/x86/linux/init.c, src/arm/linux/init.c")],
  "loop summarisation with guarded linear forms, provenance of the stored values",
  "All values stored to the lists and per-CPU tables, for all record contents.")

P("T04", "Processors are sorted usable first, grouped, performance cores first",
  "On x86 and ARM Linux, the order in which processors are listed is a consistent total preorder that puts usable processors before "
  "unusable ones. On x86 processors are listed by APIC identifier; on ARM, processors of a cluster are adjacent and listed by CPU "
  "number, clusters of performance cores come before clusters of efficiency cores, and otherwise faster clusters come first.",
  ["inputs", "configurations"], "All pairs and triples of processor records: flags, MIDR, frequency, cluster, CPU number and APIC id.",
  "Sorting errors show only for particular pairs of records, e.g. equal frequencies, an offline CPU in the middle, or unusual core mixes.",
  ["src/x86/linux/init.c", "src/arm/linux/init.c", "src/arm/midr.h"],
  [("comparison functions given to qsort", "src/x86/linux/init.c, src/arm/linux/init.c"), ("core role score", "src/arm/midr.h")],
  "Boolean-function value flow over the comparison functions: reflexivity, antisymmetry, transitivity and the ordering keys are decided "
  "on canonical decision diagrams",
  "All 2^32 values of every field, any three records.")

P("T05", "The number of objects reported equals the number of objects filled in",
  "On x86 and ARM Linux, the reported numbers of cores, clusters, packages, microarchitectures and caches of each level are exactly the "
  "numbers of objects that are filled in: no object of a list is left blank and none is written beyond its end, whichever "
  "processors are usable and however they are numbered.",
  ["inputs", "configurations"], TOPO,
  "A mismatch needs a particular APIC numbering, cache sharing or set of offline CPUs; the tests see one machine or fixed dumps.",
  ["src/x86/linux/init.c", "src/arm/linux/init.c"], [("counting and filling passes", "src/x86/linux/init.c, src/arm/linux/init.c")],
  "loop summarisation with guarded linear forms; matching of the recurrences of the two passes; keys compared as bit vectors of Boolean functions",
  "All processor records and all detection results with field widths below 32 bits.")

P("T06", "x86 processors are grouped by the right bits of the APIC identifier",
  "On x86 Linux, two adjacent usable processors are placed in the same core exactly if their APIC identifiers agree outside the thread bits, "
  "in the same package exactly if they agree outside the thread and core bits, and in the same cache exactly if they agree "
  "above that cache's sharing width. They are in the same cluster exactly if they also share the last level cache that exists "
  "within a package (level 4, else 3, else 2, else 1 data).",
  ["inputs", "configurations"], "All APIC identifiers, all offsets and widths of the thread and core fields, all cache sharing widths.",
  "The bits differ per machine; the test machine has one layout, where offsets are zero and widths coincide.",
  ["src/x86/linux/init.c"], [("APIC masks", "src/x86/linux/init.c")],
  "loop summarisation with guarded linear forms; grouping keys evaluated as bit vectors of Boolean functions and compared with the architectural definition",
  "32-bit identifiers, field widths below 32.")

P("C01", "x86 cache descriptors are decoded as the Intel manuals document them",
  "On x86 processors that describe their caches by one-byte CPUID leaf 2 descriptors, every descriptor byte of the four registers is "
  "decoded, and a descriptor sets exactly the cache it is documented to describe. That cache gets the documented size, associativity "
  "and line size, one partition, and the number of sets that makes up the size; a descriptor of anything else leaves all caches as they were.",
  ["inputs", "configurations"], "All 256 descriptor values in all 15 positions, all vendors, families and models, on 32 and 64 bits.",
  "A processor has a handful of descriptors; the test machine's newer reports go through another leaf, so the table is never run.",
  ["src/x86/cache/descriptor.c", "src/x86/cache/init.c"],
  [("descriptor table", "src/x86/cache/descriptor.c"), ("descriptor bytes", "src/x86/cache/init.c")],
  "value-flow analysis over Boolean functions (BDD) of the descriptor decoder, compared for each descriptor with the documented table",
  "First pass over the registers; TLB descriptors and cache flags are not covered.")

P("C02", "x86 caches have the geometry that CPUID reports",
  "On x86 processors that enumerate caches by CPUID (leaf 4, or leaf 0x8000001D on AMD and Hygon processors with topology extensions), every "
  "reported data or unified cache of level 1 to 4 and instruction cache of level 1 has exactly the reported associativity, partitions, line size, sets, "
  "their product as size, the reported sharing between processors and the inclusive, complex indexing and unified properties. Entries are "
  "read up to the first empty one, and nothing else changes a cache.",
  ["inputs", "configurations"], "All contents of the CPUID registers of the first entries of the lists, all vendors and highest leaf numbers, on 32 and 64 bits.",
  "Each processor has one geometry; partitions, complex indexing, unified level 1 and level 4 caches do not occur on the test machine.",
  ["src/x86/cache/deterministic.c", "src/x86/cache/init.c", "src/cpuinfo/utils.h"],
  [("cache parameter decoding", "src/x86/cache/deterministic.c"), ("enumeration", "src/x86/cache/init.c")],
  "value-flow analysis over Boolean functions (BDD), with the entries of the CPUID lists peeled off the loops; sizes compared as products of factors",
  "Up to three arbitrary entries per list, and lists of up to ten entries of which the last two are arbitrary; level 4 is only reported by leaf 4.")

P("T07", "x86 thread and core fields of the APIC identifier are those CPUID reports",
  "On x86 the APIC identifier is the 32-bit x2APIC identifier where CPUID leaf 0xB is available with x2APIC and the 8-bit identifier of leaf 1 "
  "elsewhere. With leaf 0xB the thread field is the bits below the thread-level shift and the core field is the bits from there up to the "
  "core-level shift; otherwise the fields follow from leaf 1 together with leaf 4 (Intel) or leaf 0x80000008 (AMD), and a field's width is never negative.",
  ["inputs", "configurations"], "All contents of the CPUID registers involved, all highest leaf numbers, on 32 and 64 bits.",
  "Test machines have one package and one layout of the identifier; the legacy and AMD paths are not run at all.",
  ["src/x86/topology.c", "src/x86/init.c", "src/cpuinfo/utils.h"], [("topology detection", "src/x86/topology.c")],
  "value-flow analysis over Boolean functions (BDD), with the levels of leaf 0xB peeled off the loop, compared with the architectural definition",
  "Up to three levels in leaf 0xB, threads before cores, non-decreasing shifts.")

P("C03", "ARM caches are consistent and within the reported upper bound",
  "For every ARM microarchitecture, chipset, cluster size and MIDR, level 1 instruction and data caches are reported, a level 3 cache only "
  "together with a level 2 cache, and every cache has one partition, a power-of-two line size and sets * associativity * line size equal to its "
  "size. Cores designed by Arm get the associativity and line size of their reference manuals, and the upper bound on cache sizes is never below the size of the "
  "last level cache of the first processor.",
  ["inputs", "configurations"], "All microarchitectures, chipsets (vendor, series, model), MIDR values, cluster positions and architecture versions; clusters of up to 127 cores.",
  "Tests check some 50 devices; most combinations of microarchitecture, chipset and cluster size, servers in particular, never occur in them.",
  ["src/arm/cache.c", "src/cache.c"], [("cache tables", "src/arm/cache.c"), ("upper bound", "src/arm/cache.c")],
  "value-flow analysis over Boolean functions (BDD) of the cache tables, one microarchitecture at a time with everything else symbolic",
  "Absolute sizes are not compared with a table; clusters of up to 127 cores.")

P("P01", "Kernel CPU lists are read exactly",
  "From the lists of processors that the Linux kernel publishes (possible and present processors, core, cluster, package and thread siblings) "
  "exactly the listed numbers and inclusive ranges below the system's limit are taken, in whatever pieces the file is read. An entry that is "
  "not a number or range, or a range that runs backwards, is ignored and reported as a failure. No text makes the library "
  "read beyond the text or write beyond a buffer.",
  ["inputs", "faults"], "All texts of up to four characters in all ways of splitting them, longer lists and lists across the end of the buffer with symbolic "
  "digits; all processor numbers in the file names; all five Linux targets.",
  "The files exist in one form on a machine and are read in one piece; short reads, limits and malformed entries never occur in tests.",
  ["src/linux/cpulist.c", "src/linux/processors.c"], [("list parser", "src/linux/cpulist.c"), ("users of the lists", "src/linux/processors.c")],
  "abstract interpretation over Boolean functions (BDD) of the reader and parser, loops iterated until no input continues, values merged at every join",
  "Numbers of up to five digits; entries within the documented limit of 256 characters.")

P("P02", "Numbers in kernel files are read exactly",
  "The highest processor number, the frequencies and the core and package numbers are the decimal number at the start of the kernel's file for that very processor, in whatever pieces the file is read. If there is no such number, frequencies are 0, "
  "core and package number are reported as unavailable, and the number of processors falls back to the platform's limit. No text makes the library "
  "read beyond the text or write beyond a buffer.",
  ["inputs", "faults"], "All texts of up to three characters in all ways of splitting them, longer numbers and texts around the size limit; all processor numbers "
  "in the file names; all five Linux targets.",
  "The files exist in one form on a machine and are read in one piece; short reads, empty or overlong files never occur in tests.",
  ["src/linux/smallfile.c", "src/linux/processors.c"], [("file reader", "src/linux/smallfile.c"), ("number parser", "src/linux/processors.c")],
  "abstract interpretation over Boolean functions (BDD) of the reader and parser, loops iterated until no input continues, values merged at every join",
  "Numbers of up to five digits.")

P("P03", "ARM processor data in /proc/cpuinfo reach the right processor",
  "On ARM Linux every processor's implementer, part, variant, revision, architecture version, features and (32-bit) cache numbers are exactly "
  "those in its own section of /proc/cpuinfo; values that are not well-formed, lines with other keys and sections of processors beyond the "
  "system's limit change nothing. The hardware and revision texts are copied up to the size of their buffers, and nothing is read beyond "
  "the text or written beyond a buffer, in whatever pieces the file is read.",
  ["inputs", "faults"], "Symbolic digits, keys, feature names and processor numbers; all ways of receiving a section in two pieces, sections across the end of the "
  "buffer, texts around the size of their buffers; 32 and 64 bits.",
  "Tests replay the files of some 50 devices; limits, short reads, malformed values and unusual orders of lines do not occur in them.",
  ["src/arm/linux/cpuinfo.c", "src/linux/multiline.c", "src/arm/midr.h"],
  [("line parser", "src/arm/linux/cpuinfo.c"), ("file reader", "src/linux/multiline.c")],
  "abstract interpretation over Boolean functions (BDD) of the reader and parser, loops iterated until no input continues, values merged at every join, "
  "final contents of the processor records compared with the meaning of the lines",
  "Files of up to five lines, numbers up to four digits, feature names up to nine characters, four processors.")

P("P04", "x86 APIC identifiers in /proc/cpuinfo reach the right processor",
  "On x86 Linux every processor's APIC identifier is exactly the one in its own section of /proc/cpuinfo, and a processor counts as listed "
  "only if it has a section. Identifiers that are not decimal numbers, lines with other keys and sections of processors beyond the "
  "system's limit change nothing, and nothing is read beyond the text or written beyond a buffer, in whatever pieces the file is read.",
  ["inputs", "faults"], "Symbolic digits, keys and processor numbers; all ways of receiving a section in two pieces, sections across the end of the buffer; 32 and 64 bits.",
  "A machine has one /proc/cpuinfo; processor limits, gaps, short reads and malformed lines do not occur in tests.",
  ["src/x86/linux/cpuinfo.c", "src/linux/multiline.c"], [("line parser", "src/x86/linux/cpuinfo.c"), ("file reader", "src/linux/multiline.c")],
  "abstract interpretation over Boolean functions (BDD) of the reader and parser, loops iterated until no input continues, values merged at every join, "
  "final contents of the processor records compared with the meaning of the lines",
  "Files of up to five lines, numbers up to three digits, four processors.")

P("L01", "Log messages are written whole, once and to the right stream",
  "A log message of any length is written exactly once (unless memory for a long one cannot be had), as the prefix of its level (and module), the whole formatted text and a line end, without "
  "overrunning any buffer: debug and info messages to standard output, warnings, errors and fatal errors to standard error. A message above the configured "
  "level writes nothing, and a fatal error ends the program after it was written. This holds for the library's own log and for the bundled clog.",
  ["inputs", "faults"], "All lengths of the formatted text and of the module prefix, all outcomes of formatting and of allocation, all levels; all targets.",
  "Messages in tests are short; a message that just fits or just exceeds the internal buffer, and a failing allocation, never occur.",
  ["src/log.c", "deps/clog/src/clog.c"], [("library log", "src/log.c"), ("clog", "deps/clog/src/clog.c")],
  "abstract interpretation of the buffer contents with symbolic lengths over Boolean functions (BDD), values merged at joins; typestate of the argument list",
  "Lengths of prefix and text below 4096; the output call itself (write to the descriptor) is trusted.")

P("C04", "The maximum cache size on x86 is the size of the last level cache",
  "On x86 Linux the reported maximum cache size is exactly the size of the level 4 cache of the first listed processor, or of its level 3, "
  "level 2 or level 1 data cache if it has none above, and zero if it has no cache.",
  ["inputs"], "All combinations of present caches and all sizes; 32 and 64 bits.",
  "Tests run on one machine; processors with a level 4 cache or without a level 3 cache never occur.",
  ["src/cache.c", "src/x86/linux/init.c"], [("computation", "src/cache.c"), ("publication", "src/x86/linux/init.c")],
  "Boolean-function data-flow analysis (BDD) of the computation and provenance of the published value",
  "None.")
