"""Where each x86 instruction-set extension is enumerated (Intel SDM Vol. 2A CPUID / Vol. 1 ch. 13-18,
AMD APM Vol. 3 appendix E, VIA PadLock programming guide).

Each entry: field -> (expression, register state).  An expression is a list of alternatives (OR) of
CPUID bits (leaf, subleaf, register, bit).  State names the extended state the OS must have enabled.
"""
L1, L7, L71, E1, E8, PL = (1, None), (7, 0), (7, 1), (0x80000001, None), (0x80000008, None), (0xC0000001, None)


def b(leaf, reg, bit):
    return [(leaf[0], leaf[1], reg, bit)]


BOTH = "64/32"
FIELDS = {
    # general
    "rdtsc": (b(L1, "edx", 4) + b(E1, "edx", 4), None),
    "rdtscp": (b(E1, "edx", 27), None),
    "rdpid": (b(L7, "ecx", 22), None),
    "sysenter": (b(L1, "edx", 11), None),
    "syscall": (b(E1, "edx", 11), None),
    "msr": (b(L1, "edx", 5) + b(E1, "edx", 5), None),
    "clzero": (b(E8, "ebx", 0), None),
    "clflush": (b(L1, "edx", 19), None),
    "clflushopt": (b(L7, "ebx", 23), None),
    "mwait": (b(L1, "ecx", 3), None),
    "mwaitx": (b(E1, "ecx", 29), None),
    "xsave": (b(L1, "ecx", 26), None),
    # scalar / legacy SIMD
    "fpu": (b(L1, "edx", 0) + b(E1, "edx", 0), None),
    "mmx": (b(L1, "edx", 23) + b(E1, "edx", 23), None),
    "mmx_plus": (b(L1, "edx", 25) + b(E1, "edx", 22), None),
    "three_d_now": (b(E1, "edx", 31), None),
    "three_d_now_plus": (b(E1, "edx", 30), None),
    "prefetchwt1": (b(L7, "ecx", 0), None),
    "sse": (b(L1, "edx", 25), None),
    "sse2": (b(L1, "edx", 26), None),
    "sse3": (b(L1, "ecx", 0), None),
    "ssse3": (b(L1, "ecx", 9), None),
    "sse4_1": (b(L1, "ecx", 19), None),
    "sse4_2": (b(L1, "ecx", 20), None),
    "sse4a": (b(E1, "ecx", 6), None),
    "misaligned_sse": (b(E1, "ecx", 7), None),
    # AVX family
    "avx": (b(L1, "ecx", 28), "avx"),
    "fma3": (b(L1, "ecx", 12), "avx"),
    "fma4": (b(E1, "ecx", 16), "avx"),
    "xop": (b(E1, "ecx", 11), "avx"),
    "f16c": (b(L1, "ecx", 29), "avx"),
    "avx2": (b(L7, "ebx", 5), "avx"),
    "avxvnni": (b(L71, "eax", 4), "avx"),
    "avx_vnni_int8": (b(L71, "edx", 4), "avx"),
    "avx_vnni_int16": (b(L71, "edx", 10), "avx"),
    "avx_ne_convert": (b(L71, "edx", 5), "avx"),
    "vaes": (b(L7, "ecx", 9), "avx"),
    "vpclmulqdq": (b(L7, "ecx", 10), "avx"),
    # AVX-512 family
    "avx512f": (b(L7, "ebx", 16), "avx512"),
    "avx512pf": (b(L7, "ebx", 26), "avx512"),
    "avx512er": (b(L7, "ebx", 27), "avx512"),
    "avx512cd": (b(L7, "ebx", 28), "avx512"),
    "avx512dq": (b(L7, "ebx", 17), "avx512"),
    "avx512bw": (b(L7, "ebx", 30), "avx512"),
    "avx512vl": (b(L7, "ebx", 31), "avx512"),
    "avx512ifma": (b(L7, "ebx", 21), "avx512"),
    "avx512vbmi": (b(L7, "ecx", 1), "avx512"),
    "avx512vbmi2": (b(L7, "ecx", 6), "avx512"),
    "avx512bitalg": (b(L7, "ecx", 12), "avx512"),
    "avx512vpopcntdq": (b(L7, "ecx", 14), "avx512"),
    "avx512vnni": (b(L7, "ecx", 11), "avx512"),
    "avx512_4vnniw": (b(L7, "edx", 2), "avx512"),
    "avx512_4fmaps": (b(L7, "edx", 3), "avx512"),
    "avx512vp2intersect": (b(L7, "edx", 8), "avx512"),
    "avx512fp16": (b(L7, "edx", 23), "avx512"),
    "avx512bf16": (b(L71, "eax", 5), "avx512"),
    "avx10_1": (b(L71, "edx", 19), "avx512"),
    # AMX
    "amx_bf16": (b(L7, "edx", 22), "amx"),
    "amx_tile": (b(L7, "edx", 24), "amx"),
    "amx_int8": (b(L7, "edx", 25), "amx"),
    "amx_fp16": (b(L71, "eax", 21), "amx"),
    # transactional memory, bounds
    "hle": (b(L7, "ebx", 4), None),
    "rtm": (b(L7, "ebx", 11), None),
    "xtest": (b(L7, "ebx", 4) + b(L7, "ebx", 11), None),
    "mpx": (b(L7, "ebx", 14), "mpx"),
    # scalar
    "cmov": (b(L1, "edx", 15) + b(E1, "edx", 15), None),
    "cmpxchg8b": (b(L1, "edx", 8) + b(E1, "edx", 8), None),
    "cmpxchg16b": (b(L1, "ecx", 13), None),
    "clwb": (b(L7, "ebx", 24), None),
    "movbe": (b(L1, "ecx", 22), None),
    "lahf_sahf": (b(E1, "ecx", 0), None),
    "fs_gs_base": (b(L7, "ebx", 0), None),
    "lzcnt": (b(E1, "ecx", 5), None),
    "popcnt": (b(L1, "ecx", 23), None),
    "tbm": (b(E1, "ecx", 21), None),
    "bmi": (b(L7, "ebx", 3), None),
    "bmi2": (b(L7, "ebx", 8), None),
    "adx": (b(L7, "ebx", 19), None),
    "aes": (b(L1, "ecx", 25), None),
    "pclmulqdq": (b(L1, "ecx", 1), None),
    "gfni": (b(L7, "ecx", 8), None),
    "rdrand": (b(L1, "ecx", 30), None),
    "rdseed": (b(L7, "ebx", 18), None),
    "sha": (b(L7, "ebx", 29), None),
    "lwp": (b(E1, "ecx", 15), None),
}
# VIA PadLock: unit present and enabled
PADLOCK = {"rng": (2, 3), "ace": (6, 7), "ace2": (8, 9), "phe": (10, 11), "pmm": (12, 13)}
STATE = {"avx": 0x6, "avx512": 0xE6, "mpx": 0x18, "amx": 0x60000}
SPECIAL = ["fxsave", "emmx", "three_d_now_geode", "prefetch", "prefetchw", "daz", "avx10_2"]
