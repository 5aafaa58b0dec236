"""Meaning of the inline capability accessors.

An accessor cpuinfo_has_<arch>_<name> reports the flag of the same name on its own architecture and false on all
others.  Only the entries that deviate from this are listed; an entry is the conjunction of flags, True or False.
"""
PREFIX = {"x86": ("x86_64", "i686"), "arm": ("aarch64", "armv7"), "riscv": ("riscv64",)}
STRUCT = {"x86_64": "cpuinfo_x86_isa", "i686": "cpuinfo_x86_isa", "aarch64": "cpuinfo_arm_isa",
          "armv7": "cpuinfo_arm_isa", "riscv64": "cpuinfo_riscv_isa"}

# guaranteed by the base architecture
X86_64 = {n: True for n in ("rdtsc", "fpu", "mmx", "mmx_plus", "sse", "sse2", "cmov", "cmpxchg8b", "daz")}
X86_64["3dnow_geode"] = False           # no 64-bit Geode exists
I686 = {"lahf_sahf": True, "cmpxchg16b": False}      # CMPXCHG16B cannot be encoded in 32-bit code
X86 = {"3dnow": ("three_d_now",), "3dnow_plus": ("three_d_now_plus",), "3dnow_geode": ("three_d_now_geode",)}

AARCH64 = {
    "thumb": False, "thumb2": False, "v5e": False, "v6": False, "v6k": False, "v7": False, "v7mp": False, "v8": True,
    "idiv": True, "vfpv2": False, "vfpv3": True, "vfpv3_d32": True, "vfpv3_fp16": True, "vfpv3_fp16_d32": True,
    "vfpv4": True, "vfpv4_d32": True, "wmmx": False, "wmmx2": False, "neon": True, "neon_fp16": True, "neon_fma": True,
    "neon_v8": True, "fp16_arith": ("fp16arith",), "neon_rdm": ("rdm",), "neon_fp16_arith": ("fp16arith",),
    "neon_dot": ("dot",), "neon_bf16": ("bf16",), "sve_bf16": ("sve", "bf16"),
}
ARMV7 = {
    "v5e": ("armv5e",), "v6": ("armv6",), "v6k": ("armv6k",), "v7": ("armv7",), "v7mp": ("armv7mp",), "v8": ("armv8",),
    "vfpv3_d32": ("vfpv3", "d32"), "vfpv3_fp16": ("vfpv3", "fp16"), "vfpv3_fp16_d32": ("vfpv3", "fp16", "d32"),
    "vfpv4": ("vfpv3", "fma"), "vfpv4_d32": ("vfpv3", "fma", "d32"), "neon_fp16": ("neon", "fp16"),
    "neon_fma": ("neon", "fma"), "neon_v8": ("neon", "armv8"), "fp16_arith": ("fp16arith",), "neon_rdm": ("rdm",),
    "neon_fp16_arith": ("neon", "fp16arith"), "neon_dot": ("dot",),
    # not available to 32-bit code
    "bf16": False, "neon_bf16": False, "sve": False, "sve2": False, "sve_bf16": False, "i8mm": False, "sme": False,
    "sme2": False, "sme2p1": False, "sme_i16i32": False, "sme_bi32i32": False, "sme_b16b16": False,
    "sme_f16f16": False, "atomics": False,
}
RISCV64 = {"g": ("i", "m", "a", "f", "d"), "e": False}


def expected(target, arch, name, fields):
    """True/False/tuple of flags, or None when the specification does not know the accessor"""
    if target not in PREFIX[arch]:
        return False
    t = {"x86_64": [X86_64, X86], "i686": [I686, X86], "aarch64": [AARCH64], "armv7": [ARMV7], "riscv64": [RISCV64]}[target]
    for d in t:
        if name in d:
            e = d[name]
            if isinstance(e, tuple) and not all(f in fields for f in e):
                continue
            return e
    if name in fields:
        return (name,)
    return None
