"""What the lines of /proc/cpuinfo mean on ARM (Linux arch/arm64/kernel/cpuinfo.c, arch/arm/kernel/setup.c, uapi/asm/hwcap.h)."""

# name -> (word, bit)
FEATURES = {
    "aarch64": {n: (1, k) for n, k in {
        "fp": 0, "asimd": 1, "evtstrm": 2, "aes": 3, "pmull": 4, "sha1": 5, "sha2": 6, "crc32": 7, "atomics": 8, "fphp": 9,
        "asimdhp": 10, "cpuid": 11, "asimdrdm": 12, "jscvt": 13, "fcma": 14, "lrcpc": 15, "asimdfhm": 23}.items()}
    | {"i8mm": (2, 13)},
    "armv7": {n: (1, k) for n, k in {
        "swp": 0, "wp": 0, "half": 1, "thumb": 2, "26bit": 3, "fastmult": 4, "fpa": 5, "vfp": 6, "edsp": 7, "java": 8, "iwmmxt": 9,
        "crunch": 10, "thumbee": 11, "neon": 12, "vfpv3": 13, "vfpv3d16": 14, "tls": 15, "tlsi": 15, "vfpv4": 16, "idiva": 17,
        "idivt": 18, "vfpd32": 19, "lpae": 20, "evtstrm": 21}.items()}
    | {n: (2, k) for n, k in {"aes": 0, "pmull": 1, "sha1": 2, "sha2": 3, "crc32": 4}.items()},
}

# key -> (lowest bit, width) of the main ID register, longest hexadecimal number
MIDR = {"CPU part": (4, 12, 3), "CPU implementer": (24, 8, 2), "CPU implementor": (24, 8, 2), "CPU variant": (20, 4, 1)}
REVISION = (0, 4)
ARCHITECTURE = (16, 4)

# 32-bit only: key -> (field, flag)
CACHE = {
    "I size": ("i_size", "ICACHE_SIZE"), "I sets": ("i_sets", "ICACHE_SETS"), "I assoc": ("i_assoc", "ICACHE_WAYS"),
    "I line length": ("i_line_length", "ICACHE_LINE"),
    "D size": ("d_size", "DCACHE_SIZE"), "D sets": ("d_sets", "DCACHE_SETS"), "D assoc": ("d_assoc", "DCACHE_WAYS"),
    "D line length": ("d_line_length", "DCACHE_LINE"),
}

LINES = (16, 32, 64, 128)       # line lengths that are accepted


def midr_architecture(arch, version, letters):
    """the architecture field of the main ID register"""
    if arch == "armv7" and version == 6:
        return 7
    if arch == "armv7" and version == 5:
        return 6 if set("TEJ") <= set(letters) else 5 if set("TE") <= set(letters) else 4
    return 15
