"""Associativity and line size of the caches of Arm's own cores, from their Technical Reference Manuals.

microarchitecture -> level -> (ways, bytes per line); ways 0: depends on the size (4 KB per way)
"""


def core(l1i, l1d, l2=None, l3=None):
    return {k: v for k, v in (("l1i", l1i), ("l1d", l1d), ("l2", l2), ("l3", l3)) if v}


A76 = core((4, 64), (4, 64), (8, 64), (16, 64))
CORES = {
    "cortex_a5": core((2, 32), (4, 32), (8, 32)),
    "cortex_a7": core((2, 32), (4, 64), (8, 64)),
    "cortex_a8": core((4, 64), (4, 64), (8, 64)),
    "cortex_a9": core((4, 32), (4, 32)),
    "cortex_a15": core((2, 64), (2, 64), (16, 64)),
    "cortex_a17": core((4, 64), (4, 64), (16, 64)),
    "cortex_a35": core((2, 64), (4, 64), (8, 64)),
    "cortex_a53": core((2, 64), (4, 64), (16, 64)),
    "cortex_a55": core((4, 64), (4, 64), None, (16, 64)),
    "cortex_a55r0": core((4, 64), (4, 64), None, (16, 64)),
    "cortex_a57": core((3, 64), (2, 64), (16, 64)),
    "cortex_a65": core((4, 64), (4, 64), (4, 64), (16, 64)),
    "cortex_a72": core((3, 64), (2, 64), (16, 64)),
    "cortex_a73": core((4, 64), (0, 64), (16, 64)),
    "cortex_a75": core((4, 64), (16, 64), (8, 64), (16, 64)),
    "cortex_a76": A76,
    "cortex_a77": A76,
    "neoverse_n1": A76,
    "neoverse_v1": A76,
    "neoverse_n2": A76,
    "neoverse_v2": A76,
}
# cores that only exist in 32-bit builds
ONLY32 = {"cortex_a5", "cortex_a7", "cortex_a8", "cortex_a9", "cortex_a15", "cortex_a17"}
