"""Arm MIDR identification: implementer code, part number (and variant where it matters) -> vendor and core design.

Sources: Arm technical reference manuals (MIDR_EL1 implementer and part number values), Linux arch/arm64/include/asm/cputype.h,
vendor documentation.  `a` = which instruction set the core can run an operating system in: 32, 64 or both."""

# implementer -> vendor of cores without an entry below
IMPLEMENTER = {
    "A": ("arm", (32, 64)), "B": ("broadcom", (32, 64)), "C": ("cavium", (64,)), "H": ("huawei", (32, 64)),
    "i": ("intel", (32,)), "N": ("nvidia", (32, 64)), "P": ("apm", (32, 64)), "Q": ("qualcomm", (32, 64)),
    "S": ("samsung", (32, 64)), "V": ("marvell", (32,)),
}
BOTH = (32, 64)
# (implementer, part) -> (uarch, vendor or None, architectures)
PARTS = {
    ("A", 0xC05): ("cortex_a5", None, (32,)), ("A", 0xC07): ("cortex_a7", None, (32,)), ("A", 0xC08): ("cortex_a8", None, (32,)),
    ("A", 0xC09): ("cortex_a9", None, (32,)), ("A", 0xC0C): ("cortex_a12", None, (32,)),
    ("A", 0xC0D): ("cortex_a12", None, (32,)), ("A", 0xC0E): ("cortex_a17", None, (32,)),
    ("A", 0xC0F): ("cortex_a15", None, (32,)),
    ("A", 0xD01): ("cortex_a32", None, BOTH), ("A", 0xD03): ("cortex_a53", None, BOTH), ("A", 0xD04): ("cortex_a35", None, BOTH),
    ("A", 0xD06): ("cortex_a65", None, BOTH), ("A", 0xD07): ("cortex_a57", None, BOTH), ("A", 0xD08): ("cortex_a72", None, BOTH),
    ("A", 0xD09): ("cortex_a73", None, BOTH), ("A", 0xD0A): ("cortex_a75", None, BOTH), ("A", 0xD0B): ("cortex_a76", None, BOTH),
    ("A", 0xD0C): ("neoverse_n1", None, BOTH), ("A", 0xD0D): ("cortex_a77", None, BOTH), ("A", 0xD0E): ("cortex_a76", None, BOTH),
    ("A", 0xD40): ("neoverse_v1", None, BOTH), ("A", 0xD41): ("cortex_a78", None, BOTH), ("A", 0xD44): ("cortex_x1", None, BOTH),
    ("A", 0xD46): ("cortex_a510", None, BOTH), ("A", 0xD47): ("cortex_a710", None, BOTH), ("A", 0xD48): ("cortex_x2", None, BOTH),
    ("A", 0xD49): ("neoverse_n2", None, BOTH), ("A", 0xD4A): ("neoverse_e1", None, (64,)),
    ("A", 0xD4D): ("cortex_a715", None, BOTH), ("A", 0xD4E): ("cortex_x3", None, BOTH), ("A", 0xD4F): ("neoverse_v2", None, BOTH),
    ("B", 0x00F): ("brahma_b15", None, BOTH), ("B", 0x100): ("brahma_b53", None, BOTH), ("B", 0x516): ("thunderx2", "cavium", (64,)),
    ("C", 0x0A0): ("thunderx", None, (64,)), ("C", 0x0A1): ("thunderx", None, (64,)), ("C", 0x0A2): ("thunderx", None, (64,)),
    ("C", 0x0A3): ("thunderx", None, (64,)), ("C", 0x0AF): ("thunderx2", None, (64,)),
    ("H", 0xD01): ("taishan_v110", None, (64,)), ("H", 0xD40): ("cortex_a76", "arm", BOTH),
    ("N", 0x000): ("denver", None, BOTH), ("N", 0x003): ("denver2", None, BOTH), ("N", 0x004): ("carmel", None, BOTH),
    ("P", 0x000): ("xgene", None, BOTH),
    ("Q", 0x02D): ("scorpion", None, (32,)), ("Q", 0x04D): ("krait", None, (32,)), ("Q", 0x06F): ("krait", None, (32,)),
    ("Q", 0x201): ("kryo", None, BOTH), ("Q", 0x205): ("kryo", None, BOTH), ("Q", 0x211): ("kryo", None, BOTH),
    ("Q", 0x800): ("cortex_a73", "arm", BOTH), ("Q", 0x801): ("cortex_a53", "arm", BOTH), ("Q", 0x802): ("cortex_a75", "arm", BOTH),
    ("Q", 0x803): ("cortex_a55r0", "arm", BOTH), ("Q", 0x804): ("cortex_a76", "arm", BOTH), ("Q", 0x805): ("cortex_a55", "arm", BOTH),
    ("Q", 0x001): ("oryon", None, (64,)), ("Q", 0xC00): ("falkor", None, (64,)), ("Q", 0xC01): ("saphira", None, (64,)),
    ("V", 0x581): ("pj4", None, (32,)), ("V", 0x584): ("pj4", None, (32,)),
}
# (implementer, part, variants) -> uarch
VARIANTS = {
    ("A", 0xD05, (0,)): "cortex_a55r0", ("A", 0xD05, tuple(range(1, 16))): "cortex_a55",
    ("S", 0x001, (1,)): "exynos_m1", ("S", 0x001, (4,)): "exynos_m2", ("S", 0x002, (1,)): "exynos_m3",
    ("S", 0x003, (1,)): "exynos_m4", ("S", 0x004, (1,)): "exynos_m5",
}
# families identified by the top digit of the part number (32-bit only)
FAMILIES = {("A", 7): "arm7", ("A", 9): "arm9", ("A", 11): "arm11", ("i", 2): "xscale", ("i", 4): "xscale", ("i", 6): "xscale"}
# Qualcomm 0x00F on 32-bit: Cortex-A5 with VFPv4, Scorpion without
