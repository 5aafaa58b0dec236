"""Vendor identification strings (CPUID leaf 0) and the microarchitecture of each family/model."""

VENDORS = {                      # vendor -> identification strings; second tuple: 32-bit processors only
    "intel": (("GenuineIntel",), ()),
    "amd": (("AuthenticAMD",), ("AMDisbetter!", "AMD ISBETTER")),
    "via": (("CentaurHauls",), ("VIA VIA VIA ",)),
    "hygon": (("HygonGenuine",), ()),
    "transmeta": ((), ("GenuineTMx86", "TransmetaCPU")),
    "rdc": ((), ("Genuine  RDC",)),
    "cyrix": ((), ("CyrixInstead",)),
    "rise": ((), ("RiseRiseRise",)),
    "nsc": ((), ("Geode by NSC",)),
    "sis": ((), ("SiS SiS SiS ",)),
    "nexgen": ((), ("NexGenDriven",)),
    "umc": ((), ("UMC UMC UMC ",)),
    "dmp": ((), ("Vortex86 SoC",)),
}

ANY = range(256)


def ext(*es):
    """all models with one of these extended model numbers"""
    return [e << 4 | m for e in es for m in range(16)]


# (vendor, family) -> {uarch: models}; "32" marks families/models of 32-bit-only processors
UARCH = {
    ("intel", 0x05): {"p5": ([], [1, 2, 3, 4]), "quark": ([], [9])},
    ("intel", 0x06): {
        "p6": ([], [0x01, 0x03, 0x05, 0x06, 0x07, 0x08, 0x0A, 0x0B]),
        "dothan": ([], [0x09, 0x0D, 0x15]),
        "yonah": ([], [0x0E]),
        "conroe": ([0x0F, 0x16], []),
        "penryn": ([0x17, 0x1D], []),
        "nehalem": ([0x1A, 0x1E, 0x1F, 0x2E, 0x25, 0x2C, 0x2F], []),
        "sandy_bridge": ([0x2A, 0x2D], []),
        "ivy_bridge": ([0x3A, 0x3E], []),
        "haswell": ([0x3C, 0x3F, 0x45, 0x46], []),
        "broadwell": ([0x3D, 0x47, 0x4F, 0x56], []),
        "sky_lake": ([0x4E, 0x55, 0x5E, 0x8E, 0x9E, 0xA5, 0xA6], []),
        "palm_cove": ([0x66], []),
        "sunny_cove": ([0x6A, 0x6C, 0x7D, 0x7E], []),
        "golden_cove": ([0x8F, 0xCF], []),
        "bonnell": ([0x1C, 0x26], []),
        "saltwell": ([0x27, 0x35, 0x36], []),
        "silvermont": ([0x37, 0x4A, 0x4D, 0x5A, 0x5D], []),
        "airmont": ([0x4C, 0x75], []),
        "goldmont": ([0x5C, 0x5F], []),
        "goldmont_plus": ([0x7A], []),
        "knights_landing": ([0x57], []),
        "knights_mill": ([0x85], []),
    },
    ("intel", 0x0F): {"willamette": ([0, 1, 2], []), "prescott": ([3, 4, 6], [])},
    ("amd", 0x05): {"k5": ([], [0, 1, 2]), "k6": ([], [6, 7, 8, 0xD]), "geode": ([], [0xA])},
    ("amd", 0x06): {"k7": ([], ANY)},
    ("amd", 0x0F): {"k8": (ANY, [])},
    ("amd", 0x11): {"k8": (ANY, [])},
    ("amd", 0x10): {"k10": (ANY, [])},
    ("amd", 0x12): {"k10": (ANY, [])},
    ("amd", 0x14): {"bobcat": (ANY, [])},
    ("amd", 0x15): {
        "bulldozer": ([m for m in ext(0) if m != 0x02], []),
        "piledriver": ([0x02] + ext(1, 2), []),
        "steamroller": (ext(3, 4), []),
        "excavator": ([0x60, 0x65, 0x70], []),
    },
    ("amd", 0x16): {"jaguar": (ext(0, 1, 2), []), "puma": (ext(*range(3, 16)), [])},
    ("amd", 0x17): {"zen": (ext(0, 1), []), "zen2": (ext(3, 4, 6, 7, 9), [])},
    ("amd", 0x19): {"zen3": (ext(0, 2, 3, 4, 5), []), "zen4": (ext(1, 6, 7, 0xA), [])},
    ("amd", 0x1A): {"zen5": (ANY, [])},
    ("hygon", 0x18): {"dhyana": (ANY, [])},
}
