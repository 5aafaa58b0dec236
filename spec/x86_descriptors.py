"""Cache descriptors of CPUID leaf 2: Intel SDM volume 2A, table 3-12, and Application Note 485.

descriptor -> (level, KBytes, ways, bytes per line)
"""
CACHE = {
    0x06: ("l1i", 8, 4, 32), 0x08: ("l1i", 16, 4, 32), 0x09: ("l1i", 32, 4, 64), 0x0A: ("l1d", 8, 2, 32), 0x0C: ("l1d", 16, 4, 32),
    0x0D: ("l1d", 16, 4, 64), 0x0E: ("l1d", 24, 6, 64), 0x1D: ("l2", 128, 2, 64), 0x21: ("l2", 256, 8, 64),
    0x22: ("l3", 512, 4, 64), 0x23: ("l3", 1024, 8, 64), 0x24: ("l2", 1024, 16, 64), 0x25: ("l3", 2048, 8, 64),
    0x29: ("l3", 4096, 8, 64), 0x2C: ("l1d", 32, 8, 64), 0x30: ("l1i", 32, 8, 64), 0x39: ("l2", 128, 4, 64), 0x3A: ("l2", 192, 6, 64),
    0x3B: ("l2", 128, 2, 64), 0x3C: ("l2", 256, 4, 64), 0x3D: ("l2", 384, 6, 64), 0x3E: ("l2", 512, 4, 64), 0x41: ("l2", 128, 4, 32),
    0x42: ("l2", 256, 4, 32), 0x43: ("l2", 512, 4, 32), 0x44: ("l2", 1024, 4, 32), 0x45: ("l2", 2048, 4, 32), 0x46: ("l3", 4096, 4, 64),
    0x47: ("l3", 8192, 8, 64), 0x48: ("l2", 3072, 12, 64), 0x4A: ("l3", 6144, 12, 64), 0x4B: ("l3", 8192, 16, 64),
    0x4C: ("l3", 12288, 12, 64), 0x4D: ("l3", 16384, 16, 64), 0x4E: ("l2", 6144, 24, 64), 0x60: ("l1d", 16, 8, 64),
    0x66: ("l1d", 8, 4, 64), 0x67: ("l1d", 16, 4, 64), 0x68: ("l1d", 32, 4, 64), 0x78: ("l2", 1024, 4, 64), 0x79: ("l2", 128, 8, 64),
    0x7A: ("l2", 256, 8, 64), 0x7B: ("l2", 512, 8, 64), 0x7C: ("l2", 1024, 8, 64), 0x7D: ("l2", 2048, 8, 64), 0x7F: ("l2", 512, 2, 64),
    0x80: ("l2", 512, 8, 64), 0x82: ("l2", 256, 8, 32), 0x83: ("l2", 512, 8, 32), 0x84: ("l2", 1024, 8, 32), 0x85: ("l2", 2048, 8, 32),
    0x86: ("l2", 512, 4, 64), 0x87: ("l2", 1024, 8, 64), 0xD0: ("l3", 512, 4, 64), 0xD1: ("l3", 1024, 4, 64), 0xD2: ("l3", 2048, 4, 64),
    0xD6: ("l3", 1024, 8, 64), 0xD7: ("l3", 2048, 8, 64), 0xD8: ("l3", 4096, 8, 64), 0xDC: ("l3", 1536, 12, 64),
    0xDD: ("l3", 3072, 12, 64), 0xDE: ("l3", 6144, 12, 64), 0xE2: ("l3", 2048, 16, 64), 0xE3: ("l3", 4096, 16, 64),
    0xE4: ("l3", 8192, 16, 64), 0xEA: ("l3", 12288, 24, 64), 0xEB: ("l3", 18432, 24, 64), 0xEC: ("l3", 24576, 24, 64),
}

# 0x49: level 3 on Xeon MP (family 0Fh, model 06h), level 2 elsewhere
SHARED_49 = (4096, 16, 64)

# Cyrix and National Semiconductor give 0x80 another meaning: unified level 1 cache (32-bit processors)
CYRIX_80 = (16, 4, 16)

PREFETCH = {0xF0: 64, 0xF1: 128}
