"""Meaning of the ARM ISA flags.

HWCAP bit numbers: Linux arch/arm64/include/uapi/asm/hwcap.h and arch/arm/include/uapi/asm/hwcap.h (cross-checked with
the kernel headers of the installed cross toolchains when the check runs).  Core numbers: MIDR implementer/part of the
core's Technical Reference Manual.
"""
# ---- AArch64
HWCAP64 = {"FP": 0, "ASIMD": 1, "EVTSTRM": 2, "AES": 3, "PMULL": 4, "SHA1": 5, "SHA2": 6, "CRC32": 7, "ATOMICS": 8,
           "FPHP": 9, "ASIMDHP": 10, "CPUID": 11, "ASIMDRDM": 12, "JSCVT": 13, "FCMA": 14, "LRCPC": 15, "DCPOP": 16,
           "SHA3": 17, "SM3": 18, "SM4": 19, "ASIMDDP": 20, "SHA512": 21, "SVE": 22, "ASIMDFHM": 23}
HWCAP2_64 = {"DCPODP": 0, "SVE2": 1, "SVEAES": 2, "SVEPMULL": 3, "SVEBITPERM": 4, "SVESHA3": 5, "SVESM4": 6, "FLAGM2": 7,
             "FRINT": 8, "SVEI8MM": 9, "SVEF32MM": 10, "SVEF64MM": 11, "SVEBF16": 12, "I8MM": 13, "BF16": 14, "SME": 23,
             "SME2": 37, "SME2P1": 38, "SME_I16I32": 39, "SME_BI32I32": 40, "SME_B16B16": 41, "SME_F16F16": 42}

# flag -> any of these (word, bit name)
PLAIN64 = {
    "aes": [(1, "AES")], "pmull": [(1, "PMULL")], "sha1": [(1, "SHA1")], "sha2": [(1, "SHA2")], "crc32": [(1, "CRC32")],
    "atomics": [(1, "ATOMICS")], "jscvt": [(1, "JSCVT")], "fcma": [(1, "FCMA")], "sve": [(1, "SVE")],
    "fhm": [(1, "ASIMDFHM")], "sve2": [(2, "SVE2")], "sme": [(2, "SME")], "sme2": [(2, "SME2")],
    "sme2p1": [(2, "SME2P1")], "sme_i16i32": [(2, "SME_I16I32")], "sme_bi32i32": [(2, "SME_BI32I32")],
    "sme_b16b16": [(2, "SME_B16B16")], "sme_f16f16": [(2, "SME_F16F16")], "i8mm": [(2, "I8MM")],
    "bf16": [(2, "BF16"), (2, "SVEBF16")],
}

# cores (implementer << 24 | part << 4) with FP16 arithmetic and SQRDMLAH that old kernels fail to report
FP16_RDM_64 = {
    0x4100D050: "Cortex-A55", 0x4100D060: "Cortex-A65", 0x4100D0A0: "Cortex-A75", 0x4100D0B0: "Cortex-A76",
    0x4100D0C0: "Neoverse N1", 0x4100D0D0: "Cortex-A77", 0x4100D0E0: "Cortex-A76AE", 0x4100D400: "Neoverse V1",
    0x4100D490: "Neoverse N2", 0x4100D4F0: "Neoverse V2", 0x4800D400: "Cortex-A76 (HiSilicon)",
    0x51008020: "Kryo 385 Gold", 0x51008030: "Kryo 385 Silver", 0x51008040: "Kryo 485 Gold",
    0x51008050: "Kryo 485 Silver", 0x53000030: "Exynos M4", 0x53000040: "Exynos M5",
}
# cores with UDOT/SDOT: minimum variant
DOT_64 = {
    0x4100D060: 0, 0x4100D0B0: 0, 0x4100D0C0: 0, 0x4100D0D0: 0, 0x4100D0E0: 0, 0x4100D400: 0, 0x4100D490: 0,
    0x4100D4A0: 0, 0x4100D4F0: 0, 0x4800D400: 0, 0x51008040: 0, 0x51008050: 0, 0x53000030: 0, 0x53000040: 0,
    0x4100D050: 1,      # Cortex-A55 since r1
    0x4100D0A0: 2,      # Cortex-A75 since r2
}

# ---- AArch32
HWCAP32 = {"SWP": 0, "HALF": 1, "THUMB": 2, "26BIT": 3, "FAST_MULT": 4, "FPA": 5, "VFP": 6, "EDSP": 7, "JAVA": 8,
           "IWMMXT": 9, "CRUNCH": 10, "THUMBEE": 11, "NEON": 12, "VFPv3": 13, "VFPv3D16": 14, "TLS": 15, "VFPv4": 16,
           "IDIVA": 17, "IDIVT": 18, "VFPD32": 19, "LPAE": 20, "EVTSTRM": 21}
HWCAP2_32 = {"AES": 0, "PMULL": 1, "SHA1": 2, "SHA2": 3, "CRC32": 4}
FP16_RDM_32 = dict(FP16_RDM_64)
del FP16_RDM_32[0x4100D060]
FP16_RDM_32.update({0x4100D410: "Cortex-A78", 0x4100D440: "Cortex-X1", 0x4100D460: "Cortex-A510",
                    0x4100D470: "Cortex-A710", 0x4100D480: "Cortex-X2", 0x4100D4D0: "Cortex-A715",
                    0x4100D4E0: "Cortex-X3"})
DOT_32 = {k: 0 for k in FP16_RDM_32 if k not in (0x51008020, 0x51008030)}
DOT_32[0x4100D050] = 1
DOT_32[0x4100D0A0] = 2
ARMV7MP = (0x4100C050, 0x4100C090, 0x510002D0, 0x510004D0, 0x510006F0)   # Cortex-A5, A9, Scorpion MP, Krait
KRAIT = (0x510004D0, 0x510006F0)
SCORPION = (0x510000F0, 0x510002D0)
CORTEX_A9 = 0x4100C090
ARM1156 = 0x4100B560
