import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import T05
from vf import check
from vf.topo import uniq
from vf.util import pmap


def main():
    ck = check.Check(
        "T06", "other",
        technique="loop summarisation with guarded linear forms; grouping keys evaluated as bit vectors of Boolean functions of the "
                  "APIC id and the field widths and compared with the architectural definition",
        rule="processors are grouped by the APIC id bits above the thread bits (cores), outside thread and core bits (packages), "
             "those or the bits above the last level cache's sharing width (clusters), and above the sharing width (caches)",
        assumptions=["bit field widths reported by CPUID are below 32"])
    for r in pmap(T05.analyse, ("x86_64", "i686")):
        for o in uniq(r):
            if "key" in o[0] or "last level" in o[0] or "different" in o[0] or ": fill" in o[0]:
                ck.obligation(*o)
    ck.finish(90)


if __name__ == "__main__":
    check.main(main)
