"""Author a planted bug: seed(id, property, needs, breaks, [(file, old, new)], {name: text}) writes seeded/<id>/."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_BASE", "/repo")


def seed(id, prop, needs, breaks, subs, files):
    assert not subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in subs:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    for n, t in files.items():
        open(os.path.join(d, n), "w").write(t.lstrip("\n"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)


# a fake x86 processor: included before every source file of the detection code
FAKE_H = r"""
#pragma once
#include <stdbool.h>
#include <string.h>
#include <cpuid.h>
#include <x86/cpuid.h>
extern struct cpuid_regs fake_cpuid(uint32_t leaf, uint32_t sub);
extern uint64_t fake_xgetbv(uint32_t reg);
#define cpuid(l) fake_cpuid((l), 0)
#define cpuidex(l, s) fake_cpuid((l), (s))
#define xgetbv(r) fake_xgetbv(r)
"""

SH_X86 = r"""
#!/bin/bash
# builds the detection code of the current tree around a fake processor and runs it
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
gcc -w -std=gnu99 -D_GNU_SOURCE=1 -DCPUINFO_LOG_LEVEL=0 -Iinclude -Isrc -include "$here/fake.h" \
    "$here/demo.c" src/x86/init.c src/x86/info.c src/x86/vendor.c src/x86/uarch.c src/x86/isa.c src/x86/topology.c \
    src/x86/cache/*.c src/cache.c src/api.c src/log.c -lpthread -o "$tmp/demo"
"$tmp/demo"
"""

SH_LIB = r"""
#!/bin/bash
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
gcc -w -std=gnu99 -D_GNU_SOURCE=1 -Iinclude -Isrc "$here/demo.c" _build/x86_64/libcpuinfo.a -lpthread -ldl -o "$tmp/demo"
"$tmp/demo"
"""

SH_A64 = r"""
#!/bin/bash
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
aarch64-linux-gnu-gcc -w -static -std=gnu99 -D_GNU_SOURCE=1 -Iinclude -Isrc "$here/demo.c" _build/aarch64/libcpuinfo.a \
    -lpthread -o "$tmp/demo"
qemu-aarch64 "$tmp/demo"
"""
