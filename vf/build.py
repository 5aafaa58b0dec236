"""Compile /repo's current sources to LLVM IR, one linked module per build configuration.

The IR is only read by the analyses; nothing is executed.
"""
import atexit
import glob
import hashlib
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import ir

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "clang-18"
OPT = "opt-18"
LINK = "llvm-link-18"

_tmp = None


def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vf-")
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


class Cfg:
    def __init__(self, name, triple, arch, os_, flags, dirs, skip=(), extra=(), level=2, std="c99"):
        self.name, self.triple, self.arch, self.os = name, triple, arch, os_
        self.flags, self.dirs, self.skip, self.extra, self.level, self.std = flags, dirs, skip, extra, level, std

    def with_level(self, n):
        c = Cfg(f"{self.name}@log{n}", self.triple, self.arch, self.os, self.flags, self.dirs, self.skip, self.extra,
                n, self.std)
        return c

    def with_flags(self, suffix, flags):
        return Cfg(f"{self.name}@{suffix}", self.triple, self.arch, self.os, list(self.flags) + list(flags), self.dirs,
                   self.skip, self.extra, self.level, self.std)

    def only(self, *srcs):
        """the same configuration restricted to some source files"""
        c = Cfg(self.name + "/" + ",".join(srcs), self.triple, self.arch, self.os, self.flags, [], (), srcs, self.level,
                self.std)
        return c

    def sources(self):
        out = []
        for d in self.dirs:
            out += sorted(glob.glob(os.path.join(REPO, "src", d, "*.c")))
        out = [s for s in out if not any(k in os.path.relpath(s, REPO) for k in ("mock",) + tuple(self.skip))]
        out += [os.path.join(REPO, e) for e in self.extra]
        return out


def _sys(t):
    return [f"--sysroot=/usr/{t}", "-isystem", f"/usr/{t}/include"]


STUBS = os.path.join(VERIF, "stubs")
X86 = ["x86", "x86/cache"]
LINUX = {
    "x86_64": Cfg("x86_64", "x86_64-linux-gnu", "x86", "linux", [], ["", "linux"] + X86 + ["x86/linux"]),
    "i686": Cfg("i686", "i686-linux-gnu", "x86", "linux", _sys("i686-linux-gnu"), ["", "linux"] + X86 + ["x86/linux"]),
    "aarch64": Cfg("aarch64", "aarch64-linux-gnu", "arm", "linux", _sys("aarch64-linux-gnu"),
                   ["", "linux", "arm", "arm/linux"], skip=("arm/tlb.c", "aarch32-isa.c")),
    "armv7": Cfg("armv7", "armv7-linux-gnueabihf", "arm", "linux", _sys("arm-linux-gnueabihf"),
                 ["", "linux", "arm", "arm/linux"], skip=("arm/tlb.c", "aarch64-isa.c")),
    "riscv64": Cfg("riscv64", "riscv64-linux-gnu", "riscv", "linux", _sys("riscv64-linux-gnu"),
                   ["", "linux", "riscv", "riscv/linux"]),
}
_AND = ["-D__ANDROID__=1", "-D__ANDROID_API__=21", "-isystem", os.path.join(STUBS, "android")]
ANDROID = {
    "aarch64-android": Cfg("aarch64-android", "aarch64-linux-gnu", "arm", "android", _AND + _sys("aarch64-linux-gnu"),
                           ["", "linux", "arm", "arm/linux", "arm/android"], skip=("arm/tlb.c", "aarch32-isa.c")),
    "armv7-android": Cfg("armv7-android", "armv7-linux-gnueabihf", "arm", "android", _AND + _sys("arm-linux-gnueabihf"),
                         ["", "linux", "arm", "arm/linux", "arm/android"], skip=("arm/tlb.c", "aarch64-isa.c")),
}
ALL = dict(LINUX)
ALL.update(ANDROID)


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stderr[-4000:])
    return p.stdout


def cflags(cfg):
    return ["--target=" + cfg.triple, "-std=" + cfg.std, "-D_GNU_SOURCE=1", f"-DCPUINFO_LOG_LEVEL={cfg.level}",
            "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")] + list(cfg.flags) + ["-w"]


def _cc(cfg, src, out, extra=()):
    run([CLANG] + cflags(cfg) + list(extra) +
        ["-O1", "-funroll-loops", "-Xclang", "-disable-llvm-passes", "-Xclang", "-disable-lifetime-markers", "-g", "-fno-discard-value-names", "-fno-strict-aliasing",
         "-fdebug-prefix-map=" + REPO + "/=", "-fno-builtin-memcmp", "-emit-llvm", "-c", src, "-o", out])


_macros = {}


def macro(cfg, header, name):
    """value of an integer constant (macro or enumerator) of a header of the library, None if it is not defined there"""
    key = (cfg.name, header, name)
    if key not in _macros:
        d = os.path.join(tmp(), "macros")
        os.makedirs(d, exist_ok=True)
        src = os.path.join(d, f"{cfg.name}-{name}-{os.getpid()}.c")
        with open(src, "w") as f:
            f.write(f"#include <stdint.h>\n#include <{header}>\nconst unsigned long long value = (unsigned long long)({name});\n")
        try:
            o = run([CLANG] + cflags(cfg) + ["-S", "-emit-llvm", "-o", "-", src])
            m = re.search(r"^@value = .*constant i64 (-?\d+)", o, re.M)
            _macros[key] = int(m.group(1)) & (1 << 64) - 1 if m else None
        except BuildError:
            _macros[key] = None
    return _macros[key]


_raw = {}


def raw(cfg, extra_sources=()):
    """-> path of the linked, un-optimised module of this configuration"""
    key = (cfg.name, tuple(extra_sources))
    if key in _raw:
        return _raw[key]
    d = os.path.join(tmp(), hashlib.sha1(repr(key).encode()).hexdigest()[:10])
    os.makedirs(d, exist_ok=True)
    srcs = cfg.sources() + list(extra_sources)
    outs = []
    jobs = []
    with ThreadPoolExecutor(8) as ex:
        for s in srcs:
            o = os.path.join(d, re.sub(r"\W", "_", s) + ".%d.bc" % os.getpid())
            outs.append(o)
            jobs.append(ex.submit(_cc, cfg, s, o))
        for j in jobs:
            j.result()
    out = os.path.join(d, "all.bc")
    part = "%s.%d" % (out, os.getpid())
    run([LINK] + outs + ["-o", part])
    os.replace(part, out)
    _raw[key] = out
    return out


def opt(inp, passes, args=()):
    key = hashlib.sha1((inp + passes + repr(args)).encode()).hexdigest()[:12]
    out = os.path.join(tmp(), "o" + key + ".bc")
    if not os.path.exists(out):
        part = "%s.%d" % (out, os.getpid())
        run([OPT, "-passes=" + passes, inp, "-o", part] + list(args))
        os.replace(part, out)
    return out


def load(path, cfg=None):
    m = ir.Module(path, cfg)
    return m


def public_api():
    """Names of functions and objects declared by the public header for external linkage."""
    txt = run([CLANG, "-w", "-x", "c", "-fsyntax-only", "-Xclang", "-ast-dump=json", os.path.join(REPO, "include/cpuinfo.h")])
    import json
    tree = json.loads(txt)
    names = set()
    for d in tree.get("inner", []):
        if d.get("kind") == "FunctionDecl" and d.get("name", "").startswith("cpuinfo_") and d.get("storageClass") != "static":
            names.add(d["name"])
    return names


def inlined(cfg, keep, extra_sources=(), noinline=(), post="function(sroa,simplifycfg)", mode="all"):
    """Linked module in SSA form in which everything is inlined into the `keep` functions."""
    r = raw(cfg, extra_sources)
    passes = "internalize,function(sroa),cgscc(devirt<8>(inline,function(sroa,instsimplify,simplifycfg))),globaldce"
    # short loops with a constant number of iterations are the same as the statements one after another
    passes += ",function(loop-simplify,lcssa,loop(loop-unroll-full),sroa,instsimplify,simplifycfg)"
    if post:
        passes += "," + post
    args = ["-internalize-public-api-list=" + ",".join(sorted(keep)), "-inline-threshold=10000000",
            "-inlinehint-threshold=10000000", "-inlinecold-threshold=10000000", "-inline-cold-callsite-threshold=10000000",
            "-locally-hot-callsite-threshold=10000000", "-inline-max-stacksize=100000000", "-unroll-full-max-count=16"]
    if noinline:
        args2 = []
        r = add_noinline(r, noinline)
    if "jump-threading" in passes:
        args.append("-jump-threading-threshold=60")
    if post and "loop-unroll" in post:
        args.append("-unroll-threshold=100000")
    return opt(r, passes, args)


def peeled(path, n):
    """The first n iterations of every innermost loop apart from the loop."""
    return opt(path, "function(loop-simplify,lcssa,loop-unroll,simplifycfg)", ["-unroll-force-peel-count=%d" % n])


def add_noinline(path, names):
    args = ["-force-attribute=%s:noinline" % n for n in sorted(names)]
    return opt(path, "forceattrs", args)
