"""The public API as the analysed compiler sees it."""
import json
import os

from . import build

_ast = {}


def header_functions(cfg):
    """[(name, is_static_inline, return type, [param types])] declared by include/cpuinfo.h in this configuration"""
    if cfg.name in _ast:
        return _ast[cfg.name]
    hdr = os.path.join(build.REPO, "include/cpuinfo.h")
    txt = build.run([build.CLANG] + build.cflags(cfg) + ["-x", "c", "-fsyntax-only", "-Xclang", "-ast-dump=json", hdr])
    tree = json.loads(txt)
    out = []
    seen = set()
    for d in tree.get("inner", []):
        if d.get("kind") != "FunctionDecl" or not d.get("name", "").startswith("cpuinfo_"):
            continue
        if d["name"] in seen:
            continue
        seen.add(d["name"])
        qt = d["type"]["qualType"]
        params = [p["type"]["qualType"] for p in d.get("inner", []) if p.get("kind") == "ParmVarDecl"]
        out.append((d["name"], d.get("storageClass") == "static", qt[:qt.index("(")].strip(), params))
    _ast[cfg.name] = out
    return out


def queries(cfg):
    """out-of-line functions that answer questions about the system"""
    return [f for f in header_functions(cfg) if not f[1] and f[0] not in ("cpuinfo_initialize", "cpuinfo_deinitialize")]


def inline_accessors(cfg):
    return [f for f in header_functions(cfg) if f[1]]


def wrappers(cfg):
    """path of a generated translation unit that instantiates every inline accessor as vf_<name>"""
    p = os.path.join(build.tmp(), f"wrap_{cfg.name}.c")
    with open(p, "w") as f:
        f.write("#include <cpuinfo.h>\n")
        for n, _, rt, params in inline_accessors(cfg):
            ps = ", ".join(f"{t} a{i}" for i, t in enumerate(params)) or "void"
            args = ", ".join(f"a{i}" for i in range(len(params)))
            f.write(f"{rt} vf_{n}({ps}) {{ return {n}({args}); }}\n")
    return p
