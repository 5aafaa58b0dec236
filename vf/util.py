"""Small helpers shared by the checks."""
from concurrent.futures import ProcessPoolExecutor
import os
import time

from . import build
from .ir import Const, Function, Global, Inst
from .vflow import VFlow, Ptr, NULL


def strip(v):
    """look through value-preserving casts"""
    while isinstance(v, Inst) and v.op in ("trunc", "zext", "sext", "bitcast", "freeze", "addrspacecast"):
        v = v.ops[0]
    return v


def callee(i):
    return i.callee.name if i.op == "call" and isinstance(i.callee, Function) else None


def reaches_return(fn):
    """blocks from which a normal return is reachable (fatal paths excluded)"""
    good = set()
    work = []
    for bb in fn.blocks:
        if bb.term.op == "ret" and not any(i.op == "call" and i.noreturn for i in bb.insts):
            good.add(bb)
            work.append(bb)
    while work:
        bb = work.pop()
        for p in bb.preds:
            if p not in good and not any(i.op == "call" and i.noreturn for i in p.insts):
                good.add(p)
                work.append(p)
    return good


def init_flag(cfg, module=None):
    """name of the global whose value cpuinfo_initialize() returns"""
    m = module or build.load(build.inlined(cfg, ["cpuinfo_initialize"]), cfg)
    fn = m.functions.get("cpuinfo_initialize")
    if fn is None or fn.decl:
        raise RuntimeError("anchor cpuinfo_initialize not found")
    names = set()
    seen = set()
    work = [i.ops[0] for bb in fn.blocks for i in bb.insts if i.op == "ret" and i.ops]
    while work:
        v = work.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, Inst):
            if v.op == "load" and isinstance(v.ops[0], Global):
                names.add(v.ops[0].name)
            elif v.op != "call":
                work += v.ops
    return names


def pmap(fn, items, workers=8):
    """parallel map over independent configurations"""
    return list(pstream(fn, items, None, workers))


def pstream(fn, items, ck=None, workers=8):
    """the same, result by result; ends early where the check has found violations and takes long"""
    items = list(items)
    if len(items) <= 1 or os.environ.get("VF_SERIAL"):
        yield from map(fn, items)
        return
    ex = ProcessPoolExecutor(min(workers, len(items)))
    try:
        for f in [ex.submit(fn, x) for x in items]:
            yield f.result()
            if ck is not None and ck.viol and time.time() - ck.t0 > 200:
                break
    except BaseException:
        for p in list((ex._processes or {}).values()):
            p.kill()
        ex.shutdown(wait=False, cancel_futures=True)
        raise
    else:
        for p in list((ex._processes or {}).values()) if ck is not None else ():
            p.kill()
        ex.shutdown(wait=ck is None, cancel_futures=True)
