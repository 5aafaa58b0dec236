"""Provenance: the set of sources an SSA value can come from (flow-insensitive, backwards over SSA)."""
from .ir import Arg, Const, Function, Global, Inst


def root(p):
    """base object of an address, constant offset, [(index, stride)]"""
    off, idx = 0, []
    while True:
        if isinstance(p, Inst) and p.op == "gep":
            off += p.off
            idx += p.idx
            p = p.ops[0]
        elif isinstance(p, Const) and p.kind == "cexpr" and p.op == "gep":
            off += p.off
            p = p.ops[0]
        elif isinstance(p, (Inst, Const)) and p.op in ("bitcast", "addrspacecast", "freeze"):
            p = p.ops[0]
        else:
            return p, off, idx


def origins(v, through=("phi", "select", "zext", "trunc", "sext", "bitcast", "freeze")):
    """leaves: Const / Arg / Inst (load, call, arithmetic) that v can be"""
    out, seen, work = [], set(), [v]
    while work:
        x = work.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Inst) and x.op in through:
            work += x.ops[1:] if x.op == "select" else x.ops
        else:
            out.append(x)
    return out


def number_of_some(v):
    """a number that grows in some iterations of a loop only"""
    web, todo, adds, mixed = set(), [v], [], False
    while todo:
        x = todo.pop()
        if x in web or not isinstance(x, Inst):
            continue
        if x.op in ("phi", "select", "zext", "trunc", "freeze"):
            web.add(x)
            todo += x.ops[1:] if x.op == "select" else x.ops if x.op != "phi" else [y for y, _ in x.inc]
        elif x.op == "add" and x not in adds:
            adds.append(x)
            todo.append(x.ops[0])
    for x in adds:
        if x.ops[0] in web:
            one = x.ops[1]
            mixed |= isinstance(one, Inst) and one.op == "zext" and one.ops[0].ty.bits == 1
            mixed |= any(x in ys and x.ops[0] in ys for y in web for ys in [y.ops if y.op == "select" else [z for z, _ in y.inc] if y.op == "phi" else []]
                         if y is not x.ops[0])
    return mixed


def alloca_stores(al):
    """all instructions that write (part of) this stack slot directly: stores and calls taking its address"""
    out, seen, work = [], set(), [al]
    while work:
        p = work.pop()
        if id(p) in seen:
            continue
        seen.add(id(p))
        for u in p.users:
            if u.op in ("gep", "bitcast", "phi", "select"):
                work.append(u)
            elif u.op == "store" and u.ops[1] is p:
                out.append(u)
            elif u.op == "call":
                out.append(u)
    return out
