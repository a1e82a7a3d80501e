"""Operation scripts that TLC derives from the design models (spec/PoolDesign.tla): one per transition of the state graph."""
import concurrent.futures as cf
import random
import re

from . import core

ALL = "C01 C02 C03 C04 C08 C09 C10 C13 C14 C23".split()
# kind, heuristic, value, first, next, sizes
CONFIGS = [("QP", 1, 100, 4, 2, "{1, 2, 5}"), ("QP", 2, 100, 3, 2, "{1, 2, 4}"), ("QP", 3, 2, 2, 2, "{1, 2, 3}"), ("QP", 4, 2, 2, 3, "{1, 2, 3}"),
           ("QP", 1, 50, 4, 2, "{1, 2, 3}"), ("QP", 0, 0, 6, 3, "{1, 2, 3}"), ("DL", 1, 100, 4, 2, "{1, 2, 5}"), ("DL", 2, 100, 3, 2, "{1, 2, 4}"),
           ("DL", 3, 2, 2, 2, "{1, 2, 3}"), ("DL", 4, 2, 2, 3, "{1, 2, 3}"), ("DL", 2, 50, 4, 2, "{1, 2, 3}"), ("DL", 0, 0, 6, 3, "{1, 2, 3}")]


def config(c, depth, emit, live=4, blocks=3):
    kind, hk, hv, first, nxt, sizes = c
    consts = (f'  Kind = "{kind}"\n  First = {first}\n  Nxt = {nxt}\n  Sizes = {sizes}\n  MaxLive = {live}\n  MaxBlocks = {blocks}\n'
              f'  HK = {hk}\n  HV = {hv}\n  Depth = {depth}\n  Emit = {"TRUE" if emit else "FALSE"}\n')
    return core.cfg(ALL, diag=False, consts=consts, post=None, inv=("StepsAllowed", "NoOverlap", "SameRuns"), view="View", constraint="Bound") + \
        ("ACTION_CONSTRAINT Script\n" if emit else "")


def explore(chk, cfgs, depth, timeout=300):
    """Model-check the design in each configuration; returns [(configuration, [script])]."""
    def one(c):
        r = core.tlc("PoolDesign", config(c, depth, True), chk.dir, timeout=timeout)
        if "Model checking completed. No error has been found" not in r["out"]:
            raise core.ToolError(f"PoolDesign {c}: does not hold or did not finish\n" + r["out"][-2000:])
        got = re.findall(r'^"([SM]) ;(.*)"$', r["out"], re.M)
        drop = {g.rsplit(";", 1)[0] for _, g in got}     # a prefix of another script adds nothing
        return c, sorted({(m, g) for m, g in got if g not in drop or m == "M"}), r
    with cf.ThreadPoolExecutor(core.NPROC) as ex:
        out = list(ex.map(one, cfgs))
    for c, got, r in out:
        chk.cov["states"] += r["distinct"]
        chk.cov["transitions"] += r["states"]
        chk.cov["parts"].append(dict(part="pool design", kind="model", module="PoolDesign", config=list(c), depth=depth, states=r["distinct"],
                                     transitions=r["states"], scripts=len(got)))
    return [(c, got) for c, got, _ in out]


def scripts(found, seed, n):
    """n episodes (0: all) for harness/h_alloc.cpp; a unit of the model is 16 or 64 bytes here, requests need not be a multiple of it."""
    r = random.Random(seed)
    every = [(c, g) for c, got in found for _, g in got]
    if n and len(every) > n:      # steps that give up blocks are the most telling, and few
        first = [(c, g) for c, got in found for m, g in got if m == "M"]
        first = r.sample(first, min(len(first), n * 2 // 3))
        every = first + r.sample(every, n - len(first))
    for k, ((kind, hk, hv, first, nxt, _), g) in enumerate(every):
        u = r.choice([16, 16, 64, 8])
        lines = [f"U {r.choice([0, 0, 3, 1])} 16 0 {r.randint(1, 9999)} 0", f"N {kind} 0 1 {first * u} {nxt * u} {u} {hk} {hv}"]
        for op in g.split(";"):
            w = op.split()
            if w[0] == "A":
                lines.append(f"A 1 {int(w[1]) * u - r.choice([0, 0, 1, u - 1])}")
            elif w[0] in "RC":
                lines.append(w[0] + " 1")
            else:
                lines.append(op)
        yield f"design{k}", lines + ["P"] + ["F 0"] * r.choice([0, 4])
