"""Seeded scripts for harness/h_alloc.cpp."""
import random


def _sizes(r, al, first, nxt, big=False):
    menu = [1, al - 1, al, al + 1, 2 * al, 2 * al + 1, 3 * al, first, first - 1, first + 1,
            first - al, first + al, nxt, nxt + 1, nxt - al, nxt // 2, first // 2, r.randint(1, first + nxt)]
    n = r.choice(menu)
    return max(1, n)


def arena(r):
    gran = r.choice([16, 16, 16, 8, 64, 1])
    mis = r.choice([0, 0, 0, gran // 2, 1 % gran])
    return f"U {r.choice([0, 0, 0, 1, 2, 3])} {gran} {mis} {r.randint(1, 30000)} {r.choice([0, 0, 0, 1])}"


def scale(r):
    """Most histories are small; some work on kilobytes or megabytes."""
    return r.choice([1] * 12 + [4, 8, 64, 64, 512, 1024])


def pool_params(r):
    al = r.choice([16] * 6 + [8, 8, 32, 32, 64, 64, 128, 128, 1, 2, 256, 4096, 8192, 65536])
    first = r.choice([al, 2 * al, 4 * al, 5 * al, 64, 128, 256, 1024, 3, 100, 0])
    nxt = r.choice([al, 2 * al, 3 * al, 64, 128, 256, 1, 50, 0])
    h = r.choice([(0, 0), (1, 100), (2, 100), (1, 50), (2, 50), (1, 50), (2, 25), (1, 25), (2, 75), (1, 75), (3, 2), (3, 3), (4, 2), (4, 3),
                  (3, 1), (4, 1), (1, 1), (2, 99), (1, 70)])
    if r.random() < .15:
        h = (r.choice([1, 2]), r.choice([0, r.randint(1, 99), r.randint(1, 99)]))
    k = scale(r)
    if first * k < 300000 and nxt * k < 300000:
        first, nxt = first * k, nxt * k
    return first, nxt, al, h


def body(r, lids, size, nops, misuse=0.05, faults=0.1, maint=0.08, zero=0.04, named=0.05, huge=0.01, free_bias=0.45,
         tracked=True):
    out = []
    live = 0
    phase = r.random()
    while len(out) < nops:
        x = r.random()
        if r.random() < 0.05:
            phase = r.random()
        if x < misuse and live:
            k = r.choice("WVGHO")
            out.append(f"{k} {r.choice(lids)} {r.randint(0, 99)} {r.choice([1, 1, 2, 7, 8, 15, 16, 63])}")
        elif x < misuse + faults:
            y = r.random()
            if y < 0.5:
                out.append(f"X {r.choice([1, 1, 2, 2, 3])}")
            elif y < 0.8:
                out.append(f"L {r.choice([0, 0, 16, 64, 256, 1024])}")
            else:
                out.append("L -1")
        elif x < misuse + faults + maint:
            hit = faults > 0 and r.random() < 0.3
            out += ["X 99"] * hit + [r.choice("RC") + f" {r.choice(lids)}"] + ["X 0"] * hit
        elif x < misuse + faults + maint + zero:
            out.append(f"{'B' if r.random() < 3 * named else 'A'} {r.choice(lids)} 0")
            live += 1
        elif x < misuse + faults + maint + zero + huge:
            out.append(f"A {r.choice(lids)} {r.choice(['max-0', 'max-1', 'max-15', 'max-16', 'max-17', 'half+1', 'half+9', 'max-4096', 'max-6', 'max-7', 'max-63', 'max-127', 'g4+0', 'g4+1', 'g4+16', 'g4+64', 'g2+0', 'g2+16'])}")
        elif (r.random() < (0.25 + free_bias * phase)) and live:
            y = r.random() if faults else 1
            if y < 0.2:
                out.append("X 1" if y < 0.07 else "X 99")      # bites if this makes the pool coalesce
            out.append(("F" if r.random() < 0.85 or not tracked else "f") + f" {r.choice([0, live - 1, r.randint(0, live)])}")
            if 0.07 <= y < 0.2:
                out.append("X 0")
            live -= 1
        else:
            i = r.choice(lids)
            out.append(f"{'B' if r.random() < named else 'A'} {i} {size(i)}")
            live += 1
    tail = r.random()
    if tail < 0.55:
        out.append("L -1")
        out.append("X 0")
        order = list(range(live))
        for _ in order:
            out.append(f"F {r.choice([0, 0, r.randint(0, 50)])}")
        out.append("P")
        if r.random() < 0.5:
            out += [f"R {i}" for i in lids]
    return out


def ep_pool(r, nops, kind=None):
    first, nxt, al, h = pool_params(r)
    kind = kind or r.choice(["QP", "DL"])
    lines = [arena(r), f"N {kind} 0 {r.choice([1] * 9 + [0])} {first} {nxt} {al} {h[0]} {h[1]}"]
    untracked = lines[1].split()[3] == "0"
    return lines + body(r, [1], lambda i: _sizes(r, al, max(first, 1), max(nxt, 1)), nops,
                        misuse=0 if untracked else r.choice([0, 0.06]), faults=r.choice([0, 0.05, 0.15]),
                        maint=r.choice([0.02, 0.1, 0.2]), zero=0.02, tracked=not untracked)


def ep_two_pools(r, nops):
    lines = [arena(r)]
    pp = []
    for _ in range(2):
        first, nxt, al, h = pool_params(r)
        lines.append(f"N {r.choice(['QP', 'DL'])} 0 1 {first} {nxt} {al} {h[0]} {h[1]}")
        pp.append((first, nxt, al))
    return lines + body(r, [1, 2], lambda i: _sizes(r, pp[i - 1][2], max(pp[i - 1][0], 1), max(pp[i - 1][1], 1)), nops,
                        misuse=0.1, faults=0.05)


def ep_fixed(r, nops):
    obj = r.choice([1, 3, 8, 16, 24, 100, 1000, 5000])
    per = r.choice([1, 2, 3, 7, 8, 31, 32, 33, 63, 64, 65, 96, 97, 130])
    lines = [arena(r), f"N FP 0 1 {obj} {per}"]
    return lines + body(r, [1], lambda i: obj if r.random() < 0.95 else obj + r.choice([1, 7, 100]), min(nops, 40) + 2 * per if r.random() < 0.5 else nops, maint=0.05,
                        misuse=r.choice([0, 0.05]), faults=r.choice([0, 0.1]), zero=0.02, free_bias=r.choice([0.2, 0.45]))


def ep_mixed(r, nops):
    small = r.choice([8, 16, 32, 256])
    mult = r.choice([2, 4, 3])
    large = small * mult ** r.choice([0, 1, 2])
    maxfix = r.choice([large * 2, large * 3, large * 8, small])
    al = r.choice([16, 32, 64])
    qi, qm = r.choice([256, 1024, 20000]), r.choice([128, 512, 9000])
    h = r.choice([(0, 0), (1, 100), (2, 100), (3, 2), (1, 50)])
    lines = [arena(r), f"N MP 0 1 {small} {large} {maxfix} {mult} {qi} {qm} {al} {h[0]} {h[1]}"]
    sz = [1, small - 1, small, small + 1, small * mult, small * mult + 1, large - 1, large, large + 1, 2 * large, qi, qm, qi + 1]
    return lines + body(r, [1], lambda i: max(1, r.choice(sz)), nops, maint=0.03, misuse=0.03, faults=r.choice([0, 0.08]))


def ep_mixchurn(r, nops):
    """Waves of small and large requests: memory moves between the pools inside a MixedPool."""
    small, mult = r.choice([8, 16, 32, 64]), r.choice([2, 4])
    large = small * mult ** r.choice([0, 1])
    lines = [f"U 0 {r.choice([16, 64])} 0 {r.randint(1, 9999)} 0",
             f"N MP 0 1 {small} {large} {large * r.choice([2, 3, 4])} {mult} {r.choice([64, 256])} {r.choice([64, 128, 256])} 16 "
             + r.choice(["1 100", "2 100", "3 2", "1 50"])]
    live = 0
    for _ in range(r.randint(3, 6)):
        big = r.random() < 0.5
        for _ in range(r.randint(3, 10)):
            n = r.choice([large + 1, 2 * large, 3 * large, 100 + large]) if big else r.choice([1, small, large, large - 1])
            lines.append(f"A 1 {max(1, n)}")
            live += 1
        keep = r.choice([0, 0, 1, 3])
        while live > keep:
            lines.append(f"F {r.choice([0, live - 1, r.randint(0, live)])}")
            live -= 1
        if r.random() < 0.3:
            lines += ["X 1", f"A 1 {r.choice([small, 4 * large])}"]
            live += 1
    return lines + ["P"]


def ep_slot(r, nops):
    sz = r.sample([1, 8, 16, 17, 64, 100, 128, 4000, 70000], 3)
    lines = [arena(r), f"N SP 0 1 {r.choice([1, 2, 3, 5, 8, 12])}"]
    return lines + body(r, [1], lambda i: r.choice(sz), nops, maint=0.02, misuse=0.03, faults=r.choice([0, 0.15]))


def ep_mono(r, nops):
    cap = r.choice([64, 100, 256, 1000, 70000, 1 << 21])
    lines = [arena(r), f"N MO 0 1 {cap}"]
    return lines + body(r, [1], lambda i: r.choice([1, 7, 8, 16, cap // 4, cap // 2, cap - 1, cap, cap + 1, r.randint(1, cap)]),
                        min(nops, 25), maint=0.02, misuse=0.03, faults=0)


def ep_aligned(r, nops):
    al = r.choice([16, 32, 64, 128, 256, 1024, 4096, 65536])
    lines = [arena(r), f"N AA 0 1 {al}"]
    return lines + body(r, [1], lambda i: r.choice([1, 7, 8, 9, al - 1, al, al + 1, 3 * al, r.randint(1, 500), 3000, 9000]), nops,
                        maint=0.02, misuse=0.05, faults=r.choice([0, 0.1]), huge=0.02)


def ep_limit(r, nops):
    lim = r.choice([0, 1, 16, 64, 100, 256, 1000, 1000, 70000, 1 << 20])
    under = r.choice(["", "", "QP", "SL"])
    lines = [arena(r)]
    if under == "QP":
        lines.append("N QP 0 1 128 64 16 0 0")
    elif under == "SL":
        lines.append(f"N SL 0 1 {lim + r.choice([-20, 0, 50]) if lim > 30 else lim}")
    p = len(lines) - 1
    lines.append(f"N SL {p} 1 {lim if r.random() < 0.93 else r.choice(['g4+0', 'g4+16', 'g2+64', 'max-0', 'g4+1000'])}")
    ids = list(range(1, p + 2))
    sz = [1, 7, 16, max(1, lim // 4), max(1, lim // 3), max(1, lim // 2), max(1, lim - 1), max(1, lim), lim + 1]
    return lines + body(r, ids, lambda i: r.choice(sz), nops, maint=0.02, misuse=0.05, faults=r.choice([0, 0.1]), huge=0.02)


def ep_stack(r, nops):
    """Composed layers, allocations at every level."""
    lines = [arena(r)]
    k = r.randint(2, 4)
    al0 = 16
    params = []
    for j in range(k):
        par = len(params)
        kind = r.choice(["QP", "DL", "NA", "NS", "TS", "SL", "AA", "MP", "QP", "DL"])
        if kind in ("QP", "DL"):
            first, nxt, al, h = pool_params(r)
            params.append((al, max(first, 1), max(nxt, 1)))
            lines.append(f"N {kind} {par} 1 {first} {nxt} {al} {h[0]} {h[1]}")
        elif kind == "SL":
            params.append((16, 64, 100))
            lines.append(f"N SL {par} 1 {r.choice([200, 1000, 100000])}")
        elif kind == "AA":
            params.append((32, 64, 100))
            lines.append(f"N AA {par} 1 {r.choice([16, 32, 128])}")
        elif kind == "MP":
            params.append((16, 64, 128))
            lines.append(f"N MP {par} 1 16 64 256 2 256 128 16 1 100")
        else:
            params.append((16, 64, 100))
            lines.append(f"N {kind} {par} 1")
    ids = list(range(1, k + 1)) if r.random() < 0.5 else [k]
    return lines + body(r, ids, lambda i: _sizes(r, *params[i - 1]), nops, maint=0.06, misuse=0.06,
                        faults=r.choice([0, 0.06]), huge=0.01, named=0.1)


def ep_wrap(r, nops):
    lines = [arena(r)]
    kind = r.choice(["NA", "NS", "TS"])
    base = r.choice(["", "QP", "DL"])
    if base:
        lines.append(f"N {base} 0 1 256 128 16 1 100")
    lines.append(f"N {kind} {len(lines) - 1} 1")
    return lines + body(r, list(range(1, len(lines))), lambda i: r.choice([1, 8, 16, 17, 100, 300]), nops, misuse=0.08,
                        faults=r.choice([0, 0.1]), named=0.2)


def ep_zero(r, nops):
    lines = [arena(r), "N QP 0 1 256 128 16 1 100", "N SL 1 1 500", "N NA 0 1", "N FP 0 1 8 4"]
    b = body(r, [1, 2, 3], lambda i: r.choice([1, 16, 100]), nops, zero=0.6, misuse=0.05, faults=0.02, free_bias=0.3)
    for _ in range(r.choice([0, 1, 2])):
        b.insert(r.randint(0, len(b)), f"ZC {r.randint(1, 4)} {r.choice([20, 60])} {r.choice([1, 2, 5, 9])}")
    return lines + b


def ep_zero_many(r, nops):
    n = r.choice([2047, 2048, 2049, 2100])
    lines = [arena(r), "N NA 0 1"] + ["A 1 0"] * n
    for _ in range(60):
        lines.append(r.choice(["F %d" % r.randint(0, n), "A 1 0"]))
    return lines


def ep_bulk(r, nops):
    """Thousands of live allocations: more than one set of internal headers holds."""
    k = r.choice(["DL", "DL", "DL", "QP", "QP", "FP", "MP", "NA"])
    lines = [f"U {r.choice([0, 0, 3])} 16 0 {r.randint(1, 9999)} 0"]
    sizes = r.choice([[16], [1, 20, 40], [16, 16, 48], [8, 100]])
    if k in ("DL", "QP"):
        lines.append(f"N {k} 0 1 {r.choice([4096, 65536])} {r.choice([8192, 16384])} 16 0 0")
    elif k == "FP":
        lines.append(f"N FP 0 1 40 {r.choice([500, 1000, 2048])}")
        sizes = [40]
    elif k == "MP":
        lines.append("N MP 0 1 16 64 32768 2 65536 16384 16 0 0")
        sizes = [16, 30, 64, 100]
    else:
        lines.append("N NA 0 1")
    n = r.choice([1100, 2060]) if k != "NA" else 400
    lines.append(f"AB 1 {n} {r.choice(sizes)}")
    for _ in range(2):
        lines.append(f"FB 1 {r.choice([50, 70, 90])} {r.randint(1, 9999)}")
        lines.append(f"AB 1 {r.choice([100, 1100])} {r.choice(sizes)}")
    lines += [f"F {r.randint(0, 3000)}", f"A 1 {sizes[0]}"]
    return lines + [f"FB 1 100 {r.randint(1, 9999)}", "R 1", "A 1 16"] * (r.random() < 0.7)


def ep_giant(r, nops):
    """Gigabytes: every number counts in units of 2^20 to 2^26 bytes (alignments too)."""
    sh = r.choice([26, 26, 26, 24, 20])
    lines = [f"S {sh}", f"U {r.choice([0, 0, 1, 2, 3])} {1 << sh} 0 {r.randint(1, 30000)} {r.choice([0, 0, 1])}"]
    params = []
    for _ in range(r.choice([1, 1, 2])):
        kind = r.choice(["QP", "QP", "DL", "DL", "SL", "MO", "NA", "TS", "NS"])
        par = len(params)
        if kind in ("QP", "DL"):
            al, first, nxt = r.choice([1, 1, 2, 8]), r.choice([0, 1, 64, 100, 128]), r.choice([0, 1, 64, 65, 100])
            h = r.choice([(0, 0), (1, 100), (2, 100), (3, 2), (4, 2), (3, 1)])
            lines.append(f"N {kind} {par} 1 {first} {nxt} {al} {h[0]} {h[1]}")
        elif kind in ("SL", "MO"):
            al, first, nxt = 1, r.choice([64, 65, 128, 300]), 64
            lines.append(f"N {kind} {par} 1 {first}")
        else:
            al, first, nxt = 1, 64, 65
            lines.append(f"N {kind} {par} 1")
        params.append((al, max(first, 1), max(nxt, 1)))
    return lines + body(r, list(range(1, len(params) + 1)), lambda i: min(_sizes(r, *params[i - 1]), 200), nops, huge=0,
                        faults=r.choice([0, 0.08]), maint=r.choice([0.02, 0.1]))


def ep_blocks(r, nops):
    """A pool of very many blocks: made, emptied, released or coalesced."""
    k, b = r.choice(["QP", "DL"]), r.choice([64, 100, 256])
    h = r.choice([(0, 0), (0, 0), (0, 0), (1, 100), (2, 100), (3, 30), (4, 30), (1, 60)])
    lines = [f"U {r.choice([0, 0, 1, 3])} 16 0 {r.randint(1, 9999)} 0", f"N {k} 0 1 {b} {b} 16 {h[0]} {h[1]}"]
    if h != (0, 0):      # one at a time: any of these may coalesce
        n = r.choice([45, 70])
        lines.append(f"AB 1 {n} {b}")
        lines += [f"F {r.choice([0, 0, r.randint(0, 99)])}" for _ in range(r.choice([n, n, n - 9]))]
        return lines + [r.choice(["R 1", "C 1", "P"]), f"A 1 {b}", f"AB 1 20 {b}", "P"]
    for _ in range(r.choice([1, 2, 3])):
        lines.append(f"AB 1 {r.choice([45, 90, 150, 300])} {r.choice([b, b, b - 3, b // 2])}")
        lines.append(f"FB 1 {r.choice([40, 70, 95, 100, 100])} {r.randint(1, 9999)}")
        lines += r.choice([["R 1"], ["R 1"], ["C 1"], [], [f"A 1 {3 * b}", "R 1"], ["X 1", "C 1", "X 0"]])
    return lines + [f"FB 1 100 {r.randint(1, 9999)}", r.choice(["R 1", "C 1"]), f"A 1 {b}", "P"]


def ep_bulkfp(r, nops):
    """More objects in one FixedPool than a byte can count words for."""
    s = lambda: r.randint(1, 9999)
    return [f"U {r.choice([0, 3])} 16 0 {s()} 0", f"N FP 0 1 8 {r.choice([8600, 9000])}", "AB 1 8500 8", f"FB 1 30 {s()}", "AB 1 1500 8",
            f"FB 1 90 {s()}", "AB 1 100 8"]


def ep_ctor(r, nops):
    """Construction while the parent refuses the k-th request."""
    lines = [arena(r), f"X {r.choice([1, 1, 2])}" if r.random() < 0.6 else f"L {r.choice([0, 64, 300, 600])}"]
    under = r.choice(["", "", "NA", "SL"])
    if under:
        lines.append(f"N {under} 0 1 {r.choice([50, 300, 700])}")
    p = 1 if under else 0
    lines.append(r.choice([f"N FP {p} 1 16 8", f"N MO {p} 1 100", f"N MP {p} 1 16 64 256 2 256 128 16 1 100", f"N SP {p} 1 2"]))
    return lines + body(r, [p + 1], lambda i: 16, min(nops, 10), misuse=0, huge=0)


def ep_default(r, nops):
    """Parameters left out have their documented defaults."""
    MB = 1 << 20
    kind = r.choice(["QP", "DL", "QP", "DL", "FP", "AA", "MP"])
    lines = [f"U {r.choice([0, 0, 1, 3])} {r.choice([16, 16, 8, 64])} 0 {r.randint(1, 9999)} 0"]
    if kind in ("QP", "DL"):
        given = r.randint(0, 3)
        first, nxt, al, _ = pool_params(r)
        first, nxt, al = (first if given > 0 else 512 * MB), (nxt if given > 1 else MB), (al if given > 2 else 16)
        lines.append(f"N {kind}{given} 0 1 {first} {nxt} {al} 2 100")
        sizes = [1, 16, 17, 100, 1000, 70000, MB, MB - 16, MB + 1, max(first // 2, 1), max(first // 4, 1), max(first, 1), first + 1]
    elif kind == "FP":
        obj = r.choice([1, 8, 24, 100])
        lines.append(f"N FP1 0 1 {obj} 2048")
        if r.random() < .5:
            lines += [f"AB 1 {r.choice([2047, 2048])} {obj}"]
        sizes = [obj]
    elif kind == "AA":
        lines.append("N AA0 0 1 16")
        sizes = [1, 15, 16, 17, 100, 5000]
    else:
        given = r.choice([0, 4, 7])
        small, large, mx, mult = (256, 1 << 17, 2 * MB, 16) if given == 0 else (16, 64, 256, 2)
        q = (512 * MB, MB, 16) if given < 7 else (r.choice([256, 1024]), r.choice([128, 512]), r.choice([16, 32]))
        lines.append(f"N MP{given} 0 1 {small} {large} {mx} {mult} {q[0]} {q[1]} {q[2]} 1 100")
        sizes = [1, small, small + 1, small * mult, small * mult + 1, large, large + 1, 2 * large, 200000, MB + 1]
    return lines + body(r, [1], lambda i: r.choice(sizes), min(nops, 40), misuse=0.02, faults=r.choice([0, 0, 0.1]), maint=r.choice([0.03, 0.12]))


def ep_badcfg(r, nops):
    """A percentage that is none, or only just one."""
    pc = r.choice([-1, 101, -100, 1000, 2147483647, -2147483647, 100, 0, 99, 1])
    lines = [arena(r), r.choice([f"N QP 0 1 256 128 16 {r.choice([1, 2])} {pc}", f"N DL 0 1 256 128 16 {r.choice([1, 2])} {pc}",
                                 f"N MP 0 1 16 64 256 2 256 128 16 {r.choice([1, 2])} {pc}"])]
    return lines + body(r, [1], lambda i: r.choice([1, 16, 60, 100, 256, 300]), min(nops, 25), misuse=0, huge=0)


FAMILIES = dict(giant=ep_giant, default=ep_default, badcfg=ep_badcfg, ctor=ep_ctor, bulk=ep_bulk, blocks=ep_blocks, bulkfp=ep_bulkfp, pool=ep_pool, two=ep_two_pools, fixed=ep_fixed, mixed=ep_mixed, mixchurn=ep_mixchurn, slot=ep_slot, mono=ep_mono,
                aligned=ep_aligned, limit=ep_limit, stack=ep_stack, wrap=ep_wrap, zero=ep_zero, zeromany=ep_zero_many)


def exhaustive(kind, depth, sizes, cfg, fault=True):
    """Every sequence of `depth` operations over a small alphabet."""
    import itertools
    alpha = [f"A 1 {s}" for s in sizes] + ["F 0", "F 1", "R 1"] + (["C 1"] if kind in ("QP", "DL") else [])
    for n, seq in enumerate(itertools.product(range(len(alpha)), repeat=depth)):
        if seq[0] >= len(sizes):
            continue
        yield f"x{kind}{n}", ["U 0 16 0 1 0", cfg] + [alpha[k] for k in seq]


def scripts(seed, mix, episodes, nops):
    """mix: {family: weight}; yields (id, lines)."""
    fams = list(mix)
    w = [mix[f] for f in fams]
    for k in range(episodes):
        r = random.Random(f"{seed}/{k}")
        f = r.choices(fams, w)[0]
        yield f"{f}{k}", FAMILIES[f](r, nops)
