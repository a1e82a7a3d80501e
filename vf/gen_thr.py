"""Scripts for harness/h_thr.cpp: threads on thread-safe allocators, records and registry."""
import random


def ep(r, nops, park, zero=True):
    nt = r.choice([2, 2, 3, 4]) if park else r.choice([2, 3, 3, 4])
    na = r.choice([1, 1, 2])
    out = [f"T {nt} {int(park)}"]
    for _ in range(na):
        out.append(f"A {r.choice(['QP', 'DL', 'NA', 'Own'])}")
    style = r.choice(["alloc", "alloc", "rec", "mix", "mk", "zero"]) if not park else r.choice(["alloc", "alloc", "mix"])
    sizes = [1, 8, 16, 16, 24, 40, 64, 200] + ([0, 0] if zero else [])
    if style == "zero":          # all allocators share what zero byte allocations come from
        style, sizes = "alloc", [0, 0, 0, 0, 16]
        while na < nt:
            out.append(f"A {r.choice(['QP', 'DL', 'NA', 'Own'])}")
            na += 1
    for w in range(nt):
        slots, regs = [], set()
        s = 0
        for _ in range(nops):
            x = r.random()
            a = r.randint(0, na - 1)
            if style == "alloc" or (style == "mix" and x < .5):
                if slots and r.random() < .5:
                    q, qa = slots.pop(r.randrange(len(slots)))
                    out.append(f"D {w} fr {q} {qa} {int(r.random() < .3)}")
                else:
                    n = r.choice(sizes)
                    out.append(f"D {w} al {s} {a} {n}")
                    slots.append((s, a))
                    s += 1
                    if r.random() < .4:
                        out.append(f"D {w} {r.choice(['sz', 'has'])} own {s - 1}")
            elif style in ("rec", "mix"):
                k = r.randrange(0, 12) * nt + w
                if r.random() < .6:
                    if k in regs:
                        out.append(f"D {w} der {k} 0")
                        regs.discard(k)
                    else:
                        out.append(f"D {w} reg {k} {r.choice([1, 8, 9, 16])}")
                        regs.add(k)
                else:
                    out.append(f"D {w} {r.choice(['sz', 'has', 'has'])} fake {r.randrange(0, 24 * nt)}")
            else:
                out.append(f"D {w} mk {r.choice(['m0', 'm1', 'm2', 'm3', 'm4', 'm5', f'w{w}'])}")
    return out


FAM = dict(park=lambda r, n: ep(r, min(n, 8), True), free=lambda r, n: ep(r, n, False))


def scripts(seed, mix, n, nops=14):
    fams = [f for f, k in mix.items() for _ in range(k)]
    for i in range(n):
        f = fams[i % len(fams)]
        r = random.Random(f"{seed}/{f}/{i}")
        yield f"{f}-{seed}-{i}", FAM[f](r, nops)
