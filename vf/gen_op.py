"""Scripts for harness/h_op.cpp: operations on memory of several platforms."""
import random

PLATS = [2, 4, 8, 16, 0]
NAMES = ["COPY", "MEMSET", "REALLOCATE", "PREFETCH", "SET_X", "ADVICE_2"]
POOLS = ["QP", "DL", "MP", "MO", "FX", "SP", "AA"]


def ep_ops(r, nops, lots=False):
    plats = [1] + r.sample(PLATS, r.choice([1, 2, 2, 3]))
    nasty = r.random() < .5
    reg = {("MEMSET", 1, 1): "B", ("COPY", 1, 1): "B", ("REALLOCATE", 1, 1): "B", ("REALLOCATE", 0, 0): "G"}
    out = []
    ids = [0]

    def flavour(name):
        if nasty and r.random() < .3:
            return r.choice("NX")
        return r.choice("AAT" if name != "REALLOCATE" else "AGTG")

    def regop(name, p, q):
        if (name, p, q) in reg:
            return
        ids[0] += 1
        fl = flavour(name)
        reg[name, p, q] = fl
        out.append(f"reg {name} {p} {q} {fl} {ids[0]}")

    density = r.choice([.5, .8, 1, 1])
    keys = [("COPY", p, q) for p in plats for q in plats] + [(n, p, p) for n in NAMES[1:] for p in plats]
    r.shuffle(keys)
    late = []
    for k in keys:
        if r.random() < density:
            (late if r.random() < .15 else out).append(k)
    regs, out = out, []
    for k in regs:
        regop(*k)
    # allocators: number -> (kind, plat, pooled, usable, device)
    al = [("HO", 1, False, 0)]
    pooldev = set()

    def mk(kind, par, a=0, b=0, op="-", form=0):
        out.append(f"mk {kind} {par} {a} {b} {op} {form}")

    def tower():
        p = r.choice(plats)
        if p == 1 and r.random() < .5:
            cur = 0
        else:
            mk("DV", 0, p, 5 if r.random() < .6 else r.choice([1, 2, 4, 5]))
            al.append(("DV", p, False, len(al)))
            cur = len(al) - 1
        host = cur == 0
        bad = False     # a failing advice below: no pool on top
        pooled = False
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.choice(["NA", "TS", "LI", "AV", "AV", "AD", "PF", "PD", r.choice(POOLS)])
            if k in POOLS:
                if bad or pooled or host or (k == "AA" and p != 1):
                    continue
                mk(k, cur, 4096 if k == "FX" else 0)
                pooled = True
                pooldev.add(root(cur))
            elif k in ("AV", "AD", "PF", "PD"):
                name = r.choice(["SET_X", "ADVICE_2", "SET_X", "MEMSET", "NOPE"]) if k[0] == "A" else "PREFETCH"
                mk(k, cur, r.choice([0, 1, -1, 3, 200]), r.randrange(len(al)), name if k[0] == "A" else "-",
                   r.choice([0, 1, 2, 3]) if k == "AV" else r.choice([0, 2, 3]) if k == "PF" else 0)
                if (name, p, p) not in reg:
                    continue
                if reg[name, p, p] in "NX":
                    bad = True
                    if r.random() < .5:     # made, but rarely built upon
                        al.append((k, p, pooled, cur))
                        par_of[len(al) - 1] = cur
                        return
            else:
                mk(k, cur, r.choice([100, 500, 2000]))
                bad = bad or k == "LI"
            al.append((k, p, pooled, cur))
            par_of[len(al) - 1] = cur
            cur = len(al) - 1

    par_of = {}

    def root(i):
        while i in par_of:
            i = par_of[i]
        return i

    def usable():
        return [i for i in range(len(al)) if root(i) not in pooldev or al[i][2]]

    for _ in range(r.choice([2, 3, 4])):
        tower()
    live, hs = {}, 0
    huge = set()
    if lots:
        i = r.choice(usable())
        for _ in range(r.choice([70, 130, 260])):
            live[hs] = r.choice([1, 8, 40])
            out.append(f"al {hs} {i} {live[hs]}")
            hs += 1
            if r.random() < .1:
                h = r.choice(list(live))
                del live[h]
                out.append(f"fr {h} {r.choice([0, 1])}")
    for _ in range(nops):
        x = r.random()
        big = [h for h in live if live[h] > 0 and h not in huge]
        any_ = [h for h in live if live[h] > 0]
        if late and r.random() < .1:
            regop(*late.pop())
        if x < .06 and len(al) < 14:
            tower()
        elif x < .09:
            d = [i for i in range(len(al)) if al[i][0] == "DV" and i not in pooldev]
            if d:
                out.append(f"df {r.choice(d)} {r.choice([1, 1, 2])}")
        elif x < .12:
            out.append(f"op {r.choice(NAMES + ['NOPE'])} {r.randrange(len(al))} {r.randrange(len(al))}")
        elif x < .38 or len(big) < 2:
            n = r.choice([0, 1, 7, 8, 64, 100, 256, 257, 400, 900])
            out.append(f"al {hs} {r.choice(usable())} {n}")
            live[hs] = n
            hs += 1
        elif x < .39 and not huge:
            d = [i for i in usable() if al[i][1] != 1 and not al[i][2]]
            if d:
                live[hs] = 2**32 + r.choice([0, 1, 100, 4096])
                huge.add(hs)
                out.append(f"al {hs} {r.choice(d)} {live[hs]}")
                hs += 1
        elif x < .48:
            h = r.choice(list(live))
            huge.discard(h)
            del live[h]
            out.append(f"fr {h} {r.choice([0, 1])}")
        elif x < .68:
            a, b = r.choice(big), r.choice(big)
            if a == b:
                continue
            so, do = r.choice([0, 0, r.randrange(live[a])]), r.choice([0, 0, r.randrange(live[b])])
            n = r.choice([0, 0, live[a] - so, min(live[a] - so, live[b] - do), r.randint(1, live[a] - so)])
            out.append(f"cp {a} {so} {b} {do} {n} {r.choice([0, 1])}")
        elif x < .77:
            a = r.choice(any_)
            o = r.choice([0, 0, r.randrange(min(live[a], 10**6))])
            n = r.choice([0, live[a] - o, live[a] - o + 1, r.randint(1, min(live[a], 10**6)), 1])
            out.append(f"ms {a} {o} {r.choice([0, 1, 255, -1, 77])} {n} {r.choice([0, 1])}")
        elif x < .84:
            a = r.choice(any_)
            out.append(f"pre {a} {r.choice([0, 0, r.randrange(min(live[a], 10**6))])} {r.choice([0, 1, -1, 5])}")
        elif x < .93:
            a = r.choice(big)
            n = r.choice([1, live[a], live[a] + 1, 2 * live[a], max(1, live[a] // 2), 0, 300])
            out.append(f"re {a} {min(n, 3000)} {r.choice([0, 1])} {r.choice([0, 1])}")
            live[a] = min(live[a], n)
        else:
            out.append(f"mv {r.choice(big)} {r.choice(usable())}")
    return out


FAM = dict(ops=ep_ops, lots=lambda r, n: ep_ops(r, n, True))


def scripts(seed, mix, n, nops=40):
    fams = [f for f, k in mix.items() for _ in range(k)]
    for i in range(n):
        f = fams[i % len(fams)]
        r = random.Random(f"{seed}/{f}/{i}")
        yield f"{f}-{seed}-{i}", FAM[f](r, nops)
