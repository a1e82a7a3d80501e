"""Scripts for harness/h_io.cpp: mapped files and shared segments."""
import random


def ep_file(r, nops):
    out = ["file"]
    live, hs = [], 0
    y = r.random()
    if y < .08:                                    # many files at once, and again once some are gone
        for _ in range(r.choice([70, 140, 270])):
            out.append(f"al {hs} {r.choice([1, 1, 5, 4097])} 0")
            live.append(hs)
            hs += 1
        nops //= 2
    elif y < .16:                                  # a large file
        n = r.choice([16777217, 20000000, 33554432, 300000000])
        out.append(f"al {hs} {n} 0")
        live += [hs] * (n < 1 << 28)               # the largest one is not looked into
        if live:
            out += [f"w {hs} 7", f"v {hs}"]
        else:
            out.append(f"fr {hs}")
        hs += 1
    for _ in range(nops):
        x = r.random()
        if x < .40:
            n = r.choice([0, 1, 2, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000, 65536, 100001])
            f = r.choice([0, 0, 0, 0, 0, 1, 1, 2])
            if f == 2:
                n = r.choice([1, 4096, 2000000, 5000000])
            if r.random() < .05:
                n, f = r.choice(["p60", "m-0".replace("m-", "max-"), "max-4095", "max-4096", "p62", "p46"]), 0
            out.append(f"al {hs} {n} {f}")
            live.append(hs)
            if r.random() < .7:
                out.append(f"w {hs} {r.randint(1, 9999)}")
            hs += 1
        elif x < .62 and live:
            h = r.choice(live)
            live.remove(h)
            out.append(f"v {h}")
            out.append(f"fr {h}")
        elif x < .72 and live:
            out.append(f"w {r.choice(live)} {r.randint(1, 9999)}")
        elif x < .86 and live:
            out.append(f"v {r.choice(live)}")
        elif x < .90 and live:
            out.append(f"rf {r.choice(live)}")
        elif x < .97:
            out.append(f"dir {r.choice([0, 1, 2, 0, 1, -1])}")
    for h in live:
        out.append(f"v {h}")
    if r.random() < .5:
        r.shuffle(live)
        for h in live:
            out.append(f"fr {h}")
    return out


SN = ["a", "b", "ab", "a_rather_long_name_of_a_block", "a_rather_long_name_of_a_bloc", "x", "a_rather_long_name_of_a_block2", "y", "B", "abc", "q" * 40, "a.1", "a.2", "a.3", "z", "zz", "zzz", "k0", "k1", "k2", "k3", "k4"]


def ep_shm(r, nops):
    out = ["shm"]
    nw = r.choice([1, 2, 2, 3, 3, 4])
    size = r.choice([4096, 4096, 5000, 8192, 6001, 16384])
    if r.random() < .12:
        out.append(f"open 0 {r.choice([0, 1, 16, 64, 'p62', 'max-0', 'p63'])}")
    up = []
    nopen = r.randint(1, nw)
    for w in range(nopen):
        out.append(f"open {w} {size if r.random() < .9 else size * 2}")
        up.append(w)
        if w == 0:
            out.append("as 0")
    held = []   # (handle, worker, name), in order of allocation
    size_of = {}
    hs = 0
    killed = False
    fill = r.random() < .6
    for _ in range(nops):
        if not up:
            break
        w = r.choice(up)
        x = r.random()
        if x < (.42 if fill else .3):
            nm = r.choice(SN if fill else SN[:7])
            if r.random() < .06:
                n = r.choice(["max-0", "max-15", "max-16", "max-31", "p60", size, size - 80, size * 2])
            else:
                n = r.choice([0, 1, 8, 15, 16, 17, 32, 100, 200, 300, 500, 700, 1000, 1500, 2000, size // 2, size - 400])
            out.append(f"al {w} {hs} {nm} {n}")
            held.append((hs, w, nm))
            size_of[hs] = n
            if r.random() < .6:
                out.append(f"w {w} {hs} {r.randint(1, 255)}")
            hs += 1
        elif x < .62 and held:
            mine = [h for h in held if h[1] == w]
            if mine:
                nm = r.choice(mine)[2]
                h = [q for q in mine if q[2] == nm][-1]   # the newest of that name
                held.remove(h)
                out.append(f"v {w} {h[0]}")
                out.append(f"fr {w} {h[0]}")
                if r.random() < .3:      # the hole it leaves can be used again
                    nm = nm if r.random() < .5 else nm[:-1] + "Z"
                    out.append(f"al {w} {hs} {nm} {size_of[h[0]]}")
                    size_of[hs] = size_of[h[0]]
                    held.append((hs, w, nm))
                    hs += 1
        elif x < .70 and held:
            h = r.choice(held)
            out.append(f"w {h[1]} {h[0]} {r.randint(1, 255)}")
        elif x < .80 and held:
            h = r.choice(held)
            out.append(f"v {h[1]} {h[0]}")
        elif x < .88:
            out.append(f"fnd {w} {r.choice(SN)}")
        elif x < .93:
            out.append(f"as {w}")
        elif x < .94:
            out.append(f"ala {w} 16")
        elif x < .965 and len(up) < nw:
            n = [k for k in range(nw) if k not in up][0]
            out.append(f"open {n} {size}")
            up.append(n)
        elif x < .98 and len(up) > 1 and r.random() < .5:
            out.append(f"kil {w}")
            up.remove(w)
            held = [h for h in held if h[1] != w]
            killed = True
    # give everything back, in any order, and use the whole segment again
    left = held[:]
    order = sorted({(h[1], h[2]) for h in left})
    r.shuffle(order)
    for (w, nm) in order:
        for h in reversed([q for q in left if q[1] == w and q[2] == nm]):
            out.append(f"v {w} {h[0]}")
            out.append(f"fr {w} {h[0]}")
    for w in up:
        out.append(f"as {w}")
    if up:
        w = r.choice(up)
        out.append(f"al {w} {hs} whole {size - 500}")
        out.append(f"w {w} {hs} 77")
        out.append(f"v {w} {hs}")
        for nm in r.sample(SN, 4):
            out.append(f"fnd {w} {nm}")
        out.append(f"fr {w} {hs}")
        out.append(f"as {w}")
    r.shuffle(up)
    for w in up[:r.randint(0, len(up))]:
        out.append(f"cls {w}")
    return out


def ep_race(r, nops):
    """One process stops at its k-th touch of the segment while others go on."""
    out = ["shm"]
    nw = r.choice([2, 2, 3, 3, 4])
    size = r.choice([4096, 4096, 5000, 8192])
    names = r.sample(SN, r.choice([1, 2, 3, 5]))
    up = [0]
    if r.random() < .35:                       # who makes the segment, and who comes too early
        out.append(f"park {r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 30])} open 0 {size}")
        for w in range(1, r.randint(1, nw - 1) + 1):
            out.append(f"open {w} {size if r.random() < .7 else size * 2}")
            up.append(w)
            if r.random() < .6:
                out.append(f"al {w} {900 + w} {r.choice(names)} {r.choice([1, 16, 100, 700])}")
        out.append("go")
        for w in up:
            out.append(f"fr {w} {900 + w}")
    else:
        out.append(f"open 0 {size}")
    out.append("as 0")
    for w in range(nw):
        if w not in up and r.random() < .9:
            out.append(f"open {w} {size}")
            up.append(w)
    held, hs = [], 0
    sizes = [0, 1, 8, 16, 17, 100, 100, 200, 500, 1000, 1500, size - 600]

    def step(w, bias):
        nonlocal hs
        x = r.random()
        mine = [h for h in held if h[1] == w]
        if x < .42 + bias or (x < .8 and not mine):
            nm = r.choice(names)
            held.append((hs, w, nm))
            hs += 1
            return f"al {w} {hs - 1} {nm} {r.choice(sizes)}"
        if x < .82:
            nm = r.choice(mine)[2] if mine else "-"
            h = [q for q in mine if q[2] == nm][-1] if mine else (77777, w, nm)
            if mine:
                held.remove(h)
            return f"fr {w} {h[0]}"
        if x < .93:
            return f"fnd {w} {r.choice(names)}"
        return f"as {w}"

    for _ in range(r.randint(0, 6)):
        out.append(step(r.choice(up), .2))
    for h in held:
        out.append(f"w {h[1]} {h[0]} {r.randint(1, 255)}")
    for _ in range(r.choice([2, 3, 4, 5, 6])):
        late = [w for w in range(nw) if w not in up]
        if late and r.random() < .5:
            w = late[0]
            up.append(w)
            out.append(f"park {r.randint(1, 8)} open {w} {size}")
        else:
            w = r.choice(up)
            if r.random() < .2 and held:        # looking for one that exists while others change the list
                cmd = f"fnd {w} {r.choice(held)[2]}"
            else:
                cmd = step(w, -.1)
            out.append(f"park {min(r.randint(1, 60), r.randint(1, 60))} {cmd}")
        others = [v for v in up if v != w]
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            if others:
                out.append(step(r.choice(others), .05))
        out.append("go")
        for h in held:
            if r.random() < .4:
                out.append(f"v {h[1]} {h[0]}")
        if r.random() < .5:
            for nm in names:
                out.append(f"fnd {r.choice(up)} {nm}")
        if r.random() < .5:
            out.append(f"as {r.choice(up)}")
        for h in held:
            if r.random() < .3:
                out.append(f"w {h[1]} {h[0]} {r.randint(1, 255)}")
    order = sorted({(h[1], h[2]) for h in held})
    r.shuffle(order)
    for (w, nm) in order:
        for h in reversed([q for q in held if q[1] == w and q[2] == nm]):
            out.append(f"v {w} {h[0]}")
            out.append(f"fr {w} {h[0]}")
    w = r.choice(up)
    out += [f"as {w}", f"al {w} {hs} whole {size - 500}", f"w {w} {hs} 77", f"v {w} {hs}", f"fr {w} {hs}", f"as {w}"]
    r.shuffle(up)
    for w in up[:r.randint(0, len(up))]:
        out.append(f"cls {w}")
    return out


FAM = dict(file=ep_file, shm=ep_shm, race=ep_race)


def scripts(seed, mix, n, nops=40):
    fams = [f for f, k in mix.items() for _ in range(k)]
    for i in range(n):
        f = fams[i % len(fams)]
        r = random.Random(f"{seed}/{f}/{i}")
        yield f"{f}-{seed}-{i}", FAM[f](r, r.choice([nops // 3, nops, nops, 2 * nops]))
