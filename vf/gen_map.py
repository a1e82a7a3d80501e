"""Histories for harness/h_map: key sets that reach every shape of the Judy tree."""
import random


def keyset(r, n):
    """n distinct non-zero 64 bit keys; dense runs, shared prefixes, strides, wide spreads."""
    ks = set()
    top = (1 << 64) - 1
    style = r.choice(["dense", "heap", "prefix", "wide", "stride", "mixed", "tiny", "bits", "highbyte"])
    while len(ks) < n:
        st = style if style != "mixed" else r.choice(["dense", "heap", "prefix", "wide", "stride", "bits"])
        if st == "tiny":
            k = r.randrange(1, max(n * 2, 8))
        elif st == "dense":
            b = r.choice([0x7fff00000000, 0x10, 0x1000000, 0xffffffffffff0000, 0x555555550000 + r.randrange(3) * 256])
            k = b + r.randrange(0, max(48, 2 * n))
        elif st == "heap":
            k = 0x5581a0000000 + 16 * r.randrange(0, 4 * n + 10)
        elif st == "prefix":
            k = (r.choice([0x0123456789, 0x0123456788, 0x7f12345678]) << r.choice([8, 16, 24])) + r.randrange(0, 1 << r.choice([4, 8, 16, 24]))
        elif st == "stride":
            k = r.choice([1 << 12, 1 << 20, 1 << 32, 1 << 40]) * r.randrange(1, 300) + r.choice([0, 0, 1, 0xfff])
        elif st == "bits":
            k = 1 << r.randrange(64)
            k |= (1 << r.randrange(64)) if r.random() < .6 else 0
        elif st == "highbyte":
            k = (r.randrange(256) << 56) + r.choice([0, 1, 255])
        else:
            k = r.getrandbits(r.choice([64, 63, 48, 33]))
        if style in ("tiny", "dense", "heap", "bits", "highbyte") and r.random() < .04:
            k = r.getrandbits(64)
        k &= top
        if k:
            ks.add(k)
    return sorted(ks)


def mm(r, nkeys, nops, kind=None):
    ks = keyset(r, nkeys)
    n = len(ks)
    L = ["T " + " ".join("%x" % k for k in ks), "K " + (kind or r.choice(["int", "val8", "val1", "val200"]))]
    have, cur = set(), {}
    fill = r.choice([.3, .5, .8])
    order = r.choice(["rand", "up", "down"])
    seq = list(range(1, n + 1))
    if order == "rand":
        r.shuffle(seq)
    elif order == "down":
        seq.reverse()
    v = [0]

    def ins(k):
        v[0] += 1
        L.append(f"I {k} {v[0]} {r.randrange(3)}")
        have.add(k)

    for k in seq[:int(n * fill)]:
        ins(k)
        if r.random() < .2:
            L.append(f"{r.choice('FB')} {r.randrange(1, n + 1)} {r.randrange(2)}")
    for step in range(nops):
        x = r.random()
        k = r.randrange(1, n + 1)
        if x < .22:
            ins(k)
        elif x < .38:
            k = r.choice(sorted(have)) if have and r.random() < .85 else k
            L.append(f"D {k} {r.randrange(2)}")
            have.discard(k)
        elif x < .42:
            w = r.randrange(2)
            k = r.choice(sorted(have)) if have and r.random() < .6 else k
            L.append(f"L {k} {w}")
            if w:
                below = [h for h in have if h <= k]
                if below:
                    have.discard(max(below))
            else:
                have.discard(k)
        elif x < .56:
            L.append(f"F {k} {r.randrange(2)}")
        elif x < .74:
            L.append(f"B {k} {r.randrange(2)}")
        elif x < .78:
            L.append(f"T {r.randrange(3)}")
        elif x < .80:
            L.append("S")
        elif x < .97:
            i = r.randrange(3)
            y = r.random()
            if i in cur and cur[i] in have and y < .65:
                L.append(f"n {i} {r.randrange(2)}")
                up = [h for h in have if h > cur[i]]
                cur[i] = min(up) if up else 0
            elif y < .8:
                L.append(f"c {i}")
                cur[i] = min(have) if have else 0
            elif y < .9 or not cur:
                L.append(f"f {i} {k}")
                cur[i] = k if k in have else 0
            else:
                o = r.choice(sorted(cur))
                L.append(f"a {i} {o}")
                cur[i] = cur[o]
        elif x < .985:
            L.append("C")
            have.clear()
            cur.clear()
        elif x < .99:
            L.append("X")
            have.clear()
            cur.clear()
        else:   # drain everything in some order
            o = sorted(have)
            r.choice([lambda: None, lambda: r.shuffle(o), o.reverse])()
            for k in o[:r.choice([len(o), max(0, len(o) - 3)])]:
                L.append(f"D {k} 0")
                have.discard(k)
            L.append("T 0")
    L += ["T 0", "S", "C", "S"]
    return L


def mmcursor(r, nops):
    """several cursors over a small map, copied and assigned and advanced in turn"""
    n = r.choice([3, 5, 8, 40])
    ks = keyset(r, n)
    L = ["T " + " ".join("%x" % k for k in ks), "K int"]
    have = set()
    for k in range(1, n + 1):
        if r.random() < .8:
            L.append(f"I {k} {k} {r.randrange(3)}")
            have.add(k)
    cur = {}
    for _ in range(nops):
        i = r.randrange(3)
        x = r.random()
        if i in cur and cur[i] and x < .6:
            L.append(f"n {i} {r.randrange(2)}")
            up = [h for h in have if h > cur[i]]
            cur[i] = min(up) if up else 0
        elif x < .75 or not cur:
            L.append(f"c {i}")
            cur[i] = min(have) if have else 0
        elif x < .85:
            k = r.randrange(1, n + 1)
            L.append(f"f {i} {k}")
            cur[i] = k if k in have else 0
        elif x < .95:
            o = r.choice(sorted(cur))
            L.append(f"a {i} {o}")
            cur[i] = cur[o]
        else:
            k = r.randrange(1, n + 1)
            L.append(f"I {k} {100 + k} {r.randrange(3)}")
            have.add(k)
    return L


def am(r, nkeys, nops, nested=False):
    """registrations and lookups; mostly disjoint ranges, sometimes same address twice, sometimes nested"""
    ks = keyset(r, nkeys)
    n = len(ks)
    L = ["T " + " ".join("%x" % k for k in ks), "K am"]
    recs = {}   # base -> [(id, end)]
    ids = 0
    for _ in range(nops):
        x = r.random()
        if x < .34 and n >= 2:
            b = r.randrange(1, n)
            if recs and r.random() < .25:
                b = r.choice(sorted(recs))
            nxt = min([q for q in recs if q > b] + [n + 1])
            prev = max([q for q in recs if q < b] + [0])
            inside = prev and recs[prev][-1][1] > b
            if inside and not nested and b not in recs:
                continue
            hi = n if nested else min(nxt, n)
            e = r.choice([b, min(b + 1, hi), hi, r.randrange(b, hi + 1)])
            if b in recs and not nested:
                e = min(e, nxt)
            ids += 1
            L.append(f"I {b} {e} {ids}")
            recs.setdefault(b, []).append((ids, e))
        elif x < .55:
            b = r.choice(sorted(recs)) if recs and r.random() < .85 else r.randrange(1, n + 1)
            L.append(f"D {b}")
            if b in recs:
                recs[b].pop()
                if not recs[b]:
                    del recs[b]
        elif x < .88:
            L.append(f"F {r.randrange(1, n + 1)} {r.randrange(4)}")
        elif x < .92:
            L.append(f"T {r.randrange(2)}")
        elif x < .95:
            L.append(f"P {r.randrange(3)}")
        elif x < .98:
            L.append("H")
        elif x < .99:
            L.append("C")
            recs.clear()
        else:
            L.append("X")
            recs.clear()
    L += ["T 0", "H"]
    L += [f"F {k} {k % 4}" for k in range(1, n + 1)][:200]
    return L


def amdense(r, nops):
    """many small ranges close together: the address tree turns into radix nodes"""
    b0 = r.choice([0x5581a0000000, 0x7f0000001000, 0x10000])
    ks = [b0 + i for i in range(r.choice([70, 100, 140]))]
    n = len(ks)
    L = ["T " + " ".join("%x" % k for k in ks), "K am"]
    w = r.choice([1, 1, 2, 3])
    bases = list(range(1, n - w, w))
    order = bases[:]
    r.choice([lambda: None, lambda: r.shuffle(order), order.reverse])()
    ids, live = 0, set()
    for b in order:
        ids += 1
        L.append(f"I {b} {b + r.choice([1, w])} {ids}")
        live.add(b)
        if r.random() < .15:
            L.append(f"F {r.randrange(1, n + 1)} {r.randrange(4)}")
    for _ in range(nops):
        x = r.random()
        if x < .3 and live:
            b = r.choice(sorted(live))
            L.append(f"D {b}")
            live.discard(b)
        elif x < .45:
            b = r.choice(bases)
            if b not in live:
                ids += 1
                L.append(f"I {b} {b + w} {ids}")
                live.add(b)
        else:
            L.append(f"F {r.randrange(1, n + 1)} {r.randrange(4)}")
    L += ["T 0"] + [f"F {k} {k % 4}" for k in range(1, n + 1)] + ["H"]
    return L


def fp(r, nops, typed=False):
    ob = r.choice([1, 3, 8, 24, 40]) if typed else r.choice([1, 2, 3, 4, 4, 5, 8, 8, 12, 16, 24, 40, 64])
    per = 32 * r.choice([1, 1, 2, 5]) if typed else r.choice([1, 2, 3, 4, 7, 16, 64])
    L = ["T 1", f"K {'fs' if typed else 'fp'} {ob} {per}"]
    live, ids = [], 0
    if typed and r.random() < .7:
        ids = r.choice([per - 1, per, per + 1, 2 * per, 3 * per - 5])
        L.append(f"B 1 {ids}")
        live = list(range(1, ids + 1))
    bias = .6
    for _ in range(nops):
        if r.random() < .05:
            bias = r.choice([.3, .5, .6, .8])
        x = r.random()
        if x < .02:
            L.append("W")
        elif x < .04:
            L.append("S")
        elif r.random() < bias or not live:
            ids += 1
            L.append(f"A {ids}")
            live.append(ids)
        else:
            i = r.choice([0, len(live) - 1, r.randrange(len(live))])
            L.append(f"D {live.pop(i)}")
    L += ["S", "X"]
    return L


def fpbig(r, nops):
    """Thousands of slots: filled and thinned out in bulk, then one by one."""
    k, ob = r.choice([("fs", 8), ("fs", 24), ("fs", 1), ("fp", 8), ("fp", 16), ("fp", 40)])
    per = 2048 if k == "fs" else r.choice([100, 256, 255, 1000, 1024])
    L = ["T 1", f"K {k} {ob} {per}"]
    live, ids = [], 0
    for _ in range(3):
        n = min(r.choice([per // 2, per - 1, per, per + 1, 2 * per + 3]), 2500)
        L.append(f"B {ids + 1} {n}")
        live += range(ids + 1, ids + n + 1)
        ids += n
        gone = set(r.sample(live, r.randrange(len(live))) if r.random() < .5 else [x for x in live if x % 3 != r.randrange(3)])
        live = [x for x in live if x not in gone]
        L.append("Q " + " ".join(map(str, r.sample(sorted(gone), len(gone)))))
    for _ in range(12):
        if r.random() < .5 and live:
            L.append(f"D {live.pop(r.randrange(len(live)))}")
        else:
            ids += 1
            L.append(f"A {ids}")
            live.append(ids)
    return L + ["S", "X"]


def fpmass(r, nops):
    """A hundred thousand slots in a pool or over pools: more than 16 bits count."""
    k, ob = r.choice([("fpm", 8), ("fpm", 40), ("fpm", 16), ("fsm", 8)])
    per = 2048 if k == "fsm" else r.choice([66000, 70001, 100000, 140000, 4096])
    L, ids = ["T 1", f"K {k} {ob} {per}"], 0
    for _ in range(4):
        n = r.choice([per // 2, per - 3, per, per + 5]) if per > 5000 else r.choice([9000, 20000])
        n = max(1, n - r.choice([0, 0, n // 3]))
        L.append(f"M {ids + 1} {n}")
        ids += n
        a = r.choice([1, ids // 2, r.randint(1, ids)])
        L.append(f"N {a} {r.choice([ids, a + ids // 3])} {r.choice([1, 1, 2])} 0 {r.randint(0, 1)}")
    return L + [f"N 1 {ids} 1 0 1", f"M {ids + 1} 50", "X"]


def huge(r, nops, kind):
    """Thousands of keys, inserted and thinned out in runs: the tree outgrows its first block of memory."""
    parts, n = [], 0
    for i in range(r.choice([1, 1, 2, 3])):
        c = r.choice([1500, 3000, 5000])
        stride = r.choice([1, 1, 2, 16, 48, 256, 4096, 65536, 1 << 24])
        parts.append(f"p {stride:x} {c} {((i + 1) << 44) + r.choice([0, 0x10000, 0x5581a010, 0xff00]):x}")
        n += c
    L = ["T " + " ".join(parts), f"K {kind} 1"]
    hi = n - 1 if kind == "am" else n
    used = set()

    def rng():
        a = r.randrange(1, hi + 1) if r.random() < .6 else 1
        z = r.randrange(a, hi + 1) if r.random() < .5 else hi
        return a, z, r.choice([1, 1, 1, 2, 3, 7, -1, -1, -2, -5])

    def idx(a, z, st):
        return range(a, z + 1, st) if st > 0 else range(z, a - 1, st)
    for i in range(5):
        a, z, st = (1, hi, r.choice([1, 1, -1, 2, -3])) if i == 0 else rng()
        if i % 2 == 0:
            if kind == "am" and used & set(idx(a, z, st)):
                L.append(f"x {a} {z} {st}")
                used -= set(idx(a, z, st))
            L.append(f"r {a} {z} {st}")
            used |= set(idx(a, z, st))
        else:
            L.append(f"x {a} {z} {st}")
            used -= set(idx(a, z, st))
        L.append("w")
        for _ in range(6):
            k = r.choice([r.randrange(1, n + 1), a, z, max(1, a - 1), min(n, z + 1)])
            L.append(f"F {k} {r.randrange(4)}" if kind == "am" else f"{r.choice('FB')} {k} {r.randrange(2)}")
    return L + (["H"] if kind == "am" else []) + ["C", "w"] + ([] if kind == "am" else ["X"])


def frag(r):
    L = ["T 1"]
    for _ in range(12):
        n = r.choice([0, 1, 2, 2, 3, 5, 20])
        p, g = r.randrange(5), []
        for _ in range(n):
            e = p + r.randrange(0, 40)
            g += [p, e]
            p = e + r.choice([0, 0, r.randrange(0, 60)])
        L.append(f"G {n} " + " ".join(map(str, g)))
    return L


FAM = dict(mm=lambda r, o: mm(r, r.choice([2, 4, 8, 20, 40]), o), mmbig=lambda r, o: mm(r, r.choice([80, 150, 300]), 2 * o),
           mmcur=mmcursor, am=lambda r, o: am(r, r.choice([4, 8, 16, 40]), o), amnest=lambda r, o: am(r, r.choice([6, 10, 30]), o, True),
           mmhuge=lambda r, o: huge(r, o, r.choice(["int", "int", "val8"])), amhuge=lambda r, o: huge(r, o, "am"),
           ambig=lambda r, o: am(r, 120, 3 * o), amdense=amdense, fp=fp, fs=lambda r, o: fp(r, o, True), fpbig=fpbig, fpmass=fpmass, frag=lambda r, o: frag(r))


def scripts(seed, mix, n, nops):
    fams = [f for f, w in mix.items() for _ in range(w)]
    out = []
    for i in range(n):
        f = fams[i % len(fams)]
        r = random.Random(f"{seed}/{f}/{i}")
        out.append((f"{f}{i}", FAM[f](r, nops)))
    return out
