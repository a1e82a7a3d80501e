"""Scripts for harness/h_ev.cpp: programs whose event log is read and replayed, and direct use of the store."""
import random


def name(r, k, odd):
    """odd: whatever characters; otherwise what the replay tool's reports can be read with."""
    n = f"a{k}"
    x = r.random()
    if x < .5:
        return n
    if x < .62:
        return n + r.choice(["_base", "_base", "_x", "_base_base", ".b"])
    if x < .7:
        return n + "_" + "abcdefghij" * r.choice([3, 5, 7, 15, 40])
    if x < .8 or not odd:
        return r.choice(["pool_", "_", "HOST_", "a_base_"]) + n
    return r.choice([n + "%20b", "%22" + n, n + "%5c", n + "%0a", "%c3%a9" + n, n + "%00z", n + "%7b%7d", n + "%25s", n + "." + "xyz" * r.choice([20, 100, 400])])


def mk(r, names, trk, odd=False):
    """Lines that make one allocator (and the parent it needs), added to names."""
    out = []
    k = r.choice(["QP", "QP", "DL", "FP", "MP", "SL", "MO", "LI", "TS", "NA"])
    one = r.random() < .4       # DynamicPoolList takes the lowest of equally good free blocks: which one that is has to be the
    if k == "DL" and not one:   # same in the replay, so it has either one block or a parent that hands out ascending addresses
        m = name(r, len(names), odd)
        out.append(f"mk {m} MO 1 HOST {1 << 20}")
        names[m] = "MO-"
    n = name(r, len(names), odd)
    p = r.choice(["HOST", "HOST"] + [x for x, kk in names.items() if kk in ("QP", "DL", "LI", "TS", "NA")])
    al = r.choice([16, 32, 64])
    v = []
    if k == "DL":
        v = [1 << 20, r.choice([128, 512, 2048]), al][:r.randint(0, 3)]
        if not one:
            p = m
            v = [r.choice([256, 1024, 4096])] + v[1:]
    elif k == "QP":
        v = [r.choice([256, 1024, 4096]), r.choice([128, 512, 2048]), al][:r.randint(0, 3)]
    elif k == "FP":
        v = [r.choice([8, 32, 100]), r.choice([2, 10, 64])][:r.randint(1, 2)]
    elif k == "MP":
        v = [r.choice([8, 16]), 64, 512, 8, 2048, 1024, 16][:r.randint(0, 7)]
    elif k == "SL":
        v = [r.choice([2, 5, 16])]
    elif k == "MO":
        v = [r.choice([1000, 20000])]
    elif k == "LI":
        v = [r.choice([600, 5000, 100000, 1 << 32, (1 << 32) + 4096, (1 << 63), (1 << 64) - 1])]
    tr = 1 if trk or r.random() < .8 else 0
    names[n] = k
    return out + [f"mk {n} {k} {tr} {p} " + " ".join(map(str, v))]


HOWS = ["same", "relabel", "meta", "drop", "size", "alref", "resize", "intro", "base", "name", "arg", "swap", "ref", "coal", "kind", "tail", "free",
        "relabel", "swap", "resize", "intro", "base", "arg"]
NM = ["x", "a%00b", "long" * 30, "ab" * 1000, "a%20b", "q%22q", "b%5cs", "t%09t", "n%0an", "%c3%a9", "%7b%7d", "%25s"]


def size(r):
    return r.choice([0, 1, 7, 8, 16, 24, 32, 48, 64, 100, 100, 200, 256, 500, 1000, 3000])


def ep_prog(r, nops, mode="replay", trk=True, how=None, realloc=True):
    out = [f"{mode} {how or r.choice(HOWS)} {r.randint(0, 9999)}"]
    odd = mode != "replay"
    names = {}
    out.append("res HOST")
    for _ in range(r.randint(1, 5)):
        out += mk(r, names, trk, odd)
    every = ["HOST"] + [n for n, k in names.items() if k != "MO-"]
    fast = [x for x in every if names.get(x) in ("QP", "DL", "TS", "NA", "LI")] or ["HOST"]
    live, hs, own = [], 0, {}
    for _ in range(nops):
        x = r.random()
        a = r.choice(every if r.random() < .5 else fast)
        if x < .38:
            out.append(f"al {hs} {a} {size(r)}")
            own[hs] = a
            live.append(hs)
            hs += 1
        elif x < .42:
            out.append(f"nal {hs} {a} {size(r)} {r.choice(NM)}")
            live.append(hs)
            hs += 1
        elif x < .66 and live:
            h = live.pop(r.randrange(len(live)))
            out.append(f"fr {h} {r.randint(0, 1)}")
        elif x < .69 and hs:
            out.append(r.choice([f"frx {r.randrange(hs)} {a} {r.choice([0, 0, 1, 8])}", f"frn {a}"]))
        elif x < .77 and realloc:
            if r.random() < .2:
                out.append(r.choice([f"re {hs} {size(r)}", f"rea {hs} {size(r)} {a}"]))
                live.append(hs)
                hs += 1
            elif live:
                h = r.choice(live)
                out.append(r.choice([f"re {h} {size(r)}", f"re {h} {size(r)}", f"rea {h} {size(r)} {a}"]) + r.choice(["", "", " 1"]))
        elif x < .81 and live:
            out.append(f"mv {r.choice(live)} {a}")
        elif x < .84 and len(live) > 1:
            out.append(f"cp {r.choice(live)} {r.choice(live)} {r.choice([0, 1, 8, 16])} {r.choice([0, 0, 1, 5, 33])} {r.choice([0, 0, 1, 7, 20])} {r.randint(0, 1)}")
        elif x < .86 and live:
            out.append(f"ms {r.choice(live)} {r.choice([0, 1, 8])} {r.choice([0, 0, 1, 6])} {r.choice([0, 17, 255, 256, 300, -1, 65536, 2147483647])} {r.randint(0, 1)}")
        elif x < .89:
            out.append(f"def {a}")
        elif x < .92:
            pools = [n for n in every if names.get(n) in ("QP", "DL")]
            if pools and r.random() < .6:       # an empty pool gets its high watermark back by a coalesce
                a = r.choice(pools)
                out += [f"al {hs} {a} {size(r)}", f"fr {hs} 0"] if r.random() < .5 else []
                hs += 1
                for h in [h for h in live if own.get(h) == a]:
                    out.append(f"fr {h} 0")
                    live.remove(h)
                out.append(f"rl {a}")
            out.append(f"co {a}")
        elif x < .95:
            out.append(f"rl {a}")
        elif x < .97:
            out += [f"reg {a} {r.choice([1, 8, 200, 1 << 32, (1 << 40) + 3])}", "unreg"]
        elif x < .985:
            out += mk(r, names, trk, odd)
            every.append(list(names)[-1])
        else:
            out.append(f"mark {r.choice(NM)}")
    if "free" in out[0].split()[1]:
        a = r.choice(fast)
        out += [f"al {hs + k} {a} {size(r)}" for k in range(4)]
        out += [f"fr {hs + k} 0" for k in r.sample(range(4), r.randint(1, 3))]
    elif r.random() < .3:
        out.append(r.choice([f"rl {r.choice(every)}", f"def {r.choice(every)}", f"al {hs} HOST 8"]))
    return out


def word(r):
    return "".join(r.choice("abcXYZ019_.:/") if r.random() < .8 else r.choice(["%20", "%22", "%5c", "%0a", "%09", "%7b", "%c3%a9", "%01", "%00", "%25", "%2c"])
                   for _ in range(r.randint(1, 9)))


def ep_store(r, nops):
    out = ["store"]
    for _ in range(r.randint(1, nops)):
        x = r.random()
        num = r.choice([0, 1, 7, 4096, 2147483647, 2147483648, 4294967296, 9223372036854775807, 9223372036854775808, 18446744073709551615])
        p = f"{r.choice([0x10, 0x7fff12345678, 0xffffffffffff])+r.randint(0, 9):x} {r.choice([0x20, 0x55550000aa00]):x}"
        if x < .5:
            out.append(f"ev {word(r)} {r.randint(0, 2)} " + " ".join(
                (lambda t: f"{t}:{word(r)}=" + (str(r.choice([num, r.randint(0, 99)])) if t == "n" else word(r)))(r.choice("snt"))
                for _ in range(r.randint(0, 5))))
        elif x < .68:
            out.append(f"al {p} {num}")
        elif x < .84:
            out.append(f"nal {p} {num} {word(r)}")
        else:
            out.append(f"de {p}")
    if r.random() < .1:
        out.append("bad " + r.choice(["{", "x", "%7b%22name%22:%22x%22%7d", "[1,2]", "%7b%22name%22:1%7d"]))
    return out


FAM = dict(replay=lambda r, n: ep_prog(r, n), events=lambda r, n: ep_prog(r, n, "events", trk=False),
           off=lambda r, n: ep_prog(r, 10, "off"), store=ep_store)


def scripts(seed, mix, n, nops=40):
    fams = [f for f, k in mix.items() for _ in range(k)]
    for i in range(n):
        f = fams[i % len(fams)]
        r = random.Random(f"{seed}/{f}/{i}")
        yield f"{f}-{seed}-{i}", FAM[f](r, nops)
