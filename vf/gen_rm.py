"""Scripts for harness/h_rm.cpp: names, operations, queries, C interface."""
import random

NAMES = ["a", "b", "pool", "P1", "HOST2", "host", "HOST ", "x.y", "HOST::x", "averyveryverylongallocatornamethatdoesnotfitasmallstring", "a1", "ab"]
NAMES = [n.replace(" ", "_") for n in NAMES]
RES = ["HOST", "FILE"]
BIG = ["p60", "p61+3", "max-0", "max-1", "max-15", "p50"]


def kinds(r, api):
    if api:
        k = r.choice(["QP", "DL", "NA", "TS", "FP"])
    else:
        k = r.choice(["QP", "DL", "NA", "NA", "TS", "SL", "SL", "AA", "FP"])
    par = {"QP": f"{r.choice([64, 128, 512])} {r.choice([64, 256])} {r.choice([8, 16, 64])}",
           "DL": f"{r.choice([64, 128, 512])} {r.choice([64, 256])} {r.choice([8, 16, 64])}",
           "NA": "", "TS": "", "SL": str(r.choice([0, 1, 16, 40, 64, 100, 200])),
           "AA": str(r.choice([1, 8, 16, 64, 256, 3, 0, 24]) if r.random() < .3 else r.choice([8, 16, 64, 256])),
           "FP": str(r.choice([8, 16, 24, 32]))}[k]
    return k, par


def c(r, pc):
    return "C." if r.random() < pc else ""


def ep_names(r, nops, pc=0.0):
    out = ["R"]
    n = 0          # allocators known to the script
    hs = 0
    if r.random() < .7:
        out.append(f"{c(r, pc)}get 0 HOST")
        n = 1
    else:
        out.append(r.choice(["gdf 0", "grt 0 HOST", "grt 0 FILE", "re 500 -1 0 16 -1 0"]))
        n = 1
    for _ in range(nops):
        x = r.random()
        any_ = r.randint(0, n - 1)
        nm = r.choice(NAMES + RES)
        if x < .22:
            k, par = kinds(r, pc > 0 and r.random() < pc)
            api = c(r, pc) if k in ("QP", "DL", "NA", "TS", "FP") else ""
            out.append(f"{api}mk {n} {nm} {k} {any_} {0 if not api and r.random() < .15 else 1} {par}")
            n += 1
        elif x < .36:
            out.append(f"{c(r, pc)}get {n} {nm}")
            n += 1
        elif x < .50:
            out.append(f"{c(r, pc)}ali {nm} {any_}")
        elif x < .64:
            out.append(f"{c(r, pc)}una {nm} {any_}")
        elif x < .70:
            out.append(f"{c(r, pc)}gid {r.choice(['@' + str(any_), '@' + str(any_), '0', '1', '2', '3', '5', '17', '-1', '65535', '-17'])}")
        elif x < .78:
            out.append(f"{c(r, pc)}isn {nm}")
        elif x < .85:
            out.append("lst")
        elif x < .89:
            out.append(f"def {any_}")
        elif x < .93:
            out.append(f"gdf {n}")
            n += 1
        elif x < .96:
            out.append(f"al {hs} {any_} {r.choice([0, 1, 8, 16])}")
            hs += 1
        else:
            out.append(f"{c(r, pc)}st {any_}")
    for i in range(n):
        out.append(f"{c(r, pc)}st {i}")
        if r.random() < .3:
            out.append(f"inf {i}")
    for nm in NAMES + RES:
        out.append(f"isn {nm}")
    out.append("lst")
    return out


def size(r):
    return r.choice([0, 1, 2, 3, 7, 8, 15, 16, 17, 24, 31, 32, 33, 40, 48, 64] + ([100, 200, 1000] if r.random() < .3 else []) + ([5000, 70000, 300000] * 3 if r.random() < .03 else []))


def ep_ops(r, nops, pc=0.0, mix=None, pools=None):
    out = ["R", "get 0 HOST"]
    pools = r.random() < .5 if pools is None else pools
    objs = {0: None}
    n = 1
    nal = r.choice([1, 2, 3, 4])
    parents = [0]
    for _ in range(nal):
        y = r.random()
        if y < .15:
            out.append(f"get {n} FILE")
        else:
            while True:
                k, par = kinds(r, pc > .5)
                if pools or k in ("NA", "TS", "SL"):
                    break
            if k == "AA" and int(par) not in (1, 2, 4, 8, 16, 32, 64, 128, 256):
                par = "16"
            api = c(r, pc) if k in ("QP", "DL", "NA", "TS", "FP") else ""
            p = r.choice(parents) if r.random() < .4 else 0
            out.append(f"{api}mk {n} al{n} {k} {p} {0 if not api and r.random() < .07 else 1} {par}")
            if k in ("NA", "TS", "SL"):
                parents.append(n)
            if k == "FP":
                objs[n] = int(par)
        n += 1
    if r.random() < .3:
        out.append(f"def {r.randint(0, n - 1)}")
    live = []
    nxt = 0
    sizes = {}
    fixed = objs

    def sz(a):
        return fixed[a] if fixed.get(a) and r.random() < .9 else size(r)

    def pick():
        return r.choice(live)

    def dead():
        return -(r.randint(0, max(0, nxt - 1)) + 10)

    def off(h):
        m = sizes.get(h, 0)
        return r.choice([0, 0, 1, m // 2, m - 1, m]) if m > 0 else 0

    bad = r.choice([0, .1, .25])
    for _ in range(nops):
        x = r.random()
        a = r.randint(0, n - 1)
        if x < .26 or not live:
            y = r.random()
            if y < .04:
                out.append(f"{c(r, pc)}al {nxt} {a} {r.choice(BIG)}")
                continue
            if y < .12 and not pc:
                t = r.choice([1, 2, 4, 8, 24])
                m = r.choice([0, 1, 2, 3, 5])
                if r.random() < .25:
                    out.append(f"al {nxt} {a} T{t}:{ {1: 'max-0', 2: 'p63+4', 4: 'p62+4', 8: 'p61+1', 24: 'p60+1'}[t] }")
                    continue
                out.append(f"al {nxt} {a} T{t}:{m}")
                sizes[nxt] = t * m
            else:
                s = sz(a)
                nm = r.choice([f" n{r.randint(0, 5)}"] * 4 + [" " + "w" * r.choice([15, 16, 255, 256, 300, 1025])]) if r.random() < .2 and not pc else ""
                out.append(f"{c(r, pc if not nm else 0)}al {nxt} {a} {s}{nm}")
                sizes[nxt] = s
            live.append(nxt)
            nxt += 1
        elif x < .40:
            y = r.random()
            h = pick()
            if y < bad:
                z = r.random()
                if z < .4:
                    out.append(f"{c(r, pc)}fr {a} {h} 0")      # often the wrong allocator
                elif z < .6:
                    out.append(f"{c(r, pc)}rf {h} {off(h)}")
                elif z < .7:
                    out.append(f"{c(r, pc)}fr {a} {r.choice([-1, -2, dead()])} {r.choice([0, 0, 1])}")
                elif z < .8:
                    out.append(f"{c(r, pc)}rf {r.choice([-1, -2, dead()])} {r.choice([0, 0, 1])}")
                else:
                    out.append(f"{c(r, pc)}fr {a} {h} {off(h)}")
                out.append(f"q {h} 0")
                continue
            live.remove(h)
            out.append(f"{c(r, pc)}rf {h} 0")
        elif x < .54:
            d, s = pick(), pick()
            if r.random() < bad / 2:
                if r.random() < .5:
                    d = r.choice([-1, -2, dead()])
                else:
                    s = r.choice([-1, -2, dead()])
            do, so = (off(d) if d >= 0 else 0), (off(s) if s >= 0 else 0)
            rd, rs = sizes.get(d, 0) - do, sizes.get(s, 0) - so
            m = r.choice([0, 0, 1, max(0, min(rd, rs)), max(0, rd), max(0, rd) + 1, max(0, rs), r.choice(BIG)])
            out.append(f"{c(r, pc)}cp {d} {do} {s} {so} {m} {r.choice([0, 0, 1])}")
        elif x < .64:
            h = pick() if r.random() > bad / 2 else r.choice([-1, -2, dead()])
            o = off(h) if h >= 0 else 0
            rem = sizes.get(h, 0) - o
            m = r.choice([0, 0, 1, max(0, rem), max(0, rem) + 1, max(0, rem - 1), r.choice(BIG)])
            out.append(f"{c(r, pc)}ms {h} {o} {r.choice([0, 1, 255, 256, -1, 65, 1000])} {m} {r.choice([0, 0, 1])}")
        elif x < .78:
            y = r.random()
            h = pick()
            s = sz(a) if r.random() > .06 else r.choice(BIG)
            al = -1 if r.random() < .6 else a
            if y < .12:
                out.append(f"{c(r, pc)}re {nxt} -1 0 {s} {al} {r.choice([0, 1])}")
                if not isinstance(s, str):
                    sizes[nxt] = s
                    live.append(nxt)
                    nxt += 1
                continue
            if y < .12 + bad / 2:
                out.append(f"{c(r, pc)}re {nxt} {r.choice([-2, dead()])} 0 {s} {al} 0")
                continue
            o = off(h) if r.random() < bad else 0
            out.append(f"{c(r, pc)}re {nxt} {h} {o} {s} {al} {r.choice([0, 0, 1])}")
            out.append("v")
            if not isinstance(s, str) and o == 0:
                sizes[nxt] = s
                live.append(nxt)      # either the old or the new handle is the live one
                nxt += 1
        elif x < .85:
            h = pick()
            o = off(h) if r.random() < bad else 0
            if r.random() < bad / 3:
                h, o = r.choice([-2, dead()]), 0
            out.append(f"{c(r, pc)}mv {nxt} {h} {o} {a}")
            sizes[nxt] = sizes.get(h, 0)
            live.append(nxt)
            nxt += 1
        elif x < .93:
            h = r.choice(live + [-1, -2, dead()])
            o = off(h) if h >= 0 else r.choice([0, 1])
            if h >= 0 and r.random() < .3:
                o = sizes.get(h, 0) + r.choice([0, 1, 8])
            out.append(f"{c(r, pc)}q {h} {o}")
        elif x < .95:
            out.append("v")
        elif x < .97:
            out.append(f"rec {a}")
        elif x < .98:
            out.append(f"{c(r, pc)}rls {a}" if r.random() < .6 else f"inf {a}")
        else:
            out.append(f"{c(r, pc)}st {a}")
    out.append("v")
    for i in range(n):
        out += [f"{c(r, pc)}st {i}", f"rec {i}"]
    return out


def ep_ext(r, nops, pc=0.0):
    out = ["R", "get 0 HOST", "mk 1 m NA 0 1 "]
    live, nxt = [], 0
    for _ in range(nops):
        x = r.random()
        if x < .35 or not live:
            base = r.choice([0, 64, 128])
            out.append(f"{c(r, pc)}ext {nxt} {base + r.randint(0, 24)} {r.choice([0, 1, 2, 4, 8, 16, 24, 64])} {r.randint(0, 1)}")
            live.append(nxt)
            nxt += 1
        elif x < .5:
            h = r.choice(live)
            live.remove(h)
            out.append(f"{c(r, pc)}une {h}")
        elif x < .55:
            out.append(f"{c(r, pc)}une {r.choice([-2, -(r.randint(0, nxt) + 10)])}")
        elif x < .85:
            o = r.choice(["", "", f" {r.randint(0, 3)} {r.randint(0, 12)}", f" 0 {r.choice([1, 7, 15, 23])}"])
            out.append(f"{c(r, pc)}ov {r.choice(live + [-2] if r.random() < .1 else live)} {r.choice(live + [-1, -2] if r.random() < .1 else live)}{o}")
        elif x < .9:
            out.append(f"{c(r, pc)}q {r.choice(live)} 0")
        elif x < .95:
            out.append(f"{c(r, pc)}al {nxt} {r.randint(0, 1)} {size(r)}")
            live.append(nxt)
            nxt += 1
        else:
            out.append(f"rec {r.randint(0, 1)}")
    out.append("rec 1")
    return out


FAM = dict(names=ep_names, ops=ep_ops, plain=lambda r, n: ep_ops(r, n, pools=False), ext=ep_ext,
           cnames=lambda r, n: ep_names(r, n, .8), cops=lambda r, n: ep_ops(r, n, .8), cext=lambda r, n: ep_ext(r, n, .8))


def scripts(seed, mix, n, nops):
    r = random.Random(f"rm/{seed}")
    fams = sorted(mix)
    for k in range(n):
        f = r.choices(fams, [mix[x] for x in fams])[0]
        yield f"{f}-{seed}-{k}", FAM[f](r, nops)
