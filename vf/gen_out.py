"""Scripts for harness/h_out.cpp."""
import random


def text(r, nl=True):
    n = r.choice([0, 1, 2, 5, 9, 40])
    return "%2e" + "".join(r.choice("abcXYZ019_.:/") if r.random() < .6 else f"%{r.choice([0, 255, 10 if nl else 32, 13, 34, 37, 92, 200, 127, 91, r.randint(0, 255)]):02x}"
                           for _ in range(n)).replace("%0a", "%0a" if nl else "%20")


def tag(r, i):
    return f"m{i}." + "".join(r.choice("abcXYZ019_.:/ %".replace(" ", "")).replace("%", "%25") for _ in range(r.randint(0, 30)))


def ep_buf(r, nops):
    out = ["buf"]
    if r.random() < .4:
        for k in range(4):
            if r.random() < .5:
                out.append(f"cap {k} {r.choice([-1, 0, 1, 3, 10, 50])} {r.choice([0, 0, -1])}")
    out.append(f"att con {r.choice([-1, 0, 1])}")
    out.append(f"att file {r.choice([-1, 2, 3, 2])}")
    for _ in range(nops):
        x = r.random()
        if x < .6:
            b = [r.choice([0, 10, 255, 254, 128, 65, r.randint(0, 255)]) for _ in range(r.choice([0, 1, 1, 2, 7, 30, 300]))]
            out.append(f"w {r.choice('csw')} " + " ".join(map(str, b)))
        elif x < .8:
            out.append("fl")
        elif x < .9:
            out.append(r.choice([f"att con {r.choice([-1, 0, 1])}", f"att file {r.choice([-1, 2, 3])}"]))
        elif r.random() < .6:
            out.append("clr")
    out.append("del")
    return out


LEVELS = ["error", "warning", "info", "debug"]


def level(r):
    x = r.random()
    if x < .15:
        return "-"
    if x < .3:
        return r.choice(["x", "Off", "inf", "infos", "1", "warn", "debu", "debugg", "%ff", "errorx", "INFO%20", "DEBUGX", "WARN", "DEB", "ERRORS", "Warnings", "E", "D", "Debug%0a"])
    w = r.choice(LEVELS)
    return r.choice([w, w.upper(), w.capitalize(), "".join(r.choice([c, c.upper()]) for c in w)])


def ep_io(r, nops):
    dm = r.choice([0, 1, 1, 1, 2, 3, 4])
    pre = r.choice([[], [], [0], [0, 1], [1], [0, 1, 2, 3], [0, 2], list(range(12))]) if dm in (0, 1) else []
    base = r.choice(["-", "-", "b", "my.log", "a%20b"])
    out = [f"io {level(r)} {base} {dm} " + " ".join(map(str, pre))]
    ini = False
    for i in range(nops):
        x = r.random()
        if not ini and x < .2 + i / nops:
            if dm == 3 or r.random() < .2:
                out.append("mpi")
            out.append(f"ini {r.choice([1, 1, 1, 0]) if dm != 3 else 1}")
            ini = True
        elif x < .4:
            out.append(f"lg {r.choice([0, 1, 2, 3, 3, 2])} {text(r)} {r.choice(['f.cpp', 'a/b%20c.hpp', 'x%22'])} {r.choice([0, 1, 77, 123456])}")
        elif x < .5:
            out.append(f"set {r.randint(0, 3)}")
        elif x < .6:
            out.append(f"en {r.choice([-1, 0, 1, 2, 3, 4])}")
        elif x < .75:
            out.append(f"wl {text(r)}")
        elif x < .88:
            out.append(f"we {text(r)}" if ini else f"wl {text(r)}")
        elif x < .97:
            out.append("fl")
        elif ini:
            out += ["fin", f"wl {text(r)}", "ini " + str(r.choice([0, 1]))] if dm == 1 else ["fin"]
    return out


def ep_rm(r, nops):
    out = [f"rm {level(r)} - {r.choice([0, 1])}"]
    hs, live = 0, []
    for i in range(nops):
        x = r.random()
        if x < .3:
            out.append(f"lg {r.randint(0, 3)} {tag(r, i)} f.cpp {i}")
        elif x < .45:
            out.append(f"mac {r.randint(0, 3)} {tag(r, i)}")
        elif x < .6:
            k = r.choice(["oom", "oomn", "oomp", "oomt", "oomh", "oomq", "unk", "unkc", "unko", "name", "id", "dup", "fr"])
            out.append(f"er {k} {r.choice([1 << 50, 1 << 60, (1 << 62) - 4096, 1 << 62, (1 << 63) - 65536])}" if k in ("oomh", "oomq")
                       else f"er {k} {r.choice([8200, 9000, 100001, 3000000000])}" if k.startswith("oom") else f"er {k} {r.randint(0, 7)}")
        elif x < .85:
            out.append(f"al {hs} {r.choice(['HOST', 'p', 'lim', 'plim', 'hlim', 'tlim'])} {r.choice([0, 1, 8, 100, 700, 2000])}")
            live.append(hs)
            hs += 1
        elif live:
            out.append(f"fr {live.pop(r.randrange(len(live)))}")
    if r.random() < .4:
        out += [f"fr {h}" for h in live]
    return out


FAM = dict(buf=ep_buf, io=ep_io, rm=ep_rm)


def scripts(seed, mix, n, nops=30):
    fams = [f for f, k in mix.items() for _ in range(k)]
    for i in range(n):
        f = fams[i % len(fams)]
        r = random.Random(f"{seed}/{f}/{i}")
        yield f"{f}-{seed}-{i}", FAM[f](r, nops)
