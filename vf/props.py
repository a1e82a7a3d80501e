"""What each check runs."""
from . import core, gen_alloc, gen_design, gen_ev, gen_io, gen_map, gen_op, gen_out, gen_rm, gen_thr

TARGETS = ["h_alloc", "h_map", "h_rm", "h_io", "h_thr", "h_ev", "h_out", "h_op", "replay", "replaydiff"]
DECIDE = {}


def decides(pid):
    def d(f):
        DECIDE[pid] = f
        return f
    return d


def run(chk):
    DECIDE[chk.pid](chk)


def layers(chk, mix, quick, nops=40, budget=600):
    chk.batches("layers", "h_alloc", "LayersTrace", {chk.pid}, lambda s, n: gen_alloc.scripts(s, mix, n, nops), quick,
                "seeded histories over generated configurations of real strategies on a recording parent", inv=("NoOverlap",),
                budget=budget)


def bulk(chk, quick=8):
    chk.batches("bulk", "h_alloc", "LayersTrace", {chk.pid}, lambda s, n: [*gen_alloc.scripts(s, dict(bulk=1), n - 1, 0), *gen_alloc.scripts(s, dict(bulkfp=1), 1, 0)], quick,
                "thousands of live allocations, made and returned in bulk", inv=("NoOverlap",), budget=60, chunk_events=1)


def manager(chk, mix, quick, nops=40, budget=600):
    chk.batches("manager", "h_rm", "RMTrace", {chk.pid}, lambda s, n: gen_rm.scripts(s, mix, n, nops), quick,
                "seeded histories on the real ResourceManager, free functions and C interface", budget=budget)


def design(chk, quick=600, per=4):
    """Every short history of the pool design, replayed on the real pools (quick: a sample of them)."""
    import random
    thorough = chk.tier == "thorough"
    cfgs = gen_design.CONFIGS if thorough else random.Random(f"{chk.seed}").sample(gen_design.CONFIGS, per)
    found = gen_design.explore(chk, cfgs, 8 if thorough else 6)
    chk.traces("design", "h_alloc", "LayersTrace", {chk.pid}, gen_design.scripts(found, f"{chk.seed}", 0 if thorough else quick),
               "one script per transition of the pool design's state graph", inv=("NoOverlap",))


ALL = dict(pool=5, two=2, stack=4, fixed=2, mixed=2, mixchurn=1, slot=1, mono=1, aligned=2, limit=1, wrap=1, zero=1, default=1, giant=1)


@decides("C01")
def c01(chk):
    layers(chk, ALL, 420)
    bulk(chk)
    manager(chk, dict(ops=2, plain=1, cops=1), 120, budget=150)


@decides("C02")
def c02(chk):
    layers(chk, dict(ALL, ctor=1, blocks=1), 720)
    design(chk)


@decides("C03")
def c03(chk):
    layers(chk, dict(pool=6, two=2, fixed=2, mixed=2, mixchurn=1, stack=2, giant=1, blocks=1), 660)
    bulk(chk)
    design(chk)


@decides("C04")
def c04(chk):
    layers(chk, dict(ALL, limit=2, wrap=2), 900)
    manager(chk, dict(ops=2, plain=2, cops=1), 400, budget=150)


@decides("C08")
def c08(chk):
    layers(chk, dict(ALL, ctor=2, limit=3, slot=2, mono=2), 800)
    design(chk)


@decides("C09")
def c09(chk):
    layers(chk, dict(two=4, stack=3, wrap=2, zero=1, pool=2, aligned=1, fixed=1, giant=1), 900)
    manager(chk, dict(ops=2, plain=2, cops=1), 400, budget=200)


@decides("C10")
def c10(chk):
    layers(chk, dict(pool=8, two=2, stack=2, fixed=1, default=2, badcfg=1, giant=1, blocks=1), 600)
    design(chk, 1500, 12)


@decides("C13")
def c13(chk):
    layers(chk, dict(pool=3, aligned=5, stack=2, mixed=1, default=1, giant=1), 1250)


@decides("C14")
def c14(chk):
    layers(chk, dict(limit=5, mono=3, slot=3, fixed=1, stack=2, giant=2), 1300)
    bulk(chk, 1)


@decides("C23")
def c23(chk):
    layers(chk, dict(zero=8, wrap=1, giant=1), 800)


def maps(chk, mix, quick, nops=40, budget=600):
    chk.batches("containers", "h_map", "MapsTrace", {chk.pid}, lambda s, n: gen_map.scripts(s, mix, n, nops), quick,
                "seeded histories on the real containers; key sets that reach every Judy node shape", budget=budget)


def many(chk, fam, quick=16):
    chk.batches("many keys", "h_map", "MapsTrace", {chk.pid}, lambda s, n: gen_map.scripts(s, {fam: 1}, n, 0), quick,
                "thousands of keys, inserted and removed in runs", budget=60, chunk_events=1)


@decides("C05")
def c05(chk):
    maps(chk, dict(am=3, amnest=1, ambig=1, amdense=2), 280)
    many(chk, "amhuge")
    manager(chk, dict(ops=2, plain=3, ext=1), 400, budget=200)


@decides("C06")
def c06(chk):
    maps(chk, dict(mm=3, mmbig=3, mmcur=2), 600)
    many(chk, "mmhuge")


@decides("C07")
def c07(chk):
    maps(chk, dict(fp=3, fs=3), 800, nops=80)
    maps(chk, dict(fpbig=1), 24, budget=120)
    maps(chk, dict(fpmass=1), 12, budget=60)


@decides("C11")
def c11(chk):
    manager(chk, dict(ops=2, plain=2, cops=1), 1200)


@decides("C12")
def c12(chk):
    manager(chk, dict(ops=2, plain=2, cops=1), 1200)


@decides("C15")
def c15(chk):
    manager(chk, dict(names=3, cnames=1, ops=1), 1000)


@decides("C22")
def c22(chk):
    manager(chk, dict(cnames=2, cops=4, cext=1), 1200)


@decides("C24")
def c24(chk):
    manager(chk, dict(ext=2, plain=2, ops=2, cext=1), 900)
    maps(chk, dict(frag=1), 150, nops=60, budget=100)


def io(chk, mix, quick, nops=40, budget=600, name="io"):
    chk.batches(name, "h_io", "IOTrace", {chk.pid}, lambda s, n: gen_io.scripts(s, mix, n, nops), quick,
                "seeded histories on the real resources; shared segments with several real processes", budget=budget, timeout_s=20)


@decides("C19")
def c19(chk):
    io(chk, dict(file=1), 700)


@decides("C20")
def c20(chk):
    io(chk, dict(shm=1), 220, budget=300)
    io(chk, dict(race=1), 700, name="races", budget=300)


@decides("C16")
def c16(chk):
    def go(exe, name, mix, quick, how, budget, **kw):
        chk.batches(name, exe, "ThreadsTrace", {chk.pid}, lambda s, n: gen_thr.scripts(s, mix, n), quick, how, budget=budget, **kw)
    go("h_thr", "schedules", dict(park=1), 160, "one thread is parked inside the parent strategy while others run", 200)
    go("h_thr", "parallel", dict(free=1), 160, "free running threads; TLC searches a linearization", 200, confirm=40)
    exe = chk.exe("h_thr", variant="tsan", flags="-O1 -fsanitize=thread")
    try:
        core.run_harness(exe, list(gen_thr.scripts("probe", dict(free=1), 1)), chk.dir, "probe", env=TSAN)
    except core.ToolError as e:
        chk.assumptions.append("ThreadSanitizer cannot run here: " + str(e)[:200])
        return
    go(exe, "race detector", dict(free=1, park=1), 80, "the same under ThreadSanitizer; a reported race is an event of the trace", 200,
       confirm=20, env=TSAN)


def events(chk, mix, quick, nops=40, budget=600):
    core.build(["h_ev", "replay", "replaydiff"])
    chk.batches("events", "h_ev", "EventsTrace", {chk.pid}, lambda s, n: gen_ev.scripts(s, mix, n, nops), quick,
                "seeded programs run with recording on; their log is read, replayed and compared by the real tools", budget=budget, timeout_s=30)


@decides("C17")
def c17(chk):
    events(chk, dict(events=3, replay=2, off=1, store=2), 450)


@decides("C18")
def c18(chk):
    events(chk, dict(replay=1), 300)
    chk.finding("after a reallocate() that throws the replay tool ignores the allocations and deallocations that follow", "h_ev", "EventsTrace",
                ("failed-realloc", ["replay same 0", "res HOST", "mk a0 QP 1 HOST 4096", "mk a1 LI 1 a0 1000", "go_on", "al 0 a1 600",
                                    "re 0 2000", "al 1 a0 64", "al 2 a1 100", "fr 1 0"]),
                "the statistics at the end are those of the program")


@decides("C21")
def c21(chk):
    chk.batches("output", "h_out", "OutTrace", {chk.pid}, lambda s, n: gen_out.scripts(s, dict(buf=1, io=2, rm=2), n, 30), 600,
                "seeded programs in their own processes; what they wrote and left behind is read back", timeout_s=20)


@decides("C25")
def c25(chk):
    chk.batches("operations", "h_op", "OpsTrace", {chk.pid}, lambda s, n: gen_op.scripts(s, dict(ops=5, lots=1), n, 50), 480,
                "seeded histories on the real manager, registry and strategies with recording devices and operations")


TSAN = dict(TSAN_OPTIONS="exitcode=0 report_signal_unsafe=0")
