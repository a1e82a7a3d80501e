"""Build, run, validate: the machinery every check shares."""
import concurrent.futures as cf
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4


class ToolError(Exception):
    pass


def build(targets, variant="std", flags="-O1", extra=()):
    """Compile /repo's current tree (and the harnesses) outside /repo."""
    bdir = os.path.join(VERIF, "build", variant)
    os.makedirs(bdir, exist_ok=True)
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
    cc = shutil.which("ccache")
    launch = []
    if cc:
        env.update(CCACHE_DIR=os.path.join(VERIF, "build", "ccache"), CCACHE_MAXSIZE="2G", CCACHE_SLOPPINESS="time_macros",
                   CCACHE_BASEDIR="", CCACHE_COMPILERCHECK="content")
        launch = [f"-DCMAKE_CXX_COMPILER_LAUNCHER={cc}", f"-DCMAKE_C_COMPILER_LAUNCHER={cc}"]
    with open(os.path.join(bdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        p = subprocess.run(["cmake", "-S", VERIF, "-B", bdir, "-G", "Ninja", f"-DUMPIRE_ROOT={REPO}", "-DCMAKE_BUILD_TYPE=",
                            f"-DCMAKE_CXX_FLAGS={flags}", f"-DCMAKE_C_FLAGS={flags}", *launch, *extra],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise ToolError("cmake failed:\n" + p.stdout[-4000:])
        p = subprocess.run(["ninja", "-C", bdir, *targets], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise ToolError("build failed:\n" + p.stdout[-6000:])
        return bdir, time.time() - t0


def scratch(pid):
    d = os.path.join(VERIF, "build", "run", f"{pid}.{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def tlc(module, cfg_text, workdir, env=None, timeout=600, args=(), heap="1500m", workers="1", keep=None):
    """One TLC run.  Returns dict(ok, verdict, out, states, distinct, depth)."""
    md = tempfile.mkdtemp(prefix="tlc.", dir=workdir)
    cfg = os.path.join(md, "M.cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC", f"-Xmx{heap}", "-Xss64m", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + md,
           "-cp", JARS, "tlc2.TLC", "-config", cfg, "-metadir", os.path.join(md, "st"), "-workers", str(workers),
           "-noGenerateSpecTE", *args, os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=md, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), -9
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    dm = re.search(r"depth of the complete state graph search is (\d+)", out)
    res = dict(rc=rc, out=out, states=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0,
               depth=int(dm.group(1)) if dm else 0)
    shutil.rmtree(md, ignore_errors=True)
    return res


def cfg(enforce, diag=True, consts="", spec="Spec", post="Accepted", inv=(), props=(), constraint=None, view=None, init=None, next=None):
    s = ""
    s += f"SPECIFICATION {spec}\n" if spec else f"INIT {init}\nNEXT {next}\n"
    s += "CONSTANTS\n  Enforce = {%s}\n  Diag = %s\n" % (",".join(f'"{p}"' for p in sorted(enforce)), "TRUE" if diag else "FALSE")
    if consts:
        s += consts + "\n"
    for i in inv:
        s += f"INVARIANT {i}\n"
    for p in props:
        s += f"PROPERTY {p}\n"
    if constraint:
        s += f"CONSTRAINT {constraint}\n"
    if view:
        s += f"VIEW {view}\n"
    if post:
        s += f"POSTCONDITION {post}\n"
    s += "CHECK_DEADLOCK FALSE\n"
    return s


def split_episodes(path):
    """[(first_line_no, [lines])] of an ndjson log, split at E events."""
    eps = []
    with open(path) as f:
        for n, line in enumerate(f):
            if line.startswith('{"t":"E"'):
                eps.append([])
            if eps:
                eps[-1].append(line)
    return eps


def validate(module, enforce, eps, workdir, chunk_events=1500, timeout=420, consts="", inv=(), env=None, jobs=NPROC, maxviol=3):
    """Validate recorded episodes against a trace specification.
    Returns dict(events, traces, states, transitions, rejected=[...])."""
    chunks, cur, n = [], [], 0
    for e in eps:
        cur.append(e)
        n += len(e)
        if n >= chunk_events:
            chunks.append(cur)
            cur, n = [], 0
    if cur:
        chunks.append(cur)
    text = cfg(enforce, consts=consts, inv=inv)
    res = dict(events=0, traces=0, states=0, transitions=0, rejected=[])
    seen, lost = [0], []          # rejections so far; chunks TLC gave no answer on

    def one(idx):
        path = os.path.join(workdir, f"chunk.{module}.{idx}.ndjson")
        todo = list(chunks[idx])
        rej, done, states = [], 0, 0
        while todo and seen[0] < 2 * maxviol:
            with open(path, "w") as f:
                for e in todo:
                    f.writelines(e)
            tot = sum(len(e) for e in todo)
            try:
                r = tlc(module, text, workdir, env=dict(env or {}, TRACE=path), timeout=timeout)
            except ToolError as e:
                lost.append(str(e))
                break
            states += r["distinct"]
            reached = re.search(r'<<"REACHED", (\d+)>>', r["out"])   # trace specifications with steps of their own
            if reached:
                r["depth"] = int(reached.group(1))
            if "Model checking completed. No error has been found" in r["out"] and r["depth"] - 1 == tot:
                done += len(todo)
                break
            inv_broken = re.search(r"Invariant (\w+) is violated", r["out"])
            here = [int(x) for x in re.findall(r"/\\ l = (\d+)", r["out"])]      # the behaviour TLC prints with an error
            no_value = not inv_broken and "Postcondition Accepted" not in r["out"]
            if no_value and not (here and ("Error evaluating" in r["out"] or "TLC threw" in r["out"] or "Attempted to" in r["out"])):
                lost.append(f"TLC failed on {path}:\n" + r["out"][-3000:])
                break
            at = r["depth"] - 1               # events accepted
            if inv_broken:
                at = here[-1] - 2 if here else 0
            elif no_value:                    # an event the specification gives no meaning to is not one of its behaviours
                at = here[-1] - 1
            pos = 0
            for k, e in enumerate(todo):
                if at < pos + len(e):
                    break
                pos += len(e)
            seen[0] += 1
            fails = re.findall(r'<<\s*"FAIL",\s*\{([^}]*)\},\s*"([^"]*)"\s*>>', r["out"].replace("\n", " "))
            why = "; ".join(f"{b}" for a, b in fails[-1:]) or (inv_broken.group(1) if inv_broken else "no action of the specification matches")
            ep = todo[k]
            rej.append(dict(episode=ep, at=at - pos, why=why, event=ep[min(at - pos, len(ep) - 1)].strip()))
            done += k
            todo = todo[k + 1:]
            if len(rej) >= maxviol:
                break
        if os.path.exists(path):
            os.unlink(path)
        return tot_events(chunks[idx]), len(chunks[idx]), states, rej

    def tot_events(c):
        return sum(len(e) for e in c)

    with cf.ThreadPoolExecutor(jobs) as ex:
        for ev, tr, st, rej in ex.map(one, range(len(chunks))):
            res["events"] += ev
            res["traces"] += tr
            res["states"] += st
            res["transitions"] += max(0, st - 1)
            res["rejected"] += rej
    if lost and not res["rejected"]:
        raise ToolError(lost[0])
    return res


def run_harness(exe, script_lines, workdir, name, timeout_s=20, env=None, jobs=NPROC, wall=600, runaway=0):
    """Run episodes [(id, lines)] spread over several harness processes; returns the episode logs in order.
    An episode with more than `runaway` events per line of its script is cut down to saying so."""
    eps = list(script_lines)
    k = max(1, min(jobs, len(eps)))
    parts = [eps[i::k] for i in range(k)]
    procs = []
    e = dict(os.environ)
    for v in ("UMPIRE_LOG_LEVEL", "UMPIRE_OUTPUT_DIR", "UMPIRE_OUTPUT_BASENAME", "UMPIRE_EVENTS", "UMPIRE_REPLAY"):
        e.pop(v, None)
    e.update(env or {})
    for i, part in enumerate(parts):
        sp, op = os.path.join(workdir, f"{name}.{i}.script"), os.path.join(workdir, f"{name}.{i}.ndjson")
        with open(sp, "w") as f:
            for eid, lines in part:
                f.write(f"E {eid}\n" + "\n".join(lines) + "\n")
        procs.append((subprocess.Popen([exe, sp, op, str(timeout_s)], env=e, cwd=workdir, stdout=subprocess.DEVNULL,
                                       stderr=subprocess.PIPE, text=True), op, part))
    logs = {}
    deadline = time.time() + wall
    for p, op, part in procs:
        try:
            _, err = p.communicate(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            raise ToolError(f"harness {exe} did not finish in {wall}s")
        if p.returncode:
            raise ToolError(f"harness {exe} failed ({p.returncode}): {err[-2000:]}")
        got = split_episodes(op)
        if len(got) != len(part) and not any('"why":"hang"' in g[-1] for g in got):
            raise ToolError(f"harness {exe}: {len(got)} episodes logged, {len(part)} expected")
        for (eid, lines), g in zip(part, got):
            if runaway and len(g) > 300 + runaway * len(lines):
                g = [g[0], json.dumps(dict(t="X", why="runaway", events=len(g))) + "\n"]
            logs[eid] = g
    return [logs[eid] for eid, _ in eps if eid in logs]


class Check:
    """Collects what a check covered, writes its evidence, decides its exit."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = scratch(pid)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], events_validated=0, parts=[])
        self.violations = []
        self.assumptions = []
        self.known = []
        self.bdir = None

    def exe(self, target, **kw):
        self.bdir, t = build([target], **kw)
        return os.path.join(self.bdir, target)

    def left(self, total):
        return total - (time.time() - self.t0)

    def model(self, name, module, text, timeout=300, workers=str(NPROC), args=(), heap="4g"):
        """Check a design model; a broken invariant of the model is an error of the framework, not of the code."""
        r = tlc(module, text, self.dir, timeout=timeout, workers=workers, args=args, heap=heap)
        sim = "-simulate" in args
        if not sim and "Model checking completed. No error has been found" not in r["out"]:
            raise ToolError(f"model {module} does not hold or did not finish:\n" + r["out"][-4000:])
        if sim and ("is violated" in r["out"] or "Error:" in r["out"]):
            raise ToolError(f"model {module} does not hold:\n" + r["out"][-4000:])
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["states"]
        self.cov["parts"].append(dict(part=name, kind="model", module=module, states=r["distinct"], transitions=r["states"], depth=r["depth"]))
        return r

    def traces(self, name, exe, module, enforce, eps, how, inv=(), consts="", timeout_s=10, env=None, chunk_events=1500,
               confirm=True):
        """Run episodes on the real code and validate what they logged."""
        eps = list(eps)
        exe = exe if os.path.isabs(exe) else self.exe(exe)
        runaway = 30 if os.path.basename(exe) == "h_alloc" else 0
        logs = run_harness(exe, eps, self.dir, name, timeout_s=timeout_s, env=env, runaway=runaway)
        res = validate(module, enforce, logs, self.dir, chunk_events=chunk_events, consts=consts, inv=inv)
        script = dict(eps)
        for x in res["rejected"]:
            eid = json.loads(x["episode"][0])["id"]
            again = x
            if confirm:   # a rejection counts only if a second run (schedules: one of several) of the same history repeats it
                more = [(f"{eid}.{k}", script[eid]) for k in range(int(confirm))]
                l2 = run_harness(exe, more, self.dir, name + ".again", timeout_s=2 * timeout_s, env=env, runaway=runaway)
                r2 = validate(module, enforce, l2, self.dir, consts=consts, inv=inv)
                again = r2["rejected"][0] if r2["rejected"] else None
            if again is None:
                self.cov["parts"].append(dict(part=name, kind="unrepeated", episode=eid, why=x["why"]))
                continue
            self.violation(f"{again['why']} (episode {eid}, event {again['at']}: {again['event'][:300]})",
                           dict(harness=os.path.basename(exe), module=module, enforce=sorted(enforce), why=again["why"], at=again["at"],
                                event=again["event"], script=script[eid], trace=[t.strip() for t in again["episode"][:again["at"] + 1]][-400:]))
            if len(self.violations) >= 3:
                break
        self.cov["states"] += res["states"]
        self.cov["transitions"] += res["transitions"]
        self.cov["traces_validated_against_impl"] += res["traces"]
        self.cov["events_validated"] += res["events"]
        for q in self.cov["parts"]:
            if q.get("part") == name and q.get("kind") == "traces":
                q["traces"] += res["traces"]
                q["events"] += res["events"]
                break
        else:
            self.cov["parts"].append(dict(part=name, kind="traces", traces=res["traces"], events=res["events"], how=how))
            if logs:
                self.cov["samples"].append(dict(part=name, trace=[x.strip() for x in logs[len(logs) // 2][:12]]))
        return res

    def batches(self, name, exe, module, enforce, gen, quick, how, budget=600, **kw):
        """gen(seed, n) -> episodes.  Quick: one batch.  Thorough: batches with fresh seeds until the time is used up."""
        exe = exe if os.path.isabs(exe) else self.exe(exe)
        if self.tier != "thorough":
            self.traces(name, exe, module, enforce, gen(f"{self.seed}/{name}", quick), how, **kw)
            return
        k = 0
        t0 = time.time()
        while time.time() - t0 < budget and not self.violations:
            self.traces(name, exe, module, enforce, gen(f"{self.seed}/{name}/{k}" if k else f"{self.seed}/{name}", quick * (1 if not k else 6)), how, **kw)
            k += 1

    def finding(self, what, exe, module, ep, at):
        """A history that is listed in KNOWN_FINDINGS.txt.  It is reported as such while it fails as listed: at that guard."""
        exe = exe if os.path.isabs(exe) else self.exe(exe)
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
            listed = f"finding: property={self.pid} {what}" in f.read().splitlines()
        logs = run_harness(exe, [ep], self.dir, "finding")
        res = validate(module, {self.pid}, logs, self.dir)
        if listed and res["rejected"] and res["rejected"][0]["why"] == at:
            self.known.append(what)
        elif res["rejected"]:
            self.traces("finding", exe, module, {self.pid}, [ep], what)

    def violation(self, what, payload):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.pid}-{len(self.violations)}.json")
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, what=what, **payload), f, indent=1)
        self.violations.append((what, path))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        for what, path in self.violations:
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  {what}")
        print(f"{self.pid} {self.tier}: {self.cov['traces_validated_against_impl']} traces, "
              f"{self.cov['events_validated']} events, {self.cov['states']} states, "
              f"{len(self.violations)} violations, {ev['wall_s']}s")
        return 1 if self.violations else 0
