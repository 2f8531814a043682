"""
Core of the simulator: one seed -> one program (a JSON list of operations, client
schedule and faults) -> one exactly repeatable execution.

A Scenario supplies
    pid                  property id
    generate(rng, tier)  -> program (JSON-able dict with a list under "ops")
    execute(program)     -> Result
The core supplies fan-out over worker processes, confirmation of a violation in a
fresh process, minimisation (ddmin over the operations, then over fields), replay
files, evidence and known findings.
"""
import collections
import hashlib
import io
import json
import os
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("DST_OUT", VERIF)      # experiments write elsewhere
EVID = os.path.join(OUT, "evidence")
REPLAYS = os.path.join(OUT, "replays")


class HarnessError(Exception):
    """a defect of the harness itself; never reported as a violation"""


class Result:
    def __init__(self):
        self.violations = []            # list of {"kind","msg","op"}
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.states = set()             # digests of distinct states reached
        self.inter = set()              # digests of distinct interleavings / histories
        self.simtime = 0.0
        self.trace = []                 # short strings, what happened
        self.nontrivial = False

    def violate(self, kind, msg, op=None, **extra):
        v = {"kind": kind, "msg": msg, "op": op}
        v.update(extra)
        self.violations.append(v)

    def digest(self):
        h = hashlib.sha256()
        for t in self.trace:
            h.update(str(t).encode())
            h.update(b"\n")
        return h.hexdigest()[:16]


def h8(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:12]


class Scenario:
    pid = None
    level = "exploration"
    rule = ""
    technique = "deterministic simulation with fault injection"
    quick_runs = 200
    thorough_runs = 5000
    real = []
    stub = []
    assumptions = []
    max_ops = None
    shrink_lists = ()

    def generate(self, rng, tier):
        raise NotImplementedError

    def execute(self, program):
        raise NotImplementedError

    def shrink_fields(self, op):
        """yield simplified variants of one op"""
        return ()

    def teardown(self):
        pass


def seed_rng(pid, base, ix):
    return random.Random(f"{pid}/{base}/{ix}")


# ----------------------------------------------------------------- known findings
def load_known(pid):
    fn = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    try:
        with open(fn) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == pid]


def is_known(v, known):
    for k in known:
        if v["kind"] == k["kind"] and (not k.get("match") or k["match"] in v["msg"]):
            return k
    return None


# ----------------------------------------------------------------- one run
CPU_LIMIT = {"quick": 45, "thorough": 400}
MEMORY_LIMIT = 7 << 30


class Stuck(BaseException):
    """the run used its processor time without coming to an end"""


class Guard:
    """bounds the processor time of a run: a run that does not end is a violation, not a hanging check"""

    def __init__(self, seconds):
        self.seconds = seconds
        self.fired = False

    def _tick(self, signum, frame):
        self.fired = True
        raise Stuck(f"still running after {self.seconds} s of processor time")

    def __enter__(self):
        try:
            self.old = signal.signal(signal.SIGPROF, self._tick)
            signal.setitimer(signal.ITIMER_PROF, self.seconds, 2)
        except ValueError:                  # not in the main thread
            self.old = None
        return self

    def __exit__(self, *a):
        if self.old is not None:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, self.old)
        return False


def in_code_under_test(tb):
    """the function of the code under test that the harness had called when the exception passed, if any"""
    from .boot import CARBON_DIR
    last = None
    while tb is not None:
        co = tb.tb_frame.f_code
        if co.co_filename.startswith(VERIF + os.sep):
            last = None
        elif co.co_filename.startswith(CARBON_DIR):
            last = f"{os.path.basename(co.co_filename)} {co.co_name}"
        tb = tb.tb_next
    return last


SHAPE = (LookupError, TypeError, ValueError, AttributeError, ArithmeticError, AssertionError)


def attempt(f, seconds=20):
    """runs f (a rehearsal while a program is generated); None if it fails or does not end - the run itself will show it"""
    g = Guard(seconds)
    try:
        with g:
            return f()
    except (Stuck, Exception):
        sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
        return None


def run_one(scn, program, tier="quick"):
    guard = Guard(CPU_LIMIT.get(tier, 400))
    try:
        with guard:
            res = scn.execute(program)
    except Stuck as ex:
        res = Result()
        res.violate("the run does not end", str(ex))
        sys.stdout, sys.stderr = io.StringIO(), sys.__stderr__
    except Exception as ex:
        where = in_code_under_test(ex.__traceback__)
        if where is None and (isinstance(ex, HarnessError) or not isinstance(ex, SHAPE)):
            raise
        res = Result()
        if where is None:
            tb = traceback.extract_tb(ex.__traceback__)
            last = [f for f in tb if f.filename.startswith(VERIF)] or tb
            res.violate("unexpected answer", f"an answer of the code under test does not have the shape it must have: {type(ex).__name__} {str(ex)[:200]} "
                                             f"at {os.path.basename(last[-1].filename)} {last[-1].name}: {last[-1].line}")
        else:
            res.violate("unexpected error", f"{type(ex).__name__} in {where}: {str(ex)[:300]}")
    finally:
        scn.teardown()
    if guard.fired and not res.violations:
        res.violate("the run does not end", f"still running after {guard.seconds} s of processor time")
    return res


def limit_memory():
    try:
        resource.setrlimit(resource.RLIMIT_DATA, (MEMORY_LIMIT, resource.getrlimit(resource.RLIMIT_DATA)[1]))
    except (ValueError, OSError):
        pass


# ----------------------------------------------------------------- worker
def worker_main(scn, base, start, step, count, tier, deadline):
    """runs seeds start, start+step, ... ; emits one JSON line per batch"""
    out = sys.__stdout__
    t_end = time.time() + deadline
    ran = []
    agg = collections.Counter()
    faults = collections.Counter()
    states, inter = set(), set()
    simtime = 0.0
    nontriv = 0
    samples = []
    known = load_known(scn.pid)
    knownhits = collections.Counter()
    ix = start
    n = 0
    viol = None
    while ix < count:
        if time.time() > t_end:
            break
        rng = seed_rng(scn.pid, base, ix)
        program = scn.generate(rng, tier)
        out.write(f"RUNNING {ix}\n")
        out.flush()
        res = run_one(scn, program, tier)
        n += 1
        agg.update(res.stats)
        faults.update(res.faults)
        states |= res.states
        inter |= res.inter
        simtime += res.simtime
        nontriv += bool(res.nontrivial)
        if len(samples) < 2 and res.nontrivial:
            samples.append({"seed": ix, "ops": len(program["ops"]), "digest": res.digest(),
                            "trace_head": [str(t)[:160] for t in res.trace[:4]]})
        fresh = []
        for v in res.violations:
            k = is_known(v, known)
            if k:
                knownhits[k["id"]] += 1
            else:
                fresh.append(v)
        if fresh:
            viol = {"seed": ix, "program": program, "violations": fresh[:3],
                    "prelude": ran[-40:]}
            break
        ran.append(ix)
        ix += step
    out.write(json.dumps({"n": n, "stats": agg, "faults": faults, "states": sorted(states),
                          "inter": sorted(inter), "simtime": simtime, "nontrivial": nontriv,
                          "samples": samples, "viol": viol, "known": knownhits}) + "\n")
    out.flush()


def replay_in_process(scn, rep, verbose=True):
    """re-executes a replay file; returns fresh violations"""
    for prog in rep.get("prelude_programs", []):
        run_one(scn, prog, rep.get("tier", "quick"))
    res = run_one(scn, rep["program"], rep.get("tier", "quick"))
    known = load_known(scn.pid)
    return res, [v for v in res.violations if not is_known(v, known)]


# ----------------------------------------------------------------- subprocess plumbing
def child_env(hashseed=None):
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = str(hashseed if hashseed is not None else env.get("DST_HASHSEED", "0"))
    env["MPLBACKEND"] = "Agg"
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["OMP_NUM_THREADS"] = "1"
    return env


CHECK = os.path.join(VERIF, "check.py")


def probe(pid, rep, timeout=120, hashseed=None):
    """executes one replay object in a fresh process; returns (kinds, digest, violations)"""
    try:
        p = subprocess.run([sys.executable, CHECK, "--property", pid, "--probe"],
                           input=json.dumps(rep), capture_output=True, text=True,
                           env=child_env(hashseed), timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"violations": [{"kind": DIED, "msg": f"no end after {timeout} s"}], "digest": None, "died": True}
    for line in reversed(p.stdout.splitlines()):
        if line.startswith("PROBE "):
            d = json.loads(line[6:])
            return d
    if p.returncode < 0:
        return {"violations": [{"kind": DIED, "msg": f"the process died: {signal.Signals(-p.returncode).name}"}], "digest": None, "died": True}
    return {"error": (p.stderr or "")[-2000:], "violations": [], "digest": None}


DIED = "the process of the run dies"


class Prober:
    """a long-lived fresh process that executes candidate programs for the minimiser"""

    def __init__(self, pid):
        self.pid = pid
        self.p = None

    def _start(self):
        self.p = subprocess.Popen([sys.executable, CHECK, "--property", self.pid, "--probe-server"],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, env=child_env())

    def run(self, rep):
        if self.p is None or self.p.poll() is not None:
            self._start()
        try:
            self.p.stdin.write(json.dumps(rep) + "\n")
            self.p.stdin.flush()
            while True:
                line = self.p.stdout.readline()
                if not line:
                    self.p = None
                    return {"violations": [], "digest": None}
                if line.startswith("PROBE "):
                    return json.loads(line[6:])
        except (BrokenPipeError, OSError):
            self.p = None
            return {"violations": [], "digest": None}

    def close(self):
        if self.p and self.p.poll() is None:
            self.p.kill()
            self.p.wait()


def minimise(scn, rep, kind, budget_s=45):
    """ddmin over ops, then field simplification; keeps `kind` reproducible"""
    pr = Prober(scn.pid)
    t_end = time.time() + budget_s

    def bad(prog):
        r = dict(rep)
        r["program"] = prog
        d = pr.run(r)
        return any(v["kind"] == kind for v in d["violations"])

    prog = rep["program"]
    tries = 0
    try:
        ops = list(prog["ops"])
        n = 2
        while len(ops) >= 2 and time.time() < t_end:
            chunk = max(1, len(ops) // n)
            reduced = False
            for i in range(0, len(ops), chunk):
                if time.time() > t_end:
                    break
                cand = ops[:i] + ops[i + chunk:]
                if not cand:
                    continue
                tries += 1
                if bad(dict(prog, ops=cand)):
                    ops = cand
                    n = max(n - 1, 2)
                    reduced = True
                    break
            if not reduced:
                if chunk == 1:
                    break
                n = min(len(ops), n * 2)
        prog = dict(prog, ops=ops)
        for key in scn.shrink_lists:            # schedules: drop switch points / events that are not needed
            lst = list(prog.get(key) or ())
            n = 2
            while lst and time.time() < t_end:
                chunk = max(1, len(lst) // n)
                reduced = False
                for i in range(0, len(lst), chunk):
                    if time.time() > t_end:
                        break
                    cand = lst[:i] + lst[i + chunk:]
                    tries += 1
                    if bad(dict(prog, **{key: cand})):
                        lst = cand
                        n = max(n - 1, 2)
                        reduced = True
                        break
                if not reduced:
                    if chunk == 1:
                        break
                    n = min(len(lst), n * 2)
            if key in prog:
                prog = dict(prog, **{key: lst})
        changed = True
        while changed and time.time() < t_end:
            changed = False
            for i, op in enumerate(prog["ops"]):
                for var in scn.shrink_fields(op):
                    if time.time() > t_end:
                        break
                    tries += 1
                    cand = dict(prog, ops=prog["ops"][:i] + [var] + prog["ops"][i + 1:])
                    if bad(cand):
                        prog = cand
                        changed = True
                        break
    finally:
        pr.close()
    return prog, tries


# ----------------------------------------------------------------- driver
def run_check(scn, tier, base, runs=None, workers=None, deadline=None):
    t0 = time.time()
    pid = scn.pid
    runs = runs or (scn.quick_runs if tier == "quick" else scn.thorough_runs)
    workers = workers or min(8, os.cpu_count() or 1)
    workers = max(1, min(workers, runs))
    deadline = deadline or (300 if tier == "quick" else 3000)
    procs = []
    for w in range(workers):
        procs.append(subprocess.Popen(
            [sys.executable, CHECK, "--property", pid, "--worker", json.dumps(
                {"base": base, "start": w, "step": workers, "count": runs, "tier": tier,
                 "deadline": deadline})],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=child_env(),
            start_new_session=True))
    outs, errors, died = [], [], []
    import threading
    results = [None] * workers

    def reap(i, p):
        try:
            results[i] = p.communicate(timeout=deadline + 200)
        except subprocess.TimeoutExpired:
            p.kill()
            results[i] = p.communicate()
            results[i] = (results[i][0], "worker exceeded its time limit\n" + results[i][1])
    ths = [threading.Thread(target=reap, args=(i, p)) for i, p in enumerate(procs)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    for i, (so, se) in enumerate(results):
        got = None
        for line in so.splitlines():
            if line.startswith("{"):
                try:
                    got = json.loads(line)
                except ValueError:
                    pass
        if got is None:
            at = [line for line in so.splitlines() if line.startswith("RUNNING ")]
            if at and procs[i].returncode != 1:      # not a python error: killed, or out of time
                died.append(int(at[-1].split()[1]))
            errors.append((se or "")[-3000:])
        else:
            outs.append(got)
    if died and not any(o["viol"] for o in outs):
        # the process of that run ended without an answer: does it do so again, on its own?
        prog = scn.generate(seed_rng(pid, base, died[0]), tier)
        if probe(pid, {"program": prog, "tier": tier}).get("died"):
            outs.append({"n": 1, "nontrivial": 1, "stats": {}, "faults": {}, "known": {}, "states": [], "inter": [], "simtime": 0, "samples": [],
                         "viol": {"seed": died[0], "program": prog, "violations": [{"kind": DIED, "msg": "the process that executes the run dies or does not end"}]}})
    if errors and not any(o["viol"] for o in outs):
        sys.stderr.write("HARNESS ERROR in worker:\n" + errors[0] + "\n")
        return 2

    agg, faults, known = collections.Counter(), collections.Counter(), collections.Counter()
    states, inter = set(), set()
    n = nontriv = 0
    simtime = 0.0
    samples = []
    for o in outs:
        n += o["n"]
        nontriv += o["nontrivial"]
        agg.update(o["stats"])
        faults.update(o["faults"])
        known.update(o["known"])
        states |= set(o["states"])
        inter |= set(o["inter"])
        simtime += o["simtime"]
        samples += o["samples"]

    # determinism proof: a few seeds again, in fresh processes, with another hash seed
    det = []
    for s in samples[:2]:
        prog = scn.generate(seed_rng(pid, base, s["seed"]), tier)
        d = probe(pid, {"program": prog, "tier": tier}, timeout=120 if tier == "quick" else 900)
        det.append({"seed": s["seed"], "same_trace": d.get("digest") == s["digest"]})

    viols = [o["viol"] for o in outs if o["viol"]]
    rc = 0
    replays = []
    extra = getattr(scn, "extra_phase", None)
    if extra and not viols:
        ev = extra(tier, base, agg, faults)
        if ev:
            viols.append(ev)
    for v in viols[:2]:
        rep = {"property": pid, "base": base, "seed": v["seed"], "tier": tier, "program": v["program"]}
        kind = v["violations"][0]["kind"]
        if v.get("selfcontained"):
            rep.update(v["selfcontained"])
            confirmed = True
            prog, tries = v["program"], 0
        else:
            d = probe(pid, rep)
            confirmed = any(x["kind"] == kind for x in d["violations"])
            if not confirmed and v.get("prelude"):
                # the failure needs state left behind by earlier runs of that process
                progs = [scn.generate(seed_rng(pid, base, i), tier) for i in v["prelude"]]
                rep["prelude_programs"] = progs
                d = probe(pid, rep, timeout=600)
                confirmed = any(x["kind"] == kind for x in d["violations"])
                k = len(progs)
                while confirmed and k > 1:       # shortest suffix that still fails
                    k //= 2
                    r2 = dict(rep, prelude_programs=progs[-k:])
                    if any(x["kind"] == kind for x in probe(pid, r2, timeout=600)["violations"]):
                        rep = r2
                    else:
                        break
            if not confirmed:
                sys.stderr.write(f"HARNESS ERROR: violation of seed {v['seed']} did not reproduce "
                                 f"in a fresh process: {v['violations'][0]}\n")
                rc = max(rc, 2)
                continue
            prog, tries = minimise(scn, rep, kind) if kind != DIED else (v["program"], 0)
        rep["program"] = prog
        res = probe(pid, rep)
        rep["violation"] = (res["violations"] or v["violations"])[0]
        rep["digest"] = res.get("digest")
        rep["minimiser_tries"] = tries
        rep["original_ops"] = len(v["program"].get("ops", []))
        os.makedirs(REPLAYS, exist_ok=True)
        fn = os.path.join(REPLAYS, f"{pid}-{base}-{v['seed']}.json")
        with open(fn, "w") as f:
            json.dump(rep, f, indent=1)
        replays.append(fn)
        sys.stdout.write(f"[{pid}] seed {v['seed']}: {rep['violation']['kind']}: "
                         f"{rep['violation']['msg'][:600]}\n")
        sys.stdout.write(f"VIOLATION property={pid} replay={fn}\n")
        rc = 1
        break
    for k in load_known(pid):
        if k.get("status", "open") == "open":
            sys.stdout.write(f"KNOWN-FINDING: property={pid} {k['what']}\n")

    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": base, "level": scn.level,
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": max(len(inter), 0),
            "rule": scn.rule,
            "samples": samples[:6] or [{"note": "no non-trivial run"}],
            "runs_nontrivial": nontriv,
            "runs_per_hour": round(n / wall * 3600),
            "seeds": {"base": base, "first": 0, "count": n},
            "simulated_time": {"value": round(simtime, 3), "unit": getattr(scn, "time_unit", "scheduler steps")},
            "fault_kinds_injected": dict(sorted(faults.items())),
            "distinct_states": len(states),
            "distinct_interleavings": len(inter),
            "operations": dict(sorted(agg.items())),
            "determinism_recheck": det,
            "real_components": scn.real,
            "stub_components": scn.stub,
            "known_finding_hits": dict(known),
        },
        "assumptions": scn.assumptions,
        "violations": [{"replay": r} for r in replays],
        "wall_s": round(wall, 2),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if rc == 0 and any(not d["same_trace"] for d in det):
        sys.stderr.write(f"note: determinism recheck differed: {det}\n")
    sys.stdout.write(f"[{pid}] tier={tier} runs={n} nontrivial={nontriv} states={len(states)} "
                     f"histories={len(inter)} faults={sum(faults.values())} wall={wall:.1f}s "
                     f"rc={rc}\n")
    return rc
