"""
C09 isolation: several simulators in one process, operations interleaved or in concurrent
    threads under a deterministic baton scheduler (preemption at source-line granularity).
C12 a history determines its outcome: the same program here (warm process) and in a fresh
    process with another hash seed, another thread, other clocks and random generators.
"""
import atexit
import json
import os
import subprocess
import sys
import threading

from . import boot
from .core import Result, h8, child_env, VERIF, seed_rng, HarnessError
from .fault import NullOut
from .book import Gen, BookRun, Oracle, snap
from .props_book import BookScenario, REAL, STUB, ASSUME
from .boot import CARBON_DIR


# ------------------------------------------------------------------ fingerprints
def show(x):
    """canonical, bit-exact text of an answer"""
    import pandas as pd
    if isinstance(x, pd.DataFrame):
        return ["df", list(map(str, x.columns)), [[repr(v) for v in row] for row in x.astype(object).values.tolist()],
                list(map(str, x.index))]
    if isinstance(x, dict):
        return {str(k): show(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (list, tuple)):
        return [show(v) for v in x]
    if isinstance(x, BaseException):
        return [type(x).__name__, str(x)[:200]]
    if type(x).__name__ == "CarbonOrderUI":
        return ["oui", repr(x.y), repr(x.yint), repr(x.B), repr(x.S), x.tkn, x.id, x.lid]
    return repr(x)


class Recorder(Oracle):
    def __init__(self):
        self.prints = {}

    def after(self, run, ev):
        o = ev.op
        sim = ev.sim
        self.prints.setdefault(ev.sx, []).append(json.dumps([
            o["op"], show(ev.res), [type(ev.exc).__name__, str(ev.exc)[:200]] if ev.exc is not None else None,
            [[repr(v) for v in vals] for vals in ev.post.values()], list(ev.post), sim.numtrades,
            [repr(r) for r in ev.rows]], sort_keys=True))


def solo_program(p, sx):
    ops = [dict(o, sim=0) for o in p["ops"] if o["sim"] == sx]
    cfg = dict(p["config"], sims=[p["config"]["sims"][sx]])
    return {"family": p["family"], "config": cfg, "ops": ops}


def first_diff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x != y:
            if x is None or y is None:
                return i, f"{len(a)} versus {len(b)} operations"
            u, v = json.loads(x), json.loads(y)
            for name, s, t in zip(("op", "answer", "exception", "orders", "ids", "numtrades", "log"), u, v):
                if s != t:
                    return i, f"{u[0]} ({name}): {str(s)[:220]} versus {str(t)[:220]}"
    return None


# ------------------------------------------------------------------ deterministic threads
class Baton:
    """exactly one thread runs at any time; the switch list decides where control moves"""

    def __init__(self, n, switches):
        self.n = n
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.switches = {int(a): int(b) for a, b in switches}
        self.lines = 0
        self.cur = 0
        self.done = threading.Semaphore(0)
        self.log = []
        self._cache = {}

    def _mine(self, fn):
        r = self._cache.get(fn)
        if r is None:
            r = self._cache[fn] = fn.startswith(CARBON_DIR) and "/tests/" not in fn
        return r

    def trace(self, me):
        def loc(frame, event, arg):
            if event == "line":
                self.lines += 1
                t = self.switches.get(self.lines)
                if t is not None:
                    self.to(me, (me + t) % self.n, frame)
            return loc

        def glob(frame, event, arg):
            return loc if event == "call" and self._mine(frame.f_code.co_filename) else None
        return glob

    def to(self, me, t, frame=None):
        if t == me or not self.alive[t]:
            return
        if frame is not None:
            self.log.append((me, t, frame.f_code.co_name, self.lines))
        self.cur = t
        self.sem[t].release()
        self.sem[me].acquire()

    def finish(self, me):
        self.alive[me] = False
        for k in range(1, self.n + 1):
            t = (me + k) % self.n
            if self.alive[t]:
                self.cur = t
                self.sem[t].release()
                return
        self.done.release()

    def run(self, bodies):
        errs = [None] * self.n

        def worker(i):
            self.sem[i].acquire()
            try:
                sys.settrace(self.trace(i))
                bodies[i]()
            except BaseException as e:      # noqa
                errs[i] = e
            finally:
                sys.settrace(None)
                self.finish(i)
        ths = [threading.Thread(target=worker, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        self.sem[0].release()
        ok = self.done.acquire(timeout=240)
        if not ok:
            raise HarnessError("baton scheduler did not finish")
        for t in ths:
            t.join(10)
        for e in errs:
            if e is not None:
                raise e


def add_ties(rng, p):
    """the same strategy several times over: the choice among equals must be the same each time as well"""
    if rng.random() < 0.5:
        for c in p["config"]["sims"]:
            c["mm"] = "alpha"
    ks = [i for i, o in enumerate(p["ops"]) if o["op"] in ("add", "order") and "invalid" not in o]
    if not ks:
        return
    k = ks[0] if rng.random() < 0.7 else rng.choice(ks)
    for _ in range(rng.randint(1, 6)):
        p["ops"].insert(k, dict(p["ops"][k]))
    few = rng.random() < 0.7
    for o in p["ops"]:
        if o["op"] == "trade" and few and rng.random() < 0.8:
            o["thr"] = rng.choice((1, 2, 3))
            if o.get("frac", 1) > 0.2:
                o["frac"] = round(o["frac"] * rng.uniform(0.01, 0.3), 6)


def near_copies(rng, p):
    """the simulators get the same strategies as the first one, except for one number"""
    first = [o for o in p["ops"] if o["sim"] == 0 and o["op"] == "add"]
    head = list(first)
    for sx in range(1, len(p["config"]["sims"])):
        mine = [dict(o, sim=sx) for o in first]
        o = rng.choice(mine)
        k = rng.choice([k for k in ("amt_sell", "amt_buy", "ps", "pe", "bs", "be") if o.get(k)])
        o[k] = o[k] * rng.choice((0.999, 0.97, 1.03, 1.001))
        head += mine
    p["ops"] = head + [o for o in p["ops"] if o["op"] != "add"]


def gen_switches(rng, n, count=400):
    out, at = [], 0
    style = rng.random()
    for _ in range(count):
        if style < 0.3:
            gap = rng.randint(1, 40)
        elif style < 0.7:
            gap = int(10 ** rng.uniform(0, 3))
        else:
            gap = int(10 ** rng.uniform(2, 3.7))
        at += max(1, gap)
        out.append([at, rng.randrange(1, n)])
    return out


SAME_HASH = int(os.environ.get("PYTHONHASHSEED") or 0) if (os.environ.get("PYTHONHASHSEED") or "0").isdigit() else 0


class Iso(BookScenario):
    fault_p = 0.15
    fault_ops = ("trade", "add", "del")
    quick_runs = 150
    thorough_runs = 6000
    stub = STUB + ["threads: real Python threads, of which exactly one runs at a time; a seeded list decides at which source line "
                   "of the code under test control moves to which thread"]


class C09(Iso):
    pid = "C09"
    shrink_lists = ("switches",)
    rule = ("distinct interleavings: per run the sequence of (simulator, operation) or, for threads, the list of switch points "
            "actually taken; non-trivial when at least two simulators traded")

    def program(self, rng, tier):
        threads = rng.random() < 0.5
        nsims = rng.choice((2, 2, 3))
        kw = dict(nsims=nsims, nops=(6, 14) if not threads else (4, 9), setup=(1, 3), w={"trade": 10, "add": 2, "order": 1, "del": 1,
                                                                                        "state": 1, "liq": 0.5, "bad": 1})
        if rng.random() < (0.7 if threads else 0.4):
            kw["mms"] = (rng.choice(("exact", "alpha", "alpha", "fast")),)
        g = Gen(rng, **kw)
        p = g.program()
        if rng.random() < 0.3:
            p["config"]["sharepair"] = True
        p["mode"] = "threads" if threads else "ops"
        if threads:
            p["switches"] = gen_switches(rng, nsims)
        # simulators side by side usually have the same setup phase shape: mix it as well
        n = sum(1 for o in p["ops"] if o["op"] == "add")
        if rng.random() < 0.7:
            head, tail = p["ops"][:n], p["ops"][n:]
            rng.shuffle(head)
            p["ops"] = head + tail
        if rng.random() < 0.45:
            near_copies(rng, p)
        if rng.random() < 0.15:
            add_ties(rng, p)
        p["order"] = rng.random() < 0.5
        p["fresh"] = rng.random() < 0.75
        return p

    def inject(self, rng, p):
        if p["mode"] == "threads":
            return
        super().inject(rng, p)

    def solo(self, p):
        """every simulator on its own, each in a fresh fork of a process that has only imported the code: whatever the runs
        before this one left behind in this process cannot be in the yardstick"""
        out = {}
        for sx in range(len(p["config"]["sims"])):
            q = solo_program(p, sx)
            if p.get("fresh", True):
                out[sx] = Twin.ask(SAME_HASH, q, {"seed": 1, "clock": 0, "noise": False, "thread": False}).get(0, [])
            else:
                rec = Recorder()
                BookRun(q, rec).run()
                out[sx] = rec.prints.get(0, [])
        return out

    def together(self, p, res):
        if p["mode"] != "threads":
            rec = Recorder()
            r = BookRun(p, rec).run()
            res.faults.update(r.faults)
            res.stats.update(r.stats)
            res.trace += r.trace
            res.states |= r.states
            res.simtime += r.simtime
            res.inter.add(h8([(o["sim"], o["op"], o.get("side")) for o in p["ops"]]))
            return rec.prints
        n = len(p["config"]["sims"])
        recs, runs = [], []
        pair = {}
        for sx in range(n):
            q = solo_program(p, sx)
            rec = Recorder()
            recs.append(rec)
            runs.append(BookRun(q, rec, own_stdout=False, pairs=pair))
        b = Baton(n, p["switches"])
        so = sys.stdout
        sys.stdout = NullOut()
        try:
            b.run([r.run for r in runs])
        finally:
            sys.stdout = so
        res.faults["preemption"] += len(b.log)
        res.stats["preemptions"] += len(b.log)
        res.stats["source_lines"] += b.lines
        res.inter.add(h8(b.log))
        for r in runs:
            res.stats.update(r.res.stats)
            res.trace += r.res.trace
            res.states |= r.res.states
            res.simtime += r.res.simtime
        res.trace += b.log
        return {sx: recs[sx].prints.get(0, []) for sx in range(n)}

    def execute(self, p):
        res = Result()
        if p.get("order"):
            a = self.solo(p)
            b = self.together(p, res)
        else:
            b = self.together(p, res)
            a = self.solo(p)
        act = 0
        for sx in a:
            d = first_diff(b.get(sx, []), a[sx])
            act += any('"trade"' in x for x in a[sx])
            if d:
                own = [i for i, o in enumerate(p["ops"]) if o["sim"] == sx]
                res.violate("not-isolated", f"simulator {sx} ({p['config']['sims'][sx]['mm']}, {p['mode']}) behaves differently next to "
                                            f"others than alone, at its operation {d[0]}: {d[1]}", own[d[0]] if d[0] < len(own) else None)
                break
        res.nontrivial = act >= 2
        return res


# ------------------------------------------------------------------ C12
class Twin:
    """a process with its own hash seed that runs every program in a fresh fork of itself"""
    procs = {}

    @classmethod
    def get(cls, hashseed):
        p = cls.procs.get(hashseed)
        if p is None or p.poll() is not None:
            p = subprocess.Popen([sys.executable, "-m", "dst.iso_child"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, text=True, env=child_env(hashseed), cwd=VERIF)
            cls.procs[hashseed] = p
        return p

    @classmethod
    def ask(cls, hashseed, program, env):
        p = cls.get(hashseed)
        p.stdin.write(json.dumps({"program": program, "env": env}) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
        if not line:
            raise HarnessError("twin process died")
        d = json.loads(line)
        if "error" in d:
            raise HarnessError("twin: " + d["error"])
        return {int(k): v for k, v in d["prints"].items()}

    @classmethod
    def close(cls):
        for p in cls.procs.values():
            try:
                p.stdin.close()
                p.wait(5)
            except Exception:
                p.kill()


atexit.register(Twin.close)


def run_prints(p):
    rec = Recorder()
    r = BookRun(p, rec)
    r.run()
    return rec.prints, r.res


class C12(Iso):
    pid = "C12"
    quick_runs = 180
    fault_p = 0.1
    rule = ("distinct histories executed twice: here and in a fresh process with another hash seed, thread, clock and random "
            "generator state; non-trivial when a trade was executed")
    stub = STUB + ["clock and global random generators of the second execution are shifted and reseeded by the simulator"]
    gen = dict(nops=(6, 14), w={"trade": 10, "add": 3, "order": 1, "del": 1, "state": 2, "liq": 1.5, "bad": 0.5})

    def program(self, rng, tier):
        kw = dict(self.gen)
        if rng.random() < 0.3:
            kw["pairs"] = [["ETH/USDC", "WBTC/USDC", "LINK/ETH"]]
        p = Gen(rng, **kw).program()
        if rng.random() < 0.4:
            add_ties(rng, p)
        p["env"] = {"hashseed": rng.choice((1, 7, 4242)), "thread": rng.random() < 0.6, "seed": rng.randrange(10 ** 6),
                    "clock": rng.choice((0, -10 ** 8, 10 ** 9, 86400 * 365)), "noise": rng.random() < 0.5}
        return p

    def execute(self, p):
        a, r = run_prints(p)
        env = p["env"]
        b = Twin.ask(env["hashseed"], p, env)
        r.faults[f"hashseed:{env['hashseed']}"] += 1
        r.faults["thread"] += bool(env["thread"])
        r.faults["clock jump"] += bool(env["clock"])
        r.faults["reseeded generators"] += 1
        for sx in a:
            d = first_diff(a[sx], b.get(sx, []))
            if d:
                r.violate("not-determined", f"the same history gives other results in another process (hash seed {env['hashseed']}, "
                                            f"thread {env['thread']}, clock {env['clock']:+d} s, noise {env['noise']}), operation {d[0]}: "
                                            f"{d[1]}", d[0])
                break
        return r
