"""
C17 linked order curves (CarbonOrderUI): histories of trades, dry runs, refused and
    interrupted operations by several clients on curves that credit each other.
C18 path simulation (run_sim): the market is the adversary that chooses every price step.
C19 path generation and interpolation under controlled (and hostile) randomness.
"""
import copy
import json
import math
import sys
from fractions import Fraction as F

from . import boot
from .core import Scenario, Result, h8, HarnessError
from .fault import NullOut, Tracer, pick_site, EXC
from . import randseam

FAULT_EXC = ("MemoryError", "KeyboardInterrupt", "RecursionError", "SystemExit")
REAL = ["carbon.carbon_order_ui.CarbonOrderUI", "carbon.pair", "carbon.helpers.simulation.run_sim",
        "carbon.helpers.strategym", "carbon.simulators, carbon.order (strategy entry)"]
STUB = ["standard output", "sys.settrace fault seam (exceptions at chosen source lines)"]
EPS = 1e-10


def close(a, b, rel=1e-9, ab=0.0):
    a, b = float(a), float(b)
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), ab)


def fields(o):
    """bitwise state of a curve, as everybody can see it (what an implementation remembers for itself is its own business)"""
    d = {}
    for k in ("B", "S", "disabled", "id", "linked", "pa_raw", "pair", "pb_raw", "tkn", "y", "yint"):
        v = getattr(o, k, None)
        if k == "linked":
            d[k] = id(v) if v is not None else None
        elif k == "pair":
            d[k] = str(v.slashpair)
        elif k in ("y", "yint"):
            d[k] = repr(float(v))
        else:
            d[k] = repr(v)
    return d


# ------------------------------------------------------------------ C17
class C17(Scenario):
    pid = "C17"
    quick_runs = 4000
    thorough_runs = 60000
    time_unit = "curve operations"
    real, stub = REAL[:2], STUB
    assumptions = ["faults strike between source lines of the code under test, not inside the statements that undo a failed operation"]
    rule = ("a simulated run is non-trivial when at least one trade was executed and at least one operation was refused, dry or "
            "interrupted; distinct histories are counted by the sequence of (client, curve, operation, outcome)")
    TOK = [("ETH", "USDC"), ("AAA", "BBB"), ("USDC", "USDT")]

    # ---------------------------------------------------------- generation
    def generate(self, rng, tier):
        pairs = rng.sample(self.TOK, rng.choice([1, 1, 2]))
        curves = []
        for b, q in pairs:
            scale = math.exp(rng.uniform(-8, 8))
            for _ in range(rng.choice([1, 1, 2])):
                amt = math.exp(rng.uniform(-3, 9))
                kind = rng.choice(["mutual", "mutual", "mutual", "oneway", "none"])
                i = len(curves)
                for t in (b, q):
                    lo = scale * math.exp(rng.uniform(-1, 1))
                    w = rng.choice([0, 0, 1e-5, 1e-3, .05, .3, 1, 4])
                    hi = lo * math.exp(w)
                    if rng.random() < .5:
                        lo, hi = hi, lo
                    a = amt if t == b else amt * scale
                    yint = rng.choice([0, 1, 1, 1, 1, 1]) * a * math.exp(rng.uniform(-1, 1))
                    y = yint * rng.choice([0, 1, 1, rng.random(), rng.random(), 1e-6])
                    curves.append({"pair": f"{b}/{q}", "tkn": t, "pa": lo, "pb": hi, "yint": yint, "y": y, "link": None})
                if kind in ("mutual", "oneway"):
                    curves[i]["link"] = i + 1
                if kind == "mutual":
                    curves[i + 1]["link"] = i
        n = rng.randint(4, 14) + (rng.choice([0, 20]) if tier == "thorough" else 0)
        ops = []
        for _ in range(n):
            k = rng.randrange(len(curves))
            c = curves[k]
            o = {"c": rng.randrange(3), "k": k, "op": rng.choices(["tradeto", "selly", "buyx", "addliqy", "ask"], [4, 4, 3, 2, 1])[0]}
            f = rng.choice([0, 1, 1e-3, rng.random(), rng.random(), rng.random(), 1 + rng.random(), 1.0000001, 40])
            if o["op"] == "selly":
                o["frac"] = f * rng.choice([1, 1, 1, 1, -1])     # of the current balance or capacity
                o["of"] = rng.choice(["y", "y", "y", "yint"])
                if rng.random() < .1:                    # a hair more (or less) than everything
                    o["frac"], o["of"], o["hair"] = 1, "y", rng.choice([-.6, .3, .6, .9, 1.5]) * EPS
            elif o["op"] == "buyx":
                o["frac"] = f * rng.choice([1, 1, 1, 1, -1])
            elif o["op"] == "tradeto":
                o["p"] = rng.choice(["pa", "pb", "in", "in", "in", "in", "out", "marg", "below", "bad"])
                o["u"] = rng.random()
            elif o["op"] == "addliqy":
                o["frac"] = rng.choice([0, .3, 1, 5, rng.random(), rng.random(), -.2])
                o["of"] = "yint"
            o["execute"] = rng.random() < .75
            o["allowneg"] = rng.random() < .7
            o["expand"] = rng.random() < .5
            o["roe"] = rng.random() < .5
            o["dflt"] = rng.random() < .3           # leave the options to their defaults
            if rng.random() < .15:
                o["fault"] = {"exc": rng.choice(FAULT_EXC), "site": rng.getrandbits(30)}
            ops.append(o)
        return {"curves": curves, "ops": ops}

    # ---------------------------------------------------------- execution
    def build(self, p):
        from carbon import CarbonOrderUI
        out = []
        for i, c in enumerate(p["curves"]):
            out.append(CarbonOrderUI.from_prices(c["pair"], c["tkn"], c["pa"], c["pb"], c["yint"], c["y"], id=i))
        for i, c in enumerate(p["curves"]):
            if c["link"] is not None and c["link"] < len(out):
                out[i].set_linked(out[c["link"]])
        return out

    def concrete(self, o, c):
        """the actual arguments, given the state of the curve"""
        def unit(k):
            return getattr(c, k) or c.yint or 1.0
        a = {}
        kind = o["op"]
        if kind == "selly":
            a["dy"] = o["frac"] * unit(o["of"]) + o.get("hair", 0)
        elif kind == "addliqy":
            a["dy"] = o["frac"] * unit(o["of"])
        elif kind == "buyx":
            raw = (c.B + (c.S * c.y / c.yint if c.yint else c.S)) * c.B
            a["dx"] = o["frac"] * (unit("y") / raw)
        elif kind == "tradeto":
            w = o["p"]
            pa, pb = c.pa_raw, c.pb_raw
            cur = (c.B + (c.S * c.y / c.yint if c.yint else c.S)) ** 2
            raw = {"pa": pa, "pb": pb, "in": pb + (cur - pb) * o["u"], "out": pa * (1 + o["u"]), "marg": cur,
                   "below": pb / (1 + o["u"]), "bad": None}[w]
            if raw is None:
                a["p"] = [0, -1.5, 0.0][int(o["u"] * 3)]
            else:
                a["p"] = raw if not c.reverseq else 1 / raw
        return a

    @staticmethod
    def call(c, o, a, execute=None):
        kind = o["op"]
        ex = o["execute"] if execute is None else execute
        if kind == "ask":
            out = []
            for f in (lambda: c.p_marg, lambda: c.p_marg_f(c.y * .3), lambda: c.p_eff_f(c.y * .3), lambda: c.dyfromp_f(c.p_marg),
                      lambda: c.dxfromdy_f(c.y * .2), lambda: c.dyfromdx_f(c.y * .2), lambda: c.x, lambda: c.descr(),
                      lambda: c.total_liquidity, lambda: c.yzABS(), lambda: c.as_cpc, lambda: repr(c), lambda: c.lid,
                      lambda: c.xint, lambda: c.p0, lambda: c.widthpc, lambda: c.leverage_fctr, lambda: c.yfromx_f(.1)):
                try:
                    out.append(repr(f())[:300])
                except Exception as e:
                    out.append(type(e).__name__)
            return out
        if kind == "addliqy":
            return c.addliqy(a["dy"]) if o["dflt"] else c.addliqy(a["dy"], expandcurve=o["expand"])
        if kind == "tradeto":
            return c.tradeto(a["p"]) if ex else c.tradeto(a["p"], execute=False)
        f, x = (c.selly, a["dy"]) if kind == "selly" else (c.buyx, a["dx"])
        if o["dflt"]:
            return f(x) if ex else f(x, execute=False)
        return f(x, execute=ex, allowneg=o["allowneg"], expandcurve=o["expand"], raiseonerror=o["roe"])

    def execute(self, p):
        res = Result()
        so = sys.stdout
        sys.stdout = NullOut()
        try:
            self._execute(p, res)
        finally:
            sys.stdout = so
        return res

    def _execute(self, p, res):
        curves = self.build(p)
        hist = []
        executed = special = 0
        for i, o in enumerate(p["ops"]):
            if o["k"] >= len(curves):
                continue
            c = curves[o["k"]]
            a = self.concrete(o, c)
            pre = [fields(x) for x in curves]
            num = [(x.y, x.yint) for x in curves]
            world = copy.deepcopy(curves)
            at = None
            if o.get("fault"):
                import random
                twin = copy.deepcopy(curves)
                t = Tracer(record=True)
                try:
                    with t:
                        self.call(twin[o["k"]], o, a)
                except Exception:
                    pass
                at = pick_site(random.Random(o["fault"]["site"]), t.sites)
            out = exc = fired = None
            if at:
                t = Tracer(at=at, exc=o["fault"]["exc"])
                try:
                    with t:
                        out = self.call(c, o, a)
                except BaseException as e:
                    exc = e
                fired = t.fired
            else:
                try:
                    out = self.call(c, o, a)
                except Exception as e:
                    exc = e
            post = [fields(x) for x in curves]
            what = "interrupted" if fired else "raised" if exc is not None else "refused" if out is None else "ok"
            res.stats[f"{o['op']}:{what}"] += 1
            res.trace.append(json.dumps([o["op"], o["k"], what, [x.y for x in curves], [x.yint for x in curves]]))
            hist.append((o["c"], o["k"], o["op"], what, o["execute"]))
            res.simtime += 1
            res.states.add(h8([o["op"], what, c.S == 0, c.y == 0, c.y == c.yint, c.linked is not None, o["execute"], o.get("p"),
                               o["expand"], a.get("dy", 0) < 0]))
            if fired:
                res.faults[o["fault"]["exc"]] += 1
                special += 1
            self.judge(i, o, a, c, curves, pre, post, num, world, out, exc, fired, res)
            if what == "ok" and o["execute"] and o["op"] != "ask":
                executed += 1
            elif what != "ok" or not o["execute"]:
                special += 1
            if res.violations:
                break
        res.nontrivial = bool(executed and special)
        res.inter.add(h8(hist))

    # ---------------------------------------------------------- oracle
    def judge(self, i, o, a, c, curves, pre, post, num, world, out, exc, fired, res):
        k = o["k"]
        kind = o["op"]
        li = [j for j, x in enumerate(curves) if x is c.linked]
        li = li[0] if li else None
        desc = (f"op {i} {kind}{a} on curve {k} ({c.tkn} of {c.pair.slashpair}, B={c.B!r} S={c.S!r} y={num[k][0]!r} yint={num[k][1]!r}"
                f"{', linked' if li is not None else ''}) execute={o['execute']}")
        for j in range(len(curves)):
            if j not in (k, li) and pre[j] != post[j]:
                res.violate("another curve changed", f"{desc}: curve {j} changed {diff(pre[j], post[j])}", i)
        for j in {k, li} - {None}:
            d = {f for f in pre[j] if pre[j][f] != post[j].get(f)} | (set(post[j]) - set(pre[j]))
            if d - {"y", "yint"}:
                res.violate("curve parameters changed", f"{desc}: {sorted(d)} of curve {j}", i)
        changed = [j for j in range(len(curves)) if pre[j] != post[j]]
        if fired:
            # all or nothing
            if changed:
                try:
                    self.call(world[k], o, a)
                except Exception:
                    pass
                want = [(x.y, x.yint) for x in world]
                got = [(x.y, x.yint) for x in curves]
                if want != got:
                    res.violate("interrupted trade left a trace", f"{desc} interrupted by {o['fault']['exc']} at {fired}: curves "
                                f"{num} -> {got}, complete would be {want}", i)
            return
        if kind == "ask":
            if changed:
                res.violate("asking changed a curve", f"{desc}: {[diff(pre[j], post[j]) for j in changed]}", i)
            return
        failed = exc is not None or out is None
        if failed and changed:
            res.violate("refused operation left a trace", f"{desc}: {exc!r}: {[diff(pre[j], post[j]) for j in changed]}", i)
            return
        if kind != "addliqy" and not o["execute"]:
            if changed:
                res.violate("dry run changed a curve", f"{desc}: {[(j, diff(pre[j], post[j])) for j in changed]}", i)
                return
            if not failed:
                # a dry run foretells the execution
                try:
                    real = self.call(world[k], o, a, execute=True)
                except Exception as e:
                    real = repr(e)
                if not isinstance(real, dict):
                    res.violate("dry run promised what is then refused", f"{desc}: {real}", i)
                    return
                for f in ("y_old", "y", "dy", "dx", "y_int", "yint_old", "expanded", "p", "pmarg", "pmarg_old", "tkny", "tknx", "linked"):
                    if not same(out.get(f), real.get(f)):
                        res.violate("dry run differs from execution", f"{desc}: {f}: dry {out.get(f)!r}, executed {real.get(f)!r}", i)
                        return
        y, yint = (F(v) for v in num[k])
        B, S = F(c.B), F(c.S)
        verdict = self.expect(kind, o, a, c, y, yint, B, S, li)
        if verdict == "either":
            pass
        elif verdict == "refuse":
            if not failed:
                res.violate("impossible request carried out", f"{desc}: returned {brief(out)}", i)
            elif isinstance(exc, (TypeError, NameError, AttributeError, LookupError)):
                res.violate("request crashes instead of being refused", f"{desc}: {exc!r}", i)
            return
        elif failed:
            res.violate("possible request refused", f"{desc}: {exc!r}", i)
            return
        if failed:
            return
        ny, nyint = curves[k].y, curves[k].yint
        if ny < 0 or ny > nyint * (1 + 1e-12) + 1e-300:
            res.violate("balance out of range", f"{desc}: y={ny!r} yint={nyint!r}", i)
        if kind == "addliqy":
            want = (float(y + F(a["dy"])), float(max(yint, y + F(a["dy"]))))
            if not (close(ny, want[0], 1e-12) and close(nyint, want[1], 1e-12)) or (li is not None and li in changed):
                res.violate("liquidity wrongly added", f"{desc}: now {(ny, nyint)}, expected {want}", i)
            exp = {"y_old": float(y), "y": ny, "yint_old": float(yint), "yint": nyint, "dy": a["dy"], "expanded": nyint > float(yint),
                   "tkny": c.tkn, "pmarg_old": world[k].p_marg, "pmarg": curves[k].p_marg}
            bad = {f: (out.get(f), v) for f, v in exp.items() if not same(out.get(f), v)}
            if bad:
                res.violate("added liquidity wrongly reported", f"{desc}: (reported, is) {bad}", i)
            return
        dy, dx = out["dy"], out["dx"]
        # how much
        if kind == "tradeto" and a["p"] <= 0:
            want, tol = dy, 1
        elif kind == "selly":
            want = a["dy"] if abs(a["dy"]) >= EPS else 0
            tol = EPS
        elif kind == "buyx":
            num_ = (S * y + B * yint) ** 2
            den = S * F(a["dx"]) * (S * y + B * yint) + yint ** 2
            want = float(F(a["dx"]) * num_ / den)
            tol = max(EPS, abs(want) * 1e-9)
        else:
            want = float(y - self.target(a["p"], c, y, yint, B, S))
            tol = 2 * EPS + float(yint) * (1e-9 if S == 0 else max(1e-9, 2e-14 * float((B + S) / S)))
        if kind == "tradeto" and S == 0 and close(a["p"], 1 / (c.B * c.B) if c.reverseq else c.B * c.B, 1e-12):
            want = dy if dy in (0, float(y)) else want      # indifferent exactly at a constant price
        if not abs(float(dy) - want) <= tol * 1.01:
            res.violate("wrong amount traded", f"{desc}: dy={dy!r}, expected {want!r}", i)
            return
        expanded = float(y) - dy > float(yint)
        if not expanded and yint:
            d = F(dy)
            wdx = float(d * yint ** 2 / ((S * y + B * yint) * (S * y + B * yint - S * d)))
            if not close(dx, wdx, 1e-8, 1e-300):
                res.violate("off the curve", f"{desc}: dx={dx!r} for dy={dy!r}, the curve says {wdx!r}", i)
                return
        if dy and dx:
            wp = dx / dy if c.pair.has_basetoken(c.tkn) else dy / dx
            if not close(out["p"], wp, 1e-9):
                res.violate("wrong price reported", f"{desc}: p={out['p']!r}, amounts say {wp!r}", i)
        if (out["tkny"], out["tknx"]) != (c.tkn, c.pair.other(c.tkn)):
            res.violate("wrong tokens reported", f"{desc}: {out['tkny']}, {out['tknx']}", i)
        rep = {"y_old": float(y), "expanded": expanded, "yint_old": float(yint) if expanded else None}
        bad = {f: (out.get(f), v) for f, v in rep.items() if not same(out.get(f), v)}
        if bad:
            res.violate("trade wrongly reported", f"{desc}: (reported, is) {bad}", i)
        # settlement
        if o["execute"]:
            if not (same(out["y"], ny) and close(out["y_int"], nyint, 1e-12, 1e-40)):
                res.violate("trade wrongly reported", f"{desc}: reported {out['y']!r} of {out['y_int']!r}, is {ny!r} of {nyint!r}", i)
            sy = float(y) - dy
            if sy < 0:
                sy = 0
            if not close(ny, sy, 1e-12, 1e-10 if abs(sy) < 1e-9 else 0):
                res.violate("seller not debited what was sold", f"{desc}: y {float(y)!r} -> {ny!r} for dy={dy!r}", i)
            if not close(nyint, max(float(yint), ny), 1e-12):
                res.violate("capacity changed", f"{desc}: yint {float(yint)!r} -> {nyint!r}", i)
            if li is not None:
                ly, lyint = num[li]
                gy, gyint = curves[li].y, curves[li].yint
                if not (close(gy, ly + dx, 1e-12) and close(gyint, max(lyint, ly + dx), 1e-12)):
                    res.violate("linked curve not credited what was paid", f"{desc}: linked {(ly, lyint)} -> {(gy, gyint)} for dx={dx!r}", i)
        if not expanded and yint and abs(dy) >= EPS:
            wms = [float((B + S * yy / yint) ** 2) for yy in (max(F(0), y - F(dy)), y - F(dy))]
            wms = [1 / r if c.reverseq else r for r in wms]
            wm = wms[0]
            if not any(close(out["pmarg"], r, 1e-8) for r in wms):
                res.violate("wrong marginal price reported", f"{desc}: {out['pmarg']!r}, the curve says {wm!r}", i)

    def target(self, p, c, y, yint, B, S):
        if not yint:
            return y
        raw = F(p) if not c.reverseq else 1 / F(p)
        if raw >= (B + S) ** 2 or S == 0 and raw >= B * B * (1 - F(1, 10 ** 13)):
            return y
        if raw <= B * B:
            return F(0)
        t = yint * (F(math.sqrt(raw)) - B) / S
        return min(y, max(F(0), t))

    def expect(self, kind, o, a, c, y, yint, B, S, li):
        """ok, refuse or either (within rounding of the boundary)"""
        if kind == "addliqy":
            if a["dy"] < 0:
                return "refuse"
            n = y + F(a["dy"])
            if n > yint and not (o["dflt"] or o["expand"]):
                return "either" if close(n, yint, 1e-12) else "refuse"
            return "ok"
        if kind == "tradeto":
            if a["p"] <= 0:
                return "either"
            return "ok"
        if yint == 0 and kind in ("selly", "buyx"):
            return "either"
        dy = F(a["dy"]) if kind == "selly" else None
        if kind == "buyx":
            den = S * F(a["dx"]) * (S * y + B * yint) + yint ** 2
            if den <= 0:
                return "either" if y < 100 * EPS else "refuse"
            dy = F(a["dx"]) * (S * y + B * yint) ** 2 / den
        neg = True if o["dflt"] else o["allowneg"]
        exp = False if o["dflt"] else o["expand"]
        if abs(dy) < 10 * EPS:
            return "either" if dy else "ok"
        if dy < 0:
            if not neg or li is not None:
                return "refuse"
            n = y - dy
            if close(n, yint, 1e-9):
                return "either"
            if n > yint and not exp:
                return "refuse"
            if kind == "buyx" and n > yint:
                return "either"
            return "ok"
        if dy > y:
            return "either" if dy - y < 10 * EPS or close(dy, y, 1e-9) else "refuse"
        return "either" if close(dy, y, 1e-12) and kind == "buyx" else "ok"

    def shrink_fields(self, op):
        for k in ("fault",):
            if k in op:
                v = dict(op)
                del v[k]
                yield v


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) or isinstance(b, float):
        try:
            return close(a, b, 1e-12)
        except TypeError:
            return a is b
    return a == b


def brief(r):
    return {k: r[k] for k in ("dy", "dx", "y", "y_int", "executed") if k in r} if isinstance(r, dict) else r


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}


# ------------------------------------------------------------------ C18
class MOrder:
    """reference curve in plain floats: price range from pa (start) to pb (end)"""

    def __init__(self, sells_base, pa, pb, y, yint=None, pmarg=None):
        self.base = sells_base
        ra, rb = (1 / pa, 1 / pb) if sells_base else (pa, pb)
        if ra < rb:
            ra, rb = rb, ra
        self.a, self.b = math.sqrt(ra), math.sqrt(rb)
        self.y = y
        if yint is None and pmarg is not None:
            m = math.sqrt(1 / pmarg if sells_base else pmarg)
            yint = y * (self.a - self.b) / (m - self.b)
        self.yint = y if yint is None else yint
        self.other = None

    def root(self):
        return self.a if self.yint == 0 else self.b + (self.a - self.b) * self.y / self.yint

    def marg(self):
        r = self.root() ** 2
        return 1 / r if self.base else r

    def tradeto(self, p):
        """sell until the marginal price is p (or nothing is left)"""
        r = math.sqrt(1 / p if self.base else p)
        c = self.root()
        if self.y <= 0 or r >= c:
            return
        ny = 0.0 if r <= self.b or self.a == self.b else self.yint * (r - self.b) / (self.a - self.b)
        dy = self.y - ny
        if dy < EPS:
            return
        e = self.b if ny == 0 else r
        dx = dy / (c * e)
        self.y = ny
        self.other.y += dx
        self.other.yint = max(self.other.yint, self.other.y)


class C18(Scenario):
    pid = "C18"
    quick_runs = 600
    thorough_runs = 20000
    time_unit = "path steps"
    real = REAL
    stub = STUB
    assumptions = ["price paths are positive after any leading zeros", "ranges are at least 1e-4 wide or constant",
                   "the market moves in the steps of the path; between two steps the orders trade with nobody else"]
    rule = ("a simulated run is non-trivial when at least one order traded on the path; distinct histories are counted by the "
            "sequence of which orders traded at each step")

    # ---------------------------------------------------------- generation
    def gen_strat(self, rng, s0, pair):
        kind = rng.choices(["raw", "mgw", "sb", "u3", "tvl", "dct"], [4, 3, 2, 2, 1, 1])[0]
        amt = math.exp(rng.uniform(-2, 5))
        rsk = rng.choice([0, amt, amt, amt])
        csh = rng.choice([0, 1, 1, 1]) * amt * s0 * math.exp(rng.uniform(-1, 1))
        w = lambda: rng.choice([1e-3, .02, .1, .3, 1.0])
        fixed = rng.random() < .5
        m = s0 if fixed else 100
        mid = m * math.exp(rng.uniform(-.1, .1))
        g = rng.choice([0.001, .02, .1, .3])
        d = {"kind": kind, "rsk": pair[0], "csh": pair[1], "amt_rsk": rsk, "amt_csh": csh, "fixed": fixed}
        if kind in ("raw", "tvl"):
            x = dict(p_sell_a=mid * (1 + g), p_buy_a=mid / (1 + g))
            x["p_sell_b"] = x["p_sell_a"] * (1 + w() * rng.choice([0, 1, 1, 1]))
            x["p_buy_b"] = x["p_buy_a"] / (1 + w() * rng.choice([0, 1, 1, 1]))
            if kind == "raw":
                r = rng.random()
                if r < .2 and x["p_sell_b"] != x["p_sell_a"] and x["p_buy_b"] != x["p_buy_a"]:
                    u = rng.random() * .9
                    x["psell_marginal"] = x["p_sell_a"] + u * (x["p_sell_b"] - x["p_sell_a"])
                    x["pbuy_marginal"] = x["p_buy_a"] + u * (x["p_buy_b"] - x["p_buy_a"])
                elif r < .4 and fixed:
                    x["y_int_sell"] = rsk * (1 + rng.random()) + 1e-9
                    x["y_int_buy"] = csh * (1 + rng.random()) + 1e-9
            else:
                d["tvl"], d["cashpc"], d["spot"] = amt * s0, rng.choice([0, .3, .5, 1]), s0
            d["args"] = x
        elif kind == "mgw":
            d["args"] = dict(m=mid, g=g, w=rng.choice([min(w(), .9), [min(w(), .9), min(w(), .9)]]),
                             u=rng.choice([0, 0, .5, [.3, .7], 1]))
            d["fixed"] = False
        elif kind == "dct":
            d["args"] = rng.choice([
                dict(strat_type="mgw", strat_m=mid, strat_g=g, strat_w=min(w(), .9), strat_u=0),
                dict(strat_type="fixed", p_sell_a=mid * (1 + g), p_sell_b=mid * (1 + g) * 1.2, p_buy_a=mid / (1 + g),
                     p_buy_b=mid / (1 + g) / 1.3)])
            d["fixed"] = d["args"]["strat_type"] == "fixed"
            d["tvl"], d["cashpc"], d["spot"] = amt * s0, .5, s0
        elif kind == "sb":
            lo, hi = mid * (1 + g), mid * (1 + g) * (1 + w())
            blo, bhi = mid / (1 + g) / (1 + w()), mid / (1 + g)
            d["args"] = {"sell": rng.choice([[lo, hi], [hi, lo], lo]), "buy": rng.choice([[bhi, blo], [blo, bhi], bhi])}
            d["tvl"], d["cashpc"], d["spot"] = amt * s0, .4, s0
        else:
            lo = s0 * math.exp(rng.uniform(-.5, .3))
            d["args"] = dict(p_lo=lo, p_hi=lo * (1 + w()), start_below=rng.random() < .5, tvl_csh=rng.choice([None, amt * s0]),
                             fee_pc=rng.choice([None, None, .01]))
            d["fixed"] = True
        return d

    def generate(self, rng, tier):
        s0 = math.exp(rng.uniform(-6, 9))
        pair = rng.choice([("RSK", "CSH"), ("ETH", "USDC")])
        n = rng.randint(2, 25) + (rng.choice([0, 60]) if tier == "thorough" else 0)
        style = rng.choice(["walk", "walk", "jumps", "zigzag", "flat", "trend"])
        p, x = [s0], s0
        for i in range(n):
            z = {"walk": rng.gauss(0, .1), "jumps": rng.choice([0, 0, 1.5, -1.5, 4, -4]) * rng.random(),
                 "zigzag": (.3 if i % 2 else -.3) * (1 + rng.random()), "flat": 0, "trend": .05}[style]
            x = min(max(x * math.exp(z), s0 / 1e4), s0 * 1e4)
            p.append(x)
        zeros = rng.choice([0, 0, 0, 0, 1, 3])
        ops = [{"op": "step", "p": v} for v in p]
        prog = {"strats": [self.gen_strat(rng, s0, pair) for _ in range(rng.choice([1, 1, 2, 3]))], "zeros": zeros, "ops": ops,
                "shift": rng.choice([None, None, 0, .05, -.1]), "single": rng.random() < .5, "step_days": rng.choice([1, .25, 7]),
                "cut": rng.random(), "both": rng.randrange(8) if rng.random() < .1 else None}
        if rng.random() < .4:
            prog["law"] = {"new": s0 * rng.choice([.5, 1, 3.7]), "old": rng.choice([None, None, 100, s0, 2 * s0]), "force": rng.random() < .5,
                           "spot": s0 * rng.choice([.5, 1, 2]), "cashpc": rng.choice([0, .3, .5, 1]), "tvl": rng.choice([1, 1e3, 12345.678]),
                           "given": rng.choice(["rsk", "csh", "both", "none"]), "alien": rng.choice(["csh", "csh", "rsk", "swap"]),
                           "again": rng.choice([0, .5, -.2])}
        if rng.random() < .3:
            prog["fault"] = {"exc": rng.choice(FAULT_EXC), "site": rng.getrandbits(30)}
        return prog

    def build(self, d):
        from carbon.helpers import strategy
        x = {k: (tuple(v) if isinstance(v, list) else v) for k, v in d["args"].items()}
        kw = dict(rsk=d["rsk"], csh=d["csh"])
        k = d["kind"]
        if k == "raw":
            return strategy(**x, amt_rsk=d["amt_rsk"], amt_csh=d["amt_csh"], rescale=not d["fixed"], **kw)
        if k == "mgw":
            return strategy.from_mgw(**x, amt_rsk=d["amt_rsk"], amt_csh=d["amt_csh"], **kw)
        if k == "u3":
            return strategy.from_u3(**x, **kw)
        if k == "tvl":
            return strategy(**x, rescale=not d["fixed"], **kw).set_tvl(d["spot"], d["cashpc"], d["tvl"])
        s = strategy.from_sb(x["sell"], x["buy"], fixed=d["fixed"]) if k == "sb" else strategy.from_dct(x)
        s.rsk, s.csh = d["rsk"], d["csh"]
        return s.set_tvl(d["spot"], d["cashpc"], d["tvl"])

    def model(self, d, s0, shift):
        """the two reference orders the user described"""
        x, k = d["args"], d["kind"]
        f = 1.0 if d["fixed"] else s0 * (1 + (shift or 0)) / 100
        rsk, csh = d["amt_rsk"], d["amt_csh"]
        pm = [None, None]
        yi = [None, None]
        if k in ("raw", "tvl"):
            sa, sb, ba, bb = x["p_sell_a"], x["p_sell_b"], x["p_buy_a"], x["p_buy_b"]
            pm = [x.get("psell_marginal"), x.get("pbuy_marginal")]
            yi = [x.get("y_int_sell"), x.get("y_int_buy")]
        elif k == "mgw" or k == "dct" and x["strat_type"] == "mgw":
            m, g, w, u = (x[q] for q in (("m", "g", "w", "u") if k == "mgw" else ("strat_m", "strat_g", "strat_w", "strat_u")))
            ws, wb = w if isinstance(w, list) else (w, w)
            us, ub = u if isinstance(u, list) else (u, u)
            sa, ba = m * (1 + g / 2), m / (1 + g / 2)
            sb, bb = sa * (1 + min(ws, .999)), ba / (1 + min(wb, .999))
            us, ub = min(us, .999), min(ub, .999)
            pm = [sa + us * (sb - sa) if us else None, ba + ub * (bb - ba) if ub else None]
        elif k == "dct":
            sa, sb, ba, bb = x["p_sell_a"], x["p_sell_b"], x["p_buy_a"], x["p_buy_b"]
        elif k == "sb":
            r = lambda v: sorted(v) if isinstance(v, list) else [v, v]
            (sa, sb), (bb, ba) = r(x["sell"]), r(x["buy"])
        elif k == "u3":
            lo, hi = x["p_lo"], x["p_hi"]
            sh = math.sqrt(lo * hi) * (x["fee_pc"] or 0) / 2
            sa, sb, ba, bb = lo + sh, hi + sh, hi - sh, lo - sh
            tvl = x["tvl_csh"] or 1000
            yi = [tvl / math.sqrt(lo * hi), tvl]
            rsk, csh = (yi[0], 0) if x["start_below"] else (0, tvl)
        if k in ("tvl", "dct", "sb"):
            rsk, csh = d["tvl"] / d["spot"] * (1 - d["cashpc"]), d["tvl"] * d["cashpc"]
        rsk, csh = rsk or EPS, csh or EPS           # documented seed of empty sides
        yi = [v if v is None else v * (f if i else 1) for i, v in enumerate(yi)]
        ask = MOrder(True, sa * f, sb * f, rsk, None if yi[0] is None else max(yi[0], rsk), None if pm[0] is None else pm[0] * f)
        bid = MOrder(False, ba * f, bb * f, csh, None if yi[1] is None else max(yi[1], csh), None if pm[1] is None else pm[1] * f)
        ask.other, bid.other = bid, ask
        return ask, bid

    # ---------------------------------------------------------- execution
    def series(self, p, vals, zeros=0):
        import pandas as pd
        vals = [0.0] * zeros + list(vals)
        ix = [pd.Timestamp("2021-03-01") + pd.Timedelta(days=p["step_days"] * i) for i in range(len(vals))]
        return pd.Series(vals, index=ix)

    def execute(self, p):
        res = Result()
        so = sys.stdout
        sys.stdout = NullOut()
        try:
            self._execute(p, res)
        finally:
            sys.stdout = so
        return res

    @staticmethod
    def out(r):
        return {"rsk": list(map(float, r.rskamt_r)), "csh": list(map(float, r.cshamt_r)), "value": list(map(float, r.value_r)),
                "hodl": list(map(float, r.hodl_r)), "ask": [list(map(float, t)) for t in r.margpbuy_r],
                "bid": [list(map(float, t)) for t in r.margpsell_r], "spot": list(map(float, r.spot_r)),
                "index": [str(t) for t in r.spot_r.index], "vindex": [str(t) for t in r.value_r.index]}

    def _execute(self, p, res):
        from carbon.helpers import run_sim
        vals = [o["p"] for o in p["ops"]]
        if len(vals) < 2 or not p["strats"]:
            return
        try:
            strats = [self.build(d) for d in p["strats"]]
        except Exception as e:
            res.violate("strategy refused", f"{p['strats']}: {e!r}")
            return
        arg = strats[0] if p["single"] and len(strats) == 1 else strats
        path = self.series(p, vals, p["zeros"])
        if p.get("both") is not None:
            # a contradictory description is refused, not resolved silently
            d = dict(amt_rsk=1.0, amt_csh=1.0, p_sell_a=110., p_sell_b=120., p_buy_a=90., p_buy_b=80., rescale=p["both"] & 4 > 0)
            d.update([{"psell_marginal": 112.}, {"pbuy_marginal": 85.}][p["both"] & 1])
            d.update([{"y_int_sell": 2.}, {"y_int_buy": 2.}][p["both"] >> 1 & 1])
            from carbon.helpers import strategy
            try:
                r = run_sim(strategy(**d), path, p["shift"])
            except Exception:
                pass
            else:
                res.violate("contradictory strategy accepted", f"{d} simulated with holdings {float(r.rskamt_r[0]), float(r.cshamt_r[0])}")
                return
        before = [repr(s) for s in strats], list(path)

        def untouched(what):
            if ([repr(s) for s in strats], list(path)) != before:
                res.violate("inputs modified", f"{what} changed the strategies or the path handed to it")
        if p.get("fault"):
            import random
            t = Tracer(record=True)
            try:
                with t:
                    run_sim(arg, path, p["shift"])
            except Exception:
                pass
            at = pick_site(random.Random(p["fault"]["site"]), t.sites)
            if at:
                t = Tracer(at=at, exc=p["fault"]["exc"])
                try:
                    with t:
                        run_sim(arg, path, p["shift"])
                except BaseException:
                    pass
                if t.fired:
                    res.faults[p["fault"]["exc"]] += 1
                    untouched(f"a run interrupted at {t.fired}")
        try:
            r = run_sim(arg, path, p["shift"])
            o = self.out(r)
        except Exception as e:
            res.violate("simulation fails", f"strategies {p['strats']} shift {p['shift']} path {vals[:6]}...: {e!r}")
            return
        untouched("the run")
        res.simtime += len(vals)
        res.trace.append(json.dumps([o["rsk"], o["csh"]]))
        for i, s in enumerate(o["rsk"]):
            res.states.add(h8([p["strats"][0]["kind"], len(strats), s == 0, o["csh"][i] == 0, i == 0]))
        # shapes
        want_ix = [str(t) for t in path.index[p["zeros"]:]]
        if o["index"] != want_ix or o["vindex"] != want_ix or o["spot"] != vals:
            res.violate("path altered", f"simulated path {o['spot'][:5]} at {o['index'][:2]}, given {vals[:5]} at {want_ix[:2]}")
            return
        n = len(vals)
        if any(len(o[k]) != n for k in ("rsk", "csh", "value", "hodl")) or len(o["ask"]) != len(strats) or \
                len(o["bid"]) != len(strats) or any(len(x) != n for x in o["ask"] + o["bid"]):
            res.violate("results incomplete", f"{n} path points, series of {[len(o[k]) for k in ('rsk', 'csh', 'value', 'hodl')]}, "
                        f"marginal prices {[len(x) for x in o['ask'] + o['bid']]}")
            return
        # step by step against the reference
        ms = [self.model(d, vals[0], p["shift"]) for d in p["strats"]]
        scale_r = sum(a.y for a, b in ms) + sum(b.y for a, b in ms) / vals[0]
        sig = []
        for i, spot in enumerate(vals):
            if i:
                t = []
                for a, b in ms:
                    y0 = a.y, b.y
                    a.tradeto(spot)
                    b.tradeto(spot)
                    t.append((a.y < y0[0]) - (b.y < y0[1]))
                sig.append(t)
            wr, wc = sum(a.y for a, b in ms), sum(b.y for a, b in ms)
            hi = max(vals[:i + 1])
            lo = min(vals[:i + 1])
            tr = 1e-7 * scale_r * max(1, vals[0] / lo) + 1e-8
            tc = 1e-7 * scale_r * max(vals[0], hi) + 1e-8 * max(1, hi)
            if not (abs(o["rsk"][i] - wr) <= tr and abs(o["csh"][i] - wc) <= tc):
                res.violate("wrong holdings", f"step {i} (spot {spot!r}): holdings {(o['rsk'][i], o['csh'][i])}, the strategies {p['strats']} "
                            f"(shift {p['shift']}) must hold {(wr, wc)}", i)
                return
            for j, (a, b) in enumerate(ms):
                for nm, m, x in (("ask", a, o["ask"][j][i]), ("bid", b, o["bid"][j][i])):
                    if m.y > 1e-6 * scale_r * (1 if nm == "ask" else vals[0]) and not close(m.marg(), x, 1e-5):
                        res.violate("wrong marginal price", f"step {i} strategy {j}: {nm} {x!r}, must be {m.marg()!r}", i)
                        return
            if not close(o["value"][i], o["rsk"][i] * spot + o["csh"][i], 1e-9) or \
                    not close(o["hodl"][i], o["rsk"][0] * spot + o["csh"][0], 1e-9):
                res.violate("wrong value", f"step {i}: value {o['value'][i]!r} hodl {o['hodl'][i]!r}", i)
                return
        res.nontrivial = any(any(t) for t in sig)
        res.inter.add(h8(sig))
        res.stats["steps with trades"] += sum(any(t) for t in sig)
        # the future does not act on the past
        k = 1 + int(p["cut"] * (n - 1))
        try:
            q = self.out(run_sim(arg, self.series(p, vals[:k], p["zeros"]), p["shift"]))
        except Exception as e:
            res.violate("simulation of a prefix fails", f"first {k} of {n} points: {e!r}")
            return
        for f in ("rsk", "csh", "value", "hodl"):
            if q[f] != o[f][:k]:
                res.violate("later prices act on earlier results", f"{f} over the first {k} points {q[f]} differs from the whole run {o[f][:k]}")
                return
        # strategies in one portfolio do not interact
        if len(strats) > 1:
            parts = [self.out(run_sim(s, path, p["shift"])) for s in strats]
            for f in ("rsk", "csh"):
                for i in range(n):
                    if not close(sum(x[f][i] for x in parts), o[f][i], 1e-9, 1e-12):
                        res.violate("strategies of a portfolio interact", f"step {i} {f}: alone {[x[f][i] for x in parts]}, together {o[f][i]!r}", i)
                        return
        untouched("repeated runs")
        if p.get("law"):
            self.laws(p, p["law"], strats, r, o, path, res)
            untouched("rescaling, seeding or describing")

    def laws(self, p, law, strats, r, o, path, res):
        """what the strategies themselves promise: scaled copies, seeded copies, the simulated strategies handed back"""
        import dataclasses
        from carbon.helpers import run_sim, strategy
        flds = [f.name for f in dataclasses.fields(strategy)]
        get = lambda s: {k: getattr(s, k) for k in flds}

        def unseeded(a):        # an empty side may carry its documented seed
            return {k: strategy.MIN_SEED_AMT if k in ("amt_rsk", "amt_csh") and v == 0 else v for k, v in a.items()}

        def differ(a, b):
            a, b = unseeded(a), unseeded(b)
            return [(k, a[k], b[k]) for k in flds if not (a[k] == b[k] or isinstance(a[k], (int, float)) and isinstance(b[k], (int, float))
                                                          and not isinstance(a[k], bool) and close(a[k], b[k], 1e-12))]

        def scaled(s, f):
            w = get(s)
            for k in ("p_sell_a", "p_sell_b", "p_buy_a", "p_buy_b", "psell_marginal", "pbuy_marginal", "y_int_buy"):
                w[k] = None if w[k] is None else w[k] * f
            w.update(rescale=False, rescaled_fctr=f)
            return w
        # the strategies handed back with the results are the ones that were simulated
        if len(r.strat) != len(strats):
            res.violate("wrong strategies returned", f"{len(strats)} simulated, {len(r.strat)} in the results")
            return
        f0 = float(path[path > 0].iloc[0]) * (1 + (p["shift"] or 0)) / 100
        for s, t in zip(strats, r.strat):
            want = get(s) if not s.rescale else scaled(s, f0)
            if t is s or differ(want, get(t)):
                res.violate("wrong strategies returned", f"simulated {s}; results carry {'the very object' if t is s else differ(want, get(t))}")
                return
        try:
            q = self.out(run_sim(list(r.strat), path, law["again"]))
        except Exception as e:
            res.violate("simulated strategies cannot be run again", f"{r.strat}: {e!r}")
            return
        if any(q[k] != o[k] for k in ("rsk", "csh", "value", "ask", "bid")):
            res.violate("simulated strategies move again", f"{r.strat} rerun at shift {law['again']}: rsk {q['rsk'][:3]} csh {q['csh'][:3]}, "
                        f"was {o['rsk'][:3]} {o['csh'][:3]}")
            return
        # copies
        for s in strats:
            kw = {"newspot": law["new"], "force": law["force"]}
            if law["old"] is not None:
                kw["oldspot"] = law["old"]
            want = scaled(s, law["new"] / (law["old"] or 100)) if s.rescale or law["force"] else get(s)
            try:
                t = s.rescale_strat(**kw)
            except Exception as e:
                res.violate("strategy not rescaled", f"{s}.rescale_strat({kw}): {e!r}")
                return
            if t is s or differ(want, get(t)):
                res.violate("wrongly rescaled", f"{s}.rescale_strat({kw}): {'the very object' if t is s else differ(want, get(t))}")
                return
            a = get(s)
            a["amt_rsk"] = 1.5 if law["given"] in ("rsk", "both") else None
            a["amt_csh"] = 2.5 if law["given"] in ("csh", "both") else None
            b = strategy(**a)
            want = dict(a)
            if law["given"] == "none":
                want.update(amt_rsk=law["tvl"] / law["spot"] * (1 - law["cashpc"]), amt_csh=law["tvl"] * law["cashpc"])
            t = b.set_tvl(law["spot"], law["cashpc"], law["tvl"])
            if t is b or differ(want, get(t)) or get(b) != a:
                res.violate("wrongly seeded", f"{b}.set_tvl({law}): {differ(want, get(t))} or the strategy itself changed")
                return
        # one portfolio is about one pair
        s = strats[0]
        a = get(s)
        a.update({"csh": dict(csh=s.csh + "2"), "rsk": dict(rsk=s.rsk + "2"), "swap": dict(rsk=s.csh, csh=s.rsk)}[law["alien"]])
        for mix in ([s, strategy(**a)], [strategy(**a)] + strats):
            try:
                run_sim(mix, path, p["shift"])
            except Exception:
                continue
            res.violate("different pairs in one portfolio", f"simulated together: {[x.slashpair for x in mix]}")
            return


# ------------------------------------------------------------------ C19
class Hostile:
    """a generator whose normal draws are distorted: constant, alternating, or rare huge jumps"""

    def __init__(self, g, mode):
        self.g, self.mode = g, mode

    def _z(self, z):
        import numpy as np
        a = np.asarray(z, dtype=float)
        if self.mode == "zero":
            a = a * 0
        elif self.mode == "const":
            a = a * 0 + 3.0
        elif self.mode == "alternate":
            f = np.ones(a.shape).ravel()
            f[::2] = -1
            a = f.reshape(a.shape) * 4.0
        elif self.mode == "jump":
            f = a.copy().ravel()
            if f.size:
                f[f.size // 2] = 8.0
            a = f.reshape(a.shape)
        return a if a.shape else float(a)

    def standard_normal(self, size=None, **kw):
        return self._z(self.g.standard_normal(size))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        import numpy as np
        return np.exp(self.normal(mean, sigma, size))

    def __getattr__(self, n):
        return getattr(self.g, n)


class C19(Scenario):
    pid = "C19"
    quick_runs = 350
    thorough_runs = 15000
    time_unit = "path points"
    real = ["carbon.helpers.pathgenerator", "carbon.helpers.pathinterpolation", "numpy, pandas"]
    stub = ["numpy.random.default_rng (streams chosen by the simulator)", "standard output", "sys.settrace fault seam"]
    assumptions = ["observations are positive and strictly increasing in time",
                   "distribution checks apply to honest streams only and use bounds of at least six standard deviations"]
    rule = ("a simulated run is non-trivial when a path was generated or refined; distinct histories are counted by the sequence of "
            "operations with their outcome class (kept, refined, mixed) and stream kind")

    def generate(self, rng, tier):
        gens = [dict(mu=rng.choice([0, .05, -.3, 1]), sig=rng.choice([0, .1, .29, .5, .57, 2]), s0=rng.choice([1e-4, 1, 100, 12345.678]),
                     time=rng.choice([1, .1, 3]), N=rng.choice([1, 2, 7, 50, 400]), startdt=rng.choice([[2020, 1, 1], [2023, 2, 28]]),
                     colname=rng.choice([None, None, "x{ix}", "s{sig100:03d}m{mu100}-{ix:02d}"])) for _ in range(rng.choice([1, 2, 3]))]
        ops = []
        for _ in range(rng.randint(2, 7)):
            k = rng.choices(["path", "df", "interp", "bridge", "vol"], [3, 2, 5, 2, 1])[0]
            o = {"op": k, "stream": rng.getrandbits(30), "mode": rng.choices(["honest", "zero", "const", "alternate", "jump"], [6, 1, 1, 1, 1])[0]}
            if k in ("path", "df"):
                o["g"] = rng.randrange(len(gens))
                o["call"] = rng.random() < .5
                if k == "df":
                    o["n"] = rng.choice([1, 2, 4, 60 if gens[o["g"]]["N"] <= 7 else 3])
                    o["name"] = rng.choice([None, None, "p{ix}"])
            elif k == "interp":
                n, x = rng.randint(2, 12), math.exp(rng.uniform(-5, 8))
                unit = rng.choice([60, 3600, 86400, 1])
                pts, t = [], 0
                for _ in range(n):
                    pts.append([t, x])
                    x *= math.exp(rng.gauss(0, rng.choice([0, .02, .3])))
                    t += unit * rng.choice([1, 1, 1, 2, 5, 24, rng.randint(1, 30)])
                o.update(pts=pts, period=unit * rng.choice([.1, .25, 1 / 3, 1, 1, 2, 7, 100]), sig=rng.choice([None, None, 0, .1, .5, 2]),
                         fctr=rng.choice([None, None, .5, 0]), enable=rng.random() < .9)
                if o["sig"] is not None:
                    o["fctr"] = None
                if tier == "thorough" and rng.random() < .3:
                    o["period"] /= 20
            elif k == "bridge":
                a = math.exp(rng.uniform(-5, 8))
                o.update(a=a, b=a * math.exp(rng.choice([0, rng.gauss(0, .5)])), sig=rng.choice([0, .01, .3, 1]), n=rng.choice([0, 1, 2, 5, 300]))
            else:
                o.update(x=[math.exp(rng.gauss(0, 1)) for _ in range(rng.randint(3, 30))], T=rng.choice([1, .5, 7]))
            if rng.random() < .15:
                o["fault"] = {"exc": rng.choice(FAULT_EXC), "site": rng.getrandbits(30)}
            ops.append(o)
        return {"gens": gens, "ops": ops}

    def stream(self, o):
        g = randseam.real(o["stream"])
        randseam.use(g if o["mode"] == "honest" else Hostile(g, o["mode"]), o["stream"])

    @staticmethod
    def mk(d):
        from carbon.helpers.pathgenerator import PathGenerator
        d = dict(d)
        d["startdt"] = tuple(d["startdt"])
        return PathGenerator(**d)

    def series(self, pts):
        import pandas as pd
        t0 = pd.Timestamp("2021-03-01")
        return pd.Series([v for _, v in pts], index=[t0 + pd.Timedelta(seconds=t) for t, _ in pts])

    def call(self, o, g, ser):
        from carbon.helpers.pathinterpolation import PathInterpolation as PI
        import numpy as np
        import pandas as pd
        k = o["op"]
        if k == "path":
            return g() if o["call"] else g.path()
        if k == "df":
            return g.pathdf(o["n"], colname=o["name"]) if o["name"] else g.pathdf(o["n"])
        if k == "interp":
            return PI.interpolate(ser, pd.Timedelta(seconds=o["period"]), sig=o["sig"], sigfctr=o["fctr"], enable=o["enable"])
        if k == "bridge":
            return PI.gaussian_bridge(o["a"], o["b"], o["sig"], o["n"])
        return PI.estimate_vol_np(np.array(o["x"]), o["T"])

    def execute(self, p):
        import io
        res = Result()
        so = sys.stdout
        sys.stdout = io.StringIO()
        try:
            self._execute(p, res)
        finally:
            sys.stdout = so
        return res

    @staticmethod
    def text(r):
        import pandas as pd
        if isinstance(r, pd.DataFrame):
            return [list(map(str, r.index)), list(map(str, r.columns)), [[repr(float(x)) for x in r[c]] for c in r.columns]]
        if isinstance(r, pd.Series):
            return [list(map(str, r.index)), [repr(float(x)) for x in r]]
        return [repr(float(x)) for x in r]

    def _execute(self, p, res):
        import random
        gens = [self.mk(d) for d in p["gens"]]
        sig, seen = [], {}
        acc = [0.0, 0]          # pooled bridge residuals: sum of squares, degrees of freedom
        for i, o in enumerate(p["ops"]):
            k = o["op"]
            g = gens[o["g"] % len(gens)] if "g" in o else None
            d = p["gens"][o["g"] % len(gens)] if "g" in o else None
            if k == "interp" and len(o["pts"]) < 2:
                continue
            ser = self.series(o["pts"]) if k == "interp" else None
            before = self.text(ser) if ser is not None else None
            if o.get("fault"):
                self.stream(o)
                t = Tracer(record=True)
                try:
                    with t:
                        self.call(o, g, ser)
                except Exception:
                    pass
                at = pick_site(random.Random(o["fault"]["site"]), t.sites)
                if at:
                    self.stream(dict(o, stream=o["stream"] ^ 1))
                    t = Tracer(at=at, exc=o["fault"]["exc"])
                    try:
                        with t:
                            self.call(o, g, ser)
                    except BaseException:
                        pass
                    if t.fired:
                        res.faults[o["fault"]["exc"]] += 1
            if o["mode"] != "honest":
                res.faults["hostile stream: " + o["mode"]] += 1
            self.stream(o)
            try:
                r = self.call(o, g, ser)
                tx = self.text(r)
            except Exception as e:
                res.violate("operation fails", f"{brief_op(o, d)}: {e!r}", i)
                return
            if ser is not None and self.text(ser) != before:
                res.violate("input modified", f"{brief_op(o, d)} changed the path handed to it", i)
                return
            res.trace.append(h8(tx))
            # the result is a function of the request and the stream alone
            self.stream(o)
            tw = self.text(self.call(o, self.mk(d) if d else None, self.series(o["pts"]) if ser is not None else None))
            if tw != tx:
                res.violate("earlier operations act on the result", f"{brief_op(o, d)} differs from the same request in a fresh process state "
                            f"under the same random stream", i)
                return
            sig.append(k + o["mode"][0] + str(self.check(i, o, d, r, res, acc)))
            if res.violations:
                return
            if o["mode"] == "honest" and k == "path" and d["sig"] > 0 and d["N"] > 2:
                if tuple(tx) in seen and seen[tuple(tx)] != o["stream"]:
                    res.violate("paths repeat", f"{brief_op(o, d)}: two random streams gave the same path", i)
                    return
                seen[tuple(tx)] = o["stream"]
        n = acc[1]
        if n >= 30:
            z = (acc[0] - n) / math.sqrt(2 * n)
            res.stats["bridge residuals"] += n
            if not -6 < z < 6 + 60 / math.sqrt(n):
                res.violate("wrong volatility", f"interpolated points: {n} residuals have variance {acc[0] / n:.4f} of the requested one (z={z:.1f})")
        res.nontrivial = bool(sig)
        res.inter.add(h8(sig))

    def check(self, i, o, d, r, res, acc):
        import numpy as np
        import pandas as pd
        k = o["op"]

        def bad(kind, msg):
            res.violate(kind, f"{brief_op(o, d)}: {msg}", i)
            return "!"

        def genpath(x):
            x = [float(v) for v in x]
            if len(x) != d["N"] + 1:
                return bad("wrong length", f"{len(x)} points for N={d['N']}")
            if not close(x[0], d["s0"], 1e-12):
                return bad("wrong start", f"starts at {x[0]!r}, not {d['s0']!r}")
            if not all(v > 0 and math.isfinite(v) for v in x):
                return bad("path not positive", f"{[v for v in x if not v > 0][:3]}")
            dt = d["time"] / d["N"]
            lr = [math.log(b / a) for a, b in zip(x, x[1:])]
            m, s = (d["mu"] - d["sig"] ** 2 / 2) * dt, d["sig"] * math.sqrt(dt)
            if d["sig"] == 0 or o["mode"] == "zero":
                if not all(close(v, m, 1e-9, 1e-12) for v in lr):
                    return bad("wrong drift", f"log returns {lr[:3]} without noise must be {m!r}")
            elif o["mode"] == "honest":
                n = len(lr)
                q = [(v - m) / s for v in lr]
                if abs(sum(q)) / math.sqrt(n) > 6.5:
                    return bad("wrong drift", f"mean log return is {sum(q) / math.sqrt(n):.1f} standard errors off")
                z = (sum(v * v for v in q) - n) / math.sqrt(2 * n)
                if n >= 50 and not -6 < z < 6 + 60 / math.sqrt(n):
                    return bad("wrong volatility", f"variance of {n} log returns is {z:.1f} standard errors off")
            return None
        if k == "path":
            res.simtime += len(r)
            res.states.add(h8(["path", d["N"] > 2, d["sig"] > 0, o["mode"]]))
            return genpath(r) or "p"
        if k == "df":
            if list(r.columns) != [self.label(o, d, j) for j in range(o["n"])]:
                return bad("wrong labels", f"columns {list(r.columns)}, must be {[self.label(o, d, j) for j in range(o['n'])]}")
            if len(r) != d["N"] + 1:
                return bad("wrong length", f"{len(r)} rows for N={d['N']}")
            t0 = pd.Timestamp(*d["startdt"])
            for j, t in enumerate(r.index):
                w = t0 + pd.Timedelta(days=365.25 * d["time"] * j / d["N"])
                if abs((pd.Timestamp(t) - w).total_seconds()) > 1e-3 * (1 + j):
                    return bad("wrong time", f"row {j} at {t}, must be {w}")
            res.simtime += r.size
            cols = [[float(v) for v in r.iloc[:, j]] for j in range(o["n"])]
            for c in cols:
                e = genpath(c)
                if e:
                    return e
            if d["sig"] > 0 and o["mode"] == "honest" and o["n"] >= 50:
                dt = d["time"] / d["N"]
                q = [(math.log(v / u) - (d["mu"] - d["sig"] ** 2 / 2) * dt) / (d["sig"] * math.sqrt(dt)) for c in cols for u, v in zip(c, c[1:])]
                n = len(q)
                z = (sum(v * v for v in q) - n) / math.sqrt(2 * n)
                if not -6 < z < 6 + 60 / math.sqrt(n):
                    return bad("wrong volatility", f"variance of {n} log returns on {o['n']} paths is {z:.1f} standard errors off")
                if abs(sum(q)) / math.sqrt(n) > 6.5:
                    return bad("wrong drift", f"mean log return on {o['n']} paths is {sum(q) / math.sqrt(n):.1f} standard errors off")
            if d["sig"] > 0 and o["mode"] == "honest":
                for a in range(o["n"]):
                    for b in range(a):
                        if cols[a][1:] == cols[b][1:]:
                            return bad("paths repeat", f"columns {b} and {a} are the same path")
                        if d["N"] >= 50:
                            f = lambda x: [math.log(v / u) for u, v in zip(x, x[1:])]
                            q = float(np.corrcoef(f(cols[a]), f(cols[b]))[0, 1])
                            if abs(q) > 6.5 / math.sqrt(d["N"]):
                                return bad("paths depend on each other", f"columns {b} and {a} have correlation {q:.2f}")
            res.states.add(h8(["df", o["n"], o["mode"]]))
            return "d"
        if k == "bridge":
            x = [float(v) for v in r]
            n = max(o["n"], 1)
            if len(x) != n + 1:
                return bad("wrong length", f"{len(x)} points for {o['n']} segments")
            if x[0] != o["a"] or x[-1] != o["b"]:
                return bad("end points not met", f"bridge from {o['a']!r} to {o['b']!r} runs from {x[0]!r} to {x[-1]!r}")
            self.residual(x, o["sig"], n, o, acc, bad)
            res.states.add(h8(["bridge", n > 1, o["mode"], o["sig"] == 0]))
            res.simtime += n
            return "b" if not res.violations else "!"
        if k == "vol":
            x = o["x"]
            dt = o["T"] / (len(x) - 1)

            def sd(v):
                mu = sum(v) / len(v)
                return math.sqrt(sum((a - mu) ** 2 for a in v) / len(v) / dt)
            w = sd([b - a for a, b in zip(x, x[1:])]), sd([math.log(b / a) for a, b in zip(x, x[1:])])
            if not all(close(a, b, 1e-9, 1e-12) for a, b in zip(r, w)):
                return bad("wrong volatility estimate", f"{tuple(map(float, r))}, must be {w}")
            return "v"
        # interpolation
        ser = self.series(o["pts"])
        ts = list(ser.index)
        vs = [v for _, v in o["pts"]]
        rt, rv = [pd.Timestamp(t) for t in r.index], [float(v) for v in r]
        res.simtime += len(rv)
        if not o["enable"]:
            return "o" if (rt, rv) == (ts, vs) else bad("path altered", "interpolation is disabled and the path changed")
        if any(b <= a for a, b in zip(rt, rt[1:])):
            j = [b <= a for a, b in zip(rt, rt[1:])].index(True)
            return bad("time not increasing", f"{rt[j]} is followed by {rt[j + 1]}")
        at = dict(zip(rt, rv))
        for t, v in zip(ts, vs):
            if t not in at:
                return bad("observation lost", f"the observation at {t} is missing from the interpolated path")
            if at[t] != v:
                return bad("observation changed", f"the observation at {t} was {v!r}, the interpolated path has {at[t]!r}")
        if rt[0] != ts[0] or rt[-1] != ts[-1]:
            return bad("path extended", f"{rt[0]}..{rt[-1]} for observations {ts[0]}..{ts[-1]}")
        # volatility used
        T = (ts[-1] - ts[0]).total_seconds() / 86400 / 365.25
        s = o["sig"]
        if s is None:
            lr = [math.log(b / a) for a, b in zip(vs, vs[1:])]
            m = sum(lr) / len(lr)
            s = math.sqrt(sum((v - m) ** 2 for v in lr) / len(lr)) / math.sqrt(T / len(lr))
            s *= 1 if o["fctr"] is None else o["fctr"]
            # asking for the estimate by its value is the same request
            self.stream(o)
            tw = self.call(dict(o, sig=s, fctr=None), None, ser)
            if len(tw) != len(rv) or any(not close(u, float(v), 1e-8, 1e-12) for u, v in zip(rv, tw)):
                return bad("wrong volatility estimate", f"the path's volatility is {s!r} a year (factor {o['fctr']}); the interpolated values are not "
                           f"those at that volatility: {rv[:4]} and {[float(v) for v in tw][:4]}")
            from carbon.helpers.pathinterpolation import PathInterpolation as PI
            e = PI.estimate_vol(ser)
            w = s if o["fctr"] in (None, 0) else s / o["fctr"]
            if o["fctr"] != 0 and not close(float(e[1]), w, 1e-8, 1e-12):
                return bad("wrong volatility estimate", f"estimate_vol gives {tuple(map(float, e))}, the log volatility is {w!r}")
        kept = refined = 0
        for (t0, a), (t1, b) in zip(zip(ts, vs), zip(ts[1:], vs[1:])):
            j0, j1 = rt.index(t0), rt.index(t1)
            sec = (t1 - t0).total_seconds()
            n = j1 - j0
            if o["period"] > sec * (1 + 1e-9):
                kept += 1
                if n != 1:
                    return bad("points invented", f"{n - 1} points between observations {sec}s apart at period {o['period']}s")
                continue
            q = sec / o["period"]
            if abs(n - q) > .5 + 1e-3:
                return bad("wrong sampling period", f"{n} segments of {sec / n}s between observations {sec}s apart, period {o['period']}s")
            refined += n > 1
            for j in range(n + 1):
                if abs((rt[j0 + j] - t0).total_seconds() - sec * j / n) > 1e-6 * n:
                    return bad("uneven sampling", f"point {j} of {n} between {t0} and {t1} is at {rt[j0 + j]}")
            self.residual(rv[j0:j1 + 1], s * math.sqrt(sec / 86400 / 365.25), n, o, acc, bad)
            if res.violations:
                return "!"
        res.states.add(h8(["interp", kept > 0, refined > 0, o["sig"] is None, o["mode"], s == 0]))
        return "k" * (kept > 0) + "r" * (refined > 0)

    @staticmethod
    def label(o, d, j):
        from carbon.helpers.pathgenerator import PathGenerator
        nm = o["name"] or d["colname"] or PathGenerator.DEFAULTS["colname"]
        return nm.format(sig100=round(d["sig"] * 100), mu100=round(d["mu"] * 100), ix=j)

    @staticmethod
    def residual(x, sig, n, o, acc, bad):
        """increments of one bridge around its straight line, in units of the requested deviation"""
        if n < 2:
            return
        a, b = x[0], x[-1]
        mid = (a + b) / 2
        sc = sig * mid / math.sqrt(n)
        inc = [v - u for u, v in zip(x, x[1:])]
        mean = (b - a) / n
        if sig <= 1e-12 or o["mode"] in ("zero", "const"):
            if any(abs(v - mean) > 1e-7 * mid + 1e-6 * sc for v in inc):
                bad("noise without volatility", f"increments {inc[:4]} of a bridge without noise, straight line has {mean!r}")
            return
        if o["mode"] == "honest":
            acc[0] += sum((v - mean) ** 2 for v in inc) / sc ** 2
            acc[1] += n - 1


def brief_op(o, d):
    s = {k: v for k, v in o.items() if k not in ("fault",)}
    return f"{s}" + (f" on generator {d}" if d else "")
