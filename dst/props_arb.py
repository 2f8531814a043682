"""
C32 results of the marginal price and the single pair optimizer
C33 a live market: pools, noise traders and arbitrage bots
"""
import json
import math
import random
import sys

from . import boot  # noqa: F401
from .core import Scenario, Result, h8
from .fault import Tracer, NullOut, pick_site, EXC  # noqa: F401

REAL = ["carbon.tools.cpc (curves, inverters, containers)", "carbon.tools.optimizer (marginal price optimizer, single pair optimizer, trade instructions)",
        "numpy", "pandas"]
STUB = ["clock", "standard output", "the chain that orders the transactions"]
TOK = ["ETH", "USDC", "LINK", "BNT", "WBTC-C599"]
FAULTS = ("MemoryError", "KeyboardInterrupt", "RecursionError", "SystemExit")


def gen_curves(rng, toks, n, wide=False, kinds=("pk", "pk", "uv3", "carb"), sd=.05):
    """plain data; built by build()"""
    price = {t: 10 ** rng.uniform(-3, 3) for t in toks}
    cs = []
    for i in range(n):
        if i < len(toks) - 1 and rng.random() < .85:      # most markets are connected through the first token
            a, b = rng.sample([toks[0], toks[i + 1]], 2)
        else:
            a, b = rng.sample(toks, 2)
        p = price[a] / price[b] * math.exp(rng.gauss(0, sd))
        x = 10 ** rng.uniform(1, 5) / price[a]
        d = dict(pair=f"{a}/{b}", cid=f"c{i}", kind=rng.choice(kinds), p=p, k=x * x * p)
        if d["kind"] == "uv3":
            d.update(L=math.sqrt(d["k"]) * rng.choice([1, 1, 10]), pa=p * rng.uniform(.7, .95 if wide else .999), pb=p * rng.uniform(1.05 if wide else 1.001, 1.4))
        if d["kind"] == "carb":
            y = 10 ** rng.uniform(1, 5) / price[b]
            pa = p * rng.uniform(.9, 1.2)
            d.update(y=y, yint=y * rng.choice([1, 1.5, 3]), pa=pa, pb=pa / (1 + rng.choice([.06, .2, .5] if wide else [0, .01, .2, .5])))
        cs.append(d)
    return cs


def tame_curves(rng, toks):
    price = {t: 10 ** rng.uniform(-4, 4) for t in toks}
    cs = []
    for i in range(rng.randint(len(toks) - 1, 9)):
        a, b = rng.sample([toks[0], toks[i + 1]], 2) if i < len(toks) - 1 else rng.sample(toks, 2)
        p = price[a] / price[b] * math.exp(rng.gauss(0, .05))
        x = 10 ** rng.uniform(2, 3) / price[a]
        cs.append(dict(pair=f"{a}/{b}", cid=f"c{i}", kind="pk", p=p, k=x * x * p))
    return cs


def easy(curves, tt):
    """True for markets that Newton's method solves from the averaged prices: unlimited pools of similar size that are not far out of
    line, every token traded against the target"""
    if any(c.x_act < c.x * (1 - 1e-12) or c.y_act < c.k / c.x * (1 - 1e-12) for c in curves):
        return False
    pr = {tt: 1.0}
    for c in curves:
        b, q = c.pair.split("/")
        if q == tt:
            pr.setdefault(b, c.p)
        elif b == tt:
            pr.setdefault(q, 1 / c.p)
    size = []
    for c in curves:
        b, q = c.pair.split("/")
        if b not in pr or q not in pr or abs(math.log(c.p * pr[q] / pr[b])) > .3:
            return False
        size.append(c.x * pr[b])
    return max(size) < 20 * min(size)


def build(d, rename=None):
    from carbon.tools.cpc import ConstantProductCurve as CPC
    a, b = d["pair"].split("/")
    if rename:
        a, b = rename[a], rename[b]
    pair = f"{a}/{b}"
    if d["kind"] == "pk":
        return CPC.from_pk(p=d["p"], k=d["k"], pair=pair, cid=d["cid"])
    if d["kind"] == "uv3":
        return CPC.from_univ3(Pmarg=d["p"], uniL=d["L"], uniPa=d["pa"], uniPb=d["pb"], pair=pair, cid=d["cid"], fee=0, descr="u")
    return CPC.from_carbon(yint=d["yint"], y=d["y"], pa=d["pa"], pb=d["pb"], pair=pair, tkny=b, cid=d["cid"], fee=0, descr="c")


def snap(curves):
    return [(id(c), c.k, c.x, c.x_act, c.y_act, c.pair, c.cid, c.fee, c.descr, repr(c.params)) for c in curves]


def ref_dxdy(c, p):
    """what a curve buys (+) and sells (-) when its marginal price is moved to p, as far as its holdings go"""
    x = math.sqrt(c.k / p)
    lo = c.x - c.x_act
    ymin = c.k / c.x - c.y_act
    hi = c.k / ymin if ymin > 0 else math.inf
    x = min(max(x, lo), hi)
    return x - c.x, c.k / x - c.k / c.x


def flows(curves, dxdy):
    net, gross, liq = {}, {}, {}
    for c, (dx, dy) in zip(curves, dxdy):
        b, q = c.pair.split("/")
        for t, a, l in ((b, dx, c.x_act), (q, dy, c.y_act)):
            net[t] = net.get(t, 0) + a
            gross[t] = gross.get(t, 0) + abs(a)
            liq[t] = liq.get(t, 0) + l
    return net, gross, liq


def ulps(curves):
    """rounding noise of the amounts per token: a few units in the last place of the virtual amounts"""
    n = {}
    for c in curves:
        b, q = c.pair.split("/")
        n[b] = n.get(b, 0) + 1e-15 * c.x
        n[q] = n.get(q, 0) + 1e-15 * c.k / c.x
    return n


def on_curve(c, dx, dy):
    """None or why (dx, dy) is not a trade that curve c allows"""
    y = c.k / c.x
    if not (math.isfinite(dx) and math.isfinite(dy)):
        return f"not finite: {dx}, {dy}"
    if c.x + dx <= 0 or y + dy <= 0 or abs((c.x + dx) * (y + dy) / c.k - 1) > 1e-8:
        return f"off the curve: k becomes {(c.x + dx) * (y + dy) / c.k!r} times k"
    if dx < -c.x_act - 1e-8 * c.x or dy < -c.y_act - 1e-8 * y:
        return f"takes more than there is: dx={dx!r} of {c.x_act!r}, dy={dy!r} of {c.y_act!r}"
    return None


class Clock:
    """stands in for the module `time` inside the optimizer"""

    def __init__(self, jumps):
        self.t, self.jumps, self.n = 1.7e9, jumps, 0

    def time(self):
        self.n += 1
        self.t += self.jumps[self.n % len(self.jumps)]
        return self.t


class Arb(Scenario):
    time_unit = "optimizations and trades"
    real, stub = REAL, STUB
    REFUSE = (ZeroDivisionError, OverflowError)

    def execute(self, p):
        import carbon.tools.optimizer as om
        res = Result()
        so, tm = sys.stdout, om.time
        sys.stdout = NullOut()
        try:
            self.run(p, res)
        finally:
            sys.stdout = so
            om.time = tm
        return res

    def check_margp(self, curves, tt, r, res, desc, i):
        """a result that reports no error must be a solution; True if fine"""
        def bad(kind, msg):
            res.violate(kind, f"{desc}: {msg}", i)
            return False
        toks = {t for c in curves for t in c.pair.split("/")}
        pr = dict(r.p_optimal)
        if set(pr) != toks - {tt} or not all(isinstance(v, float) and math.isfinite(v) and v > 0 for v in pr.values()):
            return bad("wrong prices", f"prices {pr}")
        if list(r.tokens_t) != list(pr) or [float(x) for x in r.p_optimal_t] != list(pr.values()):
            return bad("wrong prices", f"prices {pr} are {r.p_optimal_t} for {r.tokens_t}")
        pr[tt] = 1
        dd = r.dxdyvalues()
        if len(dd) != len(curves):
            return bad("wrong trades", f"{len(dd)} trades for {len(curves)} curves")
        for c, (dx, dy) in zip(curves, dd):
            b, q = c.pair.split("/")
            p = pr[b] / pr[q]
            if abs(r.price(b, q) / p - 1) > 1e-12:
                return bad("wrong prices", f"price of {b}/{q} is {r.price(b, q)!r}, must be {p!r}")
            w = on_curve(c, dx, dy)
            if w:
                return bad("impossible trade", f"curve {c.cid} {c.pair}: {w}")
            wx, wy = ref_dxdy(c, p)
            if abs(dx - wx) > 1e-9 * c.x + 1e-9 * abs(wx) or abs(dy - wy) > 1e-9 * c.y + 1e-9 * abs(wy):
                return bad("not the best trade", f"curve {c.cid} {c.pair} x={c.x!r} xa={c.x_act!r} y={c.y!r} ya={c.y_act!r} at price {p!r}: "
                           f"({dx!r}, {dy!r}), must be ({wx!r}, {wy!r})")
        net, gross, liq = flows(curves, dd)
        ulp = ulps(curves)
        for t in toks - {tt}:
            if abs(net[t]) > 1.01e-3 * gross[t] + 1.01e-5 * liq[t] + ulp[t]:
                return bad("not self-financing", f"net {t} is {net[t]!r}, gross {gross[t]!r}, liquidity {liq[t]!r}")
        val = sum(pr[t] * net[t] for t in toks)
        vg = sum(pr[t] * (gross[t] + 1e-3 * liq[t]) for t in toks)
        if val > 1e-9 * vg + sum(pr[t] * ulp[t] for t in toks):
            return bad("arbitrage at a loss", f"value of the flows into the curves is {val!r} {tt}, gross {vg!r}")
        if abs(r.result - net[tt]) > 1e-9 * (gross[tt] + liq[tt]) + ulp[tt] or float(r) != float(r.result):
            return bad("result is not the net flow", f"result {r.result!r}, net {net[tt]!r}")
        for t, v in r.dtokens.items():
            if abs(v - net[t]) > 1e-9 * (gross[t] + liq[t]) + ulp[t]:
                return bad("result is not the net flow", f"{t}: {v!r}, must be {net[t]!r}")
        if [float(x) for x in r.dtokens_t] != [float(r.dtokens[t]) for t in r.tokens_t] or r.targettkn != tt:
            return bad("result is not the net flow", f"{r.dtokens_t} for {r.tokens_t}, target {r.targettkn}")
        if dict(r.dxdyvalues(asdict=True)) != {c.cid: d for c, d in zip(curves, dd)} or r.dxvalues != tuple(d[0] for d in dd) or r.dyvalues != tuple(d[1] for d in dd):
            return bad("formats disagree", "dxdyvalues")
        return True

    def check_instructions(self, ag, r, curves, cid_pairs, dd, res, desc, i):
        """trade instructions in all formats say what the result says"""
        def bad(msg):
            res.violate("wrong trade instructions", f"{desc}: {msg}", i)
            return False
        want = [(cid, b, q, float(dx), float(dy)) for (cid, b, q), (dx, dy) in zip(cid_pairs, dd) if dx != 0 or dy != 0]
        noise = any((dx * dy >= 0) for _, _, _, dx, dy in want)
        try:
            tis = r.trade_instructions()
            dcs = r.trade_instructions("dicts")
        except (ValueError, AssertionError) as ex:
            return True if noise else bad(f"{ex!r} for {want}")
        if len(tis) != len(want):
            return bad(f"{len(tis)} instructions for {len(want)} trades")
        for ti, d, (cid, b, q, dx, dy) in zip(tis, dcs, want):
            if dx * dy >= 0:
                if not ti.is_empty:
                    return bad(f"{ti} for {cid} {dx!r} {b} {dy!r} {q}")
                continue
            w = (cid, b, dx, q, dy) if dx > 0 else (cid, q, dy, b, dx)
            if (ti.cid, ti.tknin, ti.amtin, ti.tknout, ti.amtout) != w:
                return bad(f"{ti}, must be {w}")
            if abs(ti.price_outperin * ti.price_inperout - 1) > 1e-9 or abs(ti.p / (-w[4] / w[2]) - 1) > 1e-12 or ti.curve.cid != cid:
                return bad(f"{ti}: price {ti.prices}, curve {ti.curve.cid}")
            if {k: d[k] for k in ("cid", "tknin", "amtin", "tknout", "amtout")} != dict(zip(("cid", "tknin", "amtin", "tknout", "amtout"), w)):
                return bad(f"dict {d}, must be {w}")
        if want and not noise:
            df = r.trade_instructions("dfraw")
            for (cid, b, q, dx, dy), (ix, row) in zip(want, df.iterrows()):
                if ix != cid or row[b] != dx or row[q] != dy or row["tknin"] != (b if dx > 0 else q) or row["tknout"] != (q if dx > 0 else b):
                    return bad(f"table row {ix} {dict(row)}, must be {(cid, b, q, dx, dy)}")
            ta = r.trade_instructions("dfaggr")
            for t in {x for w in want for x in w[1:3]}:
                amts = [dx for _, b, _, dx, _ in want if b == t] + [dy for _, _, q, _, dy in want if q == t]
                g = sum(map(abs, amts))
                for row, v in (("TOTAL NET", sum(amts)), ("AMMIn", sum(a for a in amts if a > 0)), ("AMMOut", sum(a for a in amts if a < 0))):
                    got = ta.loc[row][t]
                    if not abs((0 if got != got else got) - v) <= 1e-9 * g:
                        return bad(f"aggregated table {row} {t} is {got!r}, must be {v!r}")
        return True


class C32(Arb):
    pid = "C32"
    quick_runs = 700
    rule = ("a run is non-trivial when at least one optimization converged with a non-zero trade; distinct histories are counted by the sequence of "
            "(optimizer, target, outcome, fault), distinct states by the digest of all optimal trades")

    def generate(self, rng, tier):
        toks = rng.sample(TOK, rng.choice([2, 2, 3, 3, 4, 5]))
        wide = rng.random() < .5
        curves = gen_curves(rng, toks, rng.randint(1, 9), wide)
        tame = rng.random() < .25            # pools of similar size and prices, all tokens traded against the first: must be solved
        if tame:
            curves = tame_curves(rng, toks)
        ops = []
        for _ in range(rng.randint(1, 4) * (1 if tier == "quick" else rng.choice([1, 2]))):
            o = {"op": rng.choices(["margp", "simple", "trade"], [5, 3, 2])[0], "t": rng.choice([0, 0, 0, 1, 2, 3]), "seed": rng.getrandbits(30)}
            if tame and rng.random() < .7:
                o["tt"] = toks[0]
            if o["op"] == "margp":
                o["how"] = rng.choice(["plain", "plain", "pstart_df", "pstart_dict", "minimal", "noisy", "estimate"])
                o["adopt"] = rng.random() < .3
                if rng.random() < .35:
                    o["fault"] = [rng.getrandbits(20), rng.choice(FAULTS)]
                elif rng.random() < .15:
                    o["out"] = rng.randint(1, 30)
                if rng.random() < .3:
                    o["clock"] = [rng.choice([0, .1, 3600, -3600, -1e9]) for _ in range(3)]
                if rng.random() < .3:
                    o["twin"] = rng.choice(["order", "names", "names"])
            ops.append(o)
        return {"curves": curves, "wide": wide, "ops": ops}

    def shrink_fields(self, op):
        for k in ("fault", "out", "clock", "twin"):
            if k in op:
                yield {x: v for x, v in op.items() if x != k}
        if op.get("how", "plain") != "plain":
            yield dict(op, how="plain")

    def optimize(self, om, cc, tt, result=None, params=None):
        """(kind, result or text)"""
        try:
            r = om.CPCArbOptimizer(cc).margp_optimizer(tt, result=result, params=params)
        except Exception as ex:
            return "raised", f"{type(ex).__name__}: {str(ex)[:60]}"
        return ("error", r.errormsg) if r.is_error else ("ok", r)

    @staticmethod
    def brief(kind, r):
        return (kind, r) if kind != "ok" else (kind, repr(r.result), tuple(map(repr, (float(x) for x in r.p_optimal_t))), r.tokens_t, r.n_iterations)

    def run(self, p, res):
        import carbon.tools.optimizer as om
        from carbon.tools.cpc import CPCContainer
        curves = [build(d) for d in p["curves"]]
        hist = []
        for i, o in enumerate(p["ops"]):
            if res.violations:
                return
            res.simtime += 1
            desc = f"op {i} {o}"
            rng = random.Random(o["seed"])
            toks = sorted({t for c in curves for t in c.pair.split("/")})
            if o["op"] == "trade":
                j = rng.randrange(len(curves))
                c = curves[j]
                f = rng.choice([.01, .1, .5])
                lim = c.dy_min if rng.random() < .5 else None
                try:
                    n = c.execute(dy=f * lim) if lim is not None else c.execute(dx=-f * c.x_act)
                except Exception:
                    continue
                n.setcid(c.cid) if n.cid is None else object.__setattr__(n, "cid", c.cid)
                curves[j] = n
                continue
            before = snap(curves)
            if o["op"] == "simple":
                oc = self.simple(om, CPCContainer, curves, p["wide"], rng, res, desc, i)
            else:
                oc, curves2 = self.margp(om, CPCContainer, curves, toks, o, rng, res, desc, i)
            if snap(curves) != before and not res.violations:
                res.violate("curves were changed", f"{desc}: {before} is now {snap(curves)}", i)
            if o["op"] == "margp" and o["adopt"] and curves2 is not None:
                curves = curves2
            hist.append([o["op"], oc[0], len(curves)])
            res.trace.append(json.dumps([o["op"], oc]))
            res.states.add(h8(oc))
        res.inter.add(h8([hist, [c["pair"] for c in p["curves"]]]))

    def margp(self, om, CC, curves, toks, o, rng, res, desc, i):
        tt = p0 = None
        base = [c["pair"] for c in ()]  # noqa
        order = sorted(toks, key=lambda t: -sum(t in c.pair.split("/") for c in curves))
        tt = o["tt"] if o.get("tt") in toks else order[o["t"] % len(order)]
        desc += f" target {tt}"
        cc = CC(list(curves))
        if o.get("clock"):
            om.time = Clock(o["clock"])
            res.faults["clock jumps"] += 1
        fired = None
        if o.get("fault") or o.get("out"):
            def go():
                return om.CPCArbOptimizer(cc).margp_optimizer(tt, params=dict(verbose=True, progress=True, debug=bool(o["seed"] % 3 == 0), tknd=True))
            try:
                if o.get("out"):
                    sys.stdout = NullOut(break_at=o["out"])
                    try:
                        go()
                    finally:
                        fired = sys.stdout.fired
                        sys.stdout = NullOut()
                    if fired:
                        res.faults["stdout broken"] += 1
                else:
                    u, exc = o["fault"]
                    t0 = Tracer(record=True)
                    try:
                        with t0:
                            go()
                    except Exception:
                        pass
                    tr = Tracer(at=pick_site(random.Random(u), t0.sites), exc=exc)
                    try:
                        with tr:
                            go()
                    finally:
                        if tr.fired:
                            res.faults[f"{exc} in {tr.fired[1]}"] += 1
            except Exception:
                pass
            except BaseException:
                if not o.get("fault"):
                    raise
            if list(cc.curves) != list(curves) or any(a is not b for a, b in zip(cc.curves, curves)):
                res.violate("curves were changed", f"{desc}: container after an interrupted optimization", i)
                return ["broken"], None
        k, r = self.optimize(om, cc, tt)
        k2, r2 = self.optimize(om, CC([build_copy(c) for c in curves]), tt)
        if self.brief(k, r) != self.brief(k2, r2):
            res.violate("not deterministic", f"{desc}: {self.brief(k, r)} and {self.brief(k2, r2)} on the same curves", i)
            return ["x"], None
        if k != "ok":
            if easy(curves, tt):
                res.violate("solvable market refused", f"{desc}: {r} for pools of similar size and price {[(c.pair, c.p, c.x) for c in curves]}", i)
            return [k, str(r)[:40]], None
        if easy(curves, tt):
            res.stats["markets that must be solved"] += 1
        if not self.check_margp(curves, tt, r, res, desc, i):
            return ["x"], None
        dd = r.dxdyvalues()
        if not self.check_instructions(om, r, curves, [(c.cid, *c.pair.split("/")) for c in curves], dd, res, desc, i):
            return ["x"], None
        net, gross, liq = flows(curves, dd)
        pr = dict(r.p_optimal)
        pr[tt] = 1.0
        ulp = ulps(curves)
        scale = sum(pr[t] * (1e-3 * gross[t] + 1e-5 * liq[t] + ulp[t]) for t in pr)
        if any(gross[t] > 1e-6 * liq[t] for t in gross):
            res.nontrivial = True
        # other ways to ask the same question
        how = o["how"]
        alt = None
        if how == "minimal":
            alt = self.optimize(om, cc, tt, result=om.CPCArbOptimizer.MO_MINIMAL)
            if alt[0] == "ok" and (alt[1].p_optimal is not None or alt[1].curves is not None or alt[1].optimizer is not None):
                res.violate("formats disagree", f"{desc}: minimal result is not minimal", i)
        elif how == "noisy":
            alt = self.optimize(om, cc, tt, params=dict(verbose=True, progress=True, debug=True, debug2=True, tknd=True, J=True))
        elif how in ("estimate", "pstart_df", "pstart_dict"):
            try:
                df = om.CPCArbOptimizer(cc).margp_optimizer(tt, result=om.CPCArbOptimizer.MO_PSTART)
            except Exception as ex:
                res.violate("formats disagree", f"{desc}: start prices: {ex!r}", i)
                return ["x"], None
            if how == "estimate":
                for t in pr:
                    if t == tt:
                        continue
                    data = [(c.p if c.pair == f"{t}/{tt}" else 1 / c.p, math.sqrt(c.k)) for c in curves
                            if set(c.pair.split("/")) == {t, tt} and not c.at_boundary]
                    w = sum(a * b for a, b in data) / sum(b for _, b in data)
                    if abs(float(df[tt][t]) / w - 1) > 1e-9:
                        res.violate("wrong price estimate", f"{desc}: {t} costs {df[tt][t]!r}, must be {w!r}", i)
            else:
                alt = self.optimize(om, cc, tt, params=dict(pstart=df if how == "pstart_df" else {**dict(df[tt]), "XYZ": 1.}))
        if alt and self.brief(*alt) != self.brief(k, r):
            res.violate("formats disagree", f"{desc}: {self.brief(*alt)}, plain {self.brief(k, r)}", i)
        # the same market with its curves or tokens in another order or under other names
        if o.get("twin") and not res.violations:
            ix = list(range(len(curves)))
            rn = None
            if o["twin"] == "order":
                rng.shuffle(ix)
            else:
                rn = dict(zip(sorted(pr), rng.sample([f"T{j}" for j in range(20)], len(pr))))
            tw = [build_copy(curves[j], rn) for j in ix]
            kt, rt = self.optimize(om, CC(tw), rn[tt] if rn else tt)
            if kt == "ok":
                if not self.check_margp(tw, rn[tt] if rn else tt, rt, res, desc + " twin", i):
                    return ["x"], None
                if abs(rt.result - r.result) > 2.1 * scale:
                    res.violate("result depends on names or order", f"{desc}: {r.result!r} or {rt.result!r}, tolerance {scale!r}", i)
        # trading the result leaves nothing to be had
        cn = None
        if not res.violations:
            cnc = r.curves_new
            if cnc is None:
                res.violate("result can not be executed", f"{desc}: curves_new is None", i)
                return ["x"], None
            cn = list(cnc)
            for c, n, (dx, dy) in zip(curves, cn, dd):
                if n.pair != c.pair or n.k != c.k or n.fee != c.fee or abs(n.x - c.x - dx) > 1e-9 * c.x or abs(n.x_act - c.x_act - dx) > 1e-8 * c.x or \
                        abs(n.y_act - c.y_act - dy) > 1e-8 * c.y:
                    res.violate("result can not be executed", f"{desc}: curve {c.cid} {c} becomes {n}", i)
                    return ["x"], None
            ka, ra = self.optimize(om, CC(cn), tt, params=dict(pstart={t: v for t, v in pr.items()}))
            if ka == "ok" and abs(ra.result) > 2.1 * scale:
                res.violate("arbitrage is left after the arbitrage", f"{desc}: {ra.result!r} after {r.result!r}, tolerance {scale!r}", i)
            for c, n in zip(curves, cn):
                object.__setattr__(n, "cid", c.cid)
        return ["ok", repr(float(r.result)), [[repr(float(a)), repr(float(b))] for a, b in dd]], cn

    def simple(self, om, CC, curves, wide, rng, res, desc, i):
        pairs = sorted({tuple(sorted(c.pair.split("/"))) for c in curves})
        pr = rng.choice(pairs)
        mine = [c for c in curves if tuple(sorted(c.pair.split("/"))) == pr]
        tt = rng.choice(pr)
        oth = pr[0] if tt == pr[1] else pr[1]
        desc += f" {pr} target {tt}"
        cc = CC(mine)
        vecs = {c.cid: (c, *c.pair.split("/")) for c in mine}

        def net(p):             # p: price of oth in tt; flows into the curves (oth, tt)
            no = nt = 0
            for c in mine:
                b, q = c.pair.split("/")
                dx, dy = ref_dxdy(c, p if b == oth else 1 / p)
                no, nt = (no + dx, nt + dy) if b == oth else (no + dy, nt + dx)
            return no, nt
        ps = [c.p if c.pair.split("/")[0] == oth else 1 / c.p for c in mine]
        lo, hi = min(ps) * .99, max(ps) * 1.01
        vo = sum(c.x if c.pair.split("/")[0] == oth else c.y for c in mine)
        vt = sum(c.x if c.pair.split("/")[0] == tt else c.y for c in mine)
        try:
            r = om.CPCArbOptimizer(cc).simple_optimizer(tt)
        except ValueError as ex:
            a, b = net(lo)[0], net(hi)[0]
            if min(abs(a), abs(b)) > 1e-9 * vo:
                res.violate("solvable market refused", f"{desc}: {ex!r}, flows {a!r} and {b!r}", i)
            return ["raised"]
        except Exception as ex:
            res.violate("solvable market refused", f"{desc}: {ex!r}", i)
            return ["x"]
        if r.is_error:
            res.violate("solvable market refused", f"{desc}: {r.errormsg}", i)
            return ["x"]
        r2 = om.CPCArbOptimizer(CC([build_copy(c) for c in mine])).simple_optimizer(tt)
        if float(r2.result) != float(r.result) or float(r2.p_optimal) != float(r.p_optimal):
            res.violate("not deterministic", f"{desc}: {r2} {r}", i)
        dd = []
        for c, w, (a, b) in zip(mine, r.curves, r.dxdy_vec):
            bq, qq = c.pair.split("/")
            if w.cid != c.cid or {w.tknx, w.tkny} != {bq, qq}:
                res.violate("wrong trades", f"{desc}: curve {w.cid} for {c.cid}", i)
                return ["x"]
            dx, dy = (a, b) if w.tknx == bq else (b, a)
            x = on_curve(c, dx, dy)
            if x:
                res.violate("impossible trade", f"{desc}: curve {c.cid}: {x}", i)
                return ["x"]
            dd.append((float(dx), float(dy)))
        if not self.check_instructions(om, r, mine, [(w.cid, w.tknx, w.tkny) for w in r.curves], [(float(a), float(b)) for a, b in r.dxdy_vec], res, desc, i):
            return ["x"]
        n, g, _ = flows(mine, dd)
        eps = 4e-6
        if abs(n[oth]) > eps * vo:
            res.violate("not self-financing", f"{desc}: net {oth} is {n[oth]!r}, virtual amount {vo!r}, price {r.p_optimal!r}", i)
        elif abs(float(r.result) - n[tt]) > 1e-9 * vt:
            res.violate("result is not the net flow", f"{desc}: result {r.result!r}, net {n[tt]!r}", i)
        else:
            a, b = lo, hi
            for _ in range(200):
                m = math.sqrt(a * b)
                if not a < m < b:
                    break
                if net(m)[0] > 0:
                    a = m
                else:
                    b = m
            best = net(a)[1]
            if n[tt] > best + eps * vt + eps * vo * hi:
                res.violate("not the best trade", f"{desc}: {n[tt]!r}, possible {best!r}, virtual amount {vt!r}", i)
        if g[tt] > 1e-6 * vt:
            res.nontrivial = True
        return ["ok", repr(float(r.result)), [[repr(a), repr(b)] for a, b in dd]]


def build_copy(c, rename=None):
    from carbon.tools.cpc import ConstantProductCurve as CPC
    a, b = c.pair.split("/")
    if rename:
        a, b = rename[a], rename[b]
    return CPC(k=c.k, x=c.x, x_act=c.x_act, y_act=c.y_act, pair=f"{a}/{b}", cid=c.cid, fee=c.fee, descr=c.descr, constr=c.constr, params=dict(c.params))


class C33(Arb):
    """a simulated chain: pools are replaced by their executed versions, transactions of noise traders
    and of the legs of arbitrage plans arrive in the order the scheduler decides"""
    pid = "C33"
    quick_runs = 900
    rule = ("a run is non-trivial when at least one arbitrage leg was executed; distinct interleavings are counted by the order of "
            "(actor, event, outcome), distinct states by the digest of all pool holdings")

    def generate(self, rng, tier):
        toks = rng.sample(TOK, rng.choice([2, 2, 3, 3, 4]))
        full = rng.random() < .6
        curves = gen_curves(rng, toks, rng.randint(2, 7), True, ("pk",) if full else ("pk", "pk", "uv3", "uv3", "carb"), .03)
        if full:                # every token trades directly against the first one
            for j, t in enumerate(toks[1:]):
                if not any(set(c["pair"].split("/")) == {toks[0], t} for c in curves):
                    curves += [dict(c, cid=f"d{j}") for c in gen_curves(rng, [toks[0], t], 1, True, ("pk",), .03)]
        nb = rng.randint(1, 3)
        tame = full and rng.random() < .6
        ops = []
        for _ in range(rng.randint(8, 30) * (1 if tier == "quick" else rng.choice([1, 3]))):
            k = rng.choices(["noise", "plan", "leg", "crash", "atomic"], [3, 3, 7, 1, 2])[0]
            o = {"op": k, "seed": rng.getrandbits(30)}
            if k != "noise":
                o["b"] = rng.randrange(nb)
            if k in ("plan", "atomic"):
                o.update(how=rng.choice(["margp", "margp", "simple"]), t=0 if rng.random() < .8 else rng.randrange(9))
            if k == "leg":
                o.update(net=rng.choices(["ok", "lost", "twice", "late"], [8, 1, 1, 1])[0], slip=rng.choice([.0001, .01, .5]))
            if k == "noise":
                o.update(f=rng.choice([.001, .01, .02, .05, .1] if tame else [.0001, .01, .05, .05, .2, .5, .9, 1.0, 1.001]), exact=rng.choice(["in", "out"]))
            ops.append(o)
        return {"curves": curves, "toks": toks, "full": full, "nb": nb, "ops": ops}

    def shrink_fields(self, op):
        if op.get("net", "ok") != "ok":
            yield dict(op, net="ok")

    # -- the chain
    def trade(self, j, dx=None, dy=None):
        """execute on pool j; returns (dx, dy) or None if refused"""
        c = self.pool[j]
        before = snap([c])
        y = c.k / c.x
        quote = None
        try:
            if (j + self.version[j]) % 3:
                n = c.execute(dx=dx, dy=dy)
            else:                       # the same trade against the adaptor for the reverse pair
                from carbon.tools.cpc import CPCInverter
                v = CPCInverter(c)
                self.mirror(c, v)
                quote = v.dxfromdy_f(dx) if dx is not None else v.dyfromdx_f(dy)
                n, = CPCInverter.unwrap([v.execute(dx=dy, dy=dx)])
        except (ValueError, AssertionError, ZeroDivisionError) as ex:
            n, err = None, ex
        if snap([c]) != before:
            self.bad("executing a trade changes the curve object", f"curve {before} is now {snap([c])}")
        a, b = (c.x_act, c.y_act) if c.x_act is not None else (0, 0)
        if n is None:
            # a trade that the holdings of the pool allow must be accepted
            if dx is not None:
                out_ok = dx >= -a if dx < 0 else (y - c.k / (c.x + dx)) <= b * (1 - 1e-9)
            else:
                out_ok = dy >= -b if dy < 0 else (c.x - c.k / (y + dy)) <= a * (1 - 1e-9)
            if out_ok and (dx or dy) and min(a, b) >= 0:
                self.bad("valid trade refused", f"pool {j} {c}: dx={dx!r} dy={dy!r}: {err!r}")
            return None
        tx, ty = n.x_act - c.x_act, n.y_act - c.y_act
        if quote is not None:
            got, scale = (ty, y + n.k / n.x) if dx is not None else (tx, c.x + n.x)
            if abs(quote - got) > 1e-12 * scale:
                self.bad("the reverse view quotes another trade", f"{c}: dx={dx!r} dy={dy!r} quoted {quote!r}, executed {got!r}")
        if n.k != c.k or n.pair != c.pair or n.fee != c.fee:
            self.bad("trade changes the pool constant", f"{c} becomes {n}")
        elif abs(n.x - c.x - tx) > 1e-12 * (c.x + n.x) or abs(n.k / n.x - y - ty) > 1e-12 * (y + n.k / n.x):
            self.bad("holdings do not follow the trade", f"{c} becomes {n}")
        elif dx is not None and abs(n.x - c.x - dx) > 1e-12 * (c.x + n.x) or dy is not None and abs(n.k / n.x - y - dy) > 1e-12 * (y + n.k / n.x):
            self.bad("another amount is traded", f"dx={dx!r} dy={dy!r}: {c} becomes {n}")
        elif n.y_act < -1e-6 * c.y_act - 3e-12 * max(y, n.k / n.x) or n.x_act < -1e-6 * c.x_act - 3e-12 * c.x:
            self.bad("pool pays out more than it holds", f"dx={dx!r} dy={dy!r}: {c} becomes {n}")
        x0, y0 = self.virt[j]
        if abs(n.x - n.x_act - x0) > 1e-9 * (n.x + x0) or abs(n.k / n.x - n.y_act - y0) > 1e-9 * (n.k / n.x + y0):
            self.bad("trade moves the range of the pool", f"pool {j}: {n}, minimum virtual amounts were {x0!r}, {y0!r}")
        object.__setattr__(n, "cid", c.cid)
        self.pool[j] = n
        self.version[j] += 1
        return tx, ty

    def mirror(self, c, v):
        """the adaptor reports the same pool from the other side"""
        inv = lambda z: None if z is None else 1 / z
        want = dict(x=c.y, y=c.x, x_act=c.y_act, y_act=c.x_act, x_min=c.y_min, y_min=c.x_min, x_max=c.y_max, y_max=c.x_max, k=c.k,
                    tknx=c.tkny, tkny=c.tknx, tknb=c.tknq, tknq=c.tknb, p=1 / c.p, p_min=inv(c.p_max), p_max=inv(c.p_min), cid=c.cid,
                    pair=f"{c.tknq}/{c.tknb}")
        for k, w in want.items():
            try:
                g = getattr(v, k)
            except Exception as ex:
                g = ex
            if not (g == w or isinstance(g, float) and isinstance(w, float) and abs(g - w) <= 1e-12 * abs(w)):
                self.bad("the reverse view misreports the pool", f"{c}: {k} is {g!r}, must be {w!r}")
                return

    def bad(self, kind, msg):
        self.res.violate(kind, f"{self.desc}: {msg}", self.i)

    def settle(self, who, j, tr):
        b, q = self.pool[j].pair.split("/")
        for t, a in ((b, tr[0]), (q, tr[1])):
            self.led[who][t] = self.led[who].get(t, 0) - a

    def plan(self, om, CC, o, rng):
        """(legs, promised flows per token, gross) computed on a snapshot of the pools"""
        toks = sorted({t for c in self.pool for t in c.pair.split("/")})
        tt = self.p["toks"][0] if o["t"] == 0 and self.p["toks"][0] in toks else toks[o["t"] % len(toks)]
        if o["how"] == "margp":
            try:
                r = om.CPCArbOptimizer(CC(list(self.pool))).margp_optimizer(tt)
            except Exception as ex:
                return "raised " + type(ex).__name__, None
            if r.is_error:
                return "error", None
            if not self.check_margp(self.pool, tt, r, self.res, self.desc, self.i):
                return "x", None
            legs = [(j, float(d[0]), float(d[1])) for j, d in enumerate(r.dxdyvalues())]
        else:
            if o.get("pair"):
                pr, tt = tuple(o["pair"]), o["pair"][0]
            else:
                pr = rng.choice(sorted({tuple(sorted(c.pair.split("/"))) for c in self.pool if tt in c.pair.split("/")}))
            ix = [j for j, c in enumerate(self.pool) if tuple(sorted(c.pair.split("/"))) == pr]
            try:
                r = om.CPCArbOptimizer(CC([self.pool[j] for j in ix])).simple_optimizer(tt)
            except ValueError:
                return "raised", None
            if r.is_error:
                return "error", None
            legs = []
            for j, w, (a, b) in zip(ix, r.curves, r.dxdy_vec):
                dx, dy = (a, b) if w.tknx == self.pool[j].pair.split("/")[0] else (b, a)
                legs.append((j, float(dx), float(dy)))
        net, gross, _ = flows([self.pool[j] for j, _, _ in legs], [(a, b) for _, a, b in legs])
        return legs, dict(tt=tt, net=net, gross=gross, result=float(r.result), how=o["how"])

    def noise(self, o, rng):
        j = rng.randrange(len(self.pool))
        c = self.pool[j]
        side = rng.random() < .5            # which token the trader wants
        y = c.k / c.x
        # a pool without a range limit can not be emptied
        whole = c.x_act >= c.x * (1 - 1e-12) if side else c.y_act >= y * (1 - 1e-12)
        f = min(o["f"], .95) if whole else o["f"]
        if o["exact"] == "out":
            tr = self.trade(j, dx=-f * max(c.x_act, 0)) if side else self.trade(j, dy=-f * max(c.y_act, 0))
        elif side:
            tr = self.trade(j, dy=c.k / (c.x - f * max(c.x_act, 0)) - y)
        else:
            tr = self.trade(j, dx=c.k / (y - f * max(c.y_act, 0)) - c.x)
        if tr is None:
            return "refused"
        if tr[0] * tr[1] > 0 and max(abs(tr[0]) / c.x, abs(tr[1]) / c.y) > 1e-12:
            self.bad("tokens for nothing", f"{c}: {tr}")
        self.settle("noise", j, tr)
        return "done"

    def run(self, p, res):
        import carbon.tools.optimizer as om
        from carbon.tools.cpc import CPCContainer as CC
        self.p, self.res = p, res
        self.pool = [build(d) for d in p["curves"]]
        self.version = [0] * len(self.pool)
        self.virt = [(c.x - c.x_act, c.k / c.x - c.y_act) for c in self.pool]
        self.led = {"noise": {}, **{b: {} for b in range(p["nb"])}}
        self.start = flows(self.pool, [(c.x_act, c.y_act) for c in self.pool])[0]
        plans = {b: None for b in range(p["nb"])}
        hist = []
        for i, o in enumerate(p["ops"]):
            if res.violations:
                return
            self.i, self.desc = i, f"op {i} {o}"
            rng = random.Random(o["seed"])
            res.simtime += 1
            k, b = o["op"], o.get("b")
            oc = "-"
            if k == "noise":
                oc = self.noise(o, rng)
            elif k == "crash":
                if plans[b]:
                    res.faults["bot crashed between two legs"] += 1
                    plans[b] = None         # the plan is in memory only; balances are on the chain
            elif k == "plan":
                legs, info = self.plan(om, CC, o, rng)
                oc = legs if info is None else "ok"
                if info:
                    legs = [x for x in legs if x[1] != 0 or x[2] != 0]
                    rng.shuffle(legs)
                    plans[b] = dict(legs=legs, ver=list(self.version))
            elif k == "leg" and plans[b] and plans[b]["legs"]:
                oc = self.leg(o, plans[b], b)
                if not plans[b]["legs"]:
                    plans[b] = None
            elif k == "atomic":
                oc = self.atomic(om, CC, o, b, rng)
            self.balance()
            hist.append([k, b, oc])
            res.trace.append(json.dumps([hist[-1], [[repr(c.x), repr(c.x_act), repr(c.y_act)] for c in self.pool]]))
            res.states.add(h8([[float(f"{c.x:.6g}"), float(f"{c.x_act:.6g}")] for c in self.pool]))
        if not res.violations:
            self.i, self.desc = len(p["ops"]), "after the last fault"
            hist.append(self.calm(om, CC))
            res.trace.append(json.dumps(hist[-1]))
        res.inter.add(h8(hist))

    def balance(self):
        """what the traders gained is what the pools lost, token by token"""
        now = flows(self.pool, [(c.x_act, c.y_act) for c in self.pool])[0]
        virt = flows(self.pool, [(c.x, c.k / c.x) for c in self.pool])[1]
        for t in self.start:
            d = now[t] - self.start[t] + sum(led.get(t, 0) for led in self.led.values())
            if abs(d) > 1e-11 * (virt[t] + self.start[t]) * (1 + sum(self.version)):
                self.bad("tokens appear or vanish", f"{t}: {d!r}")

    def leg(self, o, plan, b):
        j, dx, dy = plan["legs"].pop()
        if o["net"] == "lost":
            self.res.faults["transaction lost"] += 1
            return "lost"
        if o["net"] == "late" and plan["legs"]:
            self.res.faults["transaction delayed"] += 1
            plan["legs"].insert(0, (j, dx, dy))
            return "late"
        if self.version[j] != plan["ver"][j]:
            self.res.faults["pool traded between plan and leg"] += 1
        for n in range(2 if o["net"] == "twice" else 1):
            if n:
                self.res.faults["transaction duplicated"] += 1
            # the bot pays the amount it planned and accepts a slippage
            c = self.pool[j]
            if dx > 0:
                y = c.k / c.x
                if -(c.k / (c.x + dx) - y) < -dy * (1 - o["slip"]):
                    return "slipped"
                tr = self.trade(j, dx=dx)
            else:
                if -(c.k / (c.k / c.x + dy) - c.x) < -dx * (1 - o["slip"]) or c.k / c.x + dy <= 0:
                    return "slipped"
                tr = self.trade(j, dy=dy)
            if tr is None:
                return "refused"
            self.settle(b, j, tr)
            self.res.nontrivial = True
        return "twice" if o["net"] == "twice" else "ok"

    def atomic(self, om, CC, o, b, rng):
        """plan and all legs without anybody in between: what was promised is delivered"""
        legs, info = self.plan(om, CC, o, rng)
        if info is None:
            return legs
        before = dict(self.led[b])
        vers = flows(self.pool, [(c.x, c.k / c.x) for c in self.pool])[1]
        rng.shuffle(legs)
        edge = False
        for j, dx, dy in legs:
            if dx == 0 and dy == 0:
                continue
            c = self.pool[j]
            tr = self.trade(j, dx=dx) if dx > 0 else self.trade(j, dy=dy)
            if tr is None:
                # exactly at the end of its range the last units may be refused
                if min(abs(c.x_act + dx) - 1e-6 * abs(c.x_act) - 1e-9 * c.x, abs(c.y_act + dy) - 1e-6 * abs(c.y_act) - 1e-9 * c.y) > 0:
                    self.bad("promised trade refused", f"pool {c}: {dx!r}, {dy!r}")
                edge = True
                continue
            self.settle(b, j, tr)
        if edge or self.res.violations:
            return "edge"
        self.res.nontrivial = True
        tt = info["tt"]
        for t in info["net"]:
            got = self.led[b].get(t, 0) - before.get(t, 0)
            if abs(got + info["net"][t]) > 1e-9 * (info["gross"][t]) + 1e-11 * vers[t]:
                self.bad("promised profit not delivered", f"{t}: {got!r}, promised {-info['net'][t]!r}")
        got = self.led[b].get(tt, 0) - before.get(tt, 0)
        if abs(got + info["result"]) > 1e-9 * info["gross"][tt] + 1e-11 * vers[tt]:
            self.bad("promised profit not delivered", f"{got!r} {tt}, promised {-info['result']!r}")
        return "ok"

    def prices(self):
        """True if no two prices in the market disagree by more than 1e-3 (all pools unlimited)"""
        tt = self.p["toks"][0]
        pr = {tt: 1.0}
        worst = 0
        for _ in self.p["toks"]:
            for c in self.pool:
                b, q = c.pair.split("/")
                if q in pr and b not in pr:
                    pr[b] = c.p * pr[q]
                elif b in pr and q not in pr:
                    pr[q] = pr[b] / c.p
        for c in self.pool:
            b, q = c.pair.split("/")
            worst = max(worst, abs(math.log(c.p * pr[q] / pr[b])))
        return worst

    def calm(self, om, CC):
        """nobody else trades and nothing fails: the bots exhaust the arbitrage in a few rounds"""
        self.desc = "after the last fault"
        t0 = {"how": "margp", "t": 0}
        if not self.p["full"]:
            rounds = []
            for n in range(3):
                oc = self.atomic(om, CC, t0, 0, random.Random(n))
                if self.res.violations:
                    return "x"
                rounds.append(oc)
                self.balance()
            legs, info = self.plan(om, CC, t0, random.Random(0))
            return [rounds, legs if info is None else "ok"]
        w0 = self.prices()
        if 1e-3 < w0 < .4:
            self.res.stats["markets required to come to rest"] += 1
        for n in range(8):
            if self.prices() < 1e-3:
                return ["calm", n]
            # a bot whose optimization is not solvable from the averaged prices tries each pair first
            oc = self.atomic(om, CC, t0, 0, random.Random(n))
            if oc in ("error",) or str(oc).startswith("raised"):
                for pr in sorted({tuple(sorted(c.pair.split("/"))) for c in self.pool}):
                    self.atomic(om, CC, {"how": "simple", "t": 0, "pair": pr}, 0, random.Random(n))
            if self.res.violations:
                return "x"
            self.balance()
        w = self.prices()
        # Newton's method from averaged prices is not claimed to find markets that are far out of line
        if w > 2e-2 and w0 < .4:
            self.bad("arbitrage is not exhausted", f"prices disagreed by {w0!r} and still by {w!r} after 8 undisturbed rounds")
        return ["calm", 8]
